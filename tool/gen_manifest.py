#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the tables below."""
import json
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
TECH="contract-based deductive verification: weakest-precondition style symbolic execution of the SSA of /repo against written contracts, obligations discharged by z3/cvc5 (goverify, /verif/tool)"
NOTES={
 'C06':"all 28 scalar writers/readers and the buffer growth under contract, for all inputs; floats are bit patterns",
 'C07':"writer, size functions and reader for all 64-bit values and all inputs; decoding value stated for encodings of at most 10 bytes, longer ones (redundant zero digits) are only proved safe",
 'C08':"all slice writers/readers for all lengths by loop invariants; the source slice is assumed not to overlap the writer's spare room; reflection wrappers are not part of the proof",
 'C09':"all primitive readers, every input, every requested size; reflection-driven reads are not part of the proof",
 'C10':"every primitive writer preserves everything outside its spare room, Written hands out a capacity-limited slice and moves the window past it",
}
NA={}
exec(open('/verif/tool/manifest_extra.py').read())
checks=[]
for p in sorted(NOTES):
    checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":TECH,"level":"proof","level_note":NOTES[p]})
na=[{"property":p,"reason":NA.get(p,"no contract for it has been completed yet")} for p in sorted(props) if p not in NOTES]
json.dump({"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
