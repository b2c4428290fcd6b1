package main

// Loading of /repo and the tables shared by all verification runs.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/funny-falcon/go-iproto"

type fieldRef struct {
	styp types.Type
	idx  int
}

type Program struct {
	Fset    *token.FileSet
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by path
	tpkgs   map[string]*types.Package
	leaks   map[leakKey]bool
	funcs   map[string]*ssa.Function // by RelString
	fields  []fieldRef
	fieldID map[string]int
	typeIDs map[string]int
	typeBy  []types.Type
	gids    map[*ssa.Global]int
	fids    map[*ssa.Function]int
	fnBy    map[int]*ssa.Function
	strs    map[string]int
	strBy   []string
	loops   map[*ssa.Function]*loopInfo
	gtab    map[*ssa.Global]map[int64]*big.Int
	gconst  map[*ssa.Global]bool // never stored to outside init
	ifIDs   map[string]int
	allocT  map[*Term]types.Type
	sizes   types.Sizes
	spec    *SpecSet
}

func loadProgram() (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repoDir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./", "./marshal", "./net", "./net/client", "./net/client/connection", "./net/server", "./sbox")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, Fset: prog.Fset, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{},
		fieldID: map[string]int{}, typeIDs: map[string]int{}, gids: map[*ssa.Global]int{}, fids: map[*ssa.Function]int{}, fnBy: map[int]*ssa.Function{},
		strs: map[string]int{}, loops: map[*ssa.Function]*loopInfo{}, gconst: map[*ssa.Global]bool{}, ifIDs: map[string]int{}, allocT: map[*Term]types.Type{}}
	P.sizes = types.SizesFor("gc", "amd64")
	P.typeBy = append(P.typeBy, nil)
	for _, p := range prog.AllPackages() {
		P.tpkgs[p.Pkg.Path()] = p.Pkg
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			P.pkgs[p.Pkg.Path()] = p
		}
	}
	prog.Build()
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Pkg != nil {
			P.funcs[f.RelString(nil)] = f
		}
	}
	// methods not reachable through AllFunctions (unused unexported ones)
	for _, p := range P.pkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							if f.Pkg != nil || f.Synthetic == "" {
								P.funcs[f.RelString(nil)] = f
								all[f] = true
							}
						}
					}
				}
			case *ssa.Function:
				P.funcs[x.RelString(nil)] = x
				all[x] = true
			}
		}
	}
	// globals that are only assigned during initialisation
	stored := map[*ssa.Global]bool{}
	for f := range all {
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch y := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if y.Addr == g && isInit {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					stored[g] = true
				}
			}
		}
	}
	P.findTables(all)
	for _, p := range prog.AllPackages() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				P.gconst[g] = !stored[g]
			}
		}
	}
	return P, nil
}

// findTables: arrays of numbers filled with constants by package initialisation, and
// only read elsewhere.
func (P *Program) findTables(all map[*ssa.Function]bool) {
	P.gtab = map[*ssa.Global]map[int64]*big.Int{}
	bad := map[*ssa.Global]bool{}
	for f := range all {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					at, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
					if !ok {
						continue
					}
					if bt, ok := at.Elem().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
						continue
					}
					if P.gtab[g] == nil {
						P.gtab[g] = map[int64]*big.Int{}
					}
					ia, ok := in.(*ssa.IndexAddr)
					if !ok {
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := in.(*ssa.DebugRef); ok {
							continue
						}
						if y, ok := in.(*ssa.Store); ok && y.Addr == g && isInit && b.Index <= 1 && len(P.gtab[g]) == 0 {
							if c, ok := y.Val.(*ssa.Const); ok && c.Value == nil {
								continue
							}
							if m := literalTable(y.Val); m != nil {
								P.gtab[g] = m
								continue
							}
						}
						bad[g] = true
						continue
					}
					for _, r := range *ia.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							ci, ok1 := ia.Index.(*ssa.Const)
							cv, ok2 := y.Val.(*ssa.Const)
							if !isInit || y.Addr != ia || !ok1 || !ok2 || cv.Value == nil || b.Index > 1 {
								bad[g] = true
								continue
							}
							n, ok3 := new(big.Int).SetString(cv.Value.ExactString(), 10)
							if !ok3 || P.gtab[g][ci.Int64()] != nil {
								bad[g] = true
								continue
							}
							P.gtab[g][ci.Int64()] = n
						default:
							bad[g] = true
						}
					}
				}
			}
		}
	}
	if os.Getenv("GVTAB") != "" {
		for g, m := range P.gtab {
			fmt.Println("table", g, m, bad[g])
		}
	}
	for g := range bad {
		delete(P.gtab, g)
	}
}

// literalTable: the array literal v holds, when it is made of constants.
func literalTable(v ssa.Value) map[int64]*big.Int {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	tab := map[int64]*big.Int{}
	for _, r := range *al.Referrers() {
		if r == u {
			continue
		}
		ia, ok := r.(*ssa.IndexAddr)
		if !ok || r.Block() != u.Block() {
			return nil
		}
		ci, ok := ia.Index.(*ssa.Const)
		if !ok || len(*ia.Referrers()) != 1 {
			return nil
		}
		y, ok := (*ia.Referrers())[0].(*ssa.Store)
		if !ok || y.Addr != ia {
			return nil
		}
		cv, ok := y.Val.(*ssa.Const)
		if !ok || cv.Value == nil {
			return nil
		}
		n, ok := new(big.Int).SetString(cv.Value.ExactString(), 10)
		if !ok || tab[ci.Int64()] != nil {
			return nil
		}
		tab[ci.Int64()] = n
	}
	return tab
}

func (ex *Exec) isTable(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	return ok && ex.prog.gtab[g] != nil
}

// tableLoad: an element of such an array.
func (ex *Exec) tableLoad(x *ssa.UnOp, ix *Term) *Term {
	tab := ex.prog.gtab[x.X.(*ssa.IndexAddr).X.(*ssa.Global)]
	var ks []int64
	for k := range tab {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	r := I(0)
	for _, k := range ks {
		if tab[k].Sign() != 0 {
			r = Ite(Eq(ix, I(k)), Num(tab[k]), r)
		}
	}
	return r
}

func (P *Program) emb(p *Term, sty types.Type, i int) *Term {
	k := structKey(sty) + "#" + fmt.Sprint(i)
	id, ok := P.fieldID[k]
	if !ok {
		id = len(P.fields)
		P.fields = append(P.fields, fieldRef{sty, i})
		P.fieldID[k] = id
	}
	return Emb(p, id)
}
func (P *Program) embField(p *Term, t types.Type) (fieldRef, bool) {
	f := P.fields[p.K.Int64()]
	return f, true
}

func (P *Program) typeID(t types.Type) int {
	k := typeKeyFull(t)
	if id, ok := P.typeIDs[k]; ok {
		return id
	}
	id := len(P.typeBy)
	P.typeIDs[k] = id
	P.typeBy = append(P.typeBy, t)
	return id
}
func typeKeyFull(t types.Type) string { return tstr(types.Unalias(t)) }

// tstr names a type; byte and uint8 (rune and int32, any and interface{}) are the same type.
func tstr(t types.Type) string {
	s := types.TypeString(t, qual)
	switch s {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	case "any":
		return "interface{}"
	}
	if strings.Contains(s, "byte") || strings.Contains(s, "any") || strings.Contains(s, "rune") {
		s = aliasRe.ReplaceAllStringFunc(s, func(m string) string {
			switch m[1:] {
			case "byte":
				return m[:1] + "uint8"
			case "rune":
				return m[:1] + "int32"
			}
			return m[:1] + "interface{}"
		})
	}
	return s
}

// predeclared names for the same types
var aliasRe = regexp.MustCompile(`[\]*({, ](byte|rune|any)\b`)

// implements says whether dynamic type id typ implements interface t.
func (P *Program) implements(typ *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return True
	}
	if typ.Op == OIte {
		return Ite(typ.Args[0], P.implements(typ.Args[1], t), P.implements(typ.Args[2], t))
	}
	if typ.isConst() {
		id := int(typ.K.Int64())
		if id == 0 {
			return False
		}
		if id < len(P.typeBy) {
			return B(types.Implements(P.typeBy[id], it))
		}
	}
	return App("impl:"+typeKeyFull(t), SBool, nil, nil, nil, typ)
}

func (P *Program) globalLoc(g *ssa.Global) *Term {
	id, ok := P.gids[g]
	if !ok {
		id = len(P.gids)
		P.gids[g] = id
	}
	return Obj(int64(1000000 + id))
}
func (P *Program) fnLoc(f *ssa.Function) *Term {
	id, ok := P.fids[f]
	if !ok {
		id = len(P.fids)
		P.fids[f] = id
		P.fnBy[id] = f
	}
	return Obj(int64(2000000 + id))
}
func (P *Program) fnOf(l *Term) *ssa.Function {
	if l.Op == OObj && l.Args[0].isConst() {
		n := l.Args[0].K.Int64() - 2000000
		if n >= 0 && n < 3000000 {
			return P.fnBy[int(n)]
		}
	}
	return nil
}
func (P *Program) strID(s string) int {
	id, ok := P.strs[s]
	if !ok {
		id = len(P.strBy)
		P.strs[s] = id
		P.strBy = append(P.strBy, s)
	}
	return id
}
func (P *Program) strByID(i int) (string, bool) {
	if i < 0 || i >= len(P.strBy) {
		return "", false
	}
	return P.strBy[i], true
}
func (P *Program) elemSize(t types.Type) int64 {
	n := P.sizes.Sizeof(t)
	if n < 1 {
		n = 1
	}
	return n
}
func (P *Program) noteAlloc(o *Term, t types.Type) { P.allocT[o] = t }

// constGlobal: globals assigned only by package initialisation are immutable.
func (ex *Exec) constGlobal(st *State, g *ssa.Global) Val {
	ext := g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if !ext && !ex.prog.gconst[g] {
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		if s.NumFields() == 0 {
			return &StructV{T: t}
		}
		return nil
	}
	if isArray(t) {
		return nil
	}
	var xs []*Term
	zero := 0
	for _, l := range leaves(t) {
		n := "g:" + g.RelString(nil) + l.suf
		if l.sort == SLoc {
			declare(n, nil, SLoc)
			xs = append(xs, hashcons(&Term{Op: OVar, Sort: SLoc, Name: n, hasMR: true, minRoot: 0}))
		} else {
			xs = append(xs, Var(n, l.sort, l.lo, l.hi))
		}
	}
	_ = zero
	v := fromLeaves(t, xs)
	if iv, ok := v.(*IfaceV); ok && types.TypeString(t, nil) == "error" {
		st.assume(Ne(iv.Typ, I(0)))
		ex.distinctErrors(st, g, iv)
	}
	if sv, ok := v.(*SliceV); ok {
		if n, arr, ok2 := initSliceLen(g); ok2 {
			_ = arr
			st.assume(Eq(sv.Len, I(n)))
		}
	}
	ex.wfAssume(st, v)
	return v
}

// distinctErrors: error globals made by errors.New are pairwise different values.
func (ex *Exec) distinctErrors(st *State, g *ssa.Global, iv *IfaceV) {
	id := ex.prog.globalLoc(g).Args[0].K.Int64()
	st.assume(Eq(App("errId", SInt, nil, nil, nil, iv.Data), I(id)))
	st.assume(Eq(iv.Typ, Var("errors.errorString", SInt, bi(1<<40), bi(1<<40))))
}

func initSliceLen(g *ssa.Global) (int64, *Term, bool) { return 0, nil, false }

func floatBits(v constant.Value, w uint) *Term {
	f, _ := constant.Float64Val(v)
	if w == 32 {
		return Num(new(big.Int).SetUint64(uint64(math.Float32bits(float32(f)))))
	}
	return Num(new(big.Int).SetUint64(math.Float64bits(f)))
}

// ---- natural loops ----
type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	backs  []*ssa.BasicBlock
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	list     []*loop
}

func (P *Program) loopsOf(f *ssa.Function) *loopInfo {
	if l, ok := P.loops[f]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	P.loops[f] = li
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
					li.list = append(li.list, l)
				}
				l.backs = append(l.backs, b)
				var rec func(x *ssa.BasicBlock)
				rec = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						rec(p)
					}
				}
				rec(b)
			}
		}
	}
	sort.Slice(li.list, func(i, j int) bool { return li.list[i].header.Index < li.list[j].header.Index })
	return li
}

func (P *Program) ghostEmb(k string, base *Term) *Term {
	id, ok := P.fieldID["ghost:"+k]
	if !ok {
		id = len(P.fields)
		P.fields = append(P.fields, fieldRef{})
		P.fieldID["ghost:"+k] = id
	}
	return Emb(base, id)
}
