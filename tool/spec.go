package main

// The contract language: parsing.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

type Expr struct {
	op   string // num, id, str, field, index, slice, call, un, bin, if, forall, exists, chain
	name string
	num  *big.Int
	args []*Expr
	pos  string
	typ  string // binder type
}

type Clause struct {
	kind  string // requires, ensures, modifies, invariant, ...
	tags  []string
	label string
	e     *Expr
	list  []*Expr
	text  string
	pos   string
	local bool // proved of the function, not used by its callers
}

type callClause struct {
	name string
	cl   *Clause
}

type FuncSpec struct {
	panics           []*Clause
	calls            []callClause // facts about each call, send or receive made here
	retains          []callClause // assumed of calls made here (listed as assumptions)
	steps            []*Clause    // facts about each change of an atomic field of the receiver made here
	sections         []*Clause    // two-state facts about each critical section of the receiver's lock
	spawn            []*Clause    // ghost assignments where the function is started as a goroutine
	impl, implMethod string       // the interface whose contract this method has
	key              string
	pkg              string
	recv             string
	params           []string
	results          []string
	props            []string
	requires         []*Clause
	ensures          []*Clause
	modifies         []*Clause
	invs             []*Clause
	assumes          []*Clause // assumed at entry, not asked of callers (listed as assumptions)
	setup            []*Clause // ghost assignments at entry
	update           []*Clause // ghost assignments at return
	unroll           int
	trusted          bool
	inline           bool
	mayPanic         bool
	pure             bool
	fnspec           bool // contract of a function type / field / interface method
	optional         bool
	noCut            bool
	file             string
	flags            map[string]bool
}

type Pred struct {
	name   string
	params []string
	body   *Expr
	pkg    string
}

type LockDecl struct {
	styp    string // struct key
	field   string
	guards  map[string]bool
	self    string
	inv     []*Clause
	pkg     string
	rely    []*Clause // two-state facts about what other holders may do: old() is the state at the last release
	havocs  []*Clause
	acquire []*Clause    // ghost assignments after the lock has been taken
	keeps   []callClause // obligations at each store to a field
	onstore []callClause // ghost assignments at each store to a field
}

type AtomicDecl struct {
	styp, field string
	self        string
	rely        *Expr // names: old, new
	guar        *Expr
	update      []*Clause // ghost assignments at each write by this thread
	reads       []*Clause // ... at each read
	writer      *Expr     // a role only one thread has: nobody else writes the word
	writerText  string
	grants      []*Clause // assumed after each write: what the value written gives to its writer
	pkg         string
	text        string
}

type GhostField struct {
	styp, name, typ string
	thread          bool // changed only as contracts say, never by "modifies *"
}

type SpecSet struct {
	funcs   map[string]*FuncSpec
	preds   map[string]*Pred
	locks   map[string]*LockDecl
	atomics map[string]*AtomicDecl
	ghosts  map[string]*GhostField
	chans   map[string]*Clause // channel field key -> invariant over "msg" and owner
	vols    map[string]bool
	fixed   map[string]bool
	owned   map[string]*Clause
	raw     map[string]string
}

var clauseKw = map[string]bool{"props": true, "requires": true, "ensures": true, "modifies": true, "invariant": true, "unroll": true,
	"trusted": true, "inline": true, "maypanic": true, "pure": true, "optional": true, "flag": true, "inv": true, "guards": true, "rely": true, "guar": true, "havocs": true, "setup": true, "assumes": true, "update": true, "acquire": true, "panics": true, "section": true, "step": true, "spawn": true, "calls": true, "retains": true, "implements": true, "shows": true, "reads": true, "grants": true, "writer": true, "keeps": true, "onstore": true}
var topKw = map[string]bool{"package": true, "pred": true, "func": true, "iface": true, "lock": true, "atomic": true, "ghost": true, "chan": true, "volatile": true, "fixed": true}

type line struct {
	kw, rest, pos string
}

func splitLines(file, src string) []line {
	var out []line
	for i, l := range strings.Split(src, "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		kw := t
		if j := strings.IndexFunc(t, func(r rune) bool { return !unicode.IsLetter(r) }); j >= 0 {
			kw = t[:j]
		}
		if (clauseKw[kw] || topKw[kw]) && !(len(t) > len(kw) && (t[len(kw)] == '(' || t[len(kw)] == '.')) {
			out = append(out, line{kw, strings.TrimSpace(t[len(kw):]), fmt.Sprintf("%s:%d", filepath.Base(file), i+1)})
		} else if len(out) > 0 {
			out[len(out)-1].rest += " " + t
		} else {
			panic(fmt.Sprintf("%s:%d: text before any clause", file, i+1))
		}
	}
	return out
}

var hdrRe = regexp.MustCompile(`^(?:\(\s*(\w+)\s+(\*?)([\w./\-]+)\s*\)\s*)?([\w$#]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\)|(\w+))?\s*$`)

var macroRe = regexp.MustCompile(`@\w+`)

func names(s string) []string {
	var r []string
	for _, x := range strings.Split(s, ",") {
		f := strings.Fields(x)
		if len(f) > 0 {
			r = append(r, f[0])
		}
	}
	return r
}

func parseSpecs(dir string) (*SpecSet, error) {
	S := &SpecSet{funcs: map[string]*FuncSpec{}, preds: map[string]*Pred{}, locks: map[string]*LockDecl{}, atomics: map[string]*AtomicDecl{}, ghosts: map[string]*GhostField{}, chans: map[string]*Clause{}, vols: map[string]bool{}, fixed: map[string]bool{}, raw: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	var err error
	macros := map[string]string{}
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "macro ") {
				if i := strings.IndexByte(l, ':'); i > 0 {
					macros["@"+strings.TrimSpace(l[6:i])] = strings.TrimSpace(l[i+1:])
				}
			}
		}
	}
	expand := func(s string) string {
		var out []string
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "macro ") {
				l = ""
			}
			for n := 0; n < 4 && strings.Contains(l, "@"); n++ {
				l = macroRe.ReplaceAllStringFunc(l, func(m string) string {
					if t, ok := macros[m]; ok {
						return t
					}
					return m
				})
			}
			out = append(out, l)
		}
		return strings.Join(out, "\n")
	}
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		S.raw[filepath.Base(f)] = string(b)
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%s: %v", f, r)
				}
			}()
			S.parse(f, expand(string(b)))
		}()
		if err != nil {
			return nil, err
		}
	}
	for _, k := range funcKeys(S.funcs) {
		f := S.funcs[k]
		if f.impl == "" {
			continue
		}
		i := S.funcs["("+f.impl+")."+f.implMethod]
		if i == nil {
			return nil, fmt.Errorf("%s: no interface contract %s.%s", f.file, f.impl, f.implMethod)
		}
		f.recv, f.params, f.results = i.recv, i.params, i.results
		f.requires = append(append([]*Clause{}, i.requires...), f.requires...)
		f.ensures = append(append([]*Clause{}, i.ensures...), f.ensures...)
		f.modifies = append(append([]*Clause{}, i.modifies...), f.modifies...)
		f.setup = append(append([]*Clause{}, i.setup...), f.setup...)
		f.update = append(append([]*Clause{}, i.update...), f.update...)
		for x := range i.flags {
			f.flags[x] = true
		}
	}
	return S, nil
}

func funcKeys(m map[string]*FuncSpec) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func fullPkg(p string) string {
	switch {
	case p == "iproto" || p == ".":
		return modPath
	}
	return p
}

// expandType turns "T", "net.T" or "*T" into a fully qualified type string in package pkg.
func expandType(pkg, t string) string {
	star := ""
	for strings.HasPrefix(t, "*") || strings.HasPrefix(t, "[]") {
		if t[0] == '*' {
			star += "*"
			t = t[1:]
		} else {
			star += "[]"
			t = t[2:]
		}
	}
	switch t {
	case "error", "int", "int64", "int32", "uint8", "byte", "uint16", "uint32", "uint64", "string", "bool":
		return star + t
	}
	if strings.Contains(t, "/") || strings.HasPrefix(t, "interface") {
		return star + t
	}
	if i := strings.IndexByte(t, '.'); i >= 0 {
		p := t[:i]
		switch p {
		case "iproto":
			return star + modPath + t[i:]
		case "marshal", "net", "sbox":
			return star + modPath + "/" + t
		case "server", "client":
			return star + modPath + "/net/" + t
		case "connection":
			return star + modPath + "/net/client/" + t
		}
		return star + t
	}
	return star + pkg + "." + t
}

func (S *SpecSet) parse(file, src string) {
	pkg := ""
	var cur *FuncSpec
	var lk *LockDecl
	var at *AtomicDecl
	for _, l := range splitLines(file, src) {
		switch l.kw {
		case "package":
			pkg = fullPkg(l.rest)
			continue
		case "pred":
			i := strings.IndexByte(l.rest, '(')
			j := strings.IndexByte(l.rest, ')')
			k := strings.IndexByte(l.rest[j:], '=')
			p := &Pred{name: strings.TrimSpace(l.rest[:i]), params: names(l.rest[i+1 : j]), pkg: pkg}
			p.body = parseExpr(l.rest[j+k+1:], l.pos)
			if S.preds[p.name] != nil {
				panic(l.pos + ": predicate " + p.name + " is defined twice")
			}
			S.preds[p.name] = p
			cur, lk, at = nil, nil, nil
			continue
		case "func", "iface":
			m := hdrRe.FindStringSubmatch(l.rest)
			if m == nil {
				panic(l.pos + ": bad header " + l.rest)
			}
			f := &FuncSpec{pkg: pkg, recv: m[1], params: names(m[5]), file: l.pos, flags: map[string]bool{}}
			res := m[6]
			if res == "" {
				res = m[7]
			}
			f.results = names(res)
			name := strings.ReplaceAll(m[4], "#", "$")
			if m[3] != "" {
				f.key = "(" + m[2] + expandType(pkg, m[3]) + ")." + name
			} else {
				f.key = pkg + "." + name
			}
			f.fnspec = l.kw == "iface"
			if S.funcs[f.key] != nil {
				panic(l.pos + ": duplicate contract for " + f.key)
			}
			S.funcs[f.key] = f
			cur, lk, at = f, nil, nil
			continue
		case "lock":
			// lock Type.field self
			fs := strings.Fields(l.rest)
			i := strings.LastIndexByte(fs[0], '.')
			lk = &LockDecl{styp: expandType(pkg, fs[0][:i]), field: fs[0][i+1:], guards: map[string]bool{}, self: fs[1], pkg: pkg}
			S.locks[lk.styp+"."+lk.field] = lk
			cur, at = nil, nil
			continue
		case "atomic":
			fs := strings.Fields(l.rest)
			i := strings.LastIndexByte(fs[0], '.')
			at = &AtomicDecl{styp: expandType(pkg, fs[0][:i]), field: fs[0][i+1:], self: fs[1], pkg: pkg}
			S.atomics[at.styp+"."+at.field] = at
			cur, lk = nil, nil
			continue
		case "fixed":
			for _, n := range strings.Split(l.rest, ",") {
				n = strings.TrimSpace(n)
				i := strings.LastIndexByte(n, '.')
				S.fixed[expandType(pkg, n[:i])+"."+n[i+1:]] = true
			}
			continue
		case "volatile":
			for _, n := range strings.Split(l.rest, ",") {
				n = strings.TrimSpace(n)
				i := strings.LastIndexByte(n, '.')
				S.vols[expandType(pkg, n[:i])+"."+n[i+1:]] = true
			}
			continue
		case "ghost":
			// ghost Type.$name type
			fs := strings.Fields(l.rest)
			i := strings.LastIndexByte(fs[0], '.')
			g := &GhostField{styp: expandType(pkg, fs[0][:i]), name: fs[0][i+1:], typ: fs[1], thread: len(fs) > 2 && fs[2] == "thread"}
			S.ghosts[g.styp+"."+g.name] = g
			cur, lk, at = nil, nil, nil
			continue
		case "chan":
			// chan Type.field self : expr over msg
			i := strings.IndexByte(l.rest, ':')
			fs := strings.Fields(l.rest[:i])
			k := strings.LastIndexByte(fs[0], '.')
			c := &Clause{kind: "chan", e: parseExpr(l.rest[i+1:], l.pos), pos: l.pos, text: l.rest, label: fs[1], tags: []string{pkg}}
			S.chans[expandType(pkg, fs[0][:k])+"."+fs[0][k+1:]] = c
			cur, lk, at = nil, nil, nil
			continue
		}
		if lk != nil {
			switch l.kw {
			case "guards":
				for _, n := range names(l.rest) {
					lk.guards[n] = true
				}
			case "inv", "invariant":
				lk.inv = append(lk.inv, parseClause(l))
			case "rely":
				lk.rely = append(lk.rely, parseClause(l))
			case "havocs":
				c := &Clause{kind: "havocs", pos: l.pos, text: l.rest}
				rest := l.rest
				if i := strings.Index(rest, " unless "); i >= 0 {
					c.e = parseExpr(rest[i+8:], l.pos)
					rest = rest[:i]
				}
				for _, n := range names(rest) {
					if !strings.Contains(n, "(") {
						i := strings.LastIndexByte(n, '.')
						n = expandType(pkg, n[:i]) + n[i:]
					}
					c.tags = append(c.tags, n)
				}
				lk.havocs = append(lk.havocs, c)
			case "acquire":
				lk.acquire = append(lk.acquire, parseAssign(l))
			case "keeps", "onstore":
				// keeps FIELD EXPR: holds of $old and $new at each store; onstore FIELD G := E
				i := strings.IndexAny(l.rest, " \t")
				if i < 0 {
					panic(l.pos + ": " + l.kw + " FIELD ...")
				}
				r := line{l.kw, strings.TrimSpace(l.rest[i:]), l.pos}
				if l.kw == "keeps" {
					lk.keeps = append(lk.keeps, callClause{l.rest[:i], parseClause(r)})
				} else {
					lk.onstore = append(lk.onstore, callClause{l.rest[:i], parseAssign(r)})
				}
			default:
				panic(l.pos + ": clause in lock")
			}
			continue
		}
		if at != nil {
			switch l.kw {
			case "rely":
				at.rely = parseExpr(l.rest, l.pos)
			case "guar":
				at.guar = parseExpr(l.rest, l.pos)
				at.text = l.rest
			case "update":
				at.update = append(at.update, parseAssign(l))
			case "reads":
				at.reads = append(at.reads, parseAssign(l))
			case "writer":
				at.writer = parseExpr(l.rest, l.pos)
				at.writerText = l.rest
			case "grants":
				at.grants = append(at.grants, parseClause(l))
			default:
				panic(l.pos + ": clause in atomic")
			}
			continue
		}
		if cur == nil {
			panic(l.pos + ": clause outside a contract")
		}
		switch l.kw {
		case "props":
			cur.props = append(cur.props, strings.Fields(strings.ReplaceAll(l.rest, ",", " "))...)
		case "requires":
			cur.requires = append(cur.requires, parseClause(l))
		case "ensures", "shows":
			cl := parseClause(l)
			cl.local = l.kw == "shows"
			cur.ensures = append(cur.ensures, cl)
		case "invariant":
			cur.invs = append(cur.invs, parseClause(l))
		case "modifies":
			cur.modifies = append(cur.modifies, parseClause(l))
		case "section":
			cur.sections = append(cur.sections, parseClause(l))
		case "step":
			cur.steps = append(cur.steps, parseClause(l))
		case "calls", "retains":
			i := strings.IndexAny(l.rest, " \t")
			if i < 0 {
				panic(l.pos + ": calls NAME EXPR")
			}
			cc := callClause{l.rest[:i], parseClause(line{l.kw, strings.TrimSpace(l.rest[i:]), l.pos})}
			if l.kw == "retains" {
				cur.retains = append(cur.retains, cc)
			} else {
				cur.calls = append(cur.calls, cc)
			}
		case "spawn":
			cur.spawn = append(cur.spawn, parseAssign(l))
		case "panics":
			cur.panics = append(cur.panics, parseClause(l))
			cur.mayPanic = true
		case "implements":
			i := strings.LastIndexByte(l.rest, '.')
			cur.impl, cur.implMethod = expandType(pkg, l.rest[:i]), l.rest[i+1:]
		case "assumes":
			cur.assumes = append(cur.assumes, parseClause(l))
		case "setup":
			cur.setup = append(cur.setup, parseAssign(l))
		case "update":
			cur.update = append(cur.update, parseAssign(l))
		case "unroll":
			fmt.Sscan(l.rest, &cur.unroll)
		case "trusted":
			cur.trusted = true
		case "inline":
			cur.inline = true
		case "maypanic":
			cur.mayPanic = true
		case "pure":
			cur.pure = true
		case "optional":
			cur.optional = true
		case "flag":
			for _, f := range strings.Fields(l.rest) {
				cur.flags[f] = true
			}
		}
	}
}

// parseAssign parses "LHS := RHS".
func parseAssign(l line) *Clause {
	i := strings.Index(l.rest, ":=")
	if i < 0 {
		panic(l.pos + ": assignment expected")
	}
	return &Clause{kind: l.kw, pos: l.pos, text: l.rest, label: l.rest, list: []*Expr{parseExpr(l.rest[:i], l.pos), parseExpr(l.rest[i+2:], l.pos)}}
}

func parseClause(l line) *Clause {
	c := &Clause{kind: l.kw, pos: l.pos}
	s := l.rest
	if strings.HasPrefix(s, "[") {
		j := strings.IndexByte(s, ']')
		c.tags = strings.Fields(strings.ReplaceAll(s[1:j], ",", " "))
		s = strings.TrimSpace(s[j+1:])
	}
	if strings.HasPrefix(s, `"`) {
		j := strings.IndexByte(s[1:], '"')
		c.label = s[1 : j+1]
		s = strings.TrimSpace(s[j+2:])
	}
	c.text = s
	if l.kw == "modifies" {
		p := newParser(s, l.pos)
		for {
			if p.peek() == "*" {
				p.next()
				c.list = append(c.list, &Expr{op: "all"})
			} else {
				c.list = append(c.list, p.postfix())
			}
			if p.peek() == "," {
				p.next()
				continue
			}
			break
		}
		p.eof()
	} else {
		c.e = parseExpr(s, l.pos)
	}
	if c.label == "" {
		c.label = s
		if len(c.label) > 90 {
			c.label = c.label[:90] + "…"
		}
	}
	return c
}

// ---- expression parser ----
type parser struct {
	toks []string
	i    int
	pos  string
}

var tokRe = regexp.MustCompile(`\s*(<==>|==>|\.\.|<=|>=|==|!=|&&|\|\||<<|>>|0x[0-9a-fA-F]+|[0-9]+|"[^"]*"|[A-Za-z_$][A-Za-z0-9_$]*|[-+*/%!<>()\[\].,:&|])`)

func newParser(s, pos string) *parser {
	p := &parser{pos: pos}
	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
		m := tokRe.FindStringSubmatchIndex(s)
		if m == nil || m[0] != 0 {
			panic(fmt.Sprintf("%s: cannot tokenize at %q", pos, s))
		}
		p.toks = append(p.toks, s[m[2]:m[3]])
		s = s[m[1]:]
	}
	return p
}
func parseExpr(s, pos string) *Expr {
	p := newParser(s, pos)
	e := p.expr(0)
	p.eof()
	return e
}
func (p *parser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.i++; return t }
func (p *parser) expect(t string) {
	if p.next() != t {
		panic(fmt.Sprintf("%s: expected %q before %q", p.pos, t, strings.Join(p.toks[min(p.i, len(p.toks)):], " ")))
	}
}
func (p *parser) eof() {
	if p.i < len(p.toks) {
		panic(fmt.Sprintf("%s: unexpected %q", p.pos, strings.Join(p.toks[p.i:], " ")))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "|": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7, "&": 7}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		op := p.peek()
		pr, ok := prec[op]
		if !ok || pr < min {
			return l
		}
		if op == "==>" { // right associative
			p.next()
			r := p.expr(pr)
			l = &Expr{op: "bin", name: op, args: []*Expr{l, r}, pos: p.pos}
			continue
		}
		p.next()
		r := p.expr(pr + 1)
		e := &Expr{op: "bin", name: op, args: []*Expr{l, r}, pos: p.pos}
		if pr == 5 { // chains a <= b < c
			for prec[p.peek()] == 5 {
				op2 := p.next()
				r2 := p.expr(6)
				e = &Expr{op: "bin", name: "&&", args: []*Expr{e, {op: "bin", name: op2, args: []*Expr{r, r2}, pos: p.pos}}, pos: p.pos}
				r = r2
			}
		}
		l = e
	}
}
func (p *parser) unary() *Expr {
	switch p.peek() {
	case "!", "-", "*":
		op := p.next()
		return &Expr{op: "un", name: op, args: []*Expr{p.unary()}, pos: p.pos}
	case "forall", "exists":
		q := p.next()
		v := p.next()
		e := &Expr{op: q, name: v, pos: p.pos}
		if p.peek() == "in" {
			p.next()
			lo := p.expr(6)
			p.expect("..")
			hi := p.expr(6)
			p.expect(":")
			e.args = []*Expr{lo, hi, p.expr(0)}
			return e
		}
		// forall x Type : body
		t := ""
		for p.peek() != ":" {
			t += p.next()
		}
		p.expect(":")
		e.typ = t
		e.args = []*Expr{p.expr(0)}
		return e
	case "if":
		p.next()
		c := p.expr(0)
		p.expect("then")
		a := p.expr(0)
		p.expect("else")
		b := p.expr(0)
		return &Expr{op: "if", args: []*Expr{c, a, b}, pos: p.pos}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch p.peek() {
		case ".":
			p.next()
			e = &Expr{op: "field", name: p.next(), args: []*Expr{e}, pos: p.pos}
		case "[":
			p.next()
			var lo *Expr
			if p.peek() != ":" {
				lo = p.expr(0)
			}
			if p.peek() == ":" {
				p.next()
				var hi *Expr
				if p.peek() != "]" {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}, pos: p.pos}
				continue
			}
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, lo}, pos: p.pos}
		case "(":
			if e.op != "id" {
				return e
			}
			p.next()
			c := &Expr{op: "call", name: e.name, pos: p.pos}
			for p.peek() != ")" {
				c.args = append(c.args, p.expr(0))
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			e = c
		default:
			return e
		}
	}
}
func (p *parser) primary() *Expr {
	t := p.next()
	if t == "(" {
		e := p.expr(0)
		p.expect(")")
		return e
	}
	if t == "" {
		panic(p.pos + ": unexpected end of expression")
	}
	if t[0] >= '0' && t[0] <= '9' {
		n, ok := new(big.Int).SetString(t, 0)
		if !ok {
			panic(p.pos + ": bad number " + t)
		}
		return &Expr{op: "num", num: n, pos: p.pos}
	}
	if t[0] == '"' {
		return &Expr{op: "str", name: t[1 : len(t)-1], pos: p.pos}
	}
	if t[0] == '_' || t[0] == '$' || unicode.IsLetter(rune(t[0])) {
		return &Expr{op: "id", name: t, pos: p.pos}
	}
	panic(fmt.Sprintf("%s: unexpected %q", p.pos, t))
}
