package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Function translation state.

type Var struct {
	name     string
	typ      types.Type
	vt       string
	maybeNil bool
	direct   bool         // pointer parameter held as its pointee
	place    *Path        // alias of another place (inlined pointer parameters, boxed variables)
	fn       *ast.FuncLit // closure bound to the variable
	fnFr     *frame
	param    bool
	mod      bool // pointee may be modified (declared)
	serial   int
	esc      string            // name of the "shared" flag of a pointer variable, "" if none
	addrs    map[string]string // field paths whose address was taken (flag name by path)
	owned    bool
	byval    bool   // by-value parameter
	unowned  string // flag: the slice or map may be shared
	obj      types.Object
}

type Step struct {
	kind string // field, deref, index, key
	name string // field name or index expression
	styp string // struct type name for field; zero value for key
	vt   string // Verus type after the step
}

type Path struct {
	root  *Var
	steps []Step
	vt    string
}

type Item struct {
	assert bool
	text   string
}

type frame struct {
	fd      *FuncDecl
	pkg     *Pkg
	vars    map[types.Object]*Var
	names   map[string]*Var         // contract parameter names
	results map[string]types.Object // caller's variable -> local returned to it
	lits    map[string]ast.Expr     // caller's variable -> literal returned to it
	parent  *frame
	callPos token.Pos
	// inlined body
	inl     bool
	retVars []string
	retTyps []types.Type
	retFlag string
	retUsed bool
	tail    bool
	defers  []func()
	named   []*Var
	sig     *types.Signature
	own     map[types.Object]int
	addr    map[types.Object]map[string]bool
}

type loopCtx struct {
	label   string
	brk     string
	isLoop  bool
	cont    func()
	brkUsed bool
	fr      *frame
}

type modRec struct {
	v    *Var
	path string
	flds []Step
}

type fnT struct {
	u             *Unit
	spec          *FuncSpec
	fr            *frame
	buf           *[]Item
	used          map[string]int
	serial        int
	loops         []*loopCtx
	nloop         int
	mods          map[string]modRec
	flagSet       map[string]bool // boolean flags set (esc / addr)
	world         *Var
	results       []types.Type
	stack         []string
	tmp           int
	lblNext       string
	loopSub       map[string]string // ix/rng aliases
	freshDepth    int
	pos           token.Pos
	flagMut       map[string]bool
	decreasesSeen bool
	closureSpec   bool
	dry           int
	declared      map[string]bool
	closNames     map[*ast.FuncLit]string
	litStack      []*ast.FuncLit
}

type transErr struct{ msg string }

func (t *fnT) fail(n ast.Node, f string, a ...interface{}) {
	p := ""
	if n != nil {
		p = t.posOf(n.Pos()) + ": "
	}
	panic(transErr{p + fmt.Sprintf(f, a...)})
}

func (t *fnT) posOf(p token.Pos) string {
	q := t.u.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (t *fnT) emit(s string)      { *t.buf = append(*t.buf, Item{false, s}) }
func (t *fnT) emitProof(s string) { t.emit("proof { " + s + " }") }

func (t *fnT) assume(e string) { t.emit("proof { assume(" + e + "); }") }

func (t *fnT) obl(kind, name string, pos token.Pos, expr string) string {
	o := &Obl{ID: len(t.u.obls), Func: t.spec.Key, Kind: kind, Name: name, Text: expr}
	if pos.IsValid() {
		o.Pos = t.posOf(pos)
	}
	t.u.obls = append(t.u.obls, o)
	return fmt.Sprintf("/*ob:%d*/", o.ID)
}

func (t *fnT) assert(kind, name string, n token.Pos, expr string) {
	m := t.obl(kind, name, n, expr)
	*t.buf = append(*t.buf, Item{true, "assert(" + expr + "); " + m})
}

// sub runs f with a fresh buffer and returns what it emitted.
func (t *fnT) sub(f func()) []Item {
	old := t.buf
	var nb []Item
	t.buf = &nb
	defer func() { t.buf = old }()
	f()
	return nb
}

func (t *fnT) add(items []Item) { *t.buf = append(*t.buf, items...) }

func onlyAsserts(it []Item) bool {
	for _, i := range it {
		if !i.assert {
			return false
		}
	}
	return true
}

// guard wraps items so that they only run under cond.
func (t *fnT) guarded(cond string, items []Item) {
	if len(items) == 0 {
		return
	}
	if onlyAsserts(items) {
		for _, i := range items {
			tx := i.text
			tx = strings.Replace(tx, "assert(", "assert(("+cond+") ==> (", 1)
			k := strings.LastIndex(tx, "); /*ob:")
			tx = tx[:k] + ")" + tx[k:]
			*t.buf = append(*t.buf, Item{true, tx})
		}
		return
	}
	t.emit("if cond(Ghost(" + cond + ")) {")
	t.add(items)
	t.emit("}")
}

func (t *fnT) fresh(base string) string {
	base = rid(base)
	n := t.used[base]
	t.used[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s_v%d", base, n+1)
}

func (t *fnT) temp(vt, e string) string {
	t.tmp++
	n := fmt.Sprintf("tm%d", t.tmp)
	t.emit(fmt.Sprintf("let ghost %s: %s = %s;", n, vt, e))
	return n
}

func (t *fnT) havoc(vt string) string {
	t.tmp++
	n := fmt.Sprintf("hv%d", t.tmp)
	t.emit(fmt.Sprintf("let %s_x = havoc::<%s>(); let ghost %s: %s = %s_x@;", n, vt, n, vt, n))
	return n
}

func (t *fnT) newVar(obj types.Object, name string, T types.Type) *Var {
	t.serial++
	v := &Var{name: t.fresh(name), typ: T, vt: t.u.vtype(T), serial: t.serial, obj: obj}
	if obj != nil {
		t.fr.vars[obj] = v
	}
	return v
}

func (t *fnT) declare(v *Var, init string) {
	t.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", v.name, v.vt, init))
	if _, ok := v.typ.Underlying().(*types.Pointer); ok && v.vt != "int" && !v.direct {
		v.esc = "shared_" + v.name
		t.declared[v.esc] = true
		t.emit(fmt.Sprintf("let ghost mut %s: bool = false;", v.esc))
	}
	if v.obj != nil && v.place == nil && t.mixedOwn(v.obj) {
		v.unowned = "unowned_" + v.name
		t.declared[v.unowned] = true
		t.emit(fmt.Sprintf("let ghost mut %s: bool = false;", v.unowned))
	}
}

// setOwn notes whether the value just assigned to a variable is its own.
func (t *fnT) setOwn(o types.Object, fresh bool) {
	if o == nil {
		return
	}
	v := t.lookup(o)
	if v == nil || v.unowned == "" {
		return
	}
	if t.flagSet != nil {
		t.flagSet[v.unowned] = true
	}
	t.emitProof(fmt.Sprintf("%s = %v;", v.unowned, !fresh))
}

func (t *fnT) lookup(obj types.Object) *Var {
	for f := t.fr; f != nil; f = f.parent {
		if v, ok := f.vars[obj]; ok {
			return v
		}
	}
	return nil
}

// ---- places ----

func (t *fnT) rootPath(v *Var) Path {
	if v.place != nil {
		return Path{v.place.root, append([]Step{}, v.place.steps...), v.place.vt}
	}
	return Path{root: v, vt: v.vt}
}

func (p Path) with(s Step, vt string) Path {
	s.vt = vt
	return Path{p.root, append(append([]Step{}, p.steps...), s), vt}
}

func stepRead(e string, s Step) string {
	switch s.kind {
	case "field":
		return e + "." + s.name
	case "deref":
		return e + "->0"
	case "index":
		return e + ".s[" + s.name + "]"
	case "key":
		return "mp_get(" + e + ", " + s.name + ", " + s.styp + ")"
	}
	return e
}

func (p Path) read() string {
	e := p.root.name
	for _, s := range p.steps {
		e = stepRead(e, s)
	}
	return e
}

func pathUpdate(cur string, steps []Step, val string) string {
	if len(steps) == 0 {
		return val
	}
	s := steps[0]
	in := pathUpdate(stepRead(cur, s), steps[1:], val)
	switch s.kind {
	case "field":
		return s.styp + " { " + s.name + ": " + in + ", .." + cur + " }"
	case "deref":
		return "Some(" + in + ")"
	case "index":
		return "Sl { s: " + cur + ".s.update(" + s.name + ", " + in + "), .." + cur + " }"
	case "key":
		return "Mp { m: " + cur + ".m.insert(" + s.name + ", " + in + "), .." + cur + " }"
	}
	return val
}

func (p Path) key() (string, []Step) {
	k := p.root.name
	var fl []Step
	for _, s := range p.steps {
		switch s.kind {
		case "field":
			k += "." + s.name
		case "deref":
			k += "*"
		default:
			return k, fl
		}
		fl = append(fl, s)
	}
	return k, fl
}

func pathStr(p Path) string {
	k, _ := p.key()
	return strings.ReplaceAll(k, "*", "")
}

// write assigns to a place.
func (t *fnT) write(p Path, val string, pos token.Pos) {
	if len(p.steps) > 0 {
		t.mutateCheck(p, pos)
	}
	t.addrCheck(p, pos)
	k, fl := p.key()
	if p.root.name == "" {
		return
	}
	if t.mods != nil {
		t.mods[k] = modRec{p.root, k, fl}
	}
	t.checkFrame(p, pos)
	t.emitProof(fmt.Sprintf("%s = %s;", p.root.name, pathUpdate(p.root.name, p.steps, val)))
}

// mutateCheck: mutation through a pointer needs an unshared pointee.
func (t *fnT) mutateCheck(p Path, pos token.Pos) {
	n := 0
	for _, s := range p.steps {
		if s.kind == "deref" {
			n++
		}
	}
	if p.root.direct {
		if n > 0 && !t.okDeref(p) {
			t.assert("alias", "mutation through a shared pointer ("+pathStr(p)+")", pos, "false")
		}
		return
	}
	if len(p.steps) > 0 && p.steps[0].kind == "deref" {
		if p.root.esc != "" {
			t.assert("alias", "mutation of an object other code already holds ("+pathStr(p)+")", pos, "!"+p.root.esc)
			if t.flagMut != nil {
				t.flagMut[p.root.esc] = true
			}
		}
		n--
	}
	if n > 0 && !t.okDeref(p) {
		t.assert("alias", "mutation through a shared pointer ("+pathStr(p)+")", pos, "false")
	}
}

func (t *fnT) okDeref(p Path) bool {
	_, fl := p.key()
	s := p.root.name
	for _, x := range fl {
		if x.kind == "field" {
			s += "." + x.name
		}
		for m := range t.spec.Modifies {
			if s == m {
				return true
			}
		}
	}
	return false
}

// addrCheck: writing a variable whose address was stored elsewhere.
func (t *fnT) addrCheck(p Path, pos token.Pos) {
	ps := pathStr(p)
	if len(p.steps) == 0 && strings.HasPrefix(p.root.vt, "Option<") {
		// another object from now on
		for _, q := range sortedKeys(p.root.addrs) {
			if q != ps {
				fl := p.root.addrs[q]
				if t.flagSet != nil {
					t.flagSet[fl] = true
				}
				t.emitProof(fl + " = false;")
			}
		}
		if fl, ok := p.root.addrs[ps]; ok {
			t.assert("alias", "change of "+ps+" while a pointer to it is held elsewhere", pos, "!"+fl)
			if t.flagMut != nil {
				t.flagMut[fl] = true
			}
		}
		return
	}
	for _, q := range sortedKeys(p.root.addrs) {
		fl := p.root.addrs[q]
		if q == ps || strings.HasPrefix(q, ps+".") || strings.HasPrefix(ps, q+".") {
			t.assert("alias", "change of "+ps+" while a pointer to it is held elsewhere", pos, "!"+fl)
			if t.flagMut != nil {
				t.flagMut[fl] = true
			}
		}
	}
}

// takeAddr notes that the address of a place was stored.
func (t *fnT) takeAddr(p Path) {
	ps := pathStr(p)
	if p.root.addrs == nil {
		p.root.addrs = map[string]string{}
	}
	fl, ok := p.root.addrs[ps]
	if !ok {
		return
	}
	t.setFlag(fl)
}

func (t *fnT) setFlag(fl string) {
	if t.flagSet != nil {
		t.flagSet[fl] = true
	}
	t.emitProof(fl + " = true;")
}

// checkFrame: only declared parameters may be modified.
func (t *fnT) checkFrame(p Path, pos token.Pos) {
	r := p.root
	if !r.param || len(p.steps) == 0 && !r.direct && !t.u.isRef(r.typ) && r != t.world {
		return
	}
	if r != t.world && !r.direct && !t.u.isRef(r.typ) {
		// by-value parameter: writes through reference-typed parts escape
		ref := false
		for _, s := range p.steps {
			if s.kind == "deref" || s.kind == "index" || s.kind == "key" {
				ref = true
			}
		}
		if !ref {
			return
		}
		if t.spec.Modifies[r.name] {
			return
		}
		ps := pathStr(p)
		for m := range t.spec.Modifies {
			if ps == m || strings.HasPrefix(ps, m+".") {
				return
			}
		}
		t.assert("frame", "undeclared change of the caller's "+pathStr(p), pos, "false")
		return
	}
	if t.spec.Modifies[r.name] {
		return
	}
	ps := pathStr(p)
	any := false
	for m := range t.spec.Modifies {
		if ps == m || strings.HasPrefix(ps, m+".") {
			return
		}
		if strings.HasPrefix(m, r.name+".") {
			any = true
		}
	}
	_ = any
	t.assert("frame", "undeclared change of the caller's "+ps, pos, "false")
}

// ---- clause text ----

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)
var binderRe = regexp.MustCompile(`(?:forall|exists|choose|=)\s*\|([^|]*)\||\|([A-Za-z_][A-Za-z0-9_]*:[^|]*)\|`)
var letRe = regexp.MustCompile(`\blet\s+(?:ghost\s+)?(?:mut\s+)?([A-Za-z_][A-Za-z0-9_]*)`)

func substText(text string, res func(string) (string, bool)) string {
	bound := map[string]bool{}
	for _, m := range binderRe.FindAllStringSubmatch(text, -1) {
		s := m[1] + m[2]
		for _, b := range splitTop(s, ',') {
			if i := strings.Index(b, ":"); i >= 0 {
				b = b[:i]
			}
			bound[strings.TrimSpace(b)] = true
		}
	}
	for _, m := range letRe.FindAllStringSubmatch(text, -1) {
		bound[m[1]] = true
	}
	// a bound name that occurs in what is substituted would capture it: it is renamed
	captured := map[string]bool{}
	pass := func(rename bool) string {
		var sb strings.Builder
		last := 0
		for _, ix := range identRe.FindAllStringIndex(text, -1) {
			a, b := ix[0], ix[1]
			if a < last {
				continue
			}
			id := text[a:b]
			sb.WriteString(text[last:a])
			last = b
			prev := strings.TrimRight(text[:a], " ")
			next := text[b:]
			ok, member := true, false
			if strings.HasSuffix(prev, ".") && !strings.HasSuffix(prev, "..") || strings.HasSuffix(prev, "->") || strings.HasSuffix(prev, "::") {
				ok, member = false, true
			}
			if a > 0 && text[a-1] >= '0' && text[a-1] <= '9' {
				ok, member = false, true
			}
			if rename && !member && captured[id] {
				sb.WriteString(id + "_q")
				continue
			}
			if strings.HasPrefix(next, "::") || strings.HasPrefix(next, "!") && !strings.HasPrefix(next, "!=") || strings.HasPrefix(next, "(") {
				ok = false
			}
			if strings.HasPrefix(strings.TrimLeft(next, " "), ":") && !strings.HasPrefix(next, "::") {
				ok = false
			}
			if ok && !bound[id] {
				if r, y := res(id); y {
					for _, m := range identRe.FindAllStringIndex(r, -1) {
						if x := r[m[0]:m[1]]; bound[x] && (m[0] == 0 || r[m[0]-1] != '.') {
							captured[x] = true
						}
					}
					sb.WriteString(r)
					continue
				}
			}
			sb.WriteString(id)
		}
		sb.WriteString(text[last:])
		return sb.String()
	}
	out := pass(false)
	for _, c := range captured {
		if c {
			return pass(true)
		}
	}
	return out
}

func (t *fnT) nameAt1(id string, pos token.Pos) (*Var, bool) {
	f := t.fr
	p := pos
	for f != nil {
		if f.pkg != nil && p.IsValid() {
			sc := f.pkg.Types.Scope().Innermost(p)
			if sc == nil {
				for _, x := range f.pkg.Files {
					if x.Pos() <= p && p <= x.End() {
						sc = f.pkg.Info.Scopes[x].Innermost(p)
					}
				}
			}
			if sc != nil {
				if _, o := sc.LookupParent(id, p); o != nil {
					if v := t.lookup(o); v != nil && t.fits(f, id, v) && !(v.param && t.spec.Params != nil && t.fr.names[id] != nil && t.fr.names[id] != v) {
						return v, true
					}
				}
			}
		}
		if v, ok := f.names[id]; ok {
			return v, true
		}
		if v, ok := f.vars[f.results[id]]; ok {
			return v, true
		}
		p = f.callPos
		f = f.parent
	}
	return nil, false
}

// clause text at a program point: Go variables by name.
func (t *fnT) at(text string, pos token.Pos, extra map[string]string) string {
	return substText(text, func(id string) (string, bool) {
		if extra != nil {
			if r, ok := extra[id]; ok {
				return r, true
			}
		}
		if r, ok := t.loopSub[id]; ok {
			return r, true
		}
		if v, ok := t.nameAt(id, pos); ok {
			return t.rootPath(v).read(), true
		}
		if r, ok := t.litAt(id); ok {
			return r, true
		}
		if id == "w" && t.world != nil {
			return t.world.name, true
		}
		return "", false
	})
}

func (t *fnT) want(c Clause) bool {
	if t.u.prop == "" || c.Tags["*"] {
		return true
	}
	if len(c.Tags) == 0 {
		return !t.u.lean
	}
	return c.Tags[t.u.prop]
}

func conj(l []string) string {
	if len(l) == 0 {
		return "true"
	}
	return strings.Join(l, " && ")
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
