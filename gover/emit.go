package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

type fnOut struct {
	key  string
	text string
	err  string
}

type fnSig struct {
	ps    []types.Type
	names []string
	rs    []types.Type
	vts   []string // parameter Verus types
}

func (u *Unit) paramVT(spec *FuncSpec, name string, T types.Type) (vt string, direct bool) {
	vt = u.vtype(T)
	if strings.HasPrefix(vt, "Option<") && !spec.Nilable[name] {
		if _, ok := T.Underlying().(*types.Pointer); ok {
			return vt[7 : len(vt)-1], true
		}
	}
	return vt, false
}

// header writes the signature with contract.
func (u *Unit) header(spec *FuncSpec, ps []types.Type, rs []types.Type, capT []string, want func(Clause) bool) (string, map[string]string, []string) {
	var sb strings.Builder
	env := map[string]string{}
	var args []string
	var outs []string // types of tuple
	for _, r := range rs {
		outs = append(outs, u.vtype(r))
	}
	for i, p := range spec.Params {
		vt, _ := u.paramVT(spec, p, ps[i])
		args = append(args, fmt.Sprintf("Ghost(%s_0): Ghost<%s>", rid(p), vt))
		env[p] = rid(p) + "_0"
		env[p+"_0"] = rid(p) + "_0"
	}
	for i, p := range spec.Params {
		if modBase(spec.Modifies, p) {
			vt, _ := u.paramVT(spec, p, ps[i])
			env[p+"_n"] = fmt.Sprintf("ret@.%d", len(outs))
			outs = append(outs, vt)
		}
	}
	wmod := modBase(spec.Modifies, "w")
	if wmod || spec.ReadsW {
		args = append(args, "Ghost(w_0): Ghost<World>")
		env["w"] = "w_0"
	}
	if wmod {
		env["w_n"] = fmt.Sprintf("ret@.%d", len(outs))
		outs = append(outs, "World")
	}
	for _, g := range spec.Ghost {
		args = append(args, fmt.Sprintf("Ghost(%s): Ghost<%s>", g[0], g[1]))
	}
	for i, c := range spec.Captures {
		args = append(args, fmt.Sprintf("Ghost(%s_0): Ghost<%s>", c[0], capT[i]))
		env[c[0]] = c[0] + "_0"
	}
	outTypes := append([]string{}, outs...)
	for len(outs) < 2 {
		outs = append(outs, "()")
	}
	if spec.Trusted {
		sb.WriteString("#[verifier::external_body]\n")
	} else {
		if spec.Dec == nil || !u.wantFn(*spec.Dec) {
			sb.WriteString("#[verifier::exec_allows_no_decreases_clause]\n")
		}
		sb.WriteString("#[verifier::spinoff_prover]\n")
	}
	if spec.Rlimit != "" {
		sb.WriteString("#[verifier::rlimit(" + spec.Rlimit + ")]\n")
	} else {
		sb.WriteString("#[verifier::rlimit(60)]\n")
	}
	fmt.Fprintf(&sb, "fn f_%s(%s) -> (ret: Ghost<(%s)>)\n", sanitize(spec.Key), strings.Join(args, ", "), strings.Join(outs, ", "))
	res := func(id string) (string, bool) { v, ok := env[id]; return v, ok }
	var reqs, enss []string
	for _, c := range spec.Requires {
		if want(c) {
			reqs = append(reqs, "        "+substText(c.Text, res)+",")
		}
	}
	for _, c := range spec.Captures {
		reqs = append(reqs, "        "+c[0]+"_0 == "+substText(c[1], res)+",")
	}
	for i, r := range spec.Results {
		env[r] = fmt.Sprintf("ret@.%d", i)
	}
	for _, c := range spec.Ensures {
		if want(c) {
			enss = append(enss, "        "+substText(c.Text, res)+",")
		}
	}
	// fields outside the frame keep their values
	frame := func(p, vt string) {
		var fs []string
		seen := map[string]bool{}
		var ms []string
		for m := range spec.Modifies {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if m == p {
				return
			}
			if strings.HasPrefix(m, p+".") {
				f := strings.SplitN(m[len(p)+1:], ".", 2)[0]
				f = strings.SplitN(f, "[", 2)[0]
				if !seen[f] {
					seen[f] = true
					fs = append(fs, f+": "+env[p+"_n"]+"."+f)
				}
			}
		}
		if len(fs) == 0 || strings.ContainsAny(vt, "<( ") {
			return
		}
		enss = append([]string{fmt.Sprintf("        %s == (%s { %s, ..%s }),", env[p+"_n"], vt, strings.Join(fs, ", "), env[p])}, enss...)
	}
	for i, p := range spec.Params {
		if modBase(spec.Modifies, p) {
			vt, _ := u.paramVT(spec, p, ps[i])
			frame(p, vt)
		}
	}
	if wmod {
		frame("w", "World")
	}
	if len(reqs) > 0 {
		sb.WriteString("    requires\n" + strings.Join(reqs, "\n") + "\n")
	}
	if len(enss) > 0 {
		sb.WriteString("    ensures\n" + strings.Join(enss, "\n") + "\n")
	}
	if spec.Dec != nil && u.wantFn(*spec.Dec) {
		sb.WriteString("    decreases " + substText(spec.Dec.Text, res) + ",\n")
	}
	return sb.String(), env, outTypes
}

func (u *Unit) wantFn(c Clause) bool {
	if u.prop == "" || c.Tags["*"] {
		return true
	}
	if len(c.Tags) == 0 {
		return !u.lean
	}
	return c.Tags[u.prop]
}

// function translates one contracted function.
func (u *Unit) function(spec *FuncSpec) (out fnOut) {
	out.key = spec.Key
	fd := u.prog.Funcs[spec.Key]
	if fd == nil {
		out.err = "function " + spec.Key + " does not exist"
		return
	}
	saveObl := len(u.obls)
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(transErr)
			if !ok {
				panic(r)
			}
			u.obls = u.obls[:saveObl]
			out.err = te.msg
			out.text = ""
		}
	}()
	sig := fd.Obj.Type().(*types.Signature)
	ps, _ := sigTypes(sig, true)
	ids := fieldIdents(fd.Decl.Type.Params)
	if fd.Decl.Recv != nil {
		ids = append(fieldIdents(fd.Decl.Recv), ids...)
	}
	if len(spec.Params) != len(ps) {
		panic(transErr{fmt.Sprintf("contract of %s names %d parameters, the function has %d", spec.Key, len(spec.Params), len(ps))})
	}
	out.text = u.body(spec, fd, fd.Pkg, sig, ps, ids, fd.Decl.Type, fd.Decl.Body, nil, nil)
	u.funcsUC[spec.Key] = true
	return
}

func (u *Unit) closureFn(j *closureJob) (out fnOut) {
	out.key = j.spec.Key
	saveObl := len(u.obls)
	defer func() {
		if r := recover(); r != nil {
			te, ok := r.(transErr)
			if !ok {
				panic(r)
			}
			u.obls = u.obls[:saveObl]
			out.err = te.msg
			out.text = ""
		}
	}()
	sig := j.from.typeOfIn(j.fr, j.lit).Underlying().(*types.Signature)
	ps, _ := sigTypes(sig, false)
	ids := fieldIdents(j.lit.Type.Params)
	out.text = u.body(j.spec, j.fr.fd, j.fr.pkg, sig, ps, ids, j.lit.Type, j.lit.Body, j.fr, j)
	u.funcsUC[j.spec.Key] = true
	return
}

// bodyless header for closures: needs parameter types from the literal
func (u *Unit) body(spec *FuncSpec, fd *FuncDecl, pkg *Pkg, sig *types.Signature, ps []types.Type, ids []*ast.Ident, ft *ast.FuncType, body *ast.BlockStmt, outer *frame, job *closureJob) string {
	var rs []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, sig.Results().At(i).Type())
	}
	var items []Item
	t := &fnT{u: u, spec: spec, buf: &items, used: map[string]int{}, declared: map[string]bool{}, loopSub: map[string]string{},
		closNames: map[*ast.FuncLit]string{}, stack: []string{spec.Key}}
	for _, w := range []string{"ret", "w", "S", "Sl", "Mp", "Ch", "Some", "None", "Seq", "Map"} {
		t.used[w] = 1
	}
	fr := &frame{fd: fd, pkg: pkg, vars: map[types.Object]*Var{}, names: map[string]*Var{}, sig: sig}
	t.fr = fr
	fr.own = t.scanOwn(pkg.Info, body)
	fr.addr = scanAddr(pkg.Info, body)
	wmod := modBase(spec.Modifies, "w")
	if wmod || spec.ReadsW {
		t.world = &Var{name: "w", vt: "World", param: true, direct: true}
		t.emit("let ghost mut w: World = w_0;")
	}
	for i, p := range spec.Params {
		vt, direct := u.paramVT(spec, p, ps[i])
		t.serial++
		v := &Var{name: t.fresh(p), typ: ps[i], vt: vt, direct: direct, param: true, serial: t.serial}
		if v.name != rid(p) {
			panic(transErr{"parameter name clash " + p})
		}
		v.mod = modBase(spec.Modifies, p)
		fr.names[p] = v
		if ids[i] != nil && ids[i].Name != "_" {
			o := pkg.Info.Defs[ids[i]]
			v.obj = o
			fr.vars[o] = v
		}
		t.emit(fmt.Sprintf("let ghost mut %s: %s = %s_0;", v.name, vt, rid(p)))
		if v.obj != nil {
			t.declAddr(v, v.obj)
		}
	}
	var capT []string
	for _, c := range spec.Captures {
		found := false
		if job != nil {
			if cv, ok := job.from.nameAt(c[0], job.lit.Pos()); ok {
				t.serial++
				v := &Var{name: t.fresh(c[0]), typ: cv.typ, vt: cv.vt, direct: cv.direct, param: true, serial: t.serial, obj: cv.obj}
				fr.vars[cv.obj] = v
				fr.names[c[0]] = v
				capT = append(capT, cv.vt)
				t.emit(fmt.Sprintf("let ghost mut %s: %s = %s_0;", v.name, v.vt, c[0]))
				found = true
			}
		}
		if !found {
			panic(transErr{"captured variable " + c[0] + " not found"})
		}
	}
	if job != nil {
		for _, n := range sortedKeys(job.from.spec.Boxes) {
			if cv, ok := job.from.nameAt(n, job.lit.Pos()); ok && cv.place != nil {
				pl := Path{root: t.world, steps: cv.place.steps, vt: cv.place.vt}
				fr.vars[cv.obj] = &Var{name: cv.name, typ: cv.typ, vt: cv.vt, place: &pl, obj: cv.obj}
			}
		}
	}
	for i, id := range fieldIdents(ft.Results) {
		if id != nil {
			o := pkg.Info.Defs[id]
			v := t.newVar(o, id.Name, rs[i])
			t.declare(v, u.zero(rs[i]))
			t.declAddr(v, o)
			fr.named = append(fr.named, v)
			if i < len(spec.Results) && spec.Results[i] != id.Name && fr.names[spec.Results[i]] == nil {
				fr.names[spec.Results[i]] = v
			}
		}
	}
	hdr, _, outTypes := u.header(spec, ps, rs, capT, u.wantFn)
	_ = outTypes
	t.probe("precondition", body.Pos())
	for _, c := range spec.Entry {
		if t.want(c) {
			t.emitProof(t.at(c.Text, body.Pos()+1, nil))
		}
	}
	fl := t.stmts(body.List)
	if len(fl) > 0 {
		panic(transErr{"unresolved exit flags"})
	}
	if len(rs) == 0 {
		t.topReturn(nil, body.End()-1)
	} else {
		t.emit("never()")
	}
	var sb strings.Builder
	sb.WriteString(hdr)
	sb.WriteString("{\nbroadcast use group_pre;\nproof { lits_ax(); }\n")
	nc := 0
	for _, it := range items {
		tx := it.text
		if strings.HasPrefix(tx, "if cond(Ghost(") && strings.HasSuffix(tx, ")) {") {
			e := tx[len("if cond(Ghost(") : len(tx)-4]
			if !isIdent(e) {
				nc++
				tx = fmt.Sprintf("let ghost cd%d: bool = %s;\nif cond(Ghost(cd%d)) {", nc, e, nc)
			}
		}
		sb.WriteString(tx)
		sb.WriteString("\n")
	}
	sb.WriteString("}\n")
	if u.probes {
		return probeFn(hdr, sb.String(), "f_"+sanitize(spec.Key))
	}
	if spec.Split > 0 {
		return splitFn(sb.String(), "f_"+sanitize(spec.Key), spec.Split)
	}
	return sb.String()
}

// splitFn copies a function n+1 times. Every obligation is asserted in exactly one copy and assumed in the others
// (each copy shows its obligations under the others, which come earlier on every path they matter for). Copy 0 has
// the obligations inside the body, the others share the ones at the exits.
func splitFn(text, name string, n int) string {
	lines := strings.Split(text, "\n")
	isOb := func(l string) bool { return strings.HasPrefix(l, "assert(") && strings.Contains(l, "/*ob:") }
	whole := func(l string) bool {
		return strings.HasPrefix(l, "assert(") && strings.HasSuffix(l, ");") && closedAtEnd(l)
	}
	// groups of obligations that end a path
	type group struct{ a, b int }
	var exits []group
	for i := 0; i < len(lines); i++ {
		if !isOb(lines[i]) {
			continue
		}
		j := i
		for j < len(lines) && isOb(lines[j]) {
			j++
		}
		if j < len(lines) && (strings.HasPrefix(lines[j], "return ") || lines[j] == "proof { assume(false); }") {
			exits = append(exits, group{i, j})
		}
		i = j
	}
	if n > len(exits) {
		n = len(exits)
	}
	exit := make([]int, len(lines)) // 0: not at an exit, k: shown by copy k
	for k, g := range exits {
		for i := g.a; i < g.b; i++ {
			exit[i] = 1 + k*n/len(exits)
		}
	}
	reOb := regexp.MustCompile(` ?/\*ob:\d+\*/`)
	var sb strings.Builder
	for c := 0; c <= n; c++ {
		last := len(lines)
		if c > 0 {
			for i := range lines {
				if exit[i] == c {
					last = i
				}
			}
		}
		for i, l := range lines {
			switch {
			case isOb(l) && exit[i] == c:
			case isOb(l) && (exit[i] != 0 || i > last):
				l = "proof { assume(false); }"
			case isOb(l):
				l = "proof { assume(" + l[len("assert("):strings.LastIndex(l, "; /*ob:")] + "; }"
			case c > 0 && whole(l):
				l = "assume(" + l[len("assert("):]
			case c > 0:
				l = reOb.ReplaceAllString(l, "")
				if strings.HasPrefix(l, "fn "+name+"(") {
					l = fmt.Sprintf("fn %s__%d(", name, c) + l[len("fn "+name+"("):]
				}
			}
			sb.WriteString(l)
			if i < len(lines)-1 {
				sb.WriteString("\n")
			}
		}
	}
	return sb.String()
}

// probeFn makes one copy of a function per probe, in which only the probe is asserted, and leaves the function itself
// without a body (it is verified elsewhere).
func probeFn(hdr, text, name string) string {
	lines := strings.Split(text, "\n")
	isOb := func(l string) bool { return strings.HasPrefix(l, "assert(") && strings.Contains(l, "/*ob:") }
	isProbe := func(l string) bool {
		return strings.HasPrefix(l, "let pr") && strings.Contains(l, "{ assert(false); /*ob:")
	}
	reOb := regexp.MustCompile(` ?/\*ob:\d+\*/`)
	var sb strings.Builder
	sb.WriteString("#[verifier::external_body]\n" + reOb.ReplaceAllString(hdr, "") + "{ unimplemented!() }\n")
	c := 0
	for k, p := range lines {
		if !isProbe(p) {
			continue
		}
		c++
		for i, l := range lines {
			switch {
			case i == k:
				l = "assert(false); " + l[strings.Index(l, "/*ob:"):strings.LastIndex(l, "}")] + "\nproof { assume(false); }"
			case isProbe(l):
				continue
			case isOb(l):
				l = "proof { assume(" + l[len("assert("):strings.LastIndex(l, "; /*ob:")] + "; }"
			default:
				l = reOb.ReplaceAllString(l, "")
				if strings.HasPrefix(l, "#[verifier::rlimit(") {
					l = "#[verifier::rlimit(4)]"
				}
				if strings.HasPrefix(l, "fn "+name+"(") {
					l = fmt.Sprintf("fn %s__%d(", name, c) + l[len("fn "+name+"("):]
				}
			}
			sb.WriteString(l + "\n")
		}
	}
	return sb.String()
}

func closedAtEnd(l string) bool {
	d := 0
	for i, c := range l {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
			if d == 0 {
				return i == len(l)-2
			}
		}
	}
	return false
}

func isIdent(s string) bool {
	for _, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

// topReturn: a return from the function itself.
func (t *fnT) topReturn(vals []string, pos token.Pos) {
	fr := t.fr
	spec := t.spec
	var rs []string
	for i, v := range vals {
		rs = append(rs, t.temp(t.u.vtype(fr.sig.Results().At(i).Type()), v))
	}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		fr.defers[i]()
	}
	env := map[string]string{}
	outs := append([]string{}, rs...)
	for _, p := range spec.Params {
		env[p] = rid(p) + "_0"
		env[p+"_0"] = rid(p) + "_0"
	}
	for _, c := range spec.Captures {
		env[c[0]] = c[0] + "_0"
	}
	for _, p := range spec.Params {
		if modBase(spec.Modifies, p) {
			env[p+"_n"] = fr.names[p].name
			outs = append(outs, fr.names[p].name)
		}
	}
	if t.world != nil {
		env["w"] = "w_0"
		env["w_0"] = "w_0"
		env["w_n"] = "w"
	}
	if modBase(spec.Modifies, "w") {
		outs = append(outs, "w")
	}
	for i, r := range spec.Results {
		if i < len(rs) {
			env[r] = rs[i]
		}
	}
	for _, c := range spec.Exit {
		if t.want(c) {
			t.emitProof(t.at(c.Text, pos, env))
		}
	}
	for i, c := range spec.Ensures {
		if !t.want(c) {
			continue
		}
		n := c.Name
		if n == "" {
			n = fmt.Sprintf("ensures %d", i+1)
		}
		t.assert("post", n, pos, substText(c.Text, func(id string) (string, bool) { v, ok := env[id]; return v, ok }))
	}
	for len(outs) < 2 {
		outs = append(outs, "()")
	}
	t.emit("return Ghost((" + strings.Join(outs, ", ") + "));")
}

func (u *Unit) litDecls() string {
	var sb strings.Builder
	ax := ""
	for i, s := range u.litIDs {
		n := i + 1
		fmt.Fprintf(&sb, "pub uninterp spec fn lit_%d() -> S; // %q\n", n, trunc(s))
		ax += fmt.Sprintf("        sid(lit_%d()) == %d, lit_%d().len() == %d,\n", n, n, n, len(s))
		for k := 0; k < len(s) && k < 40; k++ {
			ax += fmt.Sprintf("        lit_%d()[%d] == %du8,\n", n, k, s[k])
		}
	}
	sb.WriteString("#[verifier::external_body]\npub proof fn lits_ax()\n    ensures\n        sid(sempty()) == 0,\n" + ax + "{ }\n")
	return sb.String()
}

func trunc(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}
