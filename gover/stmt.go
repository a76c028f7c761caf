package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"strings"
)

type flags map[string]bool

func (f flags) union(g flags) flags {
	if len(g) == 0 {
		return f
	}
	r := flags{}
	for k := range f {
		r[k] = true
	}
	for k := range g {
		r[k] = true
	}
	return r
}

func (f flags) any() string { return strings.Join(sortedKeys(map[string]bool(f)), " || ") }

// stmts translates a statement list; the result names the exit flags that may
// be set when control falls through.
func (t *fnT) stmts(list []ast.Stmt) flags {
	var all flags
	for i, s := range list {
		fl := t.stmt(s)
		all = all.union(fl)
		if len(fl) > 0 && i+1 < len(list) {
			t.emit("if cond(Ghost(!(" + fl.any() + "))) {")
			g := t.stmts(list[i+1:])
			t.emit("}")
			return all.union(g)
		}
	}
	return all
}

func (t *fnT) block(b *ast.BlockStmt) flags { return t.stmts(b.List) }

func (t *fnT) stmt(s ast.Stmt) flags {
	switch x := s.(type) {
	case nil, *ast.EmptyStmt:
		return nil
	case *ast.ExprStmt:
		switch e := unparen(x.X).(type) {
		case *ast.CallExpr:
			t.call(e, true)
		case *ast.UnaryExpr:
			t.expr(e)
		default:
			t.fail(s, "expression statement")
		}
		return nil
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				t.valueSpec(sp.(*ast.ValueSpec))
			}
		}
		return nil
	case *ast.AssignStmt:
		t.assign(x)
		return nil
	case *ast.IncDecStmt:
		p, ok := t.place(x.X)
		if !ok {
			t.fail(s, "unsupported place")
		}
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		if t.u.vtype(t.typeOf(x.X)) != "int" {
			t.fail(s, "increment of %s", t.u.vtype(t.typeOf(x.X)))
		}
		t.write(p, p.read()+" "+op+" 1", x.Pos())
		return nil
	case *ast.BlockStmt:
		return t.block(x)
	case *ast.IfStmt:
		return t.ifStmt(x)
	case *ast.ForStmt:
		return t.forStmt(x)
	case *ast.RangeStmt:
		return t.rangeStmt(x)
	case *ast.SwitchStmt:
		return t.switchStmt(x)
	case *ast.ReturnStmt:
		return t.ret(x)
	case *ast.BranchStmt:
		return t.branch(x)
	case *ast.SendStmt:
		p, ok := t.place(x.Chan)
		if !ok {
			t.fail(s, "send on this expression")
		}
		ct := t.typeOf(x.Chan).Underlying().(*types.Chan)
		v := t.stored(x.Value, ct.Elem())
		c := p.read()
		t.assert("channel", "send on an open channel", x.Pos(), "!"+c+".closed")
		t.write(p, fmt.Sprintf("ch_push(%s, %s)", c, v), x.Pos())
		return nil
	case *ast.GoStmt:
		t.u.notes["goroutines that feed one channel are run to completion when started (sequential producer); the caller of a returned channel sees all its elements"] = true
		t.call(x.Call, true)
		return nil
	case *ast.DeferStmt:
		t.deferStmt(x)
		return nil
	case *ast.LabeledStmt:
		t.lblNext = x.Label.Name
		return t.stmt(x.Stmt)
	}
	t.fail(s, "unsupported statement %T", s)
	return nil
}

func (t *fnT) frameOf() *frame { return t.fr }

func (t *fnT) deferStmt(x *ast.DeferStmt) {
	c := x.Call
	if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "close" {
		fr := t.fr
		fr.defers = append(fr.defers, func() {
			old := t.fr
			t.fr = fr
			t.builtin("close", c)
			t.fr = old
		})
		return
	}
	if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Close" {
		t.u.notes["deferred Close calls have no modelled effect"] = true
		return
	}
	t.fail(x, "unsupported defer")
}

func (t *fnT) declLocal(id *ast.Ident, T types.Type, init string) {
	o := t.info().Defs[id]
	if o == nil || id.Name == "_" {
		return
	}
	boxed := func(n string) bool { _, ok := t.spec.Boxes[n]; return ok }
	if b, ok := t.spec.Boxes[t.oldName(id.Name, id.Pos(), boxed)]; ok && !t.fr.inl {
		flds := strings.Split(b, ".")
		pt := T
		if p, ok := T.Underlying().(*types.Pointer); ok {
			pt = p.Elem()
			init = paren(init) + "->0"
		}
		pl := Path{root: t.world, vt: "World"}
		pl = pl.with(Step{kind: "field", name: flds[1], styp: "World"}, t.u.vtype(pt))
		v := &Var{name: t.fresh(id.Name), typ: T, vt: pl.vt, place: &pl, obj: o}
		t.fr.vars[o] = v
		t.write(pl, init, id.Pos())
		return
	}
	v := t.newVar(o, id.Name, T)
	t.declare(v, init)
	t.declAddr(v, o)
}

func (t *fnT) declAddr(v *Var, o types.Object) {
	for f := t.fr; f != nil; f = f.parent {
		if m, ok := f.addr[o]; ok {
			for _, sfx := range sortedKeys(m) {
				fl := t.fresh("addr_" + v.name + strings.ReplaceAll(sfx, ".", "_"))
				if v.addrs == nil {
					v.addrs = map[string]string{}
				}
				v.addrs[v.name+sfx] = fl
				t.declared[fl] = true
				t.emit(fmt.Sprintf("let ghost mut %s: bool = false;", fl))
			}
			return
		}
	}
}

func (t *fnT) valueSpec(vs *ast.ValueSpec) {
	for i, n := range vs.Names {
		o := t.info().Defs[n]
		if o == nil {
			continue
		}
		T := o.Type()
		init := t.u.zero(T)
		if len(vs.Values) == len(vs.Names) {
			if fl, ok := unparen(vs.Values[i]).(*ast.FuncLit); ok {
				t.bindFn(o, n.Name, fl)
				continue
			}
			init = t.exprTo(vs.Values[i], T)
			t.declLocal(n, T, init)
			t.setOwn(o, t.freshFor(t.info(), vs.Values[i], o))
			continue
		} else if len(vs.Values) != 0 {
			t.fail(vs, "unsupported declaration")
		}
		t.declLocal(n, T, init)
	}
}

func (t *fnT) bindFn(o types.Object, name string, fl *ast.FuncLit) {
	t.fr.vars[o] = &Var{name: name, typ: o.Type(), fn: fl, fnFr: t.fr, obj: o}
	t.closNames[fl] = t.oldName(name, fl.Pos(), func(n string) bool { _, ok := t.spec.Closures[n]; return ok })
}

func (t *fnT) assignTo(lhs ast.Expr, val string, from types.Type, define bool, pos token.Pos) {
	lhs = unparen(lhs)
	if id, ok := lhs.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		if define {
			if o := t.info().Defs[id]; o != nil {
				t.declLocal(id, o.Type(), t.conv(val, from, o.Type(), lhs))
				return
			}
		}
	}
	p, ok := t.place(lhs)
	if !ok {
		t.fail(lhs, "unsupported assignment target")
	}
	LT := t.typeOf(lhs)
	v := t.conv(val, from, LT, lhs)
	t.store(p, v, LT, pos)
}

// store writes v (of pointer-level type LT) to p.
func (t *fnT) store(p Path, v string, LT types.Type, pos token.Pos) {
	if strings.HasPrefix(t.u.vtype(LT), "Option<") && !strings.HasPrefix(p.vt, "Option<") {
		// pointer parameter rebound
		if p.root.mod {
			t.assert("alias", "pointer parameter "+p.root.name+" rebound", pos, "false")
		}
		t.assert("nil", "pointer variable stays non-nil", pos, paren(v)+" is Some")
		v = paren(v) + "->0"
	}
	for _, s := range p.steps {
		if s.kind == "index" || s.kind == "key" {
			t.ownCheck(p, pos, "write to")
			break
		}
		if s.kind == "key" {
			t.assert("nil", "write to a nil map", pos, "true")
		}
	}
	if p.vt == "()" {
		v = "()"
	}
	t.write(p, v, pos)
}

func (t *fnT) assign(x *ast.AssignStmt) {
	define := x.Tok == token.DEFINE
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		// op=
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.QUO_ASSIGN: token.QUO,
			token.REM_ASSIGN: token.REM, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		be := &ast.BinaryExpr{X: x.Lhs[0], Op: ops[x.Tok], Y: x.Rhs[0], OpPos: x.Pos()}
		t.info().Types[be] = types.TypeAndValue{Type: t.typeOf(x.Lhs[0])}
		v := t.binary(be)
		p, ok := t.place(x.Lhs[0])
		if !ok {
			t.fail(x, "unsupported place")
		}
		t.store(p, v, t.typeOf(x.Lhs[0]), x.Pos())
		return
	}
	if len(x.Lhs) == len(x.Rhs) {
		if len(x.Lhs) == 1 {
			rhs := unparen(x.Rhs[0])
			if fl, ok := rhs.(*ast.FuncLit); ok {
				if id, ok := x.Lhs[0].(*ast.Ident); ok {
					if o := t.info().Defs[id]; define && o != nil {
						t.bindFn(o, id.Name, fl)
						return
					}
				}
			}
			lhs := unparen(x.Lhs[0])
			T := t.lhsType(lhs, x.Rhs[0])
			var v string
			if c, ok := rhs.(*ast.CallExpr); ok && isBuiltin(t.info(), c, "append") {
				self := types.ExprString(lhs) == types.ExprString(c.Args[0])
				v = t.conv(t.appendCall(c, self), t.typeOf(c), T, x)
			} else if t.isRefCopy(rhs) {
				v = t.exprTo(rhs, T)
				t.assert("alias", "a channel or writer variable is copied", x.Pos(), "false")
			} else {
				v = t.exprTo(rhs, T)
			}
			sharedSrc := t.sharedSource(rhs)
			if define {
				if id, ok := lhs.(*ast.Ident); ok && t.info().Defs[id] != nil {
					t.declLocal(id, T, v)
					t.markShared(id, rhs, sharedSrc)
					t.setOwn(t.objOf(id), t.freshFor(t.info(), rhs, t.objOf(id)))
					return
				}
			}
			if id, ok := lhs.(*ast.Ident); ok && id.Name == "_" {
				return
			}
			t.noteShared(rhs)
			p, ok := t.place(lhs)
			if !ok {
				t.fail(x, "unsupported assignment target")
			}
			if _, isMap := lhs.(*ast.IndexExpr); isMap && p.steps[len(p.steps)-1].kind == "key" {
				mp := Path{p.root, p.steps[:len(p.steps)-1], ""}
				t.assert("nil", "write to a nil map", x.Pos(), mp.read()+".nn")
			}
			t.store(p, v, T, x.Pos())
			if id, ok := lhs.(*ast.Ident); ok {
				t.markShared(id, rhs, sharedSrc)
				t.setOwn(t.objOf(id), t.freshFor(t.info(), rhs, t.objOf(id)))
			}
			return
		}
		// parallel assignment
		vals := t.seqExprs(len(x.Rhs), func(i int) string { return t.exprTo(x.Rhs[i], t.lhsType(x.Lhs[i], x.Rhs[i])) },
			func(i int) string { return t.u.vtype(t.lhsType(x.Lhs[i], x.Rhs[i])) })
		for i := range vals {
			vals[i] = t.temp(t.u.vtype(t.lhsType(x.Lhs[i], x.Rhs[i])), vals[i])
		}
		for i := range vals {
			t.assignTo(x.Lhs[i], vals[i], t.lhsType(x.Lhs[i], x.Rhs[i]), define, x.Pos())
			if id, ok := unparen(x.Lhs[i]).(*ast.Ident); ok {
				t.setOwn(t.objOf(id), t.freshFor(t.info(), x.Rhs[i], t.objOf(id)))
			}
		}
		return
	}
	// multi-value right hand side
	rhs := unparen(x.Rhs[0])
	switch r := rhs.(type) {
	case *ast.CallExpr:
		res := t.call(r, false)
		tup, ok := t.typeOf(r).(*types.Tuple)
		if !ok || len(res) < tup.Len() {
			t.fail(x, "call results")
		}
		for i := range x.Lhs {
			t.assignTo(x.Lhs[i], res[i], tup.At(i).Type(), define, x.Pos())
			if id, ok := unparen(x.Lhs[i]).(*ast.Ident); ok {
				t.setOwn(t.objOf(id), t.freshFor(t.info(), r, t.objOf(id)))
			}
		}
	case *ast.IndexExpr:
		mt, ok := t.typeOf(r.X).Underlying().(*types.Map)
		if !ok {
			t.fail(x, "two-value index")
		}
		m := paren(t.expr(r.X))
		k := paren(t.exprTo(r.Index, mt.Key()))
		okv := t.temp("bool", fmt.Sprintf("%s.m.contains_key(%s)", m, k))
		v := t.temp(t.u.vtype(mt.Elem()), fmt.Sprintf("mp_get(%s, %s, %s)", m, k, t.u.zero(mt.Elem())))
		t.assignTo(x.Lhs[0], v, mt.Elem(), define, x.Pos())
		if id, ok := unparen(x.Lhs[0]).(*ast.Ident); ok {
			t.setOwn(t.objOf(id), false)
		}
		t.assignTo(x.Lhs[1], okv, types.Typ[types.Bool], define, x.Pos())
	case *ast.UnaryExpr:
		v, okv := t.recv(r)
		ct := t.typeOf(r.X).Underlying().(*types.Chan)
		t.assignTo(x.Lhs[0], v, ct.Elem(), define, x.Pos())
		if id, ok := unparen(x.Lhs[0]).(*ast.Ident); ok {
			t.setOwn(t.objOf(id), false)
		}
		t.assignTo(x.Lhs[1], okv, types.Typ[types.Bool], define, x.Pos())
	case *ast.TypeAssertExpr:
		v, okv := t.typeAssert(r)
		v = t.temp(t.u.vtype(t.typeOf(r.Type)), v)
		okv = t.temp("bool", okv)
		t.assignTo(x.Lhs[0], v, t.typeOf(r.Type), define, x.Pos())
		if id, ok := unparen(x.Lhs[0]).(*ast.Ident); ok {
			t.setOwn(t.objOf(id), false)
		}
		t.assignTo(x.Lhs[1], okv, types.Typ[types.Bool], define, x.Pos())
	default:
		t.fail(x, "unsupported assignment")
	}
}

func isBuiltin(info *types.Info, c *ast.CallExpr, name string) bool {
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = info.Uses[id].(*types.Builtin)
	return ok
}

func (t *fnT) isRefCopy(e ast.Expr) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	o, ok := t.info().Uses[id].(*types.Var)
	return ok && t.u.isRef(o.Type())
}

// sharedSource: a pointer taken from somewhere else stays shared.
func (t *fnT) sharedSource(e ast.Expr) bool {
	e = unparen(e)
	switch x := e.(type) {
	case *ast.UnaryExpr:
		return x.Op == token.AND && !isComposite(x.X)
	case *ast.CallExpr, *ast.CompositeLit, *ast.TypeAssertExpr:
		return false
	case *ast.Ident:
		return x.Name != "nil"
	}
	return true
}

func isComposite(e ast.Expr) bool {
	_, ok := unparen(e).(*ast.CompositeLit)
	return ok
}

func (t *fnT) markShared(id *ast.Ident, rhs ast.Expr, shared bool) {
	v := t.lookup(t.objOf(id))
	if v == nil || v.esc == "" {
		return
	}
	if shared {
		t.setFlag(v.esc)
	} else {
		if t.flagSet != nil {
			t.flagSet[v.esc] = true
		}
		t.emitProof(v.esc + " = false;")
	}
}

func (t *fnT) lhsType(lhs, rhs ast.Expr) types.Type {
	if id, ok := unparen(lhs).(*ast.Ident); ok {
		if id.Name == "_" {
			return types.Default(t.typeOf(rhs))
		}
		if o := t.objOf(id); o != nil {
			return o.Type()
		}
	}
	return t.typeOf(lhs)
}

// ---- control ----

func (t *fnT) ifStmt(x *ast.IfStmt) flags {
	if x.Init != nil {
		if fl := t.stmt(x.Init); len(fl) > 0 {
			t.fail(x, "exit in if initialiser")
		}
	}
	c := t.expr(x.Cond)
	var f1, f2 flags
	a := t.sub(func() { f1 = t.block(x.Body) })
	var b []Item
	if x.Else != nil {
		b = t.sub(func() { f2 = t.stmt(x.Else) })
	}
	t.emit("if cond(Ghost(" + c + ")) {")
	t.add(a)
	if len(b) > 0 {
		t.emit("} else {")
		t.add(b)
	}
	t.emit("}")
	return f1.union(f2)
}

func (t *fnT) switchStmt(x *ast.SwitchStmt) flags {
	if x.Init != nil {
		t.stmt(x.Init)
	}
	tag := ""
	var TT types.Type
	if x.Tag != nil {
		TT = t.typeOf(x.Tag)
		tag = t.temp(t.u.vtype(TT), t.expr(x.Tag))
	}
	t.tmp++
	brk := fmt.Sprintf("fl_sw%d", t.tmp)
	lc := &loopCtx{brk: brk, label: t.lblNext, fr: t.fr}
	t.lblNext = ""
	t.emit("let ghost mut " + brk + ": bool = false;")
	t.loops = append(t.loops, lc)
	var cases []*ast.CaseClause
	var def *ast.CaseClause
	for _, s := range x.Body.List {
		cc := s.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			cases = append(cases, cc)
		}
		for _, b := range cc.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				t.fail(b, "fallthrough")
			}
		}
	}
	var all flags
	var rec func(i int)
	rec = func(i int) {
		if i == len(cases) {
			if def != nil {
				all = all.union(t.stmts(def.Body))
			}
			return
		}
		cc := cases[i]
		var cs []string
		for k, e := range cc.List {
			var s string
			it := t.sub(func() {
				if x.Tag != nil {
					v := t.exprTo(e, TT)
					if t.u.vtype(TT) == "S" && v == "sempty()" {
						s = tag + ".len() == 0"
					} else {
						s = tag + " == " + paren(v)
					}
				} else {
					s = paren(t.expr(e))
				}
			})
			if k > 0 && len(it) > 0 && !onlyAsserts(it) {
				t.fail(e, "calls in later case expressions")
			}
			t.add(it)
			cs = append(cs, paren(s))
		}
		t.emit("if cond(Ghost(" + strings.Join(cs, " || ") + ")) {")
		f := t.stmts(cc.Body)
		all = all.union(f)
		rest := t.sub(func() { rec(i + 1) })
		if len(rest) > 0 {
			t.emit("} else {")
			t.add(rest)
		}
		t.emit("}")
	}
	rec(0)
	t.loops = t.loops[:len(t.loops)-1]
	out := flags{}
	for k := range all {
		if k != brk {
			out[k] = true
		}
	}
	return out
}

func (t *fnT) branch(x *ast.BranchStmt) flags {
	for i := len(t.loops) - 1; i >= 0; i-- {
		l := t.loops[i]
		if x.Label != nil && l.label != x.Label.Name {
			continue
		}
		if x.Tok == token.CONTINUE && !l.isLoop {
			continue
		}
		if x.Tok == token.BREAK {
			t.emitProof(l.brk + " = true;")
			return flags{l.brk: true}
		}
		if x.Tok == token.CONTINUE {
			l.cont()
			t.assume("false")
			return nil
		}
	}
	t.fail(x, "unsupported branch")
	return nil
}

func (t *fnT) ret(x *ast.ReturnStmt) flags {
	fr := t.fr
	// innermost function frame
	var vals []string
	sig := fr.sig
	n := sig.Results().Len()
	switch {
	case len(x.Results) == n:
		vals = t.seqExprs(n, func(i int) string { return t.stored(x.Results[i], sig.Results().At(i).Type()) },
			func(i int) string { return t.u.vtype(sig.Results().At(i).Type()) })
	case len(x.Results) == 1 && n > 1:
		c, ok := unparen(x.Results[0]).(*ast.CallExpr)
		if !ok {
			t.fail(x, "return")
		}
		tup := t.typeOf(c).(*types.Tuple)
		vals = t.call(c, false)
		for i := range vals {
			vals[i] = t.conv(vals[i], tup.At(i).Type(), sig.Results().At(i).Type(), x)
		}
	case len(x.Results) == 0 && n > 0:
		for _, v := range fr.named {
			vals = append(vals, t.pathValue(t.rootPath(v), v.typ))
		}
	}
	if !fr.inl {
		t.topReturn(vals, x.Pos())
		return nil
	}
	for i := range vals {
		vals[i] = t.temp(t.u.vtype(fr.retTyps[i]), vals[i])
	}
	for i := range vals {
		t.emitProof(fr.retVars[i] + " = " + vals[i] + ";")
	}
	t.emitProof(fr.retFlag + " = true;")
	return flags{fr.retFlag: true}
}

// ---- loops ----

type loopParts struct {
	spec       *LoopSpec
	k          int
	cond       func() string // emits pre-statements, returns condition ("" = none)
	body       func() flags
	post       func()
	auto       []string // extra invariants
	dec        string   // automatic variant
	pos        token.Pos
	decl       int // serial at entry
	label      string
	after      func(flags)
	autoM      func() []string // invariants depending on what the body modifies
	skipHavoc  map[string]bool
	brkAsserts func()
}

func (t *fnT) loop(lp *loopParts) flags {
	k := lp.k
	spec := lp.spec
	if spec == nil {
		spec = &LoopSpec{}
	}
	t.tmp++
	brk := fmt.Sprintf("fl_brk%d_%d", k, t.tmp)
	t.emit("let ghost mut " + brk + ": bool = false;")
	serial := t.serial
	for _, s := range t.snaps(spec, spec.Snap) {
		t.loopSub[s[0]] = t.tempAuto(t.at(s[1], lp.pos, nil))
	}

	type invT struct{ name, text string }
	var invs []invT
	// body first, to learn what it changes
	oldMods, oldFS, oldFM := t.mods, t.flagSet, t.flagMut
	t.mods = map[string]modRec{}
	t.flagSet = map[string]bool{}
	t.flagMut = map[string]bool{}
	var decName string
	var checkInv func(when string)
	lc := &loopCtx{brk: brk, label: lp.label, isLoop: true, fr: t.fr}
	frAt := t.fr
	endIter := func() {
		cur := t.fr
		t.fr = frAt
		for _, c := range spec.Tail {
			if t.want(c) {
				t.emitProof(t.at(c.Text, lp.pos, nil))
			}
		}
		if lp.post != nil {
			lp.post()
		}
		checkInv("preserved")
		if spec.Dec != nil && t.want(*spec.Dec) {
			d := t.at(spec.Dec.Text, lp.pos, nil)
			t.assert("variant", fmt.Sprintf("loop %d terminates", k), lp.pos, fmt.Sprintf("0 <= %s && (%s) < %s", paren(d), d, decName))
		} else if lp.dec != "" {
			t.assert("variant", fmt.Sprintf("loop %d terminates", k), lp.pos, fmt.Sprintf("0 <= %s && (%s) < %s", paren(lp.dec), lp.dec, decName))
		} else if t.dry == 0 {
			t.u.notes["no termination measure for loop "+fmt.Sprint(k)+" of "+t.spec.Key+" (partial correctness)"] = true
		}
		t.fr = cur
	}
	lc.cont = endIter
	checkInv = func(when string) {
		for _, iv := range invs {
			t.assert("invariant", fmt.Sprintf("loop %d/%s (%s)", k, iv.name, when), lp.pos, iv.text)
		}
	}
	// invariants: names resolve at the loop header
	mkInvs := func() {
		invs = nil
		for i, c := range spec.Inv {
			if !t.want(c) {
				continue
			}
			n := c.Name
			if n == "" {
				n = fmt.Sprintf("inv%d", i+1)
			}
			invs = append(invs, invT{n, t.at(c.Text, lp.pos, nil)})
		}
		for i, a := range lp.auto {
			invs = append(invs, invT{fmt.Sprintf("auto%d", i+1), a})
		}
	}
	mkInvs()
	t.tmp++
	decName = fmt.Sprintf("dec%d", t.tmp)
	// run the body generation twice: the first pass learns the modified set
	gen := func() ([]Item, flags, string, []Item) {
		var fl flags
		var c string
		var condItems []Item
		t.loops = append(t.loops, lc)
		nl, tmp, us, ser := t.nloop, t.tmp, t.used, t.serial
		_ = nl
		_ = tmp
		_ = us
		_ = ser
		condItems = t.sub(func() {
			if lp.cond != nil {
				c = lp.cond()
			}
		})
		heads := func() {
			for _, s := range t.snaps(spec, spec.ISnap) {
				t.loopSub[s[0]] = t.tempAuto(t.at(s[1], lp.pos, nil))
			}
			for _, h := range spec.Head {
				if t.want(h) {
					t.emitProof(t.at(h.Text, lp.pos, nil))
				}
			}
		}
		// hints speak of the state an iteration starts in: before a condition with effects
		early := movesWorld(condItems)
		if early {
			condItems = append(t.sub(heads), condItems...)
		}
		items := t.sub(func() {
			if !early {
				heads()
			}
			fl = lp.body()
			rest := t.sub(func() { endIter(); t.assume("false") })
			ex := flags{}.union(fl)
			if len(ex) > 0 {
				t.guarded("!("+ex.any()+")", rest)
			} else {
				t.add(rest)
			}
		})
		t.loops = t.loops[:len(t.loops)-1]
		return items, fl, c, condItems
	}
	var items, condItems []Item
	var fl flags
	var c string
	// flag invariants are added after a dry run
	declBefore := map[string]bool{}
	for f := range t.declared {
		declBefore[f] = true
	}
	save := *t
	saveObl := len(t.u.obls)
	usedCopy := map[string]int{}
	for a, b := range t.used {
		usedCopy[a] = b
	}
	t.dry++
	gen()
	t.dry--
	flagSet, flagMut := t.flagSet, t.flagMut
	mods1 := t.mods
	_ = mods1
	// restore counters for the real pass
	t.declared = map[string]bool{}
	for f := range declBefore {
		t.declared[f] = true
	}
	t.used, t.tmp, t.nloop, t.serial, t.lblNext = usedCopy, save.tmp, save.nloop, save.serial, save.lblNext
	t.u.obls = t.u.obls[:saveObl]
	t.mods = map[string]modRec{}
	var flagHavoc, flagInv []string
	for _, f := range sortedKeys(flagSet) {
		if flagMut[f] && !strings.HasPrefix(f, "\x00") {
			flagInv = append(flagInv, "!"+f)
		} else {
			flagHavoc = append(flagHavoc, f)
		}
	}
	// only flags declared before the loop matter
	flagInv = t.visibleFlags(flagInv, declBefore)
	flagHavoc = t.visibleFlags(flagHavoc, declBefore)
	lp.auto = append(lp.auto, flagInv...)
	if lp.autoM != nil {
		t.mods = mods1
		lp.auto = append(lp.auto, lp.autoM()...)
		t.mods = map[string]modRec{}
	}
	mkInvs()
	t.flagSet, t.flagMut = map[string]bool{}, map[string]bool{}
	items, fl, c, condItems = gen()
	mods := t.mods
	t.mods, t.flagSet, t.flagMut = oldMods, oldFS, oldFM
	if t.mods != nil {
		for kk, m := range mods {
			t.mods[kk] = m
		}
	}
	if t.flagSet != nil {
		for f := range flagSet {
			t.flagSet[f] = true
		}
	}
	if t.flagMut != nil {
		for f := range flagMut {
			t.flagMut[f] = true
		}
	}
	// entry
	checkInv("on entry")
	// havoc
	for _, m := range t.havocList(mods, serial) {
		p := Path{root: m.v, steps: m.flds}
		h := t.havocPath(m)
		t.emitProof(fmt.Sprintf("%s = %s;", m.v.name, pathUpdate(m.v.name, p.steps, h)))
	}
	for _, f := range flagHavoc {
		h := t.havoc("bool")
		t.emitProof(f + " = " + h + ";")
	}
	for _, iv := range invs {
		t.assume(iv.text)
	}
	if spec.Dec != nil && t.want(*spec.Dec) {
		t.emit("let ghost " + decName + ": int = (" + t.at(spec.Dec.Text, lp.pos, nil) + ") as int;")
	} else if lp.dec != "" {
		t.emit("let ghost " + decName + ": int = (" + lp.dec + ") as int;")
	} else {
		t.emit("let ghost " + decName + ": int = 0;")
	}
	t.probe(fmt.Sprintf("loop %d head", k), lp.pos)
	t.add(condItems)
	if c != "" {
		t.emit("if cond(Ghost(" + c + ")) {")
		t.add(items)
		t.emit("}")
	} else {
		t.add(items)
	}
	for _, pp := range spec.Post {
		if t.want(pp) {
			t.emitProof(t.at(pp.Text, lp.pos, nil))
		}
	}
	out := flags{}
	for f := range fl {
		if f != brk {
			out[f] = true
		}
	}
	return out
}

// visibleFlags keeps the flags declared before the loop.
func (t *fnT) visibleFlags(l []string, before map[string]bool) []string {
	var out []string
	for _, f := range l {
		if before[strings.TrimPrefix(f, "!")] {
			out = append(out, f)
		}
	}
	return out
}

// havocList: modified places of variables declared before the loop.
func (t *fnT) havocList(mods map[string]modRec, serial int) []modRec {
	var out []modRec
	keys := sortedKeys(mods)
	for _, k := range keys {
		m := mods[k]
		if m.v.serial > serial {
			continue
		}
		cov := false
		for _, k2 := range keys {
			if k2 != k && strings.HasPrefix(k, k2) && mods[k2].v == m.v && (len(k2) == len(m.v.name) || k[len(k2)] == '.' || k[len(k2)] == '*') {
				cov = true
			}
		}
		if !cov {
			out = append(out, m)
		}
	}
	return out
}

func (t *fnT) havocPath(m modRec) string {
	t.tmp++
	n := fmt.Sprintf("hv%d", t.tmp)
	vt := m.v.vt
	if len(m.flds) > 0 {
		vt = m.flds[len(m.flds)-1].vt
	}
	t.emit(fmt.Sprintf("let %s_x = havoc::<%s>(); let ghost %s: %s = %s_x@;", n, vt, n, vt, n))
	return n
}

func (t *fnT) probe(what string, pos token.Pos) {
	if !t.u.probes {
		return
	}
	t.tmp++
	m := t.obl("probe", what, pos, "false")
	t.emit(fmt.Sprintf("let pr%d = havoc::<bool>(); if cond(Ghost(pr%d@)) { assert(false); %s }", t.tmp, t.tmp, m))
}

// nextLoop finds the contract of a loop: the first whose pattern matches the header, else the one at its position.
func (t *fnT) nextLoop(s ast.Node) (int, *LoopSpec, string) {
	k := t.nloop
	t.nloop++
	l := t.lblNext
	t.lblNext = ""
	head := t.loopHead(s)
	for _, n := range loopOrder(t.spec.Loops) {
		if sp := t.spec.Loops[n]; sp.Match != nil && sp.Match.MatchString(head) {
			return n, sp, l
		}
	}
	return k, t.spec.Loops[k], l
}

// movesWorld: do these items change the outside world?
func movesWorld(items []Item) bool {
	for _, i := range items {
		if strings.Contains(i.text, "w = World {") {
			return true
		}
	}
	return false
}

// loopHead describes a loop for the patterns of the contracts: "range X : T", "for cond : T".
func (t *fnT) loopHead(s ast.Node) string {
	var e ast.Expr
	h := "for "
	switch x := s.(type) {
	case *ast.RangeStmt:
		h = "range " + types.ExprString(x.X)
		if c := t.onlyCall(x.X); c != nil {
			h = "range " + types.ExprString(c)
		}
		e = x.X
	case *ast.ForStmt:
		if x.Cond == nil {
			return "for"
		}
		h += types.ExprString(x.Cond)
		ast.Inspect(x.Cond, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 1 && e == nil {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "len" {
					e = c.Args[0]
				}
			}
			return true
		})
	}
	if e != nil {
		h += " : " + types.TypeString(t.typeOf(e), func(*types.Package) string { return "" })
	}
	return h
}

// drains recognises for { v, ok := <-c; if !ok { break }; ... }: a range over c.
func (t *fnT) drains(x *ast.ForStmt) *ast.RangeStmt {
	if x.Init != nil || x.Cond != nil || x.Post != nil || len(x.Body.List) < 2 {
		return nil
	}
	as, ok := x.Body.List[0].(*ast.AssignStmt)
	if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 2 || len(as.Rhs) != 1 {
		return nil
	}
	rc, ok := unparen(as.Rhs[0]).(*ast.UnaryExpr)
	if !ok || rc.Op != token.ARROW {
		return nil
	}
	if _, ok := unparen(rc.X).(*ast.Ident); !ok {
		return nil
	}
	more, ok := as.Lhs[1].(*ast.Ident)
	if !ok || t.info().Defs[more] == nil {
		return nil
	}
	br, ok := x.Body.List[1].(*ast.IfStmt)
	if !ok || br.Init != nil || br.Else != nil || len(br.Body.List) != 1 {
		return nil
	}
	not, ok := unparen(br.Cond).(*ast.UnaryExpr)
	if !ok || not.Op != token.NOT {
		return nil
	}
	if id, ok := unparen(not.X).(*ast.Ident); !ok || t.info().Uses[id] != t.info().Defs[more] {
		return nil
	}
	if b, ok := br.Body.List[0].(*ast.BranchStmt); !ok || b.Tok != token.BREAK || b.Label != nil {
		return nil
	}
	rest := x.Body.List[2:]
	for _, st := range rest {
		if t.uses(st, t.info().Defs[more]) > 0 {
			return nil
		}
	}
	key := as.Lhs[0]
	if id, ok := key.(*ast.Ident); ok && id.Name == "_" {
		key = nil
	}
	return &ast.RangeStmt{For: x.For, Key: key, Tok: token.DEFINE, X: rc.X,
		Body: &ast.BlockStmt{Lbrace: x.Body.Lbrace, List: rest, Rbrace: x.Body.Rbrace}}
}

// uses counts the mentions of a variable.
func (t *fnT) uses(n ast.Node, o types.Object) int {
	c := 0
	ast.Inspect(n, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && t.info().Uses[id] == o {
			c++
		}
		return true
	})
	return c
}

// onlyCall: a local that holds the result of one call and is mentioned once only: that call.
func (t *fnT) onlyCall(e ast.Expr) ast.Expr {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || t.fr.fd == nil || t.fr.fd.Decl.Body == nil {
		return nil
	}
	o := t.info().Uses[id]
	if o == nil || t.uses(t.fr.fd.Decl.Body, o) != 1 {
		return nil
	}
	var call ast.Expr
	ast.Inspect(t.fr.fd.Decl.Body, func(n ast.Node) bool {
		if as, ok := n.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
			if l, ok := as.Lhs[0].(*ast.Ident); ok && t.info().Defs[l] == o {
				if c, ok := unparen(as.Rhs[0]).(*ast.CallExpr); ok {
					call = c
				}
			}
		}
		return true
	})
	return call
}

func (t *fnT) forStmt(x *ast.ForStmt) flags {
	if r := t.drains(x); r != nil {
		return t.rangeStmt(r)
	}
	k, spec, lbl := t.nextLoop(x)
	if x.Init != nil {
		t.stmt(x.Init)
	}
	lp := loopParts{spec: spec, k: k, pos: x.Body.Pos() + 1, label: lbl}
	// canonical counting loop
	if iv, bound, ok := t.canonical(x); ok {
		v := t.lookup(iv)
		if v != nil {
			t.loopSub[fmt.Sprintf("ix%d", k)] = v.name
			t.rangeOver(x, k, spec)
			lp.autoM = func() []string {
				var a []string
				if n := 0; true {
					_ = n
					a = append(a, "0 <= "+v.name)
				}
				if bound != nil {
					var b string
					it := t.sub(func() { b = t.exprTo(bound, types.Typ[types.Int]) })
					if onlyAsserts(it) && !t.modifiedIn(bound) && strings.HasSuffix(b, ".len() as int)") {
						a = append(a, v.name+" <= "+b)
						if lp.spec == nil || lp.spec.Dec == nil {
							lp.dec = b + " - " + v.name
						}
					}
				}
				return a
			}
		}
	}
	if x.Cond != nil {
		lp.cond = func() string { return t.expr(x.Cond) }
	}
	if x.Post != nil {
		lp.post = func() { t.stmt(x.Post) }
	}
	lp.body = func() flags { return t.block(x.Body) }
	return t.loop(&lp)
}

// rangeOver: in for i := 0; i < len(X); i++ the contract's rng stands for X, if it is mentioned.
func (t *fnT) rangeOver(x *ast.ForStmt, k int, spec *LoopSpec) {
	name := fmt.Sprintf("rng%d", k)
	be, ok := x.Cond.(*ast.BinaryExpr)
	for ok && be.Op == token.LAND {
		be, ok = unparen(be.X).(*ast.BinaryExpr)
	}
	if !ok || be.Op != token.LSS || spec == nil {
		return
	}
	c, ok := unparen(be.Y).(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return
	}
	if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "len" {
		return
	}
	sl, ok := t.typeOf(c.Args[0]).Underlying().(*types.Slice)
	if !ok {
		return
	}
	if mentions(spec, name) {
		e := t.expr(c.Args[0])
		t.tmp++
		rgn := fmt.Sprintf("rng%d_%d", k, t.tmp)
		t.emit(fmt.Sprintf("let ghost %s: Sl<%s> = %s;", rgn, t.u.vtype(sl.Elem()), e))
		t.loopSub[name] = rgn
	}
}

// mentions: do the clauses of a loop use this name?
func mentions(spec *LoopSpec, name string) bool {
	if spec == nil {
		return false
	}
	re := regexp.MustCompile(`\b` + name + `\b`)
	for _, cs := range [][]Clause{spec.Inv, spec.Head, spec.Tail, spec.Post} {
		for _, cl := range cs {
			if re.MatchString(cl.Text) {
				return true
			}
		}
	}
	return false
}

func (t *fnT) modifiedIn(e ast.Expr) bool {
	mod := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if v := t.lookup(t.objOf(id)); v != nil {
				rp := t.rootPath(v)
				for _, m := range t.mods {
					if m.v == rp.root {
						mod = true
					}
				}
			}
		}
		return true
	})
	if c, ok := unparen(e).(*ast.CallExpr); ok && mod && len(c.Args) == 1 {
		// len(x.f) stays the same when x.g changes
		var p Path
		t.sub(func() { p, ok = t.place(c.Args[0]) })
		if ok {
			mod = false
			for _, m := range t.mods {
				mod = mod || m.v == p.root && !disjoint(m.flds, p.steps)
			}
		}
	}
	return mod
}

// disjoint: two paths from one variable part at a field.
func disjoint(a, b []Step) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].kind != "field" || b[i].kind != "field" {
			return false
		}
		if a[i].name != b[i].name {
			return true
		}
	}
	return false
}

// canonical recognises for i := c; i < bound; i++ with i unchanged in the body.
func (t *fnT) canonical(x *ast.ForStmt) (types.Object, ast.Expr, bool) {
	as, ok := x.Init.(*ast.AssignStmt)
	if !ok || len(as.Lhs) != 1 || as.Tok != token.DEFINE {
		return nil, nil, false
	}
	id, ok := as.Lhs[0].(*ast.Ident)
	if !ok {
		return nil, nil, false
	}
	o := t.info().Defs[id]
	tv := t.info().Types[as.Rhs[0]]
	if o == nil || tv.Value == nil || strings.HasPrefix(tv.Value.ExactString(), "-") {
		return nil, nil, false
	}
	inc, ok := x.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return nil, nil, false
	}
	if pid, ok := inc.X.(*ast.Ident); !ok || t.info().Uses[pid] != o {
		return nil, nil, false
	}
	bad := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if li, ok := l.(*ast.Ident); ok && t.info().Uses[li] == o {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			if li, ok := y.X.(*ast.Ident); ok && t.info().Uses[li] == o {
				bad = true
			}
		}
		return true
	})
	if bad {
		return nil, nil, false
	}
	var bound ast.Expr
	if be, ok := x.Cond.(*ast.BinaryExpr); ok && be.Op == token.LSS {
		if bi, ok := be.X.(*ast.Ident); ok && t.info().Uses[bi] == o {
			if tv := t.info().Types[as.Rhs[0]]; tv.Value != nil && tv.Value.ExactString() == "0" {
				bound = be.Y
			}
		}
	}
	return o, bound, true
}

func (t *fnT) rangeVar(e ast.Expr, define bool) (*ast.Ident, bool) {
	if e == nil {
		return nil, false
	}
	id, ok := e.(*ast.Ident)
	if !ok || id.Name == "_" {
		return nil, false
	}
	return id, true
}

func (t *fnT) rangeStmt(x *ast.RangeStmt) flags {
	k, spec, lbl := t.nextLoop(x)
	T := t.typeOf(x.X)
	perIter := goVersionAtLeast(t.u.prog.GoVer, 1, 22)
	lp := loopParts{spec: spec, k: k, pos: x.Body.Pos() + 1, label: lbl}
	define := x.Tok == token.DEFINE
	t.tmp++
	uid := t.tmp
	ixn := fmt.Sprintf("ix%d_%d", k, uid)
	rgn := fmt.Sprintf("rng%d_%d", k, uid)
	ixv := &Var{name: ixn, vt: "int"}
	t.serial++
	ixv.serial = t.serial

	kid, hasK := t.rangeVar(x.Key, define)
	vid, hasV := t.rangeVar(x.Value, define)
	declVars := func() {
		if define {
			if hasK {
				o := t.info().Defs[kid]
				t.declLocal(kid, o.Type(), t.u.zero(o.Type()))
			}
			if hasV {
				o := t.info().Defs[vid]
				t.declLocal(vid, o.Type(), t.u.zero(o.Type()))
				// values come out of a container: pointers are shared
			}
		}
	}
	setVar := func(e ast.Expr, id *ast.Ident, has bool, val string) {
		if !has {
			if e != nil {
				if i, ok := e.(*ast.Ident); !ok || i.Name != "_" {
					t.fail(x, "range into this place")
				}
			}
			return
		}
		p, _ := t.place(id)
		t.write(p, val, x.Pos())
		if p.root.esc != "" && len(p.steps) == 0 {
			t.setFlag(p.root.esc)
		}
		if len(p.steps) == 0 {
			t.setOwn(p.root.obj, false)
		}
	}
	switch y := T.Underlying().(type) {
	case *types.Slice:
		e := t.expr(x.X)
		et := t.u.vtype(y.Elem())
		t.emit(fmt.Sprintf("let ghost %s: Sl<%s> = %s;", rgn, et, e))
		t.emit(fmt.Sprintf("let ghost mut %s: int = 0;", ixn))
		t.loopSub[fmt.Sprintf("ix%d", k)] = ixn
		t.loopSub[fmt.Sprintf("rng%d", k)] = rgn
		if !perIter {
			declVars()
		}
		lp.auto = []string{fmt.Sprintf("0 <= %s && %s <= %s.s.len()", ixn, ixn, rgn)}
		lp.dec = rgn + ".s.len() - " + ixn
		lp.cond = func() string { return ixn + " < " + rgn + ".s.len()" }
		lp.body = func() flags {
			if perIter {
				declVars()
			}
			if hasV && writesElem(x.Body, x.X) {
				// elements are read when they are reached
				cur := paren(t.expr(x.X))
				t.assert("alias", "the elements still to come are as they were", x.Pos(), fmt.Sprintf("%s < %s.s.len() && %s.s[%s] == %s.s[%s]", ixn, cur, cur, ixn, rgn, ixn))
			}
			setVar(x.Key, kid, hasK, ixn)
			setVar(x.Value, vid, hasV, rgn+".s["+ixn+"]")
			return t.block(x.Body)
		}
		lp.post = func() { t.write(Path{root: ixv, vt: "int"}, ixn+" + 1", x.Pos()) }
		return t.loop(&lp)
	case *types.Basic: // string or integer
		if y.Info()&types.IsString != 0 {
			e := t.expr(x.X)
			t.emit(fmt.Sprintf("let ghost %s: S = %s;", rgn, e))
			t.emit(fmt.Sprintf("let ghost mut %s: int = 0;", ixn))
			t.loopSub[fmt.Sprintf("ix%d", k)] = ixn
			t.loopSub[fmt.Sprintf("rng%d", k)] = rgn
			if !perIter {
				declVars()
			}
			lp.auto = []string{fmt.Sprintf("0 <= %s && %s <= runes(%s).len()", ixn, ixn, rgn)}
			lp.dec = "runes(" + rgn + ").len() - " + ixn
			lp.cond = func() string { return ixn + " < runes(" + rgn + ").len()" }
			lp.body = func() flags {
				if perIter {
					declVars()
				}
				setVar(x.Key, kid, hasK, "rune_off("+rgn+", "+ixn+")")
				setVar(x.Value, vid, hasV, "runes("+rgn+")["+ixn+"]")
				return t.block(x.Body)
			}
			lp.post = func() { t.write(Path{root: ixv, vt: "int"}, ixn+" + 1", x.Pos()) }
			return t.loop(&lp)
		}
		n := t.temp("int", t.exprTo(x.X, types.Typ[types.Int]))
		t.emit(fmt.Sprintf("let ghost mut %s: int = 0;", ixn))
		t.loopSub[fmt.Sprintf("ix%d", k)] = ixn
		if !perIter {
			declVars()
		}
		lp.auto = []string{fmt.Sprintf("0 <= %s && (%s <= %s || %s < 0)", ixn, ixn, n, n)}
		lp.dec = n + " - " + ixn
		lp.cond = func() string { return ixn + " < " + n }
		lp.body = func() flags {
			if perIter {
				declVars()
			}
			setVar(x.Key, kid, hasK, ixn)
			return t.block(x.Body)
		}
		lp.post = func() { t.write(Path{root: ixv, vt: "int"}, ixn+" + 1", x.Pos()) }
		return t.loop(&lp)
	case *types.Map:
		// arbitrary enumeration of the keys present when the loop starts
		e := t.expr(x.X)
		kt, vt := t.u.vtype(y.Key()), t.u.vtype(y.Elem())
		m0 := t.temp("Mp<"+kt+", "+vt+">", e)
		h := t.havoc("Seq<" + kt + ">")
		t.assume(fmt.Sprintf("map_enum(%s, %s)", m0, h))
		t.emit(fmt.Sprintf("let ghost %s: Seq<%s> = %s;", rgn, kt, h))
		t.emit(fmt.Sprintf("let ghost %s_m: Mp<%s, %s> = %s;", rgn, kt, vt, m0))
		t.emit(fmt.Sprintf("let ghost mut %s: int = 0;", ixn))
		t.loopSub[fmt.Sprintf("ix%d", k)] = ixn
		t.loopSub[fmt.Sprintf("rng%d", k)] = rgn
		t.loopSub[fmt.Sprintf("rngm%d", k)] = rgn + "_m"
		if !perIter {
			declVars()
		}
		lp.auto = []string{fmt.Sprintf("0 <= %s && %s <= %s.len()", ixn, ixn, rgn)}
		lp.dec = rgn + ".len() - " + ixn
		lp.cond = func() string { return ixn + " < " + rgn + ".len()" }
		cur := m0
		if p, ok := t.place(x.X); ok {
			cur = p.read()
		}
		z := t.u.zero(y.Elem())
		lp.body = func() flags {
			if perIter {
				declVars()
			}
			setVar(x.Key, kid, hasK, rgn+"["+ixn+"]")
			setVar(x.Value, vid, hasV, fmt.Sprintf("mp_get(%s, %s[%s], %s)", cur, rgn, ixn, z))
			var f flags
			it := t.sub(func() { f = t.block(x.Body) })
			t.assert("map", "map loop adds no keys", x.Pos(), fmt.Sprintf("%s.m.dom().subset_of(%s.m.dom())", cur, m0))
			t.emit("if cond(Ghost(" + cur + ".m.contains_key(" + rgn + "[" + ixn + "]))) {")
			t.add(it)
			t.emit("}")
			return f
		}
		lp.post = func() { t.write(Path{root: ixv, vt: "int"}, ixn+" + 1", x.Pos()) }
		return t.loop(&lp)
	case *types.Chan:
		et := t.u.vtype(y.Elem())
		if _, isCall := unparen(x.X).(*ast.CallExpr); isCall || t.onlyCall(x.X) != nil && mentions(spec, fmt.Sprintf("ix%d", k)) {
			e := t.expr(x.X)
			t.emit(fmt.Sprintf("let ghost %s: Ch<%s> = %s;", rgn, et, e))
			t.assert("channel", "the channel being drained is closed", x.Pos(), rgn+".closed")
			t.emit(fmt.Sprintf("let ghost mut %s: int = 0;", ixn))
			t.loopSub[fmt.Sprintf("ix%d", k)] = ixn
			t.loopSub[fmt.Sprintf("rng%d", k)] = rgn
			if !perIter {
				declVars()
			}
			lp.auto = []string{fmt.Sprintf("0 <= %s && %s <= %s.buf.len()", ixn, ixn, rgn)}
			lp.dec = rgn + ".buf.len() - " + ixn
			lp.cond = func() string { return ixn + " < " + rgn + ".buf.len()" }
			lp.body = func() flags {
				if perIter {
					declVars()
				}
				setVar(x.Key, kid, hasK, rgn+".buf["+ixn+"]")
				return t.block(x.Body)
			}
			lp.post = func() { t.write(Path{root: ixv, vt: "int"}, ixn+" + 1", x.Pos()) }
			return t.loop(&lp)
		}
		p, ok := t.place(x.X)
		if !ok {
			t.fail(x, "range over this channel")
		}
		c := p.read()
		t.emit(fmt.Sprintf("let ghost %s: Ch<%s> = %s;", rgn, et, c))
		t.loopSub[fmt.Sprintf("rng%d", k)] = rgn
		if !perIter {
			declVars()
		}
		lp.dec = c + ".buf.len()"
		lp.cond = func() string {
			t.assert("channel", "receive cannot block forever", x.Pos(), fmt.Sprintf("%s.buf.len() > 0 || %s.closed", c, c))
			return c + ".buf.len() > 0"
		}
		lp.body = func() flags {
			if perIter {
				declVars()
			}
			setVar(x.Key, kid, hasK, c+".buf[0]")
			t.write(p, "ch_pop("+c+")", x.Pos())
			return t.block(x.Body)
		}
		return t.loop(&lp)
	}
	t.fail(x, "range over %s", T)
	return nil
}

// snaps: those the clauses in use mention (a lean property leaves most out).
func (t *fnT) snaps(sp *LoopSpec, l [][2]string) [][2]string {
	if !t.u.lean {
		return l
	}
	var out [][2]string
	for _, s := range l {
		re := regexp.MustCompile(`\b` + regexp.QuoteMeta(s[0]) + `\b`)
		used := false
		for _, cs := range [][]Clause{sp.Inv, sp.Head, sp.Tail, sp.Post} {
			for _, c := range cs {
				used = used || t.want(c) && re.MatchString(c.Text)
			}
		}
		if used {
			out = append(out, s)
		}
	}
	return out
}

// writesElem: the body assigns to elements of the slice being ranged over.
func writesElem(body ast.Node, s ast.Expr) bool {
	name := types.ExprString(unparen(s))
	found := false
	check := func(e ast.Expr) {
		if ix, ok := unparen(e).(*ast.IndexExpr); ok && types.ExprString(unparen(ix.X)) == name {
			found = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				check(l)
			}
		case *ast.IncDecStmt:
			check(y.X)
		}
		return true
	})
	return found
}
