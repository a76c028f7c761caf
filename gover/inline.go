package main

import (
	"fmt"
	"go/ast"
	"go/types"
)

type closureJob struct {
	lit  *ast.FuncLit
	spec *FuncSpec
	fr   *frame
	from *fnT
}

type argBind struct {
	place  *Path
	fn     *ast.FuncLit
	fnFr   *frame
	val    string
	T      types.Type
	shared bool
}

func fieldIdents(fl *ast.FieldList) []*ast.Ident {
	var out []*ast.Ident
	if fl == nil {
		return nil
	}
	for _, f := range fl.List {
		if len(f.Names) == 0 {
			out = append(out, nil)
		}
		for _, n := range f.Names {
			out = append(out, n)
		}
	}
	return out
}

func assignedIn(info *types.Info, body ast.Node, o types.Object) bool {
	bad := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if li, ok := l.(*ast.Ident); ok && info.Uses[li] == o {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			if li, ok := y.X.(*ast.Ident); ok && info.Uses[li] == o {
				bad = true
			}
		case *ast.UnaryExpr:
			if y.Op.String() == "&" {
				if li, ok := unparen(y.X).(*ast.Ident); ok && info.Uses[li] == o {
					bad = true
				}
			}
		}
		return true
	})
	return bad
}

func (t *fnT) freeze(p Path) Path {
	q := Path{root: p.root, vt: p.vt}
	for _, s := range p.steps {
		if s.kind == "index" || s.kind == "key" {
			s.name = t.tempAuto(s.name)
		}
		q.steps = append(q.steps, s)
	}
	return q
}

func (t *fnT) bindArg(a ast.Expr, PT types.Type) argBind {
	a = unparen(a)
	if fl, ok := a.(*ast.FuncLit); ok {
		return argBind{fn: fl, fnFr: t.fr, T: PT}
	}
	if id, ok := a.(*ast.Ident); ok {
		if v := t.lookup(t.objOf(id)); v != nil && v.fn != nil {
			return argBind{fn: v.fn, fnFr: v.fnFr, T: PT}
		}
	}
	_, isPtr := PT.Underlying().(*types.Pointer)
	if !isNilExpr(t.info(), a) && (isPtr && t.u.vtype(PT) != "int" || t.u.isRef(PT)) {
		if id, ok := a.(*ast.Ident); ok && isPtr {
			// nilable pointer variables are passed by value
			if v := t.lookup(t.objOf(id)); v != nil && len(t.rootPath(v).steps) == 0 && t.rootPath(v).vt[:min(7, len(v.vt))] == "Option<" && !v.direct {
				if v.maybeNil {
					return argBind{val: t.exprTo(a, PT), T: PT, shared: true}
				}
			}
		}
		if p, ok := t.ptrArgPlace(a, PT); ok {
			p = t.freeze(p)
			return argBind{place: &p, T: PT}
		}
	}
	return argBind{val: t.exprTo(a, PT), T: PT}
}

// inlineDecl translates a call by the body of the called function.
func (t *fnT) inlineDecl(fd *FuncDecl, recv ast.Expr, x *ast.CallExpr) []string {
	for _, k := range t.stack {
		if k == fd.Key {
			t.fail(x, "recursive function %s has no contract", fd.Key)
		}
	}
	t.u.inlined[fd.Key] = true
	sig := fd.Obj.Type().(*types.Signature)
	ps, variadic := sigTypes(sig, true)
	var args []ast.Expr
	if recv != nil {
		args = append(args, recv)
	}
	args = append(args, x.Args...)
	ids := fieldIdents(fd.Decl.Type.Params)
	if fd.Decl.Recv != nil {
		ids = append(fieldIdents(fd.Decl.Recv), ids...)
	}
	binds := t.bindArgs(args, ps, variadic, x)
	fr := &frame{fd: fd, pkg: fd.Pkg, vars: map[types.Object]*Var{}, names: map[string]*Var{}, parent: t.fr, callPos: x.Pos(), inl: true, sig: sig}
	fr.own = t.scanOwn(fd.Pkg.Info, fd.Decl.Body)
	fr.addr = scanAddr(fd.Pkg.Info, fd.Decl.Body)
	t.stack = append(t.stack, fd.Key)
	r := t.runInline(fr, ids, ps, binds, fd.Decl.Type, fd.Decl.Body)
	t.stack = t.stack[:len(t.stack)-1]
	return r
}

func (t *fnT) bindArgs(args []ast.Expr, ps []types.Type, variadic bool, x *ast.CallExpr) []argBind {
	fixed, rest := packArgs(args, len(ps), variadic, x.Ellipsis.IsValid())
	binds := make([]argBind, len(ps))
	vals := t.seqExprs(len(ps), func(i int) string {
		if variadic && !x.Ellipsis.IsValid() && i == len(ps)-1 {
			et := ps[i].(*types.Slice).Elem()
			s := "Seq::<" + t.u.vtype(et) + ">::empty()"
			for _, r := range rest {
				s += ".push(" + t.exprTo(r, et) + ")"
			}
			binds[i] = argBind{T: ps[i]}
			return fmt.Sprintf("Sl { s: %s, nn: %v }", s, len(rest) > 0)
		}
		binds[i] = t.bindArg(fixed[i], ps[i])
		return binds[i].val
	}, func(i int) string { return t.u.vtype(ps[i]) })
	for i := range vals {
		binds[i].val = vals[i]
	}
	return binds
}

func (t *fnT) inlineLit(fl *ast.FuncLit, fr0 *frame, x *ast.CallExpr) []string {
	sig := t.typeOfIn(fr0, fl).Underlying().(*types.Signature)
	ps, variadic := sigTypes(sig, false)
	binds := t.bindArgs(x.Args, ps, variadic, x)
	return t.inlineLitBinds(fl, fr0, sig, ps, binds)
}

func (t *fnT) typeOfIn(fr *frame, e ast.Expr) types.Type {
	old := t.fr
	t.fr = fr
	defer func() { t.fr = old }()
	return t.typeOf(e)
}

func (t *fnT) inlineLitBinds(fl *ast.FuncLit, fr0 *frame, sig *types.Signature, ps []types.Type, binds []argBind) []string {
	for _, f := range t.litStack {
		if f == fl {
			t.fail(fl, "recursive closure")
		}
	}
	fr := &frame{fd: fr0.fd, pkg: fr0.pkg, vars: map[types.Object]*Var{}, names: map[string]*Var{}, parent: fr0, callPos: fl.Pos(), inl: true, sig: sig}
	t.litStack = append(t.litStack, fl)
	r := t.runInline(fr, fieldIdents(fl.Type.Params), ps, binds, fl.Type, fl.Body)
	t.litStack = t.litStack[:len(t.litStack)-1]
	return r
}

func countReturns(b *ast.BlockStmt) int {
	n := 0
	ast.Inspect(b, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			n++
		}
		return true
	})
	return n
}

func (t *fnT) runInline(fr *frame, ids []*ast.Ident, ps []types.Type, binds []argBind, ft *ast.FuncType, body *ast.BlockStmt) []string {
	old, oldLoops := t.fr, t.loops
	t.fr = fr
	t.loops = nil
	info := fr.pkg.Info
	for i, id := range ids {
		if id == nil || id.Name == "_" {
			continue
		}
		o := info.Defs[id]
		b := binds[i]
		switch {
		case b.fn != nil:
			fr.vars[o] = &Var{name: id.Name, typ: ps[i], fn: b.fn, fnFr: b.fnFr, obj: o}
		case b.place != nil && !assignedIn(info, body, o):
			fr.vars[o] = &Var{name: id.Name, typ: ps[i], vt: b.place.vt, place: b.place, obj: o}
		default:
			val := b.val
			if b.place != nil {
				val = t.pathValue(*b.place, ps[i])
				if t.u.isRef(ps[i]) {
					t.fail(id, "channel or writer parameter is reassigned")
				}
			}
			v := t.newVar(o, id.Name, ps[i])
			t.declare(v, val)
			t.declAddr(v, o)
			if v.esc != "" && b.place != nil {
				t.setFlag(v.esc)
			}
		}
	}
	fr.retTyps = nil
	for i := 0; i < fr.sig.Results().Len(); i++ {
		fr.retTyps = append(fr.retTyps, fr.sig.Results().At(i).Type())
	}
	for i, id := range fieldIdents(ft.Results) {
		if id != nil {
			o := info.Defs[id]
			v := t.newVar(o, id.Name, fr.retTyps[i])
			t.declare(v, t.u.zero(fr.retTyps[i]))
			t.declAddr(v, o)
			fr.named = append(fr.named, v)
		}
	}
	fr.results, fr.lits = t.resultNames(old, fr, ft, body)
	nr := countReturns(body)
	list := body.List
	var res []string
	finish := func() {
		for i := len(fr.defers) - 1; i >= 0; i-- {
			fr.defers[i]()
		}
		t.fr, t.loops = old, oldLoops
	}
	if nr == 0 {
		t.stmts(list)
		finish()
		return nil
	}
	if last, ok := list[len(list)-1].(*ast.ReturnStmt); ok && nr == 1 && len(last.Results) == len(fr.retTyps) {
		if fl := t.stmts(list[:len(list)-1]); len(fl) == 0 {
			res = t.seqExprs(len(last.Results), func(i int) string { return t.stored(last.Results[i], fr.retTyps[i]) },
				func(i int) string { return t.u.vtype(fr.retTyps[i]) })
			for i := range res {
				res[i] = t.temp(t.u.vtype(fr.retTyps[i]), res[i])
			}
			finish()
			return res
		}
		t.fail(last, "exit flags in inlined body")
	}
	t.tmp++
	k := t.tmp
	fr.retFlag = fmt.Sprintf("fl_ret%d", k)
	t.emit("let ghost mut " + fr.retFlag + ": bool = false;")
	for i, T := range fr.retTyps {
		n := fmt.Sprintf("rv%d_%d", k, i)
		fr.retVars = append(fr.retVars, n)
		t.emit(fmt.Sprintf("let ghost mut %s: %s = %s;", n, t.u.vtype(T), t.u.zero(T)))
	}
	t.stmts(list)
	res = append(res, fr.retVars...)
	finish()
	return res
}

// walkDir: filepath.WalkDir calls its function for every entry until an error.
func (t *fnT) walkDir(x *ast.CallExpr) []string {
	t.u.assumes["filepath.WalkDir"] = true
	root := t.exprTo(x.Args[0], types.Typ[types.String])
	var fl *ast.FuncLit
	fr0 := t.fr
	switch f := unparen(x.Args[1]).(type) {
	case *ast.FuncLit:
		fl = f
	case *ast.Ident:
		if v := t.lookup(t.objOf(f)); v != nil && v.fn != nil {
			fl, fr0 = v.fn, v.fnFr
		}
	}
	if fl == nil {
		t.fail(x, "WalkDir with this function")
	}
	k, spec, _ := t.nextLoop(x)
	t.tmp++
	uid := t.tmp
	ixn, rgn, we := fmt.Sprintf("ix%d_%d", k, uid), fmt.Sprintf("rng%d_%d", k, uid), fmt.Sprintf("walkerr_%d", uid)
	t.serial++
	ixv := &Var{name: ixn, vt: "int", serial: t.serial}
	wev := &Var{name: we, vt: "GoErr", serial: t.serial}
	t.emit(fmt.Sprintf("let ghost %s: Seq<WalkEntry> = walk_entries(%s);", rgn, root))
	t.emit(fmt.Sprintf("let ghost mut %s: int = 0;", ixn))
	t.emit(fmt.Sprintf("let ghost mut %s: GoErr = GoErr::Nil;", we))
	t.loopSub[fmt.Sprintf("ix%d", k)] = ixn
	t.loopSub[fmt.Sprintf("rng%d", k)] = rgn
	sig := t.typeOfIn(fr0, fl).Underlying().(*types.Signature)
	ps, _ := sigTypes(sig, false)
	lp := loopParts{spec: spec, k: k, pos: x.Pos()}
	lp.auto = []string{fmt.Sprintf("0 <= %s && %s <= %s.len()", ixn, ixn, rgn), we + " is Nil"}
	lp.dec = rgn + ".len() - " + ixn
	lp.cond = func() string { return ixn + " < " + rgn + ".len()" }
	lp.body = func() flags {
		e := rgn + "[" + ixn + "]"
		binds := []argBind{{val: e + ".path", T: ps[0]}, {val: e + ".d", T: ps[1]}, {val: e + ".err", T: ps[2]}}
		r := t.inlineLitBinds(fl, fr0, sig, ps, binds)
		t.write(Path{root: wev, vt: "GoErr"}, r[0], x.Pos())
		l := t.loops[len(t.loops)-1]
		t.emit("if cond(Ghost(!(" + we + " is Nil))) {")
		t.emitProof(l.brk + " = true;")
		t.emit("}")
		return flags{l.brk: true}
	}
	lp.post = func() { t.write(Path{root: ixv, vt: "int"}, ixn+" + 1", x.Pos()) }
	t.loop(&lp)
	return []string{we}
}
