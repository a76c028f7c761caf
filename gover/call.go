package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// call translates a call and returns the result expressions.
func (t *fnT) call(x *ast.CallExpr, stmt bool) []string {
	info := t.info()
	fun := unparen(x.Fun)
	// conversions
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		return []string{t.convert(x.Args[0], tv.Type, x)}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return t.builtin(b.Name(), x)
		}
		if v := t.lookup(info.Uses[id]); v != nil && v.fn != nil {
			return t.inlineLit(v.fn, v.fnFr, x)
		}
	}
	if fl, ok := fun.(*ast.FuncLit); ok {
		return t.inlineLit(fl, t.fr, x)
	}
	var callee *types.Func
	var recv ast.Expr
	switch f := fun.(type) {
	case *ast.Ident:
		callee, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		callee, _ = info.Uses[f.Sel].(*types.Func)
		if sel := info.Selections[f]; sel != nil && sel.Kind() == types.MethodVal {
			recv = f.X
		}
	}
	if callee == nil {
		return t.indirect(fun, x)
	}
	callee = callee.Origin()
	key := funcKey(callee)
	if d, ok := t.u.con.Dispatch[key]; ok {
		key = d
		if fd := t.u.prog.Funcs[key]; fd != nil {
			callee = fd.Obj
		}
	}
	return t.callKey(key, callee, recv, x)
}

func (t *fnT) callKey(key string, callee *types.Func, recv ast.Expr, x *ast.CallExpr) []string {
	for _, c := range t.spec.Calls[key] {
		if t.want(c) {
			t.emitProof(t.at(c.Text, x.Pos(), nil))
		}
	}
	switch key {
	case "fmt.Sprintf", "fmt.Errorf":
		s := t.sprintf(x)
		if key == "fmt.Errorf" {
			return []string{"GoErr::Msg(" + s + ")"}
		}
		return []string{s}
	case "filepath.WalkDir":
		return t.walkDir(x)
	}
	var args []ast.Expr
	if recv != nil {
		args = append(args, recv)
	}
	args = append(args, x.Args...)
	sig := callee.Type().(*types.Signature)
	if spec, ok := t.u.con.Funcs[key]; ok && !t.u.con.Inline[key] {
		return t.contracted(spec, sig, recv != nil, args, x)
	}
	if m, ok := t.u.con.Models[key]; ok {
		// a model of its own for a first argument that is no constant
		if v, ok := t.u.con.Models[key+"#var"]; ok && len(args) > 0 && t.info().Types[args[0]].Value == nil {
			m = v
		}
		return t.model(m, sig, recv != nil, args, x, "")
	}
	if fd := t.u.prog.Funcs[key]; fd != nil {
		return t.inlineDecl(fd, recv, x)
	}
	t.fail(x, "no contract, model or body for %s", key)
	return nil
}

// indirect: call of a function value.
func (t *fnT) indirect(fun ast.Expr, x *ast.CallExpr) []string {
	T := t.typeOf(fun)
	sig, ok := T.Underlying().(*types.Signature)
	if !ok {
		t.fail(x, "call of this expression")
	}
	var keys []string
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if sel := t.info().Selections[se]; sel != nil && sel.Kind() == types.FieldVal {
			RT := sel.Recv()
			if p, ok := RT.Underlying().(*types.Pointer); ok {
				RT = p.Elem()
			}
			keys = append(keys, "field "+types.TypeString(RT, qual)+"."+se.Sel.Name)
		}
	}
	if n, ok := T.(*types.Named); ok {
		keys = append(keys, "functype "+types.TypeString(n, qual))
	}
	var ps []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, types.TypeString(sig.Params().At(i).Type(), qual))
	}
	var rs []string
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, types.TypeString(sig.Results().At(i).Type(), qual))
	}
	keys = append(keys, "functype func("+strings.Join(ps, ", ")+") ("+strings.Join(rs, ", ")+")")
	for _, k := range keys {
		if d, ok := t.u.con.Dispatch[k]; ok {
			return t.contracted(t.u.con.Funcs[d], sig, false, x.Args, x)
		}
		if m, ok := t.u.con.Models[k]; ok {
			f := t.expr(fun)
			return t.model(m, sig, false, x.Args, x, f)
		}
	}
	t.fail(x, "no model for call of function value (%s)", strings.Join(keys, " | "))
	return nil
}

func (t *fnT) convert(a ast.Expr, T types.Type, x ast.Node) string {
	if tv, ok := t.info().Types[a]; ok && tv.Value != nil {
		if c, ok := t.u.constant(tv.Value, T); ok {
			return c
		}
	}
	if isNilExpr(t.info(), a) {
		return t.u.zero(T)
	}
	s := t.expr(a)
	from, to := t.u.vtype(t.typeOf(a)), t.u.vtype(T)
	if from == to {
		return s
	}
	switch {
	case from == "S" && to == "Sl<u8>":
		return "Sl { s: " + s + ", nn: true }"
	case from == "Sl<u8>" && to == "S":
		return s + ".s"
	case to == "int" && (from == "u8" || from == "u64"):
		return "(" + s + " as int)"
	case to == "S" && from == "int":
		return "rune_str(" + s + ")"
	case to == "S" && from == "u8":
		return "rune_str(" + s + " as int)"
	case to == "u8" && from == "int":
		t.assert("arith", "conversion to byte keeps the value", x.Pos(), fmt.Sprintf("0 <= %s && %s < 256", s, s))
		return "(" + s + " as u8)"
	case to == "u64" && from == "int":
		t.assert("arith", "conversion to uint keeps the value", x.Pos(), fmt.Sprintf("0 <= %s", s))
		return "(" + s + " as u64)"
	}
	return t.conv(s, t.typeOf(a), T, x)
}

func (t *fnT) sprintf(x *ast.CallExpr) string {
	tv := t.info().Types[x.Args[0]]
	if tv.Value == nil || tv.Value.Kind() != constant.String {
		t.fail(x, "format string is not constant")
	}
	f := constant.StringVal(tv.Value)
	var parts []string
	lit := ""
	ai := 1
	vals := t.seqExprs(len(x.Args)-1, func(i int) string { return t.expr(x.Args[i+1]) },
		func(i int) string { return t.u.vtype(t.typeOf(x.Args[i+1])) })
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			lit += "%"
			continue
		}
		if lit != "" {
			parts = append(parts, t.u.lit(lit))
			lit = ""
		}
		if ai-1 >= len(vals) || i >= len(f) {
			t.fail(x, "format arguments")
		}
		v := vals[ai-1]
		vt := t.u.vtype(t.typeOf(x.Args[ai]))
		ai++
		switch {
		case f[i] == 's' && vt == "S":
			parts = append(parts, v)
		case (f[i] == 's' || f[i] == 'v' || f[i] == 'w') && vt == "GoErr":
			parts = append(parts, "err_text("+v+")")
		case (f[i] == 'd' || f[i] == 'v') && vt == "int":
			parts = append(parts, "itoa("+v+")")
		case f[i] == 'q' && vt == "S":
			parts = append(parts, "go_quote("+v+")")
		case f[i] == 'v' && vt == "S":
			parts = append(parts, v)
		default:
			parts = append(parts, t.havoc("S"))
		}
	}
	if lit != "" {
		parts = append(parts, t.u.lit(lit))
	}
	if len(parts) == 0 {
		return "sempty()"
	}
	s := parts[0]
	if len(parts) > 1 {
		s = "(" + strings.Join(parts, " + ") + ")"
	}
	return s
}

func (t *fnT) builtin(name string, x *ast.CallExpr) []string {
	switch name {
	case "len":
		T := t.typeOf(x.Args[0]).Underlying()
		s := paren(t.expr(x.Args[0]))
		switch T.(type) {
		case *types.Basic:
			return []string{"(" + s + ".len() as int)"}
		case *types.Slice:
			return []string{"(" + s + ".s.len() as int)"}
		case *types.Map:
			return []string{"(" + s + ".m.dom().len() as int)"}
		}
	case "cap":
		s := paren(t.expr(x.Args[0]))
		h := t.havoc("int")
		t.assume(h + " >= " + s + ".s.len()")
		return []string{h}
	case "append":
		return []string{t.appendCall(x, false)}
	case "make":
		T := t.typeOf(x)
		switch y := T.Underlying().(type) {
		case *types.Slice:
			n := t.exprTo(x.Args[1], types.Typ[types.Int])
			t.assert("bounds", "make size is not negative", x.Pos(), n+" >= 0")
			return []string{fmt.Sprintf("Sl { s: Seq::new(%s as nat, |mk_i: int| %s), nn: true }", paren(n), t.u.zero(y.Elem()))}
		case *types.Map:
			return []string{fmt.Sprintf("Mp { m: Map::<%s, %s>::empty(), nn: true }", t.u.vtype(y.Key()), t.u.vtype(y.Elem()))}
		case *types.Chan:
			if len(x.Args) > 1 {
				n := t.exprTo(x.Args[1], types.Typ[types.Int])
				_ = n
				t.u.notes["channel capacities are not modelled"] = true
			}
			return []string{"ch_new::<" + t.u.vtype(y.Elem()) + ">()"}
		}
	case "new":
		T := t.typeOf(x).Underlying().(*types.Pointer).Elem()
		return []string{"Some(" + t.u.zero(T) + ")"}
	case "close":
		p, ok := t.place(x.Args[0])
		if !ok {
			t.fail(x, "close of this expression")
		}
		c := p.read()
		t.assert("channel", "close of an open channel", x.Pos(), "!"+c+".closed")
		t.write(p, "ch_close("+c+")", x.Pos())
		return nil
	case "delete":
		p, ok := t.place(x.Args[0])
		if !ok {
			t.fail(x, "delete from this expression")
		}
		mt := t.typeOf(x.Args[0]).Underlying().(*types.Map)
		k := t.exprTo(x.Args[1], mt.Key())
		t.ownCheck(p, x.Pos(), "delete from")
		t.write(p, fmt.Sprintf("Mp { m: %s.m.remove(%s), ..%s }", p.read(), k, p.read()), x.Pos())
		return nil
	case "copy":
		t.fail(x, "copy is not supported")
	case "panic":
		t.assert("panic", "panic is never reached", x.Pos(), "false")
		t.assume("false")
		return nil
	case "min", "max":
		s := t.exprTo(x.Args[0], types.Typ[types.Int])
		for _, a := range x.Args[1:] {
			b := t.exprTo(a, types.Typ[types.Int])
			op := "<="
			if name == "max" {
				op = ">="
			}
			s = fmt.Sprintf("(if %s %s %s { %s } else { %s })", s, op, b, s, b)
		}
		return []string{s}
	}
	t.fail(x, "unsupported builtin %s", name)
	return nil
}

func (t *fnT) appendCall(x *ast.CallExpr, self bool) string {
	T := t.typeOf(x)
	sl, ok := T.Underlying().(*types.Slice)
	if !ok {
		t.fail(x, "append")
	}
	if !t.freshExpr(x.Args[0]) {
		p, isp := t.place(x.Args[0])
		ok := "false"
		if isp && self {
			ok = t.ownedPath(p)
		}
		if ok != "true" {
			t.assert("alias", "append may overwrite elements shared with another slice ("+types.ExprString(x.Args[0])+")", x.Pos(), ok)
		}
	}
	et := t.u.vtype(sl.Elem())
	r := t.seqExprs(len(x.Args), func(i int) string {
		if i == 0 {
			return t.exprTo(x.Args[0], T)
		}
		if x.Ellipsis.IsValid() && i == len(x.Args)-1 {
			if t.u.vtype(t.typeOf(x.Args[i])) == "S" {
				return "Sl { s: " + t.expr(x.Args[i]) + ", nn: true }"
			}
			return t.exprTo(x.Args[i], T)
		}
		return t.stored(x.Args[i], sl.Elem())
	}, func(i int) string {
		if i == 0 || x.Ellipsis.IsValid() && i == len(x.Args)-1 {
			return "Sl<" + et + ">"
		}
		return et
	})
	if x.Ellipsis.IsValid() {
		t.emit(fmt.Sprintf("proof { lemma_cat(%s, %s); }", r[0], r[1]))
		return fmt.Sprintf("sl_cat(%s, %s)", r[0], r[1])
	}
	s := r[0]
	for _, v := range r[1:] {
		s = fmt.Sprintf("sl_push(%s, %s)", s, v)
	}
	return s
}

// ---- ownership ----

func (t *fnT) ownedPath(p Path) string {
	r := p.root
	if r == t.world {
		return "true"
	}
	if r.param {
		if r.direct || t.u.isRef(r.typ) {
			return "true" // the frame check covers parameters
		}
		for m := range t.spec.Modifies {
			if m == r.name || strings.HasPrefix(pathStr(p), m) {
				return "true"
			}
		}
		if t.spec.Owned[r.name] {
			return "true"
		}
		return "false"
	}
	if r.obj == nil {
		return "false"
	}
	if r.unowned != "" {
		if t.flagMut != nil {
			t.flagMut[r.unowned] = true
		}
		return "!" + r.unowned
	}
	for f := t.fr; f != nil; f = f.parent {
		if f.own != nil {
			if o, ok := f.own[r.obj]; ok {
				if o == 1 {
					return "true"
				}
				return "false"
			}
		}
	}
	return "false"
}

// mixedOwn: the variable is sometimes its slice's only holder, sometimes not.
func (t *fnT) mixedOwn(o types.Object) bool {
	for f := t.fr; f != nil; f = f.parent {
		if v, ok := f.own[o]; ok {
			return v == 2
		}
	}
	return false
}

func (t *fnT) ownCheck(p Path, pos token.Pos, what string) {
	if c := t.ownedPath(p); c != "true" {
		t.assert("alias", what+" a slice or map that other code may hold ("+pathStr(p)+")", pos, c)
	}
}

// freshExpr: the value's backing store is not reachable from anywhere else.
func (t *fnT) freshExpr(e ast.Expr) bool { return t.freshFor(t.fr.pkg.Info, e, nil) }

func (t *fnT) freshFor(info *types.Info, e ast.Expr, self types.Object) bool {
	e = unparen(e)
	if tv, ok := info.Types[e]; ok && (tv.Value != nil || tv.IsNil()) {
		return true
	}
	rootObj := func(x ast.Expr) types.Object {
		for {
			switch y := unparen(x).(type) {
			case *ast.SelectorExpr:
				x = y.X
			case *ast.StarExpr:
				x = y.X
			case *ast.Ident:
				if o := info.Uses[y]; o != nil {
					return o
				}
				return info.Defs[y]
			default:
				return nil
			}
		}
	}
	switch x := e.(type) {
	case *ast.CompositeLit, *ast.FuncLit, *ast.BasicLit:
		return true
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			_, ok := unparen(x.X).(*ast.CompositeLit)
			return ok
		}
		return x.Op == token.ARROW
	case *ast.SliceExpr:
		if x.Slice3 {
			return true
		}
		return self != nil && rootObj(x.X) == self
	case *ast.CallExpr:
		if tv, ok := info.Types[unparen(x.Fun)]; ok && tv.IsType() {
			return true
		}
		var fo types.Object
		switch f := unparen(x.Fun).(type) {
		case *ast.Ident:
			fo = info.Uses[f]
		case *ast.SelectorExpr:
			fo = info.Uses[f.Sel]
		}
		if b, ok := fo.(*types.Builtin); ok {
			switch b.Name() {
			case "make", "new":
				return true
			case "append":
				if self != nil && rootObj(x.Args[0]) == self {
					return true
				}
				return t.freshFor(info, x.Args[0], self)
			}
			return false
		}
		if f, ok := fo.(*types.Func); ok {
			k := funcKey(f.Origin())
			if m := t.u.con.Models[k]; m != nil {
				return m.Fresh
			}
			if s := t.u.con.Funcs[k]; s != nil && s.FreshRes {
				return true
			} else if fd := t.u.prog.Funcs[k]; s == nil && fd != nil && t.freshDepth < 8 {
				t.freshDepth++
				ok := t.returnsFresh(fd)
				t.freshDepth--
				if ok {
					return true
				}
			}
			if self != nil {
				for _, a := range x.Args {
					if rootObj(a) == self {
						return true
					}
				}
			}
		}
		return false
	}
	if b, ok := info.Types[e]; ok && b.Type != nil {
		if bt, ok := b.Type.Underlying().(*types.Basic); ok && bt.Kind() != types.UntypedNil {
			return true
		}
	}
	return false
}

// returnsFresh: every slice or map the function (inlined at its calls) returns is new or a local variable of its own
// that is used for nothing else.
func (t *fnT) returnsFresh(fd *FuncDecl) bool {
	if fd.Decl.Body == nil {
		return false
	}
	info := fd.Pkg.Info
	own := t.scanOwn(info, fd.Decl.Body)
	plain := map[*ast.Ident]bool{}
	mark := func(e ast.Expr) {
		if id, ok := unparen(e).(*ast.Ident); ok {
			plain[id] = true
		}
	}
	ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				mark(l)
			}
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				if c, ok := unparen(x.Rhs[0]).(*ast.CallExpr); ok && isBuiltin(info, c, "append") {
					a, ok1 := unparen(x.Lhs[0]).(*ast.Ident)
					b, ok2 := unparen(c.Args[0]).(*ast.Ident)
					if ok1 && ok2 && info.Uses[a] != nil && info.Uses[a] == info.Uses[b] {
						mark(b)
					}
				}
			}
		case *ast.CallExpr:
			if isBuiltin(info, x, "len") || isBuiltin(info, x, "delete") {
				mark(x.Args[0])
			}
		case *ast.IndexExpr:
			mark(x.X)
		case *ast.RangeStmt:
			mark(x.X)
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				mark(r)
			}
		}
		return true
	})
	local := func(id *ast.Ident) bool {
		o := info.Uses[id]
		if o == nil || own[o] != 1 || o.Pos() < fd.Decl.Type.Params.End() {
			return false
		}
		good := true
		ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
			if u, ok := n.(*ast.Ident); ok && info.Uses[u] == o && !plain[u] {
				good = false
			}
			return true
		})
		return good
	}
	ok := fd.Decl.Type.Results != nil
	ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				ok = false
			}
			for _, r := range x.Results {
				if id, is := unparen(r).(*ast.Ident); is && !isNilExpr(info, id) {
					if T := info.TypeOf(id); T != nil {
						switch T.Underlying().(type) {
						case *types.Slice, *types.Map, *types.Pointer:
							ok = ok && local(id)
						}
					}
				} else if !t.freshFor(info, r, nil) {
					if T := info.TypeOf(r); T != nil {
						switch T.Underlying().(type) {
						case *types.Basic, *types.Interface:
						default:
							ok = false
						}
					}
				}
			}
		}
		return ok
	})
	return ok
}

// scanOwn decides, per local variable, whether its slices and maps are its own.
func (t *fnT) scanOwn(info *types.Info, body ast.Node) map[types.Object]int {
	own := map[types.Object]int{}
	set := func(o types.Object, v bool) {
		if o == nil {
			return
		}
		n := 0
		if v {
			n = 1
		}
		if old, ok := own[o]; ok && old != n {
			own[o] = 2
		} else {
			own[o] = n
		}
	}
	obj := func(e ast.Expr) types.Object {
		if id, ok := unparen(e).(*ast.Ident); ok {
			if o := info.Defs[id]; o != nil {
				return o
			}
			return info.Uses[id]
		}
		return nil
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == len(x.Rhs) {
				for i := range x.Lhs {
					o := obj(x.Lhs[i])
					set(o, t.freshFor(info, x.Rhs[i], o))
				}
			} else {
				for i := range x.Lhs {
					o := obj(x.Lhs[i])
					set(o, t.freshFor(info, x.Rhs[0], o))
				}
			}
		case *ast.ValueSpec:
			for i, nm := range x.Names {
				o := info.Defs[nm]
				if i < len(x.Values) {
					set(o, t.freshFor(info, x.Values[i], o))
				} else {
					set(o, true)
				}
			}
		case *ast.RangeStmt:
			if x.Key != nil {
				set(obj(x.Key), false)
			}
			if x.Value != nil {
				set(obj(x.Value), false)
			}
		case *ast.FuncType:
			if x.Results != nil {
				for _, f := range x.Results.List {
					for _, nm := range f.Names {
						set(info.Defs[nm], true)
					}
				}
			}
		}
		return true
	})
	return own
}

// scanAddr collects places whose address is taken by '&'.
func scanAddr(info *types.Info, body ast.Node) map[types.Object]map[string]bool {
	res := map[types.Object]map[string]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		u, ok := n.(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			return true
		}
		suffix := ""
		x := u.X
		for {
			switch y := unparen(x).(type) {
			case *ast.SelectorExpr:
				suffix = "." + rid(y.Sel.Name) + suffix
				x = y.X
				continue
			case *ast.StarExpr:
				x = y.X
				continue
			case *ast.Ident:
				o := info.Uses[y]
				if o != nil {
					if res[o] == nil {
						res[o] = map[string]bool{}
					}
					res[o][suffix] = true
				}
			}
			break
		}
		return true
	})
	return res
}

// ---- contracted calls ----

func sigTypes(sig *types.Signature, withRecv bool) (ps []types.Type, variadic bool) {
	if withRecv && sig.Recv() != nil {
		ps = append(ps, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i).Type())
	}
	return ps, sig.Variadic()
}

// packArgs groups variadic arguments.
func packArgs(args []ast.Expr, n int, variadic bool, ell bool) ([]ast.Expr, []ast.Expr) {
	if !variadic || ell {
		return args, nil
	}
	return args[:n-1], args[n-1:]
}

func modBase(m map[string]bool, p string) bool {
	for k := range m {
		if k == p || strings.HasPrefix(k, p+".") {
			return true
		}
	}
	return false
}

// ptrArgPlace: the place of the pointee of a pointer argument.
func (t *fnT) ptrArgPlace(a ast.Expr, PT types.Type) (Path, bool) {
	a = unparen(a)
	if u, ok := a.(*ast.UnaryExpr); ok && u.Op == token.AND {
		if _, ok := unparen(u.X).(*ast.CompositeLit); ok {
			return Path{}, false
		}
		return t.place(u.X)
	}
	p, ok := t.place(a)
	if !ok {
		return p, false
	}
	AT := t.typeOf(a)
	if _, isPtr := AT.Underlying().(*types.Pointer); isPtr {
		return t.derefPath(p, AT, a.Pos()), true
	}
	return p, true
}

func (t *fnT) contracted(spec *FuncSpec, sig *types.Signature, hasRecv bool, args []ast.Expr, x *ast.CallExpr) []string {
	ps, variadic := sigTypes(sig, true)
	if len(ps) != len(spec.Params) || spec.Params == nil && len(ps) > 0 {
		t.fail(x, "contract of %s names %d parameters, the function has %d", spec.Key, len(spec.Params), len(ps))
	}
	t.u.needed[spec.Key] = true
	fixed, rest := packArgs(args, len(ps), variadic, x.Ellipsis.IsValid())
	places := make([]*Path, len(ps))
	vals := t.seqExprs(len(ps), func(i int) string {
		if variadic && !x.Ellipsis.IsValid() && i == len(ps)-1 {
			et := ps[i].(*types.Slice).Elem()
			s := "Seq::<" + t.u.vtype(et) + ">::empty()"
			for _, r := range rest {
				s += ".push(" + t.exprTo(r, et) + ")"
			}
			return fmt.Sprintf("Sl { s: %s, nn: %v }", s, len(rest) > 0)
		}
		pn := spec.Params[i]
		P := ps[i]
		_, isPtr := P.Underlying().(*types.Pointer)
		vt := t.u.vtype(P)
		if modBase(spec.Modifies, pn) {
			p, ok := t.ptrArgPlace(fixed[i], P)
			if !ok {
				// unnamed object: bind it to a temporary
				s := t.exprTo(fixed[i], P)
				if strings.HasPrefix(vt, "Option<") && !spec.Nilable[pn] {
					s = paren(s) + "->0"
					vt = vt[7 : len(vt)-1]
				}
				return s
			}
			places[i] = &p
			return p.read()
		}
		if isPtr && strings.HasPrefix(vt, "Option<") && !spec.Nilable[pn] {
			if p, ok := t.ptrArgPlace(fixed[i], P); ok {
				return p.read()
			}
			s := t.exprTo(fixed[i], P)
			if strings.HasPrefix(s, "Some(") && balanced(s[4:]) {
				return s[4:]
			}
			t.assert("nil", "argument "+pn+" of "+spec.Key+" is not nil", x.Pos(), paren(s)+" is Some")
			return paren(s) + "->0"
		}
		return t.exprTo(fixed[i], P)
	}, func(i int) string {
		vt := t.u.vtype(ps[i])
		if strings.HasPrefix(vt, "Option<") && !spec.Nilable[spec.Params[i]] {
			vt = vt[7 : len(vt)-1]
		}
		return vt
	})
	return t.invoke(spec, sig, vals, places, x.Pos())
}

func balanced(s string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			d++
		} else if s[i] == ')' {
			d--
			if d == 0 && i < len(s)-1 {
				return false
			}
		}
	}
	return d == 0
}

func (t *fnT) invoke(spec *FuncSpec, sig *types.Signature, vals []string, places []*Path, pos token.Pos) []string {
	env := map[string]string{}
	for i, p := range spec.Params {
		// parameter types may differ from the argument's (pointer or pointee)
		env[p] = paren(vals[i])
	}
	wmod := modBase(spec.Modifies, "w")
	if wmod {
		if t.world == nil {
			t.fail(nil, "%s: call of %s needs the world (modifies w)", t.posOf(pos), spec.Key)
		}
		env["w"] = t.world.name
	} else if spec.ReadsW {
		if t.world == nil {
			t.fail(nil, "%s: call of %s needs the world", t.posOf(pos), spec.Key)
		}
		env["w"] = t.world.name
	}
	for _, g := range spec.Ghost {
		if e, ok := t.spec.GhostMap[spec.Key+"."+g[0]]; ok {
			env[g[0]] = paren(t.at(e, pos, nil))
		} else {
			t.fail(nil, "%s: no value for ghost parameter %s of %s", t.posOf(pos), g[0], spec.Key)
		}
	}
	for _, c := range spec.Captures {
		env[c[0]] = substText(c[1], func(id string) (string, bool) { v, ok := env[id]; return v, ok })
	}
	for i, c := range spec.Requires {
		if !t.want(c) {
			continue
		}
		nm := c.Name
		if nm == "" {
			nm = fmt.Sprintf("requires %d", i+1)
		}
		t.assert("call-pre", spec.Key+"/"+nm, pos, substText(c.Text, func(id string) (string, bool) { v, ok := env[id]; return v, ok }))
	}
	t.tmp++
	n := fmt.Sprintf("c%d", t.tmp)
	var as []string
	for i := range vals {
		if !isIdent(vals[i]) {
			vals[i] = t.tempAuto(vals[i])
		}
		as = append(as, "Ghost("+vals[i]+")")
	}
	if wmod || spec.ReadsW {
		as = append(as, "Ghost("+t.world.name+")")
	}
	for _, g := range spec.Ghost {
		as = append(as, "Ghost("+t.tempAuto(env[g[0]])+")")
	}
	for _, c := range spec.Captures {
		v := substText(c[1], func(id string) (string, bool) { v, ok := env[id]; return v, ok })
		if spec.Closure && spec.Encl == t.spec.Key {
			// inside the enclosing function: the captured variable itself
			if cv, ok := t.nameAt(c[0], pos); ok {
				v = t.rootPath(cv).read()
			}
		}
		as = append(as, "Ghost("+t.tempAuto(v)+")")
	}
	mk := t.obl("call-pre", spec.Key+" (call)", pos, "")
	t.emit(fmt.Sprintf("let %s = f_%s(%s); %s", n, sanitize(spec.Key), strings.Join(as, ", "), mk))
	k := 0
	var res []string
	for i := 0; i < sig.Results().Len(); i++ {
		vt := t.u.vtype(sig.Results().At(i).Type())
		res = append(res, t.temp(vt, fmt.Sprintf("%s@.%d", n, k)))
		k++
	}
	for i, p := range spec.Params {
		if !modBase(spec.Modifies, p) {
			continue
		}
		if places[i] != nil {
			t.writeOut(*places[i], spec, p, fmt.Sprintf("%s@.%d", n, k), pos)
		}
		k++
	}
	if wmod {
		t.writeOut(Path{root: t.world, vt: "World"}, spec, "w", fmt.Sprintf("%s@.%d", n, k), pos)
		k++
	}
	return res
}

// writeOut stores a modified parameter back; only declared fields are touched.
func (t *fnT) writeOut(p Path, spec *FuncSpec, name, val string, pos token.Pos) {
	if spec.Modifies[name] {
		t.write(p, val, pos)
		return
	}
	for _, m := range sortedKeys(spec.Modifies) {
		if strings.HasPrefix(m, name+".") {
			f := m[len(name)+1:]
			q := p.with(Step{kind: "field", name: f, styp: p.vt}, t.u.fieldType(p.vt, f))
			t.write(q, val+"."+f, pos)
		}
	}
}

// ---- models ----

func (t *fnT) model(m *Model, sig *types.Signature, hasRecv bool, args []ast.Expr, x *ast.CallExpr, fval string) []string {
	t.u.assumes[m.Key] = true
	ps, variadic := sigTypes(sig, hasRecv)
	fixed, rest := packArgs(args, len(ps), variadic, x.Ellipsis.IsValid())
	names := m.Params
	env := map[string]string{}
	if fval != "" {
		if len(names) == 0 {
			t.fail(x, "model %s needs a parameter for the function value", m.Key)
		}
		env[names[0]] = paren(fval)
		names = names[1:]
	}
	if len(names) != len(ps) {
		t.fail(x, "model %s names %d parameters, the function has %d", m.Key, len(names), len(ps))
	}
	places := map[string]Path{}
	vals := t.seqExprs(len(ps), func(i int) string {
		if variadic && !x.Ellipsis.IsValid() && i == len(ps)-1 {
			et := ps[i].(*types.Slice).Elem()
			s := "Seq::<" + t.u.vtype(et) + ">::empty()"
			for _, r := range rest {
				s += ".push(" + t.exprTo(r, et) + ")"
			}
			return "Sl { s: " + s + ", nn: true }"
		}
		if m.Deref[names[i]] {
			// interface-typed targets (errors.As): look at the argument itself
			p, ok := t.ptrArgPlace(fixed[i], ps[i])
			if !ok {
				if t.u.isRef(ps[i]) || t.u.vtype(ps[i]) == "Buf" {
					return t.exprTo(fixed[i], ps[i])
				}
				t.fail(x, "argument %s of %s must be a place", names[i], m.Key)
			}
			places[names[i]] = p
			return p.read()
		}
		if fl, ok := unparen(fixed[i]).(*ast.FuncLit); ok {
			return t.closureValue(fl, x)
		}
		return t.exprTo(fixed[i], ps[i])
	}, func(i int) string {
		if p, ok := places[names[i]]; ok {
			return p.vt
		}
		return t.u.vtype(ps[i])
	})
	hasSet := false
	for _, s := range m.Steps {
		if s.Kind == "set" {
			hasSet = true
		}
	}
	for i, n := range names {
		env[n] = paren(vals[i])
		if hasSet {
			env[n] = t.temp(func() string {
				if p, ok := places[n]; ok {
					return p.vt
				}
				return t.u.vtype(ps[i])
			}(), vals[i])
		}
	}
	if t.world != nil {
		env["w"] = t.world.name
		if hasSet {
			env["w"] = t.temp("World", t.world.name)
		}
	}
	sub := func(s string) string {
		return substText(s, func(id string) (string, bool) { v, ok := env[id]; return v, ok })
	}
	usesW := false
	for _, s := range m.Steps {
		if s.Var == "w" || strings.HasPrefix(s.Var, "w.") || strings.Contains(s.Text, "w.") {
			usesW = true
		}
	}
	if usesW && t.world == nil {
		t.fail(x, "call of %s needs the world (modifies w)", m.Key)
	}
	for _, a := range m.Any {
		env[a[0]] = t.havoc(sub(a[1]))
	}
	for _, s := range m.Steps {
		switch s.Kind {
		case "requires":
			t.assert("call-pre", m.Key, x.Pos(), sub(s.Text))
		case "assume":
			t.assume(sub(s.Text))
		case "let":
			env[s.Var] = t.temp(sub(s.Type), sub(s.Text))
		case "set":
			v := s.Var
			var flds []string
			if i := strings.Index(v, "."); i >= 0 {
				flds = strings.Split(v[i+1:], ".")
				v = v[:i]
			}
			var p Path
			if v == "w" {
				p = Path{root: t.world, vt: "World"}
			} else {
				var ok bool
				p, ok = places[v]
				if !ok {
					if _, isn := env[v]; isn {
						continue // not a place: the change is lost
					}
					t.fail(x, "model %s sets unknown %s", m.Key, v)
				}
			}
			for _, f := range flds {
				p = p.with(Step{kind: "field", name: f, styp: p.vt}, t.u.fieldType(p.vt, f))
			}
			val := t.tempAuto(sub(s.Text))
			t.write(p, val, x.Pos())
			if v != "w" && len(flds) == 0 {
				env[v+"_n"] = val
			}
		}
	}
	var res []string
	for i, r := range m.Result {
		e := sub(r)
		if i < sig.Results().Len() {
			e = t.temp(t.u.vtype(sig.Results().At(i).Type()), e)
		}
		res = append(res, e)
	}
	return res
}

// tempAuto names a value without stating its type.
func (t *fnT) tempAuto(e string) string {
	t.tmp++
	n := fmt.Sprintf("tm%d", t.tmp)
	t.emit(fmt.Sprintf("let ghost %s = %s;", n, e))
	return n
}

// closureValue: a function literal used as a value; a literal with a contract
// is checked against it.
func (t *fnT) closureValue(fl *ast.FuncLit, n ast.Node) string {
	if k, ok := t.spec.Closures[t.closureName(fl)]; ok {
		spec := t.u.con.Funcs[k]
		if spec == nil {
			t.fail(n, "no contract %s", k)
		}
		for _, c := range spec.Captures {
			v, ok := t.nameAt(c[0], fl.Pos())
			if !ok {
				t.fail(n, "closure variable %s not found", c[0])
			}
			t.assert("capture", k+" captures "+c[0], fl.Pos(), t.rootPath(v).read()+" == "+substText(c[1], func(id string) (string, bool) {
				if id == "w" && t.world != nil {
					return t.world.name, true
				}
				return "", false
			}))
		}
		if t.dry == 0 {
			t.u.closures = append(t.u.closures, &closureJob{fl, spec, t.fr, t})
		}
		return "opq_closure(" + t.u.lit(k) + ")"
	}
	return t.havoc("Opq")
}

func (t *fnT) closureName(fl *ast.FuncLit) string {
	if n, ok := t.closNames[fl]; ok {
		return n
	}
	return ""
}
