package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

func (t *fnT) info() *types.Info { return t.fr.pkg.Info }

func (t *fnT) typeOf(e ast.Expr) types.Type {
	if tv, ok := t.info().Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := t.objOf(id); o != nil {
			return o.Type()
		}
	}
	t.fail(e, "no type for expression")
	return nil
}

func (t *fnT) objOf(id *ast.Ident) types.Object {
	if o := t.info().Defs[id]; o != nil {
		return o
	}
	return t.info().Uses[id]
}

func isNilExpr(info *types.Info, e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.IsNil()
}

func paren(s string) string {
	simple := true
	d := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '(' || c == '[' {
			d++
		} else if c == ')' || c == ']' {
			d--
		} else if d == 0 && (c == ' ' || c == '&' || c == '|' || c == '!') {
			simple = false
			break
		}
	}
	if simple {
		return s
	}
	return "(" + s + ")"
}

// exprTo translates e and converts it to type T (assignability conversions).
func (t *fnT) exprTo(e ast.Expr, T types.Type) string {
	if isNilExpr(t.info(), e) {
		return t.u.zero(T)
	}
	if tv, ok := t.info().Types[e]; ok && tv.Value != nil {
		if c, ok := t.u.constant(tv.Value, T); ok {
			return c
		}
	}
	s := t.expr(e)
	return t.conv(s, t.typeOf(e), T, e)
}

func (t *fnT) conv(s string, from, to types.Type, n ast.Node) string {
	if to == nil || from == nil {
		return s
	}
	a, b := t.u.vtype(from), t.u.vtype(to)
	if a == b {
		return s
	}
	if b == "GoErr" {
		if a == "Option<ParseError>" {
			if strings.HasPrefix(s, "Some(") {
				return "GoErr::PE(Box::new(" + s[4:] + "))"
			}
			t.assert("nil", "nil *ParseError used as an error", n.Pos(), paren(s)+" is Some")
			return "GoErr::PE(Box::new(" + paren(s) + "->0))"
		}
		return "GoErr::Other(to_opq(" + s + "))"
	}
	if b == "Opq" {
		if a == "GoErr" {
			return "err_opq(" + s + ")"
		}
		return "to_opq(" + s + ")"
	}
	if b == "int" && (a == "u8" || a == "u64") {
		return "(" + s + " as int)"
	}
	if a == "Opq" {
		return "from_opq::<" + b + ">(" + s + ")"
	}
	if b == "Buf" && a == "Option<Buf>" {
		return paren(s) + "->0"
	}
	if a == "Option<"+b+">" {
		if strings.HasPrefix(s, "Some(") && balanced(s[4:]) {
			return s[4:]
		}
		t.assert("nil", "dereference", n.Pos(), paren(s)+" is Some")
		return paren(s) + "->0"
	}
	if b == "Buf" && strings.HasPrefix(a, "Option<") {
		// a writer implemented by the program: which one, not its text
		t.u.assumes["a writer made of a program value writes to that very value"] = true
		return "writer_of(" + s + ")"
	}
	t.fail(n, "conversion from %s to %s is not supported", a, b)
	return ""
}

// ---- places ----

// place returns the lvalue path of e, if e denotes one.
func (t *fnT) place(e ast.Expr) (Path, bool) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.place(x.X)
	case *ast.Ident:
		o := t.objOf(x)
		v, ok := o.(*types.Var)
		if !ok {
			return Path{}, false
		}
		if vv := t.lookup(v); vv != nil {
			if vv.fn != nil {
				return Path{}, false
			}
			return t.rootPath(vv), true
		}
		if v.Parent() == v.Pkg().Scope() {
			g := t.global(v)
			return Path{root: g, vt: g.vt}, true
		}
		t.fail(e, "unknown variable %s", x.Name)
	case *ast.SelectorExpr:
		sel := t.info().Selections[x]
		if sel == nil {
			// package qualified
			if v, ok := t.info().Uses[x.Sel].(*types.Var); ok {
				g := t.global(v)
				return Path{root: g, vt: g.vt}, true
			}
			return Path{}, false
		}
		if sel.Kind() != types.FieldVal {
			return Path{}, false
		}
		p, ok := t.place(x.X)
		if !ok {
			// field of an rvalue: bind it
			T := t.typeOf(x.X)
			s := t.expr(x.X)
			p = Path{root: &Var{name: t.temp(t.u.vtype(T), s), typ: T, vt: t.u.vtype(T)}, vt: t.u.vtype(T)}
		}
		T := t.typeOf(x.X)
		for _, ix := range sel.Index() {
			if pt, ok := T.Underlying().(*types.Pointer); ok {
				p = t.derefPath(p, T, x.Pos())
				T = pt.Elem()
			}
			st, ok := T.Underlying().(*types.Struct)
			if !ok {
				t.fail(e, "field of non-struct")
			}
			sn := t.u.vtype(T)
			if _, ok := t.u.structs[sn]; !ok {
				t.fail(e, "field %s of %s is outside the model", st.Field(ix).Name(), sn)
			}
			p = p.with(Step{kind: "field", name: rid(st.Field(ix).Name()), styp: sn}, t.u.fvtype(sn, st.Field(ix)))
			T = st.Field(ix).Type()
		}
		return p, true
	case *ast.StarExpr:
		p, ok := t.place(x.X)
		if !ok {
			T := t.typeOf(x.X)
			s := t.expr(x.X)
			p = Path{root: &Var{name: t.temp(t.u.vtype(T), s), typ: T, vt: t.u.vtype(T)}, vt: t.u.vtype(T)}
		}
		return t.derefPath(p, t.typeOf(x.X), x.Pos()), true
	case *ast.IndexExpr:
		T := t.typeOf(x.X).Underlying()
		switch y := T.(type) {
		case *types.Slice:
			p, ok := t.place(x.X)
			if !ok {
				s := t.expr(x.X)
				p = Path{root: &Var{name: t.temp(t.u.vtype(y), s), typ: y, vt: t.u.vtype(y)}, vt: t.u.vtype(y)}
			}
			i := t.exprTo(x.Index, types.Typ[types.Int])
			t.assert("bounds", "index in range", x.Pos(), fmt.Sprintf("0 <= %s && %s < %s.s.len()", i, i, p.read()))
			return p.with(Step{kind: "index", name: i}, t.u.vtype(y.Elem())), true
		case *types.Map:
			p, ok := t.place(x.X)
			if !ok {
				s := t.expr(x.X)
				p = Path{root: &Var{name: t.temp(t.u.vtype(y), s), typ: y, vt: t.u.vtype(y)}, vt: t.u.vtype(y)}
			}
			k := t.exprTo(x.Index, y.Key())
			return p.with(Step{kind: "key", name: k, styp: t.u.zero(y.Elem())}, t.u.vtype(y.Elem())), true
		}
	}
	return Path{}, false
}

func (t *fnT) derefPath(p Path, T types.Type, pos token.Pos) Path {
	if !strings.HasPrefix(p.vt, "Option<") {
		return p // the place is the pointee already (direct parameter, alias, handle)
	}
	t.assert("nil", "nil dereference", pos, p.read()+" is Some")
	return p.with(Step{kind: "deref"}, p.vt[7:len(p.vt)-1])
}

// pathValue reads a place as a value of type T.
func (t *fnT) pathValue(p Path, T types.Type) string {
	if strings.HasPrefix(t.u.vtype(T), "Option<") && !strings.HasPrefix(p.vt, "Option<") {
		return "Some(" + p.read() + ")"
	}
	if p.vt == "()" && t.u.vtype(T) != "()" {
		return t.havoc(t.u.vtype(T)) // a field the model leaves out
	}
	return p.read()
}

func (t *fnT) global(v *types.Var) *Var {
	name := "g_" + v.Pkg().Name() + "_" + v.Name()
	T := v.Type()
	t.u.global(name, v)
	return &Var{name: name + "()", typ: T, vt: t.u.vtype(T), param: true}
}

// ---- expressions ----

func (t *fnT) expr(e ast.Expr) string {
	if tv, ok := t.info().Types[e]; ok && tv.Value != nil {
		if c, ok := t.u.constant(tv.Value, tv.Type); ok {
			return c
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.expr(x.X)
	case *ast.Ident:
		if x.Name == "nil" {
			t.fail(e, "untyped nil")
		}
		o := t.objOf(x)
		if f, ok := o.(*types.Func); ok {
			return t.u.funcConst(funcKey(f))
		}
		if v := t.lookup(o); v != nil && v.fn != nil {
			return t.closureValue(v.fn, x)
		}
		p, ok := t.place(x)
		if !ok {
			t.fail(e, "unsupported identifier %s", x.Name)
		}
		return t.pathValue(p, t.typeOf(x))
	case *ast.BasicLit:
		t.fail(e, "literal")
	case *ast.FuncLit:
		return t.closureValue(x, x)
	case *ast.SelectorExpr:
		if sel := t.info().Selections[x]; sel != nil && sel.Kind() != types.FieldVal {
			t.fail(e, "method value")
		}
		if f, ok := t.info().Uses[x.Sel].(*types.Func); ok {
			return t.u.funcConst(funcKey(f))
		}
		p, ok := t.place(x)
		if !ok {
			t.fail(e, "unsupported selector")
		}
		return t.pathValue(p, t.typeOf(x))
	case *ast.StarExpr, *ast.IndexExpr:
		if ix, ok := e.(*ast.IndexExpr); ok {
			if b, ok := t.typeOf(ix.X).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				s := t.expr(ix.X)
				i := t.exprTo(ix.Index, types.Typ[types.Int])
				t.assert("bounds", "string index in range", e.Pos(), fmt.Sprintf("0 <= %s && %s < %s.len()", i, i, s))
				return s + "[" + i + "]"
			}
		}
		p, ok := t.place(e)
		if !ok {
			t.fail(e, "unsupported index or dereference")
		}
		return p.read()
	case *ast.UnaryExpr:
		return t.unary(x)
	case *ast.BinaryExpr:
		return t.binary(x)
	case *ast.CallExpr:
		r := t.call(x, false)
		if len(r) == 0 {
			return "()"
		}
		return r[0]
	case *ast.CompositeLit:
		return t.composite(x, t.typeOf(x))
	case *ast.SliceExpr:
		return t.slice(x)
	case *ast.TypeAssertExpr:
		v, ok := t.typeAssert(x)
		t.assert("assertion", "type assertion holds", x.Pos(), ok)
		return v
	}
	t.fail(e, "unsupported expression %T", e)
	return ""
}

func (t *fnT) typeAssert(x *ast.TypeAssertExpr) (val, ok string) {
	T := t.typeOf(x.Type)
	s := paren(t.expr(x.X))
	if t.u.vtype(t.typeOf(x.X)) == "GoErr" && t.u.vtype(T) == "Option<ParseError>" {
		return fmt.Sprintf("(if %s is PE { Some(*(%s->PE_0)) } else { None })", s, s), "(" + s + " is PE)"
	}
	h := t.havoc("bool")
	v := t.havoc(t.u.vtype(T))
	return v, h
}

func (t *fnT) unary(x *ast.UnaryExpr) string {
	switch x.Op {
	case token.NOT:
		return "!" + paren(t.expr(x.X))
	case token.SUB:
		return "(-" + paren(t.expr(x.X)) + ")"
	case token.ADD:
		return t.expr(x.X)
	case token.XOR:
		return "!" + paren(t.expr(x.X))
	case token.AND:
		if cl, ok := unparen(x.X).(*ast.CompositeLit); ok {
			T := t.typeOf(cl)
			if t.u.vtype(types.NewPointer(T)) == "int" {
				t.fail(x, "handle literal")
			}
			return "Some(" + t.composite(cl, T) + ")"
		}
		p, ok := t.place(x.X)
		if !ok {
			t.fail(x, "address of this expression")
		}
		t.takeAddr(p)
		if t.u.isRef(types.NewPointer(t.typeOf(x.X))) || t.u.vtype(t.typeOf(x)) == "Buf" {
			return p.read()
		}
		return "Some(" + p.read() + ")"
	case token.ARROW:
		v, _ := t.recv(x)
		return v
	}
	t.fail(x, "unsupported unary operator %s", x.Op)
	return ""
}

// recv translates a channel receive.
func (t *fnT) recv(x *ast.UnaryExpr) (val, ok string) {
	p, isp := t.place(x.X)
	if !isp {
		t.fail(x, "receive from this expression")
	}
	c := p.read()
	ct := t.typeOf(x.X).Underlying().(*types.Chan)
	t.assert("channel", "receive cannot block forever", x.Pos(), fmt.Sprintf("%s.buf.len() > 0 || %s.closed", c, c))
	ok = t.temp("bool", c+".buf.len() > 0")
	val = t.temp(t.u.vtype(ct.Elem()), fmt.Sprintf("if %s { %s.buf[0] } else { %s }", ok, c, t.u.zero(ct.Elem())))
	t.write(p, fmt.Sprintf("ch_pop(%s)", c), x.Pos())
	return
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// seqExprs evaluates operands in order; earlier operands are saved when a
// later one changes variables.
func (t *fnT) seqExprs(n int, ev func(i int) string, vt func(i int) string) []string {
	out := make([]string, n)
	for i := 0; i < n; i++ {
		oldm := t.mods
		t.mods = map[string]modRec{}
		var s string
		items := t.sub(func() { s = ev(i) })
		changed := len(t.mods) > 0
		for k, v := range t.mods {
			if oldm != nil {
				oldm[k] = v
			}
		}
		t.mods = oldm
		if changed {
			for j := 0; j < i; j++ {
				if out[j] != "" {
					out[j] = t.temp(vt(j), out[j])
				}
			}
		}
		t.add(items)
		out[i] = s
	}
	return out
}

func (t *fnT) binary(x *ast.BinaryExpr) string {
	if x.Op == token.LAND || x.Op == token.LOR {
		a := paren(t.expr(x.X))
		var b string
		oldm := t.mods
		t.mods = map[string]modRec{}
		items := t.sub(func() { b = t.expr(x.Y) })
		changed := len(t.mods) > 0
		for k, v := range t.mods {
			if oldm != nil {
				oldm[k] = v
			}
		}
		t.mods = oldm
		op := "&&"
		g := a
		if x.Op == token.LOR {
			op = "||"
			g = "!" + a
		}
		if onlyAsserts(items) {
			t.guarded(g, items)
			return a + " " + op + " " + paren(b)
		}
		_ = changed
		t.tmp++
		n := fmt.Sprintf("sc%d", t.tmp)
		t.emit(fmt.Sprintf("let ghost mut %s: bool = %s;", n, a))
		if x.Op == token.LOR {
			t.emit(fmt.Sprintf("if cond(Ghost(!%s)) {", n))
		} else {
			t.emit(fmt.Sprintf("if cond(Ghost(%s)) {", n))
		}
		t.add(items)
		t.emitProof(n + " = " + b + ";")
		t.emit("}")
		return n
	}
	info := t.info()
	// comparisons with nil
	if x.Op == token.EQL || x.Op == token.NEQ {
		neg := ""
		if x.Op == token.NEQ {
			neg = "!"
		}
		if isNilExpr(info, x.Y) {
			return neg + "(" + t.isNil(x.X) + ")"
		}
		if isNilExpr(info, x.X) {
			return neg + "(" + t.isNil(x.Y) + ")"
		}
	}
	Tx, Ty := t.typeOf(x.X), t.typeOf(x.Y)
	T := Tx
	if b, ok := Tx.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		T = Ty
	}
	shift := x.Op == token.SHL || x.Op == token.SHR
	r := t.seqExprs(2, func(i int) string {
		if i == 0 {
			if shift {
				return paren(t.exprTo(x.X, t.typeOf(x)))
			}
			return paren(t.exprTo(x.X, T))
		}
		if shift {
			return paren(t.exprTo(x.Y, types.Typ[types.Int]))
		}
		return paren(t.exprTo(x.Y, T))
	}, func(i int) string { return t.u.vtype(T) })
	a, b := r[0], r[1]
	vt := t.u.vtype(T)
	switch x.Op {
	case token.EQL, token.NEQ:
		var s string
		_, isPtr := T.Underlying().(*types.Pointer)
		switch {
		case vt == "S":
			if b == "sempty()" {
				s = a + ".len() == 0"
			} else if a == "sempty()" {
				s = b + ".len() == 0"
			} else {
				s = a + " == " + b
			}
		case isPtr && strings.HasPrefix(vt, "Option<"):
			h := t.havoc("bool")
			t.assume(fmt.Sprintf("(%s ==> %s == %s) && ((%s is None && %s is None) ==> %s) && ((%s is None) != (%s is None) ==> !%s)", h, a, b, a, b, h, a, b, h))
			s = h
		default:
			s = a + " == " + b
		}
		if x.Op == token.NEQ {
			return "!(" + s + ")"
		}
		return s
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if vt == "S" {
			switch x.Op {
			case token.LSS:
				return "str_lt(" + a + ", " + b + ")"
			case token.GTR:
				return "str_lt(" + b + ", " + a + ")"
			case token.LEQ:
				return "!str_lt(" + b + ", " + a + ")"
			default:
				return "!str_lt(" + a + ", " + b + ")"
			}
		}
		return a + " " + x.Op.String() + " " + b
	case token.ADD:
		if vt == "S" {
			return "(" + a + " + " + b + ")"
		}
		if vt == "int" {
			return "(" + a + " + " + b + ")"
		}
	case token.SUB, token.MUL:
		if vt == "int" {
			return "(" + a + " " + x.Op.String() + " " + b + ")"
		}
	case token.QUO:
		if vt == "int" {
			t.assert("arith", "division by zero", x.Pos(), b+" != 0")
			return "go_div(" + a + ", " + b + ")"
		}
	case token.REM:
		if vt == "int" {
			t.assert("arith", "division by zero", x.Pos(), b+" != 0")
			return "go_rem(" + a + ", " + b + ")"
		}
	case token.AND, token.OR, token.XOR:
		if vt == "u64" || vt == "u8" {
			return "(" + a + " " + x.Op.String() + " " + b + ")"
		}
	case token.AND_NOT:
		if vt == "u64" || vt == "u8" {
			return "(" + a + " & !" + b + ")"
		}
	case token.SHR:
		if vt2 := t.u.vtype(t.typeOf(x)); vt2 == "u64" {
			t.assert("arith", "shift count is not negative", x.Pos(), b+" >= 0")
			return "shr64(" + a + ", " + b + ")"
		}
	case token.SHL:
		if vt2 := t.u.vtype(t.typeOf(x)); vt2 == "u64" {
			t.assert("arith", "shift count is not negative", x.Pos(), b+" >= 0")
			return "shl64(" + a + ", " + b + ")"
		}
	}
	t.fail(x, "unsupported operator %s on %s", x.Op, vt)
	return ""
}

func (t *fnT) isNil(e ast.Expr) string {
	T := t.typeOf(e)
	vt := t.u.vtype(T)
	if id, ok := unparen(e).(*ast.Ident); ok {
		if v := t.lookup(t.objOf(id)); v != nil {
			if strings.HasPrefix(vt, "Option<") && !strings.HasPrefix(t.rootPath(v).vt, "Option<") {
				return "false"
			}
		}
	}
	s := paren(t.expr(e))
	switch {
	case strings.HasPrefix(vt, "Option<"):
		return s + " is None"
	case vt == "GoErr":
		return s + " is Nil"
	case strings.HasPrefix(vt, "Sl<"), strings.HasPrefix(vt, "Mp<"):
		return "!" + s + ".nn"
	case vt == "Opq":
		return s + ".id == 0"
	case vt == "Buf" || vt == "int" || strings.HasPrefix(vt, "Ch<"):
		return "false"
	}
	t.fail(e, "nil comparison of %s", vt)
	return ""
}

func (t *fnT) composite(x *ast.CompositeLit, T types.Type) string {
	switch y := T.Underlying().(type) {
	case *types.Struct:
		vt := t.u.vtype(T)
		if vt == "()" {
			return "()"
		}
		if vt == "Buf" {
			return "buf_empty()"
		}
		if _, ok := t.u.structs[vt]; !ok {
			t.fail(x, "literal of %s is outside the model", vt)
		}
		var exprs []ast.Expr
		var fidx []int
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				nm := kv.Key.(*ast.Ident).Name
				for j := 0; j < y.NumFields(); j++ {
					if y.Field(j).Name() == nm {
						fidx = append(fidx, j)
					}
				}
				exprs = append(exprs, kv.Value)
			} else {
				fidx = append(fidx, i)
				exprs = append(exprs, el)
			}
		}
		vals := t.seqExprs(len(exprs), func(i int) string {
			return t.elem(exprs[i], y.Field(fidx[i]).Type())
		}, func(i int) string { return t.u.vtype(y.Field(fidx[i]).Type()) })
		m := map[int]string{}
		for i, f := range fidx {
			m[f] = vals[i]
		}
		var fs []string
		for j := 0; j < y.NumFields(); j++ {
			v, ok := m[j]
			if !ok {
				v = t.u.zero(y.Field(j).Type())
			}
			if t.u.con.Erased[vt+"."+rid(y.Field(j).Name())] {
				v = "()"
			}
			fs = append(fs, rid(y.Field(j).Name())+": "+v)
		}
		return vt + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice:
		vals := t.seqExprs(len(x.Elts), func(i int) string {
			if _, ok := x.Elts[i].(*ast.KeyValueExpr); ok {
				t.fail(x, "indexed slice literal")
			}
			return t.elem(x.Elts[i], y.Elem())
		}, func(i int) string { return t.u.vtype(y.Elem()) })
		s := "Seq::<" + t.u.vtype(y.Elem()) + ">::empty()"
		for _, v := range vals {
			s += ".push(" + v + ")"
		}
		return "Sl { s: " + s + ", nn: true }"
	case *types.Map:
		s := "Map::<" + t.u.vtype(y.Key()) + ", " + t.u.vtype(y.Elem()) + ">::empty()"
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			r := t.seqExprs(2, func(i int) string {
				if i == 0 {
					return t.elem(kv.Key, y.Key())
				}
				return t.elem(kv.Value, y.Elem())
			}, func(i int) string {
				if i == 0 {
					return t.u.vtype(y.Key())
				}
				return t.u.vtype(y.Elem())
			})
			s += ".insert(" + r[0] + ", " + r[1] + ")"
		}
		return "Mp { m: " + s + ", nn: true }"
	}
	t.fail(x, "unsupported composite literal")
	return ""
}

func (t *fnT) elem(e ast.Expr, T types.Type) string {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			return "Some(" + t.composite(cl, pt.Elem()) + ")"
		}
		return t.composite(cl, T)
	}
	return t.stored(e, T)
}

// stored translates an expression whose value is kept somewhere: a pointer
// variable's pointee becomes shared.
func (t *fnT) stored(e ast.Expr, T types.Type) string {
	s := t.exprTo(e, T)
	t.noteShared(e)
	return s
}

func (t *fnT) noteShared(e ast.Expr) {
	if id, ok := unparen(e).(*ast.Ident); ok {
		if v := t.lookup(t.objOf(id)); v != nil && v.esc != "" {
			t.setFlag(v.esc)
		}
	}
}

func (t *fnT) slice(x *ast.SliceExpr) string {
	T := t.typeOf(x.X)
	s := t.expr(x.X)
	isStr := t.u.vtype(T) == "S"
	seq := s + ".s"
	if isStr {
		seq = s
	}
	n := "(" + seq + ".len() as int)"
	lo, hi := "0int", n
	if x.Low != nil {
		lo = paren(t.exprTo(x.Low, types.Typ[types.Int]))
	}
	if x.High != nil {
		hi = paren(t.exprTo(x.High, types.Typ[types.Int]))
	}
	c := fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s", lo, lo, hi, hi, n)
	if x.Max != nil {
		m := paren(t.exprTo(x.Max, types.Typ[types.Int]))
		c += fmt.Sprintf(" && %s <= %s && %s <= %s", hi, m, m, n)
	}
	if x.Low != nil || x.High != nil {
		t.assert("bounds", "slice bounds in range", x.Pos(), c)
	}
	if x.Low == nil && x.High == nil {
		return s
	}
	if isStr {
		return fmt.Sprintf("%s.subrange(%s, %s)", seq, lo, hi)
	}
	return fmt.Sprintf("Sl { s: %s.subrange(%s, %s), nn: %s.nn }", seq, lo, hi, s)
}

// ---- globals ----

func (u *Unit) funcConst(key string) string {
	n := "fn_" + sanitize(key)
	if !u.fconsts[n] {
		u.fconsts[n] = true
	}
	return n + "()"
}

func sanitize(k string) string {
	var sb strings.Builder
	for _, c := range k {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			sb.WriteRune(c)
		} else if c == '.' {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (u *Unit) global(name string, v *types.Var) {
	if _, ok := u.globals[name]; ok {
		return
	}
	vt := u.vtype(v.Type())
	u.globals[name] = "pub uninterp spec fn " + name + "() -> " + vt + ";"
	u.gorder = append(u.gorder, name)
	if u.gwrites[v] {
		u.notes["global "+v.Name()+" is assigned at run time; treated as one fixed unknown value"] = true
		return
	}
	// initialiser
	pk := u.prog.Pkgs[v.Pkg().Path()]
	if pk == nil {
		return
	}
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if pk.Info.Defs[n] == v && i < len(vs.Values) {
						if ex, ok := u.staticExpr(pk, vs.Values[i], v.Type()); ok {
							u.globals[name] = "pub open spec fn " + name + "() -> " + vt + " { " + ex + " }"
						}
					}
				}
			}
		}
	}
}

// staticExpr evaluates a package-level initialiser.
func (u *Unit) staticExpr(pk *Pkg, e ast.Expr, T types.Type) (string, bool) {
	if tv, ok := pk.Info.Types[e]; ok && tv.Value != nil {
		return u.constant(tv.Value, T)
	}
	if s, ok := u.staticStr(pk, e); ok && u.vtype(T) == "S" {
		return u.lit(s), true
	}
	switch x := e.(type) {
	case *ast.CompositeLit:
		CT := T
		if x.Type != nil {
			CT = pk.Info.Types[x].Type
		}
		switch y := CT.Underlying().(type) {
		case *types.Slice:
			s := "Seq::<" + u.vtype(y.Elem()) + ">::empty()"
			for _, el := range x.Elts {
				v, ok := u.staticExpr(pk, el, y.Elem())
				if !ok {
					return "", false
				}
				s += ".push(" + v + ")"
			}
			return "Sl { s: " + s + ", nn: true }", true
		case *types.Map:
			if len(x.Elts) > 200 {
				return "", false
			}
			s := "Map::<" + u.vtype(y.Key()) + ", " + u.vtype(y.Elem()) + ">::empty()"
			for _, el := range x.Elts {
				kv := el.(*ast.KeyValueExpr)
				k, ok := u.staticExpr(pk, kv.Key, y.Key())
				if !ok {
					return "", false
				}
				v, ok := u.staticExpr(pk, kv.Value, y.Elem())
				if !ok {
					return "", false
				}
				s += ".insert(" + k + ", " + v + ")"
			}
			return "Mp { m: " + s + ", nn: true }", true
		case *types.Struct:
			vt := u.vtype(CT)
			if _, ok := u.structs[vt]; !ok {
				return "", false
			}
			var fs []string
			for j := 0; j < y.NumFields(); j++ {
				v := u.zero(y.Field(j).Type())
				if u.con.Erased[vt+"."+rid(y.Field(j).Name())] {
					fs = append(fs, rid(y.Field(j).Name())+": ()")
					continue
				}
				for i, el := range x.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						if kv.Key.(*ast.Ident).Name == y.Field(j).Name() {
							var ok bool
							if v, ok = u.staticExpr(pk, kv.Value, y.Field(j).Type()); !ok {
								return "", false
							}
						}
					} else if i == j {
						var ok bool
						if v, ok = u.staticExpr(pk, el, y.Field(j).Type()); !ok {
							return "", false
						}
					}
				}
				fs = append(fs, rid(y.Field(j).Name())+": "+v)
			}
			return vt + " { " + strings.Join(fs, ", ") + " }", true
		}
	case *ast.CallExpr:
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if f, ok := pk.Info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil {
				k := funcKey(f)
				if k == "regexp.MustCompile" && len(x.Args) == 1 {
					if c, ok := u.staticStr(pk, x.Args[0]); ok {
						return "re_compile(" + u.lit(c) + ")", true
					}
				}
				if k == "errors.New" && len(x.Args) == 1 {
					if c, ok := u.staticStr(pk, x.Args[0]); ok {
						return "GoErr::Msg(" + u.lit(c) + ")", true
					}
				}
				if k == "strings.Repeat" && len(x.Args) == 2 {
					if c, ok := u.staticStr(pk, x.Args[0]); ok {
						if tv := pk.Info.Types[x.Args[1]]; tv.Value != nil {
							return "str_repeat(" + u.lit(c) + ", " + tv.Value.ExactString() + "int)", true
						}
					}
				}
			}
		}
	}
	return "", false
}

// staticStr evaluates string constants, including path literals' key().
func (u *Unit) staticStr(pk *Pkg, e ast.Expr) (string, bool) {
	if tv, ok := pk.Info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
		return constant.StringVal(tv.Value), true
	}
	call, ok := e.(*ast.CallExpr)
	if !ok {
		return "", false
	}
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok || len(call.Args) != 0 {
		return "", false
	}
	f, ok := pk.Info.Uses[sel.Sel].(*types.Func)
	if !ok {
		return "", false
	}
	cl, ok := sel.X.(*ast.CompositeLit)
	if !ok {
		return "", false
	}
	var parts []string
	for _, el := range cl.Elts {
		s, ok := u.staticStr(pk, el)
		if !ok {
			return "", false
		}
		parts = append(parts, s)
	}
	fd := u.prog.ByObj[f]
	if fd == nil || fd.Decl.Recv == nil || len(fd.Decl.Body.List) != 1 {
		return "", false
	}
	ret, ok := fd.Decl.Body.List[0].(*ast.ReturnStmt)
	if !ok || len(ret.Results) != 1 {
		return "", false
	}
	jc, ok := ret.Results[0].(*ast.CallExpr)
	if !ok || len(jc.Args) != 2 {
		return "", false
	}
	js, ok := jc.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", false
	}
	if jf, ok := fd.Pkg.Info.Uses[js.Sel].(*types.Func); !ok || funcKey(jf) != "strings.Join" {
		return "", false
	}
	id, ok := jc.Args[0].(*ast.Ident)
	if !ok || len(fd.Decl.Recv.List[0].Names) == 0 || fd.Pkg.Info.Uses[id] != fd.Pkg.Info.Defs[fd.Decl.Recv.List[0].Names[0]] {
		return "", false
	}
	sep, ok := u.staticStr(fd.Pkg, jc.Args[1])
	if !ok {
		return "", false
	}
	return strings.Join(parts, sep), true
}
