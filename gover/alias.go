package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
)

// A contract names local variables of the function it belongs to. When the
// function's locals have been renamed since the contracts were written
// (contracts/locals.json), the old names still find their variables: a name that
// is gone stands for the new name of a local of the same type, in order. Names
// inside the function are hints for the proof only, so nothing depends on the
// guess being right but whether the proof goes through.

type local struct{ Name, Type string }

func localType(T types.Type) string {
	if sig, ok := T.(*types.Signature); ok { // without the parameters' names
		s := "func("
		for i := 0; i < sig.Params().Len(); i++ {
			s += localType(sig.Params().At(i).Type()) + ","
		}
		s += ")"
		for i := 0; i < sig.Results().Len(); i++ {
			s += localType(sig.Results().At(i).Type()) + ","
		}
		return s
	}
	return types.TypeString(T, func(p *types.Package) string { return p.Name() })
}

// localsOf lists the local variables of a function by position, without its
// parameters and results.
func localsOf(fd *FuncDecl) []local {
	type at struct {
		l local
		p token.Pos
	}
	var l []at
	for id, o := range fd.Pkg.Info.Defs {
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || id.Name == "_" || id.Pos() < fd.Decl.Body.Pos() || id.Pos() > fd.Decl.Body.End() {
			continue
		}
		l = append(l, at{local{id.Name, localType(v.Type())}, id.Pos()})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].p < l[j].p })
	out := []local{}
	for _, x := range l {
		out = append(out, x.l)
	}
	return out
}

// newCalls lists the functions called that the contracts do not know.
func (u *Unit) newCalls(fd *FuncDecl, seen map[*FuncDecl]bool) []*FuncDecl {
	var out []*FuncDecl
	ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		if g := u.prog.ByObj[fd.Pkg.Info.Uses[id]]; g != nil && !seen[g] {
			if _, known := u.locals[g.Key]; !known {
				seen[g] = true
				out = append(append(out, g), u.newCalls(g, seen)...)
			}
		}
		return true
	})
	return out
}

// aliases gives the names that may stand for a local which is gone.
func (u *Unit) aliases(fd *FuncDecl) map[string][]string {
	if a, ok := u.alias[fd]; ok {
		return a
	}
	a := map[string][]string{}
	u.alias[fd] = a
	old, known := u.locals[fd.Key]
	if !known {
		return a
	}
	cur := localsOf(fd)
	own := len(cur)
	for _, g := range u.newCalls(fd, map[*FuncDecl]bool{}) {
		sig := g.Obj.Type().(*types.Signature)
		for i := 0; i < sig.Params().Len(); i++ {
			cur = append(cur, local{sig.Params().At(i).Name(), localType(sig.Params().At(i).Type())})
		}
		cur = append(cur, localsOf(g)...)
	}
	has := func(l []local, n string) bool {
		for _, x := range l {
			if x.Name == n {
				return true
			}
		}
		return false
	}
	add := func(o, n string) {
		for _, x := range a[o] {
			if x == n {
				return
			}
		}
		a[o] = append(a[o], n)
	}
	// the longest common subsequence of the two lists anchors the gaps
	n, m := len(old), own
	L := make([][]int, n+1)
	for i := range L {
		L[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if old[i] == cur[j] {
				L[i][j] = L[i+1][j+1] + 1
			} else if L[i][j] = L[i+1][j]; L[i][j+1] > L[i][j] {
				L[i][j] = L[i][j+1]
			}
		}
	}
	gap := func(i0, i1, j0, j1 int) {
		used := map[int]bool{}
		for i := i0; i < i1; i++ {
			if has(cur, old[i].Name) {
				continue
			}
			for j := j0; j < j1; j++ {
				if !used[j] && old[i].Type == cur[j].Type && !has(old, cur[j].Name) {
					used[j] = true
					add(old[i].Name, cur[j].Name)
					break
				}
			}
		}
	}
	i, j, gi, gj := 0, 0, 0, 0
	for i < n && j < m {
		switch {
		case old[i] == cur[j]:
			gap(gi, i, gj, j)
			i, j = i+1, j+1
			gi, gj = i, j
		case L[i+1][j] >= L[i][j+1]:
			i++
		default:
			j++
		}
	}
	gap(gi, n, gj, m)
	// anything left: by type, in order
	for _, o := range old {
		if has(cur[:own], o.Name) {
			continue
		}
		for _, c := range cur {
			if c.Type == o.Type && !has(old, c.Name) {
				add(o.Name, c.Name)
			}
		}
	}
	return a
}

// funcAt is the declared function around a position.
func (p *Program) funcAt(pos token.Pos) *FuncDecl {
	for _, fd := range p.Funcs {
		if fd.Decl.Pos() <= pos && pos <= fd.Decl.End() {
			return fd
		}
	}
	return nil
}

// oldName is the name by which the contracts know a local.
func (t *fnT) oldName(id string, pos token.Pos, want func(string) bool) string {
	if want(id) {
		return id
	}
	if fd := t.u.prog.funcAt(pos); fd != nil {
		a := t.u.aliases(fd)
		for _, o := range sortedKeys(a) {
			if len(a[o]) > 0 && a[o][0] == id && want(o) {
				return o
			}
		}
	}
	return id
}

// nameAt finds the variable a contract means by a name.
func (t *fnT) nameAt(id string, pos token.Pos) (*Var, bool) {
	if v, ok := t.nameAt1(id, pos); ok || id == "w" {
		return v, ok
	}
	p := pos
	for f := t.fr; f != nil; f = f.parent {
		if fd := t.u.prog.funcAt(p); fd != nil {
			for _, c := range t.u.aliases(fd)[id] {
				if v, ok := t.nameAt1(c, pos); ok {
					return v, true
				}
			}
		}
		p = f.callPos
	}
	return nil, false
}

func readLocals(file string) (map[string][]local, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	m := map[string][]local{}
	return m, json.Unmarshal(b, &m)
}

// writeLocals records the locals of the program's functions.
func writeLocals(repo, file string) error {
	prog, err := loadProgram(repo)
	if err != nil {
		return err
	}
	m := map[string][]local{}
	for _, p := range []string{"", "/internal/generator", "/cmd/generate"} {
		if _, err := prog.load(prog.Module + p); err != nil {
			return err
		}
	}
	for k, fd := range prog.Funcs {
		m[k] = localsOf(fd)
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

// resultNames: when x, y := helper() is expanded, the contract's x and y mean, inside
// the helper, the locals it returns.
func (t *fnT) resultNames(caller, fr *frame, ft *ast.FuncType, body *ast.BlockStmt) (map[string]types.Object, map[string]ast.Expr) {
	fd := t.u.prog.funcAt(fr.callPos)
	if fd == nil || len(body.List) == 0 {
		return nil, nil
	}
	lit := make([]ast.Expr, fr.sig.Results().Len())
	ret := make([]types.Object, fr.sig.Results().Len())
	for i, id := range fieldIdents(ft.Results) {
		if id != nil {
			ret[i] = fr.pkg.Info.Defs[id]
		}
	}
	if r, ok := body.List[len(body.List)-1].(*ast.ReturnStmt); ok && len(r.Results) == len(ret) {
		for i, e := range r.Results {
			if id, ok := unparen(e).(*ast.Ident); ok {
				if v, ok := fr.pkg.Info.Uses[id].(*types.Var); ok {
					ret[i] = v
				}
			}
			if c, ok := unparen(e).(*ast.CompositeLit); ok {
				lit[i] = c
			}
		}
	}
	is := func(e ast.Expr) bool {
		c, ok := unparen(e).(*ast.CallExpr)
		return ok && c.Pos() == fr.callPos
	}
	out, lits := map[string]types.Object{}, map[string]ast.Expr{}
	set := func(lhs ast.Expr, i int) {
		if id, ok := lhs.(*ast.Ident); ok && id.Name != "_" && i < len(ret) {
			if ret[i] != nil {
				out[id.Name] = ret[i]
			} else if lit[i] != nil {
				lits[id.Name] = lit[i]
			}
		}
	}
	ast.Inspect(fd.Decl.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for k, e := range x.Rhs {
				if !is(e) {
					continue
				}
				if len(x.Rhs) == len(x.Lhs) {
					set(x.Lhs[k], 0)
				} else {
					for i, l := range x.Lhs {
						set(l, i)
					}
				}
			}
		case *ast.ValueSpec:
			for k, e := range x.Values {
				if !is(e) {
					continue
				}
				if len(x.Values) == len(x.Names) {
					set(x.Names[k], 0)
				} else {
					for i, l := range x.Names {
						set(l, i)
					}
				}
			}
		}
		return true
	})
	return out, lits
}

// litAt: the literal a helper being expanded returns to this variable, as it would be now.
func (t *fnT) litAt(id string) (text string, ok bool) {
	cur := t.fr
	defer func() {
		t.fr = cur
		if r := recover(); r != nil {
			if _, is := r.(transErr); !is {
				panic(r)
			}
			text, ok = "", false
		}
	}()
	for f := cur; f != nil; f = f.parent {
		if e := f.lits[id]; e != nil {
			t.fr = f
			it := t.sub(func() { text = t.expr(e) })
			return text, onlyAsserts(it)
		}
	}
	return "", false
}

// fits tells whether a variable of an expanded helper can be what the contract of the
// function around it means by that name: it has the type of that function's variable.
func (t *fnT) fits(f *frame, id string, v *Var) bool {
	if f.parent == nil || v.typ == nil {
		return true
	}
	known := false
	root := f
	for root.parent != nil {
		root = root.parent
	}
	if o, ok := root.names[id]; ok && o.typ != nil {
		if known = true; types.Identical(o.typ, v.typ) {
			return true
		}
	}
	for _, l := range t.u.locals[t.spec.Key] {
		if l.Name == id {
			if known = true; l.Type == localType(v.typ) {
				return true
			}
		}
	}
	return !known
}
