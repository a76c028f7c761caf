package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type result struct {
	Property  string            `json:"property"`
	Functions []string          `json:"functions"`
	Inlined   []string          `json:"inlined"`
	Trusted   []string          `json:"trusted"`
	Models    []string          `json:"models"`
	Notes     []string          `json:"notes"`
	Errors    map[string]string `json:"errors"`
	Obls      []*Obl            `json:"obligations"`
	FuncLines map[string][2]int `json:"func_lines"`
	Lemmas    []string          `json:"lemmas"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property")
	out := flag.String("out", "", "output .rs file")
	meta := flag.String("meta", "", "output .json file")
	roots := flag.String("roots", "", "override roots")
	probes := flag.Bool("probes", false, "add vacuity probes")
	locals := flag.String("locals", "", "record the functions' locals in this file")
	flag.Parse()
	if *locals != "" {
		if err := writeLocals(*repo, *locals); err != nil {
			fmt.Fprintln(os.Stderr, "gover:", err)
			os.Exit(2)
		}
		return
	}
	if err := run(*repo, *verif, *prop, *out, *meta, *roots, *probes); err != nil {
		fmt.Fprintln(os.Stderr, "gover:", err)
		os.Exit(2)
	}
}

var litRe = regexp.MustCompile(`lit!\("((?:[^"\\]|\\.)*)"\)`)

func unq(s string) string {
	var r string
	if err := json.Unmarshal([]byte(`"`+s+`"`), &r); err != nil {
		return s
	}
	return r
}

var fncRe = regexp.MustCompile(`fnc!\("([^"]*)"\)`)

var globRe = regexp.MustCompile(`glob!\("([^".]*)\.([^"]*)"\)`)

// expandLits replaces lit!("text") by the registered literal.
func (u *Unit) expandLits(s string) string {
	s = globRe.ReplaceAllStringFunc(s, func(m string) string {
		x := globRe.FindStringSubmatch(m)
		for _, pk := range u.prog.Pkgs {
			if pk.Types != nil && pk.Types.Name() == x[1] {
				if v, ok := pk.Types.Scope().Lookup(x[2]).(*types.Var); ok {
					n := "g_" + x[1] + "_" + x[2]
					u.global(n, v)
					return n + "()"
				}
			}
		}
		return "missing_global_" + x[2] + "()"
	})
	s = fncRe.ReplaceAllStringFunc(s, func(m string) string { return u.funcConst(fncRe.FindStringSubmatch(m)[1]) })
	return litRe.ReplaceAllStringFunc(s, func(m string) string {
		return u.lit(unq(litRe.FindStringSubmatch(m)[1]))
	})
}

func run(repo, verif, prop, out, meta, roots string, probes bool) error {
	con, err := loadContracts(filepath.Join(verif, "contracts"))
	if err != nil {
		return err
	}
	ps := con.Props[prop]
	if ps == nil && roots == "" {
		return fmt.Errorf("no property %s in the contracts", prop)
	}
	if ps == nil {
		ps = &PropSpec{ID: prop}
	}
	if roots != "" {
		ps.Roots = splitTop(roots, ',')
	}
	prog, err := loadProgram(repo)
	if err != nil {
		return err
	}
	for _, f := range con.Funcs {
		f.Trusted = f.Trusted || f.TrustedIn[prop]
	}
	res := &result{Property: prop, Errors: map[string]string{}, FuncLines: map[string][2]int{}}
	u := &Unit{prog: prog, con: con, prop: prop, lits: map[string]int{}, structs: map[string]*types.Struct{}, globals: map[string]string{},
		fconsts: map[string]bool{}, notes: map[string]bool{}, assumes: map[string]bool{}, gwrites: map[types.Object]bool{},
		inlined: map[string]bool{}, funcsUC: map[string]bool{}, needed: map[string]bool{}, probes: probes, lean: ps.Lean}
	u.alias = map[*FuncDecl]map[string][]string{}
	if u.locals, err = readLocals(filepath.Join(verif, "contracts", "locals.json")); err != nil {
		return err
	}
	pkgs := []string{prog.Module}
	for _, r := range ps.Roots {
		if strings.HasPrefix(r, "generator.") {
			pkgs = []string{prog.Module, prog.Module + "/internal/generator"}
		}
		if strings.HasPrefix(r, "main.") {
			pkgs = []string{prog.Module, prog.Module + "/internal/generator", prog.Module + "/cmd/generate"}
			break
		}
	}
	for _, p := range pkgs {
		pk, err := prog.load(p)
		if err != nil {
			return err
		}
		u.scanGlobals(pk)
		u.declareStructs(pk)
	}
	// resolve literals in contracts
	for _, k := range sortedKeys(con.Funcs) {
		u.expandSpec(con.Funcs[k])
	}
	for _, mk := range sortedKeys(con.Models) {
		m := con.Models[mk]
		for i := range m.Steps {
			m.Steps[i].Text = u.expandLits(m.Steps[i].Text)
		}
		for i := range m.Result {
			m.Result[i] = u.expandLits(m.Result[i])
		}
	}
	var specText strings.Builder
	for _, s := range append([]string{"prelude.rs"}, ps.Specs...) {
		b, err := os.ReadFile(filepath.Join(verif, "spec", s))
		if err != nil {
			return err
		}
		specText.WriteString("// ---- " + s + "\n" + u.expandLits(string(b)) + "\n")
	}
	for _, m := range regexp.MustCompile(`(?m)^\s*(?:pub )?(?:broadcast )?proof fn (\w+)`).FindAllStringSubmatch(specText.String(), -1) {
		res.Lemmas = append(res.Lemmas, m[1])
	}
	for _, m := range regexp.MustCompile(`(?s)#\[verifier::external_body\]\s*pub (?:broadcast )?proof fn (\w+)`).FindAllStringSubmatch(specText.String(), -1) {
		res.Trusted = append(res.Trusted, "axiom "+m[1])
	}
	u.specFields = map[string]string{}
	for _, m := range regexp.MustCompile(`(?s)pub struct (\w+) \{(.*?)\}`).FindAllStringSubmatch(specText.String(), -1) {
		body := regexp.MustCompile(`//[^\n]*`).ReplaceAllString(m[2], "")
		for _, f := range regexp.MustCompile(`pub (\w+): ([^,]+)`).FindAllStringSubmatch(body, -1) {
			u.specFields[m[1]+"."+f[1]] = strings.TrimSpace(f[2])
		}
	}
	var fns []fnOut
	done := map[string]bool{}
	work := append([]string{}, ps.Roots...)
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		spec := con.Funcs[k]
		if spec == nil {
			res.Errors[k] = "no contract"
			continue
		}
		if spec.Trusted {
			fd := prog.Funcs[k]
			if fd == nil {
				res.Errors[k] = "function does not exist"
				continue
			}
			sig := fd.Obj.Type().(*types.Signature)
			pts, _ := sigTypes(sig, true)
			var rs []types.Type
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, sig.Results().At(i).Type())
			}
			h, _, _ := u.header(spec, pts, rs, nil, u.wantFn)
			fns = append(fns, fnOut{key: k, text: h + "{ unimplemented!() }\n"})
			res.Trusted = append(res.Trusted, k)
			continue
		}
		if spec.Closure {
			continue // emitted with its enclosing function
		}
		u.needed = map[string]bool{}
		f := u.function(spec)
		if f.err != "" {
			res.Errors[k] = f.err
		} else {
			fns = append(fns, f)
		}
		for _, n := range sortedKeys(u.needed) {
			work = append(work, n)
		}
		for len(u.closures) > 0 {
			j := u.closures[0]
			u.closures = u.closures[1:]
			if done[j.spec.Key] {
				continue
			}
			done[j.spec.Key] = true
			u.needed = map[string]bool{}
			cf := u.closureFn(j)
			if cf.err != "" {
				res.Errors[j.spec.Key] = cf.err
			} else {
				fns = append(fns, cf)
			}
			for _, n := range sortedKeys(u.needed) {
				work = append(work, n)
			}
		}
		sort.Strings(work)
	}
	// closures whose enclosing function is not part of this check
	for _, k := range sortedKeys(done) {
		spec := con.Funcs[k]
		if spec == nil || !spec.Closure {
			continue
		}
		has := false
		for _, f := range fns {
			if f.key == k {
				has = true
			}
		}
		if !has && res.Errors[k] == "" {
			if encl := spec.Encl; encl != "" && !done[encl] {
				es := con.Funcs[encl]
				save := len(u.obls)
				u.function(es)
				u.obls = u.obls[:save]
				for _, j := range u.closures {
					if j.spec == spec {
						cf := u.closureFn(j)
						if cf.err != "" {
							res.Errors[k] = cf.err
						} else {
							fns = append(fns, cf)
							has = true
						}
						break
					}
				}
				u.closures = nil
			}
			if !has && res.Errors[k] == "" {
				res.Errors[k] = "closure not found"
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("#![allow(unused_mut, unused_variables, unused_assignments, dead_code, unreachable_code, non_snake_case, unused_parens, unused_braces, non_camel_case_types, unused_imports)]\n")
	sb.WriteString("use vstd::prelude::*;\nuse vstd::seq_lib::*;\nuse vstd::map_lib::*;\nverus! {\n")
	var gl strings.Builder
	for _, g := range u.gorder {
		gl.WriteString(u.globals[g] + "\n")
	}
	for _, g := range sortedKeys(u.fconsts) {
		gl.WriteString("pub uninterp spec fn " + g + "() -> Opq;\n")
	}
	st := u.structDecls()
	gls := gl.String()
	sb.WriteString(st)
	sb.WriteString("pub struct World {\n")
	for _, w := range con.World {
		sb.WriteString("    pub " + w[0] + ": " + w[1] + ",\n")
	}
	sb.WriteString("}\n")
	sb.WriteString(gls)
	st2 := specText.String()
	if u.probes {
		st2 = u.probeTheorems(st2)
		st2 = assumeLemmas(st2)
	} else if u.lean {
		st2 = assumeLemmas(st2)
	}
	sb.WriteString(st2)
	sb.WriteString(u.litDecls())
	for _, f := range fns {
		sl := strings.Count(sb.String(), "\n") + 1
		sb.WriteString("// ---- " + f.key + "\n" + f.text)
		res.FuncLines[f.key] = [2]int{sl, strings.Count(sb.String(), "\n") + 1}
		if con.Funcs[f.key] != nil && !con.Funcs[f.key].Trusted {
			res.Functions = append(res.Functions, f.key)
		}
	}
	sb.WriteString("} // verus!\nfn main() {}\n")
	text := sb.String()
	// locate obligations
	re := regexp.MustCompile(`/\*ob:(\d+)\*/`)
	line := map[int]int{}
	for i, l := range strings.Split(text, "\n") {
		for _, m := range re.FindAllStringSubmatch(l, -1) {
			var id int
			fmt.Sscan(m[1], &id)
			line[id] = i + 1
		}
	}
	for _, o := range u.obls {
		if l, ok := line[o.ID]; ok {
			o.Line = l
			res.Obls = append(res.Obls, o)
		}
	}
	res.Inlined = sortedKeys(u.inlined)
	res.Models = sortedKeys(u.assumes)
	res.Notes = sortedKeys(u.notes)
	if out != "" {
		if err := os.WriteFile(out, []byte(text), 0o644); err != nil {
			return err
		}
	}
	if meta != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		if err := os.WriteFile(meta, b, 0o644); err != nil {
			return err
		}
	}
	for _, k := range sortedKeys(res.Errors) {
		fmt.Fprintf(os.Stderr, "gover: %s: %s\n", k, res.Errors[k])
	}
	return nil
}

// probeTheorems adds assert(false) to the end of every theorem (a public lemma not named lemma_ or ax_).
func (u *Unit) probeTheorems(s string) string {
	re := regexp.MustCompile(`(?m)^pub proof fn (\w+)`)
	var sb strings.Builder
	last := 0
	for _, m := range re.FindAllStringSubmatchIndex(s, -1) {
		n := s[m[2]:m[3]]
		if strings.HasPrefix(n, "lemma_") || strings.HasPrefix(n, "ax_") || strings.HasSuffix(strings.TrimSpace(s[:m[0]]), "external_body]") {
			continue
		}
		e := strings.Index(s[m[0]:], "\n{")
		if e < 0 {
			continue
		}
		e += m[0] + 1
		if le := e + strings.Index(s[e:], "\n"); s[le-1] == '}' {
			e = le - 1
		} else {
			e += strings.Index(s[e:], "\n}\n")
		}
		id := len(u.obls)
		u.obls = append(u.obls, &Obl{ID: id, Func: "lemma " + n, Kind: "probe", Name: "conclusion"})
		sb.WriteString(s[last:e])
		fmt.Fprintf(&sb, "\n    assert(false); /*ob:%d*/", id)
		last = e
	}
	sb.WriteString(s[last:])
	return sb.String()
}

func (u *Unit) expandSpec(f *FuncSpec) {
	ex := func(cs []Clause) {
		for i := range cs {
			cs[i].Text = u.expandLits(cs[i].Text)
		}
	}
	ex(f.Requires)
	ex(f.Ensures)
	ex(f.Entry)
	ex(f.Exit)
	for _, k := range loopOrder(f.Loops) {
		l := f.Loops[k]
		ex(l.Inv)
		ex(l.Head)
		ex(l.Tail)
		ex(l.Post)
		for i := range l.Snap {
			l.Snap[i][1] = u.expandLits(l.Snap[i][1])
		}
		for i := range l.ISnap {
			l.ISnap[i][1] = u.expandLits(l.ISnap[i][1])
		}
	}
	for _, k := range sortedKeys(f.Calls) {
		ex(f.Calls[k])
	}
}

func loopOrder(m map[int]*LoopSpec) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// scanGlobals notes package variables that are written after initialisation.
func (u *Unit) scanGlobals(pk *Pkg) {
	mark := func(e ast.Expr) {
		for {
			switch y := unparen(e).(type) {
			case *ast.SelectorExpr:
				if o := pk.Info.Uses[y.Sel]; o != nil {
					if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
						u.gwrites[v] = true
						return
					}
				}
				e = y.X
				continue
			case *ast.IndexExpr:
				e = y.X
				continue
			case *ast.StarExpr:
				e = y.X
				continue
			case *ast.Ident:
				if v, ok := pk.Info.Uses[y].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
					u.gwrites[v] = true
				}
			}
			return
		}
	}
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(x.X)
				}
				return true
			})
		}
	}
}

// assumeLemmas leaves out the proofs of the lemmas that carry no probe.
func assumeLemmas(s string) string {
	lines := strings.Split(s, "\n")
	re := regexp.MustCompile(`^(pub )?(broadcast )?proof fn (lemma_|ax_)\w+`)
	re2 := regexp.MustCompile(`^(broadcast )?proof fn \w+`)
	var sb strings.Builder
	for i, l := range lines {
		if (re.MatchString(l) || re2.MatchString(l)) && !(i > 0 && strings.Contains(lines[i-1], "external_body")) {
			sb.WriteString("#[verifier::external_body]\n")
		}
		sb.WriteString(l)
		if i < len(lines)-1 {
			sb.WriteString("\n")
		}
	}
	return sb.String()
}
