package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// node is a directive tree that survives JSON exactly.
type node struct {
	D     string
	L     int
	A     []string
	F     string
	I     []int // nil or listed
	HasI  bool
	B     []*node
	HasB  bool
	C     *string
	M     bool
	Share bool // ignored by build, see toDir
}

func toDir(n *node) *crossplane.Directive {
	d := &crossplane.Directive{Directive: n.D, Line: n.L, Args: n.A, File: n.F, Comment: n.C, IsMapBlockParameter: n.M}
	if n.HasI {
		d.Includes = append([]int{}, n.I...)
	}
	if n.HasB {
		d.Block = toDirs(n.B)
	}
	if n.C != nil {
		s := *n.C
		d.Comment = &s
	}
	return d
}

func toDirs(ns []*node) crossplane.Directives {
	ds := crossplane.Directives{}
	for _, n := range ns {
		ds = append(ds, toDir(n))
	}
	return ds
}

func genNode(r *rand.Rand, depth int, incl []int) *node {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	n := &node{D: pick("a", "b", "server", "if", "include", "#", "q s", "", "location", "x;y", "content_by_lua_block", "set_by_lua_block", "ext"), L: r.Intn(4), F: pick("", "", "f")}
	for i := r.Intn(4); i > 0; i-- {
		n.A = append(n.A, pick("x", "y z", "", "#c", "{", "$a", "${b}", "a;b", "q\"r", "it's", "on", "é", "}", "b}", "end$"))
	}
	if r.Intn(5) == 0 || n.D == "#" {
		s := pick("", " c", "c # d")
		n.C = &s
	}
	if r.Intn(6) == 0 || n.D == "include" && r.Intn(4) > 0 {
		n.HasI = true
		if len(incl) > 0 {
			for i := r.Intn(4); i > 0; i-- {
				n.I = append(n.I, incl[r.Intn(len(incl))])
			}
		}
	}
	n.M = r.Intn(8) == 0
	if depth > 0 && r.Intn(3) == 0 {
		n.HasB = true
		n.B = genNodes(r, depth-1, r.Intn(4), incl)
	}
	return n
}

func genNodes(r *rand.Rand, depth, k int, incl []int) []*node {
	var ns []*node
	for ; k > 0; k-- {
		ns = append(ns, genNode(r, depth, incl))
	}
	return ns
}

// ---- C15 ----

type eqCase struct {
	X, Y, Z *node
}

func refEq(a, b *node) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.D != b.D || a.L != b.L || a.F != b.F || a.M != b.M || fmt.Sprintf("%q", a.A) != fmt.Sprintf("%q", b.A) || fmt.Sprint(a.I) != fmt.Sprint(b.I) ||
		(a.C == nil) != (b.C == nil) || a.C != nil && *a.C != *b.C || len(a.B) != len(b.B) {
		return false
	}
	for i := range a.B {
		if !refEq(a.B[i], b.B[i]) {
			return false
		}
	}
	return true
}

func clone(n *node) *node {
	var m node
	if n == nil {
		return nil
	}
	if err := json.Unmarshal(encode(n), &m); err != nil {
		panic(err)
	}
	return &m
}

func perturb(r *rand.Rand, n *node) {
	for len(n.B) > 0 && r.Intn(3) > 0 {
		n = n.B[r.Intn(len(n.B))]
		if n == nil {
			return
		}
	}
	switch r.Intn(12) {
	case 0:
		n.D += "x"
	case 1:
		n.L++
	case 2:
		n.A = append(n.A, "x")
	case 3:
		if len(n.A) > 0 {
			n.A[len(n.A)-1] += "y"
		}
	case 4:
		n.F += "f"
	case 5:
		n.I, n.HasI = append(n.I, 1), true
	case 6:
		if len(n.I) > 0 {
			n.I[len(n.I)-1]++
		}
	case 7:
		n.M = !n.M
	case 8:
		s := "c"
		if n.C != nil {
			s = *n.C + "d"
		}
		n.C = &s
	case 9:
		n.C = nil
	case 10:
		n.B, n.HasB = append(n.B, &node{D: "new"}), true
	case 11:
		if len(n.B) > 1 {
			n.B[0], n.B[len(n.B)-1] = n.B[len(n.B)-1], n.B[0]
		}
	}
}

func optDir(n *node) *crossplane.Directive {
	if n == nil {
		return nil
	}
	return toDir(n)
}

func eqCheck(data []byte) error {
	var c eqCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	ns := []*node{c.X, c.Y, c.Z}
	var ds, before [3]*crossplane.Directive
	for i, n := range ns {
		ds[i], before[i] = optDir(n), optDir(n)
	}
	for i := range ds {
		for j := range ds {
			if g, w := ds[i].Equal(ds[j]), refEq(ns[i], ns[j]); g != w {
				return fmt.Errorf("Equal gives %v, want %v\n%s\n%s", g, w, encode(ns[i]), encode(ns[j]))
			}
		}
		if ds[i] != nil && !ds[i].Equal(toDir(ns[i])) {
			return fmt.Errorf("not equal to its copy: %s", encode(ns[i]))
		}
	}
	if !reflect.DeepEqual(ds, before) {
		return fmt.Errorf("comparing changed a directive")
	}
	return nil
}

// ---- C11 ----

type combCase struct {
	Confs  [][]*node
	Files  []string
	Errs   [][]string
	Status []string
	PStat  string
	Lost   []string
}

// badIndex says which include failed.
type badIndex struct {
	file string
	line int
}

func (b badIndex) Error() string { return fmt.Sprintf("bad index in %s:%d", b.file, b.line) }

func refCombine(c *combCase, file string, ns []*node) ([]*node, error) {
	var out []*node
	for _, n := range ns {
		m := *n
		if n.HasB {
			b, err := refCombine(c, file, n.B)
			if err != nil {
				return nil, err
			}
			m.B = b
		}
		if n.D != "include" || !n.HasI {
			out = append(out, &m)
			continue
		}
		for _, i := range n.I {
			if i < 0 || i >= len(c.Confs) {
				return nil, badIndex{file, n.L}
			}
			e, err := refCombine(c, c.Files[i], c.Confs[i])
			if err != nil {
				return nil, err
			}
			out = append(out, e...)
		}
	}
	return out, nil
}

func combPayload(c *combCase) *crossplane.Payload {
	p := &crossplane.Payload{Status: c.PStat}
	for _, e := range c.Lost {
		p.Errors = append(p.Errors, crossplane.PayloadError{File: "lost", Error: errors.New(e)})
	}
	for i, ns := range c.Confs {
		cf := crossplane.Config{File: c.Files[i], Status: c.Status[i], Parsed: toDirs(ns)}
		for j, e := range c.Errs[i] {
			l := j
			err := errors.New(e)
			cf.Errors = append(cf.Errors, crossplane.ConfigError{Line: &l, Error: err})
			p.Errors = append(p.Errors, crossplane.PayloadError{File: c.Files[i], Line: &l, Error: err})
		}
		p.Config = append(p.Config, cf)
	}
	return p
}

func combCheck(data []byte) error {
	var c combCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	p, same := combPayload(&c), combPayload(&c)
	got, err := p.Combined()
	if !reflect.DeepEqual(p, same) {
		return fmt.Errorf("combining changed the original payload")
	}
	if len(c.Confs) == 0 {
		if err != nil || got == nil || len(got.Config) != 0 {
			return fmt.Errorf("empty payload: %v %v", got, err)
		}
		return nil
	}
	want, werr := refCombine(&c, c.Files[0], c.Confs[0])
	if (err != nil) != (werr != nil) {
		return fmt.Errorf("error %v, want %v", err, werr)
	}
	if err != nil {
		var pe *crossplane.ParseError
		bad, _ := werr.(badIndex)
		if errors.As(err, &pe) && (pe.File == nil || *pe.File != bad.file || pe.Line == nil || *pe.Line != bad.line) {
			return fmt.Errorf("error %v, want %v", err, werr)
		}
		return nil
	}
	if len(got.Config) != 1 {
		return fmt.Errorf("%d configs", len(got.Config))
	}
	g := got.Config[0]
	failed := false
	var errs []string
	for i := range c.Confs {
		failed = failed || c.Status[i] == "failed"
		errs = append(errs, c.Errs[i]...)
	}
	var gerrs []string
	for _, e := range g.Errors {
		gerrs = append(gerrs, e.Error.Error())
	}
	switch {
	case g.File != c.Files[0]:
		return fmt.Errorf("file %q, want %q", g.File, c.Files[0])
	case (g.Status == "failed") != failed:
		return fmt.Errorf("status %q, some config failed: %v", g.Status, failed)
	case fmt.Sprint(gerrs) != fmt.Sprint(errs):
		return fmt.Errorf("errors %v, want %v", gerrs, errs)
	case len(got.Errors) != len(same.Errors):
		return fmt.Errorf("%d payload errors, want %d", len(got.Errors), len(same.Errors))
	}
	w := toDirs(want)
	if len(w) != len(g.Parsed) {
		return fmt.Errorf("%d directives, want %d", len(g.Parsed), len(w))
	}
	for i := range w {
		if !reflect.DeepEqual(w[i], g.Parsed[i]) {
			return fmt.Errorf("directive %d: got %s, want %s", i, encode(g.Parsed[i]), encode(w[i]))
		}
	}
	return nil
}

func genComb(r *rand.Rand, size int) interface{} {
	n := r.Intn(5)
	c := combCase{PStat: []string{"ok", "failed", ""}[r.Intn(3)]}
	for i := r.Intn(6) - 4; i > 0; i-- { // errors of files that have no config
		c.Lost = append(c.Lost, fmt.Sprint("lost", i))
	}
	for i := 0; i < n; i++ {
		var incl []int
		for j := i + 1; j < n; j++ {
			incl = append(incl, j, j)
		}
		if r.Intn(12) == 0 {
			incl = append(incl, []int{n, n + 3, -1}[r.Intn(3)])
		}
		c.Confs = append(c.Confs, genNodes(r, 3, r.Intn(2+size/6), incl))
		c.Files = append(c.Files, fmt.Sprint("f", i))
		st := []string{"ok", "ok", "failed"}[r.Intn(3)]
		var es []string
		if st == "failed" || r.Intn(4) == 0 {
			for k := r.Intn(3); k > 0; k-- {
				es = append(es, fmt.Sprint("e", i, k))
			}
		}
		c.Status = append(c.Status, st)
		c.Errs = append(c.Errs, es)
	}
	return c
}

// ---- C12 ----

type buildCase struct {
	Nodes  []*node
	Indent int
	Tabs   bool
	Header bool
	Ext    [][]string // registrations, in order
	Lua    bool
}

const refHeader = "# This config was built from JSON using NGINX crossplane.\n# If you encounter any bugs please report them here:\n# https://github.com/nginxinc/crossplane/issues\n\n"

type extBuilder struct{ id int }

func (e extBuilder) Build(d *crossplane.Directive) string {
	return extText(e.id, d.Directive, len(d.Args))
}

// extText is what the external builder id writes; some end in line feeds.
func extText(id int, name string, n int) string {
	return fmt.Sprintf("<%d:%s:%d>", id, name, n) + []string{"", "\n\n", "\n"}[(id+n)%3]
}

func (c *buildCase) options() *crossplane.BuildOptions {
	o := &crossplane.BuildOptions{Indent: c.Indent, Tabs: c.Tabs, Header: c.Header}
	for i, names := range c.Ext {
		o.Builders = append(o.Builders, crossplane.BuildWithBuilder(extBuilder{i}, names...))
	}
	if c.Lua {
		l := &crossplane.Lua{}
		o.Builders = append(o.Builders, l.RegisterBuilder())
	}
	return o
}

var luaNames = strings.Fields(`init_by_lua_block init_worker_by_lua_block exit_worker_by_lua_block set_by_lua_block content_by_lua_block
server_rewrite_by_lua_block rewrite_by_lua_block access_by_lua_block header_filter_by_lua_block body_filter_by_lua_block log_by_lua_block
balancer_by_lua_block ssl_client_hello_by_lua_block ssl_certificate_by_lua_block ssl_session_fetch_by_lua_block ssl_session_store_by_lua_block`)

// refExt gives the text an external builder is to write.
func (c *buildCase) refExt(n *node) (string, bool) {
	if c.Lua {
		for _, l := range luaNames {
			if l == n.D {
				k := 1
				if l == "set_by_lua_block" {
					k = 2
				}
				if len(n.A) < k {
					return n.D, true
				}
				if k == 2 {
					return n.D + " " + n.A[0] + " {" + n.A[1] + "}", true
				}
				return n.D + " {" + n.A[0] + "}", true
			}
		}
	}
	for i := len(c.Ext) - 1; i >= 0; i-- {
		for _, s := range c.Ext[i] {
			if s == n.D {
				return extText(i, n.D, len(n.A)), true
			}
		}
	}
	return "", false
}

func (c *buildCase) refBlock(ns []*node, depth, lastLine int, top bool) string {
	var b strings.Builder
	ind := c.Indent
	if ind == 0 {
		ind = 4
	}
	margin := strings.Repeat(" ", ind*depth)
	if c.Tabs {
		margin = strings.Repeat("\t", depth)
	}
	for i, n := range ns {
		com := n.D == "#" && n.C != nil
		if com && n.L == lastLine {
			b.WriteString(" #" + *n.C)
			continue
		}
		if i > 0 || !top {
			b.WriteString("\n")
		}
		b.WriteString(margin)
		if s, ok := c.refExt(n); ok {
			b.WriteString(s)
			continue
		}
		if com {
			b.WriteString("#" + *n.C)
			lastLine = n.L
			continue
		}
		var as []string
		for _, a := range n.A {
			as = append(as, crossplane.Enquote(a))
		}
		b.WriteString(crossplane.Enquote(n.D))
		switch {
		case n.D == "if" && !n.M:
			b.WriteString(" (")
			if len(as) > 0 && as[0] != n.A[0] {
				b.WriteString(" ")
			}
			b.WriteString(strings.Join(as, " ") + ")")
		case len(as) > 0:
			b.WriteString(" " + strings.Join(as, " "))
		}
		if n.HasB {
			b.WriteString(" {" + c.refBlock(n.B, depth+1, n.L, false) + "\n" + margin + "}")
		} else {
			b.WriteString(";")
		}
		lastLine = n.L
	}
	return b.String()
}

func (c *buildCase) want() string {
	s := ""
	if c.Header {
		s = refHeader
	}
	return s + strings.TrimSuffix(c.refBlock(c.Nodes, 0, 0, true), "\n")
}

func buildCheck(data []byte) error {
	var c buildCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	conf := crossplane.Config{Parsed: toDirs(c.Nodes)}
	var b bytes.Buffer
	if err := crossplane.Build(&b, conf, c.options()); err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	if g, w := b.String(), c.want(); g != w {
		return fmt.Errorf("built\n%q\nwant\n%q", g, w)
	}
	if !reflect.DeepEqual(conf.Parsed, toDirs(c.Nodes)) {
		return fmt.Errorf("building changed the tree")
	}
	for _, fail := range []int{1, 2} { // a writer that fails
		w := &failWriter{fail: fail}
		err := crossplane.Build(w, conf, c.options())
		n := 1
		if c.Header {
			n = 2
		}
		if (err != nil) != (fail <= n) {
			return fmt.Errorf("writer failing at write %d: error %v", fail, err)
		}
	}
	return nil
}

type failWriter struct{ n, fail int }

func (f *failWriter) Write(b []byte) (int, error) {
	if f.n++; f.n == f.fail {
		return 0, errors.New("write failed")
	}
	return len(b), nil
}

func deep(r *rand.Rand, k int) []*node {
	n := &node{D: "a", L: 1}
	for i := 0; i < k; i++ {
		n = &node{D: "b", L: 1, HasB: true, B: []*node{n}}
	}
	return []*node{n}
}

func genBuild(r *rand.Rand, size int) interface{} {
	c := buildCase{Nodes: genNodes(r, 4, r.Intn(2+size/4), nil), Tabs: r.Intn(3) == 0, Header: r.Intn(4) == 0, Lua: r.Intn(4) == 0}
	if r.Intn(30) == 0 {
		c.Nodes = deep(r, r.Intn(130))
	}
	c.Indent = []int{0, 4, 2, 1, 8, 33, 50, 99, 100, 101, 3}[r.Intn(11)]
	for i := r.Intn(3); i > 0; i-- {
		var ns []string
		for j := r.Intn(3); j > 0; j-- {
			ns = append(ns, []string{"ext", "a", "if", "#", "location", "include", "q s", "content_by_lua_block"}[r.Intn(8)])
		}
		c.Ext = append(c.Ext, ns)
	}
	return c
}

// ---- C13 ----

type quoteCase struct{ S string }

func quoteDomain(s string) bool {
	for _, r := range s {
		if r == '\\' || r == unicode.ReplacementChar || !unicode.IsPrint(r) {
			return false
		}
	}
	return true
}

func quoteCheck(data []byte) error {
	var c quoteCase
	if err := json.Unmarshal(data, &c); err != nil || !quoteDomain(c.S) {
		return nil
	}
	q := crossplane.Enquote(c.S)
	for _, f := range []string{"x %s;", "x %s {}", "x a %s b;", "x %s\n;", "%s;", "x{%s ;}"} {
		text := fmt.Sprintf(f, q)
		toks, _ := lexAll(crossplane.Lex(strings.NewReader(text)))
		var want []tok
		for _, t := range refLex([]byte(strings.Replace(f, "%s", "zz", 1))) {
			if t.Val == "zz" {
				t.Val, t.ErrAt = c.S, 1 // marks the argument
			}
			want = append(want, t)
		}
		ok := len(toks) == len(want)
		for i := range want {
			ok = ok && toks[i].Val == want[i].Val && !toks[i].Err
			if ok && want[i].ErrAt == 1 && !toks[i].Quoted && (c.S == "" || strings.HasPrefix(c.S, "#") || c.S == "{" || c.S == "}" || c.S == ";") {
				ok = false
			}
		}
		if !ok {
			return fmt.Errorf("%q is written as %s and %q is read back as %s", c.S, q, text, showToks(toks))
		}
	}
	if q != c.S && !(len(q) >= 2 && (q[0] == '"' || q[0] == '\'') && q[len(q)-1] == q[0]) {
		return fmt.Errorf("%q is changed to %s without being quoted", c.S, q)
	}
	plain := c.S != "" && strings.Trim(c.S, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_./:=-") == ""
	if plain && q != c.S {
		return fmt.Errorf("%q needs no quotes but is written %s", c.S, q)
	}
	return nil
}

func genQuote(r *rand.Rand, size int) interface{} {
	al := []string{"{", "}", ";", "#", "\"", "'", "$", "${", "a", "b", " ", "${x}", "é", "(", ")", "=", "~", "^", "/", "x1", "日本", "%", "%s", "|", "`", ",", "$a", "a}"}
	var s string
	for i := r.Intn(2 + size/4); i > 0; i-- {
		s += al[r.Intn(len(al))]
	}
	return quoteCase{s}
}

// ---- C16 ----

type luaCase struct {
	Name string
	Var  string
	Ws   [3]string
	Body []byte
	Tail int // 0: closed, 1: does not start with {, 2: never closes
	Pre  string
}

func genLuaBody(r *rand.Rand, b *bytes.Buffer, n int) {
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			b.WriteString("{")
			genLuaBody(r, b, r.Intn(3))
			b.WriteString("}")
		case 1:
			b.WriteString([]string{"\"}\"", "'{'", "\"it's }{\"", "'a\"{'", "\"\"", "\"\n}\"", "'\\'"}[r.Intn(7)])
		default:
			b.WriteString([]string{"a", " ", "\n", "\r\n", "\\", "\\n", ";", "#", "$", "é", "--", "=", "\t", "if x then end", "\xc3\xa9", "[[ ]]", "\u2003"}[r.Intn(17)])
		}
	}
}

func genLua(r *rand.Rand, size int) interface{} {
	ws := []string{" ", "\n", "  ", "\t\n ", "\r\n"}
	c := luaCase{Name: luaNames[r.Intn(len(luaNames))], Tail: []int{0, 0, 0, 0, 1, 2}[r.Intn(6)]}
	if r.Intn(3) == 0 {
		c.Name = "set_by_lua_block"
	}
	for i := range c.Ws {
		c.Ws[i] = ws[r.Intn(len(ws))]
	}
	if c.Name == "set_by_lua_block" {
		c.Var = []string{"$a", "$long_var", "x", "\"$q\""}[r.Intn(4)]
	}
	c.Pre = []string{"", "a b;\n", "http {\n", "\n\n# c\n", "x \"l1\nl2\";\n", "server_name content_by_lua_block;\n"}[r.Intn(6)]
	var b bytes.Buffer
	genLuaBody(r, &b, r.Intn(2+size/3))
	if r.Intn(12) == 0 { // longer than the scanner's buffer
		b.WriteString("\n" + strings.Repeat("0123456 89abcde\n", 200+r.Intn(500)))
	}
	if c.Tail == 2 && r.Intn(3) == 0 { // the input ends within a string
		b.WriteString([]string{"'a } b", "\"}{", "'", "\"\n}"}[r.Intn(4)])
	}
	c.Body = b.Bytes()
	return c
}

func luaCheck(data []byte) error {
	var c luaCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	lua := &crossplane.Lua{}
	text := c.Pre + c.Name + c.Ws[0]
	if c.Name == "set_by_lua_block" {
		text += c.Var + c.Ws[1]
	}
	text += []string{"{", "x", "{"}[c.Tail] + string(c.Body)
	if c.Tail == 0 {
		text += "}"
	}
	if c.Tail != 2 {
		text += c.Ws[2] + "after it;\n"
	}
	toks, closed := lexAll(crossplane.LexWithOptions(strings.NewReader(text), crossplane.LexOptions{Lexers: []crossplane.RegisterLexer{lua.RegisterLexer()}}))
	fail := func(s string) error { return fmt.Errorf("%s: %q gives %s", s, text, showToks(toks)) }
	if !closed {
		return fail("the stream is not closed")
	}
	pre := refLex([]byte(c.Pre))
	if len(pre) > 0 && pre[len(pre)-1].Err {
		pre = pre[:len(pre)-1]
	}
	for i, t := range pre {
		if i >= len(toks) || toks[i] != t {
			return fail("wrong tokens before the block")
		}
	}
	rest := toks[len(pre):]
	nl := func(s string) int { return 1 + strings.Count(s, "\n") }
	want := []tok{{Val: c.Name, Line: nl(c.Pre)}}
	body := runesOf(c.Body)
	if c.Name == "set_by_lua_block" {
		want = append(want, tok{Val: c.Var, Line: -1})
	}
	switch c.Tail {
	case 0:
		want = append(want, tok{Val: body, Line: -1, Quoted: true}, tok{Val: ";", Line: -1}, tok{Val: "after", Line: nl(text[:strings.LastIndex(text, "after")])}, tok{Val: "it", Line: -1}, tok{Val: ";", Line: -1})
		if strings.Contains(c.Pre, "{") {
			want = append(want, tok{Err: true, Line: -1})
		}
	case 1:
		want = append(want, tok{Err: true, Line: -1})
		rest = rest[:min(len(rest), len(want))]
	case 2:
		// the block swallows the rest; no argument may come out
		if strings.Contains(c.Pre, "{") {
			want = append(want, tok{Err: true, Line: -1})
		}
	}
	if len(rest) != len(want) {
		return fail("wrong number of tokens")
	}
	for i, w := range want {
		g := rest[i]
		if g.Val != w.Val || g.Quoted != w.Quoted || g.Err != w.Err || w.Line >= 0 && g.Line != w.Line {
			return fail(fmt.Sprintf("token %d differs, want %s", i, showToks(want[i:i+1])))
		}
	}
	if c.Tail == 0 {
		d := &crossplane.Directive{Directive: c.Name, Args: []string{body}}
		w := c.Name + " {" + body + "}"
		if c.Name == "set_by_lua_block" {
			d.Args = []string{c.Var, body}
			w = c.Name + " " + c.Var + " {" + body + "}"
		}
		if g := lua.Build(d); g != w {
			return fmt.Errorf("built %q, want %q", g, w)
		}
		var b bytes.Buffer
		err := crossplane.Build(&b, crossplane.Config{Parsed: crossplane.Directives{d}}, &crossplane.BuildOptions{Builders: []crossplane.RegisterBuilder{lua.RegisterBuilder()}})
		if err != nil || b.String() != strings.TrimSuffix(w, "\n") {
			return fmt.Errorf("built %q (%v), want %q", b.String(), err, w)
		}
	}
	return nil
}

func runesOf(b []byte) string {
	var s strings.Builder
	for _, r := range string(b) {
		s.WriteRune(r)
	}
	return s.String()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- C17 ----

type outCase struct {
	Confs  []buildCase
	Names  []string
	Fail   int // the operation that fails, -1 for none: create, write, close per file
	Disk   bool
	Before bool // files exist before, longer
	Block  int  // a directory stands where this file goes, -1
	NoDir  bool
	Full   bool // the file that fails stands on a full device
	Opts   buildCase
}

type recCreator struct {
	n, fail int
	log     []string
	files   []*recFile
}

type recFile struct {
	c    *recCreator
	name string
	b    bytes.Buffer
	done bool
}

func (c *recCreator) op() bool { c.n++; return c.n-1 == c.fail }

func (c *recCreator) Create(p string) (io.WriteCloser, error) {
	if c.op() {
		c.log = append(c.log, "create fails "+p)
		return nil, errors.New("create failed")
	}
	f := &recFile{c: c, name: p}
	c.files = append(c.files, f)
	c.log = append(c.log, "create "+p)
	return f, nil
}
func (c *recCreator) Reset() {}
func (f *recFile) Write(b []byte) (int, error) {
	if f.c.op() {
		f.c.log = append(f.c.log, "write fails "+f.name)
		return 0, errors.New("write failed")
	}
	if f.done {
		f.c.log = append(f.c.log, "write after close "+f.name)
	}
	return f.b.Write(b)
}
func (f *recFile) Close() error {
	f.done = true
	if f.c.op() {
		f.c.log = append(f.c.log, "close fails "+f.name)
		return errors.New("close failed")
	}
	f.c.log = append(f.c.log, "close "+f.name)
	return nil
}

func genOut(r *rand.Rand, size int) interface{} {
	c := outCase{Fail: -1, Block: -1, Disk: r.Intn(2) == 0, Before: r.Intn(3) == 0, NoDir: r.Intn(4) == 0}
	c.Opts = genBuild(r, 4).(buildCase)
	n := r.Intn(4)
	perm := r.Perm(6)
	for i := 0; i < n; i++ {
		b := c.Opts
		b.Nodes = genNodes(r, 2, r.Intn(4), nil)
		if r.Intn(3) == 0 {
			s := []string{"  ", "x \n\t ", "\u2003"}[r.Intn(3)]
			b.Nodes = append(b.Nodes, &node{D: "#", L: 9, C: &s})
		}
		if r.Intn(6) == 0 {
			b.Nodes = nil
		}
		c.Confs = append(c.Confs, b)
		c.Names = append(c.Names, []string{"a.conf", "d/b.conf", "d/e/c.conf", "ABS/x.conf", "./f.conf", "ABS/q/y.conf"}[perm[i]])
	}
	if n > 0 && r.Intn(3) == 0 {
		c.Fail = r.Intn(4 * n)
		c.Block = r.Intn(n)
		c.Full = r.Intn(2) == 0
	}
	return c
}

var outN int

func outCheck(data []byte) error {
	var c outCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	outN++
	dir := filepath.Join(scratch, fmt.Sprint("out", outN))
	defer os.RemoveAll(dir)
	abs := filepath.Join(dir, "abs")
	target := filepath.Join(dir, "t")
	p := crossplane.Payload{}
	var texts, paths []string
	for i, b := range c.Confs {
		name := strings.Replace(c.Names[i], "ABS", abs, 1)
		conf := crossplane.Config{File: name, Parsed: toDirs(b.Nodes)}
		p.Config = append(p.Config, conf)
		var w bytes.Buffer
		if err := crossplane.Build(&w, conf, c.Opts.options()); err != nil {
			return fmt.Errorf("build: %v", err)
		}
		texts = append(texts, w.String())
		if !filepath.IsAbs(name) {
			name = filepath.Join(target, name)
		}
		paths = append(paths, name)
	}
	if !c.Disk {
		// strings
		sc := &crossplane.StringsCreator{}
		if err := crossplane.BuildInto(&p, sc, c.Opts.options()); err != nil {
			return fmt.Errorf("BuildInto: %v", err)
		}
		if len(sc.Files) != len(texts) {
			return fmt.Errorf("%d strings, want %d", len(sc.Files), len(texts))
		}
		for i, f := range sc.Files {
			if f.Name != p.Config[i].File || f.String() != texts[i]+"\n" {
				return fmt.Errorf("string %d: %s %q, want %s %q", i, f.Name, f.String(), p.Config[i].File, texts[i]+"\n")
			}
		}
		// any creator, failing or not
		rc := &recCreator{fail: c.Fail}
		err := crossplane.BuildInto(&p, rc, c.Opts.options())
		var log []string
		k, failed := 0, false
		op := func() bool { k++; return k-1 == c.Fail }
		for i := range p.Config {
			f := p.Config[i].File
			if op() {
				log, failed = append(log, "create fails "+f), true
				break
			}
			log = append(log, "create "+f)
			if c.Opts.Header && op() {
				log, failed = append(log, "write fails "+f), true
				break
			}
			if op() {
				log, failed = append(log, "write fails "+f), true
				break
			}
			if op() {
				log, failed = append(log, "close fails "+f), true
				break
			}
			log = append(log, "close "+f)
		}
		if failed != (err != nil) {
			return fmt.Errorf("error %v although failed = %v, log %v", err, failed, rc.log)
		}
		// after a failure the file that failed may still be closed
		g := rc.log
		if failed && len(g) > len(log) {
			for _, s := range g[len(log):] {
				if !strings.HasPrefix(s, "close") {
					return fmt.Errorf("%q after the failure: %v", s, rc.log)
				}
			}
			g = g[:len(log)]
		}
		if !failed || k > 0 {
			if fmt.Sprint(g) != fmt.Sprint(log) {
				return fmt.Errorf("operations %v, want %v", rc.log, log)
			}
		}
		if !failed {
			for i, f := range rc.files {
				if f.b.String() != texts[i] {
					return fmt.Errorf("file %d got %q, want %q", i, f.b.String(), texts[i])
				}
			}
		}
		return nil
	}
	for _, d := range []string{target, abs} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return nil
		}
	}
	blocked := -1
	for i, f := range paths {
		if c.Before {
			_ = os.MkdirAll(filepath.Dir(f), 0o755)
			_ = os.WriteFile(f, bytes.Repeat([]byte("old"), 2000), 0o644)
		}
		if c.Block == i {
			_ = os.RemoveAll(f)
			if _, err := os.Stat("/dev/full"); c.Full && err == nil {
				_ = os.MkdirAll(filepath.Dir(f), 0o755)
				_ = os.Symlink("/dev/full", f)
			} else {
				_ = os.MkdirAll(f, 0o755)
			}
			blocked = i
		}
	}
	var err error
	if c.NoDir {
		wd, _ := os.Getwd()
		if e := os.Chdir(target); e != nil {
			return nil
		}
		err = crossplane.BuildFiles(p, "", c.Opts.options())
		_ = os.Chdir(wd)
	} else {
		err = crossplane.BuildFiles(p, target, c.Opts.options())
	}
	if (err != nil) != (blocked >= 0) {
		return fmt.Errorf("BuildFiles error %v, blocked file %d", err, blocked)
	}
	wantFiles := map[string]string{}
	for i, f := range paths {
		switch {
		case blocked < 0 || i < blocked:
			wantFiles[f] = strings.TrimRightFunc(texts[i], unicode.IsSpace) + "\n"
		case i > blocked && c.Before:
			wantFiles[f] = strings.Repeat("old", 2000)
		}
	}
	gotFiles := map[string]string{}
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			gotFiles[p] = string(b)
		}
		return nil
	})
	var ks []string
	for k := range wantFiles {
		ks = append(ks, k)
	}
	for k := range gotFiles {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if gotFiles[k] != wantFiles[k] {
			return fmt.Errorf("file %s holds %q, want %q", strings.TrimPrefix(k, dir), gotFiles[k], wantFiles[k])
		}
	}
	return nil
}

func init() {
	props["C15"] = &prop{check: eqCheck, gen: func(r *rand.Rand, size int) interface{} {
		a := genNode(r, 3, []int{0, 1, 2})
		b := clone(a)
		if r.Intn(6) > 0 {
			perturb(r, b)
		}
		z := clone(b)
		if r.Intn(2) == 0 {
			perturb(r, z)
		}
		if r.Intn(30) == 0 {
			z = nil
		}
		return eqCase{a, b, z}
	}}
	props["C11"] = &prop{check: combCheck, gen: genComb}
	props["C12"] = &prop{check: buildCheck, gen: genBuild}
	props["C13"] = &prop{check: quoteCheck, gen: genQuote, fixed: func() []interface{} {
		al := []string{"{", "}", ";", "#", "\"", "'", "$", "a", " ", "(", "é"}
		cs := []interface{}{quoteCase{""}}
		for _, a := range al {
			cs = append(cs, quoteCase{a})
			for _, b := range al {
				cs = append(cs, quoteCase{a + b})
				for _, c := range al {
					cs = append(cs, quoteCase{a + b + c})
					for _, d := range al {
						cs = append(cs, quoteCase{a + b + c + d})
					}
				}
			}
		}
		return cs
	}}
	props["C16"] = &prop{check: luaCheck, gen: genLua}
	props["C17"] = &prop{check: outCheck, gen: genOut}
}
