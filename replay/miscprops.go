package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	"github.com/nginxinc/nginx-go-crossplane/internal/generator"
)

// ---- C04: one statement at a time ----

type acceptCase struct {
	Ctx    []string
	Name   string
	Args   []string
	Term   string
	Masks  [][]uint // per source; nil: unknown there
	NoSrc  bool
	Unk    bool
	NoCtx  bool
	NoArgs bool
}

func genAccept(r *rand.Rand, size int) interface{} {
	c := acceptCase{Name: "d0", Term: []string{";", ";", ";", "{", "{", "}"}[r.Intn(6)], Unk: r.Intn(4) == 0, NoCtx: r.Intn(4) == 0, NoArgs: r.Intn(4) == 0}
	ctxs := [][]string{nil, {"events"}, {"mail"}, {"mail", "server"}, {"stream"}, {"stream", "server"}, {"stream", "upstream"}, {"http"}, {"http", "server"}, {"http", "location"}, {"http", "upstream"}, {"http", "server", "if"}, {"http", "location", "if"}, {"http", "location", "limit_except"}, {"mgmt"}, {"http", "oidc_provider"}, {"foo"}, {"server"}, {"http", "server", "server"}, {"http", "if"}, {"stream", "location"}}
	c.Ctx = ctxs[r.Intn(len(ctxs))]
	if r.Intn(3) == 0 {
		c.Name = "if"
	}
	n := []int{0, 1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 19, 33}[r.Intn(17)]
	for i := 0; i < n; i++ {
		c.Args = append(c.Args, []string{"a", "on", "OFF", "On", "of", "(", ")", "(a", "b)", "(a)", "()", "", "on ", "oN", "(ab", "ab)"}[r.Intn(16)])
	}
	if r.Intn(4) == 0 && n > 0 {
		c.Args[0] = "(" + []string{"", "a", " "}[r.Intn(3)]
		c.Args[n-1] += ")"
	}
	c.NoSrc = r.Intn(5) == 0
	if c.NoSrc {
		all := defaultNames()
		c.Name = all[r.Intn(len(all))]
		if c.Name == "include" {
			c.Name = "listen"
		}
		return c
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		var ms []uint
		if r.Intn(3) > 0 {
			ms = []uint{}
			for j := r.Intn(3); j > 0; j-- {
				m := randMask(r)
				if r.Intn(2) == 0 {
					m |= refContexts[strings.Join(c.Ctx, ">")]
				}
				if r.Intn(2) == 0 { // nearly right
					m = m&^0x3f7f | 1<<uint(n&31)&0x7f
					if c.Term == "{" {
						m |= bBlock
					}
				}
				ms = append(ms, m)
			}
		}
		c.Masks = append(c.Masks, ms)
	}
	return c
}

var defNames []string

func defaultNames() []string {
	if defNames == nil {
		for _, s := range strings.Fields("listen root gzip return proxy_pass user worker_processes add_header js_import js_set otel_trace otel_exporter access_log error_log server_name location server if limit_except upstream stream http mail events map geo types split_clients ssl_certificate try_files rewrite set proxy_set_header zone keepalive state health_check match status_zone auth_jwt mgmt usage_report license_token nosuch_directive js_content js_access otel_service_name log_format resolver deny allow auth_basic expires internal") {
			defNames = append(defNames, s)
		}
	}
	return defNames
}

func quoteArg(s string) string { return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"` }

func acceptCheck(data []byte) error {
	var c acceptCase
	if err := json.Unmarshal(data, &c); err != nil || c.Name == "" {
		return nil
	}
	var b strings.Builder
	for _, x := range c.Ctx {
		b.WriteString(x + " {\n")
	}
	if len(c.Ctx) == 0 && c.Term == "}" {
		return nil
	}
	b.WriteString(c.Name)
	for _, a := range c.Args {
		b.WriteString(" " + quoteArg(a))
	}
	n := len(c.Ctx)
	switch c.Term {
	case "{":
		b.WriteString(" { }\n")
	case "}":
		b.WriteString(" }\n")
		n--
	default:
		b.WriteString(";\n")
	}
	b.WriteString(strings.Repeat("}\n", n))
	text := b.String()
	o := &crossplane.ParseOptions{ErrorOnUnknownDirectives: c.Unk, SkipDirectiveContextCheck: c.NoCtx, SkipDirectiveArgsCheck: c.NoArgs, SingleFile: true,
		Open: func(string) (io.ReadCloser, error) { return nopCloser{strings.NewReader(text)}, nil }}
	ro := refOpts{unknown: c.Unk, noCtx: c.NoCtx, noArgs: c.NoArgs}
	outer := map[string]bool{}
	for _, x := range c.Ctx {
		outer[x] = true
	}
	if outer[c.Name] {
		return nil
	}
	if !c.NoSrc {
		for i, ms := range c.Masks {
			ms, first := ms, i == 0
			f := func(d string) ([]uint, bool) {
				if d == c.Name {
					return ms, ms != nil
				}
				if first && outer[d] {
					return []uint{0x1fffe0000 | bBlock | bAny}, true
				}
				return nil, false
			}
			o.DirectiveSources = append(o.DirectiveSources, f)
			ro.sources = append(ro.sources, f)
		}
	} else {
		// the enclosing blocks must pass: use them where they are allowed
		for i, x := range c.Ctx {
			if !refAccept(ro, x, nil, "{", c.Ctx[:i]) {
				return nil
			}
		}
	}
	if len(c.Ctx) > 0 {
		if _, m := refMaps[c.Ctx[len(c.Ctx)-1]]; m {
			return nil
		}
	}
	p, err := crossplane.Parse("x", o)
	if err != nil {
		return fmt.Errorf("unexpected error %v", err)
	}
	got := len(p.Errors) == 0
	if want := refAccept(ro, c.Name, c.Args, c.Term, c.Ctx); got != want {
		return fmt.Errorf("accepted: %v, want %v: %s\n%+v\n%v", got, want, text, c, p.Errors)
	}
	ds := p.Config[0].Parsed
	for range c.Ctx {
		if len(ds) != 1 {
			return fmt.Errorf("the enclosing block is missing: %s", text)
		}
		ds = ds[0].Block
	}
	if (len(ds) == 1) != got {
		return fmt.Errorf("accepted: %v, but %d statements are returned: %s", got, len(ds), text)
	}
	m, ok := crossplane.DefaultDirectivesMatchFunc(c.Name)
	rm, rok := refDefault(c.Name)
	if ok != rok || fmt.Sprint(m) != fmt.Sprint(rm) {
		return fmt.Errorf("default rules of %q: %v, want %v", c.Name, m, rm)
	}
	return nil
}

// ---- C19 ----

type ifCase struct{ Args []string }

func ifCheck(data []byte) error {
	var c ifCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	var b strings.Builder
	b.WriteString("if")
	for _, a := range c.Args {
		b.WriteString(" " + quoteArg(a))
	}
	b.WriteString(" { }")
	p, err := crossplane.Parse("x", &crossplane.ParseOptions{SkipDirectiveArgsCheck: true, SkipDirectiveContextCheck: true,
		Open: func(string) (io.ReadCloser, error) { return nopCloser{strings.NewReader(b.String())}, nil }})
	if err != nil || len(p.Config) != 1 || len(p.Config[0].Parsed) != 1 {
		return fmt.Errorf("%s: %v", b.String(), err)
	}
	got := p.Config[0].Parsed[0].Args
	if want := refIf(c.Args); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Errorf("if with %q: got %q, want %q", c.Args, got, want)
	}
	return nil
}

// ---- C14: anything goes ----

type panicCase struct {
	Kind  string
	Text  []byte
	Parse *parseCase
	Build *buildCase
	Comb  *combCase
	Nodes []*node
}

func genPanic(r *rand.Rand, size int) interface{} {
	switch r.Intn(6) {
	case 0:
		return panicCase{Kind: "lex", Text: genText(r, size)}
	case 1:
		p := genParse("C14")(r, size).(parseCase)
		p.Files[0].Text = genText(r, size)
		p.Comb = r.Intn(2) == 0
		return panicCase{Kind: "parse", Parse: &p}
	case 2:
		p := genParse("C14")(r, size).(parseCase)
		p.Comb = r.Intn(2) == 0
		return panicCase{Kind: "parse", Parse: &p}
	case 3:
		b := genBuild(r, size).(buildCase)
		wild(r, b.Nodes)
		b.Indent = r.Intn(200)
		return panicCase{Kind: "build", Build: &b}
	case 4:
		c := genComb(r, size).(combCase)
		return panicCase{Kind: "combine", Comb: &c}
	default:
		ns := genNodes(r, 3, 2, []int{0, -1, 5})
		wild(r, ns)
		return panicCase{Kind: "tree", Nodes: ns, Text: genSoup(r, size)}
	}
}

// wild gives directives odd names and arguments.
func wild(r *rand.Rand, ns []*node) {
	for _, n := range ns {
		if r.Intn(3) == 0 {
			n.D = string(genSoup(r, 3))
		}
		for i := range n.A {
			if r.Intn(2) == 0 {
				n.A[i] = string(genSoup(r, 4))
			}
		}
		n.L = r.Intn(5) - 2
		wild(r, n.B)
	}
}

func panicCheck(data []byte) error {
	var c panicCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	switch c.Kind {
	case "lex":
		if _, ok := lexAll(crossplane.Lex(bytes.NewReader(c.Text))); !ok {
			return errors.New("lexing does not end")
		}
		lua := &crossplane.Lua{}
		if _, ok := lexAll(crossplane.LexWithOptions(bytes.NewReader(c.Text), crossplane.LexOptions{Lexers: []crossplane.RegisterLexer{lua.RegisterLexer()}})); !ok {
			return errors.New("lexing does not end")
		}
	case "parse":
		r := c.Parse.run()
		if r.p != nil {
			for _, e := range r.p.Errors {
				_ = e.Error.Error()
			}
			_, _ = json.Marshal(r.p)
			for _, cf := range r.p.Config {
				_ = crossplane.Build(io.Discard, cf, &crossplane.BuildOptions{})
			}
			if !c.Parse.Comb {
				_, _ = r.p.Combined()
			}
		} else if r.err != nil {
			_ = r.err.Error()
		}
	case "build":
		_ = crossplane.Build(io.Discard, crossplane.Config{Parsed: toDirs(c.Build.Nodes)}, c.Build.options())
	case "combine":
		_, err := combPayload(c.Comb).Combined()
		if err != nil {
			_ = err.Error()
		}
	case "tree":
		ds := toDirs(c.Nodes)
		for _, d := range ds {
			_ = d.String()
			_ = d.Equal(ds[0])
			_ = d.Equal(nil)
			_, _, _ = d.IsBlock(), d.IsComment(), d.IsInclude()
		}
		_ = crossplane.Enquote(string(c.Text))
		_, _ = crossplane.DefaultDirectivesMatchFunc(string(c.Text))
		lua := &crossplane.Lua{}
		for _, n := range luaNames {
			for k := 0; k < 3; k++ {
				_ = lua.Build(&crossplane.Directive{Directive: n, Args: make([]string, k)})
			}
		}
	}
	return nil
}

// ---- C21 ----

type extPiece struct {
	Name  string // statement name
	Pay   string // what follows the name
	Quote bool
	Toks  int // tokens the external lexer makes
}

type extCase struct {
	Regs   [][]string // registrations in order
	Pieces []extPiece
	Build  *buildCase
}

// payLexer reads up to and including '@' and emits tokens that tell who it is.
type payLexer struct {
	id   int
	toks int
	seen *[]string
}

func (l *payLexer) Lex(s *crossplane.SubScanner, name string) <-chan crossplane.NgxToken {
	ch := make(chan crossplane.NgxToken)
	go func() {
		defer close(ch)
		text := ""
		for s.Scan() {
			if s.Text() == "@" {
				break
			}
			text += s.Text()
		}
		for i := 0; i < len(text)%4; i++ {
			ch <- crossplane.NgxToken{Value: fmt.Sprintf("%d/%s/%d", l.id, name, i), Line: s.Line(), IsQuoted: i%2 == 0}
		}
		if len(text)%3 == 1 { // nothing at all, an error and a comment are passed on, too
			ch <- crossplane.NgxToken{}
			ch <- crossplane.NgxToken{Error: errors.New("lexer"), Line: 7}
			ch <- crossplane.NgxToken{Value: "#c", Line: -1}
		}
		ch <- crossplane.NgxToken{Value: text, Line: s.Line(), IsQuoted: true}
		if len(text)%5 != 2 {
			ch <- crossplane.NgxToken{Value: ";", Line: s.Line()}
		}
	}()
	return ch
}

func genExt(r *rand.Rand, size int) interface{} {
	c := extCase{}
	names := []string{"ext", "extra", "ex", "lua", "q", "foo_block"}
	for i := r.Intn(4); i > 0; i-- {
		var ns []string
		for j := r.Intn(3); j > 0; j-- {
			ns = append(ns, names[r.Intn(len(names))])
		}
		c.Regs = append(c.Regs, ns)
	}
	for i := r.Intn(2 + size/5); i > 0; i-- {
		p := extPiece{Name: names[r.Intn(len(names))], Quote: r.Intn(6) == 0}
		if r.Intn(5) == 0 {
			p.Name += []string{"x", "_", "b"}[r.Intn(3)]
		}
		for j := r.Intn(6); j > 0; j-- {
			p.Pay += []string{"a", " ", "\n", "{", "}", ";", "\"", "#", "\\", "é", "'", "\r"}[r.Intn(12)]
		}
		c.Pieces = append(c.Pieces, p)
	}
	b := genBuild(r, size/2).(buildCase)
	c.Build = &b
	return c
}

func extCheck(data []byte) error {
	var c extCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	who := map[string]int{}
	var regs []crossplane.RegisterLexer
	for i, ns := range c.Regs {
		for _, n := range ns {
			who[n] = i
		}
		regs = append(regs, crossplane.LexWithLexer(&payLexer{id: i}, ns...))
	}
	var text strings.Builder
	var want []tok
	line := 1
	add := func(s string) {
		text.WriteString(s)
		line += strings.Count(s, "\n")
	}
	for _, p := range c.Pieces {
		start := line
		if p.Quote {
			add(`"` + p.Name + `"`)
		} else {
			add(p.Name)
		}
		want = append(want, tok{Val: p.Name, Line: start, Quoted: p.Quote})
		id, ok := who[p.Name]
		if !ok {
			add(" arg;\n")
			want = append(want, tok{Val: "arg", Line: start}, tok{Val: ";", Line: start})
			continue
		}
		if !p.Quote {
			add(" ")
		}
		add(p.Pay)
		add("@")
		pay := p.Pay
		for i := 0; i < len(pay)%4; i++ {
			want = append(want, tok{Val: fmt.Sprintf("%d/%s/%d", id, p.Name, i), Line: line, Quoted: i%2 == 0})
		}
		if len(pay)%3 == 1 {
			want = append(want, tok{}, tok{Err: true, Line: 7}, tok{Val: "#c", Line: -1})
		}
		want = append(want, tok{Val: pay, Line: line, Quoted: true})
		if len(pay)%5 != 2 {
			want = append(want, tok{Val: ";", Line: line})
		}
		start = line
		add("next\nz;\n")
		want = append(want, tok{Val: "next", Line: start}, tok{Val: "z", Line: start + 1}, tok{Val: ";", Line: start + 1})
	}
	toks, closed := lexAll(crossplane.LexWithOptions(strings.NewReader(text.String()), crossplane.LexOptions{Lexers: regs}))
	if !closed || fmt.Sprint(toks) != fmt.Sprint(want) {
		return fmt.Errorf("registered %v, text %q\n got %s\nwant %s", c.Regs, text.String(), showToks(toks), showToks(want))
	}
	if c.Build != nil {
		var b bytes.Buffer
		if err := crossplane.Build(&b, crossplane.Config{Parsed: toDirs(c.Build.Nodes)}, c.Build.options()); err != nil {
			return err
		}
		if g, w := b.String(), c.Build.want(); g != w {
			return fmt.Errorf("built\n%q\nwant\n%q", g, w)
		}
	}
	return nil
}

// ---- C20 ----

type genDef struct {
	Name  string
	Masks []string
}

type genFile struct {
	Path string
	Defs [][]genDef // arrays
	Kind int        // 0 plain, 1 dangling link, 2 directory with such a name
	Seed int64      // for the layout
}

type genCase struct {
	Files    []genFile
	Filter   []string
	Override map[string][]generator.Mask
	UseOv    bool
	Single   bool
}

var refMaskNames = map[string]string{
	"NGX_MAIL_MAIN_CONF": "ngxMailMainConf", "NGX_STREAM_MAIN_CONF": "ngxStreamMainConf", "NGX_CONF_TAKE1": "ngxConfTake1",
	"NGX_STREAM_UPS_CONF": "ngxStreamUpsConf", "NGX_HTTP_LIF_CONF": "ngxHTTPLifConf", "NGX_CONF_TAKE2": "ngxConfTake2",
	"NGX_HTTP_UPS_CONF": "ngxHTTPUpsConf", "NGX_CONF_TAKE23": "ngxConfTake23", "NGX_CONF_TAKE12": "ngxConfTake12",
	"NGX_HTTP_MAIN_CONF": "ngxHTTPMainConf", "NGX_HTTP_LMT_CONF": "ngxHTTPLmtConf", "NGX_CONF_TAKE1234": "ngxConfTake1234",
	"NGX_MAIL_SRV_CONF": "ngxMailSrvConf", "NGX_CONF_FLAG": "ngxConfFlag", "NGX_HTTP_SRV_CONF": "ngxHTTPSrvConf",
	"NGX_CONF_1MORE": "ngxConf1More", "NGX_ANY_CONF": "ngxAnyConf", "NGX_CONF_TAKE123": "ngxConfTake123", "NGX_MAIN_CONF": "ngxMainConf",
	"NGX_CONF_NOARGS": "ngxConfNoArgs", "NGX_CONF_2MORE": "ngxConf2More", "NGX_CONF_TAKE3": "ngxConfTake3", "NGX_HTTP_SIF_CONF": "ngxHTTPSifConf",
	"NGX_EVENT_CONF": "ngxEventConf", "NGX_CONF_BLOCK": "ngxConfBlock", "NGX_HTTP_LOC_CONF": "ngxHTTPLocConf", "NGX_STREAM_SRV_CONF": "ngxStreamSrvConf",
	"NGX_DIRECT_CONF": "ngxDirectConf", "NGX_CONF_TAKE13": "ngxConfTake13", "NGX_CONF_ANY": "ngxConfAny", "NGX_CONF_TAKE4": "ngxConfTake4",
	"NGX_CONF_TAKE5": "ngxConfTake5", "NGX_CONF_TAKE6": "ngxConfTake6", "NGX_CONF_TAKE7": "ngxConfTake7",
}

func maskNames() []string {
	var ks []string
	for k := range refMaskNames {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func genName(r *rand.Rand) string {
	return []string{"dir", "dir", "dir", "dir", "Dir", "my_dir"}[r.Intn(6)] + strconv.Itoa(r.Intn(5))
}

func genGen(r *rand.Rand, size int) interface{} {
	c := genCase{Single: r.Intn(10) == 0}
	ks := maskNames()
	paths := []string{"a.c", "b.cpp", "d/c.c", "d/e/f.c", "g.h", "h.txt", "d/i.cc", "z.c",
		"tests/t.c", "test/a.cpp", ".x/h.c", "vendor/v.c", "auto/q.c", "a b/s.c", ".k.c"}
	perm := r.Perm(len(paths))
	n := r.Intn(5)
	if c.Single {
		n = 1
	}
	for i := 0; i < n; i++ {
		f := genFile{Path: paths[perm[i]], Seed: r.Int63()}
		if r.Intn(25) == 0 {
			f.Kind = 1 + r.Intn(2)
		}
		for j := r.Intn(3); j > 0; j-- {
			var defs []genDef
			for k := r.Intn(4); k > 0; k-- {
				d := genDef{Name: genName(r)}
				for l := 1 + r.Intn(3); l > 0; l-- {
					d.Masks = append(d.Masks, ks[r.Intn(len(ks))])
				}
				if r.Intn(60) == 0 {
					d.Masks = append(d.Masks, []string{"NGX_UNKNOWN", "NGX_CONF_TAKE9"}[r.Intn(2)])
				}
				defs = append(defs, d)
			}
			f.Defs = append(f.Defs, defs)
		}
		c.Files = append(c.Files, f)
	}
	for i := r.Intn(3); i > 0; i-- {
		c.Filter = append(c.Filter, genName(r))
	}
	if c.UseOv = r.Intn(2) == 0; c.UseOv {
		c.Override = map[string][]generator.Mask{}
		for i := r.Intn(3); i > 0; i-- {
			c.Override[genName(r)] = []generator.Mask{{"ngxMainConf", "ngxConfTake1"}, {"ngxAnyConf"}}[:1+r.Intn(2)]
		}
	}
	return c
}

func (f genFile) source() string {
	r := rand.New(rand.NewSource(f.Seed))
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	var b strings.Builder
	nl := pick("\n", "\r\n")
	com := func() string {
		return pick("", "", "", "/* c */", "// ngx_string(\"no\"), NGX_MAIN_CONF,"+nl, "/* see http://x.y */", "/* { ngx_string(\"dead\"),"+nl+" NGX_MAIN_CONF, } */", "// /* open"+nl, "/* a"+nl+" * b"+nl+" */")
	}
	b.WriteString("#include <ngx_config.h>" + nl + com() + nl + "static int x = 1;" + nl)
	for i, defs := range f.Defs {
		fmt.Fprintf(&b, "static ngx_command_t%scmds%d[] = {%s%s%s", pick(" ", "  ", " "+nl), i, com(), nl, nl)
		for _, d := range defs {
			b.WriteString("    { ngx_string(\"" + d.Name + "\")" + "," + nl + com() + "      ")
			for j, m := range d.Masks {
				if j > 0 {
					b.WriteString(pick("|", " | ", "|"+nl+"      "))
				}
				b.WriteString(m)
			}
			b.WriteString("," + nl + "      ngx_conf_set_flag_slot," + com() + nl + "      0," + nl + "      NULL }," + nl + nl)
		}
		b.WriteString("      ngx_null_command" + nl + "}" + pick("", " ", nl) + ";" + nl + com() + nl)
	}
	return b.String()
}

func isC(p string) bool { return strings.HasSuffix(p, ".c") || strings.HasSuffix(p, ".cpp") }

func genCheck(data []byte) error {
	var c genCase
	if err := json.Unmarshal(data, &c); err != nil {
		return nil
	}
	outN++
	dir := filepath.Join(scratch, fmt.Sprint("src", outN))
	defer os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	sort.Slice(c.Files, func(i, j int) bool { return c.Files[i].Path < c.Files[j].Path })
	want := map[string][]string{}
	bad := false
	var dump strings.Builder
	for _, f := range c.Files {
		p := filepath.Join(dir, f.Path)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		switch f.Kind {
		case 1:
			_ = os.Symlink(filepath.Join(dir, "nowhere"), p)
			bad = bad || isC(p)
			continue
		case 2:
			_ = os.MkdirAll(p, 0o755)
			continue
		}
		src := f.source()
		_ = os.WriteFile(p, []byte(src), 0o644)
		fmt.Fprintf(&dump, "--- %s\n%s\n", f.Path, src)
		if !isC(p) {
			continue
		}
		for _, defs := range f.Defs {
			for _, d := range defs {
				var ms []string
				for _, m := range d.Masks {
					g, ok := refMaskNames[m]
					bad = bad || !ok
					ms = append(ms, g)
				}
				want[d.Name] = append(want[d.Name], strings.Join(ms, " | "))
			}
		}
	}
	bad = bad || len(want) == 0
	cfg := generator.GenerateConfig{DirectiveMapName: "tab", MatchFuncName: "Match"}
	if c.Filter != nil {
		cfg.Filter = generator.Filters{}
		for _, d := range c.Filter {
			cfg.Filter[d] = struct{}{}
			delete(want, d)
		}
	}
	if c.UseOv {
		cfg.Override = c.Override
		for d, ms := range c.Override {
			if _, ok := want[d]; ok {
				want[d] = nil
				for _, m := range ms {
					want[d] = append(want[d], strings.Join(m, " | "))
				}
			}
		}
	}
	path := dir
	if c.Single && len(c.Files) == 1 && c.Files[0].Kind == 0 {
		path = filepath.Join(dir, c.Files[0].Path)
	}
	var out bytes.Buffer
	err := generator.Generate(path, &out, cfg)
	fail := func(f string, a ...interface{}) error {
		return fmt.Errorf("%s\nfilter %v override %v\n%s", fmt.Sprintf(f, a...), c.Filter, c.Override, dump.String())
	}
	if (err != nil) != bad {
		return fail("error %v, expected one: %v", err, bad)
	}
	if err != nil {
		return nil
	}
	got, err := readTable(out.Bytes())
	if err != nil {
		return fail("output: %v\n%s", err, out.String())
	}
	for d := range want {
		if fmt.Sprintf("%q", got[d]) != fmt.Sprintf("%q", want[d]) {
			return fail("masks of %s: %q, want %q", d, got[d], want[d])
		}
	}
	for d := range got {
		if _, ok := want[d]; !ok {
			return fail("unexpected directive %s", d)
		}
	}
	return nil
}

// readTable reads the generated Go table.
func readTable(src []byte) (map[string][]string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "out.go", src, 0)
	if err != nil {
		return nil, err
	}
	res := map[string][]string{}
	fn := false
	for _, d := range f.Decls {
		if x, ok := d.(*ast.FuncDecl); ok && x.Name.Name == "Match" {
			fn = true
		}
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		v, ok := g.Specs[0].(*ast.ValueSpec)
		if !ok || v.Names[0].Name != "tab" || len(v.Values) != 1 {
			return nil, errors.New("no table")
		}
		for _, e := range v.Values[0].(*ast.CompositeLit).Elts {
			kv := e.(*ast.KeyValueExpr)
			k, _ := strconv.Unquote(kv.Key.(*ast.BasicLit).Value)
			if _, dup := res[k]; dup {
				return nil, errors.New("listed twice: " + k)
			}
			res[k] = []string{}
			for _, m := range kv.Value.(*ast.CompositeLit).Elts {
				a, b := fs.Position(m.Pos()).Offset, fs.Position(m.End()).Offset
				res[k] = append(res[k], string(src[a:b]))
			}
		}
	}
	if !fn {
		return nil, errors.New("no match function")
	}
	return res, nil
}

func init() {
	props["C04"] = &prop{check: acceptCheck, gen: genAccept}
	props["C19"] = &prop{check: ifCheck, gen: func(r *rand.Rand, size int) interface{} {
		var c ifCase
		for i := r.Intn(5); i > 0; i-- {
			s := ""
			for j := r.Intn(4); j > 0; j-- {
				s += []string{"(", ")", "a", " ", "$x", "\u2003", "\t", "((", "=", "é", "\n"}[r.Intn(11)]
			}
			c.Args = append(c.Args, s)
		}
		if len(c.Args) > 0 && r.Intn(2) == 0 {
			c.Args[0] = "(" + c.Args[0]
			c.Args[len(c.Args)-1] += ")"
		}
		return c
	}, fixed: func() []interface{} {
		var cs []interface{}
		al := []string{"", "(", ")", "()", "( )", "(a", "a)", "a", " ", "( ", " )", "((", "))", "(a)", "( a", "a )"}
		for _, a := range al {
			cs = append(cs, ifCase{[]string{a}})
			for _, b := range al {
				cs = append(cs, ifCase{[]string{a, b}})
				for _, c := range al {
					cs = append(cs, ifCase{[]string{a, b, c}})
				}
			}
		}
		return cs
	}}
	props["C14"] = &prop{check: panicCheck, gen: genPanic}
	props["C21"] = &prop{check: extCheck, gen: genExt}
	props["C20"] = &prop{check: genCheck, gen: genGen}
}
