package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

// ---- validation rules, restated ----

const (
	bBlock = 0x100
	bExpr  = 0x200
	bFlag  = 0x400
	bAny   = 0x800
	b1More = 0x1000
	b2More = 0x2000
)

var refContexts = map[string]uint{
	"": 0x40000, "events": 0x80000, "mail": 0x100000, "mail>server": 0x200000,
	"stream": 0x400000, "stream>server": 0x800000, "stream>upstream": 0x1000000,
	"http": 0x2000000, "http>server": 0x4000000, "http>location": 0x8000000, "http>upstream": 0x10000000,
	"http>server>if": 0x20000000, "http>location>if": 0x40000000, "http>location>limit_except": 0x80000000,
	"mgmt": 0x20000, "http>oidc_provider": 0x100000000,
}

type mapRule struct {
	special map[string]uint
	def     uint
}

var refMaps = map[string]mapRule{
	"charset_map": {def: 2}, "geo": {map[string]uint{"ranges": 1, "proxy_recursive": 1}, 2},
	"map": {map[string]uint{"volatile": 1, "hostnames": 1}, 2}, "match": {def: b1More}, "types": {def: b1More},
	"split_clients": {def: 2}, "geoip2": {map[string]uint{"auto_reload": 2}, b1More}, "otel_exporter": {def: 2},
}

func refArgs(m uint, args []string) bool {
	n := len(args)
	if n < 8 && m>>uint(n)&1 == 1 {
		return true
	}
	if m&bFlag != 0 && n == 1 {
		if l := strings.ToLower(args[0]); l == "on" || l == "off" {
			return true
		}
	}
	return m&bAny != 0 || m&b1More != 0 && n >= 1 || m&b2More != 0 && n >= 2
}

func refExpr(args []string) bool {
	n := len(args)
	if n == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[n-1], ")") {
		return false
	}
	if n == 1 {
		return len(args[0]) > 2
	}
	return n > 2 || len(args[0]) > 1 || len(args[1]) > 1
}

type refOpts struct {
	unknown, noCtx, noArgs bool
	sources                []func(string) ([]uint, bool)
}

// refAccept decides C04.
func refAccept(o refOpts, name string, args []string, term string, ctx []string) bool {
	var masks []uint
	known := false
	for _, s := range o.sources {
		if m, ok := s(name); ok {
			masks = append(masks, m...)
			known = true
		}
	}
	if len(o.sources) == 0 {
		masks, known = refDefault(name)
	}
	if term == "}" {
		return false
	}
	if !known {
		return !o.unknown
	}
	bit, ok := refContexts[strings.Join(ctx, ">")]
	if !ok {
		return true
	}
	for _, m := range masks {
		if !o.noCtx && m&bit == 0 {
			continue
		}
		if o.noArgs {
			return true
		}
		if m&bExpr != 0 && !refExpr(args) {
			continue
		}
		if (m&bBlock != 0) != (term == "{") {
			continue
		}
		if refArgs(m, args) {
			return true
		}
	}
	return o.noCtx && o.noArgs
}

func refDefault(name string) ([]uint, bool) {
	for _, f := range []crossplane.MatchFunc{crossplane.MatchOtelLatest, crossplane.MatchNjsLatest, crossplane.MatchNginxPlusLatest} {
		if m, ok := f(name); ok {
			return m, true
		}
	}
	return nil, false
}

// ---- the reference parser: tokens to tree ----

type dir struct {
	Name  string
	Line  int
	Args  []string
	Block []*dir
	IsBlk bool
	Com   *string
	Map   bool
	Incl  []int
	File  string
}

type perr struct {
	File string
	Line int // 0: none
	Ctx  string
}

type fileCase struct {
	Name string
	Text []byte
	Fail bool // cannot be opened
}

type parseCase struct {
	Files   []fileCase // the first is the main one
	Ignore  []string
	Stop    bool
	Comb    bool
	Single  bool
	Coms    bool
	Unknown bool
	NoCtx   bool
	NoArgs  bool
	Lua     bool
	Masks   map[string][]uint // nil: default sources
	Masks2  map[string][]uint // a second source
	GlobErr bool
	GlobDup bool
}

type refConf struct {
	file string
	dirs []*dir
	errs []perr
}

type refRun struct {
	c        *parseCase
	o        refOpts
	confs    []*refConf
	queue    []qItem
	index    map[string]int
	edges    map[string][]string
	errs     []perr
	hard     bool  // Parse itself fails (a file of the queue cannot be opened)
	first    *perr // the first error found
	confDir  string
	dispatch int
}

type qItem struct {
	path string
	ctx  []string
}

type hardErr struct{ e perr }

func last(ctx []string) string {
	if len(ctx) == 0 {
		return "main"
	}
	return ctx[len(ctx)-1]
}

func (r *refRun) file(name string) *fileCase {
	for i := range r.c.Files {
		if r.c.Files[i].Name == name {
			return &r.c.Files[i]
		}
	}
	return nil
}

func refSources(c *parseCase) []func(string) ([]uint, bool) {
	var s []func(string) ([]uint, bool)
	for _, m := range []map[string][]uint{c.Masks, c.Masks2} {
		m := m
		if m != nil {
			s = append(s, func(n string) ([]uint, bool) { v, ok := m[n]; return v, ok })
		}
	}
	return s
}

func refParse(c *parseCase, lex func([]byte) []crossplane.NgxToken) *refRun {
	r := &refRun{c: c, index: map[string]int{}, edges: map[string][]string{}}
	r.o = refOpts{c.Unknown, c.NoCtx, c.NoArgs, refSources(c)}
	main := c.Files[0].Name
	r.confDir = filepath.Dir(main)
	r.queue = []qItem{{main, nil}}
	r.index[main] = 0
	for i := 0; i < len(r.queue); i++ {
		f := r.file(r.queue[i].path)
		if f == nil || f.Fail {
			r.hard = true
			return r
		}
		conf := &refConf{file: f.Name}
		r.confs = append(r.confs, conf)
		toks := lex(f.Text)
		ds, _, err := r.block(conf, toks, r.queue[i].ctx)
		if err != nil {
			r.found(conf, err.e)
		} else {
			conf.dirs = ds
		}
	}
	return r
}

func (r *refRun) found(c *refConf, e perr) {
	c.errs = append(c.errs, e)
	r.errs = append(r.errs, e)
	if r.first == nil {
		r.first = &r.errs[len(r.errs)-1]
	}
}

func word(t crossplane.NgxToken, s string) bool { return !t.IsQuoted && t.Error == nil && t.Value == s }

func tokErr(t crossplane.NgxToken, file string, ctx []string) *hardErr {
	l := t.Line
	var pe *crossplane.ParseError
	if errors.As(t.Error, &pe) {
		l = 0
		if pe.Line != nil {
			l = *pe.Line
		}
	}
	return &hardErr{perr{file, l, last(ctx)}}
}

// skip moves behind the } that closes an already opened block.
func skip(toks []crossplane.NgxToken, file string) ([]crossplane.NgxToken, *hardErr) {
	depth := 1
	for i, t := range toks {
		if t.Error != nil {
			return nil, tokErr(t, file, nil)
		}
		if word(t, "{") {
			depth++
		}
		if word(t, "}") {
			if depth--; depth == 0 {
				return toks[i+1:], nil
			}
		}
	}
	return nil, nil
}

func (r *refRun) block(conf *refConf, toks []crossplane.NgxToken, ctx []string) (out []*dir, rest []crossplane.NgxToken, herr *hardErr) {
	f := ""
	if r.c.Comb {
		f = conf.file
	}
	for len(toks) > 0 {
		t := toks[0]
		if t.Error != nil {
			return nil, nil, tokErr(t, conf.file, ctx)
		}
		if word(t, "}") {
			return out, toks[1:], nil
		}
		if !t.IsQuoted && strings.HasPrefix(t.Value, "#") {
			if r.c.Coms {
				s := t.Value[1:]
				out = append(out, &dir{Name: "#", Line: t.Line, Com: &s, File: f})
			}
			toks = toks[1:]
			continue
		}
		// collect the statement
		st := &dir{Name: t.Value, Line: t.Line, File: f}
		var coms []string
		var aerr *hardErr
		toks = toks[1:]
		term := ""
		for term == "" {
			if len(toks) == 0 {
				return nil, nil, &hardErr{perr{conf.file, st.Line, last(ctx)}}
			}
			a := toks[0]
			toks = toks[1:]
			switch {
			case a.Error != nil:
				if aerr == nil {
					aerr = tokErr(a, conf.file, ctx)
				}
			case !a.IsQuoted && (a.Value == "{" || a.Value == ";" || a.Value == "}"):
				term = a.Value
			case !a.IsQuoted && strings.HasPrefix(a.Value, "#"):
				coms = append(coms, a.Value[1:])
			default:
				st.Args = append(st.Args, a.Value)
			}
		}
		if aerr != nil {
			return nil, nil, aerr
		}
		drop := func() (end bool, e *hardErr) {
			if term == "{" {
				toks, e = skip(toks, conf.file)
			}
			return term == "}", e
		}
		if len(ctx) > 0 {
			if rule, ok := refMaps[ctx[len(ctx)-1]]; ok {
				m, sp := rule.special[st.Name]
				if !sp {
					m = rule.def
				}
				if term == ";" && refArgs(m, st.Args) {
					st.Map = true
					out = append(out, st)
					continue
				}
				r.found(conf, perr{conf.file, st.Line, last(ctx)})
				if end, e := drop(); e != nil || end {
					return out, toks, e
				}
				continue
			}
		}
		ignored := false
		for _, n := range r.c.Ignore {
			ignored = ignored || n == st.Name
		}
		if ignored {
			if end, e := drop(); e != nil || end {
				return out, toks, e
			}
			continue
		}
		if !refAccept(r.o, st.Name, st.Args, term, ctx) {
			r.found(conf, perr{conf.file, st.Line, last(ctx)})
			if end, e := drop(); e != nil || end {
				return out, toks, e
			}
			continue
		}
		if st.Name == "if" {
			st.Args = refIf(st.Args)
		}
		if st.Name == "include" && !r.c.Single {
			if e := r.include(conf, st, ctx); e != nil {
				return nil, nil, e
			}
		}
		if term == "{" {
			in := append(append([]string{}, ctx...), st.Name)
			if len(ctx) > 0 && ctx[0] == "http" && st.Name == "location" {
				in = []string{"http", "location"}
			}
			st.IsBlk = true
			st.Block, toks, herr = r.block(conf, toks, in)
			if herr != nil {
				return nil, nil, herr
			}
		}
		out = append(out, st)
		if r.c.Coms {
			for i := range coms {
				out = append(out, &dir{Name: "#", Line: st.Line, Com: &coms[i], File: f})
			}
		}
	}
	return out, nil, nil
}

func (r *refRun) include(conf *refConf, st *dir, ctx []string) *hardErr {
	if len(st.Args) == 0 {
		return &hardErr{perr{conf.file, st.Line, last(ctx)}}
	}
	pat := st.Args[0]
	if !filepath.IsAbs(pat) {
		pat = filepath.Join(r.confDir, pat)
	}
	var names []string
	if strings.ContainsAny(pat, "*?[") {
		var err error
		if names, err = caseGlob(r.c, pat); err != nil {
			return &hardErr{perr{conf.file, 0, ""}}
		}
		sort.Strings(names)
	} else if f := r.file(pat); f != nil && !f.Fail {
		names = []string{pat}
	} else {
		r.found(conf, perr{conf.file, st.Line, last(ctx)})
	}
	for _, n := range names {
		if _, ok := r.index[n]; !ok {
			r.index[n] = len(r.index)
			r.queue = append(r.queue, qItem{n, ctx})
		}
		st.Incl = append(st.Incl, r.index[n])
		r.edges[conf.file] = append(r.edges[conf.file], n)
	}
	return nil
}

// caseGlob is the Glob of the cases: unsorted matches.
func caseGlob(c *parseCase, pat string) ([]string, error) {
	if c.GlobErr {
		return nil, errors.New("glob failed")
	}
	var m []string
	for i := len(c.Files) - 1; i >= 0; i-- {
		ok, err := filepath.Match(pat, filepath.Clean(c.Files[i].Name))
		if err != nil {
			return nil, err
		}
		if ok {
			m = append(m, c.Files[i].Name)
			if c.GlobDup {
				m = append(m, c.Files[i].Name)
			}
		}
	}
	return m, nil
}

func refIf(args []string) []string {
	n := len(args)
	if n == 0 || !strings.HasPrefix(args[0], "(") || !strings.HasSuffix(args[n-1], ")") {
		return args
	}
	out := append([]string{}, args...)
	out[0] = strings.TrimLeftFunc(out[0][1:], unicode.IsSpace)
	if strings.HasSuffix(out[n-1], ")") {
		out[n-1] = strings.TrimRightFunc(out[n-1][:len(out[n-1])-1], unicode.IsSpace)
	}
	if n == 1 {
		if out[0] == "" {
			return nil
		}
		return out
	}
	if out[n-1] == "" {
		out = out[:n-1]
	}
	if out[0] == "" {
		out = out[1:]
	}
	return out
}

// cyclic decides C10.
func (r *refRun) cyclic() bool {
	reach := map[string]map[string]bool{}
	for f := range r.index {
		reach[f] = map[string]bool{}
		stack := append([]string{}, r.edges[f]...)
		for len(stack) > 0 {
			g := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if !reach[f][g] {
				reach[f][g] = true
				stack = append(stack, r.edges[g]...)
			}
		}
		if reach[f][f] {
			return true
		}
	}
	return false
}

// ---- running the real parser ----

type run struct {
	p      *crossplane.Payload
	err    error
	cbs    []error
	opened []string
}

type nopCloser struct{ io.Reader }

func (nopCloser) Close() error { return nil }

func (c *parseCase) lexOptions() crossplane.LexOptions {
	if c.Lua {
		l := &crossplane.Lua{}
		return crossplane.LexOptions{Lexers: []crossplane.RegisterLexer{l.RegisterLexer()}}
	}
	return crossplane.LexOptions{}
}

func (c *parseCase) run() *run {
	r := &run{}
	o := &crossplane.ParseOptions{
		IgnoreDirectives: c.Ignore, StopParsingOnError: c.Stop, CombineConfigs: c.Comb, SingleFile: c.Single,
		ParseComments: c.Coms, ErrorOnUnknownDirectives: c.Unknown, SkipDirectiveContextCheck: c.NoCtx,
		SkipDirectiveArgsCheck: c.NoArgs, LexOptions: c.lexOptions(),
		ErrorCallback: func(e error) interface{} { r.cbs = append(r.cbs, e); return len(r.cbs) },
		Open: func(p string) (io.ReadCloser, error) {
			for _, f := range c.Files {
				if f.Name == p && !f.Fail {
					r.opened = append(r.opened, p)
					return nopCloser{bytes.NewReader(f.Text)}, nil
				}
			}
			return nil, fmt.Errorf("open %s: no such file", p)
		},
		Glob: func(p string) ([]string, error) { return caseGlob(c, p) },
	}
	for _, s := range refSources(c) {
		o.DirectiveSources = append(o.DirectiveSources, crossplane.MatchFunc(s))
	}
	r.p, r.err = crossplane.Parse(c.Files[0].Name, o)
	return r
}

func (c *parseCase) lex(text []byte) []crossplane.NgxToken {
	var out []crossplane.NgxToken
	for t := range crossplane.LexWithOptions(bytes.NewReader(text), c.lexOptions()) {
		out = append(out, t)
	}
	return out
}

func diffDirs(path string, want []*dir, got crossplane.Directives) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		at := fmt.Sprintf("%s[%d]", path, i)
		if i >= len(got) {
			return fmt.Errorf("%s: statement %q (line %d) is missing", at, want[i].Name, want[i].Line)
		}
		if i >= len(want) {
			return fmt.Errorf("%s: unexpected statement %q (line %d)", at, got[i].Directive, got[i].Line)
		}
		w, g := want[i], got[i]
		switch {
		case w.Name != g.Directive || w.Line != g.Line || w.File != g.File:
			return fmt.Errorf("%s: got %q line %d file %q, want %q line %d file %q", at, g.Directive, g.Line, g.File, w.Name, w.Line, w.File)
		case fmt.Sprintf("%q", w.Args) != fmt.Sprintf("%q", g.Args):
			return fmt.Errorf("%s %s: got args %q, want %q", at, w.Name, g.Args, w.Args)
		case w.IsBlk != (g.Block != nil):
			return fmt.Errorf("%s %s: block %v, want %v", at, w.Name, g.Block != nil, w.IsBlk)
		case (w.Com == nil) != (g.Comment == nil) || w.Com != nil && *w.Com != *g.Comment:
			return fmt.Errorf("%s %s: wrong comment", at, w.Name)
		case w.Map != g.IsMapBlockParameter:
			return fmt.Errorf("%s %s: map parameter %v, want %v", at, w.Name, g.IsMapBlockParameter, w.Map)
		case fmt.Sprint(w.Incl) != fmt.Sprint(g.Includes):
			return fmt.Errorf("%s %s: includes %v, want %v", at, w.Name, g.Includes, w.Incl)
		}
		if err := diffDirs(at+"."+w.Name, w.Block, g.Block); err != nil {
			return err
		}
	}
	return nil
}

func errOf(e error, file string) perr {
	p := perr{File: file}
	var pe *crossplane.ParseError
	if errors.As(e, &pe) {
		p.Ctx = pe.BlockCtx
		if pe.Line != nil {
			p.Line = *pe.Line
		}
		if pe.File != nil {
			p.File = *pe.File
		}
	}
	return p
}

// consistent is the part of C08 that needs no reference.
func consistent(r *run) error {
	p := r.p
	if (p.Status == "failed") != (len(p.Errors) > 0) || p.Status != "ok" && p.Status != "failed" {
		return fmt.Errorf("status %q with %d errors", p.Status, len(p.Errors))
	}
	if len(r.cbs) != len(p.Errors) {
		return fmt.Errorf("%d callbacks for %d errors", len(r.cbs), len(p.Errors))
	}
	for i, e := range p.Errors {
		if e.Error != r.cbs[i] || e.Callback != i+1 {
			return fmt.Errorf("callback %d was not given the error", i)
		}
	}
	i := 0
	for _, c := range p.Config {
		if (c.Status == "failed") != (len(c.Errors) > 0) || c.Status != "ok" && c.Status != "failed" {
			return fmt.Errorf("config %s: status %q with %d errors", c.File, c.Status, len(c.Errors))
		}
		for _, e := range c.Errors {
			if i >= len(p.Errors) || p.Errors[i].Error != e.Error || p.Errors[i].File != c.File || !eqInt(p.Errors[i].Line, e.Line) {
				return fmt.Errorf("error %d of %s is not in the payload's list at its place", i, c.File)
			}
			if pe, ok := e.Error.(*crossplane.ParseError); ok && !eqInt(pe.Line, e.Line) {
				return fmt.Errorf("error %d of %s carries another line than its error", i, c.File)
			}
			i++
		}
	}
	if i != len(p.Errors) {
		return fmt.Errorf("%d errors in the payload, %d in its files", len(p.Errors), i)
	}
	return nil
}

func eqInt(a, b *int) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

// parseCheck compares the real parser with the reference.
func parseCheck(what string) func([]byte) error {
	return func(data []byte) error {
		var c parseCase
		if err := json.Unmarshal(data, &c); err != nil || len(c.Files) == 0 {
			return nil
		}
		comb := c.Comb
		if what != "C11" {
			c.Comb = false
		}
		_ = comb
		got := c.run()
		want := refParse(&c, c.lex)
		fail := func(f string, a ...interface{}) error {
			var b strings.Builder
			for _, x := range c.Files {
				fmt.Fprintf(&b, "--- %s (unreadable: %v)\n%s\n", x.Name, x.Fail, x.Text)
			}
			o := c
			o.Files = nil
			return fmt.Errorf("%s\noptions %s\n%s", fmt.Sprintf(f, a...), encode(o), b.String())
		}
		stopped := c.Stop && want.first != nil
		switch {
		case stopped:
			if what == "C10" {
				return nil
			}
			if got.p != nil || got.err == nil {
				return fail("asked to stop on the first error, but a payload is returned")
			}
			if e := errOf(got.err, want.first.File); e != *want.first && want.first.Line != 0 {
				return fail("stopped with %+v (%v), the first error is %+v", e, got.err, *want.first)
			}
			if len(got.cbs) != 0 {
				return fail("callback although stopped")
			}
			return nil
		case want.hard:
			if got.err == nil {
				return fail("a file that cannot be opened is not reported")
			}
			return nil
		}
		if want.cyclic() {
			if got.err == nil || !strings.Contains(got.err.Error(), "include cycle") {
				return fail("the include cycle is not reported: %v", got.err)
			}
			return nil
		}
		if got.err != nil {
			return fail("unexpected error %v", got.err)
		}
		if what == "C10" {
			return nil
		}
		if err := consistent(got); err != nil {
			return fail("%v", err)
		}
		if len(got.p.Config) != len(want.confs) {
			return fail("%d configs, want %d", len(got.p.Config), len(want.confs))
		}
		for i, w := range want.confs {
			if g := got.p.Config[i]; g.File != w.file {
				return fail("config %d is %s, want %s", i, g.File, w.file)
			}
		}
		for i, w := range want.confs {
			var ge []perr
			for _, e := range got.p.Config[i].Errors {
				x := errOf(e.Error, w.file)
				ge = append(ge, x)
			}
			if fmt.Sprint(ge) != fmt.Sprint(w.errs) {
				return fail("errors of %s: got %v, want %v", w.file, ge, w.errs)
			}
			if err := diffDirs(w.file, w.dirs, got.p.Config[i].Parsed); err != nil {
				return fail("%v", err)
			}
		}
		return nil
	}
}
