package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

type pgen struct {
	r     *rand.Rand
	b     *bytes.Buffer
	names []string // directives that appear
	files []string
	what  string
	lua   bool
}

func (g *pgen) pick(s ...string) string { return s[g.r.Intn(len(s))] }

var ctxNames = []string{"http", "server", "location", "if", "limit_except", "upstream", "stream", "mail", "events", "mgmt", "oidc_provider"}
var mapNames = []string{"map", "geo", "types", "match", "split_clients", "charset_map", "geoip2", "otel_exporter"}

func (g *pgen) ws() string {
	return g.pick(" ", " ", " ", " ", "\n", "  ", "\t", " # note\n", " #x\n  #y\n")
}

func (g *pgen) arg() string {
	if g.what == "round" {
		return g.pick("a", "b", "on", "1", "\"q s\"", "'it;s'", "\"\"", "${v}", "$x", "\"{\"", "';'", "\"}\"", "\"#c\"", "/p", "x#y", "(a", "b)", "(", ")", "(a)", "()", "\"( a\"", "'b )'",
			"'include'", "default", "\"}x\"", "a}", "a$", "$", "\"a{b\"", "é", "'ü x'", "\"it's\"", "'say \"x\"'", "x\"y", "~*", "\"x)\"", "'(x y)'", "\" \"", "\" lead\"", "'trail '", "a'b", "\"${\"", "${a b}", "if", "'#'", "\u00a0")
	}
	return g.pick("a", "b", "on", "OFF", "off", "1", "\"q s\"", "'it;s'", "\"\"", "${v}", "$x", "\"{\"", "';'", "\"}\"", "\"#c\"", "/p", "x#y", "(a", "b)", "(", ")", "(a)", "()", "\"( a\"", "'b )'", "\"\n\"", "'include'", "default")
}

func (g *pgen) args(n int) {
	for i := 0; i < n; i++ {
		g.b.WriteString(g.ws())
		g.b.WriteString(g.arg())
	}
}

// stmt writes one statement and its block.
func (g *pgen) stmt(depth int, inMap bool) {
	r := g.r
	if r.Intn(12) == 0 {
		g.b.WriteString("#" + g.pick("", " note", " } ; {", "#", " tail  ", "  ") + "\n")
	}
	if g.what != "round" && r.Intn(40) == 0 { // broken statements
		g.b.WriteString(g.pick("}", "{", ";", "a ", "\"", "b }", "x {", "'"))
		return
	}
	if inMap {
		g.b.WriteString(g.pick("a", "default", "volatile", "hostnames", "ranges", "proxy_recursive", "auto_reload", "include", "'if'", "text/html", "\"\"", "'#q'", "server", "d0", "d1"))
		if g.what == "round" {
			g.args([]int{1, 1, 1, 1, 1, 1, 1, 1, 0, 2}[r.Intn(10)])
			g.b.WriteString(";")
			return
		}
		g.args([]int{1, 1, 1, 0, 2, 3}[r.Intn(6)])
		if r.Intn(12) == 0 {
			if r.Intn(3) > 0 {
				g.b.WriteString(" {")
				g.stmt(depth-1, true)
				g.b.WriteString("}")
			}
			return
		}
		g.b.WriteString(";")
		return
	}
	if g.lua && r.Intn(6) == 0 {
		g.b.WriteString(g.pick("content_by_lua_block { a = {1} }", "content_by_lua_block foo;", "set_by_lua_block $v { return \"}\" }", "set_by_lua_block $v x;",
			"rewrite_by_lua_block\n{ x }", "content_by_lua_block", "content_by_lua_block {", "'content_by_lua_block' { y }", "content_by_lua_block x {", "a content_by_lua_block;"))
		return
	}
	k := r.Intn(20)
	switch {
	case k < 2 && len(g.files) > 0 || g.what == "inc" && k < 10 && len(g.files) > 0:
		g.b.WriteString(g.pick("include", "include", "include", "include", "'include'"))
		g.b.WriteString(" " + g.files[r.Intn(len(g.files))])
		g.b.WriteString(g.pick(";", ";", ";", ";", ";", ";", ";", ";", ";", " x;", " {}"))
		return
	case (k < 4 || g.what == "map" && k < 12) && depth > 0:
		g.b.WriteString(g.pick(mapNames...))
		g.args([]int{2, 2, 1, 0, 3}[r.Intn(5)])
		g.b.WriteString(" {\n")
		for i := r.Intn(5); i > 0; i-- {
			g.stmt(depth-1, true)
			g.b.WriteString(g.pick("\n", " ", ""))
		}
		g.b.WriteString("}")
		return
	case k < 6:
		g.b.WriteString("if")
		switch r.Intn(3) {
		case 0:
			g.b.WriteString(g.pick(" ($a)", " ($a = b)", " ( $a )", " ()", " (", " ($a ~ \"x )\")", " \"( a\" ')'", " (\"\" a)"))
		default:
			g.args(r.Intn(4))
		}
	case k < 13:
		if depth > 0 && r.Intn(3) > 0 {
			g.b.WriteString(g.pick(ctxNames...))
			g.args([]int{0, 0, 0, 1, 2}[r.Intn(5)])
			g.block(depth)
			return
		}
		g.b.WriteString(g.names[r.Intn(len(g.names))])
		g.args(r.Intn(4))
	default:
		g.b.WriteString(g.names[r.Intn(len(g.names))])
		g.args([]int{0, 1, 1, 2, 2, 3, 4, 7, 8, 9}[r.Intn(10)])
	}
	switch {
	case r.Intn(5) == 0 && depth > 0:
		g.block(depth)
	case r.Intn(30) == 0 && g.what != "round":
	default:
		g.b.WriteString(g.pick(";", ";", ";", "\n;", " ;"))
	}
}

func (g *pgen) block(depth int) {
	g.b.WriteString(g.pick(" {", "{", "\n{\n", " {\n"))
	for i := g.r.Intn(5); i > 0; i-- {
		g.stmt(depth-1, false)
		g.b.WriteString(g.pick("\n", " ", "", " # c\n"))
	}
	g.b.WriteString(g.pick("}", "}", "}", "}\n", " } # e\n"))
}

var someNames = []string{"d0", "d1", "d2", "d3", "unknown", "'quo ted'", "listen", "root", "gzip", "return", "proxy_pass", "user", "worker_processes", "add_header", "js_import", "otel_trace", "access_log", "'x is not terminated by \";'", "'#'"}

func randMask(r *rand.Rand) uint {
	var m uint
	switch r.Intn(3) {
	case 0: // loose
		m = 0x1fffe0000 | []uint{bAny, bAny, b1More, b2More, 0xf, bFlag, bFlag | 1}[r.Intn(7)]
	case 1:
		for i := 0; i < 4; i++ {
			m |= 1 << uint(17+r.Intn(16))
		}
		m |= 1 << uint(r.Intn(14))
		m |= 1 << uint(r.Intn(14))
	default:
		m = uint(r.Uint64()) & 0x1fffe3fff
	}
	if r.Intn(3) > 0 {
		m &^= bExpr
	}
	if r.Intn(2) > 0 {
		m &^= bBlock
	}
	return m
}

func genMasks(r *rand.Rand) map[string][]uint {
	m := map[string][]uint{}
	for _, n := range ctxNames {
		if r.Intn(12) > 0 {
			m[n] = []uint{0x1fffe0000 | bBlock | bAny}
			if n == "if" && r.Intn(2) == 0 {
				m[n] = []uint{0x1fffe0000 | bBlock | bExpr | b1More}
			}
			if r.Intn(3) == 0 {
				m[n] = append(m[n], 0x1fffe0000|bAny)
			}
		}
	}
	for _, n := range mapNames {
		if r.Intn(12) > 0 {
			m[n] = []uint{0x1fffe0000 | bBlock | bAny}
		}
	}
	if r.Intn(8) > 0 {
		m["include"] = []uint{0x1fffe0000 | bAny}
	}
	for _, n := range []string{"d0", "d1", "d2", "d3", "quo ted", "listen"} {
		for i := r.Intn(4); i > 0; i-- {
			m[n] = append(m[n], randMask(r))
		}
		if r.Intn(9) == 0 {
			m[n] = []uint{}
		}
	}
	return m
}

func genParse(what string) func(r *rand.Rand, size int) interface{} {
	return func(r *rand.Rand, size int) interface{} {
		c := parseCase{}
		if r.Intn(4) > 0 {
			c.Masks = genMasks(r)
			if r.Intn(3) == 0 {
				c.Masks2 = genMasks(r)
			}
		}
		c.Coms = r.Intn(2) == 0
		c.NoArgs = r.Intn(4) == 0
		c.NoCtx = r.Intn(4) == 0
		c.Unknown = r.Intn(5) == 0
		c.Stop = r.Intn(6) == 0
		c.Lua = r.Intn(8) == 0
		c.Single = r.Intn(10) == 0
		if what == "C18" || r.Intn(4) == 0 {
			for i := r.Intn(4); i > 0; i-- {
				c.Ignore = append(c.Ignore, []string{"d0", "d1", "location", "server", "if", "include", "a", "quo ted", "map", "#", "default"}[r.Intn(11)])
			}
		}
		if what == "C05" {
			c.NoArgs = r.Intn(2) == 0
			c.NoCtx = false
			c.Masks = genMasks(r)
		}
		if what == "C22" {
			c.NoArgs = r.Intn(4) > 0
			c.NoCtx = r.Intn(4) > 0
			c.Unknown, c.Lua, c.Coms = false, false, r.Intn(3) > 0
			if r.Intn(2) == 0 {
				c.Masks, c.Masks2 = nil, nil
				c.NoArgs, c.NoCtx = true, true
			}
		}
		n := 1
		if what == "C09" || what == "C08" || what == "C05" || r.Intn(4) == 0 {
			n += r.Intn(4)
		}
		names := []string{"/etc/nginx/nginx.conf", "/etc/nginx/a.conf", "/etc/nginx/b.conf", "/etc/nginx/d/c.conf", "/opt/e.conf"}
		pats := []string{"a.conf", "b.conf", "*.conf", "d/*.conf", "d/c.conf", "/opt/e.conf", "/opt/*", "none.conf", "./a.conf", "d/../b.conf", "/etc/nginx/[ab].conf", "?.conf", "[", "nginx.conf", "none*"}
		if what != "C10" && r.Intn(8) > 0 {
			pats = []string{"a.conf", "b.conf", "[ab].conf", "d/*.conf", "d/c.conf", "/opt/e.conf", "/opt/*", "none.conf", "./a.conf", "d/../b.conf", "none*"}
		}
		if r.Intn(4) == 0 { // files and patterns that end otherwise
			names = append(names, "/etc/nginx/d/x1", "/etc/nginx/x2")
			names = append(names[:1], append([]string{names[5], names[6]}, names[1:5]...)...)
			pats = append(pats, "x[12]", "d/x[1-3]", "d/*", "x?", "*")
		}
		c.GlobErr = r.Intn(40) == 0
		if r.Intn(5) == 0 { // a glob function may return paths that are not clean
			k := 1 + r.Intn(len(names)-1)
			names[k] = filepath.Dir(names[k]) + []string{"/./", "//", "/x/../"}[r.Intn(3)] + filepath.Base(names[k])
		}
		c.GlobDup = r.Intn(12) == 0
		for i := 0; i < n; i++ {
			g := &pgen{r: r, b: &bytes.Buffer{}, names: someNames, lua: c.Lua}
			if r.Intn(3) > 0 {
				g.names = someNames[:4]
			}
			switch what {
			case "C06":
				g.what = "map"
			case "C09", "C10":
				g.what = "inc"
			case "C22":
				g.what = "round"
			}
			if n > 1 || r.Intn(20) == 0 {
				g.files = pats
				if i > 0 && what != "C10" && r.Intn(6) > 0 { // mostly acyclic: only later files
					g.files = nil
					for j := i + 1; j < n; j++ {
						g.files = append(g.files, names[j])
					}
				}
			}
			for j := 1 + r.Intn(1+size/8); j > 0; j-- {
				g.stmt(4, false)
				g.b.WriteString("\n")
			}
			if r.Intn(8) == 0 { // the file ends in a comment
				g.b.WriteString("#" + g.pick("", " end", " end ", " ", "\u00a0"))
			}
			c.Files = append(c.Files, fileCase{Name: names[i], Text: g.b.Bytes(), Fail: i > 0 && r.Intn(12) == 0})
		}
		if r.Intn(20) == 0 {
			c.Files[0].Name = "nginx.conf"
		}
		return c
	}
}

// genGraph makes include graphs.
func genGraph(r *rand.Rand, size int) interface{} {
	n := 1 + r.Intn(2+size/5)
	c := parseCase{NoArgs: true, NoCtx: true}
	p := r.Float64() * 2 / float64(n)
	dag := r.Intn(2) == 0
	perm := r.Perm(n)
	for i := 0; i < n; i++ {
		var b strings.Builder
		for j := 0; j < n; j++ {
			if dag && perm[j] <= perm[i] {
				continue
			}
			for k := r.Intn(3); k >= 0; k-- {
				if r.Float64() < p || i == 0 && r.Intn(3) == 0 {
					if r.Intn(5) == 0 {
						fmt.Fprintf(&b, "http { include f%d.conf; }\n", j)
					} else {
						fmt.Fprintf(&b, "include f%d.conf;\n", j)
					}
				}
			}
		}
		if r.Intn(6) == 0 {
			b.WriteString("include f*.conf;\n")
		}
		c.Files = append(c.Files, fileCase{Name: fmt.Sprintf("/g/f%d.conf", i), Text: []byte(b.String())})
	}
	if dag { // the main file must be able to reach others
		c.Files[0], c.Files[perm[0]%n] = c.Files[perm[0]%n], c.Files[0]
	}
	return c
}

// ---- C22 ----

type roundCase struct {
	P      parseCase
	Indent int
	Tabs   bool
}

// fineTree tells whether the property speaks of the directives.
func fineTree(ds crossplane.Directives) bool {
	for i, d := range ds {
		com := d.Directive == "#" && d.Comment != nil
		if com {
			if !quoteDomain(*d.Comment) {
				return false
			}
			if i > 0 && ds[i-1].Directive == "#" && ds[i-1].Comment != nil && ds[i-1].Line == d.Line {
				return false
			}
			continue
		}
		if !quoteDomain(d.Directive) || d.Directive == "if" && !d.IsMapBlockParameter && len(d.Args) == 0 {
			return false
		}
		for _, a := range d.Args {
			if !quoteDomain(a) {
				return false
			}
		}
		if !fineTree(d.Block) {
			return false
		}
	}
	return true
}

// alike compares two lists up to line numbers.
func alike(path string, a, b crossplane.Directives) error {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) {
			return fmt.Errorf("%s: %d statements, %d when built and parsed again", path, len(a), len(b))
		}
		x, y := a[i], b[i]
		at := fmt.Sprintf("%s[%d].%s", path, i, x.Directive)
		show := func(d *crossplane.Directive) string {
			com := "none"
			if d.Comment != nil {
				com = fmt.Sprintf("%q", *d.Comment)
			}
			return fmt.Sprintf("%q args %q file %q includes %v comment %s map parameter %v block %v", d.Directive, d.Args, d.File, d.Includes, com, d.IsMapBlockParameter, d.Block != nil)
		}
		if show(x) != show(y) {
			return fmt.Errorf("%s: %s, when built and parsed again %s", at, show(x), show(y))
		}
		if err := alike(at, x.Block, y.Block); err != nil {
			return err
		}
	}
	return nil
}

func roundCheck(data []byte) error {
	var rc roundCase
	if err := json.Unmarshal(data, &rc); err != nil || len(rc.P.Files) == 0 || rc.Indent < 0 {
		return nil
	}
	c := rc.P
	c.Comb, c.Lua = false, false
	for _, s := range refSources(&c) { // sources that give if its arguments as NGINX does
		ms, ok := s("if")
		for _, m := range ms {
			if ok && m&(bAny|b1More) == 0 {
				return nil
			}
		}
	}
	one := c.run()
	if one.p == nil {
		return nil
	}
	again := c
	again.Files = append([]fileCase(nil), c.Files...)
	text := map[string]string{}
	for _, conf := range one.p.Config {
		if len(conf.Errors) > 0 || !fineTree(conf.Parsed) {
			continue
		}
		var b bytes.Buffer
		if err := crossplane.Build(&b, conf, &crossplane.BuildOptions{Indent: rc.Indent, Tabs: rc.Tabs}); err != nil {
			return fmt.Errorf("building %s: %v", conf.File, err)
		}
		for i := range again.Files {
			if again.Files[i].Name == conf.File {
				again.Files[i].Text = b.Bytes()
				text[conf.File] = b.String()
			}
		}
	}
	if len(text) == 0 {
		return nil
	}
	two := again.run()
	fail := func(f string, a ...interface{}) error {
		var b strings.Builder
		for i, x := range c.Files {
			fmt.Fprintf(&b, "--- %s (unreadable: %v)\n%s\n", x.Name, x.Fail, x.Text)
			if t, ok := text[x.Name]; ok {
				fmt.Fprintf(&b, "--- %s built\n%s\n", x.Name, t)
			}
			_ = i
		}
		o := c
		o.Files = nil
		return fmt.Errorf("%s\noptions %s\n%s", fmt.Sprintf(f, a...), encode(o), b.String())
	}
	if two.p == nil {
		return fail("the files built do not parse: %v", two.err)
	}
	if len(one.p.Config) != len(two.p.Config) {
		return fail("%d files, %d when built and parsed again", len(one.p.Config), len(two.p.Config))
	}
	for i, x := range one.p.Config {
		y := two.p.Config[i]
		if x.File != y.File {
			return fail("file %d is %s, when built and parsed again %s", i, x.File, y.File)
		}
		if _, ok := text[x.File]; !ok {
			continue
		}
		if len(y.Errors) > 0 {
			return fail("%s has an error when built and parsed again: %v", x.File, y.Errors[0].Error)
		}
		if err := alike(x.File, x.Parsed, y.Parsed); err != nil {
			return fail("%v", err)
		}
	}
	return nil
}

func init() {
	props["C22"] = &prop{check: roundCheck, gen: func(r *rand.Rand, size int) interface{} {
		return roundCase{P: genParse("C22")(r, size).(parseCase), Indent: []int{0, 1, 2, 3, 4, 8}[r.Intn(6)], Tabs: r.Intn(4) == 0}
	}}
	for _, id := range []string{"C05", "C06", "C07", "C08", "C09", "C18"} {
		props[id] = &prop{gen: genParse(id), check: parseCheck(id)}
	}
	props["C10"] = &prop{check: parseCheck("C10"), gen: func(r *rand.Rand, size int) interface{} {
		if r.Intn(3) == 0 {
			return genParse("C10")(r, size)
		}
		return genGraph(r, size)
	}}
}
