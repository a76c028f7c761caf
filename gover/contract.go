package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Contract files. Line oriented; a clause runs until the next keyword line.

type Clause struct {
	Kind string // requires, ensures, invariant, decreases, entry, exit, head, tail
	Name string
	Tags map[string]bool
	Text string
	Pos  string
}

type LoopSpec struct {
	Match *regexp.Regexp // the header it belongs to (else: by position)
	Inv   []Clause
	Dec   *Clause
	Head  []Clause
	Tail  []Clause
	Post  []Clause
	Snap  [][2]string // ghost values taken before the loop
	ISnap [][2]string // ghost values taken at the start of an iteration
}

type FuncSpec struct {
	Key       string
	Params    []string
	Results   []string
	Modifies  map[string]bool
	Nilable   map[string]bool
	Ghost     [][2]string
	GhostMap  map[string]string
	Requires  []Clause
	Ensures   []Clause
	Dec       *Clause
	Entry     []Clause
	Exit      []Clause
	Loops     map[int]*LoopSpec
	Calls     map[string][]Clause // proof text before calls
	Fresh     map[string]bool
	Trusted   bool
	TrustedIn map[string]bool // properties in which the contract is assumed (decided under another one)
	Uses      []string
	Rlimit    string
	Split     int // number of copies that share the obligations at the exits
	Pos       string
	TagsOnly  map[string]bool
	Closures  map[string]string // closure variable -> contract key
	Boxes     map[string]string // local variable -> world field
	Captures  [][2]string       // captured variable -> value at call time
	Owned     map[string]bool
	FreshRes  bool
	ReadsW    bool
	Closure   bool
	Encl      string
}

type Model struct {
	Key    string
	Params []string
	Deref  map[string]bool
	Any    [][2]string
	Steps  []ModelStep
	Result []string
	Fresh  bool
	Note   string
	Pos    string
}

type ModelStep struct {
	Kind string // set, assume, requires, let
	Var  string
	Type string
	Text string
}

type PropSpec struct {
	ID     string
	Roots  []string
	Specs  []string
	Lemmas []string
	Level  string
	Notes  []string
	Lean   bool // only clauses tagged [*] or with the property
}

type Contracts struct {
	Funcs    map[string]*FuncSpec
	Models   map[string]*Model
	Erased   map[string]bool      // struct fields the model leaves out (error texts)
	Types    map[string][2]string // Go type string -> Verus type, zero
	Props    map[string]*PropSpec
	Inline   map[string]bool
	Dispatch map[string]string
	World    [][2]string
	Order    []string
}

func splitTop(s string, sep byte) []string {
	var out []string
	d := 0
	st := 0
	inStr := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr {
			if c == '\\' {
				i++
			} else if c == '"' {
				inStr = false
			}
			continue
		}
		switch c {
		case '"':
			inStr = true
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if c == sep && d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" || len(out) > 0 {
		out = append(out, t)
	}
	return out
}

func parseSig(s string) (key string, params []string, results []string) {
	if strings.HasPrefix(s, "functype func(") {
		// the last group in parentheses holds the parameters
		i := strings.LastIndex(s, "(")
		for _, x := range strings.Split(strings.TrimSuffix(strings.TrimSpace(s[i+1:]), ")"), ",") {
			params = append(params, strings.TrimSpace(x))
		}
		return strings.TrimSpace(s[:i]), params, nil
	}
	// key may contain "(*T)"; the parameter list is the first "(" not followed by "*"
	i := 0
	for ; i < len(s); i++ {
		if s[i] == '(' && (i+1 >= len(s) || s[i+1] != '*' || strings.HasSuffix(s[:i], ")")) {
			break
		}
		if s[i] == '(' && i > 0 && s[i-1] != '.' {
			break
		}
	}
	key = strings.TrimSpace(s[:i])
	rest := s[i:]
	if rest == "" {
		return
	}
	d := 0
	j := 0
	for ; j < len(rest); j++ {
		if rest[j] == '(' {
			d++
		}
		if rest[j] == ')' {
			d--
			if d == 0 {
				break
			}
		}
	}
	params = splitTop(rest[1:j], ',')
	tail := strings.TrimSpace(rest[j+1:])
	if strings.HasPrefix(tail, "(") {
		results = splitTop(strings.Trim(tail, "() "), ',')
	}
	return
}

var kwTop = map[string]bool{"func": true, "model": true, "type": true, "property": true, "inline": true, "dispatch": true, "world": true, "erase": true}
var kwSub = map[string]bool{"requires": true, "ensures": true, "invariant": true, "decreases": true, "modifies": true,
	"nilable": true, "ghost": true, "ghostmap": true, "entry": true, "exit": true, "head": true, "tail": true, "post": true, "loop": true,
	"set": true, "any": true, "assume": true, "result": true, "roots": true, "specs": true, "lemmas": true, "level": true, "lean": true,
	"trusted": true, "uses": true, "fresh": true, "note": true, "deref": true, "rlimit": true, "split": true, "before": true, "only": true, "closure": true, "closureof": true, "box": true, "capture": true, "owned": true, "freshresult": true, "readsworld": true, "let": true, "snap": true, "isnap": true}

func loadContracts(dir string) (*Contracts, error) {
	c := &Contracts{Funcs: map[string]*FuncSpec{}, Models: map[string]*Model{}, Types: map[string][2]string{},
		Props: map[string]*PropSpec{}, Inline: map[string]bool{}, Dispatch: map[string]string{}, Erased: map[string]bool{}}
	files, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := c.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return c, nil
}

func (c *Contracts) parseFile(name, src string) error {
	type item struct {
		kw, text string
		line     int
	}
	var items []item
	for i, ln := range strings.Split(src, "\n") {
		t := strings.TrimSpace(ln)
		if t == "" || strings.HasPrefix(t, "#") && !strings.HasPrefix(t, "#[") {
			continue
		}
		w := t
		if j := strings.IndexAny(t, " \t["); j > 0 {
			w = t[:j]
		}
		top := !strings.HasPrefix(ln, " ") && !strings.HasPrefix(ln, "\t")
		if top && kwTop[w] || !top && kwSub[w] {
			items = append(items, item{w, strings.TrimSpace(t[len(w):]), i + 1})
		} else {
			if len(items) == 0 {
				return fmt.Errorf("%s:%d: text before any clause", name, i+1)
			}
			items[len(items)-1].text += "\n" + t
		}
	}
	var fs *FuncSpec
	var ls *LoopSpec
	var md *Model
	var ps *PropSpec
	for _, it := range items {
		pos := fmt.Sprintf("%s:%d", name, it.line)
		if kwTop[it.kw] {
			fs, ls, md, ps = nil, nil, nil, nil
		}
		mk := func() Clause {
			cl := Clause{Kind: it.kw, Pos: pos}
			t := it.text
			for {
				if strings.HasPrefix(t, "[") {
					j := strings.Index(t, "]")
					cl.Tags = map[string]bool{}
					for _, x := range strings.Split(t[1:j], ",") {
						cl.Tags[strings.TrimSpace(x)] = true
					}
					t = strings.TrimSpace(t[j+1:])
					continue
				}
				if strings.HasPrefix(t, "@") {
					j := strings.IndexAny(t, " \n\t[")
					cl.Name = t[1:j]
					t = strings.TrimSpace(t[j:])
					continue
				}
				break
			}
			cl.Text = t
			return cl
		}
		list := func() []string { return splitTop(strings.ReplaceAll(it.text, "\n", " "), ',') }
		switch it.kw {
		case "func":
			k, pr, rs := parseSig(it.text)
			fs = &FuncSpec{Key: k, Params: pr, Results: rs, Modifies: map[string]bool{}, Nilable: map[string]bool{},
				GhostMap: map[string]string{}, Loops: map[int]*LoopSpec{}, Fresh: map[string]bool{}, Calls: map[string][]Clause{}, Pos: pos,
				Closures: map[string]string{}, Boxes: map[string]string{}, Owned: map[string]bool{}}
			if c.Funcs[k] != nil {
				return fmt.Errorf("%s: duplicate contract for %s", pos, k)
			}
			c.Funcs[k] = fs
			c.Order = append(c.Order, k)
		case "erase":
			c.Erased[strings.TrimSpace(it.text)] = true
		case "dispatch":
			p := strings.SplitN(it.text, "=", 2)
			c.Dispatch[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "world":
			p := strings.SplitN(it.text, ":", 2)
			c.World = append(c.World, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "closureof":
			fs.Closure = true
			fs.Encl = it.text
		case "closure":
			p := strings.SplitN(it.text, "=", 2)
			fs.Closures[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "box":
			p := strings.SplitN(it.text, "=", 2)
			fs.Boxes[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "capture":
			p := strings.SplitN(it.text, "=", 2)
			fs.Captures = append(fs.Captures, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "owned":
			for _, x := range list() {
				fs.Owned[x] = true
			}
		case "freshresult":
			fs.FreshRes = true
		case "readsworld":
			fs.ReadsW = true
		case "inline":
			for _, x := range list() {
				c.Inline[x] = true
			}
		case "model":
			t := it.text
			var res string
			if i := strings.Index(t, ") = "); i >= 0 {
				res = t[i+4:]
				t = t[:i+1]
			}
			k, pr, _ := parseSig(t)
			md = &Model{Key: k, Deref: map[string]bool{}, Pos: pos}
			for _, x := range pr {
				if strings.HasPrefix(x, "*") {
					x = x[1:]
					md.Deref[x] = true
				}
				md.Params = append(md.Params, x)
			}
			if res != "" {
				md.Result = splitTop(res, ',')
			}
			if c.Models[k] != nil {
				return fmt.Errorf("%s: duplicate model for %s", pos, k)
			}
			c.Models[k] = md
		case "type":
			pp := strings.SplitN(it.text, "=", 2)
			z := strings.SplitN(pp[1], " zero ", 2)
			zero := ""
			if len(z) == 2 {
				zero = strings.TrimSpace(z[1])
			}
			c.Types[strings.TrimSpace(pp[0])] = [2]string{strings.TrimSpace(z[0]), zero}
		case "property":
			ps = &PropSpec{ID: it.text}
			c.Props[it.text] = ps
		case "roots":
			ps.Roots = append(ps.Roots, list()...)
		case "specs":
			ps.Specs = append(ps.Specs, list()...)
		case "lemmas":
			ps.Lemmas = append(ps.Lemmas, list()...)
		case "lean":
			ps.Lean = true
		case "level":
			ps.Level = it.text
		case "note":
			if ps != nil {
				ps.Notes = append(ps.Notes, it.text)
			} else if md != nil {
				md.Note = it.text
			}
		case "requires":
			if md != nil {
				md.Steps = append(md.Steps, ModelStep{Kind: "requires", Text: it.text})
			} else {
				fs.Requires = append(fs.Requires, mk())
			}
		case "ensures":
			fs.Ensures = append(fs.Ensures, mk())
		case "modifies":
			for _, x := range list() {
				fs.Modifies[x] = true
			}
		case "nilable":
			for _, x := range list() {
				fs.Nilable[x] = true
			}
		case "fresh":
			if md != nil {
				md.Fresh = true
			} else {
				for _, x := range list() {
					fs.Fresh[x] = true
				}
			}
		case "ghost":
			p := strings.SplitN(it.text, ":", 2)
			fs.Ghost = append(fs.Ghost, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "ghostmap":
			p := strings.SplitN(it.text, "=", 2)
			fs.GhostMap[strings.TrimSpace(p[0])] = strings.TrimSpace(p[1])
		case "trusted":
			if l := list(); len(l) > 0 {
				fs.TrustedIn = map[string]bool{}
				for _, x := range l {
					fs.TrustedIn[x] = true
				}
			} else {
				fs.Trusted = true
			}
		case "only":
			fs.TagsOnly = map[string]bool{}
			for _, x := range list() {
				fs.TagsOnly[x] = true
			}
		case "uses":
			fs.Uses = append(fs.Uses, list()...)
		case "rlimit":
			fs.Rlimit = it.text
		case "split":
			fmt.Sscanf(it.text, "%d", &fs.Split)
		case "loop":
			var n int
			fmt.Sscanf(it.text, "%d", &n)
			ls = &LoopSpec{}
			if p := strings.SplitN(it.text, "~", 2); len(p) == 2 {
				re, err := regexp.Compile(strings.TrimSpace(p[1]))
				if err != nil {
					return fmt.Errorf("%s: %v", pos, err)
				}
				ls.Match = re
			}
			fs.Loops[n] = ls
		case "snap":
			p := strings.SplitN(it.text, "=", 2)
			ls.Snap = append(ls.Snap, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "isnap":
			p := strings.SplitN(it.text, "=", 2)
			ls.ISnap = append(ls.ISnap, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "invariant":
			ls.Inv = append(ls.Inv, mk())
		case "head":
			ls.Head = append(ls.Head, mk())
		case "tail":
			ls.Tail = append(ls.Tail, mk())
		case "post":
			ls.Post = append(ls.Post, mk())
		case "entry":
			fs.Entry = append(fs.Entry, mk())
		case "exit":
			fs.Exit = append(fs.Exit, mk())
		case "before":
			p := strings.SplitN(it.text, "\n", 2)
			q := strings.SplitN(p[0], " ", 2)
			tx := ""
			if len(q) == 2 {
				tx = q[1]
			}
			if len(p) == 2 {
				tx += "\n" + p[1]
			}
			it.text = tx
			fs.Calls[q[0]] = append(fs.Calls[q[0]], mk())
		case "decreases":
			cl := mk()
			if ls != nil {
				ls.Dec = &cl
			} else {
				fs.Dec = &cl
			}
		case "set":
			p := strings.SplitN(it.text, "=", 2)
			md.Steps = append(md.Steps, ModelStep{Kind: "set", Var: strings.TrimSpace(p[0]), Text: strings.TrimSpace(p[1])})
		case "let":
			p := strings.SplitN(it.text, "=", 2)
			q := strings.SplitN(p[0], ":", 2)
			md.Steps = append(md.Steps, ModelStep{Kind: "let", Var: strings.TrimSpace(q[0]), Type: strings.TrimSpace(q[1]), Text: strings.TrimSpace(p[1])})
		case "assume":
			md.Steps = append(md.Steps, ModelStep{Kind: "assume", Text: it.text})
		case "any":
			p := strings.SplitN(it.text, ":", 2)
			md.Any = append(md.Any, [2]string{strings.TrimSpace(p[0]), strings.TrimSpace(p[1])})
		case "result":
			md.Result = list()
		default:
			return fmt.Errorf("%s: unexpected %s", pos, it.kw)
		}
	}
	return nil
}
