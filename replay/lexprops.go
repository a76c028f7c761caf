package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"time"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
)

type lexCase struct {
	Text  []byte
	Chunk int // bytes handed out per read, 0 for all
}

var soup = []string{"{", "}", ";", "#", "\"", "'", "\\", "\n", "\r\n", "\r", " ", "\t", "$", "${", "a", "b", "word", "(", ")", "if", "é", "\u2003", "\u0085", "\xff", "\\\n", "\\\"", "\\'", "\\\\", "on", ",", "=", "${x}", "a;", "a {", "}\n", "\"q\"", "'p'", "# c\n", "\\;", "\\{", "\\ ", "\\#", "\\$", "\\r\n", "\x00"}

func genSoup(r *rand.Rand, size int) []byte {
	var b bytes.Buffer
	n := 1 + r.Intn(size)
	m := r.Intn(4)
	for i := 0; i < n; i++ {
		switch {
		case m == 0:
			b.WriteString(soup[r.Intn(18)])
		case m == 1 && r.Intn(3) > 0:
			b.WriteString([]string{"a", "b ", " ", ";", "x y;", "{", "}", "k {\n", "}\n"}[r.Intn(9)])
		default:
			b.WriteString(soup[r.Intn(len(soup))])
		}
	}
	return b.Bytes()
}

// genStatements writes mostly well-formed configuration text.
func genStatements(r *rand.Rand, b *bytes.Buffer, n, depth int) {
	ws := func() string {
		return []string{" ", "\n", "  ", "\t", "\r\n", " \n ", " # note } ; {\n", "\n\n", " #\n", "\n# a\n#b\n"}[r.Intn(10)]
	}
	word := func() string {
		return []string{"a", "bcd", "x1", "\"q s\"", "'it;s'", "\"\"", "''", "\"a\nb\"", "'}'", "${v}", "a${v}b", "$x", "\"\\\"\"", "'\\''", "\\\"a", "a\"b", "a'b", "\\;x", "a#b", "é", "a\\\nb", "\\\nz", "\"x\\y\"", "\"\r\n\"", "${a b}", "${", "$", "()", "(a", "b)", "'#'", "\"\\\\\""}[r.Intn(32)]
	}
	for i := 0; i < n; i++ {
		if r.Intn(8) == 0 {
			b.WriteString("# " + word() + "\n")
		}
		b.WriteString(word())
		for r.Intn(3) > 0 {
			b.WriteString(ws())
			b.WriteString(word())
		}
		if r.Intn(3) == 0 {
			b.WriteString(ws())
		}
		if depth > 0 && r.Intn(3) == 0 {
			b.WriteString("{")
			b.WriteString(ws())
			genStatements(r, b, r.Intn(3), depth-1)
			b.WriteString("}")
		} else {
			b.WriteString(";")
		}
		if r.Intn(2) == 0 {
			b.WriteString(ws())
		}
	}
}

func genText(r *rand.Rand, size int) []byte {
	if r.Intn(2) == 0 {
		return genSoup(r, size)
	}
	var b bytes.Buffer
	genStatements(r, &b, 1+r.Intn(1+size/6), 3)
	t := b.Bytes()
	for r.Intn(3) == 0 && len(t) > 0 { // damage it
		i := r.Intn(len(t))
		switch r.Intn(3) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t = append(append(t[:i:i], soup[r.Intn(len(soup))]...), t[i:]...)
		default:
			t = t[:i]
		}
	}
	return t
}

type chunks struct {
	b []byte
	n int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := len(c.b)
	if c.n > 0 && n > c.n {
		n = c.n
	}
	n = copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

func reader(text []byte, chunk int) io.Reader {
	if chunk == 0 {
		return bytes.NewReader(text)
	}
	return &chunks{b: text, n: chunk}
}

// lexAll drains the lexer; closed tells whether the stream was closed.
func lexAll(ch <-chan crossplane.NgxToken) (out []tok, closed bool) {
	stop := time.After(10 * time.Second)
	for {
		select {
		case t, ok := <-ch:
			if !ok {
				return out, true
			}
			k := tok{Val: t.Value, Line: t.Line, Quoted: t.IsQuoted}
			if t.Error != nil {
				k.Err = true
				k.Val = ""
				var pe *crossplane.ParseError
				if errors.As(t.Error, &pe) && pe.Line != nil {
					k.ErrAt = *pe.Line
				}
			}
			out = append(out, k)
			if len(out) > 1<<20 {
				return out, false
			}
		case <-stop:
			return out, false
		}
	}
}

func lexCheck(what string) func([]byte) error {
	return func(data []byte) error {
		var c lexCase
		if err := json.Unmarshal(data, &c); err != nil {
			return nil
		}
		got, closed := lexAll(crossplane.Lex(reader(c.Text, c.Chunk)))
		want := refLex(c.Text)
		return lexDiff(what, c.Text, got, want, closed)
	}
}

func lexDiff(what string, text []byte, got, want []tok, closed bool) error {
	fail := func(s string, i int) error {
		return fmt.Errorf("%s at token %d of %q\n got %s\nwant %s", s, i, text, showToks(got), showToks(want))
	}
	switch what {
	case "C01":
		g, w := noErr(got), noErr(want)
		for i := 0; i < len(g) || i < len(w); i++ {
			if i >= len(g) || i >= len(w) || g[i].Val != w[i].Val || g[i].Quoted != w[i].Quoted {
				return fail("different token", i)
			}
		}
	case "C02":
		prev := 0
		for i := range got {
			if got[i].Line < prev {
				return fail("line numbers decrease", i)
			}
			prev = got[i].Line
			if i >= len(want) || got[i].Val != want[i].Val || got[i].Quoted != want[i].Quoted || got[i].Err != want[i].Err {
				return nil // another property
			}
			if !got[i].Err && got[i].Line != want[i].Line {
				return fail("wrong line", i)
			}
			if got[i].Err && got[i].ErrAt != want[i].ErrAt {
				return fail("wrong line of the error", i)
			}
		}
	case "C03":
		if !closed {
			return fail("the token stream is not closed", len(got))
		}
		ge, we := -1, -1
		depth := 0
		for i, t := range got {
			if t.Err {
				if ge >= 0 {
					return fail("two errors", i)
				}
				ge = i
			}
			if !t.Err && !t.Quoted && t.Val == "{" {
				depth++
			}
			if !t.Err && !t.Quoted && t.Val == "}" {
				if depth--; depth < 0 {
					return fail("closes no block", i)
				}
			}
		}
		for i, t := range want {
			if t.Err {
				we = i
			}
		}
		if (ge < 0) != (we < 0) {
			return fail("error expected or not", ge)
		}
		if ge >= 0 && ge != len(got)-1 {
			return fail("the error is not the last token", ge)
		}
		if ge < 0 && depth != 0 {
			return fail("unbalanced stream without error", len(got))
		}
	}
	return nil
}

func noErr(ts []tok) []tok {
	var o []tok
	for _, t := range ts {
		if !t.Err {
			o = append(o, t)
		}
	}
	return o
}

func showToks(ts []tok) string {
	var s []string
	for i, t := range ts {
		if i > 60 {
			s = append(s, "...")
			break
		}
		switch {
		case t.Err:
			s = append(s, fmt.Sprintf("error@%d", t.ErrAt))
		case t.Quoted:
			s = append(s, fmt.Sprintf("quoted %q@%d", t.Val, t.Line))
		default:
			s = append(s, fmt.Sprintf("%q@%d", t.Val, t.Line))
		}
	}
	return strings.Join(s, " ")
}

func init() {
	for _, id := range []string{"C01", "C02", "C03"} {
		props[id] = &prop{
			gen: func(r *rand.Rand, size int) interface{} {
				return lexCase{Text: genText(r, size), Chunk: []int{0, 0, 0, 1, 3}[r.Intn(5)]}
			},
			fixed: func() []interface{} {
				var cs []interface{}
				big := strings.Repeat("word ", 3000)
				for _, s := range []string{"", ";", "a;;", "}", "a{", "a{}", "a{}}", "a;}", "{}", "\"\";", "'a", "a\\", "#", "#a", "a;#b\\\n;", big + ";", "a;\n" + strings.Repeat("b {\n", 3000), strings.Repeat("a {", 300) + strings.Repeat("}", 300), strings.Repeat("x;\n", 5000) + "}", "a \"" + strings.Repeat("l\n", 5000) + "\";b;", "a\n{\n;\n}\n", "\n\n;"} {
					cs = append(cs, lexCase{Text: []byte(s)})
				}
				// all short texts over the characters that matter
				al := []string{"{", "}", ";", "#", "\"", "'", "\\", "\n", " ", "$", "a"}
				for i := range al {
					for j := range al {
						for k := range al {
							for l := range al {
								cs = append(cs, lexCase{Text: []byte(al[i] + al[j] + al[k] + al[l])})
							}
						}
					}
				}
				return cs
			},
			check: lexCheck(id),
		}
	}
}
