package main

import (
	"strings"
	"unicode/utf8"
)

type tok struct {
	Val    string
	Line   int
	Quoted bool
	Err    bool
	ErrAt  int
}

type unit struct {
	s    string // one character, or a backslash with the character it escapes
	line int    // line after reading it
}

func blank(s string) bool { return strings.TrimSpace(s) == "" }

// units splits a text into characters and escape pairs, dropping carriage returns.
func units(text []byte) (us []unit, last int) {
	line := 1
	esc := false
	for len(text) > 0 {
		c, n := utf8.DecodeRune(text)
		text = text[n:]
		s := string(c)
		if c == '\n' {
			line++
		}
		if c == '\r' {
			continue
		}
		if esc {
			us = append(us, unit{"\\" + s, line})
			esc = false
			continue
		}
		if c == '\\' {
			esc = true
			continue
		}
		us = append(us, unit{s, line})
	}
	return us, line
}

// refLex is the reference lexer: a recursive-descent reading of the grammar.
func refLex(text []byte) []tok {
	us, last := units(text)
	var out []tok
	depth := 0
	word := false // something to terminate since the last { } ;
	start := 1
	i := 0
	special := func(s string) bool { return s == "{" || s == "}" || s == ";" }
	for i < len(us) {
		if blank(us[i].s) {
			i++
			continue
		}
		start = us[i].line
		if us[i].s == "#" {
			v := ""
			for i < len(us) && !strings.HasSuffix(us[i].s, "\n") {
				v += us[i].s
				i++
			}
			i++
			out = append(out, tok{Val: v, Line: start})
			continue
		}
		// a run of word characters and specials, ended by a blank or by a quoted string
		v := ""
	run:
		for {
			if i >= len(us) {
				if v != "" {
					out = append(out, tok{Val: v, Line: start})
				}
				break run
			}
			c := us[i].s
			switch {
			case blank(c):
				if v != "" || true {
					out = append(out, tok{Val: v, Line: start})
				}
				i++
				break run
			case c == "{" && strings.HasSuffix(v, "$"):
				word = true
				for {
					if i >= len(us) {
						break
					}
					v += us[i].s
					i++
					if strings.HasSuffix(v, "}") || blank(us[i-1].s) {
						break
					}
				}
			case (c == `"` || c == "'") && v == "":
				word = true
				start = us[i].line
				i++
				q := ""
				closed := false
				for i < len(us) {
					d := us[i].s
					i++
					if d == c {
						closed = true
						break
					}
					if d == "\\"+c {
						d = c
					}
					q += d
				}
				if closed || q != "" {
					out = append(out, tok{Val: q, Line: start, Quoted: true})
				}
				break run
			case special(c):
				if v != "" {
					out = append(out, tok{Val: v, Line: start})
				}
				if !word && c != "}" {
					return append(out, tok{Line: start, Err: true, ErrAt: us[i].line})
				}
				word = false
				if c == "{" {
					depth++
				} else if c == "}" {
					depth--
					if depth < 0 {
						return append(out, tok{Line: start, Err: true, ErrAt: us[i].line})
					}
				}
				out = append(out, tok{Val: c, Line: start})
				i++
				break run
			default:
				word = true
				v += c
				i++
			}
		}
	}
	if depth > 0 {
		out = append(out, tok{Line: start, Err: true, ErrAt: last})
	}
	return out
}
