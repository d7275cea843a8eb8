package props

import (
	"fmt"
	"strings"

	"helena/core"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/hx"
)

type textT = hx.Text

// parseTree checks the real parser against the reference parser on a text.
func parseTree(src string) (tree string, err error) {
	want, msg := refParse(src)
	plain, perr := hx.Parse(src)
	withPos, perr2 := hx.ParsePos(src)
	if (perr == nil) != (perr2 == nil) {
		return "", fmt.Errorf("%q: plain parse: %v; with positions: %v", src, perr, perr2)
	}
	if (perr == nil) != (msg == "") {
		return "", fmt.Errorf("%q: parse says %v, syntax rules say %q", src, perr, msg)
	}
	if msg != "" {
		return "", nil
	}
	tree = reprSents(want, false)
	if got := hx.ScriptRepr(plain); got != tree {
		return "", fmt.Errorf("%q parses to\n  %s\nwant\n  %s", src, got, tree)
	}
	if got := hx.ScriptRepr(withPos); got != tree {
		return "", fmt.Errorf("%q with positions parses to\n  %s\nwant\n  %s", src, got, tree)
	}
	if got, w := hx.ScriptReprPos(withPos), reprSents(want, true); got != w {
		return "", fmt.Errorf("%q: positions\n  %s\nwant\n  %s", src, got, w)
	}
	if got := hx.ScriptReprPos(plain); strings.Contains(got, "@") && !strings.Contains(src, "@") {
		if strings.Count(got, "@none") != strings.Count(got, "@") {
			return "", fmt.Errorf("%q: positions captured without being asked: %s", src, got)
		}
	}
	return tree, nil
}

func kindLabels(r *h.Rec, ss []rsent) {
	for _, s := range ss {
		for _, w := range s.words {
			var walk func(ms []*rnode)
			walk = func(ms []*rnode) {
				for _, m := range ms {
					r.Label(m.kind)
					walk(m.ms)
					kindLabels(r, m.sub)
				}
			}
			walk(w.ms)
		}
	}
}

func init() {
	h.Reg("P03", "tree", "syntax trees written out with random layout; non-trivial: a construct other than a literal", 60000, 1500000,
		func(t *rapid.T) TreeCase {
			src, ss := drawScript(t, rapid.IntRange(2, 24).Draw(t, "budget"))
			return TreeCase{textT(src), reprSents(ss, false)}
		},
		func(c TreeCase, r *h.Rec) error {
			src := string(c.Src)
			s, err := hx.Parse(src)
			if err != nil {
				return fmt.Errorf("well-formed %q rejected: %v", src, err)
			}
			got := hx.ScriptRepr(s)
			if strings.ContainsAny(c.Want, "([{") || strings.Contains(c.Want, "here") || strings.Contains(c.Want, "sub") {
				r.NonTrivial(src)
			}
			if got != c.Want {
				return fmt.Errorf("%q parses to\n  %s\nwant\n  %s", src, got, c.Want)
			}
			ref, _ := refParse(src)
			kindLabels(r, ref)
			_, err = parseTree(src)
			return err
		})
	h.Reg("P03", "soup", "token soups, compared with the reference parser; non-trivial: accepted with some structure", 120000, 3000000,
		func(t *rapid.T) TextCase { return TextCase{textT(soup(t, 14))} },
		func(c TextCase, r *h.Rec) error {
			tree, err := parseTree(string(c.Src))
			if tree == "" {
				r.Label("rejected-or-empty")
			} else {
				r.Label("accepted")
				if strings.ContainsAny(tree, "([{") || len(tree) > 20 {
					r.NonTrivial(string(c.Src))
				}
			}
			return err
		})
	_ = core.OK
}

var soupAtoms = []string{"a", "b", " ", " ", "\n", ";", "\"", "\"\"", "\"\"\"", "$", "$", "$*", "*", "#", "##", "#{", "}#", "##{", "}##",
	"(", ")", "{", "}", "[", "]", "\\n", "\\\n", "\\", "\"\"T\n", "T\"\"", "é", "\"\"\"\"", "T", "()", "{}", "[]", "$a", "\t"}

// soup draws a token soup, closing open delimiters most of the time.
func soup(t *rapid.T, max int) string {
	var b strings.Builder
	var open []byte
	n := rapid.IntRange(0, max).Draw(t, "n")
	for i := 0; i < n; i++ {
		if len(open) > 0 && chance(t, "close", 20) {
			b.WriteByte(open[len(open)-1])
			open = open[:len(open)-1]
			continue
		}
		a := pick(t, "atom", soupAtoms)
		b.WriteString(a)
		switch a {
		case "(":
			open = append(open, ')')
		case "{":
			open = append(open, '}')
		case "[":
			open = append(open, ']')
		case "\"":
			open = append(open, '"')
		}
	}
	if chance(t, "finish", 80) {
		for len(open) > 0 {
			b.WriteByte(open[len(open)-1])
			open = open[:len(open)-1]
		}
	}
	return b.String()
}
