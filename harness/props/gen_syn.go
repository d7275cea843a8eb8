package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// synGen draws a syntax tree and its source text together.
type synGen struct {
	t      *rapid.T
	budget int
}

// part is a piece of source with the tree it stands for.
type part struct {
	src string
	ms  []*rnode
}

func (g *synGen) n(label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.t, label) }
func (g *synGen) spend(n int) bool               { g.budget -= n; return g.budget > 0 }

var synText = []string{"a", "b", "cmd", "1", "-2.5", "é", "日本", "x=y", "true", "a.b", "%", "/", "=", "\x01", "\xff", "_", "'"}
var synEsc = []string{"\\\\", "\\n", "\\t", "\\$", "\\\"", "\\{", "\\}", "\\(", "\\)", "\\[", "\\]", "\\#", "\\;", "\\*", "\\ ", "\\x41", "\\u00e9", "\\101", "\\U0001F600", "\\q", "\\é"}
var synSpace = []string{" ", "\t", "  ", " \t ", "\\\n", " \\\n  ", "\\\n\\\n"}
var synSep = []string{";", "\n", " ; ", "\n\n", ";;", "\n  ", " ;\n", "\r\n", "\n\t\n"}
var synRaw = []string{"a", " ", "b c", "{", "}", "(", ")", "[", "]", "$", "$a", ";", "*", "\n", "\\n", "\\\\", "é", "#", "##", "\"", "\"\"", "#{", "}#", "\\\n"}

// lits decodes the token literals of a text.
func lits(src string) string {
	var b strings.Builder
	for _, k := range refLex(src) {
		b.WriteString(k.lit)
	}
	return b.String()
}

// literal draws a run of text and escapes; first: at word start; sep: must not start with plain text.
func (g *synGen) literal(first, sep bool) string {
	var b strings.Builder
	prevText := sep
	for i, n := 0, g.n("lits", 1, 3); i < n; i++ {
		k := g.n("lk", 0, 5)
		switch {
		case k <= 2 && !prevText:
			b.WriteString(long(g.t, pick(g.t, "text", synText)))
			prevText = true
			continue
		case k == 3:
			b.WriteString("*")
		case k == 4 && !(first && i == 0):
			b.WriteString(pick(g.t, "hash", []string{"#", "##"}))
		default:
			b.WriteString(pick(g.t, "esc", synEsc))
		}
		prevText = false
	}
	return b.String()
}

func isTextByte(c byte) bool { return !strings.ContainsRune(" \t\r\f\n\\#(){}[]\"$;*", rune(c)) }

// endsWithText reports whether the last token of the source is plain text.
func endsWithText(src string) bool {
	k := refLex(src)
	return len(k) > 0 && isTextByte(src[k[len(k)-1].start])
}

func (g *synGen) brackets(kind string) part {
	o, c := map[string]string{"tuple": "(", "block": "{", "expr": "["}[kind], map[string]string{"tuple": ")", "block": "}", "expr": "]"}[kind]
	src, sub := g.script(0, true)
	m := &rnode{kind: kind, sub: sub}
	if kind == "block" {
		m.val = lits(src)
	}
	p := part{o + src + c, []*rnode{m}}
	if rare(g.t) {
		// the same bracket around it many times
		for range stretch(g.t, "levels", 4, 9) {
			w := &rnode{kind: kind, sub: []rsent{{words: []*rword{{ms: p.ms}}}}}
			if kind == "block" {
				w.val = lits(p.src)
			}
			p = part{o + p.src + c, []*rnode{w}}
		}
	}
	return p
}

// chain draws a substitution: marks, source, selectors.
func (g *synGen) chain(inString bool) part {
	p := part{}
	for i, n := 0, 1+stretch(g.t, "marks", 0, 2)*g.n("many", 0, 1); i < n; i++ {
		m := &rnode{kind: "sub", val: "$"}
		if g.n("exp", 0, 3) == 3 {
			m.val, m.exp = "$*", i == 0
		}
		p.src += m.val
		p.ms = append(p.ms, m)
	}
	k := g.n("source", 0, 4)
	if k >= 2 && !g.spend(2) {
		k = 0
	}
	if inString && k == 2 {
		k = 3
	}
	switch k {
	case 0, 1:
		s := pick(g.t, "name", []string{"a", "b", "name", "é", "1"})
		if !inString && k == 1 && !strings.HasSuffix(p.src, "*") {
			s = pick(g.t, "escsource", synEsc[:len(synEsc)-1])
		}
		p.src += s
		p.ms = append(p.ms, &rnode{kind: "lit", val: lits(s), src: true})
	case 2:
		q := g.brackets("tuple")
		p.src += q.src
		p.ms = append(p.ms, q.ms...)
	case 3:
		q := g.brackets("block")
		p.src += q.src
		p.ms = append(p.ms, q.ms...)
	case 4:
		q := g.brackets("expr")
		p.src += q.src
		p.ms = append(p.ms, q.ms...)
	}
	for i, n := 0, stretch(g.t, "sels", 0, 3); i < n && g.spend(2); i++ {
		q := g.brackets(pick(g.t, "sel", []string{"expr", "tuple", "block"}))
		p.src += q.src
		p.ms = append(p.ms, q.ms...)
	}
	return p
}

func join(ms []*rnode, q []*rnode) []*rnode {
	for _, m := range q {
		if m.kind == "lit" && !m.src {
			addLit(&ms, m.pos, m.val, false)
		} else {
			ms = append(ms, m)
		}
	}
	return ms
}

func lit(s string) []*rnode { return []*rnode{{kind: "lit", val: s}} }

// word draws a word; eol: it is a line comment, which must be followed by a newline.
func (g *synGen) word() (p part, eol bool) {
	first := true
	k := g.n("wordkind", 0, 15)
	if k >= 6 && !g.spend(1) {
		k = 0
	}
	add := func(q part) { p.src += q.src; p.ms = join(p.ms, q.ms) }
	noText := false // the next piece must not start with plain text
	noQuote := false
	switch k {
	case 0, 1, 2:
	case 11:
		add(g.str())
		first = false
		noText = p.src == `""`
		noQuote = true
	case 12:
		n := stretch(g.t, "here", 3, 6)
		s := ""
		for i, m := 0, stretch(g.t, "raws", 0, 6); i < m; i++ {
			s += pick(g.t, "raw", synRaw)
		}
		q := strings.Repeat("\"", n)
		// shorten inner runs of the same length, keep the ends clear of quotes
		s = strings.ReplaceAll(s, q, "'")
		s = strings.Trim(s, "\"")
		if s == "" || strings.HasSuffix(s, "\\") {
			s += "x"
		}
		add(part{q + s + q, []*rnode{{kind: "here", n: n, val: s}}})
		for _, r := range refLex(s) {
			if s[r.start] == '"' && r.end-r.start == n {
				return part{"z", lit("z")}, false
			}
		}
		first = false
		noQuote = true
	case 13:
		add(g.tagged())
		first = false
		noQuote = true
	case 14:
		n := stretch(g.t, "clen", 1, 3)
		s := ""
		for i, m := 0, stretch(g.t, "raws", 0, 6); i < m; i++ {
			s += pick(g.t, "raw", synRaw)
		}
		if strings.HasSuffix(s, "\\") {
			s += "x"
		}
		h := strings.Repeat("#", n)
		// balanced content only: comments of the same length must nest
		depth := 0
		ks := refLex(s)
		for i, r := range ks {
			if i+1 < len(ks) {
				nx := ks[i+1]
				if s[r.start] == '#' && r.end-r.start == n && s[nx.start] == '{' {
					depth++
				}
				if s[r.start] == '}' && s[nx.start] == '#' && nx.end-nx.start == n {
					depth--
				}
			}
			if depth < 0 {
				break
			}
		}
		if depth != 0 || strings.HasSuffix(s, "#") || strings.HasPrefix(s, "#") || strings.HasSuffix(s, "}") {
			s = " c " + h + "{ in }" + h + " "
		}
		add(part{h + "{" + s + "}" + h, []*rnode{{kind: "bc", n: n, val: s}}})
		first = false
		if g.n("glue", 0, 3) > 0 {
			return p, false
		}
		noQuote = true
		// '#' right after would lengthen the closing run
		for _, q := range []string{"a", "(b)", "$c"} {
			if g.n("post", 0, 1) == 1 {
				switch q {
				case "a":
					add(part{q, lit(q)})
				case "(b)":
					add(part{q, []*rnode{{kind: "tuple", sub: []rsent{{words: []*rword{{ms: lit("b")}}}}}}})
				case "$c":
					add(part{q, []*rnode{{kind: "sub", val: "$"}, {kind: "lit", val: "c", src: true}}})
				}
				break
			}
		}
		return p, false
	case 15:
		n := stretch(g.t, "clen", 1, 3)
		s := ""
		for i, m := 0, stretch(g.t, "raws", 0, 5); i < m; i++ {
			s += pick(g.t, "raw", synRaw)
		}
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\\\n", " "), "\n", " ")
		s = strings.TrimLeft(s, "#{")
		if strings.HasSuffix(s, "\\") {
			s += "x"
		}
		h := strings.Repeat("#", n)
		return part{h + s, []*rnode{{kind: "lc", n: n, val: lits(s)}}}, true
	}
	_ = noQuote
	for i, n := 0, 1+g.n("more", 0, 2)*g.n("compound", 0, 1); i < n; i++ {
		if !first && i > 0 || first {
		}
		pk := g.n("piece", 0, 7)
		if pk >= 4 && !g.spend(1) {
			pk = 0
		}
		if !first && k >= 11 && i == 0 && g.n("alone", 0, 3) > 0 {
			break // mostly leave strings alone
		}
		switch pk {
		case 0, 1, 2, 3:
			s := g.literal(first, noText || endsWithText(p.src))
			add(part{s, lit(lits(s))})
		case 4:
			add(g.brackets("tuple"))
		case 5:
			add(g.brackets("block"))
		case 6:
			add(g.brackets("expr"))
		case 7:
			add(g.chain(false))
		}
		first, noText = false, false
	}
	if g.n("stale", 0, 11) == 11 && p.src != "" {
		s := pick(g.t, "staletext", []string{"$", "$$", "$*", "$*$"})
		add(part{s, lit(s)})
	}
	return p, false
}

func (g *synGen) str() part {
	m := &rnode{kind: "str"}
	src := `"`
	for i, n := 0, stretch(g.t, "strparts", 0, 4); i < n; i++ {
		k := g.n("sp", 0, 8)
		if k >= 6 && !g.spend(1) {
			k = 0
		}
		chain := len(m.ms) > 0 && chainEnd(m.ms)
		switch k {
		case 0, 1:
			if endsWithText(src) {
				src += " "
				m.ms = join(m.ms, lit(" "))
			} else {
				s := long(g.t, pick(g.t, "text", synText))
				src += s
				m.ms = join(m.ms, lit(s))
			}
		case 2:
			s := pick(g.t, "esc", synEsc)
			src += s
			m.ms = join(m.ms, lit(lits(s)))
		case 3, 4:
			opts := []string{" ", "\n", ";", ")", "}", "]", "#", "##", "*", "\\\n ", "\t"}
			if !chain {
				opts = append(opts, "(", "{", "(x)", "{y}")
			}
			s := pick(g.t, "delim", opts)
			if strings.HasSuffix(src, "#") && s[0] == '#' {
				s = "\n"
			}
			if s == " " || s == "\t" {
				if n := len(src); isWS(src[n-1]) && n > 1 { // merges with the previous run: same literal
					s = "\n"
				}
			}
			src += s
			m.ms = join(m.ms, lit(lits(s)))
		case 5:
			// stale dollar, followed by something that is no source
			s := pick(g.t, "stale", []string{"$ ", "$)", "$\n", "$;", "$* ", "$$ ", "$\\n"})
			src += s
			m.ms = join(m.ms, lit(lits(s)))
		case 6:
			q := g.brackets("expr")
			src += q.src
			m.ms = join(m.ms, q.ms)
		default:
			q := g.chain(true)
			src += q.src
			m.ms = join(m.ms, q.ms)
		}
	}
	return part{src + `"`, []*rnode{m}}
}

// chainEnd reports whether the morphemes end with a substitution source or its selectors.
func chainEnd(ms []*rnode) bool {
	for i := len(ms) - 1; i >= 0; i-- {
		switch ms[i].kind {
		case "lit":
			return ms[i].src
		case "sub":
			return true
		}
	}
	return false
}

func (g *synGen) tagged() part {
	tag := pick(g.t, "tag", []string{"T", "EOF", "é", "a-b", strings.Repeat("TAG", 30)})
	head := pick(g.t, "head", []string{"", " some comment", ";x {", " \"", "(", "#c"})
	pre := pick(g.t, "prefix", []string{"", " ", "  ", "\t "})
	val, body := "", ""
	for i, n := 0, stretch(g.t, "lines", 0, 4); i < n; i++ {
		l := ""
		for j, m := 0, stretch(g.t, "raws", 0, 4); j < m; j++ {
			l += pick(g.t, "raw", synRaw)
		}
		l = strings.ReplaceAll(l, "\\\n", "/")
		l = strings.ReplaceAll(strings.ReplaceAll(l, "\n", "/"), tag, "/")
		if strings.HasSuffix(l, "\\") {
			l += "/"
		}
		if g.n("short", 0, 4) == 4 {
			// a line shorter than the prefix loses what it has
			s := pre[:g.n("shortlen", 0, len(pre))]
			body += s + "\n"
			val += "\n"
			continue
		}
		body += pre + l + "\n"
		val += l + "\n"
	}
	return part{`""` + tag + head + "\n" + body + pre + tag + `""`, []*rnode{{kind: "tag", tag: tag, val: val}}}
}

// script draws sentences; nested scripts may be empty.
func (g *synGen) script(min int, nested bool) (string, []rsent) {
	var b strings.Builder
	var out []rsent
	max := 3
	if nested {
		max = 2
	}
	n := g.n("sentences", min, max)
	if g.budget <= 0 && n > 1 {
		n = 1
	}
	if g.budget > 0 && rare(g.t) {
		n = g.n("sentences", 10, 70)
	}
	space := func(p int) {
		if g.n("sp?", 0, 9) < p {
			b.WriteString(pick(g.t, "space", synSpace))
		}
	}
	space(2)
	if g.n("leadsep", 0, 9) == 9 {
		b.WriteString(pick(g.t, "sep", synSep))
	}
	for i := 0; i < n; i++ {
		s := rsent{}
		nw := g.n("words", 1, 4)
		many := g.budget > 0 && rare(g.t)
		if many {
			nw = g.n("words", 9, 70)
		}
		eol := false
		for j := 0; j < nw && !eol; j++ {
			if g.budget <= 0 && j > 1 && !many {
				break
			}
			var p part
			p, eol = g.word()
			if j > 0 {
				b.WriteString(pick(g.t, "space", synSpace))
			}
			b.WriteString(p.src)
			s.words = append(s.words, &rword{ms: p.ms})
		}
		out = append(out, s)
		if eol {
			if i < n-1 || nested || g.n("nl", 0, 1) == 0 {
				b.WriteString("\n")
			}
			continue
		}
		space(2)
		if i < n-1 {
			b.WriteString(pick(g.t, "sep", synSep))
			space(2)
		} else if g.n("trail", 0, 5) == 5 {
			b.WriteString(pick(g.t, "sep", synSep))
		}
	}
	return b.String(), out
}

// drawScript draws a well-formed script text with its tree.
func drawScript(t *rapid.T, budget int) (string, []rsent) {
	g := &synGen{t: t, budget: budget}
	return g.script(1, false)
}

// TreeCase is a source text with the tree it stands for.
type TreeCase struct {
	Src  textT
	Want string
}

func (c TreeCase) String() string { return fmt.Sprintf("%q", string(c.Src)) }
