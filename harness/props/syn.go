package props

import (
	"fmt"
	"strconv"
	"strings"

	"helena/core"
)

// rnode is a morpheme of the reference syntax tree.
type rnode struct {
	kind string // lit tuple block expr str here tag lc bc sub
	val  string
	tag  string
	n    int
	exp  bool
	src  bool // literal which is the source of a substitution
	pos  [3]int
	end  int // end offset of a bracketed construct, string or comment
	sub  []rsent
	ms   []*rnode
}
type rword struct {
	pos [3]int
	ms  []*rnode
	val rv // constant word (scripts made of tuples)
}
type rsent struct {
	pos   [3]int
	words []*rword
}

// refParse is a recursive-descent parser written from the syntax rules.
type refParser struct {
	src  string
	toks []refToken
	i    int
}

func refParse(src string) (sents []rsent, msg string) {
	p := &refParser{src: src, toks: refLex(src)}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(synErr); ok {
				msg = string(s)
				return
			}
			panic(e)
		}
	}()
	return p.script(-1), ""
}

type synErr string

func (p *refParser) end() bool { return p.i >= len(p.toks) }
func (p *refParser) kind() core.TokenType {
	if p.end() {
		return -1
	}
	return p.toks[p.i].kind
}
func (p *refParser) seq(k refToken) string { return p.src[k.start:k.end] }
func tpos(k refToken) [3]int               { return [3]int{k.start, k.line, k.col} }

var closers = map[core.TokenType]string{
	core.TokenType_CLOSE_TUPLE: "parenthesis", core.TokenType_CLOSE_BLOCK: "brace", core.TokenType_CLOSE_EXPRESSION: "bracket",
}

// script parses sentences up to the closing token (consumed), or end of text if closer is -1.
func (p *refParser) script(closer core.TokenType) (out []rsent) {
	var cur *rsent
	flush := func() {
		if cur != nil {
			out = append(out, *cur)
			cur = nil
		}
	}
	for {
		if p.end() {
			flush()
			if closer >= 0 {
				panic(synErr("unmatched left " + closers[closer]))
			}
			return
		}
		k := p.toks[p.i]
		if name, ok := closers[k.kind]; ok {
			if k.kind == closer {
				p.i++
				flush()
				return
			}
			if closer < 0 {
				panic(synErr("unmatched right " + name))
			}
			panic(synErr("mismatched right " + name))
		}
		switch k.kind {
		case core.TokenType_WHITESPACE, core.TokenType_CONTINUATION:
			p.i++
		case core.TokenType_NEWLINE, core.TokenType_SEMICOLON:
			p.i++
			flush()
		default:
			if cur == nil {
				cur = &rsent{pos: tpos(k)}
			}
			w := &rword{pos: tpos(k)}
			cur.words = append(cur.words, w)
			if p.word(w) {
				flush()
			}
		}
	}
}

func addLit(ms *[]*rnode, pos [3]int, val string, src bool) {
	if n := len(*ms); n > 0 && !src {
		if l := (*ms)[n-1]; l.kind == "lit" && !l.src {
			l.val += val
			return
		}
	}
	*ms = append(*ms, &rnode{kind: "lit", val: val, src: src, pos: pos})
}

// stale turns trailing substitution marks into text.
func stale(ms *[]*rnode) {
	n := len(*ms)
	for n > 0 && (*ms)[n-1].kind == "sub" {
		n--
	}
	if n == len(*ms) {
		return
	}
	text := ""
	for _, m := range (*ms)[n:] {
		text += m.val
	}
	pos := (*ms)[n].pos
	*ms = (*ms)[:n]
	addLit(ms, pos, text, false)
}

func lastIsSub(ms []*rnode) bool { return len(ms) > 0 && ms[len(ms)-1].kind == "sub" }

func (p *refParser) dollar(ms *[]*rnode) {
	k := p.toks[p.i]
	p.i++
	m := &rnode{kind: "sub", val: "$", pos: tpos(k)}
	if p.kind() == core.TokenType_ASTERISK {
		m.val += "*"
		m.exp = !lastIsSub(*ms)
		p.i++
	}
	*ms = append(*ms, m)
}

func (p *refParser) nested(ms *[]*rnode) {
	k := p.toks[p.i]
	p.i++
	m := &rnode{pos: tpos(k)}
	*ms = append(*ms, m)
	switch k.kind {
	case core.TokenType_OPEN_TUPLE:
		m.kind = "tuple"
		m.sub = p.script(core.TokenType_CLOSE_TUPLE)
	case core.TokenType_OPEN_EXPRESSION:
		m.kind = "expr"
		m.sub = p.script(core.TokenType_CLOSE_EXPRESSION)
	case core.TokenType_OPEN_BLOCK:
		m.kind = "block"
		st := p.i
		m.sub = p.script(core.TokenType_CLOSE_BLOCK)
		for _, t := range p.toks[st : p.i-1] {
			m.val += t.lit
		}
	}
	m.end = p.offset()
}

// offset is where the current token starts.
func (p *refParser) offset() int {
	if p.i == 0 || len(p.toks) == 0 {
		return 0
	}
	return p.toks[min(p.i, len(p.toks))-1].end
}

// word parses one word; true if a line comment ended the sentence too.
func (p *refParser) word(w *rword) (eol bool) {
	ms := &w.ms
	first := true
	for ; ; first = false {
		switch p.kind() {
		case -1, core.TokenType_WHITESPACE, core.TokenType_CONTINUATION, core.TokenType_NEWLINE, core.TokenType_SEMICOLON,
			core.TokenType_CLOSE_TUPLE, core.TokenType_CLOSE_BLOCK, core.TokenType_CLOSE_EXPRESSION:
			stale(ms)
			return
		}
		k := p.toks[p.i]
		switch k.kind {
		case core.TokenType_TEXT, core.TokenType_ESCAPE, core.TokenType_ASTERISK:
			addLit(ms, tpos(k), k.lit, lastIsSub(*ms))
			p.i++
		case core.TokenType_DOLLAR:
			p.dollar(ms)
		case core.TokenType_OPEN_TUPLE, core.TokenType_OPEN_BLOCK, core.TokenType_OPEN_EXPRESSION:
			p.nested(ms)
		case core.TokenType_STRING_DELIMITER:
			if !first {
				panic(synErr("unexpected string delimiter"))
			}
			p.str(ms)
		case core.TokenType_COMMENT:
			if lastIsSub(*ms) {
				panic(synErr("unexpected comment delimiter"))
			}
			if !first {
				addLit(ms, tpos(k), k.lit, false)
				p.i++
				continue
			}
			if p.comment(ms) {
				return true
			}
		}
	}
}

func (p *refParser) str(ms *[]*rnode) {
	k := p.toks[p.i]
	p.i++
	m := &rnode{pos: tpos(k)}
	*ms = append(*ms, m)
	defer func() { m.end = p.offset() }()
	switch n := k.end - k.start; {
	case n == 1:
		m.kind = "str"
		p.strBody(m)
	case n == 2 && p.kind() != core.TokenType_TEXT:
		m.kind = "str"
	case n == 2:
		m.kind = "tag"
		m.tag = p.toks[p.i].lit
		// the header runs to the end of the line
		for !p.end() && p.kind() != core.TokenType_NEWLINE {
			p.i++
		}
		p.i++
		st := p.i
		for ; ; p.i++ {
			if p.i >= len(p.toks) {
				panic(synErr("unmatched tagged string delimiter"))
			}
			if p.kind() == core.TokenType_TEXT && p.toks[p.i].lit == m.tag && p.i+1 < len(p.toks) {
				if e := p.toks[p.i+1]; e.kind == core.TokenType_STRING_DELIMITER && e.end-e.start == 2 {
					break
				}
			}
		}
		raw := ""
		if st < len(p.toks) {
			raw = p.src[p.toks[st].start:p.toks[p.i].start]
		}
		p.i += 2
		lines := strings.Split(raw, "\n")
		pre := len(lines[len(lines)-1])
		for i, l := range lines {
			lines[i] = l[min(pre, len(l)):]
		}
		m.val = strings.Join(lines, "\n")
	default:
		m.kind, m.n = "here", n
		st := p.i
		for ; ; p.i++ {
			if p.end() {
				panic(synErr("unmatched here-string delimiter"))
			}
			if e := p.toks[p.i]; e.kind == core.TokenType_STRING_DELIMITER && e.end-e.start == n {
				break
			}
		}
		m.val = p.src[p.toks[st].start:p.toks[p.i].start]
		p.i++
	}
}

func (p *refParser) strBody(m *rnode) {
	ms := &m.ms
	chain := false // right after a substitution source or its selectors
	for {
		if p.end() {
			panic(synErr("unmatched string delimiter"))
		}
		k := p.toks[p.i]
		if lastIsSub(*ms) {
			switch k.kind {
			case core.TokenType_TEXT, core.TokenType_DOLLAR, core.TokenType_OPEN_BLOCK, core.TokenType_OPEN_EXPRESSION:
			default:
				stale(ms)
				chain = false
			}
		}
		expect := lastIsSub(*ms)
		text := func() {
			addLit(ms, tpos(k), k.lit, expect)
			chain = expect
			p.i++
		}
		switch k.kind {
		case core.TokenType_DOLLAR:
			p.dollar(ms)
			chain = false
		case core.TokenType_STRING_DELIMITER:
			if k.end-k.start != 1 {
				panic(synErr("extra characters after string delimiter"))
			}
			p.i++
			return
		case core.TokenType_OPEN_EXPRESSION:
			p.nested(ms)
			chain = chain || expect
		case core.TokenType_OPEN_TUPLE, core.TokenType_OPEN_BLOCK:
			if chain || expect {
				p.nested(ms)
				chain = true
			} else {
				text()
			}
		default:
			text()
		}
	}
}

// comment parses a comment; true for a line comment ended by its newline.
func (p *refParser) comment(ms *[]*rnode) bool {
	k := p.toks[p.i]
	p.i++
	m := &rnode{pos: tpos(k), n: k.end - k.start}
	*ms = append(*ms, m)
	defer func() { m.end = p.offset() }()
	if p.kind() != core.TokenType_OPEN_BLOCK {
		m.kind = "lc"
		for !p.end() && p.kind() != core.TokenType_NEWLINE {
			m.val += p.toks[p.i].lit
			p.i++
		}
		if p.end() {
			return false
		}
		p.i++
		return true
	}
	m.kind = "bc"
	p.i++
	st := p.i
	is := func(i int, kind core.TokenType) bool { return i < len(p.toks) && p.toks[i].kind == kind }
	mark := func(i int) bool {
		return is(i, core.TokenType_COMMENT) && p.toks[i].end-p.toks[i].start == m.n
	}
	for depth := 1; ; p.i++ {
		if p.end() {
			panic(synErr("unmatched block comment delimiter"))
		}
		if mark(p.i) && is(p.i+1, core.TokenType_OPEN_BLOCK) {
			depth++
		}
		if is(p.i, core.TokenType_CLOSE_BLOCK) && mark(p.i+1) {
			if depth--; depth == 0 {
				break
			}
		}
	}
	m.val = p.src[p.toks[st].start:p.toks[p.i].start]
	p.i += 2
	return false
}

func reprSents(ss []rsent, pos bool) string {
	var b strings.Builder
	rsents(&b, ss, pos)
	return b.String()
}
func at(b *strings.Builder, p [3]int, pos bool) {
	if pos {
		fmt.Fprintf(b, "@%d:%d:%d", p[0], p[1], p[2])
	}
}
func rsents(b *strings.Builder, ss []rsent, pos bool) {
	for i, s := range ss {
		if i > 0 {
			b.WriteString("; ")
		}
		at(b, s.pos, pos)
		for j, w := range s.words {
			if j > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("<")
			at(b, w.pos, pos)
			for _, m := range w.ms {
				rmorph(b, m, pos)
			}
			b.WriteString(">")
		}
	}
}
func rmorph(b *strings.Builder, m *rnode, pos bool) {
	at(b, m.pos, pos)
	switch m.kind {
	case "lit":
		b.WriteString("lit" + strconv.Quote(m.val))
	case "tuple":
		b.WriteString("(")
		rsents(b, m.sub, pos)
		b.WriteString(")")
	case "block":
		b.WriteString("{" + strconv.Quote(m.val) + " ")
		rsents(b, m.sub, pos)
		b.WriteString("}")
	case "expr":
		b.WriteString("[")
		rsents(b, m.sub, pos)
		b.WriteString("]")
	case "str":
		b.WriteString("str(")
		for _, y := range m.ms {
			rmorph(b, y, pos)
		}
		b.WriteString(")")
	case "here":
		fmt.Fprintf(b, "here%d%s", m.n, strconv.Quote(m.val))
	case "tag":
		fmt.Fprintf(b, "tag%s%s", strconv.Quote(m.tag), strconv.Quote(m.val))
	case "lc":
		fmt.Fprintf(b, "lc%d%s", m.n, strconv.Quote(m.val))
	case "bc":
		fmt.Fprintf(b, "bc%d%s", m.n, strconv.Quote(m.val))
	case "sub":
		fmt.Fprintf(b, "sub(%v,%s)", m.exp, strconv.Quote(m.val))
	}
}
