package props

import (
	"fmt"
	"strings"

	"helena/core"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/hx"
)

// refToken is a token of the reference lexer.
type refToken struct {
	kind      core.TokenType
	start     int
	end       int
	line, col int
	lit       string
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' }

func digitsAt(s string, i, max, base int) (n int, v uint32) {
	for n < max && i+n < len(s) {
		c := s[i+n]
		d := -1
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d < 0 || d >= base {
			break
		}
		v = v*uint32(base) + uint32(d)
		n++
	}
	return
}

// refLex tokenizes by regular decomposition of the text: at each offset the
// lexical rule that applies gives the extent, kind and literal of the token.
func refLex(s string) []refToken {
	var toks []refToken
	line, col := 0, 0
	special := " \t\r\f\n\\#(){}[]\"$;*"
	for i := 0; i < len(s); {
		k := refToken{start: i, line: line, col: col}
		j := i + 1
		run := func(c byte) {
			for j < len(s) && s[j] == c {
				j++
			}
		}
		lit := ""
		useLit := false
		switch c := s[i]; c {
		case ' ', '\t', '\r', '\f':
			for j < len(s) && isWS(s[j]) {
				j++
			}
			k.kind = core.TokenType_WHITESPACE
		case '\n':
			k.kind = core.TokenType_NEWLINE
		case '#':
			run('#')
			k.kind = core.TokenType_COMMENT
		case '"':
			run('"')
			k.kind = core.TokenType_STRING_DELIMITER
		case '(':
			k.kind = core.TokenType_OPEN_TUPLE
		case ')':
			k.kind = core.TokenType_CLOSE_TUPLE
		case '{':
			k.kind = core.TokenType_OPEN_BLOCK
		case '}':
			k.kind = core.TokenType_CLOSE_BLOCK
		case '[':
			k.kind = core.TokenType_OPEN_EXPRESSION
		case ']':
			k.kind = core.TokenType_CLOSE_EXPRESSION
		case '$':
			k.kind = core.TokenType_DOLLAR
		case ';':
			k.kind = core.TokenType_SEMICOLON
		case '*':
			k.kind = core.TokenType_ASTERISK
		case '\\':
			useLit = true
			if i+1 == len(s) {
				k.kind, lit = core.TokenType_TEXT, "\\"
				break
			}
			j = i + 2
			e := s[i+1]
			if e == '\n' {
				for j < len(s) && isWS(s[j]) {
					j++
				}
				k.kind, lit = core.TokenType_CONTINUATION, " "
				break
			}
			k.kind = core.TokenType_ESCAPE
			if p := strings.IndexByte("abfnrtv\\", e); p >= 0 {
				lit = "\a\b\f\n\r\t\v\\"[p : p+1]
			} else if e >= '0' && e <= '7' {
				n, v := digitsAt(s, i+1, 3, 8)
				j = i + 1 + n
				lit = string(rune(v))
			} else if p := strings.IndexByte("xuU", e); p >= 0 {
				n, v := digitsAt(s, i+2, []int{2, 4, 8}[p], 16)
				j = i + 2 + n
				if n == 0 {
					lit = s[i+1 : i+2]
				} else if v > 0x10FFFF {
					lit = "\uFFFD"
				} else {
					lit = string(rune(v))
				}
			} else {
				lit = s[i+1 : i+2]
			}
		default:
			for j < len(s) && strings.IndexByte(special, s[j]) < 0 {
				j++
			}
			k.kind = core.TokenType_TEXT
		}
		k.end = j
		if useLit {
			k.lit = lit
		} else {
			k.lit = s[i:j]
		}
		toks = append(toks, k)
		for ; i < j; i++ {
			if s[i] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
	}
	return toks
}

func checkTokens(src string, got []core.Token) error {
	var cat strings.Builder
	for _, k := range got {
		cat.WriteString(k.Sequence)
	}
	if cat.String() != src {
		return fmt.Errorf("token sequences concatenate to %q, source is %q", cat.String(), src)
	}
	want := refLex(src)
	for i, w := range want {
		if i >= len(got) {
			return fmt.Errorf("token %d missing: want kind %v %q", i, w.kind, src[w.start:w.end])
		}
		g := got[i]
		if g.Type != w.kind || g.Sequence != src[w.start:w.end] {
			return fmt.Errorf("token %d of %q: got kind %v %q, want kind %v %q", i, src, g.Type, g.Sequence, w.kind, src[w.start:w.end])
		}
		if g.Literal != w.lit {
			return fmt.Errorf("token %d %q of %q: literal %q, want %q", i, g.Sequence, src, g.Literal, w.lit)
		}
		if int(g.Position.Index) != w.start || int(g.Position.Line) != w.line || int(g.Position.Column) != w.col {
			return fmt.Errorf("token %d %q of %q: position %+v, want index %d line %d column %d", i, g.Sequence, src, g.Position, w.start, w.line, w.col)
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("extra token %d: %+v", len(want), got[len(want)])
	}
	return nil
}

func streamTokens(src string) (batch, pulled []core.Token) {
	in := core.NewStringStream(src)
	out := core.NewArrayTokenStream([]core.Token{}, in.Source())
	(&core.Tokenizer{}).TokenizeStream(in, out)
	for !out.End() {
		batch = append(batch, out.Next())
	}
	tz := &core.Tokenizer{}
	// a tokenizer that was used before, possibly half-way, starts afresh
	tz.Begin(core.NewStringStream("left over"))
	tz.Next()
	tz.Begin(core.NewStringStream(src))
	for n := 0; !tz.End() && n < 10*len(src)+10; n++ {
		if k := tz.Next(); k != nil {
			pulled = append(pulled, *k)
		}
	}
	return
}

func sameTokens(a, b []core.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	run := func(c TextCase, r *h.Rec) error {
		src := string(c.Src)
		got := core.Tokenizer{}.Tokenize(src)
		if len(got) >= 2 {
			r.NonTrivial(src)
		}
		for _, k := range got {
			r.Labelf("kind%d", k.Type)
		}
		if err := checkTokens(src, got); err != nil {
			return err
		}
		batch, pulled := streamTokens(src)
		if !sameTokens(got, batch) {
			return fmt.Errorf("tokenizing %q as a stream gives %v, at once %v", src, batch, got)
		}
		if !sameTokens(got, pulled) {
			return fmt.Errorf("pulling tokens of %q gives %v, at once %v", src, pulled, got)
		}
		return nil
	}
	h.Reg("P01", "lex", "texts of lexically interesting atoms and bytes; non-trivial: at least two tokens", 400000, 6000000,
		func(t *rapid.T) TextCase { return TextCase{hx.Text(lexText(t, 24))} }, run)
	h.Reg("P01", "escape", "one escape sequence of every form between text; non-trivial: at least two tokens", 200000, 3000000,
		func(t *rapid.T) TextCase {
			digits := func(max int, set string) string {
				n := rapid.IntRange(0, max).Draw(t, "nd")
				b := make([]byte, n)
				for i := range b {
					b[i] = set[rapid.IntRange(0, len(set)-1).Draw(t, "d")]
				}
				return string(b)
			}
			hex := "0123456789abcdefABCDEF"
			var esc string
			switch rapid.IntRange(0, 4).Draw(t, "form") {
			case 0:
				esc = digits(5, "01234567")
			case 1:
				esc = "x" + digits(4, hex)
			case 2:
				esc = "u" + digits(6, hex)
			case 3:
				esc = "U" + digits(10, hex)
			case 4:
				esc = string([]byte{byte(rapid.IntRange(0, 255).Draw(t, "c"))})
			}
			pre := pick(t, "pre", []string{"", "a", "\n", " ", "\\"})
			post := pick(t, "post", append([]string{""}, lexAtoms...))
			return TextCase{hx.Text(pre + "\\" + esc + post)}
		}, run)
	h.Reg("P01", "long", "long texts with many lines; non-trivial: several lines", 3000, 40000,
		func(t *rapid.T) TextCase {
			var b strings.Builder
			n := rapid.IntRange(1, 60).Draw(t, "lines")
			for i := 0; i < n; i++ {
				b.WriteString(lexText(t, 12))
				b.WriteByte('\n')
			}
			return TextCase{hx.Text(b.String())}
		}, run)
}
