package props

import (
	"fmt"
	"strings"

	"helena/core"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/hx"
)

// pout is the outcome of a parse: ok/invalid/unfinished, and tree or message.
type pout struct{ class, text string }

func outOf(pr core.ParseResult, closing, pos bool) pout {
	if pr.Success {
		if pos {
			return pout{"ok", hx.ScriptReprPos(*pr.Script)}
		}
		return pout{"ok", hx.ScriptRepr(*pr.Script)}
	}
	if closing {
		return pout{"unfinished", pr.Message}
	}
	return pout{"invalid", pr.Message}
}

func tokStream(src string, pos bool) *core.ArrayTokenStream {
	if !pos {
		return core.NewArrayTokenStream(core.Tokenizer{}.Tokenize(src), nil)
	}
	in := core.NewStringStream(src)
	out := core.NewArrayTokenStream([]core.Token{}, in.Source())
	(&core.Tokenizer{}).TokenizeStream(in, out)
	return out
}

// stepwise parses one token at a time; steps < 0 means to the end.
func stepwise(p *core.Parser, src string, pos bool, steps int) pout {
	p.Begin(tokStream(src, pos))
	for n := 0; !p.End(); n++ {
		if steps >= 0 && n >= steps {
			return pout{"abandoned", ""}
		}
		if n > 4*len(src)+8 {
			return pout{"endless", ""}
		}
		if pr := p.Next(); !pr.Success {
			return outOf(pr, false, pos)
		}
	}
	return outOf(p.CloseStream(), true, pos)
}

func viaStream(p *core.Parser, src string, pos bool) pout {
	if pr := p.ParseStream(tokStream(src, pos)); !pr.Success {
		return outOf(pr, false, pos)
	}
	return outOf(p.CloseStream(), true, pos)
}

// whole parses at once; the class of an error is not known then.
func whole(p *core.Parser, src string, pos bool, tokens bool) pout {
	var pr core.ParseResult
	if tokens {
		st := tokStream(src, pos)
		var ts []core.Token
		for !st.End() {
			ts = append(ts, st.Next())
		}
		pr = p.ParseTokens(ts, st.Source())
	} else {
		pr = p.Parse(tokStream(src, pos))
	}
	return outOf(pr, false, pos)
}

func refOut(src string) pout {
	ss, msg := refParse(src)
	switch {
	case msg == "":
		return pout{"ok", reprSents(ss, false)}
	case strings.HasPrefix(msg, "unmatched left ") || strings.HasPrefix(msg, "unmatched string") || strings.HasPrefix(msg, "unmatched here") ||
		strings.HasPrefix(msg, "unmatched tagged") || strings.HasPrefix(msg, "unmatched block comment"):
		return pout{"unfinished", msg}
	}
	return pout{"invalid", msg}
}

func newParser(pos bool) *core.Parser {
	return core.NewParser(&core.ParserOptions{CapturePositions: pos})
}

func agree(src string, pos bool) (pout, error) {
	a := stepwise(newParser(pos), src, pos, -1)
	b := viaStream(newParser(pos), src, pos)
	if a != b {
		return a, fmt.Errorf("%q: token by token: %v; from a stream: %v", src, a, b)
	}
	for _, tk := range []bool{false, true} {
		c := whole(newParser(pos), src, pos, tk)
		if c.text != a.text || (c.class == "ok") != (a.class == "ok") {
			return a, fmt.Errorf("%q: at once: %v; token by token: %v", src, c, a)
		}
	}
	return a, nil
}

// HistCase is a history of texts through one parser.
type HistCase struct {
	Pos   bool
	Steps []HistStep
}

// HistStep is one text, parsed in one of the modes, perhaps abandoned half-way.
type HistStep struct {
	Src  hx.Text
	Mode int
	Stop int
}

// CutCase is a well-formed text and a cut offset (all cuts when negative).
type CutCase struct {
	Src hx.Text
}

func init() {
	h.Reg("P04", "modes", "token soups and scripts parsed in four ways; non-trivial: at least four tokens", 100000, 2500000,
		func(t *rapid.T) TextCase {
			if chance(t, "script", 30) {
				s, _ := drawScript(t, 12)
				return TextCase{textT(mutate(t, s))}
			}
			return TextCase{textT(soup(t, 14))}
		},
		func(c TextCase, r *h.Rec) error {
			src := string(c.Src)
			a, err := agree(src, false)
			if err != nil {
				return err
			}
			if _, err := agree(src, true); err != nil {
				return err
			}
			r.Label(a.class)
			if len(refLex(src)) >= 4 {
				r.NonTrivial(src)
			}
			if w := refOut(src); w.class != a.class {
				return fmt.Errorf("%q: parser says %v, syntax rules say %v", src, a, w)
			}
			return nil
		})
	h.Reg("P04", "cut", "well-formed scripts cut at every offset (every few characters for those beyond 500); non-trivial: the script holds a delimited construct", 6000, 150000,
		func(t *rapid.T) CutCase {
			s, _ := drawScript(t, rapid.IntRange(4, 20).Draw(t, "budget"))
			return CutCase{textT(s)}
		},
		func(c CutCase, r *h.Rec) error {
			src := string(c.Src)
			ref, msg := refParse(src)
			if msg != "" {
				return nil
			}
			open := make([]bool, len(src)+1)
			var walk func(ss []rsent)
			mark := func(m *rnode, n int) {
				for i := m.pos[0] + n; i < m.end; i++ {
					open[i] = true
				}
				r.NonTrivial(src)
				r.Label(m.kind)
			}
			var morphs func(ms []*rnode)
			morphs = func(ms []*rnode) {
				for _, m := range ms {
					switch m.kind {
					case "tuple", "block", "expr", "str":
						mark(m, 1)
					case "here":
						mark(m, m.n)
					case "tag":
						mark(m, 3)
					case "bc":
						mark(m, m.n+1)
					}
					morphs(m.ms)
					walk(m.sub)
				}
			}
			walk = func(ss []rsent) {
				for _, s := range ss {
					for _, w := range s.words {
						morphs(w.ms)
					}
				}
			}
			walk(ref)
			boundary := map[int]bool{}
			for _, k := range refLex(src) {
				boundary[k.start] = true
				boundary[k.end] = true
			}
			reused := newParser(false)
			step := 1
			if len(src) > 500 {
				// long runs of one character: not every offset of them
				step = len(src)/250 + 1
			}
			for i := 0; i <= len(src); i++ {
				if i%step != 0 && i != len(src) && len(src)-i > 50 && !(boundary[i] && i < 200) {
					continue
				}
				pre := src[:i]
				a := stepwise(newParser(false), pre, false, -1)
				if b := viaStream(reused, pre, false); a != b {
					return fmt.Errorf("%q: fresh parser: %v; reused parser: %v", pre, a, b)
				}
				if a.class == "invalid" {
					return fmt.Errorf("%q, a prefix of a well-formed script, is rejected as invalid: %s", pre, a.text)
				}
				if boundary[i] && open[i] && a.class != "unfinished" {
					return fmt.Errorf("%q ends inside a construct but parses as %v", pre, a)
				}
				if i == len(src) && a.class != "ok" {
					return fmt.Errorf("%q: %v", pre, a)
				}
			}
			return nil
		})
	h.Reg("P04", "reuse", "histories of texts through one parser, some abandoned half-way; non-trivial: at least two texts", 60000, 1500000,
		func(t *rapid.T) HistCase {
			c := HistCase{Pos: rapid.Bool().Draw(t, "pos")}
			n := rapid.IntRange(1, 5).Draw(t, "texts")
			for i := 0; i < n; i++ {
				c.Steps = append(c.Steps, HistStep{Src: textT(soup(t, 8)), Mode: rapid.IntRange(0, 4).Draw(t, "mode"), Stop: rapid.IntRange(0, 8).Draw(t, "stop")})
			}
			return c
		},
		func(c HistCase, r *h.Rec) error {
			p := newParser(c.Pos)
			key := ""
			for i, s := range c.Steps {
				src := string(s.Src)
				do := func(p *core.Parser) pout {
					switch s.Mode {
					case 0:
						return stepwise(p, src, c.Pos, -1)
					case 1:
						return viaStream(p, src, c.Pos)
					case 2:
						return whole(p, src, c.Pos, true)
					case 3:
						return whole(p, src, c.Pos, false)
					}
					return stepwise(p, src, c.Pos, s.Stop)
				}
				want, got := do(newParser(c.Pos)), do(p)
				if got != want {
					return fmt.Errorf("text %d %q: reused parser: %v; fresh parser: %v", i, src, got, want)
				}
				r.Label(want.class)
				key += fmt.Sprint(s.Mode, src, "|")
			}
			if len(c.Steps) > 1 {
				r.NonTrivial(key)
			}
			return nil
		})
}

// mutate makes a few random edits in a text.
func mutate(t *rapid.T, s string) string {
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "edits"); i < n && len(s) > 0; i++ {
		p := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		switch rapid.IntRange(0, 3).Draw(t, "edit") {
		case 0:
			s = s[:p] + s[p+1:]
		case 1:
			s = s[:p] + pick(t, "ins", soupAtoms) + s[p:]
		case 2:
			s = s[:p]
		case 3:
			q := rapid.IntRange(p, len(s)).Draw(t, "to")
			s = s[:p] + s[p:q] + s[p:q] + s[q:]
		}
	}
	return s
}
