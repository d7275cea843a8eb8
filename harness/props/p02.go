package props

import (
	"fmt"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"

	"pgregory.net/rapid"
	"verifharness/h"
	"verifharness/hx"
)

type anyVars struct{}

func (anyVars) Resolve(name string) core.Value {
	switch name {
	case "a":
		return core.LIST([]core.Value{core.STR("x"), core.STR("b")})
	case "b":
		return core.DICT(map[string]core.Value{"a": core.STR("a"), "b": core.TUPLE([]core.Value{core.STR("a"), core.STR("b")})})
	case "T":
		return nil
	}
	return core.STR(name)
}

type anyCmds struct{}

func (anyCmds) Resolve(name core.Value) core.Command {
	return hx.Func(func(args []core.Value, _ any) core.Result {
		if len(args) == 1 {
			return core.OK(args[0])
		}
		return core.OK(core.TUPLE(append([]core.Value{}, args[1:]...)))
	})
}

type anySels struct{}

func (anySels) Resolve(rules []core.Value) (core.Result, core.Selector) {
	r, s := core.CreateGenericSelector(rules)
	return r, s
}

// textScope is an interpreter where short names are commands.
func textScope(pos, stack bool) *hd.Scope {
	s := hx.NewOpt(pos, stack)
	if o := hx.Eval(s, `set a [list (x b)]; set b (a b); set name [dict (a b)]; macro cmd {*args} {idem $args}; closure T {*args} {idem $args}; alias é cmd`); o.Code != "ok" {
		panic(o.String())
	}
	return s
}

const probeText = `set probe [list (1 2 3)]; idem "$[+ 1 2]-$probe[1]-[list $probe length]"`
const probeWant = `ok "3-2-3"`

func probe(s *hd.Scope) error {
	if o := hx.Eval(s, probeText); o.String() != probeWant {
		return fmt.Errorf("afterwards %s gives %v", probeText, o)
	}
	return nil
}

func init() {
	h.Reg("P02", "text", "texts of every kind submitted to the parser, the evaluator and interpreters; non-trivial: at least three tokens", 40000, 2000000,
		func(t *rapid.T) TextCase {
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				return TextCase{textT(lexText(t, 16))}
			case 1:
				return TextCase{textT(soup(t, 16))}
			case 2:
				s, _ := drawScript(t, 14)
				return TextCase{textT(mutate(t, s))}
			}
			s, _ := drawScript(t, 14)
			// sentences headed by a command that exists, words of every shape
			return TextCase{textT("idem (" + mutate(t, s) + ")")}
		},
		func(c TextCase, r *h.Rec) error {
			src := string(c.Src)
			if len(refLex(src)) >= 3 {
				r.NonTrivial(src)
			}
			_, msg := refParse(src)
			if _, err := hx.Parse(src); (err == nil) != (msg == "") {
				return fmt.Errorf("%q: parser says %v, syntax rules say %q", src, err, msg)
			}
			run := func() string {
				var out []string
				for _, opt := range []bool{false, true} {
					s := textScope(opt, opt)
					o := hx.Eval(s, src)
					out = append(out, o.String())
					if err := probe(s); err != nil {
						return "BAD " + err.Error()
					}
					// the same text as the body of a command and as a list, in the same interpreter
					if script, err := hx.Parse(src); err == nil {
						s.SetNamedVariable("text", core.NewScriptValue(script, src))
						out = append(out, hx.Eval(s, `catch {list $text} error e {idem $e}`).String())
						s.SetNamedVariable("text", core.NewScriptValue(script, src))
						out = append(out, hx.Eval(s, `catch {dict $text} error e {idem $e}; catch {tuple $text} error e {idem $e}`).String())
						out = append(out, hx.Eval(s, `catch {argspec $text} error e {idem $e}`).String())
						out = append(out, hx.Eval(s, `catch {[closure {} $text]} error e {idem (error $e)}`).String())
						out = append(out, hx.Eval(s, `catch {loop x {idem a; break} $text; eval $text} error e {idem (error $e)}`).String())
						if err := probe(s); err != nil {
							return "BAD " + err.Error()
						}
					}
				}
				if script, err := hx.Parse(src); err == nil {
					ev := core.NewCompilingEvaluator(anyVars{}, anyCmds{}, anySels{}, nil)
					out = append(out, hx.Out(ev.EvaluateScript(script)).String())
					for _, s := range script.Sentences {
						out = append(out, hx.Out(ev.EvaluateSentence(s)).String())
						for _, w := range s.Words {
							out = append(out, hx.Out(ev.EvaluateWord(w.Word)).String())
						}
					}
				}
				return strings.Join(out, "\n")
			}
			one, two := run(), run()
			if strings.HasPrefix(one, "BAD ") {
				return fmt.Errorf("%q: %s", src, one)
			}
			if one != two {
				return fmt.Errorf("%q: first outcome\n%s\nsecond\n%s", src, one, two)
			}
			if msg == "" {
				r.Label("program")
			} else {
				r.Label("rejected")
			}
			return nil
		})
	h.Reg("P02", "deep", "deeply nested and long texts; non-trivial: always", 300, 6000,
		func(t *rapid.T) DeepCase {
			c := DeepCase{N: rapid.IntRange(1, 3000).Draw(t, "n"), A: pick(t, "open", []string{"(", "[", "{", "$(", "$[", "a(", "a[", "\"[", "[\"$", "$$", "#{", "\"\"T\n", "((", "\\", "$*(", "{a;"}),
				M: textT(pick(t, "mid", []string{"", "a", "a b", "$"})), Z: pick(t, "close", []string{")", "]", "}", "\"", "]\"", "}#", "T\"\"", "))", ""})}
			if strings.Contains(c.A, "{") && c.N > 300 {
				c.N = 300 // the text of nested blocks takes cubic time
			}
			return c
		},
		func(c DeepCase, r *h.Rec) error {
			src := strings.Repeat(c.A, c.N) + string(c.M) + strings.Repeat(c.Z, c.N)
			r.NonTrivial(fmt.Sprint(c))
			_, msg := refParse(src)
			if _, err := hx.Parse(src); (err == nil) != (msg == "") {
				return fmt.Errorf("%.80q...: parser says %v, syntax rules say %q", src, err, msg)
			}
			s := textScope(false, true)
			a := hx.Eval(s, src)
			if err := probe(s); err != nil {
				return err
			}
			if b := hx.Eval(textScope(false, true), src); a != b {
				return fmt.Errorf("%.80q...: %v then %v", src, a, b)
			}
			return nil
		})
}

// DeepCase is a text made of N openings, a middle and N closings.
type DeepCase struct {
	N    int
	A, Z string
	M    hx.Text
}
