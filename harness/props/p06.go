package props

import (
	"fmt"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

type DisplayCase struct{ Vals []DV }

// displayFn displays the values which the core leaves to the dialect.
func displayFn(x any) string {
	switch v := x.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, displayFn)
	case core.DictionaryValue:
		return hd.DisplayDictionaryValue(v, displayFn)
	case core.CommandValue:
		return core.UndisplayableValueWithLabel("command")
	}
	return core.DefaultDisplayFunction(x)
}

func (d DV) hasDict() bool {
	if d.K == "dict" && len(d.Sub) > 1 {
		return true
	}
	for _, x := range d.Sub {
		if x.hasDict() {
			return true
		}
	}
	for _, s := range d.Sel {
		for _, x := range s.Sub {
			if x.hasDict() {
				return true
			}
		}
	}
	return false
}

func (d DV) kinds(f func(string)) {
	k := d.K
	if k == "str" {
		if s := string(d.S); core.DisplayLiteralOrString(s) != s {
			k = "quoted"
		}
	}
	f(k)
	for _, x := range d.Sub {
		x.kinds(f)
	}
	for _, s := range d.Sel {
		f("sel " + s.K)
		for _, x := range s.Sub {
			x.kinds(f)
		}
	}
}

// scopeRes resolves the commands of a scope; ruleRes makes the core generic selectors.
type scopeRes struct{ s *hd.Scope }

func (r scopeRes) Resolve(name core.Value) core.Command { return r.s.ResolveCommand(name) }

type ruleRes struct{}

func (ruleRes) Resolve(rules []core.Value) (core.Result, core.Selector) {
	res, sel := core.CreateGenericSelector(append([]core.Value{}, rules...))
	return res, sel
}

// readBack evaluates one displayed word and returns the value.
func readBack(s *hd.Scope, words string) ([]core.Value, error) {
	script, err := hx.Parse("(" + words + ")")
	if err != nil {
		return nil, err
	}
	if len(script.Sentences) != 1 || len(script.Sentences[0].Words) != 1 {
		return nil, fmt.Errorf("reads as %d sentences", len(script.Sentences))
	}
	script, err = hx.Parse("idem (" + words + ")")
	if err != nil {
		return nil, err
	}
	res, prog := core.NewCompiler(nil).TryCompileScript(script)
	if res.Code != core.ResultCode_OK {
		return nil, fmt.Errorf("compiles to %s", hx.Out(res))
	}
	ex := core.Executor{CommandResolver: scopeRes{s}, SelectorResolver: ruleRes{}, Context: s}
	r := ex.Execute(prog, nil)
	if r.Code != core.ResultCode_OK {
		return nil, fmt.Errorf("evaluates to %s", hx.Out(r))
	}
	return r.Value.(core.TupleValue).Values, nil
}

func init() {
	h.Reg("P06", "roundtrip", "at least one value has a string needing quotes, a script, a qualified word or nesting", 12000, 400000,
		func(t *rapid.T) DisplayCase {
			c := DisplayCase{}
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
				c.Vals = append(c.Vals, drawDV(t, 3, true))
			}
			return c
		},
		func(c DisplayCase, r *h.Rec) error {
			words, want := []string{}, []string{}
			for _, d := range c.Vals {
				v := d.value()
				w := core.Display(v, displayFn)
				if !d.hasDict() {
					if w2 := core.Display(d.value(), displayFn); w2 != w {
						return fmt.Errorf("displayed as %q and as %q", w, w2)
					}
				}
				words = append(words, w)
				want = append(want, hx.Repr(d.asRead().value()))
				d.kinds(func(k string) {
					r.Label(k)
					if k != "str" && k != "int" && k != "bool" && k != "real" {
						r.NonTrivial(strings.Join(words, " "))
					}
				})
			}
			s := hx.New()
			// each alone, then all together
			for i, w := range words {
				got, err := readBack(s, w)
				if err != nil {
					return fmt.Errorf("%s is displayed as %q which %v", want[i], w, err)
				}
				if len(got) != 1 || hx.Repr(got[0]) != want[i] {
					return fmt.Errorf("%s is displayed as %q which reads back as %s", want[i], w, hx.Repr(core.TUPLE(got)))
				}
			}
			all := strings.Join(words, " ")
			got, err := readBack(s, all)
			if err != nil || hx.Repr(core.TUPLE(got)) != "T("+strings.Join(want, " ")+")" {
				return fmt.Errorf("%q reads back as %s (%v), expected %s", all, hx.Repr(core.TUPLE(got)), err, strings.Join(want, " "))
			}
			return nil
		})

	h.Reg("P06", "total", "the value has no readable form (command, custom value, script without source)", 4000, 100000,
		func(t *rapid.T) DV { return drawDV(t, 3, false) },
		func(d DV, r *h.Rec) error {
			v := d.value()
			odd := false
			d.kinds(func(k string) {
				if k == "cmd" || k == "custom" || k == "nosrc" {
					odd = true
				}
			})
			if odd {
				r.NonTrivial(hx.Repr(v))
			}
			for i, fn := range []core.DisplayFunction{displayFn, nil, core.DefaultDisplayFunction} {
				w := core.Display(v, fn)
				if w == "" {
					return fmt.Errorf("%s is displayed as nothing", hx.Repr(v))
				}
				if !d.hasDict() || i > 0 {
					if w2 := core.Display(d.value(), fn); w2 != w {
						return fmt.Errorf("displayed as %q and as %q", w, w2)
					}
				}
				if o, is := v.(core.Displayable); is {
					if w2 := o.Display(fn); w2 == "" {
						return fmt.Errorf("%s displays itself as nothing", hx.Repr(v))
					}
				}
				// the display is one well-formed word
				script, err := hx.Parse(w)
				if err != nil {
					return fmt.Errorf("%s is displayed as %q: %v", hx.Repr(v), w, err)
				}
				if len(script.Sentences) != 1 || len(script.Sentences[0].Words) != 1 {
					return fmt.Errorf("%s is displayed as %q which is not one word", hx.Repr(v), w)
				}
			}
			return nil
		})
}
