package props

import (
	"fmt"
	"sort"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

const diffFuel = 20000

// regDiff registers a differential check of whole programs in a profile.
func regDiff(prop, name, rule string, p profile, quick, thorough int, mk func() *hd.Scope, nontrivial func(s session, st diffStats) bool) {
	profiles[prop+name] = p
	h.Reg(prop, name, rule, quick, thorough,
		func(t *rapid.T) session { return drawSession(t, p) },
		func(s session, r *h.Rec) error { return runDiff(s, r, mk, nontrivial) })
}

func runDiff(s session, r *h.Rec, mk func() *hd.Scope, nontrivial func(s session, st diffStats) bool) error {
	st, good, err := diffSession(s, diffFuel, mk)
	if !good {
		r.Label("discarded: too long")
		return nil
	}
	if err != nil {
		return err
	}
	label(r, st)
	if nontrivial(s, st) {
		r.NonTrivial(strings.Join(s.Scripts, "\n"))
	}
	return nil
}

func label(r *h.Rec, st diffStats) {
	for c := range st.codes {
		r.Label("result " + c)
	}
	ks := []string{}
	for k := range st.hits {
		if known := progLabels[k]; known {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Label("cmd " + k)
	}
	r.Labelf("traced calls %s", bucket(st.calls))
	if st.yields > 0 {
		r.Label("yields")
	}
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 4:
		return "1-3"
	case n < 10:
		return "4-9"
	case n < 30:
		return "10-29"
	}
	return "30+"
}

var progLabels = map[string]bool{}

func init() {
	for _, n := range strings.Fields("let set get unset exists if while loop when catch return yield error break continue pass eval macro closure proc alias ensemble namespace scope coroutine && || ! + - * / list dict string tuple script parse argspec ^ |>") {
		progLabels[n] = true
	}
}

// hitAny counts how many of the names were executed.
func hitAny(st diffStats, names string) (n int) {
	for _, x := range strings.Fields(names) {
		if st.hits[x] > 0 {
			n++
		}
	}
	return
}

func init() {
	p := baseProfile()
	p.odd, p.trace, p.defs, p.calls, p.colls, p.budget = 40, 20, 1, 2, 6, 50
	regDiff("P05", "programs", "programs of all word shapes over traced commands, compared with the reference evaluator (result, trace, variables); non-trivial: at least 3 traced calls", p, 40000, 1500000, nil,
		func(s session, st diffStats) bool { return st.calls >= 3 })

	h.Reg("P05", "words", "single sentences with deep words, evaluated by the core compiler with resolvers of our own (generic selectors included); non-trivial: a substitution and a selector", 60000, 2000000,
		func(t *rapid.T) CoreCase {
			g := &coreGen{t: t}
			c := CoreCase{}
			for i, n := 0, rapid.IntRange(1, 2).Draw(t, "sents"); i < n; i++ {
				g.left = 14
				c.Sents = append(c.Sents, g.sentence())
			}
			c.Sep = rapid.IntRange(0, 3).Draw(t, "sep")
			c.Stop = rapid.IntRange(0, 40).Draw(t, "stop")
			return c
		}, runCore)
}

// ---- the core compiler and executor with resolvers of the check

// CoreCase is a script made of sentences; the Stop-th call of the command "u" does not complete normally.
type CoreCase struct {
	Sents []string
	Sep   int
	Stop  int
}

type coreGen struct {
	t    *rapid.T
	left int
}

func (g *coreGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *coreGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *coreGen) opt(as ...func() string) string {
	return as[g.n(0, len(as)-1)]()
}

func (g *coreGen) sentence() string {
	s := g.pick("u", "u", "u", "v", "u", "[u u]")
	for i, n := 0, g.n(0, 3); i < n; i++ {
		s += " " + g.word()
	}
	return s
}
func (g *coreGen) script() string {
	s := []string{}
	for i, n := 0, g.n(1, 2); i < n; i++ {
		s = append(s, g.sentence())
	}
	return strings.Join(s, ";")
}
func (g *coreGen) words(lo, hi int) string {
	s := []string{}
	for i, n := 0, g.n(lo, hi); i < n; i++ {
		s = append(s, g.word())
	}
	return strings.Join(s, g.pick(" ", "\n", ";"))
}

func (g *coreGen) lit() string { return g.pick("a", "b", "l", "d", "tt", "n1", "0", "1", "k1", "zz") }

func (g *coreGen) word() string {
	if g.left--; g.left <= 0 {
		return g.lit()
	}
	if chance(g.t, "good", 65) {
		return g.good()
	}
	return g.opt(
		g.lit,
		g.subst,
		func() string { return "[" + g.script() + "]" },
		func() string { return "(" + g.words(0, 3) + ")" },
		g.subst,
		g.qualified,
		g.compound,
		func() string { return "\"" + g.stems() + "\"" },
		func() string { return "{" + g.pick("", "a b", "x;y") + "}" },
		func() string { return g.pick("\"\"\"h\"\"\"", "\"\"T\nx\nT\"\"", "#{c}#", "*(a b)") },
	)
}

// good words refer to what exists.
func (g *coreGen) good() string {
	if g.left--; g.left <= 0 {
		return g.lit()
	}
	return g.opt(
		func() string { return g.str() },
		func() string {
			return g.pick("x", "") + "\"" + g.pick("", "p") + g.strPart() + g.pick("", " q") + g.strPart() + "\""
		},
		func() string { return g.pick("x", "p-") + g.strPart() + g.pick("", "q") + g.strPart() },
		func() string { return "(" + g.good() + " " + g.pick("", "*") + "(" + g.good() + ") " + g.good() + ")" },
		func() string { return "$" + g.pick("", "*") + "(" + g.pick("a", "a b", "a (b n1) a", "l d", "") + ")" },
		func() string { return "$" + g.pick("", "*", "*$", "$") + g.pick("tt", "[v tt]") },
		func() string { return "$" + g.pick("", "*") + "(l [u l])" + g.idx() },
		func() string {
			return "$" + g.pick("", "*") + "[v lt]" + g.idx() + g.pick("", "(k1)", "{r "+g.good()+"}")
		},
		func() string { return "$(d dd)" + g.pick("(k1)", "(k2)", "{r1; r2 [u x]}") },
		func() string {
			return "$" + g.pick("a", "l", "d", "tt", "(a b)") + "{" + g.pick("r1", "r1 "+g.good(), "r1; "+g.good(), "[u r] $*(a b)") + "}"
		},
		func() string {
			return g.pick("a", "l", "(l d)", "{x y}") + g.pick("", g.idx()) + g.pick("(k1)", "(k1 "+g.good()+")", "{r}", g.idx()) + g.pick("", "(k2)", g.idx())
		},
		func() string { return "$[v " + g.pick("l", "d", "dd") + "(k1)" + g.pick("", "[v 0]") + "]" },
		func() string { return "[" + g.pick("u", "v") + " " + g.good() + "]" },
		func() string {
			return "$$[u " + g.pick("l[v 0]", "l[u 1]", "dd(k1 k2)", "(dd(k2)[v 0] a)", "d(k2)[u 1]") + "]"
		},
	)
}
func (g *coreGen) idx() string {
	return "[" + g.pick("v 0", "u 0", "u 1", "u "+g.good()+" 0", "v $i0", "u;v 1", "$$[u i1]") + "]"
}
func (g *coreGen) keys() string {
	return "(" + g.pick("k1", "[u k1]", "$kk", "$*(kk)", "[v kk]") + ")"
}

// str is a word whose value is a string.
func (g *coreGen) str() string {
	return g.opt(
		func() string { return "$a" },
		func() string { return g.strPart() },
		func() string { return "$$" + g.pick("n1", "{n1}", "[u n1]", "$nn") },
	)
}
func (g *coreGen) strPart() string {
	return g.opt(
		func() string { return g.pick("$a", "${x y}", "$[u a]") },
		func() string { return "[u " + g.pick("s", "$a", "x [u y]") + "]" },
		func() string { return "$l" + g.idx() },
		func() string { return "$d" + g.keys() },
		func() string { return "$[v dd](k1)" + g.keys() },
		func() string { return "$dd(k2)" + "[u 0]" + g.keys() },
		func() string { return "$[v dd](k1 k2)" },
		func() string { return "$$$nn" },
		func() string { return "$$[u l[v 0]]" },
		func() string { return "$a" + g.idx() },
		func() string { return "$d(k2)" + g.idx() },
	)
}

func (g *coreGen) source() string {
	return g.opt(
		func() string { return g.pick("a", "b", "l", "d", "tt", "n1", "nn", "dd", "zz") },
		func() string { return "{" + g.pick("a", "l", "d", "tt", "x y") + "}" },
		func() string { return "(" + g.words(0, 2) + ")" },
		func() string { return "[" + g.script() + "]" },
		func() string { return "[v " + g.pick("l", "d", "dd", "tt", "a", "nn") + "]" },
	)
}
func (g *coreGen) selectors(lo, hi int) string {
	s := ""
	for i, n := 0, g.n(lo, hi); i < n; i++ {
		s += g.opt(
			func() string { return "[" + g.pick("v 0", "v 1", "v 2", "u 0", "u 1") + "]" },
			func() string { return "(" + g.pick("k1", "k2", "k1 k2", "a", "k2 k1") + ")" },
			func() string { return "[" + g.script() + "]" },
			func() string { return "(" + g.words(0, 2) + ")" },
			func() string { return "{" + g.words(1, 2) + "}" },
			func() string { return "{" + g.pick("r1", "r1; r2 x", "") + "}" },
		)
	}
	return s
}
func (g *coreGen) subst() string {
	return "$" + g.pick("", "", "", "$", "*", "*$", "$$") + g.source() + g.selectors(0, 3)
}
func (g *coreGen) qualified() string {
	return g.opt(
		func() string { return g.pick("a", "l", "d", "tt") },
		func() string { return "{" + g.pick("a", "l", "x y") + "}" },
		func() string { return "(" + g.words(1, 2) + ")" },
	) + g.selectors(1, 3)
}
func (g *coreGen) compound() string {
	return g.pick("x", "l", "-") + g.stems()
}
func (g *coreGen) stems() string {
	s := ""
	for i, n := 0, g.n(1, 3); i < n; i++ {
		s += g.opt(
			func() string { return g.pick("p", "q.", "é") },
			func() string { return "[" + g.script() + "]" },
			func() string {
				return "$" + g.pick("", "", "$") + g.pick("a", "b", "n1", "{a}", "[v a]") + g.selectors(0, 1)
			},
			func() string { return "$" + g.pick("l", "d", "tt", "[v l]", "[v d]", "dd") + g.selectors(0, 2) },
		)
	}
	return s
}

// markRules is the selector of the check: it pairs the value with the rules.
type markRules struct{ rules []core.Value }

func (m markRules) Apply(v core.Value) core.Result {
	if s, is := v.(core.Selectable); is {
		return s.Select(m)
	}
	return core.OK(core.TUPLE([]core.Value{core.STR("rules"), core.LIST([]core.Value{v}), core.TUPLE(m.rules)}))
}

type coreWorld struct {
	vars  map[string]core.Value
	trace [][]core.Value
	count int
	stop  int
}

func (w *coreWorld) variable(name string) core.Value { return w.vars[name] }

type varRes struct{ w *coreWorld }

func (r varRes) Resolve(name string) core.Value {
	if v, has := r.w.vars[name]; has {
		return v
	}
	return nil
}

type cmdRes struct{ w *coreWorld }

func (r cmdRes) Resolve(name core.Value) core.Command {
	res, s := core.ValueToString(name)
	if res.Code != core.ResultCode_OK {
		return nil
	}
	w := r.w
	switch s {
	case "u":
		return hx.Func(func(a []core.Value, _ any) core.Result {
			w.trace = append(w.trace, append([]core.Value{}, a...))
			w.count++
			var v core.Value = core.NIL
			if len(a) > 1 {
				v = a[len(a)-1]
			}
			if w.count == w.stop {
				return []core.Result{core.RETURN(v), core.BREAK(core.STR("brk")), core.ERROR("stopped"), core.CONTINUE(v)}[w.stop%4]
			}
			return core.OK(v)
		})
	case "v":
		return hx.Func(func(a []core.Value, _ any) core.Result {
			if len(a) > 1 {
				if res, s := core.ValueToString(a[1]); res.Code == core.ResultCode_OK {
					if v, has := w.vars[s]; has {
						return core.OK(v)
					}
				}
				return core.OK(a[1])
			}
			return core.OK(core.STR("u"))
		})
	}
	return nil
}

type selRes struct{}

func (selRes) Resolve(rules []core.Value) (core.Result, core.Selector) {
	if len(rules) == 0 {
		return core.ERROR("no rules"), nil
	}
	return core.OK(core.NIL), markRules{append([]core.Value{}, rules...)}
}

func runCore(c CoreCase, r *h.Rec) error {
	src := strings.Join(c.Sents, []string{";", "\n", " ; ", "\n\n"}[c.Sep%4])
	ss, msg := refParse(src)
	script, perr := hx.Parse(src)
	if (msg != "") != (perr != nil) {
		return fmt.Errorf("%q: parse: %v, expected %q", src, perr, msg)
	}
	if msg != "" {
		r.Label("parse error")
		return nil
	}
	// the reference
	in := newRint(diffFuel)
	defer in.close()
	in.rules = true
	var want []event
	count := 0
	root := in.root.ctx
	root.vars = coreRefVars()
	in.root.def("u", func(in *rint, sc *rscope, a []rv) rres {
		want = append(want, event{call: append([]rv{}, a...)})
		count++
		v := rv(rNil{})
		if len(a) > 1 {
			v = a[len(a)-1]
		}
		if count == c.Stop {
			return []rres{{cReturn, v}, {cBreak, "brk"}, {cError, "stopped"}, {cContinue, v}}[c.Stop%4]
		}
		return ok(v)
	})
	in.root.def("v", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) > 1 {
			if s, good := rstr(a[1]); good {
				if v, has := root.vars[s]; has {
					return ok(v)
				}
			}
			return ok(a[1])
		}
		return ok("u")
	})
	in.only = true
	exp := in.once(func() rres { return in.evalScript(in.root, &rScript{src: &src, ss: ss}) })
	for _, opts := range []*core.CompilerOptions{nil, {CapturePositions: true}} {
		w := &coreWorld{vars: coreRealVars(), stop: c.Stop}
		comp := core.NewCompiler(opts)
		res, prog := comp.TryCompileScript(script)
		if res.Code == core.ResultCode_OK {
			ex := core.Executor{VariableResolver: varRes{w}, CommandResolver: cmdRes{w}, SelectorResolver: selRes{}}
			res = ex.Execute(prog, nil)
		}
		if !rsameRes(exp, res) {
			return fmt.Errorf("%q: result %s, expected %s", src, hx.Out(res), exp)
		}
		for i := 0; i < len(want) || i < len(w.trace); i++ {
			if i >= len(want) || i >= len(w.trace) || !rsame(rTuple{want[i].call}, core.TUPLE(w.trace[i])) {
				return fmt.Errorf("%q: call %d differs: got %d calls, expected %d", src, i, len(w.trace), len(want))
			}
		}
	}
	r.Label(rcodes[exp.code])
	if len(want) > 0 && strings.Contains(src, "$") && exp.code == cOK {
		r.NonTrivial(src)
	}
	return nil
}

func coreRefVars() map[string]rv {
	return map[string]rv{
		"a": "b", "b": "bee", "n1": "a", "nn": "n1", "x y": "xy",
		"l":  rList{[]rv{"l0", "l1", rTuple{[]rv{"a", "b"}}}},
		"d":  rDict{map[string]rv{"k1": "v1", "k2": rList{[]rv{"w0", "w1"}}}},
		"dd": rDict{map[string]rv{"k1": rDict{map[string]rv{"k1": "a", "k2": "deep"}}, "k2": rList{[]rv{rDict{map[string]rv{"k1": "b"}}}}}},
		"tt": rTuple{[]rv{"a", "b", rTuple{[]rv{"n1"}}}},
		"zz": rTuple{[]rv{}}, "i0": "0", "i1": "1", "kk": "k1",
		"lt": rTuple{[]rv{rList{[]rv{rDict{map[string]rv{"k1": "x"}}, "y"}}, rList{[]rv{rDict{map[string]rv{"k1": "a"}}, "a"}}}},
	}
}
func coreRealVars() map[string]core.Value {
	S := func(s string) core.Value { return core.STR(s) }
	return map[string]core.Value{
		"a": S("b"), "b": S("bee"), "n1": S("a"), "nn": S("n1"), "x y": S("xy"),
		"l":  core.LIST([]core.Value{S("l0"), S("l1"), core.TUPLE([]core.Value{S("a"), S("b")})}),
		"d":  core.DICT(map[string]core.Value{"k1": S("v1"), "k2": core.LIST([]core.Value{S("w0"), S("w1")})}),
		"dd": core.DICT(map[string]core.Value{"k1": core.DICT(map[string]core.Value{"k1": S("a"), "k2": S("deep")}), "k2": core.LIST([]core.Value{core.DICT(map[string]core.Value{"k1": S("b")})})}),
		"tt": core.TUPLE([]core.Value{S("a"), S("b"), core.TUPLE([]core.Value{S("n1")})}),
		"zz": core.TUPLE([]core.Value{}), "i0": S("0"), "i1": S("1"), "kk": S("k1"),
		"lt": core.TUPLE([]core.Value{core.LIST([]core.Value{core.DICT(map[string]core.Value{"k1": S("x")}), S("y")}), core.LIST([]core.Value{core.DICT(map[string]core.Value{"k1": S("a")}), S("a")})}),
	}
}

// hitSum counts the executions of the named commands.
func hitSum(st diffStats, names string) (n int) {
	for _, x := range strings.Fields(names) {
		n += st.hits[x]
	}
	return
}
