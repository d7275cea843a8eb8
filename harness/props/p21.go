package props

import (
	"fmt"
	"strings"

	"helena/core"
	"helena/picol_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// The reference semantics of the Picol dialect, on the evaluation rules of the reference
// interpreter with commands resolved by name only.

func picolEmpty(r rres) rres {
	if _, isNil := r.v.(rNil); isNil {
		return ok("")
	}
	return ok(r.v)
}

func (in *rint) picolScript(sc *rscope, v rv) rres {
	s, is := v.(*rScript)
	if !is {
		return rfail()
	}
	return in.evalScript(sc, s)
}

func (in *rint) picolCond(sc *rscope, v rv) (bool, *rres) {
	bad := rfail()
	switch x := v.(type) {
	case bool:
		return x, nil
	case int64:
		return x != 0, nil
	case *rScript:
		r := in.evalScript(sc, x)
		if r.code != cOK {
			return false, &r
		}
		b, good := rbool(r.v)
		if !good {
			return false, &bad
		}
		return b, nil
	}
	s, _ := rstr(v)
	switch s {
	case "true", "yes":
		return true, nil
	case "false", "no":
		return false, nil
	}
	if n, good := refInt(s); good {
		return n != 0, nil
	}
	return false, &bad
}

func picolReal(f float64) rres { return ok(f) }

func (in *rint) picolCommands() {
	root := in.root
	arith := func(name string, least int, one func(float64) float64, f func(a, b float64) float64) {
		root.def(name, func(in *rint, sc *rscope, a []rv) rres {
			if len(a) < least {
				return rfail()
			}
			total := 0.0
			for i, x := range a[1:] {
				n, good := rfloat(x)
				if !good {
					return rfail()
				}
				if i == 0 {
					total = n
				} else {
					total = f(total, n)
				}
			}
			if len(a) == 2 {
				total = one(total)
			}
			return picolReal(total)
		})
	}
	same := func(x float64) float64 { return x }
	arith("+", 2, same, func(a, b float64) float64 { return a + b })
	arith("-", 2, func(x float64) float64 { return -x }, func(a, b float64) float64 { return a - b })
	arith("*", 2, same, func(a, b float64) float64 { return a * b })
	arith("/", 3, same, func(a, b float64) float64 { return a / b })
	compare := func(name string, f func(a, b rv) (bool, bool)) {
		root.def(name, func(in *rint, sc *rscope, a []rv) rres {
			if len(a) != 3 {
				return rfail()
			}
			b, good := f(a[1], a[2])
			if !good {
				return rfail()
			}
			return ok(b)
		})
	}
	text := func(v rv) (string, bool) {
		if _, isNil := v.(rNil); isNil {
			return "", true
		}
		return rstr(v)
	}
	equal := func(a, b rv) (bool, bool) {
		x, g1 := text(a)
		y, g2 := text(b)
		return x == y, g1 && g2
	}
	compare("==", equal)
	compare("!=", func(a, b rv) (bool, bool) { e, g := equal(a, b); return !e, g })
	number := func(name string, f func(a, b float64) bool) {
		compare(name, func(a, b rv) (bool, bool) {
			x, g1 := rfloat(a)
			y, g2 := rfloat(b)
			return f(x, y), g1 && g2
		})
	}
	number(">", func(a, b float64) bool { return a > b })
	number(">=", func(a, b float64) bool { return a >= b })
	number("<", func(a, b float64) bool { return a < b })
	number("<=", func(a, b float64) bool { return a <= b })

	root.def("!", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 {
			return rfail()
		}
		b, x := in.picolCond(sc, a[1])
		if x != nil {
			return *x
		}
		return ok(!b)
	})
	logic := func(name string, stop bool) {
		root.def(name, func(in *rint, sc *rscope, a []rv) rres {
			if len(a) < 2 {
				return rfail()
			}
			for _, v := range a[1:] {
				b, x := in.picolCond(sc, v)
				if x != nil {
					return *x
				}
				if b == stop {
					return ok(stop)
				}
			}
			return ok(!stop)
		})
	}
	logic("&&", false)
	logic("||", true)

	root.def("if", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 3 && len(a) != 5 {
			return rfail()
		}
		b, x := in.picolCond(sc, a[1])
		if x != nil {
			return *x
		}
		body := a[2]
		if !b {
			if len(a) == 3 {
				return ok("")
			}
			body = a[4]
		}
		r := in.picolScript(sc, body)
		if r.code != cOK {
			return r
		}
		return picolEmpty(r)
	})
	loop := func(in *rint, sc *rscope, test rv, body, next *rScript) rres {
		for {
			if in.fuel--; in.fuel < 0 {
				panic(rFuel{})
			}
			b, x := in.picolCond(sc, test)
			if x != nil {
				return *x
			}
			if !b {
				return ok("")
			}
			r := in.evalScript(sc, body)
			switch r.code {
			case cBreak:
				return ok("")
			case cOK, cContinue:
			default:
				return r
			}
			if next != nil {
				if r := in.evalScript(sc, next); r.code != cOK {
					return r
				}
			}
		}
	}
	root.def("while", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 3 {
			return rfail()
		}
		body, is := a[2].(*rScript)
		if !is {
			return rfail()
		}
		return loop(in, sc, a[1], body, nil)
	})
	root.def("for", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 5 {
			return rfail()
		}
		start, g1 := a[1].(*rScript)
		next, g2 := a[3].(*rScript)
		body, g3 := a[4].(*rScript)
		if !g1 || !g2 || !g3 {
			return rfail()
		}
		if r := in.evalScript(sc, start); r.code != cOK {
			return r
		}
		return loop(in, sc, a[2], body, next)
	})
	root.def("set", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 && len(a) != 3 {
			return rfail()
		}
		n, _ := rstr(a[1])
		if len(a) == 3 {
			sc.ctx.vars[n] = a[2]
			return ok(a[2])
		}
		if v, has := sc.ctx.vars[n]; has {
			return ok(v)
		}
		return rfail()
	})
	root.def("incr", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 && len(a) != 3 {
			return rfail()
		}
		by := int64(1)
		if len(a) == 3 {
			n, good := rinteger(a[2])
			if !good {
				return rfail()
			}
			by = n
		}
		name, _ := rstr(a[1])
		n := int64(0)
		if v, has := sc.ctx.vars[name]; has {
			x, good := rinteger(v)
			if !good {
				return rfail()
			}
			n = x
		}
		sc.ctx.vars[name] = n + by
		return ok(n + by)
	})
	root.def("return", func(in *rint, sc *rscope, a []rv) rres {
		switch len(a) {
		case 1:
			return rres{cReturn, ""}
		case 2:
			return rres{cReturn, a[1]}
		}
		return rfail()
	})
	for name, code := range map[string]int{"break": cBreak, "continue": cContinue} {
		root.def(name, func(in *rint, sc *rscope, a []rv) rres {
			if len(a) != 1 {
				return rfail()
			}
			return rres{code, rNil{}}
		})
	}
	root.def("error", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 {
			return rfail()
		}
		return rres{cError, a[1]}
	})
	type spec struct {
		name string
		def  rv
		has  bool
	}
	root.def("proc", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 4 {
			return rfail()
		}
		list := func(v rv) ([]rv, bool) {
			if _, is := v.(rList); is {
				return nil, false
			}
			return rarray(v)
		}
		words, good := list(a[2])
		if !good {
			return rfail()
		}
		var specs []spec
		for _, w := range words {
			s := spec{}
			if _, is := w.(*rScript); is {
				fields, good := list(w)
				if !good || len(fields) < 1 || len(fields) > 2 {
					return rfail()
				}
				s.name, _ = rstr(fields[0])
				if s.name == "" {
					return rfail()
				}
				if len(fields) == 2 {
					s.def, s.has = fields[1], true
				}
			} else {
				s.name, _ = rstr(w)
			}
			specs = append(specs, s)
		}
		body, is := a[3].(*rScript)
		if !is {
			return rfail()
		}
		name, _ := rstr(a[1])
		sc.def(name, func(in *rint, caller *rscope, a []rv) rres {
			frame := caller.child()
			rest := a[1:]
			for i, s := range specs {
				switch {
				case s.name == "args" && i == len(specs)-1:
					frame.ctx.vars["args"] = rTuple{append([]rv{}, rest...)}
					rest = nil
				case len(rest) > 0:
					frame.ctx.vars[s.name] = rest[0]
					rest = rest[1:]
				case s.has:
					frame.ctx.vars[s.name] = s.def
				default:
					return rfail()
				}
			}
			if len(rest) > 0 {
				return rfail()
			}
			r := in.evalScript(frame, body)
			if r.code == cError {
				return r
			}
			return picolEmpty(r)
		})
		return ok("")
	})
}

func runPicol(s session, r *h.Rec) error {
	in := newRint(diffFuel)
	in.only = true
	in.root = &rscope{ctx: newRctx(nil)}
	in.picolCommands()
	defer in.close()
	var want []event
	limit := func() {
		if len(want) > 2000 {
			panic(rFuel{})
		}
	}
	traceRef(in, func(a []rv) { want = append(want, event{call: a}); limit() })
	good, _ := refSession(in, s, func(i int, x rres) error {
		want = append(want, event{res: x})
		limit()
		return nil
	})
	if !good {
		r.Label("discarded: too long")
		return nil
	}
	sc := picol_dialect.NewPicolScope(nil)
	picol_dialect.InitPicolCommands(sc)
	var got []realEvent
	add := func(e realEvent) {
		got = append(got, e)
		if len(got) > len(want)+50 {
			panic(tooMany{})
		}
	}
	sc.Commands["t"] = hx.Func(func(a []core.Value, _ any) core.Result {
		add(realEvent{call: append([]core.Value{}, a[1:]...), isCall: true})
		if len(a) == 1 {
			return core.OK(core.NIL)
		}
		return core.OK(a[len(a)-1])
	})
	guard(func() {
		for _, src := range s.Scripts {
			script, err := hx.Parse(src)
			if err != nil {
				add(realEvent{parsed: false})
				continue
			}
			add(realEvent{res: sc.Evaluator.EvaluateScript(script), parsed: true})
		}
	})
	if err := sameEvents(want, got); err != nil {
		return fmt.Errorf("%s%v", listing(s), err)
	}
	for k, v := range in.root.ctx.vars {
		if g, has := sc.Variables[k]; !has || !rsame(v, g) {
			return fmt.Errorf("%svariable %q is %s, expected %s", listing(s), k, hx.Repr(g), rrepr(v))
		}
	}
	for k, g := range sc.Variables {
		if _, has := in.root.ctx.vars[k]; !has {
			return fmt.Errorf("%svariable %q is defined as %s, expected not to exist", listing(s), k, hx.Repr(g))
		}
	}
	calls, loops := 0, 0
	for _, w := range want {
		if w.call != nil {
			calls++
		} else if w.res.code >= 0 {
			r.Label("result " + rcodes[w.res.code])
		}
	}
	for _, n := range []string{"if", "for", "while", "proc", "&&", "||", "!"} {
		if in.hits[n] > 0 {
			loops++
			r.Label("cmd " + n)
		}
	}
	for n, k := range in.hits {
		if strings.HasPrefix(n, "p") && k > 0 && n != "proc" {
			r.Label("procedure called")
			break
		}
	}
	r.Labelf("traced calls %s", bucket(calls))
	if calls >= 3 && loops >= 1 {
		r.NonTrivial(strings.Join(s.Scripts, "\n"))
	}
	return nil
}

// ---- generation

type picolGen struct {
	t     *rapid.T
	left  int
	depth int
	loop  int
	uniq  int
	procs []picolProc
}
type picolProc struct {
	name     string
	min, max int
}

func (g *picolGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *picolGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *picolGen) chance(p int) bool        { return chance(g.t, "chance", p) }

func (g *picolGen) num() string {
	if g.depth < 4 && g.chance(40) {
		g.depth++
		defer func() { g.depth-- }()
		switch g.n(0, 5) {
		case 0:
			return "[" + g.pick("+", "-", "*", "/") + " " + g.num() + " " + g.num() + "]"
		case 1:
			return "[" + g.pick("+", "-", "*") + " " + g.num() + "]"
		case 2:
			return "[" + g.pick("+", "-", "*", "/") + " " + g.num() + " " + g.num() + " " + g.num() + "]"
		case 3:
			return "[t " + g.num() + "]"
		case 4:
			return "[incr " + g.pick("i", "j", "k") + g.pick("", " 2", " -1", " "+g.num()) + "]"
		case 5:
			return "[if " + g.cond() + " {set a " + g.num() + "} else {t " + g.num() + "}]"
		}
	}
	return g.pick("0", "1", "2", "3", "-1", "$i", "$j", "$a", "1.5", "1e3", "9223372036854775807", "0.1", "x", "08", "-07", "0x10", "+2", "1_0", ".5", "5.", "-0")
}

func (g *picolGen) cond() string {
	if g.depth > 4 {
		return g.pick("true", "false", "0", "1", "yes", "no", "$b")
	}
	g.depth++
	defer func() { g.depth-- }()
	switch g.n(0, 9) {
	case 0:
		return g.pick("true", "false", "0", "1", "yes", "no", "$b", "2", "-3", "abc", "\"\"", "+1", "01", "1.5", "08", "0x1", "0b0", "1_0", "007", "+0", "-0", "9223372036854775808", "-9223372036854775808", "0.0", "True", "on", "1e0")
	case 1, 2:
		return "{" + g.compare() + "}"
	case 3:
		return "[" + g.compare() + "]"
	case 4:
		return "{" + g.pick("&&", "||") + " " + g.cond() + " " + g.cond() + "}"
	case 5:
		return "[" + g.pick("&&", "||") + " " + g.cond() + " " + g.cond() + g.pick("", " "+g.cond()) + "]"
	case 6:
		return "[! " + g.cond() + "]"
	case 7:
		return "{t c; " + g.compare() + "}"
	case 8:
		return g.pick("{break}", "{continue}", "{return r}", "{error e}", "{}", "{t x}", "[]", "(a)", "{set b true}", "[incr k]")
	}
	return g.pick("true", "[t true]", "{t false}", "{set b}")
}

func (g *picolGen) compare() string {
	if g.chance(50) {
		return g.pick("<", "<=", ">", ">=") + " " + g.num() + " " + g.num()
	}
	return g.pick("==", "!=") + " " + g.val() + " " + g.val()
}

func (g *picolGen) val() string {
	switch g.n(0, 7) {
	case 0, 1, 2:
		return g.num()
	case 3:
		return g.pick("abc", "\"a b\"", "\"\"", "é", "true", "\"x$a\"", "\"[t y]z\"", "a$i")
	case 4:
		return g.pick("$a", "$b", "$i", "$args", "$x", "$y", "$nope", "[set a]")
	case 5:
		return g.pick("{a b}", "(a b)", "[]", "{}", "(1 ())")
	case 6:
		if g.left > 0 && g.depth < 4 {
			return "[" + g.call() + "]"
		}
	}
	return g.pick("v1", "v2", "0")
}

func (g *picolGen) call() string {
	if len(g.procs) == 0 {
		return "t " + g.val()
	}
	g.depth++
	defer func() { g.depth-- }()
	p := g.procs[g.n(0, len(g.procs)-1)]
	n := g.n(p.min, max(p.min, min(p.max, p.min+3)))
	if g.chance(12) {
		n = max(0, n+g.pickInt(-1, 1, 2, -2))
	}
	out := p.name
	for i := 0; i < n; i++ {
		out += " " + g.val()
	}
	return out
}

func (g *picolGen) pickInt(xs ...int) int { return xs[g.n(0, len(xs)-1)] }

func (g *picolGen) body() string {
	g.depth++
	defer func() { g.depth-- }()
	return "{" + g.seq(3) + "}"
}

func (g *picolGen) seq(most int) string {
	out := []string{}
	for i, n := 0, g.n(1, most); i < n; i++ {
		out = append(out, g.stmt())
	}
	return strings.Join(out, g.pick("; ", "\n"))
}

// large is a statement that is deep, wide or long.
func (g *picolGen) large() string {
	n := g.n(5, 40)
	each := func(f string) string {
		s := ""
		for i := 1; i <= n; i++ {
			s += strings.ReplaceAll(f, "%", fmt.Sprint(i))
		}
		return s
	}
	g.depth++
	defer func() { g.depth-- }()
	switch g.n(0, 7) {
	case 0:
		return "t " + each("["+g.pick("+", "-", "t")+" % ") + g.num() + strings.Repeat("]", n)
	case 1:
		f := g.pick("if true {t %; ", "if [t false] {} else {", "set v% 0; while {< [incr v%] 2} {t $v%; ", "for {set v% 0} {< $v% 1} {incr v%} {")
		return each(f) + g.stmt() + strings.Repeat("}", n)
	case 2:
		return "set n 0; while {< $n " + fmt.Sprint(n*5) + "} {incr n; if {== $n " + fmt.Sprint(n) + "} {" + g.stmt() + "}}"
	case 3:
		return "for {set n 0} {< $n " + fmt.Sprint(n*5) + "} {incr n} {" + g.stmt() + "}"
	case 4:
		return "proc rec {n} {if {<= $n 0} {" + g.stmt() + "; return end}; t $n; " + g.pick("t [rec [- $n 1]]", "rec [- $n 1]", "return [rec [- $n 1]]") + "}; rec " + fmt.Sprint(n*2)
	case 5:
		s := "proc wide {" + each("a% ") + g.pick("args", "{z d}", "{z d} args", "") + "} {t" + each(" $a%") + "}; wide" + each(" w%")
		return s + g.pick("", " more", " more 1 2", "; wide 1")
	case 6:
		return "t [" + g.pick("+", "*", "-", "&&", "||") + each(g.pick(" 1", " true", " %")) + " " + g.num() + "]"
	}
	return each("set v% w%; ") + "t" + each(" $v%") + "; " + each("proc q% {} {t q%}; ") + each("q%; ")
}

func (g *picolGen) stmt() string {
	if g.depth < 3 && rare(g.t) && g.chance(50) {
		return g.large()
	}
	g.left--
	if g.left <= 0 || g.depth > 4 {
		return g.pick("t "+g.val(), "set "+g.pick("a", "b", "x")+" "+g.val(), "incr i", "return "+g.val(), "t $i $a")
	}
	switch g.n(0, 19) {
	case 0, 1, 2:
		return "t " + g.val() + g.pick("", " "+g.val())
	case 3, 4:
		return "set " + g.pick("a", "b", "x", "y", "i") + " " + g.val()
	case 5:
		return "incr " + g.pick("i", "j", "a") + g.pick("", " 2", " "+g.val())
	case 6, 7:
		return "if " + g.cond() + " " + g.body()
	case 8:
		return "if " + g.cond() + " " + g.body() + " else " + g.body()
	case 9, 10:
		g.loop++
		defer func() { g.loop-- }()
		g.uniq++
		v := fmt.Sprint("c", g.uniq)
		b := g.body()
		return "for {set " + v + " 0" + g.pick("", "; t s", "; "+g.rare()) + "} {< $" + v + " " + g.pick("2", "3", "1", "0") + "} {incr " + v + g.pick("", "; t n", "; "+g.rare()) + "} " + b
	case 11, 12:
		g.loop++
		defer func() { g.loop-- }()
		g.uniq++
		v := fmt.Sprint("w", g.uniq)
		b := g.body()
		return "set " + v + " 0; while {< [incr " + v + "] " + g.pick("2", "3", "4") + "} " + b
	case 13:
		return g.pick("break", "continue", "return "+g.val(), "return", "error e"+g.pick("1", "2"), "if "+g.cond()+" {"+g.pick("break", "continue", "return "+g.val(), "error x")+"}")
	case 14, 15, 16:
		return g.pick("", "", "t [") + g.call()
	case 17:
		g.uniq++
		p := picolProc{name: fmt.Sprint("p", g.n(1, 4))}
		spec := []string{}
		for i, n := 0, g.n(0, 3); i < n; i++ {
			name := g.pick("x", "y", "a", "i", "args")
			if g.chance(40) {
				spec = append(spec, "{"+name+" "+g.pick("d1", "7", "{s t}", "\"d e\"", "$i", "[t d]", "()")+"}")
			} else {
				spec = append(spec, name)
				if len(spec) == p.min+1 {
					p.min++
				}
			}
			p.max++
		}
		if g.chance(30) {
			spec = append(spec, "args")
			p.max += 3
		}
		if g.chance(5) {
			spec = append(spec, g.pick("{}", "{a b c}", "{\"\" x}", "()", "\"\""))
		}
		s := "{" + strings.Join(spec, " ") + "}"
		if g.chance(20) {
			s = "(" + strings.Join(spec, " ") + ")"
		}
		old := g.procs
		oldLoop := g.loop
		g.loop = 0
		b := g.body()
		g.loop = oldLoop
		g.procs = append(old[:len(old):len(old)], p)
		return "proc " + p.name + " " + s + " " + b
	case 18:
		return g.rare()
	}
	return "t [set a " + g.num() + "]"
}

// rare statements are misuse of commands.
func (g *picolGen) rare() string {
	switch g.n(0, 9) {
	case 0:
		return g.pick("if", "while", "for", "set", "incr", "proc", "return", "break", "continue", "error", "+", "/", "==", "<", "!", "&&", "||", "nope")
	case 1:
		return g.pick("if", "while", "for", "set", "incr", "proc", "return", "break", "continue", "error", "-", "/", "!=", ">", "!", "||") + " " + g.val()
	case 2:
		return g.pick("set", "incr", "error", "+", "/", "==", "<", "&&", "||", "return", "if", "break") + " " + g.val() + " " + g.val()
	case 3:
		return "if " + g.cond() + " " + g.val() + " else " + g.val()
	case 4:
		return "while " + g.pick("false", "{< 1 0}", "{break}") + " " + g.val()
	case 5:
		return "for " + g.pick("{}", "a", "(b)") + " " + g.pick("false", "{}") + " " + g.pick("{}", "x") + " " + g.pick("{}", "y", "$a")
	case 6:
		return "proc p1 " + g.val() + " " + g.pick("{t p}", "x", "$a")
	case 7:
		return g.pick("set", "incr") + " " + g.pick("v", "i") + " " + g.val() + " " + g.val()
	case 8:
		return g.val()
	}
	return g.pick("[]", "()", "(t x)", "{}", "1", "$a", "\"t\" a", "error {a b}", "error []", "set () 1", "incr a[1]")
}

func drawPicol(t *rapid.T) session {
	g := &picolGen{t: t}
	s := session{}
	for i, n := 0, g.n(1, 4); i < n; i++ {
		g.left = g.n(3, 30)
		src := g.seq(4)
		if i == 0 {
			src = "set i 0; set j 5; set a 1; set b true\n" + src
		}
		s.Scripts = append(s.Scripts, src)
	}
	return s
}

func init() {
	h.Reg("P21", "programs", "Picol sessions nesting procedures with defaults and trailing arguments, conditionals, loops, operators and misuse, compared with a reference interpreter (results, traced calls, variables); non-trivial: three traced calls and a control command", 60000, 2000000,
		drawPicol, runPicol)
	h.Reg("P21", "procedures", "Picol procedures of up to six parameters with defaults at any position and trailing arguments, each called with every plausible number of arguments, again and redefined, compared with a reference interpreter; non-trivial: as for programs", 15000, 600000,
		drawPicolProcs, runPicol)
}

// drawPicolProcs declares procedures of many parameter shapes and calls them with every number of arguments.
func drawPicolProcs(t *rapid.T) session {
	g := &picolGen{t: t, left: 8}
	s := session{Scripts: []string{"set i 0; set j 5; set a 1; set b true; set x gx"}}
	for k, n := 0, g.n(1, 2); k < n; k++ {
		spec, see := []string{}, "t"
		cnt := g.n(0, 6)
		if rare(t) {
			cnt = g.n(7, 24)
		}
		for i := 0; i < cnt; i++ {
			name := fmt.Sprint("n", i)
			if i < 6 {
				name = []string{"a", "b", "c", "x", "y", "i"}[i]
			}
			if g.chance(8) {
				name = g.pick("args", "a", "z")
			}
			see += " $" + name
			if g.chance(40) {
				name = "{" + name + " " + g.pick("d1", "7", "{s t}", "\"d e\"", "()", "d2", "{}") + "}"
			}
			spec = append(spec, name)
		}
		if g.chance(50) {
			spec, see = append(spec, g.pick("args", "args", "args", "{args d}")), see+" $args"
		}
		body := "{" + see + g.pick("", "; "+g.stmt(), "; set a 9; t $a", "; return $a", "; if $b {return r}; t no") + "}"
		def := "proc q {" + strings.Join(spec, " ") + "} " + body
		s.Scripts = append(s.Scripts, def)
		for m := 0; m <= cnt+g.n(1, 3); m++ {
			call := "q"
			for i := 0; i < m; i++ {
				if g.chance(12) {
					call += " " + g.val()
				} else {
					call += fmt.Sprint(" w", i)
				}
			}
			s.Scripts = append(s.Scripts, g.pick("", "", "t [", "if true {", "proc r {} {")+call)
			l := &s.Scripts[len(s.Scripts)-1]
			switch {
			case strings.HasPrefix(*l, "t ["):
				*l += "]"
			case strings.HasPrefix(*l, "if"):
				*l += "}"
			case strings.HasPrefix(*l, "proc"):
				*l += "}; r"
			}
		}
		s.Scripts = append(s.Scripts, "t $a $x")
	}
	return s
}
