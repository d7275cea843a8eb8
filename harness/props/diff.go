package props

import (
	"fmt"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/hx"
)

// Differential execution: the same script in the reference interpreter and in the real one.

// session is a list of scripts submitted in turn to one interpreter; a script that
// yields is resumed with the next of the sent strings.
type session struct {
	Scripts []string
	Sends   []string
}

type sessionOut struct {
	steps []string // what happened, in order, for messages
	res   []rres   // reference results
}

const maxSteps = 60

// refSession runs the session in the reference interpreter; ok=false when it runs out of fuel.
func refSession(in *rint, s session, step func(i int, r rres) error) (good bool, err error) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(rFuel); is {
				good, err = false, nil
				return
			}
			panic(x)
		}
	}()
	k := 0
	for i, src := range s.Scripts {
		ss, msg := refParse(src)
		if msg != "" {
			if err := step(i, rres{-1, nil}); err != nil {
				return true, err
			}
			continue
		}
		script := &rScript{src: &src, ss: ss}
		p := in.start(func() rres { return in.evalScript(in.root, script) })
		for n := 0; ; n++ {
			r := p.run()
			if err := step(i, r); err != nil {
				return true, err
			}
			if r.code != cYield || n >= maxSteps {
				break
			}
			if k < len(s.Sends) {
				p.sent = s.Sends[k]
				k++
			}
		}
	}
	return true, nil
}

// realSession is the same in the interpreter under test.
func realSession(sc *hd.Scope, s session, step func(i int, r core.Result, parsed bool)) {
	realSessionWith(sc, hx.Parse, s, step)
}

// realSessionWith chooses how scripts are parsed.
func realSessionWith(sc *hd.Scope, parse func(string) (core.Script, error), s session, step func(i int, r core.Result, parsed bool)) {
	k := 0
	for i, src := range s.Scripts {
		script, err := parse(src)
		if err != nil {
			step(i, core.Result{}, false)
			continue
		}
		p := sc.PrepareProcess(sc.Compile(script))
		for n := 0; ; n++ {
			r := p.Run()
			step(i, r, true)
			if r.Code != core.ResultCode_YIELD || n >= maxSteps {
				break
			}
			if k < len(s.Sends) {
				p.YieldBack(core.STR(s.Sends[k]))
				k++
			}
		}
	}
}

// event is a result or a call of the trace command.
type event struct {
	res   rres
	call  []rv
	parse bool
}

func (e event) String() string {
	if e.call != nil {
		return "t" + strings.TrimPrefix(rrepr(rTuple{e.call}), "T")
	}
	if e.res.code < 0 {
		return "=> parse error"
	}
	return "=> " + e.res.String()
}

type realEvent struct {
	res    core.Result
	call   []core.Value
	isCall bool
	parsed bool
}

func (e realEvent) String() string {
	if e.isCall {
		return "t" + strings.TrimPrefix(hx.Repr(core.TUPLE(e.call)), "T")
	}
	if !e.parsed {
		return "=> parse error"
	}
	return "=> " + hx.Out(e.res).String()
}

type tooMany struct{}

// traceRef defines the trace command "t" of the reference interpreter: it records its
// arguments and returns the last one.
func traceRef(in *rint, rec func([]rv)) {
	in.root.def("t", func(in *rint, sc *rscope, a []rv) rres {
		rec(append([]rv{}, a[1:]...))
		if len(a) == 1 {
			return ok(rNil{})
		}
		return ok(a[len(a)-1])
	})
}
func traceReal(sc *hd.Scope, rec func([]core.Value)) {
	sc.RegisterNamedCommand("t", hx.Func(func(a []core.Value, _ any) core.Result {
		rec(append([]core.Value{}, a[1:]...))
		if len(a) == 1 {
			return core.OK(core.NIL)
		}
		return core.OK(a[len(a)-1])
	}))
}

// diffStats tells what the reference run went through.
type diffStats struct {
	events int
	calls  int
	codes  map[string]bool
	yields int
	errs   int
	hits   map[string]int
}

// diffSession compares the two runs: results, trace and final variables.
// good=false when the case is discarded.
func diffSession(s session, fuel int, mk func() *hd.Scope) (st diffStats, good bool, err error) {
	return diffSessionWith(s, fuel, mk, nil)
}

// diffSessionWith is diffSession with an extension of the reference interpreter.
func diffSessionWith(s session, fuel int, mk func() *hd.Scope, ext func(in *rint)) (st diffStats, good bool, err error) {
	return diffSessionParse(s, fuel, mk, hx.Parse, ext)
}

// diffSessionParse chooses how the scripts are parsed.
func diffSessionParse(s session, fuel int, mk func() *hd.Scope, parse func(string) (core.Script, error), ext func(in *rint)) (st diffStats, good bool, err error) {
	st.codes = map[string]bool{}
	in := newRint(fuel)
	st.hits = in.hits
	in.builtins()
	defer in.close()
	var want []event
	limit := func() {
		if len(want) > 2000 {
			panic(rFuel{})
		}
	}
	if ext != nil {
		ext(in)
	}
	traceRef(in, func(a []rv) { want = append(want, event{call: a}); limit() })
	good, _ = refSession(in, s, func(i int, r rres) error {
		want = append(want, event{res: r})
		limit()
		if r.code >= 0 {
			st.codes[rcodes[r.code]] = true
			if r.code == cYield {
				st.yields++
			}
			if r.code == cError {
				st.errs++
			}
		}
		return nil
	})
	if !good {
		return st, false, nil
	}
	st.events = len(want)
	if mk == nil {
		mk = hx.New
	}
	sc := mk()
	var got []realEvent
	add := func(e realEvent) {
		got = append(got, e)
		if len(got) > len(want)+50 {
			panic(tooMany{})
		}
	}
	traceReal(sc, func(a []core.Value) { add(realEvent{call: a, isCall: true}) })
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(tooMany); !is {
					panic(x)
				}
			}
		}()
		realSessionWith(sc, parse, s, func(i int, r core.Result, parsed bool) { add(realEvent{res: r, parsed: parsed}) })
	}()
	for _, w := range want {
		if w.call != nil {
			st.calls++
		}
	}
	if e := sameEvents(want, got); e != nil {
		return st, true, fmt.Errorf("%s%v", listing(s), e)
	}
	if e := diffVars(in, sc); e != nil {
		return st, true, fmt.Errorf("%s%v", listing(s), e)
	}
	return st, true, nil
}

func listing(s session) string {
	out := ""
	for i, x := range s.Scripts {
		out += fmt.Sprintf("script %d: %s\n", i+1, x)
	}
	if len(s.Sends) > 0 {
		out += fmt.Sprintf("sent: %q\n", s.Sends)
	}
	return out
}

// diffVars compares the variables and constants of the root scopes.
func diffVars(in *rint, sc *hd.Scope) error { return diffCtx(in.root.ctx, sc) }

func diffCtx(ctx *rctx, sc *hd.Scope) error {
	for _, x := range []struct {
		what string
		want map[string]rv
		got  map[string]core.Value
	}{{"variable", ctx.vars, sc.Context.Variables}, {"constant", ctx.consts, sc.Context.Constants}} {
		for k, v := range x.want {
			g, has := x.got[k]
			if !has {
				return fmt.Errorf("%s %q is missing, expected %s", x.what, k, rrepr(v))
			}
			if !rsame(v, g) {
				return fmt.Errorf("%s %q is %s, expected %s", x.what, k, hx.Repr(g), rrepr(v))
			}
		}
		for k, g := range x.got {
			if _, has := x.want[k]; !has {
				return fmt.Errorf("%s %q is defined as %s, expected not to exist", x.what, k, hx.Repr(g))
			}
		}
	}
	return nil
}

// DiffScript compares the two interpreters on one script (for exploration).
func DiffScript(src string) (string, error) {
	_, good, err := diffSession(session{Scripts: []string{src}}, 20000, nil)
	if !good {
		return "discarded", nil
	}
	return "", err
}

// sameEvents compares what happened with what was expected.
func sameEvents(want []event, got []realEvent) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) {
			return fmt.Errorf("unexpected %s at step %d; expected nothing more", got[i], i)
		}
		w := want[i]
		if i >= len(got) {
			return fmt.Errorf("step %d: nothing happened, expected %s", i, w)
		}
		g := got[i]
		same := false
		switch {
		case w.call != nil:
			same = g.isCall && rsame(rTuple{w.call}, core.TUPLE(g.call))
		case w.res.code < 0:
			same = !g.isCall && !g.parsed
		default:
			same = !g.isCall && g.parsed && rsameRes(w.res, g.res)
		}
		if !same {
			return fmt.Errorf("step %d: got %s, expected %s", i, g, w)
		}
	}
	return nil
}
