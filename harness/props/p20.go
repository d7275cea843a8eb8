package props

import (
	"fmt"
	"strings"
	"sync"

	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// SetCase is a set of programs for independent interpreters, and a schedule.
type SetCase struct {
	Progs []session
	Quit  []int // after how many steps each program is abandoned, -1: never
	Opts  []int // capture options
	Steps []int // which program goes next
	Reps  int   `json:",omitempty"`
}

// stepper runs a session step by step: a step ends at a yield or at the end of a script.
type stepper struct {
	s       session
	opt     int
	sc      *hd.Scope
	proc    *hd.Process
	at      int
	sent    int
	yields  int
	quit    int
	steps   int
	busy    bool
	events  []string
	onTrace func()
}

func (p *stepper) add(s string) {
	p.events = append(p.events, s)
	if len(p.events) > 4000 {
		panic(tooMany{})
	}
}

func newStepper(s session, opt, quit int) *stepper {
	p := &stepper{s: s, opt: opt, quit: quit}
	p.sc = hd.NewRootScope(&hd.ScopeOptions{CapturePositions: opt&1 != 0, CaptureErrorStack: opt&2 != 0})
	hd.InitCommandsForModule(p.sc, hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: opt&1 != 0, CaptureErrorStack: opt&2 != 0}), "/nonexistent")
	p.sc.RegisterNamedCommand("t", hx.Func(func(a []core.Value, _ any) core.Result {
		p.add("t " + hx.Repr(core.TUPLE(a[1:])))
		res := core.OK(core.NIL)
		if len(a) > 1 {
			res = core.OK(a[len(a)-1])
		}
		if p.onTrace != nil {
			p.onTrace()
		}
		return res
	}))
	return p
}

// step runs up to the next yield or end of script; false when there is nothing left.
func (p *stepper) step() bool {
	if p.busy || p.at >= len(p.s.Scripts) || p.quit >= 0 && p.steps >= p.quit {
		return false
	}
	p.busy = true
	defer func() { p.busy = false }()
	p.steps++
	if p.proc == nil {
		parse := hx.Parse
		if p.opt&1 != 0 {
			parse = hx.ParsePos
		}
		script, err := parse(p.s.Scripts[p.at])
		if err != nil {
			p.add("parse error")
			p.at++
			return true
		}
		p.proc = p.sc.PrepareProcess(p.sc.Compile(script))
		p.yields = 0
	} else if p.sent < len(p.s.Sends) {
		p.proc.YieldBack(core.STR(p.s.Sends[p.sent]))
		p.sent++
	}
	r := p.proc.Run()
	ev := "=> " + hx.Out(r).String()
	if es, has := r.Data.(*core.ErrorStack); has {
		ev += fmt.Sprint(" depth ", es.Depth())
		for i := uint(0); i < es.Depth(); i++ {
			if l := es.Level(i); l.Position != nil {
				ev += fmt.Sprint(" ", l.Position.Index)
			}
		}
	}
	p.add(ev)
	if p.yields++; r.Code != core.ResultCode_YIELD || p.yields > maxSteps {
		p.proc = nil
		p.at++
	}
	return true
}

// alone runs the session alone to its end.
func (p *stepper) alone() {
	for p.step() {
	}
}

func guard(f func()) (good bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(tooMany); !is {
				panic(x)
			}
			good = false
		}
	}()
	f()
	return true
}

func (c SetCase) show(i int) string {
	return fmt.Sprintf("program %d (options %d):\n%s", i, c.Opts[i], listing(c.Progs[i]))
}

func sameTrace(want, got []string) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Errorf("step %d: got %s, alone it gives %s", i, g, w)
		}
	}
	return nil
}

// solo runs every program alone; the reference interpreter bounds them first.
func (c SetCase) solo() (want [][]string, good bool) {
	for i, s := range c.Progs {
		in := newRint(diffFuel)
		in.builtins()
		n := 0
		traceRef(in, func([]rv) {
			if n++; n > 1500 {
				panic(rFuel{})
			}
		})
		fine, _ := refSession(in, s, func(int, rres) error { return nil })
		in.close()
		if !fine {
			return nil, false
		}
		p := newStepper(s, c.Opts[i], c.Quit[i])
		if !guard(p.alone) {
			return nil, false
		}
		want = append(want, p.events)
	}
	return want, true
}

func runConcurrent(c SetCase, r *h.Rec) error {
	want, good := c.solo()
	if !good {
		r.Label("discarded: too long")
		return nil
	}
	for rep := 0; rep < max(1, c.Reps); rep++ {
		got := make([][]string, len(c.Progs))
		crash := make([]any, len(c.Progs))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range c.Progs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						crash[i] = x
					}
				}()
				<-start
				p := newStepper(c.Progs[i], c.Opts[i], c.Quit[i])
				p.alone()
				got[i] = p.events
			}(i)
		}
		close(start)
		wg.Wait()
		for i := range c.Progs {
			if crash[i] != nil {
				return fmt.Errorf("%shost panic in a concurrent run: %v", c.show(i), crash[i])
			}
			if err := sameTrace(want[i], got[i]); err != nil {
				return fmt.Errorf("%sconcurrent run: %v", c.show(i), err)
			}
		}
	}
	c.note(want, r)
	return nil
}

func (c SetCase) note(want [][]string, r *h.Rec) {
	busy, calls, yields := 0, 0, 0
	for i := range want {
		n := 0
		for _, e := range want[i] {
			if strings.HasPrefix(e, "t ") {
				n++
			}
			if strings.HasPrefix(e, "=> yield") {
				yields++
			}
		}
		if n > 1 {
			busy++
		}
		calls += n
	}
	r.Labelf("programs %d", len(c.Progs))
	r.Labelf("traced calls %s", bucket(calls))
	r.Labelf("yields %s", bucket(yields))
	if busy >= 2 {
		r.NonTrivial(fmt.Sprint(c.Progs, c.Steps))
	}
}

// runStepped interleaves the programs in one thread: steps follow the schedule, and each
// traced call of a program lets others make steps while it is running.
func runStepped(c SetCase, r *h.Rec) error {
	want, good := c.solo()
	if !good {
		r.Label("discarded: too long")
		return nil
	}
	var ps []*stepper
	k, depth := 0, 0
	next := func() int {
		if len(c.Steps) == 0 {
			return 0
		}
		k++
		return c.Steps[k%len(c.Steps)]
	}
	nested := 0
	for i, s := range c.Progs {
		p := newStepper(s, c.Opts[i], c.Quit[i])
		p.onTrace = func() {
			if depth > 3 {
				return
			}
			x := next()
			if x%2 == 0 {
				return
			}
			depth++
			if ps[x/2%len(ps)].step() {
				nested++
			}
			depth--
		}
		ps = append(ps, p)
	}
	if !guard(func() {
		for left := len(ps); left > 0; {
			i := next() / 2 % len(ps)
			if !ps[i].step() {
				// round robin from there
				left = 0
				for j := range ps {
					if ps[(i+j)%len(ps)].step() {
						left++
						break
					}
				}
			}
		}
	}) {
		return fmt.Errorf("%sinterleaved run: a program does not end", c.show(0))
	}
	for i := range ps {
		if err := sameTrace(want[i], ps[i].events); err != nil {
			out := ""
			for j := range ps {
				out += c.show(j)
			}
			return fmt.Errorf("%sprogram %d in an interleaved run: %v", out, i, err)
		}
	}
	r.Labelf("nested steps %s", bucket(nested))
	c.note(want, r)
	return nil
}

func drawSet(t *rapid.T, progs, stmts, budget int) SetCase {
	c := SetCase{}
	for i := 0; i < progs; i++ {
		p := baseProfile()
		p.scripts, p.stmts, p.budget = 3, stmts, budget
		p.yields, p.coros, p.defs, p.calls, p.flow, p.evals = 5, 4, 6, 12, 14, 5
		p.noDicts = true // iteration order
		if x := rapid.IntRange(0, 99).Draw(t, "kind"); x < 35 {
			c.Progs = append(c.Progs, drawHot(t))
		} else if x < 50 {
			c.Progs = append(c.Progs, drawExtending(t))
		} else {
			c.Progs = append(c.Progs, drawSession(t, p))
		}
		c.Opts = append(c.Opts, rapid.IntRange(0, 3).Draw(t, "options"))
		q := -1
		if chance(t, "abandoned", 25) {
			q = rapid.IntRange(0, 5).Draw(t, "quit")
		}
		c.Quit = append(c.Quit, q)
	}
	return c
}

// drawHot is a program that goes many times through everything that recycles state.
func drawHot(t *rapid.T) session {
	n := 0
	var body func(d int) string
	body = func(d int) string {
		out := []string{}
		for i, k := 0, rapid.IntRange(1, 3).Draw(t, "hot"); i < k; i++ {
			in := "set n [+ $n 1]"
			if d < 3 {
				in = body(d + 1)
			}
			n++
			out = append(out, pick(t, "hot", []string{
				"if [$n > " + fmt.Sprint(rapid.IntRange(0, 200).Draw(t, "x")) + "] {" + in + "} else {set n [+ $n 2]}",
				"if {idem false} {} elseif {idem true} {" + in + "}",
				"set c 0; while {set c [+ $c 1]; $c <= 2} {" + in + "}",
				"&& true {" + in + "; idem true} {idem true}",
				"|| {idem false} {" + in + "; idem true}",
				"catch {" + in + "; error x} error e {set n [+ $n 1]} finally {idem 1}",
				"catch {" + in + "; return r} return v {idem $v}",
				"m [m 1]; " + in,
				"p [p 1]; " + in,
				"f 3; " + in,
				"list (1 2 3) foreach e {if [$e == 2] {continue}; " + in + "}",
				"loop j v [list (a b)] {" + in + "}",
				"when {{idem false} {} true {" + in + "}}",
				"[coroutine {yield 1; idem 2}] wait; " + in,
				"set co [coroutine {idem [yield 1]; " + pick(t, "co", []string{"f 2", "m 1", "idem 3"}) + "}]; $co wait; $co yield x; " + in,
				"e 2 go 3; " + in,
				"eval {" + in + "}",
				"list (3 1 2) sort",
				"eval [parse \"set n \\[+ \\$n " + fmt.Sprint(rapid.IntRange(1, 3).Draw(t, "k")) + "\\]\"]; " + in,
				"eval [parse {" + in + "}]",
				"eval [script {" + in + "} append {idem 1; set n [+ $n 1]}]",
				"argspec (a1 ?b1 *c1) set (1 2 3); argspec (a (?b x)) usage; " + in,
				"set fmt \"${n}-$[idem $n]\\x41\"; string $fmt append z; string $fmt length; string $fmt at 0; " + in,
				"dict (a $n b (c d)) add e 1; list [dict (a $n) entries]; set (x y) (1 2); idem $x$y",
				"scope sc {set inner 3}; scope sc {set inner 1; proc q {} {idem $inner}; " + pick(t, "q", []string{"idem 1", "q", "catch {q}"}) + "}; sc eval {set inner 2}; " + in,
				"namespace ns {proc q (a) {idem $a}; set v 4}; ns call q [ns eval {idem $v}]; ns import q; q 1; " + in,
				"alias al (m 1); al; al 2; set k2 [alias ak (list (1 2))]; ak length; [$k2] length; " + in,
				"catch {p}; catch {nope}; catch {+ a}; catch {list () at 4}; catch {string a at 9}; " + in,
				"idem 1; |> + 2; |> + 3",
				in,
			}))
		}
		return strings.Join(out, "; ")
	}
	return session{Scripts: []string{
		"set n 0; macro m {a ?b} {idem $a}; proc p {a *b} {if true {return [m $a]}; idem 0}; closure f {a} {if [$a > 0] {f [- $a 1]} else {idem $n}}; ensemble e {a} {macro go {a b} {+ $a $b}}",
		"loop i {if [$i >= " + fmt.Sprint(rapid.IntRange(1, 40).Draw(t, "turns")) + "] {break}; " + body(0) + "; if [$i < 3] {t $n}}; t $n",
	}}
}

// drawExtending is a program that adds commands and variables to built-in ensembles, and
// looks for those it did not add.
func drawExtending(t *rapid.T) session {
	sample := map[string]string{"list": "(1 2)", "dict": "(a 1)", "string": "abc", "script": "{a b}", "argspec": "(a ?b)", "int": "1", "real": "1.5", "bool": "true", "tuple": "(a b)"}
	s := session{}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "scripts"); i < n; i++ {
		out := []string{}
		for j, m := 0, rapid.IntRange(1, 6).Draw(t, "statements"); j < m; j++ {
			e := pick(t, "ensemble", []string{"list", "dict", "string", "script", "argspec", "int", "real", "bool", "tuple"})
			v, x := sample[e], fmt.Sprint("x", rapid.IntRange(0, 5).Draw(t, "name"))
			mark := fmt.Sprint("m", rapid.IntRange(0, 99).Draw(t, "mark"))
			out = append(out, pick(t, "extend", []string{
				"[" + e + "] eval {macro " + x + " {value *a} {idem " + mark + "}}",
				"[" + e + "] eval {closure " + x + " {value *a} {t " + mark + " $value; set " + x + " " + mark + "}}",
				"[" + e + "] eval {set " + x + " " + mark + "}",
				"[" + e + "] eval {alias length (idem " + mark + ")}",
				"t [catch {" + e + " " + v + " " + x + "}]",
				"t [catch {" + e + " " + v + " " + x + "}]; t [catch {[" + e + "] eval {get " + x + "}}]",
				"t [catch {[" + e + "] eval {get " + x + "}}]",
				"t [catch {" + e + " " + v + " length}]",
				"t [catch {[" + e + "] call " + x + " 1}]",
				"t [catch {" + x + "}] [catch {get " + x + "}]",
				"macro " + x + " {*a} {idem " + mark + "}",
				"macro " + e + " {*a} {idem " + mark + "}",
				"idem " + mark + "; yield " + mark,
			}))
		}
		s.Scripts = append(s.Scripts, strings.Join(out, "; "))
	}
	return s
}

func init() {
	s := h.Reg("P20", "race", "sets of programs run in interpreters of their own in parallel threads under the race detector, compared with each run alone; non-trivial: at least two programs with two traced calls", 260, 6000,
		func(t *rapid.T) SetCase {
			c := drawSet(t, rapid.IntRange(2, 6).Draw(t, "programs"), 4, 40)
			c.Reps = 2
			return c
		}, runConcurrent)
	s.Serial, s.Race = true, true
	s = h.Reg("P20", "parallel", "sets of programs run in interpreters of their own in parallel threads, compared with each run alone; non-trivial: at least two programs with two traced calls", 1500, 40000,
		func(t *rapid.T) SetCase {
			c := drawSet(t, rapid.IntRange(2, 8).Draw(t, "programs"), 4, 40)
			c.Reps = 4
			return c
		}, runConcurrent)
	s.Serial = true
	h.Reg("P20", "stepped", "sets of programs interleaved in one thread, at yields and within traced calls of one another, some abandoned half-way, compared with each run alone; non-trivial: at least two programs with two traced calls", 9000, 300000,
		func(t *rapid.T) SetCase {
			c := drawSet(t, rapid.IntRange(2, 4).Draw(t, "programs"), 4, 30)
			for i, n := 0, rapid.IntRange(1, 30).Draw(t, "steps"); i < n; i++ {
				c.Steps = append(c.Steps, rapid.IntRange(0, 15).Draw(t, "next"))
			}
			return c
		}, runStepped)
}
