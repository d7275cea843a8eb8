package props

import (
	"fmt"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// Histories of evaluations of kept compiled forms by the host: programs compiled once, script values
// shared between scopes, sentences shared between scripts, within one another and while suspended.

type EvalStep struct {
	Op    string // program, value, joined, fresh, command, pair, again, resume, drop
	Src   int
	Other int
	Scope int
	Send  string
	Text  string // a command evaluated first: it derives scripts from those there are
}

type EvalCase struct {
	Prelude string
	Sources []string
	Scopes  int // children of the root: 2 are local scopes
	Steps   []EvalStep
}

func drawEvals(t *rapid.T) EvalCase {
	p := baseProfile()
	p.evals, p.defs, p.calls, p.codes, p.yields, p.odd, p.colls, p.coros = 16, 6, 10, 4, 5, 6, 3, 2
	p.wrong = 1
	g := &pg{t: t, p: p, env: &genv{}}
	g.left = 20
	c := EvalCase{Prelude: g.prelude()}
	g.big = chance(t, "large", 1)
	y := &coroGen{flowGen: flowGen{t: t}, cos: 1}
	c.Prelude += "\n" + coroPrelude + "; set co1 [coroutine {t co; yield 1; t co}]; set lit0 {t z; t b a}; set lit1 {t 1 f; t 2}"
	for i, n := 0, g.n(1, 3); i < n; i++ {
		g.left, g.depth = g.n(8, 40), 0
		src := ""
		if g.chance(65) {
			y.depth = 1
			src = y.body()
		} else {
			src = g.seq(g.n(1, 4))
		}
		for j := 0; j <= i && j < 2; j++ {
			if !g.chance(40) {
				continue
			}
			call := g.one("eval $blk%d", "t [eval $blk%d]", "[macro {} $blk%d] call", "[closure {} $blk%d] call", "list (1 2) foreach e $blk%d", "catch $blk%d", "if true $blk%d", "set n%[1]d 0; while {[set n%[1]d [+ $n%[1]d 1]] < 3} $blk%[1]d",
				"t [[proc {} $blk%d] call]", "scope $blk%d", "namespace $blk%d", "eval [script $blk%d append {t end}]", "t [script $blk%d length]", "list [script $blk%d split] foreach s {eval $s}", "set co [coroutine $blk%[1]d]; t [$co wait]; t [$co done]", "when {true $blk%d}", "t [list $blk%d length]")
			call = fmt.Sprintf(call, j)
			if strings.Contains(call, "%!") {
				call = call[:strings.Index(call, "%!")]
			}
			if j == i {
				call = "set deep [+ $deep 1]; if [$deep < " + g.one("3", "4", "6") + "] {" + call + "}"
			}
			if g.chance(50) {
				src += "; " + call
			} else {
				src = call + "\n" + src
			}
		}
		c.Sources = append(c.Sources, src)
	}
	c.Scopes = g.n(0, 3)
	// scripts made from scripts, and evaluated
	texts := func(n, scope int) {
		b := func() string {
			return fmt.Sprintf("$[get %s%d [get blk%d]]", g.one("d", "d", "d", "blk"), g.n(0, 2), g.n(0, len(c.Sources)-1))
		}
		for i := 0; i < n; i++ {
			if g.chance(12) {
				// a block as a script and as a list
				lit := fmt.Sprint("$[get lit", g.n(0, 1), "]")
				c.Steps = append(c.Steps, EvalStep{Op: "text", Scope: scope, Text: g.one("t [list "+lit+" sort]", "t [list "+lit+"]", "eval "+lit, "list "+lit+" foreach e {t it $e}", "t [list "+lit+" append "+lit+"]", "t [list "+lit+" remove 0 1]", "t [list "+lit+" insert 1 (n)]", "t [list "+lit+" range 1 2]",
					"t [script "+lit+" append {t end}]", "loop e "+lit+" {t e; break}", "when "+lit, "set lit0 [script "+lit+" append {}]", "t [dict "+lit+"]", "argspec "+lit+" usage", "catch {t [dict "+lit+" remove t]}", "t [catch {list "+lit+" at 0}]")})
				continue
			}
			s := "set deep 0; " + g.one("eval "+b(), "t [eval "+b()+"]", "[macro {} "+b()+"] call", "t [script "+b()+" length]", "eval $[get d1 {}]")
			if g.chance(60) {
				s = fmt.Sprintf(g.one("set d%d [script "+b()+" append "+b()+"]", "set d%d [script "+b()+" append {t x}]", "set d%d [script "+b()+" append {t y; t z} "+b()+"]",
					"set d%d [script "+b()+" append {t w}]", "set d%d [script "+b()+" append {t v}]",
					"set d%d [idem "+b()+"]; t [script $d%[1]d length]", "set d%d [script "+b()+" append]", "set d%d {}; list [script "+b()+" split] foreach s {set d%[1]d [script $s append $d%[1]d]}",
					"set l%d [list [script "+b()+" split]]; list $l%[1]d foreach s {eval $s}", "set d%d [parse [script "+b()+" string]]", "set d%d {t 1; t 2; t 3}", "set d%d [script (t $deep "+b()+")]", "set d%d [script "+b()+" append (t [script "+b()+" length]) ()]", "set d%d (t tup)"), g.n(0, 2))
				s = strings.Split(s, "%!")[0]
			}
			c.Steps = append(c.Steps, EvalStep{Op: "text", Scope: scope, Text: s})
		}
	}
	steps := g.n(3, 16)
	only := -1
	if rare(t) {
		steps, only = g.n(17, 70), g.n(0, len(c.Sources)-1)
	}
	for i, n := 0, steps; i < n; i++ {
		s := EvalStep{Src: g.n(0, len(c.Sources)-1), Other: g.n(0, len(c.Sources)-1), Scope: g.n(0, c.Scopes)}
		if only >= 0 && g.chance(85) {
			s.Src = only
		}
		s.Op = g.one("program", "program", "value", "value", "joined", "fresh", "command", "pair", "again", "resume", "resume", "resume", "drop")
		if g.chance(50) {
			s.Send = fmt.Sprint("r", i)
		}
		c.Steps = append(c.Steps, s)
		if g.chance(25) {
			texts(g.n(1, 5), g.n(0, c.Scopes))
		}
	}
	if g.chance(30) {
		texts(g.n(4, 10), g.n(0, c.Scopes))
	}
	return c
}

func runEvals(c EvalCase, r *h.Rec) error {
	in := newRint(diffFuel)
	in.builtins()
	defer in.close()
	var want []event
	traceRef(in, func(a []rv) {
		want = append(want, event{call: a})
		if len(want) > 1500 {
			panic(rFuel{})
		}
	})
	type cell struct {
		rp *rproc
		hp *hd.Process
	}
	parse := func(src string) (*rScript, error) {
		ss, msg := refParse(src)
		if msg != "" {
			return nil, fmt.Errorf("%s", msg)
		}
		return &rScript{src: &src, ss: ss}, nil
	}
	for _, s := range append([]string{c.Prelude}, c.Sources...) {
		if _, err := parse(s); err != nil {
			r.Label("discarded: malformed source")
			return nil
		}
	}
	fresh := func(i int) *rScript { s, _ := parse(c.Sources[i]); return s }
	refs := []*rscope{in.root}
	for i := 0; i < c.Scopes; i++ {
		if i == 1 {
			refs = append(refs, in.root.local(map[string]rv{"loc": "L"}))
		} else {
			refs = append(refs, in.root.child())
		}
	}
	evals, resumed := 0, 0
	// the same walk for both sides: start and step are given
	walk := func(start func(s EvalStep) (run func() (bool, bool), send func(string))) {
		type job struct {
			run  func() (bool, bool) // suspended, ended
			send func(string)
		}
		var suspended []job
		var last *job
		count, res := 0, 0
		for _, s := range c.Steps {
			var j job
			if s.Op == "resume" && len(suspended) == 0 {
				s.Op = "program"
			}
			switch s.Op {
			case "resume":
				k := s.Src % len(suspended)
				j = suspended[k]
				suspended = append(suspended[:k:k], suspended[k+1:]...)
				if s.Send != "" {
					j.send(s.Send)
				}
				res++
			case "drop":
				if len(suspended) > 0 {
					k := s.Src % len(suspended)
					suspended = append(suspended[:k:k], suspended[k+1:]...)
				}
				continue
			case "again": // run an ended process again: it gives its result
				if last == nil {
					continue
				}
				j = *last
			default:
				j.run, j.send = start(s)
				count++
			}
			sus, _ := j.run()
			if sus {
				suspended = append(suspended, j)
			} else {
				x := j
				last = &x
			}
		}
		evals, resumed = count, res
	}
	good := func() (good bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(rFuel); is {
					good = false
					return
				}
				panic(x)
			}
		}()
		for k, sc := range refs {
			if c.Scopes >= 2 && k == 2 {
				continue // local to the root
			}
			s, _ := parse(c.Prelude + "\nset deep 0")
			in.start(func() rres { return in.evalScript(sc, s) }).run()
			for i := range c.Sources {
				sc.ctx.vars[fmt.Sprint("blk", i)] = fresh(i)
			}
		}
		walk(func(s EvalStep) (func() (bool, bool), func(string)) {
			sc := refs[s.Scope]
			var p *rproc
			script := fresh(s.Src)
			switch s.Op {
			case "text":
				script, _ = parse(s.Text)
				p = in.start(func() rres { return in.evalScript(sc, script) })
			case "joined":
				script = &rScript{ss: append(append([]rsent{}, script.ss...), fresh(s.Other).ss...)}
				p = in.start(func() rres { return in.evalScript(sc, script) })
			case "command":
				p = in.start(func() rres { return in.evalArgs(sc, []rv{"eval", script}) })
			case "pair":
				p = in.start(func() rres { return in.evalArgs(sc, []rv{"t", script}) })
			default:
				p = in.start(func() rres { return in.evalScript(sc, script) })
			}
			return func() (bool, bool) {
				x := p.run()
				want = append(want, event{res: x})
				return x.code == cYield && !p.done, p.done
			}, func(v string) { p.sent = v }
		})
		return true
	}()
	if !good {
		r.Label("discarded: too long")
		return nil
	}
	root := hx.New()
	var got []realEvent
	add := func(e realEvent) {
		got = append(got, e)
		if len(got) > len(want)+50 {
			panic(tooMany{})
		}
	}
	traceReal(root, func(a []core.Value) { add(realEvent{call: a, isCall: true}) })
	scopes := []*hd.Scope{root}
	for i := 0; i < c.Scopes; i++ {
		if i == 1 {
			scopes = append(scopes, root.NewLocalScope(map[string]uint{"loc": 0}, []core.Value{core.STR("L")}))
		} else {
			scopes = append(scopes, root.NewChildScope())
		}
	}
	var perr error
	guard(func() {
		n := len(c.Sources)
		scripts := make([]core.Script, n)
		values := make([]core.ScriptValue, n)
		programs := make([]*core.Program, n)
		commands := make([]*core.Program, n)
		pairs := make([]*core.Program, n)
		joined := map[[2]int]core.ScriptValue{}
		for i, s := range c.Sources {
			if scripts[i], perr = hx.Parse(s); perr != nil {
				return
			}
			values[i] = core.NewScriptValue(scripts[i], s)
			programs[i] = root.Compile(scripts[i])
			commands[i] = root.CompileArgs([]core.Value{core.STR("eval"), values[i]})
			pairs[i] = root.CompilePair(core.STR("t"), values[i])
		}
		pre, err := hx.Parse(c.Prelude + "\nset deep 0")
		if err != nil {
			perr = err
			return
		}
		prelude := root.Compile(pre)
		for k, sc := range scopes {
			if c.Scopes >= 2 && k == 2 {
				continue
			}
			sc.PrepareProcess(prelude).Run()
			for i := range values {
				sc.Context.Variables[fmt.Sprint("blk", i)] = values[i]
			}
		}
		walk(func(s EvalStep) (func() (bool, bool), func(string)) {
			sc := scopes[s.Scope]
			var prog *core.Program
			switch s.Op {
			case "text":
				script, _ := hx.Parse(s.Text)
				prog = sc.Compile(script)
			case "program":
				prog = programs[s.Src]
			case "value":
				prog = sc.CompileScriptValue(values[s.Src])
			case "joined":
				k := [2]int{s.Src, s.Other}
				if _, has := joined[k]; !has {
					joined[k] = core.NewScriptValueWithNoSource(core.Script{Sentences: append(append([]core.Sentence{}, scripts[s.Src].Sentences...), scripts[s.Other].Sentences...)})
				}
				prog = sc.CompileScriptValue(joined[k])
			case "command":
				prog = commands[s.Src]
			case "pair":
				prog = pairs[s.Src]
			default:
				script, _ := hx.Parse(c.Sources[s.Src])
				prog = sc.Compile(script)
			}
			p := sc.PrepareProcess(prog)
			return func() (bool, bool) {
				x := p.Run()
				add(realEvent{res: x, parsed: true})
				return x.Code == core.ResultCode_YIELD, x.Code != core.ResultCode_YIELD
			}, func(v string) { p.YieldBack(core.STR(v)) }
		})
	})
	list := fmt.Sprintf("prelude: %s\n", c.Prelude)
	for i, s := range c.Sources {
		list += fmt.Sprintf("source %d: %s\n", i, s)
	}
	list += fmt.Sprintf("scopes: %d\nsteps: %v\n", c.Scopes, c.Steps)
	if perr != nil {
		return fmt.Errorf("%sa source is rejected: %v", list, perr)
	}
	if err := sameEvents(want, got); err != nil {
		return fmt.Errorf("%s%v", list, err)
	}
	for k := range refs {
		if err := diffCtx(refs[k].ctx, scopes[k]); err != nil {
			return fmt.Errorf("%sscope %d: %v", list, k, err)
		}
	}
	r.Labelf("resumed %s", bucket(resumed))
	if evals >= 3 && len(want) >= 4 {
		r.NonTrivial(list)
	}
	return nil
}

func init() {
	h.Reg("P25", "evaluations", "host-side histories over forms kept between evaluations (compiled programs, script values bound as variables in several scopes and evaluated by every construct including themselves, sentences shared by joined scripts, command programs), suspended, resumed, abandoned and run again in root, child and local scopes; compared with the reference evaluating a fresh copy each time; non-trivial: three evaluations and four events", 30000, 1200000,
		drawEvals, runEvals)
}
