package props

import (
	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/h"
	"verifharness/hx"

	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	p := baseProfile()
	p.flow, p.codes, p.trace, p.vars, p.defs, p.calls, p.colls, p.odd, p.wrong, p.stmts, p.depth = 30, 12, 8, 4, 3, 6, 1, 2, 1, 4, 5
	p.budget = 70
	regDiff("P13", "programs", "programs nesting conditionals, loops, when and catch with every result code raised anywhere, compared with a structured interpreter; non-trivial: at least two control commands executed and three traced calls", p, 60000, 2000000, nil,
		func(s session, st diffStats) bool {
			return hitAny(st, "if while loop when catch foreach list dict") >= 2 && st.calls >= 3
		})

	p = baseProfile()
	p.defs, p.calls, p.evals, p.flow, p.colls, p.odd, p.codes, p.budget, p.yields = 16, 24, 6, 6, 1, 3, 4, 90, 1
	regDiff("P16", "programs", "definitions of every kind of command and calls by name, value, prefix, alias, ensemble, namespace, scope, import and eval; compared with the reference interpreter; non-trivial: a definition executed and three traced calls", p, 40000, 1500000, nil,
		func(s session, st diffStats) bool {
			return hitAny(st, "macro closure proc alias ensemble namespace scope") >= 1 && st.calls >= 3
		})

	p = baseProfile()
	p.yields, p.coros, p.flow, p.codes, p.defs, p.calls, p.colls, p.odd, p.wrong, p.budget = 24, 8, 14, 4, 5, 10, 1, 4, 1, 70
	regDiff("P14", "programs", "programs with yields at every evaluation position, driven by the host with sent values, and coroutines; compared with a direct-style interpreter run as coroutines; non-trivial: at least two yields resumed", p, 40000, 1500000, nil,
		func(s session, st diffStats) bool { return st.yields >= 2 })

	p.coros = 2
	p.scripts = 3
	h.Reg("P14", "interleave", "several programs suspended at once over the same scope and resumed in random order with values sent; compared with the reference doing the same; non-trivial: two programs suspended at the same time", 30000, 1000000,
		func(t *rapid.T) InterCase {
			s := drawSession(t, p)
			c := InterCase{Scripts: s.Scripts}
			// more programs over the same variables
			for i, n := 0, rapid.IntRange(0, 2).Draw(t, "more"); i < n; i++ {
				q := p
				q.scripts = 1
				c.Scripts = append(c.Scripts, drawSession(t, q).Scripts...)
			}
			for i, n := 0, rapid.IntRange(2, 24).Draw(t, "steps"); i < n; i++ {
				c.Steps = append(c.Steps, rapid.IntRange(0, 7).Draw(t, "which"))
			}
			return c
		}, runInter)

	p = baseProfile()
	p.evals, p.defs, p.calls, p.codes, p.yields, p.odd, p.colls = 24, 6, 12, 5, 3, 4, 2
	regDiff("P25", "programs", "programs that evaluate script values, bodies and pieces of scripts repeatedly in several scopes; compared with an interpreter that keeps no compiled form; non-trivial: at least two evaluations of script values and three traced calls", p, 40000, 1500000, nil,
		func(s session, st diffStats) bool { return st.hits["eval"]+st.hits["t"] >= 3 && st.calls >= 3 })

	p = baseProfile()
	p.vars, p.evals, p.defs, p.calls, p.rebind, p.flow, p.odd, p.colls, p.codes, p.wrong = 40, 8, 8, 12, 4, 5, 10, 1, 1, 4
	regDiff("P12", "programs", "programs that bind, rebind, read and remove variables, constants and locals across macros, closures, procedures, scopes, namespaces, loops and handlers; compared with the reference (every final binding included); non-trivial: at least two of let/set/get/exists/unset/argspec executed", p, 40000, 1500000, nil,
		func(s session, st diffStats) bool { return hitAny(st, "let set get exists unset argspec") >= 2 })

	p = baseProfile()
	p.arith, p.flow, p.odd, p.wrong, p.codes, p.trace, p.yields = 50, 3, 4, 5, 2, 3, 2
	regDiff("P11", "programs", "arithmetic, comparison and logic over traced operands, compared with the reference (value, trace); non-trivial: at least four operators executed", p, 40000, 1500000, nil,
		func(s session, st diffStats) bool { return hitSum(st, "+ - * / && || ! <number>") >= 4 })
}

// InterCase is a set of programs started in order of need; each step advances one of them.
type InterCase struct {
	Scripts []string
	Steps   []int
}

func runInter(c InterCase, r *h.Rec) error {
	in := newRint(diffFuel)
	in.builtins()
	defer in.close()
	var want []event
	traceRef(in, func(a []rv) {
		want = append(want, event{call: a})
		if len(want) > 2000 {
			panic(rFuel{})
		}
	})
	type rp struct {
		p    *rproc
		done bool
	}
	ps := make([]rp, len(c.Scripts))
	suspended, most := 0, 0
	good := func() (good bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(rFuel); is {
					good = false
					return
				}
				panic(x)
			}
		}()
		for k, w := range c.Steps {
			i := w % len(ps)
			if ps[i].done {
				continue
			}
			if ps[i].p == nil {
				src := c.Scripts[i]
				ss, msg := refParse(src)
				if msg != "" {
					ps[i].done = true
					want = append(want, event{res: rres{-1, nil}})
					continue
				}
				script := &rScript{src: &src, ss: ss}
				ps[i].p = in.start(func() rres { return in.evalScript(in.root, script) })
			} else {
				suspended--
				if w < 4 {
					ps[i].p.sent = fmt.Sprint("r", k)
				}
			}
			x := ps[i].p.run()
			want = append(want, event{res: x})
			if x.code == cYield {
				suspended++
				most = max(most, suspended)
			} else {
				ps[i].done = true
			}
		}
		return true
	}()
	if !good {
		r.Label("discarded: too long")
		return nil
	}
	sc := hx.New()
	var got []realEvent
	add := func(e realEvent) {
		got = append(got, e)
		if len(got) > len(want)+50 {
			panic(tooMany{})
		}
	}
	traceReal(sc, func(a []core.Value) { add(realEvent{call: a, isCall: true}) })
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(tooMany); !is {
					panic(x)
				}
			}
		}()
		type pp struct {
			p    *hd.Process
			done bool
		}
		qs := make([]pp, len(c.Scripts))
		for k, w := range c.Steps {
			i := w % len(qs)
			if qs[i].done {
				continue
			}
			if qs[i].p == nil {
				script, err := hx.Parse(c.Scripts[i])
				if err != nil {
					qs[i].done = true
					add(realEvent{})
					continue
				}
				qs[i].p = sc.PrepareProcess(sc.Compile(script))
			} else if w < 4 {
				qs[i].p.YieldBack(core.STR(fmt.Sprint("r", k)))
			}
			x := qs[i].p.Run()
			add(realEvent{res: x, parsed: true})
			if x.Code != core.ResultCode_YIELD {
				qs[i].done = true
			}
		}
	}()
	list := listing(session{Scripts: c.Scripts}) + fmt.Sprintf("steps: %v\n", c.Steps)
	if err := sameEvents(want, got); err != nil {
		return fmt.Errorf("%s%v", list, err)
	}
	if err := diffVars(in, sc); err != nil {
		return fmt.Errorf("%s%v", list, err)
	}
	r.Labelf("suspended at once: %d", most)
	if most >= 2 {
		r.NonTrivial(strings.Join(c.Scripts, "\n") + fmt.Sprint(c.Steps))
	}
	return nil
}
