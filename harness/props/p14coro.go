package props

import (
	"fmt"
	"strings"

	"verifharness/h"

	"pgregory.net/rapid"
)

// Histories of coroutines: bodies that yield from within every kind of nested evaluation, resumed with
// and without values, queried, restarted, and resuming one another.

type coroGen struct {
	flowGen
	cos int
}

// yielding is a statement that yields, traced, from inside nested calls.
func (g *coroGen) yielding() string {
	y := "yield " + g.val()
	if g.yes(15) {
		y = g.pick("yield", "yield [yield "+g.val()+"]", "yield $s", "yield (1 2)", "ty "+g.val(), "yc "+g.val(), "yp "+g.val()+" "+g.val(), "[yn] call f "+g.val(), "ye "+g.val()+" sub", "ay", g.direct(), g.direct(), g.direct(), "eval {yield "+g.val()+"}")
	}
	for i, n := 0, g.n(0, 3); i < n; i++ {
		switch g.n(0, 17) {
		case 0:
			y = "ty [" + y + "]"
		case 1:
			y = "t a [" + y + "] [" + g.pick("idem "+g.val(), "yield "+g.val()) + "]"
		case 2:
			y = "eval {" + y + g.pick("", "; t b", "; yield "+g.val()) + "}"
		case 3:
			y = g.cmd("if") + " [" + y + "] {t yes} else {t no}"
		case 4:
			y = "if true {" + y + "}"
		case 5:
			y = "list (1 2) foreach e {t e $e; " + y + "}"
		case 6:
			y = "set s [" + y + "]"
		case 7:
			y = "catch {" + y + "} " + g.pick("error v {t err $v}", "yield v {t y $v; pass}", "yield v {t y $v}", "finally {t f}", "return v {t r $v}", "")
		case 8:
			y = "[macro () {" + y + "}] call"
		case 9:
			y = "[closure (p) {" + y + "; t $p}] call [" + g.pick("idem 1", "yield "+g.val()) + "]"
		case 10:
			y = "[proc () {" + y + g.pick("", "; return "+g.val(), "; t p") + "}] call"
		case 11:
			y = "[scope {macro f {} {" + y + "}}] call f"
		case 12:
			y = "namespace {" + y + "; t n}"
		case 13:
			y = "idem \"x[" + y + "]y\""
		case 14:
			y = "t $[idem ([" + y + "] z)]"
		case 15:
			y = "while true {" + y + "; " + g.pick("break", "set s 1; break", "t w; break") + "}"
		case 16:
			y = "[macro ((?d {" + y + "})) {t d $d}] call"
		case 17:
			y = "loop i v {" + y + "; idem $i} {t l $i $v; if [$i >= 1] {break}; " + g.pick("", "yield "+g.val()) + "}"
		}
	}
	return y
}

// direct is a call of a subcommand or alias that itself suspends, without a body of its own between.
func (g *coroGen) direct() string {
	v := g.val()
	mult := "{yield " + v + "; t [yield " + g.val() + "]; " + g.pick("idem z", "error z", "return z", "pass") + "}"
	tail := g.pick("", " finally {t f}", " finally {t [yield fin]}", " error e {t e; yield err}", " return e {t r; yield ret; pass}", " yield v {t $v; yield again; pass}", " yield v {t [yield again]; pass} finally {yield x}")
	return g.pick(
		"ye "+v+" y", "ye "+v+" yy", "ye "+mult+" k"+tail, "ye "+mult+" v", "ye "+v+" y x",
		"yo in "+v+" y", "yo in "+mult+" k"+tail, "yo in "+v+" v", "yo in "+v+" deep y", "yo in "+mult+" deep k"+tail,
		"yo o1 y", "yo o1 sub", "al "+v+" y", "all y", "all deep y", "all k", "(al "+mult+") k"+tail,
		"list ("+v+" b) y", "list (a) l sub", "list (a) l y", "dict (a b) y", "string "+v+" y", "string "+v+" k"+tail, "int 12 y", "int 12 e y", "bool true y", "real 1.5 y", "tuple (a "+v+") y", "tuple ("+v+") k",
		"script "+mult+" y", "script "+mult+" k"+tail, "script "+mult+" v", "argspec (a *b) y", "yg ("+v+" b) y", "yg (a) k y", "yg ("+v+") two z", "yg (a) in y", "yg (a b) in y", "y2 {a} "+v+" two", "y2 "+mult+" 1 two", "y2 1 ([yield 2]) two", "y2 "+v+" 1 z", "$ayy "+v, "[$ayy] "+v, "[[$ayy]] "+v, "[ye] call y "+v, "[ye] call k "+mult+tail, "al "+mult+" deep k"+tail, "[yo] call in "+v+" y",
		"[[yo] eval {idem [in]}] call k "+mult+tail, "[list] call y "+v, "[ye] eval {y "+v+"}", "[ye] eval {k "+mult+tail+"}")
}

func (g *coroGen) resume() string {
	c := fmt.Sprint("$co", g.n(1, g.cos))
	switch g.n(0, 11) {
	case 0, 1, 2:
		return c + " wait"
	case 3, 4, 5:
		return c + " yield"
	case 6, 7, 8:
		return c + " yield " + g.pick(g.val(), g.val(), "(1 2)", "[]", "$s", "["+c+" done]")
	case 9:
		return c + " active"
	case 10:
		return c + " done"
	}
	return g.pick(c, c+" subcommands", c+" nope", c+" wait x", c+" yield a b", c+" active x", "while {! ["+c+" done]} {t ["+c+" wait]}", "["+c+"] wait", "t ["+c+" wait]; t ["+c+" yield z]")
}

func (g *coroGen) body() string {
	var out []string
	for i, n := 0, g.n(1, 4); i < n; i++ {
		switch g.n(0, 11) {
		case 0:
			out = append(out, g.act())
		case 1:
			out = append(out, "t in ["+g.resume()+"]")
		case 2:
			out = append(out, "set s "+g.val()+"; t s $s")
		case 3:
			out = append(out, "let k "+g.val())
		case 4:
			out = append(out, "t k [get k none]")
		default:
			s := g.yielding()
			if g.yes(60) {
				s = "t " + g.val() + " [" + s + "]"
			}
			out = append(out, s)
		}
	}
	return strings.Join(out, "; ")
}

const coroPrelude = "set s 0; macro ty (v) {t ty [yield $v]}; closure yc (v) {yield $v; t yc}; proc yp (a b) {t [yield $a]; yield $b}; " +
	"set yns [namespace {macro f (x) {yield $x; t f}}]; closure yn {} {idem $yns}; ensemble ye (x) {macro sub (x) {yield $x}; alias y yield; alias k catch; alias v eval; alias yy (yield)}; " +
	"ensemble yo () {ensemble in (v) {alias y yield; alias k catch; alias v ([yn] call f); ensemble deep (w) {alias k catch; alias y yield}}; alias o1 (ye 7)}; " +
	"[list] eval {alias y yield; alias k catch; alias l ye}; [dict] eval {alias y yield}; [string] eval {alias y yield; alias k catch}; [int] eval {alias y yield; alias e ye}; [bool] eval {alias y yield}; [real] eval {alias y yield}; [tuple] eval {alias y yield; alias k yield}; " +
	"[script] eval {alias y yield; alias k catch; alias v eval}; [argspec] eval {alias y yield}; set ayy [alias az yield]; alias al (yo in); ensemble yg ((list v)) {alias y yield; alias k ye; alias e eval; macro two (v w) {t [yield $v]; yield $w}; ensemble in ((idem w)) {alias k catch; alias y (yield)}}; ensemble y2 ((idem a) b) {alias two yp; alias z ([yn] call f)}; alias all ((al) 4); alias ay (yield al); alias acatch catch; alias aif if"

func drawCoroHistory(t *rapid.T) session {
	g := &coroGen{flowGen: flowGen{t: t, depth: 1}}
	s := session{Scripts: []string{coroPrelude}}
	g.cos = g.n(1, 3)
	for i := 1; i <= g.cos; i++ {
		s.Scripts = append(s.Scripts, fmt.Sprintf("set co%d [coroutine {%s}]", i, g.body()))
		if g.yes(75) {
			s.Scripts = append(s.Scripts, fmt.Sprintf("t w%d [$co%d wait]", i, i))
		}
	}
	for i, n := 0, g.n(3, 14); i < n; i++ {
		op := g.resume()
		switch g.n(0, 19) {
		case 0:
			op = fmt.Sprintf("set co%d [coroutine {%s}]", g.n(1, g.cos), g.body())
		case 1:
			op = "closure o {} {" + op + "; " + g.resume() + "}; t [o]"
		case 2:
			op = "catch {" + op + "} error v {t err} finally {t fin}"
		case 3:
			op = "yield [" + op + "]"
		case 4:
			op = fmt.Sprintf("set co%d [coroutine {t outer [%s]; %s}]", g.n(1, g.cos), op, g.resume())
		case 5:
			op = "list (1 2 3) foreach e {t $e [" + op + "]}"
		}
		if g.yes(80) {
			op = "t r [" + op + "]"
		}
		s.Scripts = append(s.Scripts, op)
	}
	for i, n := 0, g.n(0, 4); i < n; i++ {
		s.Sends = append(s.Sends, fmt.Sprint("h", i))
	}
	return s
}

func init() {
	h.Reg("P14", "coroutines", "histories of up to three coroutines whose bodies yield from within nested calls, defaults, loops, handlers and word substitutions, resumed with and without values, queried, replaced, and resuming one another; compared with the reference doing the same; non-trivial: six traced calls", 40000, 2000000,
		drawCoroHistory,
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool {
				r.Labelf("errors %s", bucket(st.errs))
				return st.calls >= 6
			})
		})
}
