package props

import (
	"fmt"
	"strings"

	"verifharness/h"

	"pgregory.net/rapid"
)

// Loops and handlers whose outcome at each turn follows a drawn schedule.

type flowGen struct {
	t     *rapid.T
	depth int
	loops int
	vals  int
}

func (g *flowGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *flowGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *flowGen) yes(p int) bool           { return chance(g.t, "yes", p) }
func (g *flowGen) val() string {
	g.vals++
	return fmt.Sprint("v", g.vals)
}

// act is what a body does in one turn.
func (g *flowGen) act() string {
	switch k := g.n(0, 25); {
	case k < 4:
		return "idem " + g.val()
	case k < 6:
		return "t a " + g.val()
	case k < 9:
		return g.pick("continue", "continue", "idem "+g.val()+"; continue", "t c; continue", "[continue]")
	case k < 12:
		return g.pick("break", "break", "idem "+g.val()+"; break", "t b; break", "[break]")
	case k == 12:
		return "error e" + g.val()
	case k == 13:
		return "return r" + g.val()
	case k == 14:
		return g.pick("yield y"+g.val(), "t [yield y"+g.val()+"]", "yield y"+g.val()+"; break", "yield y"+g.val()+"; idem "+g.val(), "yield 1; yield 2; t after")
	case k == 15:
		return g.pick("pass", "", "t {x}", "idem", "()", "eval {idem "+g.val()+"}", "return", "error \"\"")
	}
	if g.depth <= 0 {
		return "t a " + g.val()
	}
	g.depth--
	defer func() { g.depth++ }()
	a := g.act()
	switch g.n(0, 9) {
	case 0:
		return "eval {" + a + "}"
	case 1:
		return "if " + g.pick("true", "{idem true}", "{t q; idem true}") + " {" + a + "} else {" + g.act() + "}"
	case 2:
		return "when {false {t no} " + g.pick("true", "{idem true}", "(idem true)") + " {" + a + "} {t never}}"
	case 3, 4:
		return g.catch()
	case 5, 6, 7:
		return g.loop()
	case 8:
		return "t x [" + a + "]"
	}
	return a + "; " + g.act()
}

// sched is a script whose outcome follows a schedule; c is its counter, which the caller resets.
func (g *flowGen) sched(c string, last string) string {
	var as []string
	for i, n := 0, g.n(0, 4); i < n; i++ {
		as = append(as, g.act())
	}
	pre := "set " + c + " [+ $" + c + " 1]; "
	if g.yes(70) {
		return pre + g.pick("", "t "+c+" $"+c+"; ") + "eval [list ({" + strings.Join(as, "} {") + "}) at [- $" + c + " 1] {" + last + "}]"
	}
	s := pre
	for i, a := range as {
		if i == 0 {
			s += "if "
		} else {
			s += "elseif "
		}
		s += fmt.Sprintf("[$%s == %d] {%s} ", c, i+1, a)
	}
	if len(as) == 0 {
		return s + last
	}
	return s + "else {" + last + "}"
}

func (g *flowGen) loop() string {
	g.loops++
	k := g.loops
	c := fmt.Sprint("n", k)
	pre := "set " + c + " 0; "
	reads := ""
	read := func(vs ...string) {
		if g.yes(70) {
			for _, v := range vs {
				reads += " [get " + v + " none]"
			}
		}
	}
	var head string
	switch g.n(0, 9) {
	case 0, 1:
		head = g.cmd("while") + " " + g.pick("true", "true", "{idem true}", "{t w; idem true}", "{$"+c+" < 3}", "{$"+c+" != 2}")
	case 2:
		w := fmt.Sprint("w", k)
		pre += "set " + w + " 0; "
		head = g.cmd("while") + " {" + g.sched(w, "idem "+g.pick("false", "true", "false", "x")) + "; idem " + g.pick("true", "[$"+c+" < 4]") + "}"
	case 3:
		v := fmt.Sprint("e", k)
		shape := g.pick(v, v, "("+v+" f)", "("+v+")")
		src := g.pick("(1 2 3)", "(a b)", "()", "((1 2) (3 4))", "((1) (2))", "((1 2) 3)")
		head = "list " + src + " foreach "
		if g.yes(40) {
			head += fmt.Sprint("i", k) + " "
			read(fmt.Sprint("i", k))
		}
		head += shape
		read(v)
	case 4:
		v := fmt.Sprint("e", k)
		head = "dict " + g.pick("(a 1)", "()", "[dict (b (1 2))]") + " foreach " + g.pick("("+v+" f)", v, "("+v+" (f g))", "i"+v+" ("+v+" f)")
		read(v)
	default:
		head = g.cmd("loop") + " "
		if g.yes(40) {
			head += fmt.Sprint("i", k) + " "
			read(fmt.Sprint("i", k))
		}
		for j, n := 0, g.n(0, 4); j < n; j++ {
			v := fmt.Sprintf("e%d%c", k, 'a'+j)
			read(v)
			switch g.n(0, 8) {
			case 0, 1, 2:
				head += v + " [list (" + g.pick("", "1", "1 2", "a b c", "a b c d") + ")] "
			case 3:
				head += "(" + v + " f" + v + ") [list (" + g.pick("", "(1 2)", "(1 2) (3 4) (5 6)", "(1 2) 3", "(1 2) (3)") + ")] "
			case 4:
				head += v + " [dict (" + g.pick("", "a 1") + ")] "
			case 5:
				head += v + " " + g.pick("(t src)", "idem", "[closure (i) {t s $i; if [$i > 2] {break}; idem s$i}]", "[macro (i) {if [$i == 1] {continue}; if [$i > 3] {break}; idem m$i}]", "(idem)", "t") + " "
			default:
				m := fmt.Sprintf("m%d%c", k, 'a'+j)
				pre += "set " + m + " 0; "
				head += v + " {" + g.sched(m, g.pick("break", "break", "idem last")) + "} "
			}
		}
	}
	g.depth--
	body := g.sched(c, "break")
	g.depth++
	if reads != "" || g.yes(50) {
		body = "t " + c + reads + "; " + body
	}
	s := head + " {" + body + "}"
	if g.yes(60) {
		s = "t res" + fmt.Sprint(k) + " [" + s + "]"
	}
	return pre + s
}

// cmd is a command name, sometimes behind a prefix or an alias.
func (g *flowGen) cmd(name string) string {
	if !g.yes(15) {
		return name
	}
	return g.pick("("+name+")", "(("+name+"))", "a"+name, "(a"+name+")")
}

func (g *flowGen) catch() string {
	s := g.cmd("catch") + " {" + g.act() + g.pick("", "; "+g.act()) + "}"
	for _, h := range rapid.Permutation([]string{"return", "yield", "error", "break", "continue", "finally"}).Draw(g.t, "handlers") {
		if !g.yes(45) {
			continue
		}
		switch h {
		case "return", "yield", "error":
			s += " " + h + " v {" + g.pick("t h $v; ", "") + g.pick("pass", g.act(), g.act()) + "}"
		default:
			s += " " + h + " {" + g.pick("t "+h+"; ", "") + g.pick("pass", g.act(), g.act()) + "}"
		}
	}
	if g.yes(60) {
		s = "t caught [" + s + "]"
	}
	return s
}

func (g *flowGen) program(stmt func() string) string {
	s := stmt()
	if g.yes(30) {
		s += "; " + stmt()
	}
	switch g.n(0, 6) {
	case 0:
		s = "closure f {} {" + s + "}; t [f]; " + g.pick("", "f; t again")
	case 1:
		s = "proc f {} {" + s + "}; t [f]"
	case 2:
		s = "macro f {} {" + s + "}; t [f]; f"
	case 3:
		s = "set co [coroutine {" + s + "}]; t [catch {$co wait}]"
		for i, n := 0, g.n(0, 4); i < n; i++ {
			s += "; t [catch {$co " + g.pick("wait", "yield s"+fmt.Sprint(i), "yield") + "}] [$co done]"
		}
	}
	return s
}

func (g *flowGen) session(stmt func() string) session {
	s := session{Scripts: []string{"alias acatch catch; alias awhile (while); alias aloop loop"}}
	for i, n := 0, g.n(1, 3); i < n; i++ {
		s.Scripts = append(s.Scripts, g.program(stmt))
	}
	for i, n := 0, g.n(0, 6); i < n; i++ {
		s.Sends = append(s.Sends, fmt.Sprint("r", i))
	}
	return s
}

func init() {
	h.Reg("P13", "loops", "loops of every kind with one to several sources, nested, whose body and sources complete in a different way at each turn; non-trivial: three traced calls", 60000, 2500000,
		func(t *rapid.T) session {
			g := &flowGen{t: t, depth: 2}
			return g.session(g.loop)
		},
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool { return st.calls >= 3 })
		})
	h.Reg("P13", "handlers", "catch with any set of handlers in any order, nested with loops and coroutines, every part completing in any way; non-trivial: two traced calls", 60000, 2500000,
		func(t *rapid.T) session {
			g := &flowGen{t: t, depth: 3}
			return g.session(g.catch)
		},
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool { return st.calls >= 2 })
		})
}
