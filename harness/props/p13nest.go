package props

import (
	"fmt"
	"strings"

	"verifharness/h"

	"pgregory.net/rapid"
)

// nestGen writes constructs nested within every script position of one another (tests, commands,
// sources, bodies, handlers), where one position may end the whole in an unusual way. Whatever a
// construct leaves behind when it ends that way meets the constructs that follow.
type nestGen struct {
	t     *rapid.T
	n     int
	yield bool
	fault string // what goes at the faulty position
	body  bool   // the fault replaces a whole body
}

func (g *nestGen) pick(xs ...string) string { return pick(g.t, "nest", xs) }
func (g *nestGen) roll(n int) int           { return rapid.IntRange(0, n-1).Draw(g.t, "nest") }

// Positions of a construct: <T> test, <B> body, <V> any value, <P> nothing in particular. % is a
// number of its own.
var nestForms = []string{
	"when {{<T>} {<B>} {<T>} {<B>} {<B>}}",
	"when {{<T>} {<B>} (idem true) {<B>}}",
	"when {false {<B>} {<T>} {<B>} {<B>}}",
	"when {<P>; idem idem} {false {<B>} true {<B>} {<B>}}",
	"when idem {false {<B>} [<T>] {<B>} {<B>}}",
	"when {<P>; idem ==} {(1 1) {<B>}}",
	"if {<T>} {<B>} elseif {<T>} {<B>} else {<B>}",
	"if [<T>] {<B>} else {<B>}",
	"if {<T>} {<B>}",
	"set c% 0; while {<P>; set c% [+ $c% 1]; $c% <= 2} {<B>}",
	"set c% 0; while true {set c% [+ $c% 1]; if [$c% > 2] {break}; <B>}",
	"loop i% e% [list (a b)] f% {<P>; idem $i%} {<B>; t $i% $e% $f%}",
	"set c% 0; loop e% {set c% [+ $c% 1]; if [$c% > 2] {break}; <P>; idem $c%} {<B>; t $e%}",
	"loop i% (e% f%) [list ((1 2) (3 4))] {<B>; t $i% $e% $f%}",
	"loop e% [list (a)] f% [macro (i) {<P>; if [$i > 1] {break}; idem $i}] {<B>; t $e%}",
	"list (1 2) foreach i% e% {<B>; t $i% $e%}",
	"dict (k v) foreach (e% f%) {<B>; t $e% $f%}",
	"&& {<T>} {<T>} {<T>}",
	"|| {<T>} {<T>} {<T>}",
	"! {<T>}",
	"catch {<B>; error x%} error e% {<B>; t $e%} finally {<B>}",
	"catch {<B>; return x%} return e% {<B>; t $e%} break {<B>}",
	"catch {<B>} error e% {t $e%; <B>} return e% {<B>} finally {<P>}",
	"catch {<B>; break} break {<B>} finally {<P>}",
	"[[closure (a (?b {<V>})) {<B>; t $a $b}]] 1",
	"[[macro (a (?b {<V>})) {<B>; t $a $b}]] 1 2",
	"[[proc (a *b) {<P>; t $a $b}]] 1 2 3",
	"[[closure (((macro (x) {<P>; idem ($x)}) a)) {<B>; t $a}]] [idem %]",
	"eval {<B>}",
	"t [<V>] [<V>]",
	"set v% <v>; t \"$v%-[<V>]\"",
	"t $[list (a b)][<P>; idem 1]",
	"[ensemble {a} {macro go {a} {<P>; t $a}}] call go %",
	"[[scope {<P>}]] eval {<P>}",
	"[[namespace {<P>; macro q {} {<P>; t %}}]] call q",
	"set co% [coroutine {<P>; idem %}]; t [$co% wait]",
	"al% {<B>}",
	"(eval) {<B>}",
	"idem %; |> t",
}

func (g *nestGen) form(d int, faulty bool) string {
	f := pick(g.t, "form", nestForms)
	g.n++
	f = strings.ReplaceAll(f, "al%", "ali")
	f = strings.ReplaceAll(f, "%", fmt.Sprint(g.n))
	f = strings.ReplaceAll(f, "<v>", fmt.Sprint("w", g.n))
	holes := 0
	for rest := f; indexHole(rest) >= 0; holes++ {
		rest = rest[indexHole(rest)+3:]
	}
	bad := -1
	if faulty {
		bad = g.roll(max(1, holes))
	}
	out := ""
	for k := 0; ; k++ {
		i := indexHole(f)
		if i < 0 {
			out += f
			break
		}
		out += f[:i]
		kind := f[i+1]
		f = f[i+3:]
		if k == bad && g.body && kind == 'B' && strings.HasSuffix(out, "{") && strings.HasPrefix(f, "}") {
			out = out[:len(out)-1] + g.pick("nobody", "(idem x)", "5", "()")
			f = f[1:]
			continue
		}
		out += g.hole(kind, d, k == bad)
	}
	return out
}

func indexHole(f string) int {
	for i := 0; i+2 < len(f); i++ {
		if f[i] == '<' && f[i+2] == '>' && strings.IndexByte("TBVP", f[i+1]) >= 0 {
			return i
		}
	}
	return -1
}

func (g *nestGen) hole(kind byte, d int, faulty bool) string {
	g.n++
	s := fmt.Sprint("t p", g.n)
	switch x := g.roll(10); {
	case faulty && (d <= 0 || x < 5):
		s += "; " + g.fault
	case d > 0 && (faulty || x < 5):
		s = g.form(d-1, faulty)
	case x == 8:
		s = "set z [+ $z 1]"
	case x == 9 && g.yield:
		s = "t [yield " + fmt.Sprint("y", g.n) + "]"
	}
	switch kind {
	case 'T':
		return s + "; idem " + g.pick("true", "false")
	case 'V':
		return s + "; idem " + fmt.Sprint("v", g.n)
	case 'B':
		return s + g.pick("", "", "; idem "+fmt.Sprint("b", g.n))
	}
	return s
}

// exit is a construct that ends in an unusual way.
func (g *nestGen) exit() string {
	g.body = g.roll(4) == 0
	g.fault = g.pick("break", "continue", "error e", "return r", "pass", "nope", "yield y", "idem notbool", "tailcall {idem tc}", "$undefined", "set (a b) 1", "list", "idem ()")
	s := g.form(g.roll(3), true)
	if g.fault == "idem notbool" || g.fault == "list" || g.fault == "idem ()" {
		// the value of a test
		s = strings.Replace(s, "idem true", g.fault, 1)
		s = strings.Replace(s, "idem false", g.fault, 1)
	}
	switch g.roll(6) {
	case 0:
		return s
	case 1:
		return "catch {" + s + "}"
	case 2:
		return "t [catch {" + s + "} error e {t $e; idem E} return v {t $v; idem R} break {idem B} continue {idem C}]"
	case 3:
		g.n++
		return fmt.Sprintf("set co%d [coroutine {%s}]; catch {$co%d wait}", g.n, s, g.n)
	case 4:
		return "catch {[[closure {} {" + s + "}]]}"
	}
	return "loop turn {if [$turn > " + g.pick("0", "1", "2") + "] {break}; " + s + "}"
}

func drawNest(t *rapid.T, yields bool) session {
	g := &nestGen{t: t, yield: yields}
	s := session{Scripts: []string{"set z 0; alias ali eval"}}
	for i, n := 0, 1+g.roll(3); i < n; i++ {
		var out []string
		for j, m := 0, g.roll(3); j < m; j++ {
			out = append(out, g.exit())
		}
		for j, m := 0, 1+g.roll(2); j < m; j++ {
			f := g.form(2, false)
			if g.roll(3) > 0 {
				f = "t res [" + f + "]"
			}
			out = append(out, f)
		}
		if g.roll(2) == 0 {
			s.Scripts = append(s.Scripts, out...)
		} else {
			s.Scripts = append(s.Scripts, strings.Join(out, "; "))
		}
	}
	if yields {
		for i, n := 0, g.roll(10); i < n; i++ {
			s.Sends = append(s.Sends, fmt.Sprint("r", i))
		}
	}
	return s
}

func init() {
	h.Reg("P13", "nested", "constructs nested within every script position of one another (tests, commands, sources, bodies, handlers, defaults, guards), after constructs that ended in every unusual way; compared with the reference interpreter; non-trivial: four traced calls", 60000, 2500000,
		func(t *rapid.T) session { return drawNest(t, false) },
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool { return st.calls >= 4 })
		})
	h.Reg("P14", "nested", "constructs nested within every script position of one another, with yields resumed anywhere in them, after constructs that ended in unusual ways or were abandoned while suspended; compared with the reference interpreter; non-trivial: a yield resumed and four traced calls", 40000, 1500000,
		func(t *rapid.T) session { return drawNest(t, true) },
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool { return st.yields >= 1 && st.calls >= 4 })
		})
}
