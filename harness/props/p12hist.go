package props

import (
	"fmt"
	"strings"

	"verifharness/h"

	"pgregory.net/rapid"
)

// Histories of bindings of a few names, nested destructuring included, from every kind of scope.

type bindGen struct {
	t     *rapid.T
	depth int
	vals  int
}

func (g *bindGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *bindGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *bindGen) yes(p int) bool           { return chance(g.t, "yes", p) }
func (g *bindGen) name() string             { return g.pick("a", "b", "c", "d", "e", "f") }
func (g *bindGen) val() string {
	g.vals++
	return fmt.Sprint("v", g.vals)
}

// shape gives a tuple of names and a value for it, which sometimes does not match.
func (g *bindGen) shape(d int) (string, string) {
	if d == 0 || g.yes(45) {
		n := g.name()
		if g.yes(4) {
			n = g.pick("[list (a)]", "{}", "\"\"", "1", "[]", "$[idem a]", "[idem (a b)]", "a[0]")
		}
		v := g.val()
		if g.yes(15) {
			v = g.pick("[list (1 2)]", "(1 2)", "{x}", "[dict (k 1)]", "()", "[]", "[idem a]")
		}
		return n, v
	}
	var ns, vs []string
	for i, k := 0, g.n(0, 3); i < k; i++ {
		n, v := g.shape(d - 1)
		ns, vs = append(ns, n), append(vs, v)
	}
	if g.yes(8) && len(vs) > 0 {
		vs = vs[:len(vs)-1]
	} else if g.yes(4) {
		vs = append(vs, g.val())
	}
	v := "(" + strings.Join(vs, " ") + ")"
	if g.yes(4) {
		v = g.pick(g.val(), "[list "+v+"]", "$a", "[idem "+v+"]")
	}
	return "(" + strings.Join(ns, " ") + ")", v
}

func (g *bindGen) op() string {
	switch k := g.n(0, 19); {
	case k < 5:
		n, v := g.shape(g.n(0, 3))
		return "set " + n + " " + v
	case k < 8:
		n, v := g.shape(g.n(0, 3))
		return "let " + n + " " + v
	case k < 11:
		n, _ := g.shape(g.n(0, 3))
		return "unset " + n
	case k < 13:
		n, v := g.shape(g.n(0, 2))
		return "get " + n + g.pick("", " "+v, " "+v, " none")
	case k == 13:
		return g.pick("exists ", "get ") + g.name() + g.pick("[0]", "[1]", "(k)", "(k)[0]", "[0](k)", "(nope)", "")
	case k == 14:
		return "get " + g.name() + g.pick("[0]", "[9]", "(k)", "(k 0)", "") + " dflt"
	case k == 15:
		n := g.name()
		return "set " + n + " " + g.pick("$"+n, "[list ($"+n+")]", "[get "+n+"]", "[dict (k $"+n+")]", "($"+n+" $"+n+")", "$[get "+n+" 0]")
	case k == 16:
		spec := []string{}
		for i, k := 0, g.n(1, 3); i < k; i++ {
			spec = append(spec, g.pick("", "?", "", "*", "?")+g.name())
		}
		vs := []string{}
		for i, k := 0, g.n(0, 4); i < k; i++ {
			vs = append(vs, g.val())
		}
		return "argspec (" + strings.Join(spec, " ") + ") set (" + strings.Join(vs, " ") + ")"
	case k == 17:
		return "exists " + g.name()
	}
	return "t $" + g.name()
}

func (g *bindGen) ops(lo, hi int) string {
	var out []string
	for i, k := 0, g.n(lo, hi); i < k; i++ {
		if g.depth > 0 && g.yes(35) {
			out = append(out, g.context())
			continue
		}
		s := g.op()
		if !strings.HasPrefix(s, "t ") || g.yes(50) {
			s = "t [catch {" + s + "}]"
		}
		out = append(out, s)
	}
	if g.yes(40) {
		out = append(out, "look")
	}
	return strings.Join(out, "; ")
}

// context puts operations into a scope of some kind.
func (g *bindGen) context() string {
	g.depth--
	defer func() { g.depth++ }()
	a, b := g.name(), g.name()
	body := func() string { return "{" + g.ops(1, 4) + "}" }
	v := g.val
	switch g.n(0, 20) {
	case 20:
		// sources of different lengths: the locals of some have no value at some turns
		return "t [catch {loop " + g.pick("", "i ") + a + " " + g.pick("[list (1 2)]", "[list ()]", "{break}", "[list (1)]") + " " + g.pick(b, "("+b+")", b) + " " + g.pick("[list ((x) (y))]", "[list (p q r)]", "[list ()]") + " " + body() + "}]"
	case 0:
		return "[closure (" + a + " ?" + b + ") " + body() + "] call " + v() + g.pick("", " "+v())
	case 1:
		return "[macro (" + a + " ?" + b + ") " + body() + "] call " + v() + g.pick("", " "+v())
	case 2:
		return "[proc (" + a + " *" + b + ") " + body() + "] call " + v() + g.pick("", " "+v())
	case 3:
		return "scope " + body()
	case 4:
		return "[set sc" + fmt.Sprint(g.n(1, 2)) + " [scope " + body() + "]] eval " + body()
	case 5:
		return "catch {$sc" + fmt.Sprint(g.n(1, 2)) + " eval " + body() + "}"
	case 6:
		return "[namespace " + body() + "] eval " + body()
	case 7:
		return "list (x y) foreach " + g.pick(a, "("+a+")") + " " + body()
	case 8:
		return "list ((x y) (z w)) foreach (" + a + " " + b + ") " + body()
	case 9:
		return "loop " + g.pick("i", a) + " " + g.pick(b, "("+b+" x)") + " [list (1 2)] " + body()
	case 10:
		return "dict (k1 x) foreach (" + a + " " + g.pick("", b) + ") " + body()
	case 11:
		return "t [catch {return " + v() + "} return " + a + " " + body() + "]"
	case 12:
		return "t [catch {error " + v() + "} error " + a + " " + body() + " finally " + body() + "]"
	case 13:
		return "t [catch {yield " + v() + "} yield " + a + " " + body() + "]"
	case 14:
		return "if true " + body()
	case 15:
		return "set co [coroutine " + body() + "]; t [catch {$co wait}]"
	case 16:
		return "m" + fmt.Sprint(g.n(1, 2)) + " " + v()
	case 17:
		return "macro m" + fmt.Sprint(g.n(1, 2)) + " (" + a + ") " + body()
	case 18:
		return "eval " + body()
	}
	return "closure m" + fmt.Sprint(g.n(1, 2)) + " (" + a + ") " + body()
}

func init() {
	h.Reg("P12", "histories", "histories of let, set, unset, get, exists and argspec set over six names, with nested destructuring that may fail at any depth, from locals, loops, handlers, scopes, namespaces, coroutines and commands; each outcome, what is visible after it and the final bindings compared with the reference; non-trivial: eight traced calls and a destructuring", 40000, 2000000,
		func(t *rapid.T) session {
			g := &bindGen{t: t}
			s := session{Scripts: []string{"macro look () {t [get a -] [get b -] [get c -] [get d -] [get e -] [get f -]}; closure m1 (a) {t m1 $a}; macro m2 (b) {t m2 $b}"}}
			for i, k := 0, g.n(2, 8); i < k; i++ {
				g.depth = g.n(0, 3)
				s.Scripts = append(s.Scripts, g.ops(1, 4))
			}
			s.Scripts = append(s.Scripts, "look")
			return s
		},
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool {
				return st.calls >= 8 && strings.Contains(strings.Join(s.Scripts, ";"), "(")
			})
		})
}
