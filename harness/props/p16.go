package props

import (
	"fmt"
	"strings"

	"verifharness/h"

	"pgregory.net/rapid"
)

// Histories of a registry of commands: a few names defined, redefined, aliased, captured,
// imported and called in every way across scopes, namespaces, ensembles and the value ensembles.

type registryGen struct {
	t    *rapid.T
	deep int
	k    int
}

func (g *registryGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *registryGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *registryGen) yes(p int) bool           { return chance(g.t, "yes", p) }
func (g *registryGen) val() string              { g.k++; return fmt.Sprint("v", g.k) }

// names of commands (leaf and container alike: any can be redefined as another kind)
func (g *registryGen) name() string {
	return g.pick("c0", "c0", "c1", "c1", "c2", "n0", "n0", "e0", "s0", "a0", "a1", "a0")
}
func (g *registryGen) leaf() string { return g.pick("c0", "c0", "c1", "c1", "c2", "a0", "a1") }
func (g *registryGen) vari() string { return g.pick("x0", "x1", "x2") }
func (g *registryGen) cont() string {
	return g.pick("n0", "n0", "e0", "e0", "s0", "list", "string", "dict", "int", "bool")
}

func (g *registryGen) args() string {
	s := ""
	n := g.pick2()
	if rare(g.t) && g.yes(20) {
		n = g.n(4, 60)
	}
	for i := 0; i < n; i++ {
		s += " " + g.pick("1", "2", "(a b)", "[list (1 2)]", g.val(), "$[get x0 none]", "c0", "true")
	}
	return s
}
func (g *registryGen) pick2() int {
	return rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3}).Draw(g.t, "na")
}

func (g *registryGen) spec() (string, string) {
	switch g.n(0, 7) {
	case 0, 1:
		return "()", ""
	case 2, 3:
		return "(a)", " $a"
	case 4:
		return "(a ?b)", " $a [get b none]"
	case 5:
		return "(*a)", " $a"
	case 6:
		return "((?a [t d; idem " + g.val() + "]))", " [get a none]"
	}
	return "(?-o? ?o? *a)", " $o $a"
}

func (g *registryGen) body(vars string) string {
	s := "t " + g.val() + vars
	for i, n := 0, g.n(0, 2); i < n; i++ {
		switch g.n(0, 13) {
		case 0, 1:
			s += "; set cnt [[exists cnt] ? [+ 1 [get cnt 0]] 1]; t cnt $cnt"
		case 2, 3:
			s += "; t r [yield " + g.val() + "]"
		case 4:
			s += "; " + g.suspending()
		case 5:
			s += "; return " + g.val()
		case 6:
			s += "; error " + g.val()
		case 7, 8, 9:
			if g.deep > 0 {
				g.deep--
				s += "; t in [catch {" + g.call() + "}]"
				g.deep++
			}
		case 10:
			if g.deep > 0 {
				g.deep--
				s += "; " + g.def()
				g.deep++
			}
		case 11:
			if g.deep > 0 {
				g.deep--
				s += "; eval {" + g.call() + "}"
				g.deep++
			}
		default:
			s += "; idem " + g.val()
		}
	}
	return s
}

// suspending is a call whose command itself keeps state between several suspensions.
func (g *registryGen) suspending() string {
	y := func() string {
		s := g.pick("", "t x; ")
		for i, n := 0, g.n(0, 3); i < n; i++ {
			s += g.pick("yield "+g.val(), "t [yield "+g.val()+"]") + "; "
		}
		return s + g.pick("idem "+g.val(), "t end", "error e", "return r", "pass")
	}
	s := g.pick("catch", "(catch)", "((catch))", "a0", "a1", "(a0)") + " {" + y() + "}"
	if g.yes(60) {
		s += " yield v {t $v; " + y() + "}"
	}
	if g.yes(40) {
		s += " error e {" + y() + "}"
	}
	if g.yes(60) {
		s += " finally {" + y() + "}"
	}
	return s
}

func (g *registryGen) def() string {
	nm := g.name()
	switch g.n(0, 12) {
	case 0, 1, 2, 3:
		sp, vs := g.spec()
		k := g.pick("macro", "macro", "closure", "proc")
		b := "{" + g.body(vs) + "}"
		if g.yes(10) {
			b = "(" + g.pick("idem", "list", g.leaf(), "[[macro (v) {t g $v; idem $v}]]") + " " + b + ")"
		}
		switch g.n(0, 5) {
		case 0:
			return "set " + g.vari() + " [" + k + " " + sp + " " + b + "]"
		case 1:
			return "set " + g.vari() + " [[" + k + " " + nm + " " + sp + " " + b + "]]"
		}
		return k + " " + nm + " " + sp + " " + b
	case 4, 5, 6:
		tgt := g.pick(g.name(), g.name(), "("+g.name()+g.args()+")", "(("+g.leaf()+") "+g.val()+")", "$[get "+g.vari()+" idem]", "idem", "list", "catch", "catch", "(catch)", "+", "if", "[["+"macro (*a) {t anon $a}]]", "t", "eval", "yield", "(t "+g.val()+")")
		al := g.pick("a0", "a1", "c0", "c1")
		if g.yes(25) {
			return "set " + g.vari() + " [alias " + al + " " + tgt + "]"
		}
		if g.yes(15) {
			return "set " + g.vari() + " [[alias " + al + " " + tgt + "]" + g.pick("", " command") + "]"
		}
		return "alias " + al + " " + tgt
	}
	in := ""
	for i, n := 0, g.n(0, 2); i < n; i++ {
		g.deep--
		in += g.inner() + "; "
		g.deep++
	}
	if g.yes(20) {
		in += g.pick("return "+g.val(), "yield "+g.val(), "error e", "t body", "break")
	}
	s := g.pick("namespace", "namespace", "scope", "ensemble")
	pre := s
	if g.yes(85) {
		pre += " " + nm
	}
	if s == "ensemble" {
		pre += " " + g.pick("()", "(a)", "(a)", "(a b)", "((list a))", "(("+g.leaf()+" a))")
	}
	s = pre + " {" + in + "}"
	if g.yes(25) {
		return "set " + g.vari() + " [" + s + "]"
	}
	return s
}

func (g *registryGen) inner() string {
	if g.deep > 0 && g.yes(80) || g.yes(50) {
		g.deep--
		defer func() { g.deep++ }()
		if g.yes(75) {
			return g.def()
		}
		return "t in [" + g.call() + "]"
	}
	return "macro " + g.leaf() + " (*a) {t " + g.val() + " $a}"
}

func (g *registryGen) call() string {
	nm, lf := g.name(), g.leaf()
	if chance(g.t, "outer", 5) {
		lf = g.pick("idem", nm, "list", "t", "s0", "n0")
	}
	switch g.n(0, 23) {
	case 22, 23:
		return g.suspending()
	case 0, 1, 2, 3:
		return nm + g.args()
	case 4:
		return "(" + nm + g.args() + ")" + g.args()
	case 5:
		return "((" + nm + ")" + g.args() + ")" + g.args()
	case 6:
		return "$[get " + g.vari() + " idem]" + g.args()
	case 7:
		return g.cont() + g.args() + " " + lf + g.args()
	case 8, 9:
		return "n0 " + lf + g.args()
	case 10:
		return "e0" + g.args() + " " + lf + g.args()
	case 11, 12:
		return "[" + g.cont() + "] call " + lf + g.args()
	case 13:
		return "[" + g.cont() + "] eval {" + g.inner() + "}"
	case 14:
		return "[" + g.cont() + "] eval (" + lf + g.args() + ")"
	case 15:
		return "s0 " + g.pick("eval {"+g.inner()+"}", "call "+lf+g.args(), "eval ("+lf+g.args()+")")
	case 16:
		return "[n0] import " + lf + g.pick("", " "+g.name())
	case 17:
		return g.cont() + g.pick("", " 1", " (1 2)", " (a b)") + " " + lf + g.args()
	case 18:
		return g.pick("t [list [", "idem [list [") + g.cont() + " subcommands] sort]"
	case 19:
		return "[" + g.pick("[n0]", "[n0] eval {idem $cnt}", "n0", "$[get x0 idem]") + "]" + g.args()
	case 20:
		return "eval " + g.pick("{"+nm+g.args()+"}", "("+nm+g.args()+")")
	}
	return "[" + nm + "]" + g.args()
}

// chain makes one command stand behind many others.
func (g *registryGen) chain() string {
	n := g.n(3, 30)
	s := ""
	switch g.n(0, 5) {
	case 0, 1: // aliases of aliases
		s = "alias q0 " + g.pick("c0", "t", "(t "+g.val()+")", "a0", "e0", "n0", "(n0 c0)") + "; "
		for i := 1; i <= n; i++ {
			switch g.n(0, 2) {
			case 0:
				s += fmt.Sprintf("alias q%d q%d; ", i, i-1)
			case 1:
				s += fmt.Sprintf("alias q%d (q%d %s); ", i, i-1, g.val())
			case 2:
				s += fmt.Sprintf("set x0 [alias q%d (q%d %s)]; ", i, i-1, g.val())
			}
		}
		return s + "t [q" + fmt.Sprint(n) + g.args() + "]"
	case 2: // containers in containers
		in := "macro c0 (*a) {t deep $a; " + g.pick("yield "+g.val(), "idem", "return $a") + "}"
		k := g.pick("namespace n0", "scope s0")
		at := strings.Repeat(map[byte]string{'n': "n0 ", 's': "s0 call "}[k[0]], n)
		for i := 0; i < n; i++ {
			in = k + " {" + in + "; set v " + g.val() + "}"
		}
		return in + "; t [" + at + "c0" + g.args() + "]; t [" + at + "c0 again]"
	case 3: // many commands
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("%s q%d (*a) {t q%d $a}; ", g.pick("macro", "closure", "proc"), i, i)
		}
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("q%d %s; ", (i*7)%n, g.val())
		}
		return s
	case 4: // a namespace with many commands, all of them imported
		in, imp, call := "", "", ""
		for i := 0; i < n; i++ {
			in += fmt.Sprintf("macro q%d (*a) {t q%d $a}; ", i, i)
			imp += fmt.Sprintf("[n0] import q%d r%d; ", i, (i+1)%n)
			call += fmt.Sprintf("r%d %s; n0 q%d; ", i, g.val(), i)
		}
		return "namespace n0 {" + in + "}; " + imp + call + "t [list [[n0] subcommands] sort]"
	}
	// wrapped in its own results
	return strings.Repeat("(", n) + g.pick("c0", "t", "a0", "n0 c0") + strings.Repeat(" "+g.val()+")", n) + g.args()
}

func (g *registryGen) stmt() string {
	if rare(g.t) && g.yes(50) {
		return g.chain()
	}
	if g.yes(42) {
		return g.def()
	}
	c := g.call()
	switch g.n(0, 9) {
	case 0:
		return c
	case 1:
		return "set co [coroutine {" + c + "}]; t [catch {$co wait}]; t [catch {$co yield " + g.val() + "}]; t [catch {$co yield " + g.val() + "}]; t [catch {$co yield}] [$co done]"
	case 2:
		return "set i 0; while {$i < 2} {set i [+ $i 1]; t w $i [catch {" + c + "}]}"
	case 3:
		return "t [catch {" + c + "} yield v {t y $v; " + g.pick("pass", "idem "+g.val()) + "}]"
	}
	return "t [" + c + "]"
}

func init() {
	h.Reg("P16", "registry", "histories over a few names defined, redefined, aliased, captured, imported and called in every way across scopes, namespaces, ensembles and value ensembles; compared with the reference; non-trivial: four statements succeeded and three traced calls", 40000, 2000000,
		func(t *rapid.T) session {
			g := &registryGen{t: t, deep: 2}
			s := session{}
			for i, n := 0, g.n(4, 22); i < n; i++ {
				s.Scripts = append(s.Scripts, g.stmt())
			}
			for i, n := 0, g.n(0, 8); i < n; i++ {
				s.Sends = append(s.Sends, fmt.Sprint("r", i))
			}
			return s
		},
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool {
				return st.calls >= 3 && hitAny(st, "alias macro closure proc namespace scope ensemble") >= 1
			})
		})
}
