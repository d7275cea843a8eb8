package props

import (
	"fmt"
	"strings"

	"verifharness/h"

	"pgregory.net/rapid"
)

// Histories of operations over shared values: every step may read any of the variables
// v0..v4 and writes one; after each step all of them are traced, and the traced values
// are compared at the very end (so a later modification in place shows).

type opsGen struct {
	t    *rapid.T
	used int    // variables set so far
	conv string // the command which converts a variable at the end, if any
	big  int    // the size of the values in a history of large ones, otherwise zero
}

// newOps draws the size of the values once in a while.
func newOps(t *rapid.T) *opsGen {
	g := &opsGen{t: t}
	if chance(t, "big", 1) {
		g.big = rapid.IntRange(9, 90).Draw(t, "size")
	}
	return g
}

// series is n numbered words, in some order.
func (g *opsGen) series(prefix string, n int) []string {
	out := []string{}
	step := pick(g.t, "step", []int{1, 7, 31, 1})
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprint(prefix, (i*step+n/2)%n))
	}
	return out
}

// prefix starts the words of a series.
func (g *opsGen) prefix() string {
	return g.pick("a", "item-", "é", strings.Repeat("long", 5)) + strings.Repeat("x", g.pickInt(0, 0, 13, 62, 130))
}
func (g *opsGen) pickInt(xs ...int) int { return pick(g.t, "pick", xs) }

func (g *opsGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *opsGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *opsGen) v() string {
	if g.used == 0 {
		return "v0"
	}
	return fmt.Sprint("v", g.n(0, g.used-1))
}

var indexPool = []string{"0", "1", "2", "3", "-1", "4", "5", "6", "-2", "7", "12", "100", "-100", "2147483647", "4294967296", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807"}

func (g *opsGen) index() string {
	if chance(g.t, "badindex", 4) {
		return g.pick("x", "1.0", "1.5", "1e1", "\"\"", "()", "[list ()]", "9223372036854775808", " 1", "+1", "0x1", "true", "1_0")
	}
	if chance(g.t, "computed", 10) {
		return "[" + g.pick("+", "-") + " " + pick(g.t, "i", indexPool[:12]) + " 1]"
	}
	if g.big > 0 && chance(g.t, "far", 60) {
		return fmt.Sprint(g.n(0, g.big+3))
	}
	return pick(g.t, "i", indexPool)
}

func (g *opsGen) all() string {
	s := "t"
	for i := 0; i < g.used; i++ {
		s += fmt.Sprint(" $v", i)
	}
	return s
}

// conversions traces what every variable gives as a list or dictionary: the values of a block
// are kept with it, and do not show in the block itself.
func (g *opsGen) conversions() string {
	if g.conv == "" {
		return ""
	}
	s := "t"
	for i := 0; i < g.used; i++ {
		s += fmt.Sprintf(" [catch {%s $v%d}]", g.conv, i)
	}
	return s
}

// route reaches a marked operation "ensemble \x01value\x02sub args" in some way, sometimes with
// a wrong number of arguments.
func (g *opsGen) route(o string) string {
	i, j := strings.IndexByte(o, 1), strings.IndexByte(o, 2)
	if i < 0 {
		return o
	}
	k := strings.LastIndexAny(o[:i-1], " [;") + 1
	head, ens, val, rest := o[:k], o[k:i-1], o[i+1:j], o[j+1:]
	end := len(rest)
	if x := strings.IndexAny(rest, "];"); x >= 0 && head != "" {
		end = strings.IndexByte(rest, o[j+1+x])
	}
	sub, tail := rest[:end], rest[end:]
	args := ""
	if x := strings.IndexByte(sub, ' '); x >= 0 {
		sub, args = sub[:x], sub[x:]
	}
	if head == "" && chance(g.t, "count", 4) {
		args = g.pick("", "", args+" extra", args+" extra", " 1", " 0 1", " 0 1 (x)")
	}
	switch g.n(0, 29) {
	case 0:
		return head + "(" + ens + " " + val + ") " + sub + args + tail
	case 1:
		return head + "[[" + ens + "]] " + val + " " + sub + args + tail
	case 2, 3:
		return head + "[" + ens + "] call " + sub + g.pick(" "+val+args, " "+val+args, " "+val+args, "", " "+val) + tail
	case 4:
		return head + "((" + ens + " " + val + ") " + sub + ")" + args + tail
	case 5:
		return head + "eval (" + ens + " " + val + " " + sub + args + ")" + tail
	}
	return head + ens + " " + val + " " + sub + args + tail
}

// history draws a session of steps; init gives a starting value, op a value or effect.
func (g *opsGen) history(max int, init func() string, op func() (sentence string, value bool)) session {
	s := session{}
	for i, n := 0, g.n(1, 3); i < n; i++ {
		w := init()
		s.Scripts = append(s.Scripts, fmt.Sprintf("set v%d %s", i, w))
		g.used++
	}
	s.Scripts = append(s.Scripts, g.all())
	for i, n := 0, g.n(1, max); i < n; i++ {
		o, value := op()
		o = g.route(o)
		if value && chance(g.t, "keep", 70) {
			k := g.n(0, min(g.used, 4))
			o = fmt.Sprintf("set v%d [%s]", k, o)
			if k == g.used {
				s.Scripts = append(s.Scripts, fmt.Sprintf("set v%d [idem $v0]", k))
				g.used++
			}
		} else if value {
			o = "t [" + o + "]"
		}
		s.Scripts = append(s.Scripts, o, g.all())
		if conv := g.conversions(); conv != "" && chance(g.t, "convert", 5) {
			s.Scripts = append(s.Scripts, conv)
		}
	}
	if conv := g.conversions(); conv != "" {
		s.Scripts = append(s.Scripts, conv)
	}
	for i, n := 0, g.n(0, 2); i < n; i++ {
		s.Sends = append(s.Sends, fmt.Sprint("r", i))
	}
	return s
}

func (g *opsGen) elem() string {
	if chance(g.t, "plain", 40) {
		return g.pick("a", "b", "c", "d", "e", "f")
	}
	return g.pick("a", "b", "c", "1", "2", "\"\"", "(p q)", "(1 2 3)", "[list (x y)]", "{blk}", "é", "[+ 1 1]", "$"+g.v(), "true", "[dict (k v)]", "10", "9")
}
func (g *opsGen) elems(max int) string {
	if g.big > 0 && g.n(0, 2) == 0 {
		return strings.Join(g.series(g.prefix(), g.big), " ")
	}
	s := []string{}
	for i, n := 0, g.n(0, max); i < n; i++ {
		s = append(s, g.elem())
	}
	return strings.Join(s, " ")
}

func (g *opsGen) listWord() string {
	switch g.n(0, 9) {
	case 0, 1, 2, 3:
		return "$" + g.v()
	case 4, 5:
		return "(" + g.elems(4) + ")"
	case 6:
		return "[list (" + g.elems(4) + ")]"
	case 7:
		return "{" + g.pick("a b", "", "c; d", "$x", "a (b c)", "1 2 3") + "}"
	case 8:
		return "()"
	}
	return g.pick("x", "[dict (a 1)]", "[idem \"\"]", "1", "{[x]}")
}

func (g *opsGen) body(shape string) string {
	return "{" + g.pick(
		"t it $x", "t it $x; idem r", "set acc $x", "t it; break", "t it; continue; t no", "if [t it; string $x == b] {break}; t after $x",
		"t it [yield $x]", "return $x", "error stop", "", "t it; pass", "set v0 changed; t it $x", "set v0 [list $v0 append (more)]; t it $x", "t it [$x]",
	) + "}"
}

func (g *opsGen) listOp() (string, bool) {
	l := "list \x01" + g.listWord() + "\x02"
	if chance(g.t, "tuple", 15) {
		l = "tuple \x01" + g.listWord() + "\x02"
		return l + g.pick("", "length", "at "+g.index(), "at "+g.index()+" dflt"), true
	}
	switch g.n(0, 15) {
	case 0:
		return l + "length", true
	case 1, 2:
		s := l + "append"
		for i, n := 0, g.n(0, 3); i < n; i++ {
			s += " " + g.listWord()
		}
		return s, true
	case 3:
		return l + "at " + g.index() + g.pick("", " dflt", " $"+g.v()), true
	case 4, 5:
		return l + "range " + g.index(), true
	case 6, 7:
		return l + "range " + g.index() + " " + g.index(), true
	case 8, 9:
		return l + "remove " + g.index() + " " + g.index(), true
	case 10:
		return l + "insert " + g.index() + " " + g.listWord(), true
	case 11, 12:
		return l + "replace " + g.index() + " " + g.index() + " " + g.listWord(), true
	case 13:
		if g.big > 0 {
			return "list (" + strings.Join(g.series(g.prefix(), g.big), " ") + g.pick("", " a b b", " $"+g.v()) + ") sort" + g.pick("", "", " [[macro (x y) {if [string $x < $y] {idem 1} elseif [string $x > $y] {idem -1} else {idem 0}}]]"), true
		}
		if !chance(g.t, "sortvar", 50) {
			l = "list \x01(" + g.pick("c b a", "b a b", "10 9 1", "a", "", "é b Z z", "$"+g.v()+" b") + ")\x02"
		}
		return l + "sort" + g.pick("", "", "", " [[macro (x y) {if [string $x < $y] {idem -1} elseif [string $x > $y] {idem 1} else {idem 0}}]]", " [[closure (x y) {- [string $y length] [string $x length]}]]", " idem", " nocmd"), true
	case 14:
		shape := g.pick("x", "x", "(x y)", "i x", "i (x y)", "(x (y z))", "x x", "(x)", "()")
		return l + "foreach " + shape + " " + g.body(shape), chance(g.t, "value", 50)
	}
	return "list " + g.listWord(), true
}

func (g *opsGen) strWord() string {
	if g.big > 0 && g.n(0, 2) == 0 {
		return g.longWord()
	}
	switch g.n(0, 7) {
	case 0, 1, 2:
		return "$" + g.v()
	case 3:
		return g.pick("\"\"", "a", "abc", "Hello")
	case 4:
		return g.pick("é", "日本", "\"\\x80\\xff\"", "\"\\0\"", "\"a\\nb\"", "\"😀é\"")
	case 5:
		return g.pick("12", "[+ 1 2]", "1.5", "[/ 1 4]", "true", "[bool false]", "[1 < 2]", "{b l k}")
	case 6:
		return "\"$" + g.v() + "-[string x]\""
	}
	return g.pick("()", "[list ()]", "[dict ()]", "[idem {a b}]", "[parse a]", "[]", "a")
}

// longWord is one of a few long strings, alike but for a byte or a part.
func (g *opsGen) longWord() string {
	s := strings.Repeat("abcé", g.big)
	i := g.pickInt(0, 5, g.big, 2*g.big, 4*g.big, len(s)-5)
	i -= i % 5
	return g.pick(s, s, s[:i]+"abcd"+s[i:], s[:i]+"X"+s[i+1:], s[:i]+"X"+s[i+1:], s+"z", s[:len(s)-5])
}

func (g *opsGen) strOp() (string, bool) {
	l := "string \x01" + g.strWord() + "\x02"
	switch g.n(0, 13) {
	case 0:
		return l + "length", true
	case 1, 2:
		s := l + "append"
		for i, n := 0, g.n(0, 3); i < n; i++ {
			s += " " + g.strWord()
		}
		return s, true
	case 3, 4:
		return l + "at " + g.index() + g.pick("", " dflt", " ()", " [+ 1 2]"), true
	case 5, 6:
		return l + "range " + g.index() + " " + g.pick("", g.index()), true
	case 7:
		return l + "remove " + g.index() + " " + g.index(), true
	case 8:
		return l + "insert " + g.index() + " " + g.strWord(), true
	case 9, 10:
		return l + "replace " + g.index() + " " + g.index() + " " + g.strWord(), true
	case 11, 12:
		return l + g.pick("==", "!=", "<", "<=", ">", ">=") + " " + g.strWord(), true
	}
	return "idem $" + g.v() + "[" + g.index() + "]", true
}

func (g *opsGen) keyWord() string {
	if chance(g.t, "oddkey", 12) {
		return g.pick("\"\"", "\"k 1\"", "é", "()", "[list ()]", "{k1}", "[+ 0 1]", "1", "1.0", "true", "\"\\0\"", "(k1)", "(k1 k2)")
	}
	if g.big > 0 {
		return fmt.Sprint("k", g.n(0, g.big))
	}
	return g.pick("k1", "k2", "k3", "k4", "k5")
}

// entries are the keys and values of a large dictionary.
func (g *opsGen) entries() string {
	s := []string{}
	for i, k := range g.series("k", g.big) {
		s = append(s, k, fmt.Sprint("v", i%7))
	}
	return strings.Join(s, " ")
}

// dictWord is a dictionary; the order of its entries must not matter.
func (g *opsGen) dictWord() string {
	switch g.n(0, 8) {
	case 0, 1, 2, 3:
		return "$" + g.v()
	case 4, 5, 6:
		if g.big > 0 {
			return "[dict (" + g.entries() + ")]"
		}
		s := []string{}
		for i, n := 0, g.n(0, 4); i < n; i++ {
			s = append(s, g.keyWord()+" "+g.pick("1", "2", "x", "(p q)", "$"+g.v(), "[list (a b)]", "é"))
		}
		return "[dict (" + strings.Join(s, " ") + ")]"
	case 7:
		return g.pick("()", "(a b)", "(k1 1 k1 2)", "{k1 1 k2 2}", "[list (k1 1)]", "(k1 (k2 3))")
	}
	return g.pick("x", "(a)", "1", "{a}", "(() 1)", "[list (a b c)]", "{[a] b}", "(a b c)")
}

func (g *opsGen) dictOp() (string, bool) {
	l := "dict \x01" + g.dictWord() + "\x02"
	switch g.n(0, 18) {
	case 17:
		// entries kept until after the iteration
		return "set acc []; set kept []; set acc [list ()]; " + l + "foreach " + g.pick("", "i ") + "e {set acc [list $acc append ($e)]}; set kept [dict ()]; list $acc foreach e {set kept [dict $kept add [list $e at 0] [list $e at 1]]}; set acc done; idem $kept", true
	case 0:
		return l + "size", true
	case 1:
		return l + "has " + g.keyWord(), true
	case 2, 3:
		return l + "get " + g.pick(g.keyWord(), "("+g.keyWord()+" "+g.keyWord()+")", "()") + g.pick("", "", " dflt", " $"+g.v()), true
	case 4, 5, 6:
		return l + "add " + g.keyWord() + " " + g.pick("1", "new", "$"+g.v(), "(1 2)", "[list (z)]"), true
	case 7, 8:
		s := l + "remove"
		for i, n := 0, g.n(0, 3); i < n; i++ {
			s += " " + g.keyWord()
		}
		return s, true
	case 9, 10:
		s := l + "merge"
		for i, n := 0, g.n(0, 3); i < n; i++ {
			s += " " + g.dictWord()
		}
		return s, true
	case 11:
		return "list [" + l + "keys] sort", true
	case 12:
		return "list [" + l + g.pick("keys", "values", "entries") + "] length", true
	case 13:
		// entries make the same dictionary again
		return "set acc [dict ()]; list [" + l + "entries] foreach (k v) {set acc [dict $acc add $k $v]}", true
	case 14:
		return "set acc [dict ()]; " + l + "foreach " + g.pick("(k v)", "i (k v)") + " {set acc [dict $acc add $k $v]" + g.pick("", "; continue; t no", "; idem r") + "}; idem $acc", true
	case 15:
		// the number of iterations up to a break
		return "set n 0; " + l + "foreach " + g.pick("(k v)", "e", "(k)", "x", "(k v w)", "(k k)") + " {set n [$n + 1]; " + g.pick("", "if [$n >= 2] {break}", "break", "return $n", "error e") + "}; idem $n", true
	case 16:
		return "idem $" + g.v() + "(" + g.keyWord() + ")", true
	}
	return "dict " + g.dictWord(), true
}

func regOps(prop string, quick, thorough int, mk func(g *opsGen) session) {
	h.Reg(prop, "history", "histories of operations over shared values, all variables traced after each step and compared at the end with a model; non-trivial: at least three operations succeeded", quick, thorough,
		func(t *rapid.T) session { return mk(newOps(t)) },
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool { return st.events-st.errs >= 8 && len(s.Scripts) >= 7 })
		})
}

func init() {
	regOps("P08", 250000, 6000000, func(g *opsGen) session {
		g.conv = "list"
		return g.history(10, func() string {
			if g.n(0, 3) == 0 {
				return "{" + g.pick("c b a", "b a c", "3 1 2", "d c b a d", "b (z y) a", "b; a", "e d c b a", "") + "}"
			}
			return g.pick("[list ("+g.elems(6)+")]", "("+g.elems(5)+")", "[list (a b c d e)]")
		}, g.listOp)
	})
	regOps("P09", 150000, 4000000, func(g *opsGen) session {
		return g.history(10, func() string {
			if g.big > 0 {
				return g.longWord()
			}
			return g.pick("\"\"", "a", "example", "\"Hello, World\"", "éàü", "\"日本語 text\"", "\"a\\0b\\x80\"", "12", "[+ 1 2]", "xyz")
		}, g.strOp)
	})
	regOps("P10", 150000, 4000000, func(g *opsGen) session {
		g.conv = "dict"
		return g.history(10, func() string {
			if g.n(0, 7) == 0 {
				e := g.pick("k1 a k2 b", "k1 a k1 b", "k2 (x y) k1 z", "")
				return g.pick("{"+e+"}", "("+e+")")
			}
			if g.big > 0 {
				return "[dict (" + g.entries() + ")]"
			}
			s := []string{}
			for i, n := 0, g.n(0, 5); i < n; i++ {
				s = append(s, g.keyWord()+" "+g.pick("1", "x", "(p q)", "[list (a b)]", "[dict (k1 z)]"))
			}
			return g.pick("[dict (" + strings.Join(s, " ") + ")]")
		}, g.dictOp)
	})
	h.Reg("P11", "operators", "operator sentences over numbers, numeric strings, booleans, extremes and misfits in every notation; non-trivial: at least two sentences gave a value", 50000, 2000000,
		func(t *rapid.T) session {
			g := &opsGen{t: t}
			s := session{}
			for i, n := 0, g.n(2, 6); i < n; i++ {
				s.Scripts = append(s.Scripts, "t ["+g.operator()+"]")
			}
			return s
		},
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool { return st.calls >= 2 })
		})
}

var numPool = []string{"0", "1", "2", "3", "-1", "0.5", "1.5", "-2.5", "10", "0.1", "0.2", "1e3", "1e6", "1e308", "1e-308", "5e-324", "-0", "-0.0", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "9007199254740993", "4611686018427387904", "1e18", "1e19", "123456789.125", "1e21", "3.0"}
var oddNumPool = []string{"x", "\"\"", "()", "[list ()]", "{1}", "true", "0x10", "1_000", "Inf", "-Inf", "NaN", "+1", " 1", "1e400", ".5", "5.", "1e", "\"1 \"", "0b1", "1e5", "infinity", "0x1p-2", "[]"}

func (g *opsGen) num() string {
	if chance(g.t, "odd", 6) {
		return pick(g.t, "num", oddNumPool)
	}
	s := pick(g.t, "num", numPool)
	switch g.n(0, 9) {
	case 0:
		return "[int " + s + "]"
	case 1:
		return "[real " + s + "]"
	case 2:
		return "[" + g.pick("+", "*") + " " + s + " " + pick(g.t, "num", numPool) + "]"
	case 3:
		return "[" + pick(g.t, "num", numPool) + " " + g.pick("/", "-") + " " + s + "]"
	}
	return s
}

func (g *opsGen) boolWord() string {
	switch g.n(0, 9) {
	case 0, 1, 2:
		return g.pick("true", "false")
	case 3, 4, 5:
		return "{t [idem " + g.pick("p", "q") + "]; idem " + g.pick("true", "false", "1", "x", "0") + "}"
	case 6:
		return "{" + g.pick("break", "return true", "error e", "continue", "pass", "t; 1 < 2", "yield true", "", "return false") + "}"
	case 7:
		return "[" + g.num() + " " + g.pick("<", ">", "==") + " " + g.num() + "]"
	case 8:
		return "{" + g.pick("&&", "||") + " " + g.boolWord() + " " + g.boolWord() + "}"
	}
	return g.pick("1", "0", "yes", "TRUE", "()", "[list ()]", "\"\"", "[true]", "T", "f")
}

func (g *opsGen) operator() string {
	switch g.n(0, 6) {
	case 0, 1:
		s := g.pick("+", "-", "*", "/")
		for i, n := 0, stretch(g.t, "operands", 0, 5); i < n; i++ {
			s += " " + g.num()
		}
		return s
	case 2, 3:
		s := g.num()
		for i, n := 0, stretch(g.t, "operands", 0, 4); i < n; i++ {
			s += " " + g.pick("+", "-", "*", "/") + " " + g.num()
		}
		if chance(g.t, "bad", 5) {
			s += g.pick(" +", " %", " == 1", " x 1", " () 1")
		}
		return s
	case 4:
		s := g.num() + " " + g.pick("==", "!=", "<", "<=", ">", ">=") + " " + g.num()
		if chance(g.t, "bad", 5) {
			s += g.pick(" 1", " < 2")
		}
		return s
	case 5:
		s := g.pick("&&", "||", "!")
		for i, n := 0, stretch(g.t, "operands", 0, 4); i < n; i++ {
			s += " " + g.boolWord()
			if s[0] == '!' && chance(g.t, "one", 85) {
				break
			}
		}
		return s
	}
	return g.pick("true", "false", "bool "+g.boolWord()) + g.pick("", " ? a b", " !? a b", " ? a", " !? a", " ?", " ? a b c", " x")
}

func init() {
	h.Reg("P05", "qualified", "histories extending shared qualified names with keys, indices and rules, and substituting them; all of them traced after each step; non-trivial: at least three operations succeeded", 20000, 1000000,
		func(t *rapid.T) session {
			g := &opsGen{t: t}
			sel := func() string {
				s := ""
				for i, n := 0, stretch(t, "selectors", 1, 3); i < n; i++ {
					s += g.pick("(a)", "(a b)", "(b)", "(c d)", "[0]", "[1]", "[idem 1]", "(a)", "(b)", "($k)", "(c)(d)", "[+ 0 1]", "{rule 1}", "{r; s}")
				}
				return s
			}
			s := g.history(10, func() string { return g.pick("x", "d", "(x d)", "{x y}", "e", "d", "l") + sel() }, func() (string, bool) {
				switch g.n(0, 5) {
				case 0, 1, 2:
					return "idem $" + g.v() + sel(), true
				case 3:
					return "idem $$" + g.v() + g.pick("", sel()), true
				case 4:
					return "idem " + g.pick("x", "d", "(x d)", "$"+g.v()) + sel(), true
				}
				return "list ($" + g.v() + sel() + " $" + g.v() + sel() + " $" + g.v() + ")", true
			})
			s.Scripts = append([]string{"set d [dict (a [dict (b [list (1 [dict (c 2)])] a 5)] b [list (3 4)] c [dict (d 6)])]; set l [list ([list (1 2)] [dict (a 7 b 8)])]; set x [dict (a 1 b [list (2 3)])]; set k a; set {x y} $d"}, s.Scripts...)
			return s
		},
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool { return st.events-st.errs >= 8 && len(s.Scripts) >= 8 })
		})
}
