package props

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Generator of meaningful programs. It keeps track of what is defined so that most
// statements do something; a small part is deliberately ill-typed.

type vkind int

const (
	kAny vkind = iota
	kNum
	kStr
	kBool
	kList
	kTuple
	kDict
	kScript
	kName
)

// variables of the prelude, by kind
var progVars = map[vkind][]string{
	kNum: {"a", "b"}, kStr: {"s", "u"}, kBool: {"q"}, kList: {"l"}, kTuple: {"w"}, kDict: {"d"}, kScript: {"k"}, kName: {"n"}, kAny: {"z"},
}

type gvar struct {
	name string
	kind vkind
}

// gcmd is a command known to be defined.
type gcmd struct {
	name     string
	kind     string // macro closure proc alias ens ns scope
	min, max int
	flag     string // an option accepted in front, "" if none
	subs     []gcmd
	rank     int
}

type genv struct {
	vars   []gvar
	locals []gvar
	cmds   []*gcmd
	metas  []gvar // variables holding a meta command of a callable
	coros  []string
	inLoop int
	inBody int      // inside a command body
	rank   int      // commands callable from here have a lower rank
	ghosts []string // names of the locals of the enclosing constructs
}

// profile weighs the kinds of statements.
type profile struct {
	trace, vars, flow, codes, yields, defs, calls, colls, arith, evals, coros, pipes, rebind int
	wrong                                                                                    int // percent of ill-typed operands
	odd                                                                                      int // percent of unusual word shapes
	depth, stmts, budget                                                                     int
	scripts                                                                                  int
	noDicts                                                                                  bool
}

func baseProfile() profile {
	return profile{trace: 10, vars: 8, flow: 10, codes: 3, yields: 1, defs: 4, calls: 8, colls: 4, arith: 3, evals: 3, coros: 1, pipes: 1, rebind: 1,
		wrong: 2, odd: 10, depth: 4, stmts: 4, budget: 60, scripts: 5}
}

type pg struct {
	t     *rapid.T
	p     profile
	env   *genv
	left  int
	depth int
	uniq  int
	big   bool // one large statement is still to come
}

type alt struct {
	w int
	f func() string
}

// choose draws one of the weighted alternatives; the first is the simplest.
func (g *pg) choose(label string, as ...alt) string {
	n := 0
	for _, a := range as {
		n += a.w
	}
	if n == 0 {
		return "idem 0"
	}
	k := rapid.IntRange(0, n-1).Draw(g.t, label)
	for _, a := range as {
		if k < a.w {
			return a.f()
		}
		k -= a.w
	}
	panic("choose")
}
func (g *pg) chance(p int) bool       { return p > 0 && chance(g.t, "chance", p) }
func (g *pg) n(lo, hi int) int        { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *pg) one(xs ...string) string { return pick(g.t, "one", xs) }
func (g *pg) full() bool              { return g.left <= 0 || g.depth >= g.p.depth }
func (g *pg) fresh(p string) string   { g.uniq++; return p + strconv.Itoa(g.uniq) }

// in generates with more depth.
func (g *pg) in(f func() string) string {
	g.depth++
	defer func() { g.depth-- }()
	return f()
}

// within generates in a changed environment.
func (g *pg) within(env *genv, f func() string) string {
	old := g.env
	g.env = env
	defer func() { g.env = old }()
	return g.in(f)
}

func (e *genv) clone() *genv {
	c := *e
	c.vars = append([]gvar{}, e.vars...)
	c.locals = append([]gvar{}, e.locals...)
	c.cmds = append([]*gcmd{}, e.cmds...)
	c.metas = append([]gvar{}, e.metas...)
	c.coros = append([]string{}, e.coros...)
	return &c
}

// child is the environment of a child scope.
func (e *genv) child() *genv {
	return &genv{cmds: append([]*gcmd{}, e.cmds...), rank: e.rank, ghosts: e.hide()}
}

// hide gives the names of the locals of this environment and of the enclosing ones.
func (e *genv) hide() []string {
	out := append([]string{}, e.ghosts...)
	for _, v := range e.locals {
		out = append(out, v.name)
	}
	return out
}

// local names a parameter or loop variable; sometimes a variable has the same name.
func (g *pg) local(p string, k vkind) string {
	if g.p.odd > 0 && g.chance(15) {
		return pick(g.t, "shadow", progVars[k])
	}
	return g.fresh(p)
}

var kinds = []vkind{kNum, kStr, kBool, kList, kTuple, kDict, kScript, kName, kAny}

func (g *pg) kind() vkind { return kinds[g.n(0, len(kinds)-1)] }

func (g *pg) varOf(k vkind) string {
	if g.p.wrong > 0 && g.chance(1) {
		return g.one("nope", "x", "a", "y1")
	}
	if len(g.env.ghosts) > 0 && g.chance(4) {
		return g.one(g.env.ghosts...)
	}
	var c, all []string
	for _, v := range append(append([]gvar{}, g.env.locals...), g.env.vars...) {
		if k == kAny || v.kind == k || v.kind == kAny && g.p.wrong > 5 {
			c = append(c, v.name)
		}
		all = append(all, v.name)
	}
	if len(c) > 0 {
		return c[g.n(0, len(c)-1)]
	}
	return ""
}

// ---- words

// word generates a word whose value is of some kind.
func (g *pg) word(k vkind) string {
	g.left--
	if g.p.wrong > 0 && g.chance(g.p.wrong) {
		k = g.kind()
	}
	if k == kAny {
		k = g.kind()
	}
	vw, ew := 3, 2
	v := g.varOf(k)
	if v == "" {
		vw = 0
	}
	if g.full() {
		ew = 0
	}
	if k == kScript {
		ew = 0
	}
	return g.choose("word",
		alt{3, func() string { return g.literal(k) }},
		alt{vw, func() string { return "$" + g.varForm(v) }},
		alt{ew, func() string { return g.in(func() string { return "[" + g.expr(k) + "]" }) }},
		alt{boolInt(!g.full()) * g.p.odd / 5, func() string { return g.in(func() string { return g.oddWord(k, v) }) }},
	)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (g *pg) varForm(v string) string {
	if g.p.odd > 0 && g.chance(g.p.odd) {
		return g.one("{"+v+"}", "$[idem "+v+"]")
	}
	return v
}

func (g *pg) literal(k vkind) string {
	switch k {
	case kNum:
		return g.one("0", "1", "2", "3", "5", "10", "-1", "7", "-4", "100", "2", "4", "1.5")
	case kStr:
		return g.one("foo", "bar", "\"\"", "x", "\"a b\"", "\"\"\"h \"q\" $x\"\"\"", "\"\"T\nta [g\nT\"\"", "é", "\"\\t\\\\\"", "a.b", "{x}")
	case kBool:
		return g.one("true", "false")
	case kList:
		return "[list (" + g.items(g.n(0, 3)) + ")]"
	case kTuple:
		return "(" + g.items(g.n(0, 3)) + ")"
	case kDict:
		n := g.n(0, 2)
		s := []string{}
		for i := 0; i < n; i++ {
			s = append(s, g.key()+" "+g.word(kAny))
		}
		return "[dict (" + strings.Join(s, " ") + ")]"
	case kScript:
		return g.block(2)
	case kName:
		return g.one("a", "b", "s", "l", "z")
	}
	return g.one("0", "foo")
}

func (g *pg) key() string { return g.one("k1", "k2", "a", "1", "\"k 3\"") }

func (g *pg) items(n int) string {
	s := []string{}
	for i := 0; i < n; i++ {
		s = append(s, g.in(func() string { return g.word(kAny) }))
	}
	return strings.Join(s, g.one(" ", " ", "\n", "; "))
}

// oddWord generates less usual word shapes.
func (g *pg) oddWord(k vkind, v string) string {
	switch k {
	case kStr, kName:
		return g.choose("odd",
			alt{3, func() string { return g.str() }},
			alt{3, func() string { return g.compound() }},
			alt{1, func() string {
				if s := g.varOf(kStr); s != "" {
					return "$" + s + "[" + g.index() + "]"
				}
				return "foo"
			}},
			alt{1, func() string { return "$[idem " + g.word(kStr) + "]" }},
		)
	case kNum, kBool:
		if v != "" && g.chance(50) {
			return "$$[idem " + v + "]"
		}
		return "$[" + g.expr(k) + "]"
	case kTuple:
		return g.choose("odd",
			alt{2, func() string { return "$(" + g.names(g.n(1, 3)) + ")" }},
			alt{2, func() string { return "(" + g.items(g.n(0, 2)) + " $*" + g.tupleSource() + ")" }},
			alt{1, func() string { return "$([list (1 2 3)] [list (4 5 6)])[" + g.index() + "]" }},
			alt{1, func() string { return "$[idem ([dict (k1 1)] [dict (k1 2)])](k1)" }},
			alt{1, func() string { return "*" + g.tupleSource() }},
			alt{1, func() string { return "$$(" + g.one("n n", "n", "") + ")" }},
			alt{1, func() string { return "($" + g.varName() + "\n#{c}# # c\n" + g.word(kAny) + ")" }},
			alt{1, func() string { return "$[idem (" + g.lists(g.n(1, 2)) + ")][" + g.index() + "]" }},
		)
	case kList:
		return g.choose("odd",
			alt{1, func() string { return "$[list (" + g.items(g.n(0, 2)) + ")]" }},
			alt{1, func() string { return "$[list ([list (1 2)] [list (3 4)])][" + g.one("0", "1") + "]" }},
			alt{1, func() string { return "$[dict (k1 [list (1 2)])](k1)" }},
		)
	case kDict:
		return g.choose("odd",
			alt{1, func() string { return "$[dict (k1 [dict (k2 7)])](k1)" }},
			alt{1, func() string { return "$[list ([dict (k2 7)])][0]" }},
		)
	case kScript:
		return "[idem " + g.block(1) + "]"
	}
	return g.choose("odd",
		alt{2, func() string { return g.ref(kList) + "[" + g.index() + "]" }},
		alt{2, func() string { return g.ref(kDict) + "(" + g.key() + ")" }},
		alt{1, func() string {
			if v := g.varOf(kName); v != "" {
				return "$$" + v
			}
			return "foo"
		}},
		alt{1, func() string { return "$[list (" + g.items(2) + ")][" + g.index() + "]" }},
		alt{1, func() string { return "$[dict (k1 [list (1 2 [dict (k2 x)])])](k1)[2](k2)" }},
		alt{1, func() string { return "$[dict (k1 [dict (k2 x)])](k1 k2)" }},
		alt{1, func() string { return g.ref(kAny) + "{" + g.word(kAny) + "}" }},
		alt{2, func() string { return g.qualified() }},
		alt{1, func() string { return "[[[" + g.expr(kAny) + "]]]" }},
		alt{1, func() string { return "[get " + g.qualified() + "]" }},
		alt{1, func() string { return "[get " + g.qualified() + " " + g.word(kAny) + "]" }},
		alt{1, func() string { return "[exists " + g.qualified() + "]" }},
	)
}

func (g *pg) qualified() string {
	s := g.one(g.refName(kList), g.refName(kDict), g.refName(kTuple), "{"+g.refName(kDict)+"}", "("+g.names(2)+")", g.varName())
	for i, n := 0, g.n(1, 3); i < n; i++ {
		if g.chance(50) {
			s += "[" + g.index() + "]"
		} else {
			s += "(" + g.key() + ")"
		}
	}
	return s
}

func (g *pg) lists(n int) string {
	s := []string{}
	for i := 0; i < n; i++ {
		s = append(s, "[list (1 2 3)]")
	}
	return strings.Join(s, " ")
}

// ref is a reference to a variable of a kind, or a literal when there is none.
func (g *pg) ref(k vkind) string {
	if v := g.varOf(k); v != "" {
		return "$" + v
	}
	if k == kAny {
		k = kStr
	}
	return g.literal0(k)
}

// refName is the name of a variable of a kind, if there is one.
func (g *pg) refName(k vkind) string {
	if v := g.varOf(k); v != "" {
		return v
	}
	return "a"
}

func (g *pg) varName() string {
	if v := g.varOf(kAny); v != "" {
		return v
	}
	return "a"
}
func (g *pg) names(n int) string {
	s := []string{}
	for i := 0; i < n; i++ {
		s = append(s, g.varName())
	}
	return strings.Join(s, " ")
}

func (g *pg) index() string {
	if g.chance(70) {
		return g.one("0", "1", "2", "idem 0", "- 1", "3")
	}
	return g.expr(kNum)
}

// tupleSource is what may follow "$*".
func (g *pg) tupleSource() string {
	return g.choose("tuplesrc",
		alt{2 * boolInt(g.varOf(kTuple) != ""), func() string { return g.refName(kTuple) }},
		alt{2, func() string { return "[idem (" + g.items(g.n(0, 3)) + ")]" }},
		alt{1, func() string { return "(" + g.names(g.n(1, 2)) + ")" }},
		alt{1, func() string { return "[tuple [list (1 2)]]" }},
	)
}

// str generates a double-quoted string with substitutions.
func (g *pg) str() string { return "\"" + g.parts(true) + "\"" }
func (g *pg) compound() string {
	return g.one("x", "p.", "-", "é") + g.parts(false)
}
func (g *pg) parts(inString bool) string {
	out := ""
	for i, n := 0, g.n(1, 3); i < n; i++ {
		out += g.choose("part",
			alt{2, func() string {
				if inString {
					return g.one("p", " ", "(q)", "{r}", "; #", "\\x41")
				}
				return g.one("p", "q", "\\n")
			}},
			alt{2, func() string {
				if v := g.varOf(g.anyOf(kNum, kStr)); v != "" {
					return "${" + v + "}"
				}
				return "o"
			}},
			alt{2, func() string {
				return "[" + g.in(func() string { return g.expr(g.anyOf(kNum, kStr)) }) + "]"
			}},
			alt{1, func() string {
				return "$[" + g.in(func() string { return g.expr(kStr) }) + "][" + g.one("0", "1") + "]"
			}},
			alt{boolInt(g.varOf(kDict) != ""), func() string { return "$" + g.refName(kDict) + "(" + g.key() + ")" }},
			alt{boolInt(g.varOf(kList) != ""), func() string { return "$" + g.refName(kList) + "[0]" }},
		)
	}
	return out
}

func (g *pg) anyOf(ks ...vkind) vkind { return ks[g.n(0, len(ks)-1)] }

// ---- expressions: a statement whose value is of a kind

func (g *pg) expr(k vkind) string {
	g.left--
	if g.full() {
		return "idem " + g.literal0(k)
	}
	generic := []alt{
		{2, func() string { return "idem " + g.word(k) }},
		{2, func() string { return "t " + g.fresh("p") + " " + g.word(k) }},
		{1, func() string { return "if " + g.cond() + " {" + g.sub(k) + "} else {" + g.sub(k) + "}" }},
		{1, func() string { return g.stmt() + "; " + "idem " + g.word(k) }},
		{1, func() string { return "eval {" + g.sub(k) + "}" }},
		{boolInt(len(g.env.cmds) > 0) * g.p.calls / 4, func() string { return g.call() }},
	}
	switch k {
	case kNum:
		generic = append(generic,
			alt{3, func() string { return g.arith() }},
			alt{1, func() string {
				return g.one("list "+g.word(kList)+" length", "string "+g.word(kStr)+" length", "tuple "+g.word(kTuple)+" length", "dict "+g.word(kDict)+" size")
			}},
		)
	case kStr:
		generic = append(generic, alt{3, func() string { return g.strOp() }})
	case kBool:
		generic = append(generic, alt{4, func() string { return g.boolExpr() }})
	case kList:
		generic = append(generic, alt{3, func() string { return g.listOp() }})
	case kDict:
		generic = append(generic, alt{3, func() string { return g.dictOp() }})
	case kTuple:
		generic = append(generic, alt{1, func() string { return "tuple " + g.word(kList) }},
			alt{1, func() string { return "catch " + g.block(1) }})
	case kScript:
		generic = append(generic, alt{1, func() string { return "parse \"idem 1; t \\\"q\\\"\"" }},
			alt{1, func() string { return "script " + g.ref(kScript) + " append " + g.block(1) }})
	}
	return g.choose("expr", generic...)
}

func (g *pg) sub(k vkind) string { return g.in(func() string { return g.expr(k) }) }

func (g *pg) literal0(k vkind) string {
	switch k {
	case kList, kDict:
		return "[list ()]"
	case kTuple:
		return "()"
	case kScript:
		return "{}"
	}
	return g.literal(k)
}

func (g *pg) arith() string {
	return g.choose("arith",
		alt{2, func() string { return "$[" + g.one("+", "-", "*") + " " + g.word(kNum) + " " + g.word(kNum) + "] + 1" }},
		alt{3, func() string {
			s := g.one("+", "-", "*", "/")
			for i, n := 0, g.n(1, 3); i < n; i++ {
				s += " " + g.word(kNum)
			}
			return s
		}},
		alt{3, func() string {
			s := g.word(kNum)
			for i, n := 0, g.n(1, 3); i < n; i++ {
				s += " " + g.one("+", "-", "*", "/") + " " + g.word(kNum)
			}
			return s
		}},
	)
}

func (g *pg) strOp() string {
	s := "string " + g.word(kStr)
	return g.choose("strop",
		alt{2, func() string { return s + " append " + g.word(kStr) }},
		alt{1, func() string { return s + " at " + g.word(kNum) + " " + g.word(kStr) }},
		alt{2, func() string { return s + " range " + g.word(kNum) + " " + g.word(kNum) }},
		alt{1, func() string { return s + " remove " + g.word(kNum) + " " + g.word(kNum) }},
		alt{1, func() string { return s + " insert " + g.word(kNum) + " " + g.word(kStr) }},
		alt{1, func() string {
			return s + " replace " + g.word(kNum) + " " + g.word(kNum) + " " + g.word(kStr)
		}},
		alt{1, func() string { return s }},
	)
}

func (g *pg) listOp() string {
	s := "list " + g.word(kList)
	return g.choose("listop",
		alt{2, func() string { return s + " append " + g.word(kList) }},
		alt{2, func() string { return s + " range " + g.word(kNum) + " " + g.word(kNum) }},
		alt{1, func() string { return s + " remove " + g.word(kNum) + " " + g.word(kNum) }},
		alt{1, func() string { return s + " insert " + g.word(kNum) + " " + g.word(kList) }},
		alt{1, func() string {
			return s + " replace " + g.word(kNum) + " " + g.word(kNum) + " " + g.word(kList)
		}},
		alt{1, func() string { return s }},
	)
}

func (g *pg) dictOp() string {
	s := "dict " + g.word(kDict)
	return g.choose("dictop",
		alt{2, func() string { return s + " add " + g.key() + " " + g.word(kAny) }},
		alt{1, func() string { return s + " remove " + g.key() }},
		alt{1, func() string { return s + " merge " + g.word(kDict) }},
		alt{1, func() string { return s }},
	)
}

// operand of a logic operator: a boolean or a script
func (g *pg) operand() string {
	if g.full() || g.chance(50) {
		return g.word(kBool)
	}
	if g.p.flow > 0 && g.chance(15) {
		// a test that goes through constructs itself
		return "{" + g.in(func() string {
			s := g.choose("test",
				alt{2, func() string { return g.whenStmt() }},
				alt{2, func() string { return g.ifStmt() }},
				alt{1, func() string { return g.catchStmt() }},
				alt{1, func() string { return g.foreachStmt() }},
				alt{1, func() string { return g.stmt() }},
			)
			if g.chance(50) {
				return s + "; " + g.expr(kBool)
			}
			return s + "; idem " + g.word(kBool)
		}) + "}"
	}
	return "{" + g.in(func() string { return g.expr(kBool) }) + "}"
}

func (g *pg) boolExpr() string {
	return g.choose("bool",
		alt{2, func() string {
			return g.word(kNum) + " " + g.one("<", "==", ">", ">=", "<=", "!=") + " " + g.word(kNum)
		}},
		alt{1, func() string {
			return "string " + g.word(kStr) + " " + g.one("==", "!=", "<", ">=") + " " + g.word(kStr)
		}},
		alt{1, func() string { return "! " + g.operand() }},
		alt{2, func() string {
			s := g.one("&&", "||")
			for i, n := 0, g.n(1, 3); i < n; i++ {
				s += " " + g.operand()
			}
			return s
		}},
		alt{1, func() string { return "exists " + g.one(g.varName(), "nope", "l[1]", "d(k1)") }},
		alt{1, func() string { return "dict " + g.ref(kDict) + " has " + g.key() }},
		alt{1, func() string { return "bool " + g.word(kBool) }},
	)
}

// cond is a test of a conditional: a boolean word or a script
func (g *pg) cond() string { return g.operand() }

// ---- blocks and statements

// block generates a block of up to n statements in the current environment.
func (g *pg) block(n int) string { return "{" + g.in(func() string { return g.seq(g.n(0, n)) }) + "}" }

func (g *pg) seq(n int) string {
	s := []string{}
	for i := 0; i < n; i++ {
		s = append(s, g.stmt())
	}
	return strings.Join(s, g.one("; ", "\n"))
}

func (g *pg) stmt() string {
	g.left--
	if g.full() {
		return g.choose("leaf",
			alt{4, func() string { return "t " + g.fresh("p") }},
			alt{2, func() string { return "t " + g.word(kAny) }},
			alt{g.p.codes, func() string { return g.code() }},
			alt{g.p.vars, func() string { return "set " + g.one("a", "b", "z") + " " + g.literal(kNum) }},
		)
	}
	p := g.p
	if g.big && g.chance(20) {
		g.big = false
		return g.large()
	}
	return g.choose("stmt",
		alt{p.trace + 4, func() string { return g.traceStmt() }},
		alt{p.vars, func() string { return g.varStmt() }},
		alt{p.flow, func() string { return g.flow() }},
		alt{p.codes, func() string { return g.code() }},
		alt{p.yields, func() string { return g.yieldStmt() }},
		alt{p.defs, func() string { return g.def() }},
		alt{boolInt(len(g.env.cmds)+len(g.env.metas) > 0) * p.calls, func() string { return g.call() }},
		alt{p.colls, func() string { return g.coll() }},
		alt{p.arith, func() string { return g.expr(g.anyOf(kNum, kBool)) }},
		alt{p.evals, func() string { return g.evalStmt() }},
		alt{p.coros, func() string { return g.coro() }},
		alt{p.pipes, func() string { return g.pipe() }},
		alt{boolInt(len(g.env.locals)+len(g.env.ghosts) > 0) * ((p.defs + 1) / 2), func() string { return g.nested() }},
	)
}

// large is a statement that is deep, wide or long.
func (g *pg) large() string {
	n := g.n(5, 40)
	if g.chance(20) {
		n = g.n(41, 150)
	}
	each := func(sep string, f func(i int) string) string {
		out := []string{}
		for i := 1; i <= n; i++ {
			out = append(out, f(i))
		}
		return strings.Join(out, sep)
	}
	num := func(p string) func(i int) string { return func(i int) string { return p + strconv.Itoa(i) } }
	leaf := func() string { return g.in(func() string { return g.stmt() }) }
	at := g.n(1, n)
	odd := func(a string, f func(i int) string) func(i int) string {
		return func(i int) string {
			if i == at {
				return a
			}
			return f(i)
		}
	}
	// around wraps a statement n times in the kinds drawn
	around := func(s string, kinds ...[2]string) string {
		ks := []([2]string){}
		for i, m := 0, g.n(1, 4); i < m; i++ {
			ks = append(ks, pick(g.t, "wrap", kinds))
		}
		for i := n; i > 0; i-- {
			k := ks[i%len(ks)]
			s = strings.ReplaceAll(k[0], "%", strconv.Itoa(i)) + s + strings.ReplaceAll(k[1], "%", strconv.Itoa(i))
		}
		return s
	}
	return g.choose("large",
		alt{4, func() string { // deep expressions and frames
			return around(leaf(), [2]string{"idem [", "]"}, [2]string{"t a% [", "] z%"}, [2]string{"idem b%; t [", "; |> t r%]; |> t s%"}, [2]string{"idem \"<[", "]>\""},
				[2]string{"idem c%; idem [", "]"}, [2]string{"idem ([", "] d%)"}, [2]string{"t [", "; ^]"}, [2]string{"idem $[", "]"}, [2]string{"t $*[", "]"})
		}},
		alt{4, func() string { // deep constructs
			ws := [][2]string{{"eval {", "; t e%}"}, {"if true {", "}"}, {"if {idem false} {t no} else {t in%; ", "; t out%}"}, {"catch {", "} finally {t f%}"}, {"catch {", "} error e {t e% $e; error $e}"},
				{"when {{idem true} {", "}}"}, {"list (x y%) foreach n% {", "; t n%; break}"}, {"while true {", "; break}"}, {"catch {", "} break {t b%; pass} return v {t $v; return r%}"},
				{"list (x) foreach n% {", "; t [get n% none]}"}, {"loop i% {", "; t [get i% none]; break}"}, {"[[macro () {", "}]]"}, {"[[closure () {", "; idem r%}]]"}}
			if g.p.yields > 0 {
				ws = append(ws, [2]string{"t [yield y%]; ", ""}, [2]string{"catch {", "} yield v {t $v}"})
			}
			return around(leaf(), ws...)
		}},
		alt{3, func() string { // many turns
			c := g.fresh("c")
			body := g.within(g.withLocals(true, g.env.locals...), func() string { return g.stmt() })
			if g.chance(50) {
				body = "if [$" + c + " == " + strconv.Itoa(at) + "] {" + body + "}"
			}
			return g.choose("turns",
				alt{1, func() string {
					return "set " + c + " 0; while {$" + c + " < " + strconv.Itoa(n) + "} {set " + c + " [+ $" + c + " 1]; " + body + "}"
				}},
				alt{1, func() string {
					return "set " + c + " 0; loop i {if [$i >= " + strconv.Itoa(n) + "] {break}; set " + c + " $i; " + body + "}"
				}},
				alt{1, func() string {
					return "set " + c + " 0; list (" + each(" ", num("")) + ") foreach i v {t $i $v; set " + c + " $v; " + body + "}"
				}},
				alt{1, func() string {
					return "set k {" + leaf() + "}; set " + c + " 0; while {$" + c + " < " + strconv.Itoa(n) + "} {set " + c + " [$" + c + " + 1]; eval $k}"
				}},
			)
		}},
		alt{3, func() string { // many names
			return g.choose("names",
				alt{1, func() string {
					return each("; ", func(i int) string { return fmt.Sprintf("set n%d v%d", i, i) }) + "; t " + each(" ", num("$n")) + "; set n" + strconv.Itoa(at) + " changed; t " + each(" ", num("$n")) + "; unset (" + each(" ", num("n")) + ")"
				}},
				alt{1, func() string {
					return "set (" + each(" ", num("n")) + ") (" + each(" ", odd(g.word(kAny), num("w"))) + "); t " + each(" ", num("$n"))
				}},
				alt{2, func() string {
					kind := g.one("proc", "macro", "closure")
					use := g.one("[["+kind+" (%s) {%s}]] %s", "set m ["+kind+" (%s) {%s}]; [$m] %s; t [[$m] a]")
					return fmt.Sprintf(use, each(" ", odd(g.one("?o", "*r", "(int o)", "(?o {t d})", "o"), num("p"))), "t "+each(" ", odd("z", num("$p")))+"; "+g.one("", "idem $p1", "return $p"+strconv.Itoa(n)), each(" ", odd(g.word(kAny), num("w"))))
				}},
				alt{1, func() string {
					return "list ((" + each(" ", num("w")) + ") (" + each(" ", odd(g.word(kAny), num("x"))) + ")) foreach (" + each(" ", num("n")) + ") {t " + each(" ", num("$n")) + "; set n" + strconv.Itoa(at) + " other; t $n" + strconv.Itoa(at) + "}; t [exists n" + strconv.Itoa(at) + "]"
				}},
				alt{1, func() string {
					return "loop i " + each(" ", func(i int) string {
						return fmt.Sprintf("n%d %s", i, []string{"[list (a b c)]", "{break}", "(t src)", "[dict (k v)]", "{idem w" + strconv.Itoa(i) + "}"}[i*at%5])
					}) + " {if [$i >= 3] {break}; t $i; t " + each(" ", func(i int) string { return fmt.Sprintf("[get n%d none]", i) }) + "}"
				}},
				alt{1, func() string {
					return each("; ", func(i int) string { return fmt.Sprintf("macro q%d () {t q%d}", i, i) }) + "; " + each("; ", odd("q"+strconv.Itoa(n), num("q")))
				}},
			)
		}},
		alt{2, func() string { // many parts
			return g.choose("parts",
				alt{2, func() string { return "t " + each(" ", odd(g.word(kAny), num("w"))) }},
				alt{1, func() string {
					return "if false {t no} " + each(" ", odd("elseif "+g.cond()+" {"+leaf()+"}", func(i int) string { return "elseif {t c" + strconv.Itoa(i) + "; idem false} {t no}" })) + " else {" + leaf() + "}"
				}},
				alt{1, func() string {
					return "when {" + each(" ", odd(g.operand()+" {"+leaf()+"}", func(i int) string { return "{t c" + strconv.Itoa(i) + "; idem false} {t no}" })) + " {t dflt}}"
				}},
				alt{1, func() string {
					return "when {t cmd; idem " + strconv.Itoa(at) + "} {" + each(" ", func(i int) string { return fmt.Sprintf("(== %d) {t r%d; idem %d}", i, i, i) }) + "}"
				}},
				alt{1, func() string {
					return g.one("&&", "||") + " " + each(" ", odd(g.operand(), func(i int) string { return g.lit(i) }))
				}},
				alt{1, func() string {
					return each("; ", odd(g.in(func() string { return g.code() }), func(i int) string { return "t s" + strconv.Itoa(i) }))
				}},
				alt{1, func() string {
					return "t \"" + each(" ", odd("["+g.in(func() string { return g.expr(kStr) })+"]", func(i int) string { return "$s[t w" + strconv.Itoa(i) + "; idem x]" })) + "\""
				}},
			)
		}},
		alt{2, func() string { // deep calls
			kind := g.one("macro", "closure", "proc")
			name := g.fresh("deep")
			return fmt.Sprintf("%s %s ((int x)) {if [$x <= 0] {%s; return bottom}; t d $x; %s; t u $x}; %s %d", kind, name, g.in(func() string { return g.stmt() }),
				g.one("t ["+name+" [$x - 1]]", name+" [$x - 1]", "eval {"+name+" [$x - 1]}", "catch {"+name+" [$x - 1]} error e {error $e}"), name, n)
		}},
		alt{boolInt(g.p.yields+g.p.coros > 0) * 3, func() string { // many suspensions
			c := g.fresh("c")
			return "set " + c + " 0; set co [coroutine {while {$" + c + " < " + strconv.Itoa(n) + "} {set " + c + " [+ $" + c + " 1]; " + leaf() + "; t got [yield $" + c + "]}; idem end}]; while {! [$co done]} {t [$co " + g.one("wait", "yield in") + "]}"
		}},
		alt{1, func() string { // aliases of aliases
			return "macro q0 (*a) {" + leaf() + "; t $a}; " + each("; ", func(i int) string { return fmt.Sprintf("alias q%d (q%d a%d)", i, i-1, i) }) + "; q" + strconv.Itoa(at) + " z"
		}},
	)
}
func (g *pg) lit(i int) string { return []string{"true", "{t l; idem true}", "false"}[i%2] }

// nested defines something inside of a construct with locals, which refers to their names,
// and uses it at once.
func (g *pg) nested() string {
	n := g.one(append(g.env.hide(), "a")...)
	kind := g.one("proc", "closure", "macro")
	use := "[[" + kind + " %s]]%s"
	s := g.choose("nested",
		alt{3, func() string {
			return fmt.Sprintf(use, "((?d {t in; idem $"+n+"})) {t $d}", g.one("", "", " 7"))
		}},
		alt{2, func() string { return fmt.Sprintf(use, "(((get "+n+") d)) {t $d}", " 7") }},
		alt{2, func() string { return fmt.Sprintf(use, "(d) ((get "+n+") {t $d; idem $d})", " 7") }},
		alt{2, func() string { return fmt.Sprintf(use, "() {t $"+n+"}", "") }},
		alt{1, func() string {
			return fmt.Sprintf(use, "("+n+") {set v [closure () {t $"+n+"}]; t $"+n+"; [$v]}", " 7")
		}},
		alt{2, func() string { return "set co [coroutine {t $" + n + "; yield $" + n + "}]; t [$co wait] [$co wait]" }},
		alt{1, func() string { return "set sc [scope {t $" + n + "}]" }},
		alt{1, func() string { return "set sc [scope {set y 1}]; [$sc] eval {t $" + n + "}" }},
		alt{1, func() string { return "set sc [namespace {t $" + n + "}]" }},
		alt{1, func() string {
			return "set en [ensemble ((?d {idem $" + n + "})) {" + kind + " s (d) {t $d}}]; t [$en eval {t $" + n + "}]"
		}},
		alt{1, func() string { return "eval {t $" + n + "}" }},
		alt{1, func() string { return "set sp [argspec ((?" + n + " {t $" + n + "}))]; argspec $sp set ()" }},
		alt{1, func() string { return "set sp [argspec ((?d {t $" + n + "}))]; argspec $sp set (); t $d" }},
		alt{1, func() string { return "list (2 1) sort [[" + kind + " (d e) {t $" + n + "; idem false}]]" }},
		alt{1, func() string { return "catch {t $" + n + "; error e} error " + n + " {t $" + n + "}" }},
	)
	if g.chance(50) {
		return "catch {" + s + "} error e {t $e}"
	}
	return s
}

func (g *pg) traceStmt() string {
	s := "t"
	for i, n := 0, g.n(1, 3); i < n; i++ {
		if g.p.odd > 0 && g.chance(g.p.odd) {
			s += " $*" + g.tupleSource()
		} else {
			s += " " + g.word(kAny)
		}
	}
	return s
}

func (g *pg) addVar(name string, k vkind) {
	for _, v := range g.env.vars {
		if v.name == name {
			return
		}
	}
	g.env.vars = append(g.env.vars, gvar{name, k})
}

func (g *pg) varStmt() string {
	return g.choose("var",
		alt{6, func() string {
			k := g.kind()
			v := pick(g.t, "var", progVars[k])
			w := g.word(k)
			g.addVar(v, k)
			return "set " + v + " " + w
		}},
		alt{1, func() string {
			v := g.one("C1", "C2", "C3", "a")
			w := g.word(kAny)
			g.addVar(v, kAny)
			return "let " + v + " " + w
		}},
		alt{1, func() string {
			w := "set (a (s l)) (" + g.word(kNum) + " (" + g.word(kStr) + " " + g.word(kList) + "))"
			if g.chance(20) {
				w = "set (a (s l)) " + g.word(kTuple)
			}
			return w
		}},
		alt{2, func() string { return "get " + g.varName() + g.one("", " "+g.word(kAny)) }},
		alt{1, func() string { return "exists " + g.one(g.varName(), "nope", "l[1]", "d(k1)") }},
		alt{g.p.rebind, func() string { return "unset " + g.one(g.varName(), "C1", "("+g.names(2)+")") }},
		alt{g.p.rebind, func() string { return "set " + g.one("C1", "C2", "x", "y") + " " + g.word(kAny) }},
		alt{g.p.rebind, func() string { return "argspec (x ?y *r) set (" + g.items(g.n(0, 3)) + ")" }},
	)
}

func (g *pg) code() string {
	return g.choose("code",
		alt{3, func() string { return "return " + g.word(kAny) }},
		alt{3, func() string { return "error " + g.one("boom", "e1", "\"oh no\"") }},
		alt{2 + 3*boolInt(g.env.inLoop > 0), func() string { return "break" }},
		alt{2 + 3*boolInt(g.env.inLoop > 0), func() string { return "continue" }},
		alt{1, func() string { return "pass" }},
		alt{1, func() string { return "return" }},
	)
}

func (g *pg) yieldStmt() string {
	return g.choose("yield",
		alt{3, func() string { return "yield " + g.word(kAny) }},
		alt{2, func() string { return "set z [yield " + g.word(kAny) + "]" }},
		alt{2, func() string { return "t " + g.word(kAny) + " [yield " + g.word(kAny) + "] " + g.word(kAny) }},
		alt{1, func() string { return "t [yield][yield " + g.word(kStr) + "]" }},
		alt{1, func() string { return "yield" }},
		alt{1, func() string { return "idem \"<[yield " + g.word(kStr) + "]>\"" }},
	)
}

// withLocals is the environment of a body that declares locals.
func (g *pg) withLocals(loop bool, vs ...gvar) *genv {
	e := g.env // definitions and variables made in there stay visible
	c := *e
	c.ghosts = e.hide()
	c.locals = vs
	if loop {
		c.inLoop++
	}
	return &c
}

// bodyIn generates a block in an environment sharing the scope of the current one.
func (g *pg) bodyIn(e *genv, n int) string {
	return g.within(e, func() string { return "{" + g.seq(g.n(0, n)) + "}" })
}

func (g *pg) flow() string {
	return g.choose("flow",
		alt{4, func() string { return g.ifStmt() }},
		alt{2, func() string { return g.whileStmt() }},
		alt{2, func() string { return g.loopStmt() }},
		alt{2, func() string { return g.whenStmt() }},
		alt{4, func() string { return g.catchStmt() }},
		alt{2, func() string { return g.foreachStmt() }},
	)
}

// kw is a command name, sometimes as a tuple prefix.
func (g *pg) kw(name string) string {
	if g.chance(6) {
		return g.one("("+name+")", "(("+name+"))")
	}
	return name
}

// bodyBlock is the body of a construct, seldom something that cannot be one.
func (g *pg) bodyBlock(n int) string {
	if g.p.wrong > 0 && g.chance(5) {
		return g.one("nobody", "(idem x)", "5", "()", "[idem]")
	}
	return g.block(n)
}

// guarded protects the rest of the script from a construct, now and then.
func (g *pg) guarded(s string) string {
	if g.p.wrong > 0 && g.chance(15) {
		return "catch {" + s + "} error e {t $e}"
	}
	return s
}

func (g *pg) ifStmt() string {
	s := g.kw("if") + " " + g.cond() + " " + g.bodyBlock(g.p.stmts)
	for i, n := 0, g.n(0, 2); i < n; i++ {
		s += " elseif " + g.cond() + " " + g.bodyBlock(2)
	}
	if g.chance(50) {
		s += " else " + g.bodyBlock(2)
	}
	return g.guarded(s)
}

func (g *pg) whileStmt() string {
	c := g.fresh("c")
	e := g.withLocals(true, g.env.locals...)
	n := strconv.Itoa(g.n(0, 3))
	body := g.within(e, func() string { return g.seq(g.n(0, g.p.stmts)) })
	test := "{$" + c + " < " + n + "}"
	if g.chance(25) {
		test = g.within(e, func() string { return "{" + g.stmt() + "; $" + c + " < " + n + "}" })
	}
	return "set " + c + " 0; " + g.kw("while") + " " + test + " {set " + c + " [+ $" + c + " 1]; " + body + "}"
}

func (g *pg) loopStmt() string {
	hdr, locals := g.kw("loop"), []gvar{}
	index := ""
	if g.chance(60) {
		index = g.local("i", kNum)
		hdr += " " + index
		locals = append(locals, gvar{index, kNum})
	}
	n := g.n(0, 2)
	var srcs []string
	type later struct{ shape string }
	for i := 0; i < n; i++ {
		v := g.local("v", kAny)
		var src string
		switch g.n(0, 5) {
		case 0:
			src = g.word(kList)
			locals = append(locals, gvar{v, kAny})
		case 1:
			x := g.local("v", kAny)
			locals = append(locals, gvar{v, kStr}, gvar{x, kAny})
			v = "(" + v + " " + x + ")"
			src = "[dict (" + g.one("", "k1 "+g.word(kAny)) + ")]"
		case 2:
			src = "{" + g.within(g.withLocals(true, locals...), func() string { return g.seq(1) + "; idem " + g.word(kAny) }) + "}"
			locals = append(locals, gvar{v, kAny})
		case 3:
			src = "{break}"
			if g.chance(50) {
				src = "{continue}"
			}
			locals = append(locals, gvar{v, kAny})
		case 4:
			src = "(t src)"
			locals = append(locals, gvar{v, kAny})
		default:
			src = "[list ((1 2) (3 4) (5 6))]"
			x := g.local("v", kAny)
			locals = append(locals, gvar{v, kNum}, gvar{x, kNum})
			v = "(" + v + " " + x + ")"
		}
		srcs = append(srcs, v+" "+src)
	}
	for _, s := range srcs {
		hdr += " " + s
	}
	stop := ""
	if index != "" {
		stop = "if [$" + index + " >= " + strconv.Itoa(g.n(0, 3)) + "] {break}; "
	} else {
		c := g.fresh("c")
		hdr = "set " + c + " 0; " + hdr
		stop = "set " + c + " [$" + c + " + 1]; if [$" + c + " > " + strconv.Itoa(g.n(0, 3)) + "] {break}; "
	}
	return hdr + " {" + stop + g.within(g.withLocals(true, locals...), func() string { return g.seq(g.n(0, g.p.stmts)) }) + "}"
}

func (g *pg) foreachStmt() string {
	coll := "list " + g.word(kList)
	v := g.local("v", kAny)
	locals := []gvar{{v, kAny}}
	shape := v
	switch g.n(0, 4) {
	case 0:
		x := g.local("v", kAny)
		locals = []gvar{{v, kNum}, {x, kAny}}
		shape = "(" + v + " " + x + ")"
		coll = "list ((1 " + g.word(kAny) + ") (2 " + g.word(kAny) + "))"
	case 1:
		x := g.local("v", kAny)
		locals = []gvar{{v, kStr}, {x, kAny}}
		shape = "(" + v + " " + x + ")"
		coll = "dict (k1 " + g.word(kAny) + ")"
	}
	if g.chance(30) {
		i := g.local("i", kNum)
		shape = i + " " + shape
		locals = append(locals, gvar{i, kNum})
	}
	return coll + " foreach " + shape + " " + g.bodyIn(g.withLocals(true, locals...), g.p.stmts)
}

func (g *pg) whenStmt() string {
	s := g.kw("when") + " "
	cmd := g.chance(60)
	if cmd {
		s += g.choose("whencmd",
			alt{2, func() string { return "{" + g.in(func() string { return g.expr(kNum) }) + "}" }},
			alt{1, func() string { return g.word(kNum) }},
			alt{1, func() string { return "()" }},
		) + " "
	}
	n := g.n(0, 3)
	cases := []string{}
	for i := 0; i < n; i++ {
		test := ""
		if cmd {
			test = g.choose("whentest",
				alt{3, func() string { return "(" + g.one("==", ">", "<", "!=") + " " + g.word(kNum) + ")" }},
				alt{1, func() string { return g.operand() }},
			)
		} else {
			test = g.choose("whentest",
				alt{3, func() string { return g.operand() }},
				alt{1, func() string { return "(idem " + g.word(kBool) + ")" }},
			)
		}
		cases = append(cases, test+" "+g.bodyBlock(2))
	}
	if g.chance(40) {
		cases = append(cases, g.bodyBlock(2))
	}
	if g.chance(30) {
		return g.guarded(s + "(" + strings.Join(cases, "\n") + ")")
	}
	return g.guarded(s + "{" + strings.Join(cases, "\n") + "}")
}

func (g *pg) catchStmt() string {
	s := g.kw("catch") + " " + g.block(g.p.stmts)
	hs := []string{"error", "return", "break", "continue", "yield"}
	if g.p.yields == 0 {
		hs = hs[:4]
	}
	for i, n := 0, g.n(0, 3); i < n; i++ {
		switch h := pick(g.t, "handler", hs); h {
		case "break", "continue":
			s += " " + h + " " + g.handler()
		default:
			v := g.local("h", kAny)
			s += " " + h + " " + v + " " + g.handler(gvar{v, kAny})
		}
	}
	if g.chance(40) {
		s += " finally " + g.handler()
	}
	return s
}
func (g *pg) handler(vs ...gvar) string {
	e := g.withLocals(g.env.inLoop > 0, vs...)
	if len(vs) == 0 {
		e.locals = g.env.locals
	}
	if g.chance(15) {
		return "{pass}"
	}
	if g.chance(15) {
		return g.within(e, func() string { return "{" + g.seq(1) + "; pass}" })
	}
	return g.bodyIn(e, 2)
}

func (g *pg) coll() string {
	return g.choose("coll",
		alt{2, func() string { return "set l [" + g.in(func() string { return g.listOp() }) + "]" }},
		alt{1, func() string { return "set d [" + g.in(func() string { return g.dictOp() }) + "]" }},
		alt{1, func() string { return "set s [" + g.in(func() string { return g.strOp() }) + "]" }},
		alt{1, func() string { return g.listOp() }},
		alt{1, func() string { return g.dictOp() }},
		alt{1, func() string { return "list (" + g.items(g.n(1, 3)) + ") sort" }},
		alt{1, func() string { return "list (3 1 2) sort idem" }},
		alt{1, func() string { return "dict " + g.ref(kDict) + " get " + g.key() + " " + g.word(kAny) }},
		alt{1, func() string { return "list " + g.ref(kList) + " at " + g.word(kNum) + " " + g.word(kAny) }},
		alt{1, func() string { return "tuple " + g.ref(kTuple) + " at " + g.word(kNum) + " " + g.word(kAny) }},
	)
}

func (g *pg) evalStmt() string {
	return g.choose("eval",
		alt{2, func() string { return "eval " + g.block(2) }},
		alt{1, func() string { return "eval " + g.ref(kScript) }},
		alt{2, func() string { return "set k " + g.block(2) + "; eval $k; eval $k" }},
		alt{1, func() string { return "eval (t " + g.items(g.n(0, 2)) + ")" }},
		alt{1, func() string { return "eval [parse \"t 1; t " + g.one("2", "$a") + "\"]" }},
		alt{1, func() string {
			return "eval [parse " + g.one("\"t p; idem q\"", "{t \\x; t}", "\"set a 1\"", "\"error x\"", "\"yield p; t q\"", "\"idem \\{\"", "t", "$a", "[idem {t 5}]") + "]"
		}},
		alt{1, func() string { return "(t " + g.items(g.n(0, 2)) + ") " + g.word(kAny) }},
		alt{1, func() string { return "((t) " + g.word(kAny) + ") " + g.word(kAny) }},
		alt{1, func() string { return "set sc [scope " + g.childBlock(2) + "]; [$sc] eval " + g.childBlock(2) }},
		alt{1, func() string { return "eval [script " + g.ref(kScript) + " append " + g.block(1) + "]" }},
		alt{1, func() string {
			return fmt.Sprintf(g.one("eval [script (t %s)]", "eval [script {t p} append (t %s)]", "t [script [script (t %s) append (t q) (idem ())] length]", "set k [script (t %s) append {t p}]", "eval [script (t %s) append () {t r}]"), g.items(g.n(0, 2)))
		}},
		alt{1, func() string { return "list [script " + g.block(3) + " split] foreach piece {eval $piece}" }},
	)
}

// childBlock is a block for another scope.
func (g *pg) childBlock(n int) string {
	return g.within(g.env.child(), func() string { return "{" + g.seq(g.n(0, n)) + "}" })
}

func (g *pg) pipe() string {
	return g.choose("pipe",
		alt{3, func() string {
			return "idem " + g.word(kAny) + "; |> " + g.one("t", "idem", "list", "(t 1)") + " " + g.one("", g.word(kAny))
		}},
		alt{1, func() string { return "idem " + g.word(kAny) + "; ^; |> t" }},
		alt{1, func() string { return "t [" + g.expr(kAny) + "; |> t " + g.word(kAny) + "]" }},
		alt{1, func() string { return "^" }},
	)
}

// ---- definitions and calls

// spec generates parameters; it tells the accepted counts and the names.
func (g *pg) spec() (text string, c gcmd, ps []gvar) {
	n := g.n(0, 3)
	parts := []string{}
	rest := false
	for i := 0; i < n; i++ {
		name := g.one("x", "y", "p", "r") + strconv.Itoa(i)
		if g.p.odd > 0 && g.chance(15) {
			name = g.one("a", "s", "z", "l", "q")
		}
		switch g.n(0, 7) {
		case 0, 1, 2:
			parts = append(parts, name)
			c.min++
			c.max++
			ps = append(ps, gvar{name, kAny})
		case 3:
			parts = append(parts, "?"+name)
			c.max++
		case 4:
			parts = append(parts, "(?"+name+" "+g.one("dflt", "{t default}", "5", "(1 2)", "{idem "+g.word(kAny)+"}", "{idem $"+g.varName()+"}")+")")
			c.max++
			ps = append(ps, gvar{name, kAny})
		case 5:
			parts = append(parts, "("+g.one("int", "bool", "(t guard)", "list", "(get "+g.varName()+")", "(t $"+g.varName()+")")+" "+name+")")
			c.min++
			c.max++
			ps = append(ps, gvar{name, kAny})
		case 6:
			if rest {
				continue
			}
			rest = true
			parts = append(parts, "*"+name)
			c.max += 3
			ps = append(ps, gvar{name, kTuple})
		case 7:
			parts = append(parts, "(int ?"+name+" {t d2; idem 3})")
			c.max++
			ps = append(ps, gvar{name, kNum})
		}
	}
	return "(" + strings.Join(parts, " ") + ")", c, ps
}

var cmdNames = []string{"f", "g", "h", "m"}

// name draws a command name; its rank keeps bodies from calling later ones.
func (g *pg) cmdName() (string, int, bool) {
	if g.env.rank == 0 {
		r := g.n(1, len(cmdNames))
		return cmdNames[r-1], r, true
	}
	if g.env.rank == 1 {
		return "", 0, false
	}
	r := g.n(1, g.env.rank-1)
	return cmdNames[r-1], r, true
}

func (g *pg) addCmd(c gcmd) {
	for i, x := range g.env.cmds {
		if x.name == c.name {
			g.env.cmds = append(append([]*gcmd{}, g.env.cmds[:i]...), g.env.cmds[i+1:]...)
			break
		}
	}
	g.env.cmds = append(g.env.cmds, &c)
}

// below are the commands callable by a body of a rank.
func below(cs []*gcmd, rank int) []*gcmd {
	out := []*gcmd{}
	for _, c := range cs {
		if c.rank < rank {
			out = append(out, c)
		}
	}
	return out
}

func (g *pg) def() string {
	name, rank, can := g.cmdName()
	if !can {
		return g.traceStmt()
	}
	return g.choose("def",
		alt{4, func() string { return g.callable(name, rank) }},
		alt{1, func() string { return g.aliasDef(name, rank) }},
		alt{1, func() string { return g.ensembleDef(name, rank) }},
		alt{1, func() string { return g.nsDef(name, rank) }},
		alt{1, func() string { return g.recursive(name, rank) }},
		alt{1, func() string { return g.scopeDef(name, rank) }},
	)
}

func (g *pg) callable(name string, rank int) string {
	kind := g.one("macro", "closure", "proc")
	spec, c, ps := g.spec()
	c.name, c.kind, c.rank = name, kind, rank
	e := g.withLocals(false, ps...)
	if kind == "proc" {
		e = g.env.child()
		e.vars = append(e.vars, ps...)
	} else {
		ec := e.clone()
		e = ec
	}
	e.rank, e.inBody, e.inLoop = rank, 1, 0
	e.cmds = below(e.cmds, rank)
	e.metas = nil
	body := g.within(e, func() string { return "{" + g.seq(g.n(0, g.p.stmts)) + g.one("", "; t "+g.names0(ps)) + "}" })
	if g.chance(15) {
		body = "(" + g.one("list", "(t ret)", "idem", "(get "+g.guardVar(ps)+")") + " " + body + ")"
	}
	if g.chance(20) {
		v := g.one("M1", "M2")
		for i, x := range g.env.metas {
			if x.name == v {
				g.env.metas = append(append([]gvar{}, g.env.metas[:i]...), g.env.metas[i+1:]...)
				break
			}
		}
		if rank > 1 || g.env.rank == 0 {
			g.env.metas = append(g.env.metas, gvar{v, vkind(c.min)})
		}
		return "set " + v + " [" + kind + " " + spec + " " + body + "]"
	}
	g.addCmd(c)
	return kind + " " + name + " " + spec + " " + body
}

// guardVar is the name of a variable or parameter.
func (g *pg) guardVar(ps []gvar) string {
	if len(ps) > 0 && g.chance(50) {
		return ps[g.n(0, len(ps)-1)].name
	}
	return g.varName()
}

func (g *pg) names0(ps []gvar) string {
	s := []string{}
	for _, p := range ps {
		s = append(s, "$"+p.name)
	}
	return strings.Join(s, " ")
}

func (g *pg) aliasDef(name string, rank int) string {
	target := "t"
	c := gcmd{name: name, kind: "alias", rank: rank, max: 2}
	if cs := below(g.env.cmds, rank); len(cs) > 0 {
		x := cs[g.n(0, len(cs)-1)]
		switch x.kind {
		case "macro", "closure", "proc", "alias":
			k := g.n(0, x.min)
			target = x.name
			if k > 0 || g.chance(50) {
				args := []string{}
				for i := 0; i < k; i++ {
					args = append(args, g.word(kAny))
				}
				target = "(" + x.name + " " + strings.Join(args, " ") + ")"
			}
			c.min, c.max = x.min-k, x.max-k
		case "ns":
			if len(x.subs) > 0 {
				y := x.subs[g.n(0, len(x.subs)-1)]
				target = "(" + x.name + " " + y.name + ")"
				c.min, c.max = y.min, y.max
			}
		}
	}
	if target == "t" && g.chance(50) {
		target = g.one("(t al)", "((t) al)", "(idem)", "(if true)")
	}
	g.addCmd(c)
	return "alias " + name + " " + target
}

// container generates definitions inside of a scope body.
func (g *pg) containerBody(rank int, closures bool) (string, []gcmd) {
	e := g.env.child()
	e.rank = rank
	e.cmds = below(e.cmds, rank)
	subs := []gcmd{}
	s := g.within(e, func() string {
		out := []string{}
		if g.chance(60) {
			v := g.one("a", "s", "v")
			out = append(out, "set "+v+" "+g.word(kAny))
			g.addVar(v, kAny)
		}
		for i, n := 0, g.n(1, 2); i < n; i++ {
			name := []string{"s1", "s2"}[i]
			kind := g.one("macro", "closure", "proc")
			spec, c, ps := g.spec()
			c.name, c.kind, c.rank = name, kind, rank
			be := g.env.clone()
			be.locals = ps
			if kind == "proc" {
				be = g.env.child()
				be.vars = ps
			}
			be.inBody = 1
			out = append(out, kind+" "+name+" "+spec+" "+g.within(be, func() string { return "{" + g.seq(g.n(0, 2)) + g.one("", "; t sub "+g.names0(ps)) + "}" }))
			subs = append(subs, c)
		}
		if g.chance(25) {
			out = append(out, g.stmt())
		}
		return strings.Join(out, "; ")
	})
	return "{" + s + "}", subs
}

func (g *pg) ensembleDef(name string, rank int) string {
	n := g.n(0, 2)
	ps := []string{}
	for i := 0; i < n; i++ {
		ps = append(ps, g.one("e"+strconv.Itoa(i), "(list e"+strconv.Itoa(i)+")", "((t eg) e"+strconv.Itoa(i)+")"))
	}
	body, subs := g.containerBody(rank, true)
	g.addCmd(gcmd{name: name, kind: "ens", rank: rank, min: n, max: n, subs: subs})
	return "ensemble " + name + " (" + strings.Join(ps, " ") + ") " + body
}
func (g *pg) nsDef(name string, rank int) string {
	body, subs := g.containerBody(rank, false)
	g.addCmd(gcmd{name: name, kind: "ns", rank: rank, subs: subs})
	return "namespace " + name + " " + body
}
func (g *pg) scopeDef(name string, rank int) string {
	body, subs := g.containerBody(rank, false)
	g.addCmd(gcmd{name: name, kind: "scope", rank: rank, subs: subs})
	return "scope " + name + " " + body
}

// recursive defines a command that counts down through itself.
func (g *pg) recursive(name string, rank int) string {
	kind := g.one("macro", "closure", "proc")
	self := name
	e := g.env.clone()
	e.locals = []gvar{{"x0", kNum}}
	if kind == "proc" {
		e = g.env.child()
		e.vars = []gvar{{"x0", kNum}}
	}
	e.rank, e.inBody, e.inLoop, e.metas = rank, 1, 0, nil
	e.cmds = below(e.cmds, rank)
	body := g.within(e, func() string {
		return "if [$x0 <= 0] {" + g.one("return ", "idem ") + g.word(kAny) + "}; " + g.seq(g.n(0, 2)) + "; t [" + self + " [$x0 - 1]]"
	})
	body = strings.Replace(body, "if [$x0 <= 0] {idem", "if [$x0 <= 0] {return", 1)
	g.addCmd(gcmd{name: name, kind: kind, rank: rank, min: 0, max: 0, flag: "rec"})
	return kind + " " + name + " ((int x0)) {" + body + "}"
}

func (g *pg) args(c *gcmd) string {
	if c.flag == "rec" {
		return " " + g.one("2", "1", "0", "3")
	}
	n := g.n(c.min, max(c.max, c.min))
	if g.chance(8) {
		n = g.n(0, c.max+1)
	}
	s := ""
	for i := 0; i < n; i++ {
		if g.chance(5) {
			s += " $*(" + g.names(1) + ")"
			continue
		}
		s += " " + g.word(kAny)
	}
	return s
}

func (g *pg) call() string {
	cs := g.env.cmds
	if g.env.rank > 0 {
		cs = below(cs, g.env.rank)
	}
	if len(g.env.metas) > 0 && g.env.rank == 0 && (len(cs) == 0 || g.chance(30)) {
		m := g.env.metas[g.n(0, len(g.env.metas)-1)]
		c := gcmd{min: int(m.kind), max: int(m.kind) + 1}
		return g.one("[$"+m.name+"]", "([$"+m.name+"])") + g.args(&c)
	}
	if len(cs) == 0 {
		return g.traceStmt()
	}
	c := cs[g.n(0, len(cs)-1)]
	switch c.kind {
	case "ens":
		args := []string{}
		for i := 0; i < c.min; i++ {
			args = append(args, g.one(g.word(kAny), g.word(kTuple)))
		}
		a := strings.Join(args, " ")
		if len(c.subs) == 0 || g.chance(15) {
			return g.one(c.name+" "+a, "["+c.name+"] eval "+g.childBlock(2), c.name+" "+a+" nosub")
		}
		s := c.subs[g.n(0, len(c.subs)-1)]
		rest := gcmd{min: max(0, s.min-c.min), max: max(0, s.max-c.min), name: s.name}
		return g.form(g.one(c.name+" "+a+" "+s.name, "["+c.name+"] call "+s.name+" "+a), g.args(&rest))
	case "ns", "scope":
		if len(c.subs) == 0 || g.chance(25) {
			meta := "[" + c.name + "]"
			if c.kind == "scope" {
				meta = c.name
			}
			return meta + " eval " + g.within(g.nsEnv(c), func() string { return g.block(2) })
		}
		s := c.subs[g.n(0, len(c.subs)-1)]
		if c.kind == "scope" {
			return g.form(c.name+" call "+s.name, g.args(&s))
		}
		if g.chance(20) {
			return "t $[" + c.name + "](" + g.one("a", "s", "v") + ")"
		}
		if g.chance(20) && g.env.rank == 0 {
			as := g.one("imp", s.name)
			return "[" + c.name + "] import " + s.name + " " + as + "; " + as + g.args(&s)
		}
		return g.form(g.one(c.name+" "+s.name, "["+c.name+"] call "+s.name), g.args(&s))
	}
	return g.form(c.name, g.args(c))
}

func (g *pg) nsEnv(c *gcmd) *genv {
	e := g.env.child()
	e.vars = []gvar{{"a", kAny}}
	for i := range c.subs {
		s := c.subs[i]
		e.cmds = append(e.cmds, &s)
	}
	return e
}

// form writes a call in one of several equivalent ways.
func (g *pg) form(head, args string) string {
	switch g.n(0, 8) {
	case 0, 1, 2, 3:
		return head + args
	case 4:
		return "(" + head + ")" + args
	case 5:
		return "(" + head + args + ")"
	case 6:
		return "eval {" + head + args + "}"
	case 7:
		return "t [" + head + args + "]"
	}
	return "$*(idem (" + head + args + "))"
}

// ---- coroutines

func (g *pg) coro() string {
	if len(g.env.coros) == 0 || g.chance(25) {
		v := g.one("co1", "co2")
		e := g.env.clone()
		e.inLoop = 0
		e.ghosts, e.locals = e.hide(), nil
		old := g.p
		g.p.yields, g.p.codes = g.p.yields+8, g.p.codes/2
		body := g.within(e, func() string { return "{" + g.seq(g.n(1, g.p.stmts)) + "}" })
		g.p = old
		g.env.coros = append(g.env.coros, v)
		return "set " + v + " [coroutine " + body + "]"
	}
	v := "$" + g.env.coros[g.n(0, len(g.env.coros)-1)]
	return g.choose("coro",
		alt{4, func() string { return "t [" + v + " wait]" }},
		alt{3, func() string { return "t [" + v + " yield " + g.word(kAny) + "]" }},
		alt{1, func() string { return v + " yield" }},
		alt{2, func() string { return "t [" + v + " active] [" + v + " done]" }},
		alt{1, func() string { return "while {! [" + v + " done]} {t [" + v + " wait]}" }},
	)
}

// ---- whole programs

// prelude defines the variables of the pool.
func (g *pg) prelude() string {
	old := g.p
	g.p.wrong, g.p.codes, g.p.yields, g.p.defs, g.p.calls, g.p.odd = 0, 0, 0, 0, 0, 0
	defer func() { g.p = old }()
	e := g.env
	g.depth = g.p.depth - 1
	defer func() { g.depth = 0 }()
	out := []string{}
	for _, k := range kinds {
		for _, v := range progVars[k] {
			if g.chance(95) || k == kNum {
				kk := k
				if k == kAny {
					kk = kStr
				}
				w := g.literal(kk)
				if k == kScript {
					w = g.one("{}", "{t 1}", "{t $a; idem 2}", "{set a [$a + 1]}", "{t 1; break}", "{return 5; t 2}")
				}
				out = append(out, "set "+v+" "+w)
				e.vars = append(e.vars, gvar{v, k})
			}
		}
	}
	return strings.Join(out, "; ")
}

// drawSession draws a session in a profile.
func drawSession(t *rapid.T, p profile) session {
	g := &pg{t: t, p: p, env: &genv{}}
	s := session{}
	g.left = 20
	pre := g.prelude()
	g.big = chance(t, "large", 1)
	n := max(1, p.scripts) - g.n(0, max(1, p.scripts)-1)
	for i := 0; i < n; i++ {
		g.left = p.budget
		g.depth = 0
		src := g.seq(p.stmts - g.n(0, p.stmts-1))
		if i == 0 {
			src = pre + "\n" + src
		}
		s.Scripts = append(s.Scripts, src)
	}
	if p.yields > 0 || p.coros > 0 {
		for i, n := 0, g.n(0, 4); i < n; i++ {
			s.Sends = append(s.Sends, fmt.Sprint("r", i))
		}
	}
	return s
}
