package props

import (
	"fmt"
	"strings"

	"verifharness/h"

	"pgregory.net/rapid"
)

// Argument specifications and argument lists, through every command that takes one.

type specParam struct {
	name string
	kind byte // 0 required, '?', '*'
	opts []string
	flag bool
}

type specGen struct {
	t      *rapid.T
	ps     []specParam
	clause []string
}

func (g *specGen) n(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *specGen) most(lo, hi int) int {
	if chance(g.t, "many", 1) && chance(g.t, "really", 50) {
		return g.n(hi, 5*hi)
	}
	return g.n(lo, hi)
}
func (g *specGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }

var specNames = []string{"a", "b", "c", "d", "e", "f"}

func (g *specGen) guard() string {
	return g.pick("int", "(t g)", "t", "bool", "list", "(string s append)", "(t g1 g2)", "gd", "nocmd", "[[macro (x) {t gm $x; idem ($x)}]]", "(real)", "brk", "ylds")
}
func (g *specGen) deflt() string {
	return g.pick("dflt", "{t dflt}", "{t d1; idem (d 2)}", "()", "{error nodef}", "\"\"", "5", "{idem $glob}", "{set side [t s]}", "[list (1 2)]", "{break}", "{}", "{$a}", "{set cnt [+ $cnt 1]}", "{idem d$cnt}")
}

// draw makes a specification word.
func (g *specGen) draw() string {
	names := append([]string{}, specNames...)
	rest := false
	optUsed := 0
	withOpts := chance(g.t, "options", 55)
	for i, n := 0, g.most(0, 5); i < n; i++ {
		p := specParam{name: fmt.Sprint("p", i)}
		if len(names) > 0 {
			p.name, names = names[0], names[1:]
		}
		if withOpts && !rest && chance(g.t, "opt", 50) {
			o := fmt.Sprintf("-%c", 'm'+optUsed)
			if optUsed > 9 {
				o = fmt.Sprint("-o", optUsed)
			}
			optUsed++
			p.opts = []string{o}
			if chance(g.t, "alias", 20) {
				p.opts = append(p.opts, "--"+p.name+"long")
			}
			p.flag = chance(g.t, "flag", 35)
			if p.flag {
				p.kind = '?'
			} else if chance(g.t, "optional", 55) {
				p.kind = '?'
			}
			mark := ""
			if p.flag {
				mark = "?"
			}
			if len(p.opts) == 1 {
				g.clause = append(g.clause, mark+o)
			} else {
				g.clause = append(g.clause, "("+mark+o+" "+mark+p.opts[1]+")")
			}
		} else {
			switch k := g.n(0, 9); {
			case k >= 8 && !rest && !withOpts, k == 9 && !rest:
				p.kind, rest = '*', true
			case k >= 4:
				p.kind = '?'
			}
		}
		var s string
		switch p.kind {
		case '*':
			s = "*" + p.name
			if chance(g.t, "anon", 20) {
				s, p.name = "*", "*"
			}
		case '?':
			switch g.n(0, 5) {
			case 0, 1:
				s = "?" + p.name
			case 2, 3:
				s = "(?" + p.name + " " + g.deflt() + ")"
			case 4:
				s = "(" + g.guard() + " ?" + p.name + ")"
			case 5:
				s = "(" + g.guard() + " ?" + p.name + " " + g.deflt() + ")"
			}
		default:
			s = p.name
			switch g.n(0, 5) {
			case 0:
				s = "(" + g.guard() + " " + p.name + ")"
			case 1:
				s = "(" + p.name + ")"
			}
		}
		g.clause = append(g.clause, s)
		g.ps = append(g.ps, p)
	}
	if chance(g.t, "malformed", 8) {
		i := g.n(0, len(g.clause))
		bad := g.pick("(int \"\" 5)", "(int ? 5)", "(int x 5)", "(int ?x 5 6)", "(int \"\")", "(int ?)", "(int *)", "(? ? 5)", "(int *x 5)", "(int () 5)", "((int) \"\" 5)", "", "()", "?", "*", "\"\"", "(a b c d)", "(int a 5)", "a", "?a", "*z", "-m", "--", "?--", "(-m ?-n)", "[list ()]", "(() ())", "-", "(\"\" x)", "(x \"\")", "(?x)", "?-", "(t ?)", "(? d)", "?-m", "(x -m)", "(idem ?-m)", "(x ?-m y)", "(-m x)", "(?-m x)", "(?-m ?x)", "(?x -m)", "(-m ())", "(-m \"\")", "(?a ?-m)", "(-m -)", "(- -m)", "(-m ?)", "?a-", "???", "(?- -m)")
		g.clause = append(g.clause[:i:i], append([]string{bad}, g.clause[i:]...)...)
	}
	if chance(g.t, "braces", 30) {
		s := "{" + strings.Join(g.clause, " ") + "}"
		if !strings.ContainsAny(s, "$[") {
			return s
		}
	}
	if chance(g.t, "listspec", 10) {
		return "[list (" + strings.Join(g.clause, " ") + ")]"
	}
	if len(g.clause) == 1 && !strings.HasPrefix(g.clause[0], "(") && chance(g.t, "single", 30) {
		return g.clause[0]
	}
	return "(" + strings.Join(g.clause, " ") + ")"
}

func (g *specGen) value() string {
	return g.pick("v1", "2", "3.5", "true", "()", "[list (x)]", "-m", "-n", "--", "-z", "\"\"", "v4", "v5", "-5", "(u w)", "{blk}", "[]", "-o", "?-m")
}

// args draws an argument list meant for the specification, then perhaps spoils it.
func (g *specGen) args() []string {
	out := []string{}
	plain := func() string {
		if chance(g.t, "odd", 15) {
			return g.value()
		}
		return fmt.Sprint("w", g.n(0, 9))
	}
	for i := 0; i < len(g.ps); {
		if len(g.ps[i].opts) > 0 {
			j := i
			group := [][]string{}
			for ; j < len(g.ps) && len(g.ps[j].opts) > 0; j++ {
				p := g.ps[j]
				if p.kind == '?' && chance(g.t, "skip", 40) {
					continue
				}
				w := []string{pick(g.t, "alias", p.opts)}
				if !p.flag {
					w = append(w, plain())
				}
				group = append(group, w)
			}
			if len(group) > 0 && chance(g.t, "twice", 12) {
				p := g.ps[g.n(i, j-1)]
				w := []string{pick(g.t, "alias", p.opts)}
				if !p.flag {
					w = append(w, plain())
				}
				if len(group) > 1 && chance(g.t, "instead", 60) {
					group = group[1:]
				}
				group = append(group, w)
			}
			for len(group) > 0 {
				k := g.n(0, len(group)-1)
				out = append(out, group[k]...)
				group = append(group[:k:k], group[k+1:]...)
			}
			if chance(g.t, "terminator", 25) {
				out = append(out, "--")
			}
			i = j
			continue
		}
		switch g.ps[i].kind {
		case 0:
			out = append(out, plain())
		case '?':
			if chance(g.t, "give", 60) {
				out = append(out, plain())
			}
		case '*':
			for k, n := 0, stretch(g.t, "rest", 0, 3); k < n; k++ {
				out = append(out, plain())
			}
		}
		i++
	}
	for k, n := 0, g.n(0, 2)*g.n(0, 1); k < n; k++ {
		i := g.n(0, len(out))
		switch {
		case i < len(out) && chance(g.t, "drop", 40):
			out = append(out[:i:i], out[i+1:]...)
		case i < len(out) && chance(g.t, "dup", 30):
			out = append(out[:i:i], append([]string{out[i]}, out[i:]...)...)
		default:
			out = append(out[:i:i], append([]string{g.value()}, out[i:]...)...)
		}
	}
	if chance(g.t, "random", 10) {
		out = nil
		for k, n := 0, g.n(0, 6); k < n; k++ {
			out = append(out, g.value())
		}
	}
	return out
}

func (g *specGen) see() string {
	s := "t see"
	for _, p := range g.ps {
		s += fmt.Sprintf(" [exists %s] [get %s absent]", p.name, p.name)
	}
	return s
}

func drawSpecSession(t *rapid.T) session {
	s := session{Scripts: []string{"set glob G; macro gd (x) {t gd $x; idem ($x)}; macro brk (x) {break}; macro ylds (x) {yield $x}; set cnt 0"}}
	for i, n := 0, 1+rapid.IntRange(0, 1).Draw(t, "specs"); i < n; i++ {
		g := &specGen{t: t}
		spec := g.draw()
		see := g.see()
		s.Scripts = append(s.Scripts, "argspec "+spec, "t u [argspec "+spec+" usage]")
		for k, m := 0, g.n(1, 3); k < m; k++ {
			args := strings.Join(g.args(), " ")
			ways := []string{
				"argspec " + spec + " set (" + args + ")",
				"argspec [argspec " + spec + "] set [list (" + args + ")]",
				"[argspec " + spec + "] set (" + args + ")",
				"macro mm " + spec + " {" + see + "}; mm " + args,
				"[[macro " + spec + " {" + see + "}]] " + args,
				"closure cc " + spec + " {" + see + "}; cc " + args,
				"proc pp " + spec + " {" + see + "}; pp " + args,
				"[proc " + spec + " {" + see + "}] call " + args,
				"ensemble en " + spec + " {macro sub {*r} {t sub $r}}; en " + args + " sub 1 2",
				"ensemble en " + spec + " {macro sub {*r} {t sub $r}}; en " + args,
				"namespace nn {proc pp " + spec + " {" + see + "; self}; macro self {} {t self}}; [nn] call pp " + args,
				"closure cc " + spec + " {" + see + "} ; alias al (cc); al " + args,
			}
			j := g.n(0, len(ways)-1)
			first := ways[j]
			s.Scripts = append(s.Scripts, first, see)
			for r := 0; r < 2; r++ {
				s.Scripts = append(s.Scripts, ways[g.n(0, len(ways)-1)], see)
			}
		}
		if chance(t, "again", 50) {
			// the same command called again and again, its environment changing between the calls
			def := pick(t, "kept", []string{
				"macro kp " + spec + " {" + see + "}", "closure kp " + spec + " {" + see + "}",
				"proc kp " + spec + " {" + see + "}", "set kv [proc " + spec + " {" + see + "}]; macro kp (*x) {$kv call $*x}",
				"set kv [argspec " + spec + "]; macro kp (*x) {argspec $kv set $x; " + see + "}",
				"ensemble kp " + spec + " {macro sub {*r} {t sub $r}}",
				"namespace kn {set cnt 10; set glob N; closure kc " + spec + " {" + see + "; t $cnt}}; macro kp (*x) {[kn] call kc $*x}",
			})
			s.Scripts = append(s.Scripts, def)
			for k, m := 0, g.n(2, 5); k < m; k++ {
				if chance(t, "change", 40) {
					s.Scripts = append(s.Scripts, pick(t, "chg", []string{"set glob H", "set cnt 40", "unset glob", "macro gd (x) {t gd2 $x; idem 5}", "set a outer", def}))
				}
				s.Scripts = append(s.Scripts, "kp "+strings.Join(g.args(), " "))
			}
		}
	}
	return s
}

func init() {
	h.Reg("P15", "binding", "random specifications and argument lists through argspec set, macros, closures, procedures, ensembles and wrappers, compared with the reference binder; non-trivial: at least one call bound its arguments and one specification has 2 parameters or more", 40000, 1200000,
		drawSpecSession,
		func(s session, r *h.Rec) error {
			return runDiff(s, r, nil, func(s session, st diffStats) bool {
				r.Labelf("errors %s", bucket(st.errs))
				return st.calls > len(s.Scripts)/2
			})
		})
}
