package props

import (
	"sort"
	"strconv"
	"strings"
)

// Commands of the reference interpreter.

var cmdLast = &rCmd{name: "^", exec: func(*rint, *rscope, []rv) rres { return rerr() }}
var cmdPipe = &rCmd{name: "|>", exec: func(*rint, *rscope, []rv) rres { return rerr() }}
var cmdPrefix *rCmd
var cmdNumber *rCmd

func init() {
	cmdPrefix = &rCmd{name: "(", exec: func(in *rint, sc *rscope, args []rv) rres {
		for {
			if len(args) == 0 {
				return ok(rNil{})
			}
			t, is := args[0].(rTuple)
			if !is {
				break
			}
			args = append(append([]rv{}, t.v...), args[1:]...)
		}
		c := in.resolve(sc, args[0])
		if c == nil {
			return rerr()
		}
		if in.depth++; in.depth > 400 {
			panic(rFuel{})
		}
		defer func() { in.depth-- }()
		return c.exec(in, sc, args)
	}}
	cmdNumber = &rCmd{name: "<number>", exec: rNumber}
}

func rfail() rres { return rerr() }

func rNumber(in *rint, sc *rscope, args []rv) rres {
	in.hits["<number>"]++
	a, good := rfloat(args[0])
	if !good {
		return rfail()
	}
	if len(args) == 1 {
		return ok(rnum(a))
	}
	op, good := rstr(args[1])
	if !good {
		return rfail()
	}
	switch op {
	case "subcommands":
		if len(args) != 2 {
			return rfail()
		}
		return ok(rstrings("subcommands", "+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<="))
	case "==", "!=", ">", ">=", "<", "<=":
		if len(args) != 3 {
			return rfail()
		}
		b, good := rfloat(args[2])
		if !good {
			return rfail()
		}
		switch op {
		case "==":
			return ok(a == b)
		case "!=":
			return ok(a != b)
		case ">":
			return ok(a > b)
		case ">=":
			return ok(a >= b)
		case "<":
			return ok(a < b)
		}
		return ok(a <= b)
	case "+", "-", "*", "/":
		if len(args)%2 == 0 {
			return rfail()
		}
		// terms: products and quotients first, then the sum from the left
		terms := []float64{a}
		for i := 1; i < len(args); i += 2 {
			op, good := rstr(args[i])
			if !good {
				return rfail()
			}
			if !strings.Contains("+-*/", op) || len(op) != 1 {
				return rfail()
			}
			b, good := rfloat(args[i+1])
			if !good {
				return rfail()
			}
			switch op {
			case "+":
				terms = append(terms, b)
			case "-":
				terms = append(terms, -b)
			case "*":
				terms[len(terms)-1] *= b
			case "/":
				terms[len(terms)-1] /= b
			}
		}
		total := 0.0
		for _, t := range terms {
			total += t
		}
		return ok(rnum(total))
	}
	return rfail()
}

func rstrings(ss ...string) rv {
	out := []rv{}
	for _, s := range ss {
		out = append(out, s)
	}
	return rList{out}
}

// ---- registration

func (sc *rscope) def(name string, f func(in *rint, sc *rscope, args []rv) rres) *rCmd {
	c := &rCmd{name: name, exec: f}
	sc.ctx.cmds[name] = c
	return c
}

func between(args []rv, lo, hi int) bool {
	return len(args) >= lo && (hi < 0 || len(args) <= hi)
}

// registerBuiltins defines the vocabulary in the root scope.
func (in *rint) builtins() {
	r := in.root
	n := func(name string, lo, hi int, f func(in *rint, sc *rscope, a []rv) rres) {
		r.def(name, func(in *rint, sc *rscope, args []rv) rres {
			if !between(args, lo, hi) {
				return rfail()
			}
			return f(in, sc, args)
		})
	}
	r.ctx.cmds["^"] = cmdLast
	r.ctx.cmds["|>"] = cmdPipe
	n("idem", 2, 2, func(in *rint, sc *rscope, a []rv) rres { return ok(a[1]) })
	n("return", 1, 2, func(in *rint, sc *rscope, a []rv) rres { return rres{cReturn, arg(a, 1)} })
	n("yield", 1, 2, func(in *rint, sc *rscope, a []rv) rres { return ok(in.yield(arg(a, 1))) })
	n("error", 2, 2, func(in *rint, sc *rscope, a []rv) rres {
		if _, good := rstr(a[1]); !good {
			return rfail()
		}
		return rres{cError, a[1]}
	})
	n("break", 1, 1, func(in *rint, sc *rscope, a []rv) rres { return rres{cBreak, rNil{}} })
	n("continue", 1, 1, func(in *rint, sc *rscope, a []rv) rres { return rres{cContinue, rNil{}} })
	n("pass", 1, 1, func(in *rint, sc *rscope, a []rv) rres { return rres{cPass, rNil{}} })
	n("eval", 2, 2, func(in *rint, sc *rscope, a []rv) rres { return in.evalBody(sc, a[1]) })

	in.variables(n)
	in.controls(n)
	in.logic(n)
	in.math(n)
	in.collections()
	in.definitions(n)
}

func arg(a []rv, i int) rv {
	if i < len(a) {
		return a[i]
	}
	return rNil{}
}

type regFn func(name string, lo, hi int, f func(in *rint, sc *rscope, a []rv) rres)

// evalBody evaluates a script or a tuple.
func (in *rint) evalBody(sc *rscope, b rv) rres {
	switch x := b.(type) {
	case *rScript:
		return in.evalScript(sc, x)
	case rTuple:
		return in.evalArgs(sc, x.v)
	}
	return rfail()
}

// ---- variables

func (sc *rscope) checkConst(name string) bool {
	if _, l := sc.locals[name]; l {
		return false
	}
	if _, c := sc.ctx.consts[name]; c {
		return false
	}
	_, v := sc.ctx.vars[name]
	return !v
}
func (sc *rscope) checkVar(name string) bool {
	if _, l := sc.locals[name]; l {
		return false
	}
	_, c := sc.ctx.consts[name]
	return !c
}

// pairs matches a shape with a value; nothing is bound when it fails.
func pairs(shape, value rv, out *[][2]rv) bool {
	t, is := shape.(rTuple)
	if !is {
		if _, good := rstr(shape); !good {
			return false
		}
		*out = append(*out, [2]rv{shape, value})
		return true
	}
	v, is := value.(rTuple)
	if !is || len(v.v) < len(t.v) {
		return false
	}
	for i := range t.v {
		if !pairs(t.v[i], v.v[i], out) {
			return false
		}
	}
	return true
}
func names(shape rv, out *[]string) bool {
	t, is := shape.(rTuple)
	if !is {
		s, good := rstr(shape)
		if !good {
			return false
		}
		*out = append(*out, s)
		return true
	}
	for _, x := range t.v {
		if !names(x, out) {
			return false
		}
	}
	return true
}

// rsize is what a value leaves of a size.
func rsize(v rv, left int) int {
	each := func(vs []rv) {
		for _, x := range vs {
			if left = rsize(x, left-1); left <= 0 {
				return
			}
		}
	}
	switch v := v.(type) {
	case rList:
		each(v.v)
	case rTuple:
		each(v.v)
	case rDict:
		for _, x := range v.m {
			if left = rsize(x, left-1); left <= 0 {
				break
			}
		}
	case string:
		left -= len(v) / 4
	case *rScript:
		left -= len(v.ss)
	}
	return left
}

func (in *rint) variables(n regFn) {
	bind := func(check func(sc *rscope, name string) bool, set func(sc *rscope, name string, v rv)) func(*rint, *rscope, []rv) rres {
		return func(in *rint, sc *rscope, a []rv) rres {
			var ps [][2]rv
			if !pairs(a[1], a[2], &ps) {
				return rfail()
			}
			for _, p := range ps {
				s, _ := rstr(p[0])
				if !check(sc, s) {
					return rfail()
				}
			}
			for _, p := range ps {
				s, _ := rstr(p[0])
				set(sc, s, p[1])
			}
			return ok(a[2])
		}
	}
	n("let", 3, 3, bind((*rscope).checkConst, func(sc *rscope, name string, v rv) { sc.ctx.consts[name] = v }))
	n("set", 3, 3, bind((*rscope).checkVar, func(sc *rscope, name string, v rv) {
		if rsize(v, 30000) <= 0 {
			panic(rFuel{}) // values that grow exponentially
		}
		sc.ctx.vars[name] = v
	}))
	n("get", 2, 3, func(in *rint, sc *rscope, a []rv) rres {
		_, isT := a[1].(rTuple)
		_, isQ := a[1].(rQual)
		if isT && len(a) == 3 {
			return rfail()
		}
		if !isT && !isQ {
			if _, good := rstr(a[1]); !good {
				return rfail()
			}
		}
		v, bad := in.lookup(sc, a[1])
		if bad == nil {
			return ok(v)
		}
		if len(a) == 3 {
			return ok(a[2])
		}
		return *bad
	})
	n("exists", 2, 2, func(in *rint, sc *rscope, a []rv) rres {
		if _, isT := a[1].(rTuple); isT {
			return rfail()
		}
		_, bad := in.lookup(sc, a[1])
		return ok(bad == nil)
	})
	n("unset", 2, 2, func(in *rint, sc *rscope, a []rv) rres {
		var ns []string
		if !names(a[1], &ns) {
			return rfail()
		}
		for _, s := range ns {
			_, v := sc.ctx.vars[s]
			if !sc.checkVar(s) || !v {
				return rfail()
			}
		}
		for _, s := range ns {
			delete(sc.ctx.vars, s)
		}
		return ok(rNil{})
	})
}

// ---- control

// localScope declares the names of shapes; they must be distinct.
func localNames(shapes ...rv) (map[string]rv, bool) {
	m := map[string]rv{}
	for _, s := range shapes {
		var ns []string
		if !names(s, &ns) {
			return nil, false
		}
		for _, x := range ns {
			if _, dup := m[x]; dup {
				return nil, false
			}
			m[x] = nil
		}
	}
	return m, true
}
func (sc *rscope) assign(shape, v rv) bool {
	var ps [][2]rv
	if !pairs(shape, v, &ps) {
		return false
	}
	for _, p := range ps {
		s, _ := rstr(p[0])
		sc.locals[s] = p[1]
	}
	return true
}
func isScript(v rv) bool { _, is := v.(*rScript); return is }

// iterate runs a body; stop=true when the loop is over with result r.
func (in *rint) iterate(sc *rscope, body rv, last *rres) (r rres, stop bool) {
	r = in.evalScript(sc, body.(*rScript))
	switch r.code {
	case cOK:
		*last = r
	case cBreak:
		return *last, true
	case cContinue:
	default:
		return r, true
	}
	return r, false
}

func (in *rint) controls(n regFn) {
	n("loop", 2, -1, func(in *rint, sc *rscope, a []rv) rres {
		body := a[len(a)-1]
		a = a[1 : len(a)-1]
		var index rv
		if len(a)%2 == 1 {
			index = a[0]
			if _, good := rstr(index); !good {
				return rfail()
			}
			a = a[1:]
		}
		if !isScript(body) {
			return rfail()
		}
		shapes := []rv{}
		if index != nil {
			shapes = append(shapes, index)
		}
		for i := 0; i < len(a); i += 2 {
			shapes = append(shapes, a[i])
		}
		locals, good := localNames(shapes...)
		if !good {
			return rfail()
		}
		type source struct {
			shape rv
			next  func(ls *rscope, i int) rres
		}
		var srcs []*source
		for k := 0; k < len(a); k += 2 {
			v := a[k+1]
			s := &source{shape: a[k]}
			switch x := v.(type) {
			case rList:
				s.next = func(_ *rscope, i int) rres {
					if i < len(x.v) {
						return ok(x.v[i])
					}
					return rres{cBreak, rNil{}}
				}
			case rDict:
				es := entries(x.m)
				s.next = func(_ *rscope, i int) rres {
					if i < len(es) {
						return ok(es[i])
					}
					return rres{cBreak, rNil{}}
				}
			case *rScript:
				s.next = func(ls *rscope, i int) rres { return in.evalScript(ls, x) }
			default:
				if in.resolve(sc, v) == nil {
					return rfail()
				}
				s.next = func(ls *rscope, i int) rres { return in.evalArgs(ls, []rv{v, int64(i)}) }
			}
			srcs = append(srcs, s)
		}
		active := len(srcs)
		last := ok(rNil{})
		ls := sc.local(locals)
		for i := 0; ; i++ {
			for k := range locals {
				locals[k] = nil
			}
			if index != nil {
				ls.assign(index, int64(i))
			}
			for k, s := range srcs {
				if s == nil {
					continue
				}
				r := s.next(ls, i)
				switch r.code {
				case cBreak:
					srcs[k] = nil
					active--
					if active == 0 {
						return last
					}
				case cContinue:
				case cOK:
					if !ls.assign(s.shape, r.v) {
						return rfail()
					}
				default:
					return r
				}
			}
			if r, stop := in.iterate(ls, body, &last); stop {
				return r
			}
			if in.fuel--; in.fuel < 0 {
				panic(rFuel{})
			}
		}
	})
	n("while", 3, 3, func(in *rint, sc *rscope, a []rv) rres {
		if !isScript(a[2]) {
			return rfail()
		}
		last := ok(rNil{})
		for {
			t := ok(a[1])
			if s, is := a[1].(*rScript); is {
				if t = in.evalScript(sc, s); t.code != cOK {
					return t
				}
			}
			b, good := rbool(t.v)
			if !good {
				return rfail()
			}
			if !b {
				return last
			}
			if r, stop := in.iterate(sc, a[2], &last); stop {
				return r
			}
			if in.fuel--; in.fuel < 0 {
				panic(rFuel{})
			}
		}
	})
	n("if", 1, -1, rIf)
	n("when", 2, 3, func(in *rint, sc *rscope, a []rv) rres {
		cases, good := rarray(a[len(a)-1])
		if !good {
			return rfail()
		}
		for i := 0; i < len(cases); i += 2 {
			if i == len(cases)-1 {
				return in.onlyScript(sc, cases[i])
			}
			test := cases[i]
			if len(a) == 3 {
				cmd := ok(a[1])
				if s, is := a[1].(*rScript); is {
					if cmd = in.evalScript(sc, s); cmd.code != cOK {
						return cmd
					}
				}
				t := rTuple{[]rv{cmd.v}}
				if x, is := test.(rTuple); is {
					t.v = append(t.v, x.v...)
				} else {
					t.v = append(t.v, test)
				}
				test = t
			}
			r := ok(test)
			switch test.(type) {
			case *rScript, rTuple:
				r = in.evalBody(sc, test)
			}
			if r.code != cOK {
				return r
			}
			b, good := rbool(r.v)
			if !good {
				return rfail()
			}
			if b {
				return in.onlyScript(sc, cases[i+1])
			}
		}
		return ok(rNil{})
	})
	n("catch", 2, -1, rCatch)
}

func (in *rint) onlyScript(sc *rscope, b rv) rres {
	if s, is := b.(*rScript); is {
		return in.evalScript(sc, s)
	}
	return rfail()
}

func rIf(in *rint, sc *rscope, a []rv) rres {
	// structure first
	if len(a) < 3 {
		return rfail()
	}
	for i := 3; i < len(a); {
		k, good := rstr(a[i])
		switch {
		case good && k == "elseif" && len(a)-i >= 3:
			i += 3
		case good && k == "else" && len(a)-i >= 2:
			i += 2
		default:
			return rfail()
		}
	}
	for i := 0; i < len(a); {
		if k, _ := rstr(a[i]); i > 0 && k == "else" {
			return in.onlyScript(sc, a[i+1])
		}
		t := ok(a[i+1])
		if s, is := t.v.(*rScript); is {
			if t = in.evalScript(sc, s); t.code != cOK {
				return t
			}
		}
		b, good := rbool(t.v)
		if !good {
			return rfail()
		}
		if b {
			return in.onlyScript(sc, a[i+2])
		}
		i += 3
	}
	return ok(rNil{})
}

func rCatch(in *rint, sc *rscope, a []rv) rres {
	type handler struct {
		name string
		body *rScript
	}
	hs := map[int]handler{}
	var finally *rScript
	codes := map[string]int{"return": cReturn, "yield": cYield, "error": cError, "break": cBreak, "continue": cContinue}
	for i := 2; i < len(a); {
		k, good := rstr(a[i])
		if !good {
			return rfail()
		}
		switch k {
		case "return", "yield", "error":
			if len(a)-i < 3 {
				return rfail()
			}
			name, good := rstr(a[i+1])
			b, is := a[i+2].(*rScript)
			if !good || !is {
				return rfail()
			}
			if _, dup := hs[codes[k]]; !dup {
				hs[codes[k]] = handler{name, b}
			}
			i += 3
		case "break", "continue", "finally":
			if len(a)-i < 2 {
				return rfail()
			}
			b, is := a[i+1].(*rScript)
			if !is {
				return rfail()
			}
			if k == "finally" {
				if finally == nil {
					finally = b
				}
			} else if _, dup := hs[codes[k]]; !dup {
				hs[codes[k]] = handler{"", b}
			}
			i += 2
		default:
			return rfail()
		}
	}
	body, is := a[1].(*rScript)
	if !is {
		return rfail()
	}
	if len(a) == 2 {
		r := in.once(func() rres { return in.evalScript(sc, body) })
		name := rcodes[r.code]
		switch r.code {
		case cOK, cReturn, cYield, cError:
			return ok(rTuple{[]rv{name, r.v}})
		case cPass:
			name = "pass"
		}
		return ok(rTuple{[]rv{name}})
	}
	p := in.start(func() rres { return in.evalScript(sc, body) })
	var res rres
	for {
		b := p.run()
		res = b
		h, found := hs[b.code]
		if b.code == cOK || b.code == cPass || !found {
			break
		}
		hsc := sc
		if b.code == cReturn || b.code == cYield || b.code == cError {
			hsc = sc.local(map[string]rv{h.name: b.v})
		}
		r := in.evalScript(hsc, h.body)
		if r.code == cPass {
			if b.code == cYield {
				p.sent = in.yield(b.v)
				continue
			}
			break
		}
		if r.code != cOK {
			return r
		}
		res = r
		break
	}
	p.stop()
	if finally != nil {
		if r := in.evalScript(sc, finally); r.code != cOK {
			return r
		}
	}
	if res.code == cYield {
		return ok(in.yield(res.v))
	}
	return res
}

// ---- logic and arithmetic

func (in *rint) cond(sc *rscope, v rv) (bool, *rres) {
	if s, is := v.(*rScript); is {
		r := in.evalScript(sc, s)
		if r.code != cOK {
			return false, &r
		}
		v = r.v
	}
	b, good := rbool(v)
	if !good {
		r := rfail()
		return false, &r
	}
	return b, nil
}

func (in *rint) logic(n regFn) {
	for _, truth := range []bool{true, false} {
		n(strconv.FormatBool(truth), 1, -1, func(in *rint, sc *rscope, a []rv) rres {
			if len(a) == 1 {
				return ok(truth)
			}
			s, good := rstr(a[1])
			if !good {
				return rfail()
			}
			switch s {
			case "subcommands":
				if len(a) == 2 {
					return ok(rstrings("subcommands", "?", "!?"))
				}
			case "?", "!?":
				if len(a) == 3 || len(a) == 4 {
					if truth == (s == "?") {
						return ok(a[2])
					}
					return ok(arg(a, 3))
				}
			}
			return rfail()
		})
	}
	n("!", 2, 2, func(in *rint, sc *rscope, a []rv) rres {
		b, x := in.cond(sc, a[1])
		if x != nil {
			return *x
		}
		return ok(!b)
	})
	for name, stop := range map[string]bool{"&&": false, "||": true} {
		n(name, 2, -1, func(in *rint, sc *rscope, a []rv) rres {
			for _, v := range a[1:] {
				b, x := in.cond(sc, v)
				if x != nil {
					return *x
				}
				if b == stop {
					return ok(stop)
				}
			}
			return ok(!stop)
		})
	}
}

func (in *rint) math(n regFn) {
	fold := func(name string, lo int, f func(a, b float64) float64, one func(a float64) float64) {
		n(name, lo, -1, func(in *rint, sc *rscope, a []rv) rres {
			var fs []float64
			for _, v := range a[1:] {
				x, good := rfloat(v)
				if !good {
					return rfail()
				}
				fs = append(fs, x)
			}
			if len(fs) == 1 {
				return ok(rnum(one(fs[0])))
			}
			t := fs[0]
			for _, x := range fs[1:] {
				t = f(t, x)
			}
			return ok(rnum(t))
		})
	}
	id := func(a float64) float64 { return a }
	fold("+", 2, func(a, b float64) float64 { return a + b }, id)
	fold("-", 2, func(a, b float64) float64 { return a - b }, func(a float64) float64 { return -a })
	fold("*", 2, func(a, b float64) float64 { return a * b }, id)
	fold("/", 3, func(a, b float64) float64 { return a / b }, id)
}

// ---- value ensembles

func entries(m map[string]rv) []rv {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []rv{}
	for _, k := range keys {
		out = append(out, rTuple{[]rv{k, m[k]}})
	}
	return out
}

// valueEnsemble defines a conversion command with subcommands on one value.
func (in *rint) valueEnsemble(name string, conv func(v rv) rres) *rscope {
	sub := in.root.child()
	spec := &rSpec{params: []rparam{{name: "value"}}}
	e := newEnsemble(sub, spec)
	in.root.def(name, func(in *rint, sc *rscope, a []rv) rres {
		if len(a) == 2 {
			return conv(a[1])
		}
		return e.exec(in, sc, a)
	})
	return sub
}

// clip cuts first..last to a sequence of n positions.
func clip(n, first, last int64) (int64, int64) {
	first = min(max(first, 0), n)
	if last >= n {
		last = n - 1
	}
	if last+1 < first {
		return first, first
	}
	return first, last + 1
}

func (in *rint) collections() {
	conv := func(f func(v rv) (rv, bool)) func(v rv) rres {
		return func(v rv) rres {
			if x, good := f(v); good {
				return ok(x)
			}
			return rfail()
		}
	}
	in.valueEnsemble("bool", conv(func(v rv) (rv, bool) { return wrap(rbool(v)) }))
	in.valueEnsemble("int", conv(func(v rv) (rv, bool) { return wrap(rinteger(v)) }))
	in.valueEnsemble("real", conv(func(v rv) (rv, bool) { return wrap(rfloat(v)) }))

	sub := func(sc *rscope, name string, lo, hi int, f func(in *rint, sc *rscope, a []rv) (rv, bool)) {
		sc.def(name, func(in *rint, sc *rscope, a []rv) rres {
			if !between(a, lo, hi) {
				return rfail()
			}
			if v, good := f(in, sc, a); good {
				return ok(v)
			}
			return rfail()
		})
	}
	two := func(f func(a, b string) bool) func(in *rint, sc *rscope, a []rv) (rv, bool) {
		return func(in *rint, sc *rscope, a []rv) (rv, bool) {
			x, g1 := rstr(a[1])
			y, g2 := rstr(a[2])
			return f(x, y), g1 && g2
		}
	}
	s := in.valueEnsemble("string", conv(func(v rv) (rv, bool) { return wrap(rstr(v)) }))
	sub(s, "==", 3, 3, two(func(a, b string) bool { return a == b }))
	sub(s, "!=", 3, 3, two(func(a, b string) bool { return a != b }))
	sub(s, ">", 3, 3, two(func(a, b string) bool { return a > b }))
	sub(s, ">=", 3, 3, two(func(a, b string) bool { return a >= b }))
	sub(s, "<", 3, 3, two(func(a, b string) bool { return a < b }))
	sub(s, "<=", 3, 3, two(func(a, b string) bool { return a <= b }))
	l := in.valueEnsemble("list", conv(func(v rv) (rv, bool) {
		x, good := rarray(v)
		return rList{x}, good
	}))
	t := in.valueEnsemble("tuple", conv(func(v rv) (rv, bool) {
		x, good := rarray(v)
		return rTuple{x}, good
	}))
	// the sequence operations, over strings and lists
	for _, e := range []struct {
		sc   *rscope
		get  func(v rv) ([]rv, bool)
		put  func(vs []rv) rv
		elem func(v rv) rv
	}{
		{s, rbytes, func(vs []rv) rv {
			b := []byte{}
			for _, x := range vs {
				b = append(b, x.(string)...)
			}
			return string(b)
		}, nil},
		{l, rarray, func(vs []rv) rv { return rList{vs} }, nil},
		{t, rarray, nil, nil},
	} {
		sub(e.sc, "length", 2, 2, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			vs, good := e.get(a[1])
			return int64(len(vs)), good
		})
		sub(e.sc, "at", 3, 4, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			vs, g1 := e.get(a[1])
			i, g2 := rinteger(a[2])
			if !g1 || !g2 {
				return nil, false
			}
			if i >= 0 && i < int64(len(vs)) {
				return vs[i], true
			}
			return arg(a, 3), len(a) == 4
		})
		if e.put == nil {
			continue
		}
		cat := func(parts ...[]rv) rv {
			out := []rv{}
			for _, p := range parts {
				out = append(out, p...)
			}
			return e.put(out)
		}
		sub(e.sc, "range", 3, 4, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			vs, g1 := e.get(a[1])
			first, g2 := rinteger(a[2])
			last, g3 := int64(len(vs)), true
			if len(a) == 4 {
				last, g3 = rinteger(a[3])
			}
			if !g1 || !g2 || !g3 {
				return nil, false
			}
			i, j := clip(int64(len(vs)), first, last)
			return cat(vs[i:j]), true
		})
		sub(e.sc, "append", 2, -1, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			parts := [][]rv{}
			for _, x := range a[1:] {
				vs, good := e.get(x)
				if !good {
					return nil, false
				}
				parts = append(parts, vs)
			}
			return cat(parts...), true
		})
		sub(e.sc, "remove", 4, 4, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			vs, g1 := e.get(a[1])
			first, g2 := rinteger(a[2])
			last, g3 := rinteger(a[3])
			if !g1 || !g2 || !g3 {
				return nil, false
			}
			i, j := clip(int64(len(vs)), first, last)
			return cat(vs[:i], vs[j:]), true
		})
		sub(e.sc, "insert", 4, 4, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			vs, g1 := e.get(a[1])
			first, g2 := rinteger(a[2])
			ins, g3 := e.get(a[3])
			if !g1 || !g2 || !g3 {
				return nil, false
			}
			i := min(max(first, 0), int64(len(vs)))
			return cat(vs[:i], ins, vs[i:]), true
		})
		sub(e.sc, "replace", 5, 5, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			vs, g1 := e.get(a[1])
			first, g2 := rinteger(a[2])
			last, g3 := rinteger(a[3])
			ins, g4 := e.get(a[4])
			if !g1 || !g2 || !g3 || !g4 {
				return nil, false
			}
			i, j := clip(int64(len(vs)), first, last)
			return cat(vs[:i], ins, vs[j:]), true
		})
	}
	l.def("sort", rSort)
	l.def("foreach", func(in *rint, sc *rscope, a []rv) rres {
		if !between(a, 4, 5) {
			return rfail()
		}
		vs, good := rarray(a[1])
		if !good {
			return rfail()
		}
		return in.foreach(sc, vs, a[2:])
	})

	d := in.valueEnsemble("dict", conv(func(v rv) (rv, bool) {
		m, good := rmap(v)
		return rDict{m}, good
	}))
	sub(d, "size", 2, 2, func(in *rint, sc *rscope, a []rv) (rv, bool) {
		m, good := rmap(a[1])
		return int64(len(m)), good
	})
	sub(d, "has", 3, 3, func(in *rint, sc *rscope, a []rv) (rv, bool) {
		m, g1 := rmap(a[1])
		k, g2 := rstr(a[2])
		_, has := m[k]
		return has, g1 && g2
	})
	sub(d, "get", 3, 4, func(in *rint, sc *rscope, a []rv) (rv, bool) {
		m, good := rmap(a[1])
		if !good {
			return nil, false
		}
		if t, is := a[2].(rTuple); is {
			if len(a) == 4 {
				return nil, false
			}
			out := []rv{}
			for _, x := range t.v {
				k, good := rstr(x)
				v, has := m[k]
				if !good || !has {
					return nil, false
				}
				out = append(out, v)
			}
			return rTuple{out}, true
		}
		k, good := rstr(a[2])
		if !good {
			return nil, false
		}
		if v, has := m[k]; has {
			return v, true
		}
		return arg(a, 3), len(a) == 4
	})
	update := func(f func(m map[string]rv, a []rv) bool) func(in *rint, sc *rscope, a []rv) (rv, bool) {
		return func(in *rint, sc *rscope, a []rv) (rv, bool) {
			m, good := rmap(a[1])
			if !good {
				return nil, false
			}
			c := map[string]rv{}
			for k, v := range m {
				c[k] = v
			}
			return rDict{c}, f(c, a)
		}
	}
	sub(d, "add", 4, 4, update(func(m map[string]rv, a []rv) bool {
		k, good := rstr(a[2])
		m[k] = a[3]
		return good
	}))
	sub(d, "remove", 2, -1, update(func(m map[string]rv, a []rv) bool {
		for _, x := range a[2:] {
			k, good := rstr(x)
			if !good {
				return false
			}
			delete(m, k)
		}
		return true
	}))
	sub(d, "merge", 2, -1, update(func(m map[string]rv, a []rv) bool {
		for _, x := range a[2:] {
			o, good := rmap(x)
			if !good {
				return false
			}
			for k, v := range o {
				m[k] = v
			}
		}
		return true
	}))
	for i, name := range []string{"keys", "values", "entries"} {
		sub(d, name, 2, 2, func(in *rint, sc *rscope, a []rv) (rv, bool) {
			m, good := rmap(a[1])
			out := []rv{}
			for _, e := range entries(m) {
				if i < 2 {
					e = e.(rTuple).v[i]
				}
				out = append(out, e)
			}
			return rList{out}, good
		})
	}
	d.def("foreach", func(in *rint, sc *rscope, a []rv) rres {
		if !between(a, 4, 5) {
			return rfail()
		}
		m, good := rmap(a[1])
		if !good {
			return rfail()
		}
		return in.foreach(sc, entries(m), a[2:])
	})

	in.root.def("parse", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 {
			return rfail()
		}
		src, good := rstr(a[1])
		if !good {
			return rfail()
		}
		ss, msg := refParse(src)
		if msg != "" {
			return rfail()
		}
		return ok(&rScript{src: &src, ss: ss})
	})
	toScript := func(v rv) (*rScript, bool) {
		switch x := v.(type) {
		case *rScript:
			return x, true
		case rTuple:
			s := &rScript{}
			if len(x.v) > 0 {
				var sent rsent
				for _, y := range x.v {
					sent.words = append(sent.words, &rword{val: y})
				}
				s.ss = []rsent{sent}
			}
			return s, true
		}
		return nil, false
	}
	sc := in.valueEnsemble("script", conv(func(v rv) (rv, bool) { return wrap(toScript(v)) }))
	sub(sc, "length", 2, 2, func(in *rint, sc *rscope, a []rv) (rv, bool) {
		s, good := toScript(a[1])
		if !good {
			return nil, false
		}
		return int64(len(s.ss)), true
	})
	sub(sc, "append", 2, -1, func(in *rint, sc *rscope, a []rv) (rv, bool) {
		out := &rScript{}
		for _, x := range a[1:] {
			s, good := toScript(x)
			if !good {
				return nil, false
			}
			if len(a) == 2 {
				return s, true
			}
			out.ss = append(out.ss, s.ss...)
		}
		return out, true
	})
	sub(sc, "split", 2, 2, func(in *rint, sc *rscope, a []rv) (rv, bool) {
		s, good := toScript(a[1])
		if !good {
			return nil, false
		}
		out := []rv{}
		for _, x := range s.ss {
			out = append(out, &rScript{ss: []rsent{x}})
		}
		return rList{out}, true
	})

	as := in.valueEnsemble("argspec", func(v rv) rres {
		s, good := toSpec(v)
		if !good {
			return rfail()
		}
		return ok(s)
	})
	sub(as, "usage", 2, 2, func(in *rint, sc *rscope, a []rv) (rv, bool) {
		s, good := toSpec(a[1])
		if !good {
			return nil, false
		}
		return s.usage(), true
	})
	as.def("set", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 3 {
			return rfail()
		}
		s, good := toSpec(a[1])
		if !good {
			return rfail()
		}
		vs, good := rarray(a[2])
		if !good {
			return rfail()
		}
		m, x := s.bind(in, sc, vs)
		if x != nil {
			return *x
		}
		for k, v := range m {
			if v != nil && !sc.checkVar(k) {
				return rfail()
			}
		}
		for k, v := range m {
			if v != nil {
				sc.ctx.vars[k] = v
			}
		}
		return ok(rNil{})
	})
}

func wrap[T any](v T, good bool) (rv, bool) { return v, good }

func rbytes(v rv) ([]rv, bool) {
	s, good := rstr(v)
	out := []rv{}
	for i := 0; i < len(s); i++ {
		out = append(out, s[i:i+1])
	}
	return out, good
}

func (in *rint) foreach(sc *rscope, vs []rv, a []rv) rres {
	body := a[len(a)-1]
	if !isScript(body) {
		return rfail()
	}
	shape := a[len(a)-2]
	shapes := []rv{shape}
	if len(a) == 3 {
		if _, good := rstr(a[0]); !good {
			return rfail()
		}
		shapes = []rv{a[0], shape}
	}
	locals, good := localNames(shapes...)
	if !good {
		return rfail()
	}
	ls := sc.local(locals)
	last := ok(rNil{})
	for i, v := range vs {
		if len(a) == 3 {
			ls.assign(a[0], int64(i))
		}
		if !ls.assign(shape, v) {
			return rfail()
		}
		if r, stop := in.iterate(ls, body, &last); stop {
			return r
		}
	}
	return last
}

func rSort(in *rint, sc *rscope, a []rv) rres {
	if !between(a, 2, 3) {
		return rfail()
	}
	vs, good := rarray(a[1])
	if !good {
		return rfail()
	}
	out := append([]rv{}, vs...)
	var bad *rres
	tie := false
	sort.SliceStable(out, func(i, j int) bool {
		if len(a) == 3 {
			r := in.once(func() rres { return in.evalArgs(sc, []rv{a[2], out[i], out[j]}) })
			if r.code != cOK {
				bad = &r
				return false
			}
			n, good := rinteger(r.v)
			if !good {
				r := rfail()
				bad = &r
			}
			tie = tie || n == 0 && rrepr(out[i]) != rrepr(out[j])
			return n < 0
		}
		x, g1 := rstr(out[i])
		y, g2 := rstr(out[j])
		if !g1 || !g2 {
			r := rfail()
			bad = &r
		}
		tie = tie || x == y && rrepr(out[i]) != rrepr(out[j]) ||
			strings.Contains(x, rE) || strings.Contains(y, rE) // nor is where a message goes
		return x < y
	})
	if bad != nil {
		return *bad
	}
	if tie {
		panic(rFuel{}) // sorting is not stable: the order of different equal elements is not specified
	}
	return ok(rList{out})
}
