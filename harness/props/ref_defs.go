package props

import (
	"sort"
	"strings"
)

// ---- argument specifications

type rparam struct {
	name  string
	kind  byte // 0 required, '?' optional, '*' remainder
	def   rv
	guard rv
	opts  []string // option or flag names
	flag  bool
}
type rSpec struct{ params []rparam }

func (p rparam) isOpt() bool { return len(p.opts) > 0 }

// toSpec reads a specification.
func toSpec(v rv) (*rSpec, bool) {
	if s, is := v.(*rSpec); is {
		return s, true
	}
	items, good := rarray(v)
	if !good {
		return nil, false
	}
	s := &rSpec{}
	var opt []string
	var flag bool
	used, names, rest := map[string]bool{}, map[string]bool{}, false
	for _, it := range items {
		os, fl, isOpt, good := optNames(it)
		if !good {
			return nil, false
		}
		if isOpt {
			if opt != nil || rest {
				return nil, false
			}
			for _, o := range os {
				if used[o] {
					return nil, false
				}
				used[o] = true
			}
			opt, flag = os, fl
			continue
		}
		p, good := param(it)
		if !good {
			return nil, false
		}
		if opt != nil {
			if flag && p.kind != '?' || p.kind == '*' {
				return nil, false
			}
			p.opts, p.flag = opt, flag
			opt = nil
		}
		if p.kind == '*' && rest || names[p.name] {
			return nil, false
		}
		rest = rest || p.kind == '*'
		names[p.name] = true
		s.params = append(s.params, p)
	}
	return s, opt == nil
}

// optNames recognizes "-name", "?-name" and lists of aliases of one kind.
func optNames(it rv) (names []string, flag, isOpt, good bool) {
	vs := []rv{it}
	switch it.(type) {
	case rList, rTuple, *rScript:
		xs, g := rarray(it)
		if !g {
			return nil, false, false, false
		}
		vs = xs
	}
	for _, v := range vs {
		s, isStr := rstr(v)
		var fl bool
		switch {
		case isStr && len(s) >= 2 && s[0] == '-':
			fl = false
		case isStr && len(s) >= 3 && s[0] == '?' && s[1] == '-':
			fl = true
			s = s[1:]
		default:
			return names, flag, len(names) > 0, len(names) == 0
		}
		if s == "--" {
			return nil, false, false, false
		}
		if len(names) > 0 && fl != flag {
			return nil, false, false, false
		}
		flag = fl
		names = append(names, s)
	}
	return names, flag, len(names) > 0, true
}

func param(it rv) (p rparam, good bool) {
	mark := func(s string) (rparam, bool) {
		if s == "" || s == "?" {
			return rparam{}, false
		}
		if s[0] == '?' {
			return rparam{name: s[1:], kind: '?'}, true
		}
		return rparam{name: s}, true
	}
	var vs []rv
	switch it.(type) {
	case rList, rTuple, *rScript:
		xs, g := rarray(it)
		if !g {
			return p, false
		}
		vs = xs
	default:
		s, isStr := rstr(it)
		if !isStr {
			return p, false
		}
		if strings.HasPrefix(s, "*") {
			if s != "*" {
				s = s[1:]
			}
			return rparam{name: s, kind: '*'}, true
		}
		return mark(s)
	}
	switch len(vs) {
	case 1:
		s, isStr := rstr(vs[0])
		if !isStr {
			return p, false
		}
		return mark(s)
	case 2:
		// (?name default) or (guard name)
		if s, isStr := rstr(vs[0]); isStr && len(s) > 1 && s[0] == '?' {
			return rparam{name: s[1:], kind: '?', def: vs[1]}, true
		} else if isStr && s == "?" {
			return p, false
		}
		s, isStr := rstr(vs[1])
		if !isStr {
			return p, false
		}
		p, good = mark(s)
		p.guard = vs[0]
		return p, good
	case 3:
		s, isStr := rstr(vs[1])
		if !isStr {
			return p, false
		}
		p, good = mark(s)
		p.guard, p.def = vs[0], vs[2]
		return p, good && p.kind == '?'
	}
	return p, false
}

func (s *rSpec) usage() string {
	parts := []string{}
	for _, p := range s.params {
		u := p.name
		switch {
		case p.isOpt() && p.flag:
			u = "?" + strings.Join(p.opts, "|") + "?"
		case p.isOpt() && p.kind == '?':
			u = "?" + strings.Join(p.opts, "|") + " " + p.name + "?"
		case p.isOpt():
			u = strings.Join(p.opts, "|") + " " + p.name
		case p.kind == '?':
			u = "?" + p.name + "?"
		case p.kind == '*' && p.name == "*":
			u = "?arg ...?"
		case p.kind == '*':
			u = "?" + p.name + " ...?"
		}
		parts = append(parts, u)
	}
	return strings.Join(parts, " ")
}

// assignArgs decides which arguments each parameter gets. The result has one entry per
// parameter: nil when absent.
func (s *rSpec) assignArgs(args []rv) (got [][]rv, good bool) {
	got = make([][]rv, len(s.params))
	req, optional := 0, 0 // still to be served
	hasOpts, rest := false, false
	for _, p := range s.params {
		switch {
		case p.isOpt():
			hasOpts = true
			if p.kind == 0 {
				req += 2
			}
		case p.kind == 0:
			req++
		case p.kind == '?':
			optional++
		default:
			rest = true
		}
	}
	if len(args) < req || !hasOpts && !rest && len(args) > req+optional {
		return nil, false
	}
	i := 0
	take := func(k, n int) {
		got[k] = args[i : i+n : i+n]
		i += n
	}
	for k := 0; k < len(s.params); {
		p := s.params[k]
		left := len(args) - i
		if !p.isOpt() {
			switch p.kind {
			case 0:
				if left == 0 {
					break // reported when its turn comes
				}
				req--
				take(k, 1)
			case '?':
				if left > req {
					optional--
					take(k, 1)
				}
			default:
				if n := left - req - optional; n > 0 {
					take(k, n)
				}
			}
			k++
			continue
		}
		// a group of consecutive options, in any order
		end := k
		needed := 0
		byName := map[string]int{}
		for end < len(s.params) && s.params[end].isOpt() {
			for _, o := range s.params[end].opts {
				byName[o] = end
			}
			if s.params[end].kind == 0 {
				needed++
			}
			end++
		}
		known := map[string]bool{}
		for _, q := range s.params {
			for _, o := range q.opts {
				known[o] = true
			}
		}
		for n := 0; n < end-k && i < len(args); n++ {
			name, isStr := rstr(args[i])
			if !isStr || name == "--" || !known[name] {
				if needed > 0 {
					return nil, false
				}
				break
			}
			o, here := byName[name]
			if !here || got[o] != nil {
				return nil, false
			}
			q := s.params[o]
			if q.flag {
				i++
				got[o] = []rv{true}
				continue
			}
			if i+1 >= len(args) {
				return nil, false
			}
			i++
			take(o, 1)
			if q.kind == 0 {
				needed--
				req -= 2
			}
		}
		if i < len(args) {
			if name, isStr := rstr(args[i]); isStr && name == "--" {
				i++
			}
		}
		k = end
	}
	return got, i == len(args)
}

// bind gives each parameter its value; an absent one without default is nil.
func (s *rSpec) bind(in *rint, sc *rscope, args []rv) (map[string]rv, *rres) {
	m := map[string]rv{}
	bad := rfail()
	got, good := s.assignArgs(args)
	if !good {
		return nil, &bad
	}
	for k, p := range s.params {
		var v rv
		switch {
		case p.kind == 0 && got[k] == nil:
			return nil, &bad
		case p.kind == '*':
			v = rTuple{append([]rv{}, got[k]...)}
		case got[k] != nil:
			v = got[k][0]
		case p.flag:
			v = false
		case p.def != nil:
			v = p.def
			if d, is := v.(*rScript); is {
				r := in.once(func() rres { return in.evalScript(sc, d) })
				if r.code == cError {
					return nil, &r
				}
				if r.code != cOK {
					return nil, &bad
				}
				v = r.v
			}
		default:
			m[p.name] = nil
			continue
		}
		if p.guard != nil {
			r := in.once(func() rres { return in.evalArgs(sc, []rv{p.guard, v}) })
			if r.code == cError {
				return nil, &r
			}
			if r.code != cOK {
				return nil, &bad
			}
			v = r.v
		}
		m[p.name] = v
	}
	return m, nil
}

// ---- ensembles

type rEnsemble struct {
	sc   *rscope
	spec *rSpec
	meta *rCmd
}

func sub1(a []rv) (string, bool) {
	if len(a) < 2 {
		return "", false
	}
	return rstr(a[1])
}

func newEnsemble(sc *rscope, spec *rSpec) *rEnsemble {
	e := &rEnsemble{sc: sc, spec: spec}
	e.meta = &rCmd{name: "meta"}
	e.meta.exec = func(in *rint, sc *rscope, a []rv) rres {
		if len(a) == 1 {
			return ok(e.meta)
		}
		s, _ := sub1(a)
		switch {
		case s == "subcommands" && len(a) == 2:
			return ok(rstrings("subcommands", "eval", "call", "argspec"))
		case s == "eval" && len(a) == 3:
			return in.evalBody(e.sc, a[2])
		case s == "call" && len(a) >= 3:
			name, good := rstr(a[2])
			c := e.sc.ctx.cmds[name]
			if !good || c == nil {
				return rfail()
			}
			return in.evalArgs(sc, append([]rv{c}, a[3:]...))
		case s == "argspec" && len(a) == 2:
			return ok(e.spec)
		}
		return rfail()
	}
	return e
}

func (e *rEnsemble) exec(in *rint, sc *rscope, a []rv) rres {
	n := len(e.spec.params) + 1
	if len(a) == 1 {
		return ok(e.meta)
	}
	if len(a) < n {
		return rfail()
	}
	values := func() ([]rv, *rres) {
		m, x := e.spec.bind(in, sc, a[1:n])
		if x != nil {
			return nil, x
		}
		out := []rv{}
		for _, p := range e.spec.params {
			out = append(out, m[p.name])
		}
		return out, nil
	}
	if len(a) == n {
		vs, x := values()
		if x != nil {
			return *x
		}
		return ok(rTuple{vs})
	}
	name, good := rstr(a[n])
	if !good {
		return rfail()
	}
	if name == "subcommands" {
		if len(a) != n+1 {
			return rfail()
		}
		return ok(rList{append([]rv{a[n]}, localCommands(e.sc)...)})
	}
	c := e.sc.ctx.cmds[name]
	if c == nil {
		return rfail()
	}
	vs, x := values()
	if x != nil {
		return *x
	}
	return c.exec(in, sc, append(append([]rv{c}, vs...), a[n+1:]...))
}

func localCommands(sc *rscope) []rv {
	ns := []string{}
	for k := range sc.ctx.cmds {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	out := []rv{}
	for _, k := range ns {
		out = append(out, k)
	}
	return out
}

// ---- definitions

func (in *rint) definitions(n regFn) {
	// scope, namespace and ensemble: a body evaluated in a child scope defines the command
	container := func(sc *rscope, sub *rscope, name, body rv, mk func() (cmd, value *rCmd)) rres {
		s, is := body.(*rScript)
		if !is {
			return rfail()
		}
		r := in.evalScript(sub, s)
		if r.code == cError {
			return r
		}
		if r.code != cOK && r.code != cReturn {
			return rfail()
		}
		cmd, value := mk()
		if name != nil {
			s, good := rstr(name)
			if !good {
				return rfail()
			}
			sc.ctx.cmds[s] = cmd
		}
		if r.code == cReturn {
			return ok(r.v)
		}
		return ok(value)
	}
	n("scope", 2, 3, func(in *rint, sc *rscope, a []rv) rres {
		sub := sc.child()
		return container(sc, sub, nameOf(a, 3), a[len(a)-1], func() (*rCmd, *rCmd) {
			c := &rCmd{name: "scope"}
			c.exec = func(in *rint, sc *rscope, a []rv) rres {
				if len(a) == 1 {
					return ok(c)
				}
				s, _ := sub1(a)
				switch {
				case s == "subcommands" && len(a) == 2:
					return ok(rstrings("subcommands", "eval", "call"))
				case s == "eval" && len(a) == 3:
					return in.evalBody(sub, a[2])
				case s == "call" && len(a) >= 3:
					name, good := rstr(a[2])
					if !good || sub.ctx.cmds[name] == nil {
						return rfail()
					}
					return in.evalArgs(sub, a[2:])
				}
				return rfail()
			}
			return c, c
		})
	})
	n("namespace", 2, 3, func(in *rint, sc *rscope, a []rv) rres {
		sub := sc.child()
		return container(sc, sub, nameOf(a, 3), a[len(a)-1], func() (*rCmd, *rCmd) {
			meta := &rCmd{name: "meta"}
			meta.key = func(k rv) rres {
				if s, good := rstr(k); good {
					if v, has := sub.get(s); has {
						return ok(v)
					}
				}
				return rfail()
			}
			meta.exec = func(in *rint, sc *rscope, a []rv) rres {
				if len(a) == 1 {
					return ok(meta)
				}
				s, _ := sub1(a)
				switch {
				case s == "subcommands" && len(a) == 2:
					return ok(rstrings("subcommands", "eval", "call", "import"))
				case s == "eval" && len(a) == 3:
					return in.evalBody(sub, a[2])
				case s == "call" && len(a) >= 3:
					name, good := rstr(a[2])
					c := sub.ctx.cmds[name]
					if !good || c == nil {
						return rfail()
					}
					return in.evalArgs(sub, append([]rv{c}, a[3:]...))
				case s == "import" && (len(a) == 3 || len(a) == 4):
					name, g1 := rstr(a[2])
					alias, g2 := rstr(a[len(a)-1])
					c := sub.ctx.cmds[name]
					if !g1 || !g2 || c == nil {
						return rfail()
					}
					sc.ctx.cmds[alias] = c
					return ok(rNil{})
				}
				return rfail()
			}
			c := &rCmd{name: "namespace"}
			c.exec = func(in *rint, sc *rscope, a []rv) rres {
				if len(a) == 1 {
					return ok(meta)
				}
				s, good := sub1(a)
				if !good {
					return rfail()
				}
				if s == "subcommands" {
					if len(a) != 2 {
						return rfail()
					}
					return ok(rList{append([]rv{a[1]}, localCommands(sub)...)})
				}
				x := sub.ctx.cmds[s]
				if x == nil {
					return rfail()
				}
				return in.evalArgs(sub, append([]rv{x}, a[2:]...))
			}
			return c, meta
		})
	})
	n("ensemble", 3, 4, func(in *rint, sc *rscope, a []rv) rres {
		if !isScript(a[len(a)-1]) {
			return rfail()
		}
		spec, good := toSpec(a[len(a)-2])
		if !good {
			return rfail()
		}
		for _, p := range spec.params {
			if p.kind != 0 || p.isOpt() {
				return rfail()
			}
		}
		sub := sc.child()
		return container(sc, sub, nameOf(a, 4), a[len(a)-1], func() (*rCmd, *rCmd) {
			e := newEnsemble(sub, spec)
			return &rCmd{name: "ensemble", exec: e.exec}, e.meta
		})
	})
	for _, kind := range []string{"macro", "closure", "proc"} {
		n(kind, 3, 4, func(in *rint, sc *rscope, a []rv) rres {
			body := a[len(a)-1]
			var guard rv
			if t, is := body.(rTuple); is {
				if len(t.v) != 2 {
					return rfail()
				}
				guard, body = t.v[0], t.v[1]
			}
			script, is := body.(*rScript)
			if !is {
				return rfail()
			}
			spec, good := toSpec(a[len(a)-2])
			if !good {
				return rfail()
			}
			def := sc.local(nil)
			c := &rCmd{name: kind}
			c.exec = func(in *rint, sc *rscope, a []rv) rres {
				if kind != "macro" {
					sc = def
				}
				m, x := spec.bind(in, sc, a[1:])
				if x != nil {
					return *x
				}
				sub := sc.local(m)
				if kind == "proc" {
					sub = sc.child()
					for k, v := range m {
						if v != nil {
							sub.ctx.vars[k] = v
						}
					}
				}
				r := in.evalScript(sub, script)
				if kind == "proc" {
					switch r.code {
					case cOK, cReturn:
						r.code = cOK
					case cError:
						return r
					default:
						return rfail()
					}
				}
				if guard != nil && r.code == cOK {
					return in.evalArgs(sc, []rv{guard, r.v})
				}
				return r
			}
			meta := &rCmd{name: "meta"}
			meta.exec = func(in *rint, sc *rscope, a []rv) rres {
				if len(a) == 1 {
					return ok(c)
				}
				s, _ := sub1(a)
				switch {
				case s == "subcommands" && len(a) == 2:
					return ok(rstrings("subcommands", "argspec"))
				case s == "argspec" && len(a) == 2:
					return ok(spec)
				}
				return rfail()
			}
			if len(a) == 4 {
				s, good := rstr(a[1])
				if !good {
					return rfail()
				}
				sc.ctx.cmds[s] = c
			}
			return ok(meta)
		})
	}
	n("alias", 3, 3, func(in *rint, sc *rscope, a []rv) rres {
		s, good := rstr(a[1])
		if !good {
			return rfail()
		}
		target := a[2]
		c := &rCmd{name: "alias"}
		c.exec = func(in *rint, sc *rscope, a []rv) rres {
			return cmdPrefix.exec(in, sc, append([]rv{target}, a[1:]...))
		}
		meta := &rCmd{name: "meta"}
		meta.exec = func(in *rint, sc *rscope, a []rv) rres {
			if len(a) == 1 {
				return ok(c)
			}
			s, _ := sub1(a)
			switch {
			case s == "subcommands" && len(a) == 2:
				return ok(rstrings("subcommands", "command"))
			case s == "command" && len(a) == 2:
				return ok(target)
			}
			return rfail()
		}
		sc.ctx.cmds[s] = c
		return ok(meta)
	})
	n("coroutine", 2, 2, func(in *rint, sc *rscope, a []rv) rres {
		body, is := a[1].(*rScript)
		if !is {
			return rfail()
		}
		own := sc.local(nil)
		state := 0 // 1 active 2 done
		var p *rproc
		running := false
		var outcome rres
		c := &rCmd{name: "coroutine"}
		run := func() rres {
			running = true
			r := p.run()
			running = false
			switch r.code {
			case cYield:
				return ok(r.v)
			case cOK, cReturn:
				r = ok(r.v)
			case cError:
			default:
				r = rfail()
			}
			state, outcome = 2, r
			return r
		}
		c.exec = func(in *rint, sc *rscope, a []rv) rres {
			if len(a) == 1 {
				return ok(c)
			}
			s, _ := sub1(a)
			switch {
			case s == "subcommands" && len(a) == 2:
				return ok(rstrings("subcommands", "wait", "active", "done", "yield"))
			case s == "active" && len(a) == 2:
				return ok(state == 1)
			case s == "done" && len(a) == 2:
				return ok(state == 2)
			case s == "wait" && len(a) == 2:
				if running {
					return rfail()
				}
				if state == 2 {
					return outcome
				}
				if state == 0 {
					state = 1
					p = in.start(func() rres { return in.evalScript(own, body) })
				}
				return run()
			case s == "yield" && (len(a) == 2 || len(a) == 3):
				if state != 1 || running {
					return rfail()
				}
				if len(a) == 3 {
					p.sent = a[2]
				}
				return run()
			}
			return rfail()
		}
		return ok(c)
	})
}

func nameOf(a []rv, n int) rv {
	if len(a) == n {
		return a[1]
	}
	return nil
}
