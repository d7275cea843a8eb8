package props

import (
	"fmt"
	"iter"
	"math"
	"sort"
	"strconv"
	"strings"

	"helena/core"
	"verifharness/hx"
)

// A reference interpreter: it evaluates syntax trees directly, in direct style,
// with processes as Go coroutines. It is written from the language rules and shares
// no code with the interpreter under test.

// rv is a reference value: rNil bool int64 float64 string rList rTuple rDict *rScript rQual *rCmd *rSpec.
type rv = any
type rNil struct{}
type rList struct{ v []rv }
type rTuple struct{ v []rv }
type rDict struct{ m map[string]rv }
type rScript struct {
	src   *string
	ss    []rsent
	valid int // 0 unknown 1 valid 2 invalid
}
type rQual struct {
	src  rv
	sels []rsel
}
type rsel struct {
	kind byte // [ ( {
	vals []rv
}
type rCmd struct {
	name   string
	exec   func(in *rint, sc *rscope, args []rv) rres
	key    func(name rv) rres // namespaces are key-selectable
	nolead bool               // cannot be called through a prefix
}

// rE stands for the text of an error raised by a command: not compared.
const rE = "\x00E"

const (
	cOK = iota
	cReturn
	cYield
	cError
	cBreak
	cContinue
	cPass
)

var rcodes = []string{"ok", "return", "yield", "error", "break", "continue", "custom:pass"}

type rres struct {
	code int
	v    rv
}

func ok(v rv) rres { return rres{cOK, v} }
func rerr() rres   { return rres{cError, rE} }
func (r rres) String() string {
	return rcodes[r.code] + " " + rrepr(r.v)
}

type rctx struct {
	parent *rctx
	consts map[string]rv
	vars   map[string]rv
	cmds   map[string]*rCmd
}
type rscope struct {
	ctx    *rctx
	locals map[string]rv // a name with a nil value is declared but unset
}

func newRctx(parent *rctx) *rctx {
	return &rctx{parent, map[string]rv{}, map[string]rv{}, map[string]*rCmd{}}
}
func (s *rscope) child() *rscope { return &rscope{ctx: newRctx(s.ctx)} }
func (s *rscope) local(l map[string]rv) *rscope {
	return &rscope{ctx: s.ctx, locals: l}
}
func (s *rscope) get(name string) (rv, bool) {
	if v, ok := s.locals[name]; ok {
		return v, v != nil
	}
	if v, ok := s.ctx.consts[name]; ok {
		return v, true
	}
	v, ok := s.ctx.vars[name]
	return v, ok
}
func (s *rscope) command(name string) *rCmd {
	for c := s.ctx; c != nil; c = c.parent {
		if x := c.cmds[name]; x != nil {
			return x
		}
	}
	return nil
}

var subCommand = map[string]bool{"list": true, "dict": true, "string": true, "tuple": true, "script": true, "argspec": true}

type rproc struct {
	in    *rint
	next  func() (rv, bool)
	stop  func()
	yf    func(rv) bool
	sent  rv
	final rres
	done  bool
}
type rFuel struct{}
type rAbandon struct{}

type rint struct {
	root  *rscope
	cur   *rproc
	procs []*rproc
	fuel  int
	depth int
	trace [][]rv
	rules bool           // generic selectors are supported
	only  bool           // commands are resolved by name only
	hits  map[string]int // commands executed by name, and other features reached
	// number of nested process runs (host stack depth)
	nest int
}

func newRint(fuel int) *rint {
	in := &rint{fuel: fuel, hits: map[string]int{}}
	in.root = &rscope{ctx: newRctx(nil)}
	return in
}

func (in *rint) close() {
	for i := len(in.procs) - 1; i >= 0; i-- {
		in.procs[i].stop()
	}
}

// start prepares a process.
func (in *rint) start(body func() rres) *rproc {
	p := &rproc{in: in}
	p.next, p.stop = iter.Pull(func(yield func(rv) bool) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(rAbandon); !ok {
					panic(x)
				}
			}
		}()
		p.yf = yield
		p.final = body()
	})
	in.procs = append(in.procs, p)
	return p
}

// run runs the process until it yields or ends.
func (p *rproc) run() rres {
	if p.done {
		return p.final
	}
	old, depth := p.in.cur, p.in.depth
	p.in.cur = p
	p.in.nest++
	v, more := p.next()
	p.in.nest--
	p.in.cur, p.in.depth = old, depth
	if more {
		return rres{cYield, v}
	}
	p.done = true
	return p.final
}

func (in *rint) yield(v rv) rv {
	p := in.cur
	p.sent = v
	if p == nil {
		panic("yield outside of a process")
	}
	if !p.yf(v) {
		panic(rAbandon{})
	}
	return p.sent
}

// once runs a nested process that may not yield; a yield is reported as its code.
func (in *rint) once(body func() rres) rres {
	p := in.start(body)
	r := p.run()
	p.stop()
	return r
}

// ---- conversions

func rstr(v rv) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case bool:
		return strconv.FormatBool(x), true
	case int64:
		return strconv.FormatInt(x, 10), true
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64), true
	case *rScript:
		if x.src != nil {
			return *x.src, true
		}
	}
	return "", false
}
func rbool(v rv) (bool, bool) {
	if b, ok := v.(bool); ok {
		return b, true
	}
	s, ok := rstr(v)
	return s == "true", ok && (s == "true" || s == "false")
}
func rinteger(v rv) (int64, bool) {
	if i, ok := v.(int64); ok {
		return i, true
	}
	s, ok := rstr(v)
	if !ok {
		return 0, false
	}
	i, err := strconv.ParseInt(s, 10, 64)
	return i, err == nil
}
func rfloat(v rv) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int64:
		return float64(x), true
	}
	s, ok := rstr(v)
	if !ok {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil
}
func rnum(f float64) rv {
	if f == math.Trunc(f) && f >= -9223372036854775808 && f < 9223372036854775808 {
		return int64(f)
	}
	return f
}

// rarray gives the elements of a list, tuple or literal block.
func rarray(v rv) ([]rv, bool) {
	switch x := v.(type) {
	case rList:
		return x.v, true
	case rTuple:
		return x.v, true
	case *rScript:
		if !rvalid(x) {
			return nil, false
		}
		e := &rev{in: &rint{fuel: 1000000}, sc: nil}
		out := []rv{}
		for _, s := range x.ss {
			ws, bad := e.words(s.words)
			if bad != nil {
				return nil, false
			}
			out = append(out, ws...)
		}
		return out, true
	}
	return nil, false
}
func rmap(v rv) (map[string]rv, bool) {
	if d, ok := v.(rDict); ok {
		return d.m, true
	}
	vs, ok := rarray(v)
	if !ok || len(vs)%2 != 0 {
		return nil, false
	}
	m := map[string]rv{}
	for i := 0; i < len(vs); i += 2 {
		k, ok := rstr(vs[i])
		if !ok {
			return nil, false
		}
		m[k] = vs[i+1]
	}
	return m, true
}

// ---- display for messages, and comparison with real values

func rrepr(v rv) string {
	list := func(o string, vs []rv, c string) string {
		p := []string{}
		for _, x := range vs {
			p = append(p, rrepr(x))
		}
		return o + strings.Join(p, " ") + c
	}
	switch x := v.(type) {
	case nil:
		return "<go-nil>"
	case rNil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return "i" + strconv.FormatInt(x, 10)
	case float64:
		return "r" + hx.FloatRepr(x)
	case string:
		if strings.Contains(x, rE) {
			return "<message>"
		}
		return strconv.Quote(x)
	case rList:
		return list("L[", x.v, "]")
	case rTuple:
		return list("T(", x.v, ")")
	case rDict:
		keys := []string{}
		for k := range x.m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		p := []string{}
		for _, k := range keys {
			p = append(p, strconv.Quote(k)+":"+rrepr(x.m[k]))
		}
		return "D{" + strings.Join(p, " ") + "}"
	case *rScript:
		if x.src != nil {
			return "S" + strconv.Quote(*x.src)
		}
		return "S<...>"
	case rQual:
		s := "Q<" + rrepr(x.src)
		for _, y := range x.sels {
			switch y.kind {
			case '[':
				s += list("[", y.vals, "]")
			case '(':
				s += list("(", y.vals, ")")
			case '{':
				s += list("{", y.vals, "}")
			}
		}
		return s + ">"
	case *rCmd:
		return "<command>"
	case *rSpec:
		return "<custom argspec>"
	}
	return fmt.Sprintf("<%T>", v)
}

// rsame tells whether a reference value and a real value are equal.
func rsame(a rv, b core.Value) bool {
	all := func(x []rv, y []core.Value) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !rsame(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case rNil:
		return b == core.NIL
	case bool:
		y, ok := b.(core.BooleanValue)
		return ok && y.Value == x
	case int64:
		y, ok := b.(core.IntegerValue)
		return ok && y.Value == x
	case float64:
		y, ok := b.(core.RealValue)
		return ok && hx.FloatRepr(y.Value) == hx.FloatRepr(x)
	case string:
		y, ok := b.(core.StringValue)
		return ok && (y.Value == x || strings.Contains(x, rE))
	case rList:
		y, ok := b.(core.ListValue)
		return ok && all(x.v, y.Values)
	case rTuple:
		y, ok := b.(core.TupleValue)
		return ok && all(x.v, y.Values)
	case rDict:
		y, ok := b.(core.DictionaryValue)
		if !ok || len(y.Map) != len(x.m) {
			return false
		}
		for k, v := range x.m {
			w, ok := y.Map[k]
			if !ok || !rsame(v, w) {
				return false
			}
		}
		return true
	case *rScript:
		y, ok := b.(core.ScriptValue)
		if !ok || (x.src == nil) != (y.Source == nil) {
			return false
		}
		if x.src != nil && *x.src != *y.Source {
			return false
		}
		if len(x.ss) != len(y.Script.Sentences) {
			return false
		}
		for i, s := range x.ss {
			if len(s.words) != len(y.Script.Sentences[i].Words) {
				return false
			}
			for j, w := range s.words {
				if c := y.Script.Sentences[i].Words[j]; w.val != nil && (c.Value == nil || !rsame(w.val, c.Value)) {
					return false
				}
			}
		}
		return true
	case rQual:
		y, ok := b.(core.QualifiedValue)
		if !ok || !rsame(x.src, y.Source) || len(x.sels) != len(y.Selectors) {
			return false
		}
		for i, s := range x.sels {
			switch z := y.Selectors[i].(type) {
			case core.IndexedSelector:
				if s.kind != '[' || !rsame(s.vals[0], z.Index) {
					return false
				}
			case core.KeyedSelector:
				if s.kind != '(' || !all(s.vals, z.Keys) {
					return false
				}
			case core.GenericSelector:
				if s.kind != '{' || !all(s.vals, z.Rules) {
					return false
				}
			case markRules:
				if s.kind != '{' || !all(s.vals, z.rules) {
					return false
				}
			default:
				return false
			}
		}
		return true
	case *rCmd:
		_, ok := b.(core.CommandValue)
		return ok
	case *rSpec:
		y, ok := b.(core.CustomValue)
		return ok && y.CustomType().Name == "argspec"
	}
	return false
}

// rsameRes compares results.
func rsameRes(r rres, o core.Result) bool {
	return rcodes[r.code] == hx.CodeName(o) && rsame(r.v, o.Value)
}

// ---- word structure

type wkind int

const (
	wRoot wkind = iota
	wCompound
	wSubst
	wQual
	wIgnored
	wInvalid
)

func isSel(m *rnode) bool { return m.kind == "tuple" || m.kind == "block" || m.kind == "expr" }

// wordKind classifies a word: one root, a compound of text, expressions and
// substitutions, one substitution, or a name with selectors.
func wordKind(w *rword) wkind {
	ms := w.ms
	if len(ms) == 0 {
		return wInvalid
	}
	switch ms[0].kind {
	case "str", "here", "tag":
		if len(ms) == 1 {
			return wRoot
		}
		return wInvalid
	case "lc", "bc":
		if len(ms) == 1 {
			return wIgnored
		}
		return wInvalid
	}
	if len(ms) == 1 && ms[0].kind != "sub" {
		return wRoot
	}
	if ms[0].kind == "lit" || ms[0].kind == "tuple" || ms[0].kind == "block" {
		q := true
		for _, m := range ms[1:] {
			q = q && isSel(m)
		}
		if q {
			return wQual
		}
		if ms[0].kind != "lit" {
			return wInvalid
		}
	}
	// stems
	stems, tuples := 0, false
	for i := 0; i < len(ms); {
		stems++
		switch ms[i].kind {
		case "lit", "expr":
			i++
		case "sub":
			for i < len(ms) && ms[i].kind == "sub" {
				i++
			}
			if i >= len(ms) {
				if stems == 1 && len(ms) > 1 || stems > 1 {
					return wInvalid
				}
				return wInvalid
			}
			switch ms[i].kind {
			case "tuple":
				tuples = true
			case "lit", "block", "expr":
			default:
				return wInvalid
			}
			i++
			for i < len(ms) && isSel(ms[i]) {
				i++
			}
		default:
			return wInvalid
		}
	}
	if tuples && stems > 1 {
		return wInvalid
	}
	if ms[0].kind == "sub" && stems == 1 {
		return wSubst
	}
	return wCompound
}

// rvalid tells whether every word of a script that is evaluated with it is well-formed.
func rvalid(s *rScript) bool {
	if s.valid == 0 {
		s.valid = 2
		if validSents(s.ss) {
			s.valid = 1
		}
	}
	return s.valid == 1
}
func validSents(ss []rsent) bool {
	for _, s := range ss {
		for _, w := range s.words {
			if w.val == nil && !validWord(w) {
				return false
			}
		}
	}
	return true
}
func validWord(w *rword) bool {
	k := wordKind(w)
	if k == wInvalid {
		return false
	}
	if k == wIgnored {
		return true
	}
	for i, m := range w.ms {
		switch m.kind {
		case "tuple", "expr":
			if !validSents(m.sub) {
				return false
			}
		case "block":
			// as a selector its rules are evaluated; as a value or a name it is not
			if i > 0 && w.ms[i-1].kind != "sub" && !validSents(m.sub) {
				return false
			}
		case "str":
			if !validStems(m.ms) {
				return false
			}
		}
	}
	return true
}
func validStems(ms []*rnode) bool {
	for i, m := range ms {
		switch m.kind {
		case "tuple", "expr":
			if !validSents(m.sub) {
				return false
			}
		case "block":
			if i > 0 && ms[i-1].kind != "sub" && !validSents(m.sub) {
				return false
			}
		}
	}
	return true
}

// ---- evaluation

type rev struct {
	in     *rint
	sc     *rscope // nil: literal evaluation, nothing can be resolved
	res    rv
	frames []rv
	last   *rCmd
}

func (in *rint) newEv(sc *rscope) *rev {
	return &rev{in: in, sc: sc, res: rNil{}, frames: []rv{rNil{}}}
}

// evalScript evaluates a script in a scope.
func (in *rint) evalScript(sc *rscope, s *rScript) rres {
	if !rvalid(s) {
		return rerr()
	}
	if in.depth++; in.depth > 400 {
		panic(rFuel{})
	}
	defer func() { in.depth-- }()
	e := in.newEv(sc)
	if _, x := e.expr(s.ss); x != nil {
		return *x
	}
	return ok(e.res)
}

// evalArgs evaluates one sentence made of values.
func (in *rint) evalArgs(sc *rscope, args []rv) rres {
	if in.depth++; in.depth > 400 {
		panic(rFuel{})
	}
	defer func() { in.depth-- }()
	e := in.newEv(sc)
	if x := e.call(append([]rv{}, args...)); x != nil {
		return *x
	}
	return ok(e.res)
}

func (e *rev) open()       { e.frames = append(e.frames, rNil{}) }
func (e *rev) shut()       { e.frames = e.frames[:len(e.frames)-1] }
func fail() (rv, *rres)    { r := rerr(); return nil, &r }
func (e *rev) fail() *rres { r := rerr(); return &r }

// expr evaluates sentences in order; the value is that of the last command.
func (e *rev) expr(ss []rsent) (rv, *rres) {
	if len(ss) == 0 {
		return rNil{}, nil
	}
	for _, s := range ss {
		e.open()
		args, x := e.words(s.words)
		if x != nil {
			return nil, x
		}
		e.shut()
		if x := e.call(args); x != nil {
			return nil, x
		}
	}
	return e.res, nil
}

func (e *rev) call(args []rv) *rres {
	if e.in.fuel--; e.in.fuel < 0 {
		panic(rFuel{})
	}
	for len(args) > 0 {
		if e.sc == nil {
			return e.fail()
		}
		c := e.in.resolve(e.sc, args[0])
		if c == nil {
			return e.fail()
		}
		if n, is := args[0].(string); is {
			e.in.hits[n]++
			if len(args) > 2 {
				if sub, is := args[2].(string); is && subCommand[n] {
					e.in.hits[n+" "+sub]++
				}
			}
		}
		prev := e.last
		e.last = c
		if c == cmdLast {
			return nil
		}
		if c == cmdPipe {
			if len(args) < 2 || prev == c {
				return nil
			}
			args[0], args[1] = args[1], e.frames[len(e.frames)-1]
			continue
		}
		r := c.exec(e.in, e.sc, args)
		if r.code != cOK {
			return &r
		}
		e.res = r.v
		e.frames[len(e.frames)-1] = r.v
		return nil
	}
	return nil
}

func (in *rint) resolve(sc *rscope, v rv) *rCmd {
	if in.only {
		if s, good := rstr(v); good {
			return sc.command(s)
		}
		return nil
	}
	switch x := v.(type) {
	case rTuple:
		return cmdPrefix
	case *rCmd:
		return x
	case int64, float64:
		return cmdNumber
	}
	s, ok := rstr(v)
	if !ok {
		return nil
	}
	if c := sc.command(s); c != nil {
		return c
	}
	if _, err := strconv.ParseFloat(s, 64); err == nil {
		return cmdNumber
	}
	return nil
}

// words evaluates words left to right, expanding tuples where requested.
func (e *rev) words(ws []*rword) (out []rv, x *rres) {
	out = []rv{}
	for _, w := range ws {
		if w.val != nil {
			out = append(out, w.val)
			continue
		}
		switch k := wordKind(w); k {
		case wRoot:
			v, x := e.root(w.ms[0])
			if x != nil {
				return nil, x
			}
			out = append(out, v)
		case wCompound:
			v, x := e.join(w.ms)
			if x != nil {
				return nil, x
			}
			out = append(out, v)
		case wSubst:
			v, n, x := e.chain(w.ms)
			if x != nil {
				return nil, x
			}
			if n != len(w.ms) {
				panic("chain")
			}
			if t, ok := v.(rTuple); ok && w.ms[0].exp {
				out = append(out, t.v...)
			} else {
				out = append(out, v)
			}
		case wQual:
			var q rv
			switch m := w.ms[0]; m.kind {
			case "lit", "block":
				q = m.val
			case "tuple":
				v, x := e.tuple(m.sub)
				if x != nil {
					return nil, x
				}
				q = v
			}
			q = rQual{src: q}
			for _, m := range w.ms[1:] {
				if q, x = e.sel(q, m); x != nil {
					return nil, x
				}
			}
			out = append(out, q)
		case wIgnored:
		default:
			return nil, e.fail()
		}
	}
	return out, nil
}

func (e *rev) tuple(ss []rsent) (rv, *rres) {
	vs, x := e.flat(ss)
	if x != nil {
		return nil, x
	}
	return rTuple{vs}, nil
}

func (e *rev) flat(ss []rsent) ([]rv, *rres) {
	vs := []rv{}
	e.open()
	for _, s := range ss {
		ws, x := e.words(s.words)
		if x != nil {
			return nil, x
		}
		vs = append(vs, ws...)
	}
	e.shut()
	return vs, nil
}

func (e *rev) root(m *rnode) (rv, *rres) {
	switch m.kind {
	case "lit", "here", "tag":
		return m.val, nil
	case "tuple":
		return e.tuple(m.sub)
	case "block":
		src := m.val
		return &rScript{src: &src, ss: m.sub}, nil
	case "expr":
		return e.expr(m.sub)
	case "str":
		return e.join(m.ms)
	}
	panic("root " + m.kind)
}

func (e *rev) join(ms []*rnode) (rv, *rres) {
	e.open()
	var vs []rv
	for i := 0; i < len(ms); {
		switch ms[i].kind {
		case "lit":
			vs = append(vs, ms[i].val)
			i++
		case "expr":
			v, x := e.expr(ms[i].sub)
			if x != nil {
				return nil, x
			}
			vs = append(vs, v)
			i++
		case "sub":
			v, n, x := e.chain(ms[i:])
			if x != nil {
				return nil, x
			}
			vs = append(vs, v)
			i += n
		default:
			panic("stem " + ms[i].kind)
		}
	}
	e.shut()
	var b strings.Builder
	for _, v := range vs {
		s, ok := rstr(v)
		if !ok {
			return fail()
		}
		b.WriteString(s)
	}
	return b.String(), nil
}

// chain evaluates a substitution: marks, source, selectors.
func (e *rev) chain(ms []*rnode) (v rv, n int, x *rres) {
	for ms[n].kind == "sub" {
		n++
	}
	marks := n
	m := ms[n]
	n++
	switch m.kind {
	case "lit", "block":
		v, x = e.in.lookup(e.sc, m.val)
	case "tuple":
		if v, x = e.tuple(m.sub); x == nil {
			v, x = e.in.lookup(e.sc, v)
		}
	case "expr":
		v, x = e.expr(m.sub)
	default:
		panic("chain " + m.kind)
	}
	for x == nil && n < len(ms) && isSel(ms[n]) {
		v, x = e.sel(v, ms[n])
		n++
	}
	for i := 1; x == nil && i < marks; i++ {
		v, x = e.in.lookup(e.sc, v)
	}
	return
}

// lookup resolves a name, a tuple of names or a qualified name.
func (in *rint) lookup(sc *rscope, v rv) (rv, *rres) {
	switch x := v.(type) {
	case rTuple:
		out := []rv{}
		for _, y := range x.v {
			z, bad := in.lookup(sc, y)
			if bad != nil {
				return nil, bad
			}
			out = append(out, z)
		}
		return rTuple{out}, nil
	case rQual:
		y, bad := in.lookup(sc, x.src)
		for _, s := range x.sels {
			if bad != nil {
				break
			}
			y, bad = rselect(y, s)
		}
		return y, bad
	}
	name, ok := rstr(v)
	if !ok || sc == nil {
		return fail()
	}
	if y, ok := sc.get(name); ok {
		return y, nil
	}
	return fail()
}

func (e *rev) sel(v rv, m *rnode) (rv, *rres) {
	switch m.kind {
	case "expr":
		i, x := e.expr(m.sub)
		if x != nil {
			return nil, x
		}
		if _, isNil := i.(rNil); isNil {
			return fail()
		}
		return rselect(v, rsel{'[', []rv{i}})
	case "tuple":
		ks, x := e.flat(m.sub)
		if x != nil {
			return nil, x
		}
		if len(ks) == 0 {
			return fail()
		}
		return rselect(v, rsel{'(', ks})
	case "block":
		rules := []rv{}
		e.open()
		for _, s := range m.sub {
			e.open()
			ws, x := e.words(s.words)
			if x != nil {
				return nil, x
			}
			e.shut()
			rules = append(rules, rTuple{ws})
		}
		e.shut()
		if !e.in.rules || len(rules) == 0 {
			return fail()
		}
		return rselect(v, rsel{'{', rules})
	}
	panic("selector " + m.kind)
}

// rselect applies a selector to a value.
func rselect(v rv, s rsel) (rv, *rres) {
	each := func(t rTuple) (rv, *rres) {
		out := []rv{}
		for _, y := range t.v {
			z, bad := rselect(y, s)
			if bad != nil {
				return nil, bad
			}
			out = append(out, z)
		}
		return rTuple{out}, nil
	}
	if q, isQ := v.(rQual); isQ {
		sels := append([]rsel{}, q.sels...)
		if n := len(sels); s.kind == '(' && n > 0 && sels[n-1].kind == '(' {
			sels[n-1] = rsel{'(', append(append([]rv{}, sels[n-1].vals...), s.vals...)}
		} else {
			sels = append(sels, s)
		}
		return rQual{q.src, sels}, nil
	}
	switch s.kind {
	case '[':
		switch x := v.(type) {
		case rTuple:
			return each(x)
		case rList:
			i, ok := rinteger(s.vals[0])
			if !ok || i < 0 || i >= int64(len(x.v)) {
				return fail()
			}
			return x.v[i], nil
		case string:
			i, ok := rinteger(s.vals[0])
			if !ok || i < 0 || i >= int64(len(x)) {
				return fail()
			}
			return x[i : i+1], nil
		}
	case '(':
		for _, k := range s.vals {
			switch x := v.(type) {
			case rTuple:
				y, bad := (func() (rv, *rres) { return eachKey(x, k) })()
				if bad != nil {
					return nil, bad
				}
				v = y
				continue
			case rDict:
				if key, ok := rstr(k); ok {
					if y, ok := x.m[key]; ok {
						v = y
						continue
					}
				}
			case *rCmd:
				if x.key != nil {
					if r := x.key(k); r.code == cOK {
						v = r.v
						continue
					}
				}
			case rQual:
				y, bad := rselect(v, rsel{'(', []rv{k}})
				if bad != nil {
					return nil, bad
				}
				v = y
				continue
			}
			return fail()
		}
		return v, nil
	case '{':
		if t, isT := v.(rTuple); isT {
			return each(t)
		}
		return rTuple{[]rv{"rules", rList{[]rv{v}}, rTuple{s.vals}}}, nil
	}
	return fail()
}

func eachKey(t rTuple, k rv) (rv, *rres) {
	out := []rv{}
	for _, y := range t.v {
		z, bad := rselect(y, rsel{'(', []rv{k}})
		if bad != nil {
			return nil, bad
		}
		out = append(out, z)
	}
	return rTuple{out}, nil
}
