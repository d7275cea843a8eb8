package props

import (
	"fmt"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// runOptions compares a session under the four combinations of capture options with the
// reference interpreter, which has none of them.
func runOptions(s session, r *h.Rec) error {
	var st diffStats
	good := true
	for i := 0; i < 4; i++ {
		pos, stack := i&1 != 0, i&2 != 0
		var err error
		parse := hx.Parse
		if pos {
			parse = hx.ParsePos
		}
		st, good, err = diffSessionParse(s, diffFuel, func() *hd.Scope { return hx.NewOpt(pos, stack) }, parse, nil)
		if !good {
			r.Label("discarded: too long")
			return nil
		}
		if err != nil {
			return fmt.Errorf("with positions=%v error stack=%v:\n%v", pos, stack, err)
		}
	}
	label(r, st)
	if st.errs+st.hits["catch"] > 0 && st.calls >= 3 {
		r.NonTrivial(strings.Join(s.Scripts, "\n"))
	}
	return nil
}

// ---- error stacks

// StackFrame is an expected level: the words of a call and where it is written.
type StackFrame struct {
	Words    []string // their representation; nil: a substitution failed, no call
	Off      int      // byte offset in the script, -1: not written in the source
	Optional bool     // calls made by the implementation of a subcommand
	seg      int      // 0: in the text under construction, else definition
}

// StackCase is a script which fails after Yields yields, with the calls then active.
type StackCase struct {
	Src    string
	Yields int
	Frames []StackFrame
}

type stackGen struct {
	t      *rapid.T
	text   string
	frames []StackFrame
	defs   []string
	uniq   int
	yields int
	tail   bool
}

func (g *stackGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *stackGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *stackGen) fresh(p string) string    { g.uniq++; return fmt.Sprintf("%s%d", p, g.uniq) }

// put places the text after pre and before post.
func (g *stackGen) put(pre, post string) {
	for i := range g.frames {
		if g.frames[i].seg == 0 && g.frames[i].Off >= 0 {
			g.frames[i].Off += len(pre)
		}
	}
	g.text = pre + g.text + post
}

func srepr(src string) string { return hx.Repr(core.NewScriptValue(core.Script{}, src)) }

// call makes the current text a block argument of a call: words before, the block, words after;
// each is "source" or "source=>representation".
func (g *stackGen) call(before, after []string) {
	g.body()
	frame := StackFrame{}
	split := func(w string) string {
		src, rep, has := strings.Cut(w, "=>")
		switch {
		case has:
			frame.Words = append(frame.Words, rep)
		case strings.HasPrefix(src, "{"):
			frame.Words = append(frame.Words, srepr(src[1:len(src)-1]))
		default:
			frame.Words = append(frame.Words, hx.Repr(core.STR(src)))
		}
		return src
	}
	pre := ""
	for _, w := range before {
		pre += split(w) + g.pick(" ", " ", "  ", "\t")
	}
	frame.Words = append(frame.Words, srepr(g.text))
	post := "}"
	for _, w := range after {
		post += g.pick(" ", "  ") + split(w)
	}
	g.put(pre+"{", post)
	g.frames = append(g.frames, frame)
}

// define moves the current text into a definition; the text becomes the call.
func (g *stackGen) define(pre, post, call string, words ...string) {
	g.defs = append(g.defs, "")
	k := len(g.defs)
	g.put(pre, post)
	g.defs[k-1] = g.text
	for i := range g.frames {
		if g.frames[i].seg == 0 {
			g.frames[i].seg = k
		}
	}
	g.text = call
	g.frames = append(g.frames, StackFrame{Words: words})
}

func q(s string) string { return hx.Repr(core.STR(s)) }

// noise is something that succeeds, on one sentence.
func (g *stackGen) noise() string {
	switch g.n(0, 9) {
	case 0:
		return "idem 1"
	case 1:
		return "idem [idem a] [idem 1; idem b]"[:13]
	case 2:
		return "catch {error caught} error e {idem $e}"
	case 3:
		return "catch {okm; nocmd at all} error e {}"
	case 4:
		return "okm"
	case 5:
		return "okp x [okc]"
	case 6:
		return "if [idem true] {okm} else {error no}"
	case 7:
		return "loop i {if [$i >= 2] {break}; okm}"
	case 8:
		return "# comment é"
	case 9:
		if g.yields < 2 && !g.tail {
			return "idem \"日本\""
		}
		return "idem \"a b\""
	}
	return ""
}

func (g *stackGen) sep() string { return g.pick("; ", "\n", " ;\n\t", "\n\n  ") }

// around puts sentences before and after.
func (g *stackGen) around() {
	for i, n := 0, g.n(0, 2); i < n; i++ {
		s := g.noise()
		sep := g.sep()
		if strings.HasPrefix(s, "#") {
			sep = "\n"
		}
		g.put(s+sep, "")
	}
	for i, n := 0, g.n(0, 1); i < n; i++ {
		s := g.noise()
		if strings.HasPrefix(s, "#") {
			s += "\n"
		}
		g.put("", g.sep()+s)
	}
}

// body makes the text ready for a block.
func (g *stackGen) body() {
	if chance(g.t, "around", 50) {
		g.around()
	}
	if chance(g.t, "space", 30) {
		g.put(g.pick(" ", "\n  ", "\t", "\n\n"), g.pick("", " ", "\n"))
	}
}

func (g *stackGen) fail() {
	f := StackFrame{}
	cmd := func(ws ...string) {
		g.text = strings.Join(ws, " ")
		for _, w := range ws {
			f.Words = append(f.Words, q(w))
		}
	}
	switch g.n(0, 11) {
	case 0, 1, 2:
		cmd("error", g.fresh("msg"))
	case 3:
		cmd("nocmd", "1")
	case 4:
		cmd("idem", "1", "2")
	case 5:
		g.text = "+ 1  [idem 5] abc"
		f.Words = []string{q("+"), q("1"), q("5"), q("abc")}
	case 6:
		pre := g.pick("idem ", "okp [okc] ", "idem \"a ")
		g.text = pre + "$nv"
		if strings.Contains(pre, `"`) {
			g.text += " b\""
		}
		f.Off = len(pre)
		f.Words = nil
	case 7:
		g.text = "list  (1 [idem 2]) at 7"
		f.Words = []string{q("list"), `T("1" "2")`, q("at"), q("7")}
	case 8:
		g.text = "boom $*[idem (a b)] {c}"
		f.Words = []string{q("boom"), q("a"), q("b"), srepr("c")}
	case 9:
		g.text = "okp 1 2 3"
		f.Words = []string{q("okp"), q("1"), q("2"), q("3")}
	case 10:
		g.text = "set (x y) (1)"
		f.Words = []string{q("set"), `T("x" "y")`, `T("1")`}
	case 11:
		g.text = "[okc] foo"
		f.Words = []string{q("okc"), q("foo")}
	}
	g.frames = append(g.frames, f)
}

func (g *stackGen) wrap() {
	switch g.n(0, 29) {
	case 0, 1:
		g.around()
	case 2:
		// nested expression: no call is active around it
		if chance(g.t, "more", 40) {
			g.around()
		}
		x := g.pick("idem [", "idem a[", "okp [okc] [", "idem [idem 1; ", "set x [", "idem \"é [", "idem ([", "idem ((a) [", "$[list (a b)][", "idem $[dict (a b)]([", "idem {x}[", "[", "list (1 2) at [")
		post := "]"
		if strings.Contains(x, `"`) {
			post += ` z"`
		}
		post += strings.Repeat(")", strings.Count(x, "(")-strings.Count(x, ")"))
		g.put(x, post+g.pick("", " tail"))
	case 3:
		g.call([]string{"if", "true"}, nil)
	case 4:
		g.call([]string{"if", "[idem false]=>" + q("false"), "{idem x}", "else"}, nil)
	case 5:
		g.call([]string{"if", "false", "{idem x}", "elseif", "{idem true}"}, []string{"else", "{error no}"})
	case 6:
		g.call([]string{"if"}, []string{"{}"})
	case 7:
		g.call([]string{"while", "true"}, nil)
	case 8:
		g.call([]string{"while"}, []string{"{idem body}"})
	case 9:
		i := g.fresh("i")
		g.put("if [$"+i+" < "+g.pick("1", "2")+"] {"+g.pick("continue", "idem x; continue")+"}"+g.sep(), "")
		g.call([]string{"loop", i}, nil)
	case 10:
		v := g.fresh("v")
		g.put("if [string $"+v+" != b] {okm; continue}"+g.sep(), "")
		g.call([]string{"loop", v, "[list (a b c)]=>L[\"a\" \"b\" \"c\"]"}, nil)
	case 11:
		v := g.fresh("v")
		g.put("if [string $"+v+" != b] {okm; continue}"+g.sep(), "")
		g.call([]string{"list", "(a b)=>T(\"a\" \"b\")", "foreach", v}, nil)
	case 12:
		g.call([]string{"dict", "(a b)=>T(\"a\" \"b\")", "foreach", "(k v)=>T(\"k\" \"v\")"}, nil)
	case 13:
		if chance(g.t, "yields", 30) {
			g.yields++
			g.put("yield [idem "+g.fresh("y")+"]"+g.sep(), "")
		}
		g.call([]string{"eval"}, nil)
	case 14:
		if g.yields > 0 {
			// so would the catch
			return
		}
		g.call([]string{"catch"}, [][]string{{"return", "r", "{idem no}"}, {"finally", "{okm; idem [okc]}"}, {"error", "e", "{pass}"}, {"error", "e", "{pass}", "finally", "{okm}"}}[g.n(0, 3)])
	case 15:
		g.call([]string{"catch", "{okm; error caught}", "error", "e"}, nil)
	case 16:
		g.call([]string{"catch", g.pick("{return r}", "{return [okc]}"), "return", "r"}, [][]string{nil, {"finally", "{idem x}"}}[g.n(0, 1)])
	case 17:
		g.call([]string{"catch", g.pick("{okm}", "{error e}", "{break}"), "finally"}, nil)
	case 18:
		g.call([]string{g.pick("scope", "namespace")}, nil)
	case 19:
		if chance(g.t, "and", 50) {
			g.call([]string{"&&", "true"}, []string{"false"})
		} else {
			g.call([]string{"||", "{idem false}"}, nil)
		}
	case 20:
		g.call([]string{"!"}, nil)
	case 21:
		// when: the tests and bodies are in one block
		g.body()
		pre := g.pick("{false {error no} true {", "{{", "{{idem false} {} {")
		post := map[string]string{"{false {error no} true {": "}}", "{{": "} {}}", "{{idem false} {} {": "}}"}[pre]
		g.put(pre, post)
		words := []string{q("when"), srepr(g.text[1 : len(g.text)-1])}
		g.put("when ", "")
		g.frames = append(g.frames, StackFrame{Words: words})
	case 22, 23, 24:
		m := g.fresh("m")
		kind := g.pick("macro", "closure", "proc")
		g.body()
		if kind == "proc" {
			// a procedure does not see the variables of the others
		}
		switch g.n(0, 4) {
		case 0:
			g.define(kind+" "+m+" {} {", "}", m, q(m))
		case 1:
			g.define(kind+" "+m+" {a ?b *c} {", "}", m+" [idem 5] {x}", q(m), q("5"), srepr("x"))
		case 2:
			g.define("alias "+m+" ([["+kind+" {a *b} {", "}]] x)", m+" y", q(m), q("y"))
		case 3:
			g.define("set "+m+" ["+kind+" {?a} {", "}]; closure get"+m+" {} {idem $"+m+"}", "[[get"+m+"]] z", "<command>", q("z"))
		case 4:
			g.define(kind+" "+m+" {a} {", "}", "("+m+" [idem x])", "T("+q(m)+" "+q("x")+")")
		}
	case 25:
		m := g.fresh("m")
		g.body()
		kind := g.pick("macro", "closure")
		if chance(g.t, "arg", 50) {
			g.define("ensemble "+m+" {a} {"+kind+" sub {x *y} {", "}}", m+" 1 sub 2", q(m), q("1"), q("sub"), q("2"))
		} else {
			g.define("ensemble "+m+" {} {"+kind+" sub {*y} {", "}}", m+" sub", q(m), q("sub"))
		}
	case 26:
		if g.yields > 0 {
			// the coroutine would yield instead
			return
		}
		g.body()
		g.put("[coroutine {", "}] wait")
		g.frames = append(g.frames, StackFrame{Words: []string{"<command>", q("wait")}})
	case 27:
		if g.yields > 0 {
			return
		}
		c := g.fresh("c")
		g.body()
		g.define("set "+c+" [coroutine {idem 1; yield 1"+g.sep(), "}]; $"+c+" wait; closure "+c+" {} {idem $"+c+"}", "["+c+"] wait", "<command>", q("wait"))
	case 28:
		m := g.fresh("n")
		g.body()
		g.define("namespace "+m+" {macro go {x} {", "}}", m+" go 1", q(m), q("go"), q("1"))
		// a level for the inner call
		k := len(g.frames) - 1
		g.frames = append(g.frames[:k:k], StackFrame{Words: []string{"<command>", q("1")}, Off: -1, Optional: true, seg: 0}, g.frames[k])
	case 29:
		g.call([]string{"[scope {}]=><command>", "eval"}, nil)
	}
}

func drawStack(t *rapid.T) StackCase {
	g := &stackGen{t: t}
	g.fail()
	for i, n := 0, g.n(0, 7); i < n; i++ {
		g.wrap()
	}
	if chance(t, "around", 50) {
		g.around()
	}
	if chance(t, "yields", 30) {
		g.yields++
		g.put("idem [yield a]"+g.sep(), "")
	}
	pre := "set v a; macro okm {} {idem ok}; proc okp {a b} {idem $b}; closure okc {} {idem okc}"
	offs := []int{0}
	for _, d := range g.defs {
		pre += g.sep()
		offs = append(offs, len(pre))
		pre += d
	}
	pre += g.sep()
	offs[0] = len(pre)
	c := StackCase{Src: pre + g.text, Yields: g.yields}
	for _, f := range g.frames {
		if f.Off >= 0 {
			f.Off += offs[f.seg]
		}
		c.Frames = append(c.Frames, f)
	}
	return c
}

func runStack(c StackCase, r *h.Rec) error {
	for i := 0; i < 5; i++ {
		pos, stack := i&1 != 0, i&2 != 0
		parse := hx.Parse
		if pos {
			parse = hx.ParsePos
		}
		script, err := parse(c.Src)
		if err != nil {
			return fmt.Errorf("%v in\n%s", err, c.Src)
		}
		sc := hx.NewOpt(pos, stack)
		if i == 4 {
			sc = hx.New() // no options: nothing is captured
		}
		sc.RegisterNamedCommand("boom", hx.Func(func([]core.Value, any) core.Result { return core.ERROR("boom") }))
		p := sc.PrepareProcess(sc.Compile(script))
		res := p.Run()
		for y := 0; res.Code == core.ResultCode_YIELD && y < c.Yields; y++ {
			res = p.Run()
		}
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s\npositions=%v error stack=%v: %s", c.Src, pos, stack, fmt.Sprintf(f, a...))
		}
		if res.Code != core.ResultCode_ERROR {
			return fail("the script ends with %s instead of an error", hx.Out(res))
		}
		es, has := res.Data.(*core.ErrorStack)
		if !stack {
			if has {
				return fail("there is an error stack without capture")
			}
			continue
		}
		if !has {
			return fail("there is no error stack")
		}
		got := []string{}
		var levels []core.ErrorStackLevel
		for l := uint(0); l < es.Depth(); l++ {
			levels = append(levels, es.Level(l))
			got = append(got, showLevel(es.Level(l)))
		}
		show := "\ngot stack:\n" + strings.Join(got, "\n") + "\nexpected:\n"
		for _, f := range c.Frames {
			show += fmt.Sprintln(f.Off, f.Words, f.Optional)
		}
		k := 0
		for j, f := range c.Frames {
			if k >= len(levels) {
				if f.Optional {
					continue
				}
				return fail("level %d is missing: %v%s", j, f.Words, show)
			}
			err := sameLevel(c.Src, f, levels[k], pos)
			if err != nil && f.Optional {
				continue
			}
			if err != nil {
				return fail("level %d: %v%s", k, err, show)
			}
			k++
		}
		if k < len(levels) {
			return fail("%d levels too many%s", len(levels)-k, show)
		}
	}
	r.Labelf("levels %d", len(c.Frames))
	r.Labelf("yields %d", c.Yields)
	for _, f := range c.Frames {
		if len(f.Words) > 0 {
			r.Label("level " + f.Words[0])
		}
	}
	if len(c.Frames) >= 2 {
		r.NonTrivial(c.Src)
	}
	return nil
}

func showLevel(l core.ErrorStackLevel) string {
	s := ""
	if l.Position != nil {
		s = fmt.Sprintf("%d:%d(%d)", l.Position.Line, l.Position.Column, l.Position.Index)
	}
	if l.Frame != nil {
		for _, x := range *l.Frame {
			s += " " + hx.Repr(x)
		}
	}
	return s
}

func sameLevel(src string, f StackFrame, l core.ErrorStackLevel, pos bool) error {
	if f.Words != nil {
		if l.Frame == nil {
			return fmt.Errorf("no words")
		}
		ws := []string{}
		for _, x := range *l.Frame {
			ws = append(ws, hx.Repr(x))
		}
		if a, b := strings.Join(ws, " "), strings.Join(f.Words, " "); a != b {
			return fmt.Errorf("words %s instead of %s", a, b)
		}
	}
	if !pos || f.Off < 0 {
		if l.Position != nil && (!pos || !f.Optional) {
			return fmt.Errorf("unexpected position")
		}
		return nil
	}
	if l.Position == nil {
		return fmt.Errorf("no position")
	}
	want := core.SourcePosition{Index: uint(f.Off)}
	for _, c := range []byte(src[:f.Off]) {
		if want.Column++; c == '\n' {
			want.Line++
			want.Column = 0
		}
	}
	if *l.Position != want {
		return fmt.Errorf("position %+v instead of %+v", *l.Position, want)
	}
	return nil
}

func init() {
	p := baseProfile()
	p.codes, p.defs, p.calls, p.yields, p.coros = 6, 6, 14, 2, 2
	h.Reg("P19", "invariance", "sessions under the four combinations of position and error stack capture, each compared with the reference interpreter (results, trace, variables); non-trivial: an error or a catch and three traced calls", 24000, 800000,
		func(t *rapid.T) session { return drawSession(t, p) }, runOptions)
	h.Reg("P19", "stacks", "failing commands wrapped in up to seven constructs (expressions, blocks, loops at a later turn, handlers, user commands, ensembles, coroutines, suspended programs) with random layout: the words and positions of each level, known by construction, under the four combinations of capture; non-trivial: at least two active calls", 40000, 1500000,
		drawStack, runStack)
}
