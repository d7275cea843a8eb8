package props

import (
	"fmt"
	"runtime"
	"strings"

	"helena/core"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// A recursion context holds a computation (X, an expression statement giving an integer) and
// gives an integer: X plus k, or k alone.
type recCtx struct {
	src   string
	konst bool
	k     int64
}

var recCtxs = []recCtx{
	{"X", false, 0},
	{"idem [X]", false, 0},
	{"idem $[X]", false, 0},
	{"eval {X}", false, 0},
	{"eval (idem [X])", false, 0},
	{"+ 1 [X]", false, 1},
	{"[X] + 2", false, 2},
	{"- [X] 1", false, -1},
	{"set r [X]; idem $r", false, 0},
	{"set r [X]; + $r 3", false, 3},
	{"if true {X}", false, 0},
	{"if false {} else {X}", false, 0},
	{"if false {} elseif true {X}", false, 0},
	{"if {X; idem true} {+ 5}", true, 5},
	{"if {set r [X]; idem true} {idem $r}", false, 0},
	{"if false {} elseif {set r [X]; idem false} {} else {idem $r}", false, 0},
	{"when {true {X}}", false, 0},
	{"when {false {} {X}}", false, 0},
	{"when {{idem false} {} true {X}}", false, 0},
	{"when {{set r [X]; idem true} {+ 1 $r}}", false, 1},
	{"when idem {false {} true {X}}", false, 0},
	{"list (1) foreach e {X}", false, 0},
	{"list (1 2 3) foreach i e {if [string $e == 3] {X} else {idem 0}}", false, 0},
	{"list (1 2) foreach e {set r [X]; break}; idem $r", false, 0},
	{"dict (a 1) foreach (k v) {X}", false, 0},
	{"loop e [list (1)] {X}", false, 0},
	{"loop i {set r [X]; break}; idem $r", false, 0},
	{"loop i {if [$i == 0] {set r [X]; continue}; break}; idem $r", false, 0},
	{"loop v {set r [X]; break} {}; idem $r", false, 0},
	{"loop v [[closure (i) {set r [X]; break}]] {}; idem $r", false, 0},
	{"while true {set r [X]; break}; idem $r", false, 0},
	{"while {set r [X]; idem false} {}; idem $r", false, 0},
	{"if [&& {set r [X]; idem true} true] {idem $r}", false, 0},
	{"if [|| {set r [X]; idem false} false] {} else {idem $r}", false, 0},
	{"if [! {set r [X]; idem true}] {} else {idem $r}", false, 0},
	{"true ? [X]", false, 0},
	{"((idem)) [X]", false, 0},
	{"(idem [X])", false, 0},
	{"X\n|> idem", false, 0},
	{"X\n^", false, 0},
	{"[[closure () {X}]]", false, 0},
	{"[[macro () {X}]]", false, 0},
	{"[[proc () {X}]]", false, 0},
	{"[[proc () {return [X]}]]", false, 0},
	{"[[closure (x) {+ 1 $x}]] [X]", false, 1},
	{"[[macro ((int x)) {idem $x}]] [X]", false, 0},
	{"[[proc (?x *y) {idem $x}]] [X]", false, 0},
	{"[namespace {}] eval {X}", false, 0},
	{"[scope {}] eval {X}", false, 0},
	{"[namespace {macro s () {X}}] call s", false, 0},
	{"[namespace {closure s () {X}}] call s", false, 0},
	{"[namespace {proc s () {X}}] call s", false, 0},
	{"[ensemble () {macro s () {X}}] call s", false, 0},
	{"ensemble ee (v) {closure s (v) {X}}; ee 1 s", false, 0},
	{"[scope {proc s () {X}}] call s", false, 0},
	{"[[alias zz ([[closure () {X}]])]]", false, 0},
	{"set l [list ([X])]; idem $l[0]", false, 0},
	{"list ([X] 2) at 0", false, 0},
	{"string \"[X]\" append \"\"; + 6", true, 6},
	{"get nope [X]", false, 0},
}

// RecFn is one command of a recursion cycle.
type RecFn struct {
	Kind string // macro closure proc alias ns ens
	Ctx  []int  // contexts, outermost first
	Ret  bool   // explicit return (procs)
}

// RecCase is a cycle of commands calling each other.
type RecCase struct {
	Fns   []RecFn
	Base  string // value error yield
	Depth int
	Stack bool
}

func drawRec(t *rapid.T) RecCase {
	c := RecCase{Base: pick(t, "base", []string{"value", "value", "value", "error", "yield"}), Depth: pick(t, "depth", []int{150, 400, 400, 1500, 1500, 5000, 20000}), Stack: chance(t, "stack", 25)}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
		f := RecFn{Kind: pick(t, "kind", []string{"macro", "closure", "proc", "alias", "ns", "ens", "ens1", "value"})}
		for j, m := 0, rapid.IntRange(0, 3).Draw(t, "nc"); j < m; j++ {
			f.Ctx = append(f.Ctx, rapid.IntRange(0, len(recCtxs)-1).Draw(t, "ctx"))
		}
		f.Ret = f.Kind == "proc" && chance(t, "ret", 30)
		c.Fns = append(c.Fns, f)
		for _, x := range f.Ctx {
			if s := recCtxs[x].src; strings.Contains(s, "[[") || strings.Contains(s, "{X}] call") || strings.Contains(s, "eval {X}") || strings.Contains(s, "ensemble") || strings.Contains(s, "call s") {
				// scopes nest as deep as the recursion, and resolving a name walks them all
				c.Depth = min(c.Depth, 1500)
			}
		}
	}
	return c
}

// recCall is how function i is called.
func recCall(f RecFn, i int) string {
	switch f.Kind {
	case "ns":
		return fmt.Sprintf("n%d f%d", i, i)
	case "ens":
		return fmt.Sprintf("e%d f%d", i, i)
	case "ens1":
		return fmt.Sprintf("e%d 1 f%d", i, i)
	case "alias":
		return fmt.Sprintf("a%d", i)
	case "value":
		return fmt.Sprintf("(f%d)", i)
	}
	return fmt.Sprintf("f%d", i)
}

func (c RecCase) source() string {
	var b strings.Builder
	for i, f := range c.Fns {
		x := recCall(c.Fns[(i+1)%len(c.Fns)], (i+1)%len(c.Fns))
		for j := len(f.Ctx) - 1; j >= 0; j-- {
			x = strings.ReplaceAll(recCtxs[f.Ctx[j]].src, "X", x)
		}
		if f.Ret {
			x = "return [" + x + "]"
		}
		base := map[string]string{"value": "depth", "error": "depth; error deep", "yield": "depth; yield 1; depth"}[c.Base]
		body := "{if [more] {" + x + "} else {" + base + "}}"
		name := fmt.Sprintf("f%d", i)
		switch f.Kind {
		case "macro", "closure", "proc":
			fmt.Fprintf(&b, "%s %s () %s\n", f.Kind, name, body)
		case "value":
			fmt.Fprintf(&b, "closure %s () %s\n", name, body)
		case "alias":
			fmt.Fprintf(&b, "closure %s (v) %s; alias a%d (%s 1)\n", name, body, i, name)
		case "ns":
			fmt.Fprintf(&b, "namespace n%d {proc %s () %s}\n", i, name, body)
		case "ens":
			fmt.Fprintf(&b, "ensemble e%d () {closure %s () %s}\n", i, name, body)
		case "ens1":
			fmt.Fprintf(&b, "ensemble e%d (v) {macro %s (v) %s}\n", i, name, body)
		}
	}
	b.WriteString(recCall(c.Fns[0], 0))
	return b.String()
}

// expected value of the recursion entered with n levels left.
func (c RecCase) expect(n int) int64 {
	v := int64(7)
	for l := n - 1; l >= 0; l-- {
		f := c.Fns[l%len(c.Fns)]
		for j := len(f.Ctx) - 1; j >= 0; j-- {
			x := recCtxs[f.Ctx[j]]
			if x.konst {
				v = x.k
			} else {
				v += x.k
			}
		}
	}
	return v
}

func runRec(c RecCase, rec *h.Rec) error {
	src := c.source()
	once := func(n int) (frames int, err error) {
		sc := hx.NewOpt(c.Stack, c.Stack)
		left := n
		pcs := make([]uintptr, 200000)
		sc.RegisterNamedCommand("more", hx.Func(func([]core.Value, any) core.Result {
			if left == 0 {
				return core.OK(core.FALSE)
			}
			left--
			return core.OK(core.TRUE)
		}))
		sc.RegisterNamedCommand("depth", hx.Func(func([]core.Value, any) core.Result {
			frames = max(frames, runtime.Callers(0, pcs))
			return core.OK(core.INT(7))
		}))
		script, err := hx.Parse(src)
		if err != nil {
			return 0, fmt.Errorf("harness: %v in %s", err, src)
		}
		p := sc.PrepareProcess(sc.Compile(script))
		r := p.Run()
		if c.Base == "yield" {
			if r.Code != core.ResultCode_YIELD || hx.Repr(r.Value) != `"1"` {
				return 0, fmt.Errorf("%s\ndepth %d: got %s %s, expected yield 1", src, n, hx.CodeName(r), hx.Repr(r.Value))
			}
			p.YieldBack(core.INT(1))
			r = p.Run()
		}
		want := fmt.Sprintf("ok i%d", c.expect(n))
		if c.Base == "error" {
			want = `error "deep"`
		}
		if got := hx.CodeName(r) + " " + hx.Repr(r.Value); got != want {
			return 0, fmt.Errorf("%s\ndepth %d: got %s, expected %s", src, n, got, want)
		}
		return frames, nil
	}
	k := len(c.Fns)
	small := 4*k + c.Depth%k
	f0, err := once(small)
	if err != nil {
		return err
	}
	f1, err := once(c.Depth)
	if err != nil {
		return err
	}
	if f1 > f0+30 {
		return fmt.Errorf("%s\nthe host call stack grows with the recursion: %d frames at depth %d, %d at depth %d", src, f0, small, f1, c.Depth)
	}
	for _, f := range c.Fns {
		rec.Label(f.Kind)
	}
	rec.Label(c.Base)
	rec.NonTrivial(src)
	return nil
}

// IterCase is a long iteration.
type IterCase struct {
	Loop int
	Ctx  []int
	N    int
}

var iterLoops = []string{
	"loop i {if [$i == N] {break}; mark $i; X}",
	"set i 0; while {$i < N} {mark $i; X; set i [+ $i 1]}",
	"list [iota] foreach e {mark $e; X}",
	"loop e [iota] {mark $e; X}",
	"loop e [[macro (i) {if [$i == N] {break}; idem $i}]] {mark $e; X}",
	"loop i {if [$i == N] {break}; mark $i; X; continue}",
	"set co [coroutine {loop i {if [$i == N] {break}; mark $i; yield [X]}}]; while {! [$co done]} {$co wait}",
	"dict [dkeys] foreach i (k v) {mark $i; X}",
	"loop i {if [$i == N] {break}; mark $i; catch {X} return v {} ; catch {error a; X} error m {X}}",
	"loop i {if [$i == N] {break}; mark $i; set co [coroutine {X; yield 1; X}]; $co wait}",
	"loop i {if [$i == N] {break}; mark $i; set co [coroutine {X; if true {list (1 2) foreach e {X; [[closure (y) {yield $y; X}]] $e}}}]; $co wait; $co wait; set p $co}",
	"set prev {}; loop i {if [$i == N] {break}; mark $i; set r [closure (x) {X; idem $x}]; [$r] $i; set d [dict (a $i b [$r])]; X; set prev [list ($i)]}",
	"loop i {if [$i == N] {break}; mark $i; catch {X; yield [list ($i)]; X} yield v {X}; catch {list (1 2) foreach e {X; yield $e}} yield v {X}}",
	"loop i {if [$i == N] {break}; mark $i; scope {proc g () {X}; g}; namespace {set a 1}; X; list (3 1 2) sort [[macro (a b) {- $a $b}]]; parse a; argspec (a ?b); alias q idem; q [X]}",
	"loop i {if [$i == N] {break}; mark $i; set c [coroutine {X; yield [X]; X}]; while {! [$c done]} {$c wait}; unset c}",
	"loop i {if [$i == N] {break}; mark $i; catch {loop j {X; error x}}; catch {list (1 2) foreach e {X; error x}}; catch {while true {X; return 1}}}",
	"loop i {if [$i == N] {break}; mark $i; eval [parse \"idem v$i; value\"]; if true [parse \"value; idem $i\"]; catch [parse \"error e$i\"]; X}",
	"loop i {if [$i == N] {break}; mark $i; [[macro (a) [parse \"value; idem \\$a\"]]] $i; [[proc (a) [parse \"value; return \\$a\"]]] $i; set co [coroutine [parse \"value; yield $i; value\"]]; $co wait; $co wait; X}",
	"loop i {if [$i == N] {break}; mark $i; set v$i $i; get v$i; unset v$i; get w$i none; exists v$i; catch {get v$i}; catch {v$i}; X}",
	"loop i {if [$i == N] {break}; mark $i; proc p (a b$i) {X; idem $a}; p $i 1; ensemble e (a$i) {macro s (a) {idem $a}}; e 1 s; namespace n {macro s () {X}}; n s; dict (k$i $i) add l$i $i; list ($i) append ($i)}",
}

func drawIter(t *rapid.T) IterCase {
	c := IterCase{Loop: rapid.IntRange(0, len(iterLoops)-1).Draw(t, "loop"), N: 4000}
	for j, m := 0, rapid.IntRange(1, 3).Draw(t, "nc"); j < m; j++ {
		c.Ctx = append(c.Ctx, rapid.IntRange(0, len(recCtxs)-1).Draw(t, "ctx"))
	}
	return c
}

func runIter(c IterCase, rec *h.Rec) error {
	x := "value"
	for j := len(c.Ctx) - 1; j >= 0; j-- {
		x = strings.ReplaceAll(recCtxs[c.Ctx[j]].src, "X", x)
	}
	src := strings.ReplaceAll(strings.ReplaceAll(iterLoops[c.Loop], "X", x), "N", fmt.Sprint(c.N))
	sc := hx.New()
	var heaps []uint64
	var frames []int
	marks, values := 0, 0
	pcs := make([]uintptr, 100000)
	sc.RegisterNamedCommand("mark", hx.Func(func([]core.Value, any) core.Result {
		if marks == c.N/4 || marks == c.N-1 {
			var m runtime.MemStats
			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			heaps = append(heaps, m.HeapAlloc)
			frames = append(frames, runtime.Callers(0, pcs))
		}
		marks++
		return core.OK(core.NIL)
	}))
	sc.RegisterNamedCommand("value", hx.Func(func([]core.Value, any) core.Result {
		values++
		return core.OK(core.INT(7))
	}))
	sc.RegisterNamedCommand("iota", hx.Func(func([]core.Value, any) core.Result {
		vs := make([]core.Value, c.N)
		for i := range vs {
			vs[i] = core.INT(int64(i))
		}
		return core.OK(core.LIST(vs))
	}))
	sc.RegisterNamedCommand("dkeys", hx.Func(func([]core.Value, any) core.Result {
		d := map[string]core.Value{}
		for i := range c.N {
			d[fmt.Sprint(i)] = core.INT(int64(i))
		}
		return core.OK(core.DICT(d))
	}))
	r, err := hx.Run(sc, src)
	if err != nil {
		return fmt.Errorf("harness: %v in %s", err, src)
	}
	if r.Code != core.ResultCode_OK || marks != c.N || values < c.N {
		return fmt.Errorf("%s\ngot %s %s after %d of %d iterations (%d values)", src, hx.CodeName(r), hx.Repr(r.Value), marks, c.N, values)
	}
	if len(frames) != 2 || frames[1] > frames[0] {
		return fmt.Errorf("%s\nthe host call stack grows with the iterations: %v frames", src, frames)
	}
	if grown, n := int64(heaps[1])-int64(heaps[0]), int64(c.N-1-c.N/4); grown > 40*n {
		return fmt.Errorf("%s\nmemory grows by %d bytes over %d iterations", src, grown, n)
	}
	rec.Labelf("loop %d", c.Loop)
	rec.NonTrivial(src)
	return nil
}

func init() {
	h.Reg("P24", "recursion", "cycles of one to three mutually recursive commands (macros, closures, procedures, aliases, namespace and ensemble subcommands, tuples) calling each other through up to three nested contexts each, down to a value, an error or a yield: exact result, and as many host frames at full depth (150 to 20000 levels) as at depth 4; non-trivial: always", 2000, 60000, drawRec, runRec)
	h.Reg("P24", "iteration", "iterations of 4000 rounds over every loop construct with nested contexts in the body: complete, no host frame and less than 40 bytes retained per round; non-trivial: always", 240, 10000, drawIter, runIter)
}
