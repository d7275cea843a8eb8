package props

import (
	"fmt"
	"regexp"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// FuzzCase is a session over the whole vocabulary, then ordinary scripts.
type FuzzCase struct {
	Pos, Stack bool
	Scripts    []string
	Sends      []string
	After      session
}

// sentences by command; capitals stand for argument kinds (see fuzzGen.arg).
var fuzzVocab = strings.Split(strings.TrimSpace(`
set V X; get V; get V X; exists V; let c X; unset V; get P; set P P; let P P; unset P; get $q; get Q X; exists Q; set v[0] X
idem X; return X; error X; yield X; pass; break; continue; eval K; eval $s; eval P; return; yield; idem
help H; help H X; help list X; help H X X; help help
^; ^; |> ; |> C; |> C X; |> list length; |> (string S) append; |> + N; |> X X
if B K; if B K else K; if B K elseif B K else K; if B K elseif B K; if K K else K
when {}; when W; when C W; when (idem) W; when X
catch K; catch K return v K; catch K yield v K; catch K error v K finally K; catch K break K continue K; catch K finally K; catch K pass K; catch K error v K return v K finally K
while_; loop_
true B; false B; true ? X X; false ? X X; true ! ?; bool B; true subcommands; false ?; bool
! B; && B B; || B B; && B K B; || B K; ! K; && K
+ N N; - N N; * N N; / N N; + N; - N; * N N N; / N N N; + N N N N
N + N; N - N; N * N; N / N; N == N; N != N; N > N; N >= N; N < N; N <= N; N + N - N * N / N; N
int N; real N; int N + N; real N * N; int; real; int X
string S; string S length; string S at I; string S at I X; string S range I; string S range I I; string S append S S; string S remove I I; string S insert I S; string S replace I I S
string S == S; string S != S; string S > S; string S >= S; string S < S; string S <= S; string; string S at
list L; list L length; list L at I; list L at I X; list L range I; list L range I I; list L append L L; list L remove I I; list L insert I L; list L replace I I L; list L sort; list L sort C; list L sort {fuel; idem 1}
list L foreach e K; list L foreach i e K; list L foreach P K; list; list L foreach
dict D; dict D size; dict D has S; dict D get S; dict D get S X; dict D get P; dict D get P X; dict D add S X; dict D remove S S; dict D remove; dict D merge D D; dict D keys; dict D values; dict D entries
dict D foreach e K; dict D foreach i e K; dict D foreach P K; dict D foreach (k v) K; dict
tuple P; tuple P length; tuple P at I; tuple P at I X; tuple
parse S; parse "fuel; idem 1"; script K; script $s length; script $s append K; script $s split; script S append S; script; script K append K K
argspec A; argspec A usage; argspec A set P; argspec A set L; [argspec A] usage; [argspec A] set P; argspec; argspec $q set (1 2 3)
macro M A K; macro A K; closure M A K; closure A K; proc M A K; proc A K; proc M (A (int)) K; macro (M) A K
alias G C; alias G (C X); alias G P; [alias G C] X; alias G
scope K; scope M K; namespace K; namespace M K; [scope {[fuel]; set v X; macro go A K}] eval K; [scope K] call go X X; [namespace {[fuel]; macro go A K}] call go X; [namespace {macro go A K}] import go; [namespace {macro go A K}] import go G
[scope K] subcommands; [namespace K] subcommands; [namespace {set v X}] eval {get v}; [scope {}] X X
ensemble E A {}; ensemble E A K; ensemble {} {}; ensemble E {} {macro go A K}; ensemble E A {macro go A K; closure run A K}; E X go X X; E go X; E X X go X; [E] eval K; [E] call go X X; [E] argspec; E X; E X subcommands; [ensemble A {macro go A K}] X go X; [ensemble (a) {ensemble in (b) {macro go A K}}] call in X X go
[list] eval {[fuel]; macro mine A K}; list L mine X; [string] eval {macro mine A K}; string S mine; [dict] eval {macro mine A K}; dict D mine X; [tuple] eval {closure mine A K}; tuple P mine; [script] eval {proc mine A K}; [argspec] eval {macro mine A K}; argspec A mine; [true] X; [int] X; [real] X; [list] subcommands; [list] argspec; [dict] call size D; [list] call length L; [list] call X X
coroutine K; [coroutine K] wait; [coroutine K] active; [coroutine K] done; [coroutine K] yield X; set co [coroutine K]; $co wait; $co yield X; $co active; $co done; $co X; $co wait X
[closure A K] call X; [macro A K] call X X; [proc A K] call X; [closure A K] X; [macro A K] subcommands; C X X; C; C call X; C X; M X; M X X; M; M X X X
module K; module M K; module M {[fuel]; export go; macro go A K}; [module {export go; macro go A K}] import go; [module {export go; closure go A K}] exports; [module {export go}] import go G; import S; import S L; import S S; export S; import host:m (mine)
regexp QuoteMeta S; regexp Compile R; regexp CompilePOSIX R; regexp FindAllString [regexp Compile R] S I; regexp FindAllStringIndex [regexp Compile R] S I; regexp FindAllStringSubmatch [regexp Compile R] S I; regexp FindAllStringSubmatchIndex [regexp Compile R] S I
regexp FindString [regexp Compile R] S; regexp FindStringSubmatch [regexp Compile R] S; regexp FindStringIndex [regexp Compile R] S; regexp FindStringSubmatchIndex [regexp Compile R] S; regexp LiteralPrefix [regexp Compile R]; regexp Longest [regexp Compile R]; regexp MatchString [regexp Compile R] S
regexp NumSubexp [regexp Compile R]; regexp ReplaceAllLiteralString [regexp Compile R] S S; regexp ReplaceAllString [regexp Compile R] S S; regexp Split [regexp Compile R] S I; regexp String [regexp Compile R]; regexp SubexpIndex [regexp Compile R] S; regexp SubexpNames [regexp Compile R]; regexp X X X; regexp
os ReadFile S; os X; os ReadFile
$X; $v; $$v; $v[I]; $v(S); $v(S S)[I]; $v{X}; $P; $q; $[idem X][I]; $[idem X](S); $(v w); $"v"; ${v}; X; X X; X X X; P; P X; L X; "[idem X]$v"; idem a[I](S){X}; idem $*v; idem $*L; *P; $*s
`), "\n")

var fuzzList = func() (out []string) {
	for _, l := range fuzzVocab {
		for _, s := range strings.Split(l, ";") {
			// sentences inside blocks of the table keep their semicolons
			if n := len(out); n > 0 && strings.Count(out[n-1], "{") > strings.Count(out[n-1], "}") {
				out[n-1] += "; " + strings.TrimSpace(s)
				continue
			}
			if s = strings.TrimSpace(s); s != "" {
				out = append(out, s)
			}
		}
	}
	return
}()

type fuzzGen struct {
	t     *rapid.T
	depth int
	left  int
	// in a sentence that defines a command
	naming bool
}

var fuzzDefiners = regexp.MustCompile(`\b(alias|macro|closure|proc|ensemble|scope|namespace|module|import)\b`)

func (g *fuzzGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *fuzzGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }
func (g *fuzzGen) chance(p int) bool        { return chance(g.t, "chance", p) }

// block is a body whose evaluations are counted, so that nothing runs forever.
func (g *fuzzGen) block() string {
	if g.depth > 3 || g.left <= 0 {
		return "{[fuel]; " + g.pick("idem 1", "idem $v", "break", "error e", "yield y", "return r", "continue", "pass", "") + "}"
	}
	g.depth++
	defer func() { g.depth-- }()
	out := []string{"[fuel]"}
	for i, n := 0, g.n(1, 3); i < n; i++ {
		out = append(out, g.sentence())
	}
	return "{" + strings.Join(out, "; ") + "}"
}

var fuzzInts = []string{"0", "1", "-1", "2", "3", "5", "-5", "100", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "4611686018427387904", "1e3", "1.5", "-0", "08", "+1"}
var fuzzNums = []string{"0", "1", "2.5", "-3", "1e308", "-1e308", "1e-320", "9223372036854775807", "-9223372036854775808", "NaN", "Inf", "-Inf", "0x10", "1_000", "[int 3]", "[real 2.5]", "[/ 0 0]", "[/ 1 0]"}
var fuzzStrs = []string{`""`, "abc", `"a b"`, "é", `"日本語"`, `"\xff\x00"`, "value", `"{"`, `"["`, `"$v"`, "k", "0", "true", `"a\nb"`, "v", "nope"}
var fuzzSpecs = []string{"()", "{}", "a", "(a)", "(a b)", "(a ?b)", "(?a b)", "(?a 1? b)", "((?b 2) a)", "(a *b)", "*a", "(*a b)", "(*a)", "{a {?b 2}}", "((int a))", "((list a) b)", "((nope a))", "(?(int a 3))", "(-o ?a?)", "(a ?-o? b)", "({-o --opt} c)", "(?-f? ?b? *r)", "((?{-f --flag}?) x)", "(-o *a)", "(?-o? ?b? *c)", "[argspec (a ?b)]", "(a a)", "(?)", "((? a))", "(*)", "(())", "((a b c d))", "(a 1)", "$w", "[list (a b)]", "(?a [error x])", "((?a {fuel; error d}) b)", "((?a {[fuel]; yield d}) b)"}

func (g *fuzzGen) arg(k byte) string {
	if g.chance(12) {
		if g.naming {
			// built-in commands keep their names, and no command is its own alias
			if strings.IndexByte("MGEAPLS", k) >= 0 {
				return g.closed()
			}
		} else {
			k = 'X'
		}
	}
	switch k {
	case 'I':
		return g.pick(fuzzInts...)
	case 'N':
		return g.pick(fuzzNums...)
	case 'B':
		return g.pick("true", "false", "[true]", `"true"`, g.block(), "{fuel; idem true}", "[idem false]", "1", "yes", "{}", "[break]")
	case 'S':
		return g.pick(fuzzStrs...)
	case 'R':
		return g.pick(`"a+(b)?"`, `"(a|b)*c"`, `"[a-c]+"`, `"("`, `"(?P<n>a)"`, `"^$"`, `""`, `"a**"`, `"\\\\d{2,3}"`, `"[["`, "é", `"\xff"`)
	case 'L':
		return g.pick("()", "(1 2 3)", "[list (c a b)]", "[list ()]", "(a (b c) {d})", "{a b}", "{}", "$l", "$w", "(1 [list (2)] [dict (a b)])", "[list (3 2 1) sort]", "(() [])")
	case 'D':
		return g.pick("()", "(a 1)", "(a 1 b 2)", "[dict (a 1)]", "$d", "[dict (k (1 2))]", "(a)", "(() 1)", "{a 1}", "(a 1 a 2)", "([] 1)")
	case 'P':
		return g.pick("()", "(a)", "(a b)", "((a b) c)", "(v w)", "(() (()))", "$w", "(1 2)", "(a[0] b)", "([] [])", "*(a b)", "(*$w)", "(a $l)", "((v))")
	case 'K':
		if g.chance(75) {
			return g.block()
		}
		return g.pick("$s", "{}", "{[fuel]}", "abc", "[parse \"fuel; idem 2\"]")
	case 'W':
		return g.pick("{B K B K}", "{B K K}", "(B K)", "{X K}", "(1 2 3)", "{(idem true) K}")
	case 'A':
		return g.pick(fuzzSpecs...)
	case 'V':
		return g.pick("v", "w", "l", "c", "nv", "(v w)", `""`, "s")
	case 'C':
		return g.pick("idem", "list", "(list (1 2))", "(string abc)", "[closure (a) {[fuel]; idem $a}]", "[macro {*a} {[fuel]; idem $a}]", "$cmd", "[list]", "[dict]", "(idem x y)", "((idem))", "(+ 1)", "[[closure {} {fuel}]]", "fuel", "nocmd", "[namespace {}]", "set", "()", "(() a)", "error", "yield", "break", "[coroutine {[fuel]; yield a; idem b}]", "help", "[ensemble {} {}]", "exists")
	case 'M':
		return g.pick("f", "g", "m")
	case 'G':
		return g.pick("al", "al2")
	case 'E':
		return g.pick("en", "en2")
	case 'H':
		return g.pick("set", "list", "dict", "string", "if", "while", "loop", "catch", "macro", "f", "g", "en", "al", "int", "1", "true", "bool", "when", "argspec", "$cmd", "(list (1))", "[list]", "[closure {} {}]", "nocmd", "()", "[error x]", "scope", "namespace", "coroutine", "module", "import", "tuple", "script", "parse", "help", "regexp", "os", "^", "|>", "[namespace {macro go {a} {}}]", "[scope {}]", "go", "&&", "!", "+", "(idem)", "(en x)")
	case 'Q':
		return g.pick("v[0]", "v(a)", "l[1]", "d(a)", "(l w)[1]", "d(a)[0]", "v{r}", "l[9223372036854775807]", "d(nope)", "w[-1]", "l[x]", "(v nope)", "d(a b)", "l[0][0]", "w(a)", "q(1)", "$v[0]", "[idem v][1]", "l[]", "d()")
	}
	// any value
	switch g.n(0, 19) {
	case 0:
		return g.pick("[]", "[idem]", "$[]", "[list ()]", "[dict ()]", "()", "{}")
	case 1, 2:
		return g.pick(fuzzStrs...)
	case 3, 4:
		return g.pick(fuzzInts...)
	case 5:
		return g.arg('N')
	case 6:
		return g.arg('L')
	case 7:
		return g.arg('D')
	case 8:
		return g.arg('P')
	case 9:
		return g.block()
	case 10, 11:
		return g.arg('C')
	case 12:
		return g.arg('Q')
	case 13:
		return g.pick("$v", "$w", "$l", "$d", "$s", "$q", "$cmd", "$co", "$nv", "$$v", "$l[0]", "$d(a)", "$e", "$i", "$a", "$c")
	case 14:
		return g.pick("[argspec (a ?b)]", "[[regexp Compile a+]]", "[regexp Compile a+]", "[coroutine {[fuel]; yield 1}]", "[module {}]", "[scope {}]", "[namespace {macro go {} {[fuel]}}]", "[ensemble (a) {macro go {a} {[fuel]; idem $a}}]", "[script {a b}]", "[parse \"a b\"]", "[parse \"\"]")
	case 15:
		if g.depth < 3 && g.left > 0 {
			g.depth++
			defer func() { g.depth-- }()
			return "[" + g.sentence() + "]"
		}
		return "[idem x]"
	case 16:
		return g.pick("*(a b)", "*()", "$*w", "$*l", "*{a b}", "$*[list (1 2)]", "*[idem (x y)]", "$*d")
	case 17:
		return g.pick("\"[idem $v]\"", "a$[idem b]c", "\"$l\"", "pre$w", "\"\"\"raw\"\"\"", "\"\"T\nx\nT\"\"", "#{c}#", "a[1]", "a(b)", "a{c}", "(a b)[1]", "(a b)(k)", "a[1](b){c}")
	case 18:
		return g.pick("elseif", "else", "finally", "error", "return", "yield", "in", "subcommands", "call", "eval", "length", "at", "==", "--", "?", "-o", "*", "-f")
	}
	return g.pick("true", "false", "x", "é")
}

func (g *fuzzGen) expand(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		// argument kinds are single capitals standing alone
		alone := (i == 0 || !isAlpha(s[i-1])) && (i+1 == len(s) || !isAlpha(s[i+1]))
		if alone && strings.IndexByte("XINBSRLDPKWAVCMGEHQ", c) >= 0 {
			a := g.arg(c)
			if c == 'W' {
				a = g.expand(a)
			}
			b.WriteString(a)
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

// closed values cannot keep a loop going
func (g *fuzzGen) closed() string {
	return g.pick("1", "x", "()", "(1 2)", "[list (1 2)]", "[dict (a 1)]", "true", "[]", "\"\"", "(a b)")
}

func (g *fuzzGen) sentence() string {
	g.left--
	s := pick(g.t, "sentence", fuzzList)
	switch s {
	case "while_":
		body := g.block()
		if g.chance(8) {
			body = g.closed()
		}
		return "while " + g.pick("true", "{[fuel]; idem true}", g.block(), g.closed()) + g.pick(" ", " ", " ", " x ", " 1 2 ") + body
	case "loop_":
		out := "loop"
		for i, n := 0, g.n(0, 5); i < n; i++ {
			out += " " + g.pick("i", "v", "(a b)", "(1 2 3)", "[list (1 2)]", "[dict (a 1 b 2)]", "{[fuel]; idem x}", "idem", "(idem x)", "[coroutine {[fuel]; yield 1; idem 2}]", "$cmd", "$l", "$d", "[]", "5", "(break)", "(error x)", "()", "[closure {*a} {[fuel]; yield x}]", "$w")
		}
		if g.chance(5) {
			return out + " " + g.closed()
		}
		return out + " " + g.block()
	}
	outer := g.naming
	g.naming = fuzzDefiners.MatchString(s)
	defer func() { g.naming = outer }()
	words := splitWords(s)
	for i, w := range words {
		words[i] = g.expand(w)
	}
	// misuse: drop, repeat, swap, add
	if g.chance(15) && len(words) > 1 {
		i := g.n(1, len(words)-1)
		hi := 3
		if g.naming {
			hi = 1
			if chance(g.t, "more", 50) {
				return strings.Join(append(words, g.closed()), " ")
			}
		}
		switch g.n(0, hi) {
		case 0:
			words = append(words[:i:i], words[i+1:]...)
		case 1:
			if g.naming {
				words[i] = g.closed()
				break
			}
			words = append(words[:i:i], append([]string{words[i]}, words[i:]...)...)
		case 2:
			j := g.n(1, len(words)-1)
			words[i], words[j] = words[j], words[i]
		case 3:
			words = append(words, g.arg('X'))
		}
	}
	return strings.Join(words, " ")
}

// splitWords cuts a table sentence at the spaces outside brackets.
func splitWords(s string) (out []string) {
	depth, start := 0, 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ' ' && depth == 0 {
			if i > start {
				out = append(out, s[start:i])
			}
			start = i + 1
			continue
		}
		switch s[i] {
		case '[', '(', '{':
			depth++
		case ']', ')', '}':
			depth--
		}
	}
	return
}

func drawFuzz(t *rapid.T) FuzzCase {
	g := &fuzzGen{t: t, left: rapid.IntRange(3, 40).Draw(t, "size")}
	c := FuzzCase{Pos: rapid.Bool().Draw(t, "pos"), Stack: rapid.Bool().Draw(t, "stack")}
	for i, n := 0, g.n(1, 4); i < n; i++ {
		out := []string{}
		for j, m := 0, g.n(1, 4); j < m; j++ {
			s := g.sentence()
			if g.chance(30) {
				s = "catch {" + s + "} error e {[fuel]}"
			}
			out = append(out, s)
		}
		c.Scripts = append(c.Scripts, strings.Join(out, g.pick("\n", "; ")))
	}
	for i, n := 0, g.n(0, 4); i < n; i++ {
		c.Sends = append(c.Sends, g.pick("true", "false", "1", "s", ""))
	}
	p := baseProfile()
	p.budget, p.scripts = 25, 2
	c.After = drawSession(t, p)
	return c
}

const fuzzProbe = `set __a 0; macro __m {x ?y} {+ $__a $x}; proc __p {*z} {return [list $z length]}
loop __i __v [list (3 4)] {if true {set __a [__m $__v]}}
catch {while true {if [$__a > 7] {error "got $__a"}; set __a [+ $__a 1]}} error __e {set __r $__e}
list ($__r [__p 1 2] [string abc range 1] [dict (a 1) get a] "$__a $__r" [&& true {idem false}] [[coroutine {yield y; idem n}] wait] [closure (a) {idem $a}] ([when {false {} {idem w}}]))`

func runFuzz(c FuzzCase, r *h.Rec) error {
	sc := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: c.Pos, CaptureErrorStack: c.Stack})
	reg := hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: c.Pos, CaptureErrorStack: c.Stack})
	hd.InitCommandsForModule(sc, reg, "/nonexistent")
	fuel := 250
	f := hx.Func(func(a []core.Value, _ any) core.Result {
		if fuel--; fuel < 0 {
			return core.ERROR("no more fuel")
		}
		return core.OK(core.NIL)
	})
	sc.RegisterNamedCommand("fuel", f)
	ns := hd.NewRootScope(nil)
	ns.RegisterNamedCommand("mine", f)
	reg.Register("host:m", hd.NewModule(ns, &hd.Exports{"mine": core.STR("mine")}))
	sc.RegisterNamedCommand("regexp", go_regexp.RegexpCmd{})
	sc.RegisterNamedCommand("os", go_os.OsCmd{})
	pre := `set v a; set w (1 2); set l [list (1 2 3)]; set d [dict (a 1)]; set s {[fuel]; idem 7}; set q v[0]; set cmd [closure (a) {[fuel]; idem $a}]; set co [coroutine {[fuel]; yield 1; idem 2}]
macro f {a} {[fuel]; idem $a}; closure g {?a *b} {[fuel]; yield $b}; proc m {} {[fuel]; error x}; alias al (list (1 2)); alias al2 idem; ensemble en {} {macro go {} {[fuel]}}; ensemble en2 (a) {macro go {a b} {[fuel]; idem $b}}`
	if x := hx.Eval(sc, pre); x.Code != "ok" {
		return fmt.Errorf("prelude fails: %s", x)
	}
	seen := 0
	oks := 0
	var bad error
	parse := hx.Parse
	if c.Pos {
		parse = hx.ParsePos
	}
	realSessionWith(sc, parse, session{c.Scripts, c.Sends}, func(i int, x core.Result, parsed bool) {
		if !parsed {
			r.Label("parse error")
			return
		}
		seen++
		switch x.Code {
		case core.ResultCode_OK:
			oks++
		case core.ResultCode_RETURN, core.ResultCode_YIELD, core.ResultCode_BREAK, core.ResultCode_CONTINUE:
		case core.ResultCode_ERROR:
			if y, _ := core.ValueToString(x.Value); y.Code != core.ResultCode_OK && bad == nil {
				bad = fmt.Errorf("script %d: an error without message: %s", i, hx.Out(x))
			}
		default:
			if bad == nil && hx.CodeName(x) != "custom:pass" {
				bad = fmt.Errorf("script %d: irregular result: %s", i, hx.Out(x))
			}
		}
		if x.Value == nil && bad == nil {
			bad = fmt.Errorf("script %d: result without value, code %s", i, hx.CodeName(x))
		}
		if x.Value != nil {
			core.Display(x.Value, nil)
		}
		r.Label("result " + hx.CodeName(x))
	})
	if bad != nil {
		return bad
	}
	if fuel < 0 {
		r.Label("cut by fuel")
	}
	want := `L["got 8" i2 "bc" "1" "8 got 8" false "y" <command> T("w")]`
	if x := hx.Eval(sc, fuzzProbe); x.Code != "ok" || x.Value != want {
		return fmt.Errorf("afterwards the interpreter gives %s for\n%s\ninstead of %s", x, fuzzProbe, want)
	}
	st, good, err := diffSession(c.After, diffFuel, nil)
	if err != nil {
		return fmt.Errorf("afterwards, in another interpreter:\n%v", err)
	}
	if seen > 0 && oks > 0 && good && st.calls > 0 {
		r.NonTrivial(fmt.Sprint(c.Scripts))
	}
	return nil
}

func init() {
	h.Reg("P18", "vocabulary", "sessions over every command and subcommand with intended, ill-typed, missing and extra arguments (extreme numbers, every value type, interruptions at any place), then a fixed probe in the same interpreter and a random program in another one; non-trivial: something evaluated normally and the program after it called traced commands", 30000, 900000,
		drawFuzz, runFuzz)
}
