package props

import (
	"context"
	"errors"
	"fmt"
	"io/fs"
	"log/slog"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"helena/native/go_slog"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// ReVal is an argument: a string, or a value of another kind.
type ReVal struct {
	K string // str, int, real, bool, nil, list, re
	S hx.Text
	N int64
}

func (v ReVal) value(res []core.Value) core.Value {
	switch v.K {
	case "str":
		return core.STR(string(v.S))
	case "int":
		return core.INT(v.N)
	case "real":
		return core.REAL(float64(v.N) + 0.5)
	case "bool":
		return core.BOOL(v.N != 0)
	case "list":
		return core.LIST([]core.Value{core.STR(string(v.S))})
	case "re":
		return res[int(v.N)%len(res)]
	}
	return core.NIL
}

// text is the string form of an argument, if any.
func (v ReVal) text() (string, bool) {
	switch v.K {
	case "str":
		return string(v.S), true
	case "int":
		return fmt.Sprint(v.N), true
	case "real":
		return fmt.Sprint(float64(v.N) + 0.5), true
	case "bool":
		return fmt.Sprint(v.N != 0), true
	}
	return "", false
}

func (v ReVal) int() (int, bool) {
	if v.K == "int" {
		return int(v.N), true
	}
	s, good := v.text()
	if !good {
		return 0, false
	}
	n, good := refInt(s)
	return int(n), good
}

// ReOp is one call of the regexp command.
type ReOp struct {
	M    string
	Args []ReVal
}

// ReCase is a history of calls; compilations append to the list of expressions, which the
// others refer to by index.
type ReCase struct {
	Ops []ReOp
}

var reMethods = map[string]int{
	"QuoteMeta": 1, "Compile": 1, "CompilePOSIX": 1, "FindAllString": 3, "FindAllStringIndex": 3, "FindAllStringSubmatch": 3,
	"FindAllStringSubmatchIndex": 3, "FindString": 2, "FindStringIndex": 2, "FindStringSubmatch": 2, "FindStringSubmatchIndex": 2,
	"LiteralPrefix": 1, "Longest": 1, "MatchString": 2, "NumSubexp": 1, "ReplaceAllLiteralString": 3, "ReplaceAllString": 3,
	"Split": 3, "String": 1, "SubexpIndex": 2, "SubexpNames": 1,
}

var reMethodNames = []string{
	"FindAllString", "FindAllStringIndex", "FindAllStringSubmatch", "FindAllStringSubmatchIndex", "FindString", "FindStringIndex",
	"FindStringSubmatch", "FindStringSubmatchIndex", "MatchString", "ReplaceAllLiteralString", "ReplaceAllString", "Split",
	"LiteralPrefix", "Longest", "NumSubexp", "String", "SubexpIndex", "SubexpNames", "QuoteMeta", "Compile", "CompilePOSIX",
}

func rePattern(t *rapid.T, depth int) string {
	k := rapid.IntRange(0, 15).Draw(t, "pat")
	if depth <= 0 && k >= 6 {
		k %= 6
	}
	sub := func() string { return rePattern(t, depth-1) }
	switch k {
	case 0, 1:
		return pick(t, "lit", []string{"a", "b", "ab", "abc", "c", "x", "é"})
	case 2:
		return pick(t, "cls", []string{".", "[ab]", "[^a]", "\\d", "\\w+", "\\s", "[[:alpha:]]", "(?i:A)", "\\.", "\\x61"})
	case 3:
		return pick(t, "rep", []string{"a*", "b+", "a?", "c{1,2}", "a*?", "b+?", ".*", ".*?", "a{2}"})
	case 4:
		return pick(t, "anc", []string{"^a", "b$", "\\b", "^", "$", "\\A", "\\z", "(?m)^", "", "\\B"})
	case 5:
		return pick(t, "grp", []string{"(a)", "(?P<n>b)", "(?:ab)", "(?P<m>a*)", "()", "(a|ab)(c|bcd)(d*)", "(?P<n>a)(?P<m>b)?"})
	case 6, 7, 8:
		if rare(t) {
			s := ""
			for i, n := 0, rapid.IntRange(3, 14).Draw(t, "parts"); i < n; i++ {
				s += pick(t, "part", []string{"(a)?", "(b)*", "(?P<n>c)?", "a", "(x|y)?", "()", "b?"})
			}
			return s
		}
		return sub() + sub()
	case 9, 10:
		return sub() + "|" + sub()
	case 11:
		return "(" + sub() + ")"
	case 12:
		return "(" + sub() + ")" + pick(t, "q", []string{"*", "+", "?", "*?"})
	case 13:
		return "(?P<" + pick(t, "nm", []string{"n", "m", "name"}) + ">" + sub() + ")"
	case 14:
		return "(?:" + sub() + ")" + pick(t, "q", []string{"*", "+", "?", "{2}"})
	}
	return pick(t, "bad", []string{"(", "[a", "a**", "*", "a{2,1}", "(?P<n>", "\\", "\\8", "(?P<>a)", "\xff", "[b-a]", "(?z)", ")"})
}

func reSubject(t *rapid.T) string {
	n := stretch(t, "len", 0, 8)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if rare(t) {
			b.WriteString(strings.Repeat(pick(t, "r", []string{"a", "ab", "é", "b "}), repeats(t)))
		}
		b.WriteString(pick(t, "s", []string{"a", "b", "ab", "c", "abcd", " ", "A", "x", "1", "é", "\n", "ba", "\xff", ".", "aa"}))
	}
	return b.String()
}

func reTemplate(t *rapid.T) string {
	n := stretch(t, "len", 0, 4)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, "s", []string{"x", "$1", "${1}", "$0", "$n", "${n}", "$1x", "${m}_", "$$", "$", "-", "$2", "${", "é", "$name"}))
	}
	return b.String()
}

func drawRe(t *rapid.T) ReCase {
	c := ReCase{}
	nres := 0
	str := func(s string) ReVal {
		if chance(t, "odd", 4) {
			return ReVal{K: pick(t, "k", []string{"int", "bool", "nil", "list", "re", "real"}), N: int64(rapid.IntRange(0, 12).Draw(t, "n"))}
		}
		return ReVal{K: "str", S: hx.Text(s)}
	}
	num := func() ReVal {
		n := int64(pick(t, "n", []int{-1, 0, 1, 2, 3, 10, 17, 70, -5, 1 << 32, 1<<32 + 1, -1 << 32, 1 << 31, math.MaxInt64, math.MinInt64, 256, 65536}))
		switch rapid.IntRange(0, 19).Draw(t, "nk") {
		case 19:
			return ReVal{K: pick(t, "k", []string{"nil", "list", "bool", "real", "re"}), N: 1}
		case 18:
			return ReVal{K: "str", S: hx.Text(pick(t, "ns", []string{"a", "", "1.0", "0x2", "+2", "2 "}))}
		case 10, 11, 12, 13, 14, 15, 16, 17:
			return ReVal{K: "str", S: hx.Text(fmt.Sprint(n))}
		}
		return ReVal{K: "int", N: n}
	}
	for i, n := 0, stretch(t, "ops", 3, 12); i < n; i++ {
		m := pick(t, "m", reMethodNames)
		if nres == 0 || chance(t, "comp", 15) {
			m = pick(t, "cm", []string{"Compile", "Compile", "CompilePOSIX"})
			nres++
		}
		op := ReOp{M: m}
		re := ReVal{K: "re", N: int64(rapid.IntRange(0, 3).Draw(t, "re"))}
		if chance(t, "badre", 2) {
			re = ReVal{K: "str", S: "a"}
		}
		switch m {
		case "Compile", "CompilePOSIX":
			op.Args = []ReVal{str(rePattern(t, 3))}
		case "QuoteMeta":
			op.Args = []ReVal{str(rePattern(t, 2))}
		case "FindAllString", "FindAllStringIndex", "FindAllStringSubmatch", "FindAllStringSubmatchIndex", "Split":
			op.Args = []ReVal{re, str(reSubject(t)), num()}
		case "ReplaceAllLiteralString", "ReplaceAllString":
			op.Args = []ReVal{re, str(reSubject(t)), str(reTemplate(t))}
		case "SubexpIndex":
			op.Args = []ReVal{re, str(pick(t, "nm", []string{"n", "m", "name", "", "zz"}))}
		default:
			op.Args = []ReVal{re}
			if reMethods[m] == 2 {
				op.Args = append(op.Args, str(reSubject(t)))
			}
		}
		switch rapid.IntRange(0, 59).Draw(t, "misuse") {
		case 59:
			op.Args = append(op.Args, str("x"))
		case 58:
			op.Args = op.Args[:len(op.Args)-1]
		case 57:
			op.M = pick(t, "bm", []string{"compile", "", "FindAll", "ReplaceAllStringFunc", "Find"})
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func reStrs(xs []string) core.Value {
	vs := []core.Value{}
	for _, x := range xs {
		vs = append(vs, core.STR(x))
	}
	return core.LIST(vs)
}

func reInts(xs []int) core.Value {
	vs := []core.Value{}
	for _, x := range xs {
		vs = append(vs, core.INT(int64(x)))
	}
	return core.LIST(vs)
}

// reCall is the expected result of a call; nil when it is an error.
func reCall(op ReOp, res []*regexp.Regexp) (v core.Value, compiled *regexp.Regexp) {
	want, known := reMethods[op.M]
	if !known || len(op.Args) != want {
		return nil, nil
	}
	a := op.Args
	str := func(i int) (string, bool) { return a[i].text() }
	switch op.M {
	case "QuoteMeta":
		s, good := str(0)
		if !good {
			return nil, nil
		}
		return core.STR(regexp.QuoteMeta(s)), nil
	case "Compile", "CompilePOSIX":
		s, good := str(0)
		if !good {
			return nil, nil
		}
		f := regexp.Compile
		if op.M == "CompilePOSIX" {
			f = regexp.CompilePOSIX
		}
		re, err := f(s)
		if err != nil {
			return nil, nil
		}
		return core.NIL, re
	}
	if a[0].K != "re" {
		return nil, nil
	}
	re := res[int(a[0].N)%len(res)]
	if re == nil {
		return nil, nil
	}
	var s, r string
	var n int
	good := true
	if want > 1 {
		if s, good = str(1); !good {
			return nil, nil
		}
	}
	switch op.M {
	case "FindAllString", "FindAllStringIndex", "FindAllStringSubmatch", "FindAllStringSubmatchIndex", "Split":
		if n, good = a[2].int(); !good {
			return nil, nil
		}
	case "ReplaceAllLiteralString", "ReplaceAllString":
		if r, good = str(2); !good {
			return nil, nil
		}
	}
	var vs []core.Value
	isNil := false
	switch op.M {
	case "FindAllString":
		x := re.FindAllString(s, n)
		isNil = x == nil
		for _, m := range x {
			vs = append(vs, core.STR(m))
		}
	case "FindAllStringIndex":
		x := re.FindAllStringIndex(s, n)
		isNil = x == nil
		for _, m := range x {
			vs = append(vs, reInts(m))
		}
	case "FindAllStringSubmatch":
		x := re.FindAllStringSubmatch(s, n)
		isNil = x == nil
		for _, m := range x {
			vs = append(vs, reStrs(m))
		}
	case "FindAllStringSubmatchIndex":
		x := re.FindAllStringSubmatchIndex(s, n)
		isNil = x == nil
		for _, m := range x {
			vs = append(vs, reInts(m))
		}
	case "FindString":
		return core.STR(re.FindString(s)), nil
	case "FindStringIndex":
		x := re.FindStringIndex(s)
		if x == nil {
			return core.NIL, nil
		}
		return reInts(x), nil
	case "FindStringSubmatch":
		x := re.FindStringSubmatch(s)
		if x == nil {
			return core.NIL, nil
		}
		return reStrs(x), nil
	case "FindStringSubmatchIndex":
		x := re.FindStringSubmatchIndex(s)
		if x == nil {
			return core.NIL, nil
		}
		return reInts(x), nil
	case "LiteralPrefix":
		p, full := re.LiteralPrefix()
		return core.TUPLE([]core.Value{core.STR(p), core.BOOL(full)}), nil
	case "Longest":
		re.Longest()
		return core.NIL, nil
	case "MatchString":
		return core.BOOL(re.MatchString(s)), nil
	case "NumSubexp":
		return core.INT(int64(re.NumSubexp())), nil
	case "ReplaceAllLiteralString":
		return core.STR(re.ReplaceAllLiteralString(s, r)), nil
	case "ReplaceAllString":
		return core.STR(re.ReplaceAllString(s, r)), nil
	case "Split":
		for _, m := range re.Split(s, n) {
			vs = append(vs, core.STR(m))
		}
	case "String":
		return core.STR(re.String()), nil
	case "SubexpIndex":
		return core.INT(int64(re.SubexpIndex(s))), nil
	case "SubexpNames":
		return reStrs(re.SubexpNames()), nil
	}
	if isNil {
		return core.NIL, nil
	}
	return core.LIST(vs), nil
}

// nativeScope is a scope which imported the native modules' commands.
func nativeScope() (*hd.Scope, error) {
	reg := hd.NewModuleRegistry(nil)
	reg.Register("go:regexp", go_regexp.Initmodule())
	reg.Register("go:os", go_os.Initmodule())
	reg.Register("go:slog", go_slog.Initmodule())
	s := hd.NewRootScope(nil)
	hd.InitCommandsForModule(s, reg, "/nonexistent")
	o := hx.Eval(s, "import go:regexp (regexp); import go:os (os); import go:slog (slog)")
	if o.Code != "ok" {
		return nil, fmt.Errorf("importing the native modules: %s", o)
	}
	return s, nil
}

func runRe(c ReCase, rec *h.Rec) error {
	sc, err := nativeScope()
	if err != nil {
		return err
	}
	res := []*regexp.Regexp{nil, nil, nil, nil}
	vals := []core.Value{core.NIL, core.NIL, core.NIL, core.NIL}
	next := 0
	found, matched := 0, 0
	for i, op := range c.Ops {
		src := "regexp " + hx.QuoteWord(op.M)
		for j, a := range op.Args {
			name := fmt.Sprintf("v%d", j)
			sc.SetNamedVariable(name, a.value(vals))
			src += " $" + name
		}
		if len(op.M) == 0 {
			src = "regexp \"\""
			for j := range op.Args {
				src += fmt.Sprintf(" $v%d", j)
			}
		}
		want, compiled := reCall(op, res)
		r, err := hx.Run(sc, src)
		if err != nil {
			return err
		}
		where := fmt.Sprintf("call %d: %s with %s", i, src, reArgs(op, vals))
		if want == nil {
			if r.Code != core.ResultCode_ERROR {
				return fmt.Errorf("%s\n got %s %s, expected an error", where, hx.CodeName(r), hx.Repr(r.Value))
			}
			continue
		}
		if r.Code != core.ResultCode_OK {
			return fmt.Errorf("%s\n got %s %s, expected %s", where, hx.CodeName(r), hx.Repr(r.Value), hx.Repr(want))
		}
		if compiled != nil {
			if _, is := r.Value.(go_regexp.RegexpValue); !is {
				return fmt.Errorf("%s\n got %s, expected a regular expression", where, hx.Repr(r.Value))
			}
			res[next%4], vals[next%4] = compiled, r.Value
			next++
			continue
		}
		if got := hx.Repr(r.Value); got != hx.Repr(want) {
			return fmt.Errorf("%s\n got      %s\n expected %s", where, got, hx.Repr(want))
		}
		if want != core.NIL && strings.HasPrefix(op.M, "Find") {
			found++
		}
		matched++
		rec.Label(op.M)
	}
	if found > 0 && matched > 2 {
		rec.NonTrivial(fmt.Sprint(c))
	}
	return nil
}

func reArgs(op ReOp, vals []core.Value) string {
	var out []string
	for _, a := range op.Args {
		v := a.value(vals)
		if r, is := v.(go_regexp.RegexpValue); is {
			out = append(out, r.Display(nil))
		} else {
			out = append(out, hx.Repr(v))
		}
	}
	return strings.Join(out, " ")
}

// OsCase is a history of writes by the host and reads by the script.
type OsCase struct {
	Ops []OsOp
}

// OsOp writes, removes or reads a file of the scratch directory, or misuses a command.
type OsOp struct {
	K    string // write, remove, read, misuse, log
	File string
	Data hx.Text
	V    ReVal
	N    int
}

var osNames = []string{"a", "a", "a", "sub/c", "sub/c", "d e", "dir", "é", "sub", "missing/x", ".h", "a/x"}

func drawOs(t *rapid.T) OsCase {
	c := OsCase{}
	for i, n := 0, rapid.IntRange(1, 10).Draw(t, "n"); i < n; i++ {
		op := OsOp{K: pick(t, "k", []string{"write", "read", "write", "read", "read", "remove", "log", "log", "misuse"}), File: pick(t, "f", osNames)}
		switch op.K {
		case "write":
			op.Data = hx.Text(lexText(t, 12))
			if chance(t, "big", 5) {
				op.Data = hx.Text(strings.Repeat(string(op.Data), 3000))
			}
		case "log":
			op.Data = hx.Text(lexText(t, 6))
			op.N = rapid.IntRange(0, 3).Draw(t, "level")
		case "misuse":
			op.N = rapid.IntRange(0, 13).Draw(t, "which")
			op.V = ReVal{K: pick(t, "k", []string{"nil", "list", "str", "int"}), S: "a", N: 3}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type logRec struct {
	level slog.Level
	msg   string
	attrs int
}

type logHandler struct{ recs []logRec }

func (l *logHandler) Enabled(context.Context, slog.Level) bool { return true }
func (l *logHandler) Handle(_ context.Context, r slog.Record) error {
	l.recs = append(l.recs, logRec{r.Level, r.Message, r.NumAttrs()})
	return nil
}
func (l *logHandler) WithAttrs([]slog.Attr) slog.Handler { return l }
func (l *logHandler) WithGroup(string) slog.Handler      { return l }

var osMisuse = []string{
	"os", "os ReadFile", "os ReadFile $p $p", "os ReadFile $v", "os readFile $p", "os $l $p", "os \"\"",
	"slog", "slog Info", "slog Info a b", "slog Info $l", "slog info a", "slog $l a", "os ReadFile ()",
}

var osMu sync.Mutex

func runOs(c OsCase, rec *h.Rec) error {
	osMu.Lock()
	defer osMu.Unlock()
	dir, err := os.MkdirTemp("", "verif-p22-")
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "dir"), 0o755)
	os.MkdirAll(filepath.Join(dir, "sub"), 0o755)
	old := slog.Default()
	lh := &logHandler{}
	slog.SetDefault(slog.New(lh))
	defer slog.SetDefault(old)
	sc, err := nativeScope()
	if err != nil {
		return err
	}
	model := map[string]string{}
	reads, logs := 0, 0
	for i, op := range c.Ops {
		p := filepath.Join(dir, op.File)
		sc.SetNamedVariable("p", core.STR(p))
		sc.SetNamedVariable("l", core.LIST(nil))
		where := fmt.Sprintf("operation %d: %s %s", i, op.K, op.File)
		switch op.K {
		case "write":
			if os.WriteFile(p, []byte(op.Data), 0o644) == nil {
				model[op.File] = string(op.Data)
			}
		case "remove":
			if st, err := os.Stat(p); err == nil && st.Mode().IsRegular() {
				os.Remove(p)
			} else if err != nil && !errors.Is(err, fs.ErrNotExist) {
				continue
			}
			delete(model, op.File)
		case "read":
			r, err := hx.Run(sc, "os ReadFile $p")
			if err != nil {
				return err
			}
			want, there := model[op.File]
			if !there {
				if r.Code != core.ResultCode_ERROR {
					return fmt.Errorf("%s: got %s %s, expected an error", where, hx.CodeName(r), hx.Repr(r.Value))
				}
				continue
			}
			if r.Code != core.ResultCode_OK || hx.Repr(r.Value) != hx.Repr(core.STR(want)) {
				return fmt.Errorf("%s: got %s %s, expected %q", where, hx.CodeName(r), hx.Repr(r.Value), want)
			}
			reads++
		case "log":
			sc.SetNamedVariable("m", core.STR(string(op.Data)))
			names := []string{"Debug", "Info", "Warn", "Error"}
			levels := []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError}
			lh.recs = nil
			r, err := hx.Run(sc, "slog "+names[op.N]+" $m")
			if err != nil {
				return err
			}
			if r.Code != core.ResultCode_OK || r.Value != core.Value(core.NIL) {
				return fmt.Errorf("%s: slog %s: got %s %s", where, names[op.N], hx.CodeName(r), hx.Repr(r.Value))
			}
			if len(lh.recs) != 1 || lh.recs[0] != (logRec{levels[op.N], string(op.Data), 0}) {
				return fmt.Errorf("%s: slog %s %q logged %v", where, names[op.N], op.Data, lh.recs)
			}
			logs++
		case "misuse":
			src := osMisuse[op.N]
			if strings.Contains(src, "$v") && (op.V.K == "str" || op.V.K == "int") {
				sc.SetNamedVariable("v", core.STR(filepath.Join(dir, "nothing")))
			} else {
				sc.SetNamedVariable("v", op.V.value(nil))
			}
			lh.recs = nil
			r, err := hx.Run(sc, src)
			if err != nil {
				return err
			}
			if r.Code != core.ResultCode_ERROR || len(lh.recs) != 0 {
				return fmt.Errorf("%s: %s: got %s %s, expected an error", where, src, hx.CodeName(r), hx.Repr(r.Value))
			}
			rec.Label("misuse")
		}
	}
	if reads > 0 {
		rec.Label("read")
	}
	if logs > 0 {
		rec.Label("log")
	}
	if reads+logs > 1 {
		rec.NonTrivial(fmt.Sprint(c))
	}
	return nil
}

func init() {
	h.Reg("P22", "regexp", "histories of regexp subcommands over shared compiled expressions (random patterns with groups, alternations, anchors; subjects; limits; templates; misuse) against the host library on the same history; non-trivial: a match found and three calls compared", 80000, 3000000, drawRe, runRe)
	h.Reg("P22", "os", "histories of host-side writes and removals and script-side reads in a scratch directory, and of log calls seen by a recording handler; non-trivial: two successful reads or log calls", 8000, 200000, drawOs, runOs)
}
