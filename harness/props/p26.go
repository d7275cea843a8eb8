package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"helena/native/go_slog"
	"helena/picol_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// The command-line interpreter against the host API in this process.

// cliExit is raised by the host side's exit command.
type cliExit struct{}

// cliScope is the host-side scope with the commands of the command-line interpreter.
func cliScope(dir string) *hd.Scope {
	s := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: true, CaptureErrorStack: true})
	reg := hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: true, CaptureErrorStack: true})
	hd.InitCommandsForModule(s, reg, dir)
	reg.Register("go:regexp", go_regexp.Initmodule())
	reg.Register("go:os", go_os.Initmodule())
	reg.Register("go:slog", go_slog.Initmodule())
	arity := func(sig string) core.Result { return core.ERROR(`wrong # args: should be "` + sig + `"`) }
	s.RegisterNamedCommand("load", hx.Func(func(a []core.Value, _ any) core.Result {
		if len(a) != 3 {
			return arity("load path name")
		}
		_, path := core.ValueToString(a[1])
		_, name := core.ValueToString(a[2])
		switch path {
		case "native/go_os":
			reg.Register(name, go_os.Initmodule())
		case "native/go_regexp":
			reg.Register(name, go_regexp.Initmodule())
		case "native/go_slog":
			reg.Register(name, go_slog.Initmodule())
		default:
			return core.ERROR("native module " + path + " not found")
		}
		return core.OK(core.NIL)
	}))
	s.RegisterNamedCommand("exit", hx.Func(func(a []core.Value, _ any) core.Result {
		if len(a) != 1 {
			return arity("exit")
		}
		panic(cliExit{})
	}))
	s.RegisterNamedCommand("source", hx.Func(func(a []core.Value, ctx any) core.Result {
		if len(a) != 2 {
			return arity("source path")
		}
		_, path := core.ValueToString(a[1])
		p := path
		if !filepath.IsAbs(p) {
			p = filepath.Join(dir, p)
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return core.ERROR("error reading file: open " + path + ": " + errors.Unwrap(err).Error())
		}
		in := core.NewStringStreamFromFile(string(data), path)
		out := core.NewArrayTokenStream([]core.Token{}, in.Source())
		(&core.Tokenizer{}).TokenizeStream(in, out)
		pr := core.NewParser(&core.ParserOptions{CapturePositions: true}).Parse(out)
		if !pr.Success {
			return core.ERROR(pr.Message)
		}
		sc := ctx.(*hd.Scope)
		return hd.CreateContinuationValue(sc, sc.Compile(*pr.Script))
	}))
	s.RegisterNamedCommand("picol", hx.Func(func(a []core.Value, _ any) core.Result {
		if len(a) != 2 {
			return arity("picol script")
		}
		if a[1].Type() != core.ValueType_SCRIPT {
			return core.ERROR("invalid script")
		}
		sc := picol_dialect.NewPicolScope(nil)
		picol_dialect.InitPicolCommands(sc)
		return sc.Evaluator.EvaluateScript(a[1].(core.ScriptValue).Script)
	}))
	return s
}

var typeNames = map[core.ValueType]string{
	core.ValueType_NIL: "NIL", core.ValueType_BOOLEAN: "BOOLEAN", core.ValueType_INTEGER: "INTEGER", core.ValueType_REAL: "REAL",
	core.ValueType_STRING: "STRING", core.ValueType_LIST: "LIST", core.ValueType_DICTIONARY: "DICTIONARY", core.ValueType_TUPLE: "TUPLE",
	core.ValueType_SCRIPT: "SCRIPT", core.ValueType_QUALIFIED: "QUALIFIED", core.ValueType_COMMAND: "COMMAND",
}

func cliDisplay(d any) string {
	switch v := d.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, cliDisplay)
	case core.DictionaryValue:
		return hd.DisplayDictionaryValue(v, cliDisplay)
	case core.CommandValue:
		return core.UndisplayableValueWithLabel("command")
	}
	return core.DefaultDisplayFunction(d)
}

func cliFrameArg(d any) string {
	switch d.(type) {
	case core.ListValue:
		return "[list (...)]"
	case core.DictionaryValue:
		return "[dict (...)]"
	case core.ScriptValue:
		return "{...}"
	}
	return cliDisplay(d)
}

// cliResult is what is displayed for a result and whether it is a success.
func cliResult(r core.Result) (string, bool) {
	switch r.Code {
	case core.ResultCode_OK:
		name := typeNames[r.Value.Type()]
		if c, is := r.Value.(core.CustomValue); is && r.Value.Type() == core.ValueType_CUSTOM {
			name = "CUSTOM[" + c.CustomType().Name + "]"
		}
		return core.Display(r.Value, cliDisplay) + " # " + name, true
	case core.ResultCode_ERROR:
		_, s := core.ValueToString(r.Value)
		return s, false
	}
	return "unexpected " + strings.TrimPrefix(hx.CodeName(r), "custom:"), false
}

func cliStack(r core.Result) string {
	var b strings.Builder
	st, is := r.Data.(*core.ErrorStack)
	if r.Code != core.ResultCode_ERROR || !is || st == nil {
		return ""
	}
	for i := uint(0); i < st.Depth(); i++ {
		l := st.Level(i)
		fmt.Fprintf(&b, "[%d] ", i)
		if l.Source != nil && l.Source.Filename != nil {
			b.WriteString(*l.Source.Filename)
		} else {
			b.WriteString("(script)")
		}
		if l.Position != nil {
			fmt.Fprintf(&b, ":%d:%d: ", l.Position.Line+1, l.Position.Column+1)
		} else {
			b.WriteString(" ")
		}
		if l.Frame != nil {
			for j, a := range *l.Frame {
				if j > 0 {
					b.WriteString(" ")
				}
				b.WriteString(core.Display(a, cliFrameArg))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

// CliFile is a file of the working directory.
type CliFile struct {
	Name string
	Data hx.Text
}

// CliCase is a script run as a file, or the lines of an interactive session.
type CliCase struct {
	Files  []CliFile
	Script hx.Text
	Args   []string // other command lines than one script
	Lines  []hx.Text
}

func cliDir(files []CliFile) (string, error) {
	dir, err := os.MkdirTemp("", "verif-p26-")
	if err != nil {
		return "", err
	}
	for _, f := range files {
		if err := os.WriteFile(filepath.Join(dir, f.Name), []byte(f.Data), 0o644); err != nil {
			return dir, err
		}
	}
	return dir, nil
}

func cliRun(dir, stdin string, args ...string) (stdout, stderr string, status int, err error) {
	bin := os.Getenv("VERIF_HELENA")
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOMAXPROCS=2"}
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	var ee *exec.ExitError
	if errors.As(err, &ee) && ctx.Err() == nil {
		err = nil
	}
	if cmd.ProcessState != nil {
		status = cmd.ProcessState.ExitCode()
	}
	return o.String(), e.String(), status, err
}

// sameShown compares what was displayed; dictionaries are displayed in no particular order.
func sameShown(a, b string) bool {
	if a == b {
		return true
	}
	if !strings.Contains(a, "[dict (") || len(a) != len(b) {
		return false
	}
	var n [256]int
	for i := range len(a) {
		n[a[i]]++
		n[b[i]]--
	}
	return n == [256]int{}
}

func crashed(stderr string, status int) bool {
	return strings.Contains(stderr, "goroutine ") || strings.Contains(stderr, "panic: ") || status == 2 || status < 0
}

func runCliScript(c CliCase, rec *h.Rec) error {
	dir, err := cliDir(append(c.Files[:len(c.Files):len(c.Files)], CliFile{"script.hel", c.Script}))
	if dir != "" {
		defer os.RemoveAll(dir)
	}
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	if c.Args != nil {
		_, se, status, err := cliRun(dir, "", c.Args...)
		if err != nil {
			return fmt.Errorf("helena %q: %v", c.Args, err)
		}
		if crashed(se, status) || len(c.Args) == 1 && (status == 0 || se == "") || se == "" {
			return fmt.Errorf("helena %q: exit status %d, standard error %q", c.Args, status, se)
		}
		rec.Label("bad command line")
		return nil
	}
	so, se, status, err := cliRun(dir, "", "script.hel")
	if err != nil {
		return fmt.Errorf("helena script.hel: %v\n%s", err, c.Script)
	}
	wantOut, wantErr, wantOK := "", "", true
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(cliExit); !is {
					panic(x)
				}
				rec.Label("exit")
			}
		}()
		script, err := hx.Parse(string(c.Script))
		if err != nil {
			wantErr, wantOK = strings.TrimPrefix(err.Error(), "parse: ")+"\n", false
			rec.Label("parse error")
			return
		}
		sc := cliScope(dir)
		r := sc.PrepareProcess(sc.Compile(script)).Run()
		s, good := cliResult(r)
		if wantOK = good; good {
			wantOut = s + "\n"
		} else {
			wantErr = s + "\n"
		}
		rec.Label(hx.CodeName(r))
	}()
	show := func(what string) error {
		return fmt.Errorf("%s\n%s\nexit status %d\nstandard output %q\n expected       %q\nstandard error %q\n expected      %q", c.Script, what, status, so, wantOut, se, wantErr)
	}
	switch {
	case crashed(se, status):
		return show("the program crashed")
	case (status == 0) != wantOK:
		return show("wrong exit status")
	case !sameShown(so, wantOut):
		return show("wrong output")
	case se != wantErr:
		return show("wrong error output")
	}
	rec.NonTrivial(string(c.Script))
	return nil
}

var cliHardErrors = []string{"}", ")", "]", "idem )", "idem (a]", "idem [b}", "{(}", "list ())", "idem a; ]"}
var cliOpen = []string{"idem {", "idem \"a", "idem (", "idem a\\", "idem [idem"}

// runCliSession plays the lines in the program and in the host API.
func runCliSession(c CliCase, rec *h.Rec) error {
	dir, err := cliDir(c.Files)
	if dir != "" {
		defer os.RemoveAll(dir)
	}
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	var in, want strings.Builder
	for _, l := range c.Lines {
		in.WriteString(string(l) + "\n")
	}
	sc := cliScope(dir)
	last := core.OK(core.NIL)
	acc, until := "", 0
	inputs, multi, errs, skip := 0, 0, 0, false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(cliExit); !is {
					panic(x)
				}
				rec.Label("exit")
			}
		}()
		for i, l := range c.Lines {
			first := acc == ""
			acc += string(l)
			if first {
				hard := false
				for _, e := range cliHardErrors {
					hard = hard || e == string(l)
				}
				if hard {
					_, err := hx.Parse(acc)
					if err == nil {
						skip = true
						return
					}
					want.WriteString(strings.TrimPrefix(err.Error(), "parse: ") + "\n")
					acc = ""
					errs++
					continue
				}
			}
			// a line ending with an odd number of backslashes outside of comments and raw
			// text goes on; the generator leaves such lines out of those
			n := len(acc) - len(strings.TrimRight(acc, "\\"))
			script, err := hx.ParsePos(acc)
			if err != nil || n%2 == 1 {
				// unfinished when the lines to come finish it
				whole, good := acc, i < until
				for j := i + 1; !good && j < len(c.Lines); j++ {
					whole += "\n" + string(c.Lines[j])
					if _, err := hx.Parse(whole); err == nil {
						good, until = true, j
					}
				}
				open := false
				for _, o := range cliOpen {
					open = open || o == string(l)
				}
				if !good && !(open && i == len(c.Lines)-1) {
					skip = true
					return
				}
				acc += "\n"
				continue
			}
			if len(script.Sentences) == 0 {
				skip = true // repeats the last outcome
				return
			}
			if last.Code != core.ResultCode_OK && (strings.Contains(acc, "|>") || strings.Contains(acc, "^")) {
				skip = true // the last result is not specified after an error
				return
			}
			inputs++
			if strings.Contains(acc, "\n") {
				multi++
			}
			p := sc.PrepareProcess(sc.Compile(script))
			if last.Code == core.ResultCode_OK {
				p.SetResult(last)
			}
			r := p.Run()
			last = r
			shown := cliStack(r)
			s, _ := cliResult(r)
			want.WriteString(shown + s + "\n")
			if r.Code != core.ResultCode_OK {
				errs++
			}
			acc = ""
		}
	}()
	if skip {
		rec.Label("skipped")
		return nil
	}
	so, se, status, err := cliRun(dir, in.String())
	if err != nil {
		return fmt.Errorf("session: %v\n%s", err, in.String())
	}
	if crashed(se, status) || status != 0 || se != "" || !sameShown(so, want.String()) {
		return fmt.Errorf("lines:\n%s\nexit status %d, standard error %q\nstandard output:\n%s\nexpected:\n%s", in.String(), status, se, so, want.String())
	}
	if acc != "" {
		rec.Label("unfinished at the end")
	}
	if multi > 0 {
		rec.Label("multi-line input")
	}
	if errs > 0 {
		rec.Label("errors")
	}
	if inputs >= 2 && multi > 0 {
		rec.NonTrivial(in.String())
	}
	return nil
}

var cliFiles = []string{
	"set m1 5; idem sourced", "closure cm (a) {idem [t $a]}; set m1 [cm x]", "error {oops}", "\nidem a\n  nope 1\n", "idem {", "return 4", "yield 3; set m1 2", "",
	"proc pm (x) {\n  error $x\n}\nset m1 9\npm 1\n", "idem )", "# only\n", "break",
}
var cliMods = []string{
	"set v 7; closure g () {idem $v}; export g", "export nope", "error bad", "idem {", "closure g (x) {error $x}; export g", "import ./m2.hel; closure g () {idem 2}; export g", "return 1",
}

const cliPrelude = "closure t (*args) {if [[list $args length] == 0] {idem t} else {list $args at [- [list $args length] 1]}}"

func cliProfile() profile {
	p := baseProfile()
	p.noDicts = true
	p.budget, p.scripts = 40, 5
	return p
}

// cliProgram draws a terminating session of programs.
func cliProgram(t *rapid.T, p profile) []string {
	s := drawSession(t, p)
	in := newRint(diffFuel)
	in.builtins()
	defer in.close()
	traceRef(in, func([]rv) {})
	good, _ := refSession(in, s, func(int, rres) error { return nil })
	if !good {
		return []string{"set a 1"}
	}
	for _, x := range s.Scripts {
		if strings.Contains(x, "dict") {
			return []string{"set a 2"}
		}
	}
	return s.Scripts
}

var cliExtra = []string{
	"source f.hel", "set x [source f.hel]; idem $x$x", "source nope.hel", "source", "source f.hel a", "exit 1", "exit", "picol {set a 1; incr a}",
	"picol {error x}", "picol {nope}", "picol a", "picol", "import ./m.hel (g); g", "[import ./m.hel] call g", "import ./m.hel g", "import ./m2.hel", "import go:regexp (regexp)",
	"import go:regexp (regexp); regexp Compile a+", "import go:nope", "import go:slog (slog); slog Nope", "import go:slog (slog)", "import go:os (os); os Nope a", "import go:os (os); os ReadFile nope.txt", "[import go:os] import os o; o ReadFile nope", "[import go:regexp] exports", "[import go:slog] exports",
	"proc p (a *b) {error $a}; p 1 [list (a)] {s} [dict (a b)] [idem true] 1.5", "nope [list (a b)] [dict ()] {a} (a b) [list]", "idem [list ()] a", "list a b [dict (x y)] {c d}", "closure q (a) {idem $a extra}; q [list (1 2)]", "closure q (a) {idem $a extra {s}}; q \"a b\"", "int [dict ()]", "+ 1 [list ()]", "[list] eval {error [list (x)]}", "load a", "load a b", "load native/go_os my:os; import my:os (os)", "import ./nope.hel", "load native/go_regexp ./m.hel; import ./m.hel (regexp)", "exists m1", "get m1 0", "catch {source f.hel}", "proc p () {source f.hel}; p",
	"idem [list (a [list (1 2.5)] (x {y z}) [list ()])]", "dict (a 1)", "list (a \"b c\" \"\" {d} [idem true])", "()", "idem \"\"", "macro {} {}", "coroutine {}", "argspec (a ?b)", "idem *a(b)[1]",
	"idem \"a$[idem b]\\x41\\n\"", "return 1", "yield 2", "break", "continue", "error \"a\nb\"", "error \"\"", "catch {error x}", "idem {a b; c}", "idem \"\"\"a\"b\"\"\"", "idem \"\"E\nx\nE\"\"", "1 + 2.5", "idem 1e400", "idem 0.1",
	"scope s {}; [s] eval {error x}", "namespace n {proc p {} {error y}}; n p", "closure c (a) {c2 $a}; closure c2 (b) {\n  error $b\n}; c 1", "list (1) foreach e {error $e}", "[[list]] eval", "exit [idem]",
}

func drawCliScript(t *rapid.T) CliCase {
	c := CliCase{}
	if chance(t, "badline", 3) {
		c.Args = pick(t, "args", [][]string{{"nope.hel"}, {"."}, {"script.hel", "x"}, {"-h"}, {""}, {"a", "b", "c"}})
		return c
	}
	c.Files = []CliFile{{"f.hel", hx.Text(pick(t, "f", cliFiles))}, {"m.hel", hx.Text(pick(t, "m", cliMods))}, {"m2.hel", hx.Text(pick(t, "m2", cliMods[:3]))}}
	var b strings.Builder
	kind := rapid.IntRange(0, 9).Draw(t, "kind")
	switch {
	case kind < 5:
		b.WriteString(cliPrelude + "\n" + strings.Join(cliProgram(t, cliProfile()), "\n"))
		if chance(t, "extra", 50) {
			b.WriteString("\n" + pick(t, "x", cliExtra))
		}
	case kind < 8:
		b.WriteString(cliPrelude + "\n")
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			b.WriteString(pick(t, "x", cliExtra) + pick(t, "sep", []string{"\n", "\n\n", "; ", "\r\n"}))
		}
	default:
		if rare(t) {
			b.WriteString(longInput(t) + "\n")
		}
		b.WriteString(pick(t, "pre", []string{"", "idem a\n", "idem \""}) + lexText(t, 12))
	}
	c.Script = hx.Text(oddBytes(t, b.String(), kind >= 5))
	for i := range c.Files {
		c.Files[i].Data = hx.Text(oddBytes(t, string(c.Files[i].Data), true))
	}
	return c
}

// oddBytes inserts bytes that programs reading text files may be tempted to treat specially (within a
// program, only when it has no loops that a change could make endless).
func oddBytes(t *rapid.T, s string, within bool) string {
	if !chance(t, "odd bytes", 20) {
		return s
	}
	odd := []string{"\r\n", "\r\n", "\r", "\t", "\v", "\f", "\x00", "\xff", "\u00a0", "\ufeff", "\u2028", "\\\r\n", "\x1a", "\\\n", " ", "\n", "\x1b[0m", "%s"}
	where := rapid.IntRange(0, 4).Draw(t, "where")
	if !within {
		where %= 4
	}
	switch where {
	case 0:
		return pick(t, "first", odd) + s
	case 1:
		return s + pick(t, "last", odd)
	case 2:
		return s + "\nidem \"a" + pick(t, "within", odd) + "b" + pick(t, "within", odd) + "\""
	case 3:
		return s + "\nerror \"a" + pick(t, "within", odd) + "b\""
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
		k := rapid.IntRange(0, len(s)).Draw(t, "at")
		s = s[:k] + pick(t, "odd", odd) + s[k:]
	}
	return s
}

func drawCliSession(t *rapid.T) CliCase {
	c := CliCase{}
	c.Files = []CliFile{{"f.hel", hx.Text(pick(t, "f", cliFiles))}, {"m.hel", hx.Text(pick(t, "m", cliMods))}, {"m2.hel", hx.Text(pick(t, "m2", cliMods[:3]))}}
	add := func(s string) {
		for _, l := range strings.Split(s, "\n") {
			c.Lines = append(c.Lines, hx.Text(l))
		}
	}
	add(cliPrelude)
	prog := cliProgram(t, cliProfile())
	for i, n := 0, stretch(t, "n", 1, 8); i < n; i++ {
		if rare(t) && chance(t, "really", 70) {
			add(longInput(t))
		}
		switch k := rapid.IntRange(0, 11).Draw(t, "kind"); {
		case k < 4 && len(prog) > 0:
			add(splitLines(t, prog[0]))
			prog = prog[1:]
		case k < 7:
			add(pick(t, "x", cliExtra))
		case k == 7:
			add(pick(t, "hard", cliHardErrors))
		case k == 8:
			add(pick(t, "multi", []string{
				"idem {\n  a b\n}", "list (\n1\n2\n) length", "idem [\nidem a\n]", "idem \"x\ny\"", "idem \"\"\"a\nb\"c\n\"\"\"", "idem \"\"EOF\n{\n)\nEOF\"\"", "idem #{ (\n)}# }# a",
				"idem a \\\n", "set x \\\n  b", "if true {\n  idem 1\n} else {\n  idem 2\n}", "proc p (a) {\n  # comment }\n  error $a\n}\np 3", "idem {\n\n\n}", "idem (\n\n{a\n)\n})", "closure c (\n a\n) {\n idem $a\n}",
				"idem \"a\\\n  b\"", "idem \"$[\nidem x\n]\"", "##{ ## }#\n}##; idem z", "idem {a}[\nidem b\n](\n1\n)", "idem ${\nx\n}", "nope (\n", ")", "idem a\\\\", "idem {\\\n}", "set long {\n1\n2\n3\n4\n5\n6\n}",
			}))
		case k == 9:
			add(pick(t, "more", []string{"set x 1", "idem [get x 0]", "set y [get x 0]; idem $y", "closure f (n) {if [$n == 0] {idem end} else {f [- $n 1]}}", "f 3", "error again", "nope", "t a b", "idem é", "let k 1", "unset x", "exists x"}))
		default:
			add(pick(t, "use", []string{"get a none", "get m1 0", "exists m1", "t z"}))
		}
	}
	if chance(t, "tail", 10) {
		add(pick(t, "open", cliOpen))
	}
	return c
}

// longInput is an input of many lines or of very long ones.
func longInput(t *rapid.T) string {
	n := rapid.IntRange(20, 400).Draw(t, "lines")
	word := pick(t, "word", []string{"a", "word", "é", "(x y)", "\"q $x\""})
	row := strings.TrimSpace(strings.Repeat(word+" ", pick(t, "row", []int{1, 1, 5, 30, 200})))
	n = min(n, 150, 1+9000/len(row)) // unfinished commands are read again with each line
	rows := strings.Repeat(row+"\n", n)
	return pick(t, "long", []string{
		"set big {\n" + rows + "}", "string {\n" + rows + "} length", "list (\n" + strings.ReplaceAll(rows, "$x", "y") + ") length", "idem \"\"\"" + strings.ReplaceAll(rows, "\"", "'") + "\"\"\"",
		"idem \"\"E\n" + rows + "E\"\"", "idem c #{" + rows + "}#", strings.Repeat("set y 1\n", min(n, 60)), "list (" + strings.ReplaceAll(strings.ReplaceAll(rows, "\n", " "), "$x", "y") + ") length", "proc lp (a) {\n" + rows + "}", "lnope {\n" + rows + "}",
		"error {" + rows + "}", "idem [\n" + strings.Repeat("idem a\n", n) + "]",
	})
}

// splitLines breaks a program at some of its blanks, where the lexical rules allow a line
// break without changing its meaning (inside of lists and after separators).
func splitLines(t *rapid.T, s string) string {
	if strings.Contains(s, `""`) {
		return s
	}
	var b strings.Builder
	for i := range len(s) {
		b.WriteByte(s[i])
		if i+1 < len(s) && (s[i] == ';' && s[i+1] == ' ' || s[i] == '{' && s[i+1] != '\\') && chance(t, "nl", 25) {
			b.WriteByte('\n')
		} else if i+1 < len(s) && s[i] != '\\' && s[i+1] == ' ' && chance(t, "cont", 3) {
			b.WriteString(" \\\n")
		}
	}
	return b.String()
}

func init() {
	h.Reg("P26", "script", "script files (generated programs, uses of the program's own commands and modules, arbitrary text) and bad command lines, run by the built program in a scratch directory: output, error output and exit status against the host API; non-trivial: always", 12000, 200000, drawCliScript, runCliScript)
	h.Reg("P26", "session", "interactive sessions of inputs split over lines at separators, blocks, strings, continuations, with errors, sourced files, modules and unfinished constructs, against one host-side scope; non-trivial: two inputs and one of several lines", 12000, 200000, drawCliSession, runCliSession)
}
