package props

import (
	"fmt"
	"strings"

	"helena/core"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// HelpCall is one call: command words (path) then arguments.
type HelpCall struct {
	Path []string // command, ensemble arguments and subcommand
	Args []string
	// Loose calls reach a user command through an ensemble or namespace: their error
	// message does not show the full path.
	Loose bool
}

// specUsage is the usage of a generated specification without options.
func specUsage(spec string) string {
	var out []string
	for _, w := range strings.Fields(strings.NewReplacer("(int ?", "?", "(int ", "", "(?", "?", " d)", "", " 3)", "", "(", "", ")", "").Replace(spec)) {
		switch {
		case w == "*":
			w = "?arg ...?"
		case w[0] == '*':
			w = "?" + w[1:] + " ...?"
		case w[0] == '?':
			w += "?"
		}
		out = append(out, w)
	}
	return strings.Join(out, " ")
}

// HelpCase is definitions and calls.
type HelpCase struct {
	Defs  []string
	Calls []HelpCall
}

var helpPlain = []string{
	"idem", "return", "yield", "error", "break", "continue", "eval", "help", "let", "set", "get", "exists", "unset",
	"+", "-", "*", "/", "!", "&&", "||", "if", "when", "while", "loop", "catch", "pass", "macro", "closure", "proc",
	"ensemble", "namespace", "scope", "coroutine", "alias", "module", "import", "export", "parse",
	"list", "dict", "string", "tuple", "int", "real", "true", "false", "argspec", "script",
}

var helpSubs = map[string][]string{
	"list":    {"length", "at", "range", "append", "remove", "insert", "replace", "sort", "foreach", "subcommands", "nope", "()"},
	"dict":    {"size", "has", "get", "add", "remove", "merge", "keys", "values", "entries", "foreach", "subcommands", "nope", "()"},
	"string":  {"length", "at", "range", "append", "remove", "insert", "replace", "==", "!=", ">", ">=", "<", "<=", "subcommands", "nope", "()"},
	"tuple":   {"length", "at", "subcommands", "nope", "()"},
	"argspec": {"usage", "set", "subcommands", "nope", "()"},
	"script":  {"length", "append", "split", "subcommands", "nope", "()"},
	"int":     {"subcommands", "nope", "()"},
	"real":    {"subcommands", "nope", "()"},
}

var helpVals = map[string][]string{
	"list": {"(list)", "[list (a b)]", "()"}, "dict": {"[dict ()]", "(a b)"}, "string": {"abc", "\"\""}, "tuple": {"(a b)", "()"},
	"argspec": {"(a ?b)", "[argspec (x)]"}, "script": {"{a b}", "{}"}, "int": {"1"}, "real": {"1.5"},
}

// helpSpec draws an argument specification.
func helpSpec(t *rapid.T, options bool) string {
	var out []string
	n := rapid.IntRange(0, 4).Draw(t, "nargs")
	if rare(t) {
		n = rapid.IntRange(5, 11).Draw(t, "nargs")
	}
	rest, opts := false, false
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%c", 'p'+i)
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1, 2, 3:
			out = append(out, name)
		case 4:
			out = append(out, "?"+name)
		case 5:
			out = append(out, "(?"+name+" d)")
		case 6:
			out = append(out, "(int "+name+")")
		case 7:
			if !rest && !opts {
				rest = true
				out = append(out, pick(t, "rest", []string{"*", "*" + name}))
			}
		case 8:
			out = append(out, "(int ?"+name+" 3)")
		case 9:
			if options && !rest {
				opts = true
				out = append(out, pick(t, "opt", []string{"?-" + name + "? ?" + name, "-o" + name + " " + name, "?-o" + name + " (?" + name + " d)"}))
			} else {
				out = append(out, name)
			}
		}
	}
	return "(" + strings.Join(out, " ") + ")"
}

func reqSpec(t *rapid.T) string {
	return pick(t, "espec", []string{"()", "(v)", "(v)", "(v w)", "((int v) w)"})
}

func drawHelp(t *rapid.T) HelpCase {
	c := HelpCase{}
	type target struct {
		path  []string
		loose bool
		dumb  []string // argument vocabulary
	}
	var targets []target
	vocab := []string{"a", "1", "{}", "()", "\"x y\"", "v", "(a b)", "[idem z]"}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "ndefs"); i < n; i++ {
		kind := pick(t, "dk", []string{"macro", "closure", "proc", "macro", "ensemble", "namespace", "alias", "value", "scope"})
		name := fmt.Sprintf("u%d", i)
		body := " {t " + name + "}"
		switch kind {
		case "macro", "closure", "proc":
			c.Defs = append(c.Defs, kind+" "+name+" "+helpSpec(t, true)+body)
			targets = append(targets, target{path: []string{name}}, target{path: []string{name}})
			if chance(t, "meta", 30) {
				targets = append(targets, target{path: []string{"[" + name + "-meta]"}})
				c.Defs[len(c.Defs)-1] = "set " + name + "m [" + c.Defs[len(c.Defs)-1] + "]"
				targets[len(targets)-1].path = []string{"$" + name + "m", pick(t, "ms", []string{"subcommands", "argspec", "nope", "()"})}
				if chance(t, "bare", 30) {
					targets[len(targets)-1].path = []string{"$" + name + "m"}
				}
			}
		case "scope":
			k := pick(t, "sc", []string{"scope {}", "coroutine {yield 1; t " + name + "}", "alias " + name + "a idem", "idem [[list] eval {idem 1}]"})
			c.Defs = append(c.Defs, "set "+name+" ["+k+"]")
			targets = append(targets, target{path: []string{"$" + name, pick(t, "scs", []string{"eval", "call", "subcommands", "wait", "active", "done", "yield", "command", "nope", "()"})}})
		case "value":
			c.Defs = append(c.Defs, "set "+name+" [["+pick(t, "vk", []string{"macro", "closure", "proc"})+" "+helpSpec(t, true)+body+"]]")
			targets = append(targets, target{path: []string{"$" + name}})
		case "ensemble":
			spec := reqSpec(t)
			sub := pick(t, "subk", []string{"macro", "closure", "proc"})
			subspec := helpSpec(t, true)
			if spec != "()" {
				// the subcommand takes the ensemble arguments first
				extra := strings.Trim(subspec, "()")
				switch spec {
				case "(v)":
					subspec = "(a1 " + subspec[1:]
				default:
					subspec = "(a1 a2 " + subspec[1:]
				}
				_ = extra
			}
			inner := sub + " s " + subspec + body
			nested := ""
			if chance(t, "nest", 25) {
				nested = "; ensemble e " + pick(t, "nspec", []string{"(a1 a2)", "(a1)", "(a1 a2 a3)"}) + " {" + sub + " s2 (a1 a2 a3 x ?y) " + body + "}"
			}
			c.Defs = append(c.Defs, "set "+name+"m [ensemble "+name+" "+spec+" {"+inner+nested+"}]")
			vals := []string{}
			switch spec {
			case "(v)":
				vals = []string{"1"}
			case "(v w)", "((int v) w)":
				vals = []string{"1", "b"}
			}
			p := append([]string{name}, vals...)
			targets = append(targets, target{path: append(p[:len(p):len(p)], "s"), loose: true}, target{path: []string{name}},
				target{path: append(p[:len(p):len(p)], pick(t, "es", []string{"subcommands", "nope", "()", "e"})), loose: true},
				target{path: []string{"$" + name + "m", pick(t, "ms", []string{"subcommands", "argspec", "eval", "call", "nope", "()"})}})
		case "namespace":
			sub := pick(t, "subk", []string{"macro", "closure", "proc"})
			nested := ""
			if chance(t, "nest", 40) {
				nested = "; namespace n {" + sub + " s2 (x ?y)" + body + "}; ensemble e (v) {" + sub + " s3 (v x)" + body + "}"
				targets = append(targets, target{path: []string{name, "n", "s2"}, loose: true}, target{path: []string{name, "e", "1", "s3"}, loose: true})
			}
			c.Defs = append(c.Defs, "set "+name+"m [namespace "+name+" {"+sub+" s "+helpSpec(t, true)+body+nested+"}]")
			targets = append(targets, target{path: []string{name, "s"}, loose: true}, target{path: []string{name, "subcommands"}},
				target{path: []string{name, "nope"}}, target{path: []string{name}},
				target{path: []string{"$" + name + "m", pick(t, "ms", []string{"subcommands", "eval", "call", "import", "nope", "()"})}}, target{path: []string{"$" + name + "m"}})
		case "alias":
			c.Defs = append(c.Defs, "alias "+name+" "+pick(t, "al", []string{"idem", "set", "(list (a))", "(idem a)", "[[macro (x) {}]]"}))
			targets = append(targets, target{path: []string{name}, loose: true})
		}
	}
	for i, n := 0, stretch(t, "ncalls", 2, 8); i < n; i++ {
		var tg target
		k := rapid.IntRange(0, 9).Draw(t, "tk")
		switch {
		case k < 4 && len(targets) > 0:
			tg = targets[rapid.IntRange(0, len(targets)-1).Draw(t, "tgt")]
		case k < 7:
			cmd := pick(t, "ens", []string{"list", "dict", "string", "tuple", "argspec", "script", "list", "string", "dict", "int", "real"})
			tg = target{path: []string{cmd, pick(t, "val", helpVals[cmd]), pick(t, "sub", helpSubs[cmd])}}
		case k < 9:
			tg = target{path: []string{pick(t, "plain", helpPlain)}}
		default:
			tg = target{path: []string{pick(t, "tf", []string{"true", "false"}), pick(t, "tfs", []string{"?", "!?", "subcommands", "nope", "()"})}}
		}
		v := vocab
		if cmd := tg.path[0]; cmd == "loop" || cmd == "while" {
			v = []string{"a", "1", "()", "\"x y\""}
		} else if cmd == "import" || cmd == "module" {
			v = []string{"a", "1", "{}"}
		}
		call := HelpCall{Path: tg.path, Loose: tg.loose}
		for j, m := 0, stretch(t, "k", 0, 6); j < m; j++ {
			call.Args = append(call.Args, pick(t, "arg", v))
		}
		if tg.path[0] == "if" && chance(t, "kw", 60) {
			call.Args = nil
			for j, m := 0, stretch(t, "k", 0, 6); j < m; j++ {
				call.Args = append(call.Args, pick(t, "arg", []string{"false", "elseif", "else", "{}", "a", "{idem false}"}))
			}
		}
		if tg.path[0] == "catch" && chance(t, "kw", 60) {
			call.Args = []string{"{}"}
			for j, m := 0, stretch(t, "k", 0, 6); j < m; j++ {
				call.Args = append(call.Args, pick(t, "arg", []string{"error", "break", "finally", "{}", "v", "return", "continue"}))
			}
		}
		c.Calls = append(c.Calls, call)
	}
	return c
}

// sigCount gives the argument counts a signature announces (number of words after the
// command); loose when the signature does not settle it.
func sigCount(s string) (min, max int, loose bool) {
	rest := s
	var toks []string
	for rest = strings.TrimSpace(rest); rest != ""; rest = strings.TrimSpace(rest) {
		if rest[0] == '?' && len(rest) > 1 && rest[1] != ' ' {
			// an optional group ends at the first question mark before a blank
			end := -1
			for i := 1; i < len(rest); i++ {
				if rest[i] == '?' && (i+1 == len(rest) || rest[i+1] == ' ') {
					end = i
					break
				}
			}
			if end < 0 {
				return 0, 0, true
			}
			toks = append(toks, rest[:end+1])
			rest = rest[end+1:]
			continue
		}
		w, r, _ := strings.Cut(rest, " ")
		toks = append(toks, w)
		rest = r
	}
	for i, w := range toks[1:] {
		switch {
		case strings.HasSuffix(w, "...?"):
			max = 1 << 20
		case strings.HasPrefix(w, "?-"), strings.HasPrefix(w, "-") && len(w) > 1, strings.HasPrefix(w, "{"):
			return 0, 0, true
		case w == "?" || w == "!?":
			min++
			max++
		case w[0] == '?':
			if strings.Contains(w, " ") {
				return 0, 0, true
			}
			max++
		default:
			min++
			max++
		}
		_ = i
	}
	return min, max, false
}

func aritySig(o core.Result) (string, bool) {
	if o.Code != core.ResultCode_ERROR {
		return "", false
	}
	_, m := core.ValueToString(o.Value)
	if !strings.HasPrefix(m, "wrong # args: ") && !strings.HasPrefix(m, "wrong # operands: ") {
		return "", false
	}
	_, sig, _ := strings.Cut(m, `should be "`)
	return strings.TrimSuffix(sig, `"`), true
}

func runHelp(c HelpCase, rec *h.Rec) error {
	traced := 0
	fresh := func() (func(string) (core.Result, error), error) {
		sc := hx.New()
		sc.RegisterNamedCommand("t", hx.Func(func([]core.Value, any) core.Result {
			traced++
			return core.OK(core.STR("ran"))
		}))
		for _, d := range c.Defs {
			r, err := hx.Run(sc, d)
			if err != nil || r.Code != core.ResultCode_OK {
				return nil, nil // an invalid specification
			}
		}
		return func(s string) (core.Result, error) {
			if strings.HasPrefix(strings.TrimPrefix(s, "help "), "export") {
				s = "[module {closure hh {} {" + s + "}; export hh}] import hh; hh"
			}
			return hx.Run(sc, s)
		}, nil
	}
	helper, err := fresh()
	if err != nil {
		return err
	}
	if helper == nil {
		rec.Label("invalid definition")
		return nil
	}
	rejected, accepted := 0, 0
	for _, call := range c.Calls {
		words := append(call.Path[:len(call.Path):len(call.Path)], call.Args...)
		src := strings.Join(words, " ")
		traced = 0
		hr, err := helper("help " + src)
		if err != nil {
			return err
		}
		if traced != 0 {
			return fmt.Errorf("help %s executed the command", src)
		}
		caller, err := fresh()
		if err != nil {
			return err
		}
		cr, err := caller(src)
		if err != nil {
			return err
		}
		csig, crej := aritySig(cr)
		show := func(f string, a ...any) error {
			return fmt.Errorf("definitions: %s\nhelp %s -> %s %s\ncall -> %s %s\n%s", strings.Join(c.Defs, "; "), src, hx.CodeName(hr), hx.Repr(hr.Value), hx.CodeName(cr), hx.Repr(cr.Value), fmt.Sprintf(f, a...))
		}
		_, hs := core.ValueToString(hr.Value)
		n := len(words) - 1
		if len(call.Path) > 1 && !call.Loose {
			switch sub := call.Path[len(call.Path)-1]; sub {
			case "nope", "()":
				rec.Label("no such subcommand")
				if cr.Code != core.ResultCode_ERROR || hr.Code != core.ResultCode_ERROR && call.Path[0][0] != 'u' {
					return show("there is no subcommand %s", sub)
				}
			}
		}
		switch hr.Code {
		case core.ResultCode_OK:
			rec.Label("help ok")
			if call.Path[0] == "help" || call.Path[0] == "alias" && false {
				break
			}
			if crej && !call.Loose && csig != hs && !(csig == "" && (call.Path[0] == "if" || call.Path[0] == "catch")) {
				return show("the signatures differ")
			}
			for _, d := range c.Defs {
				f := strings.SplitN(d, " ", 3)
				if (f[0] == "macro" || f[0] == "closure" || f[0] == "proc") && f[1] == call.Path[0] && !strings.Contains(f[2], "-") {
					spec, _, _ := strings.Cut(f[2], " {")
					if want := strings.TrimSpace(call.Path[0] + " " + specUsage(spec)); hs != want {
						return show("expected %q", want)
					}
				}
			}
			lo, hi, loose := sigCount(hs)
			prefix := strings.HasSuffix(hs, "?subcommand? ?arg ...?") || strings.HasSuffix(hs, "?subcommand?")
			switch {
			case strings.HasPrefix(hs, "if "), strings.HasPrefix(hs, "catch "):
				if n < 1 && !crej {
					return show("accepted without arguments")
				}
			case strings.HasPrefix(hs, "when "):
				if want := n < 1 || n > 2; want != crej {
					return show("rejected for its count: %v, expected %v", crej, want)
				}
			case strings.HasPrefix(hs, "loop "):
				if want := n < 1; want != crej {
					return show("rejected for its count: %v, expected %v", crej, want)
				}
			case loose:
				rec.Label("options")
			case prefix:
				// without arguments the command itself is returned
				if want := n > 0 && n < lo; want != crej && len(call.Path) == 1 {
					return show("rejected for its count: %v, expected %v", crej, want)
				}
			default:
				if call.Path[0] == "help" {
					break
				}
				want := n < lo || n > hi
				if want != crej {
					return show("rejected for its count: %v, expected %v (%d to %d)", crej, want, lo, hi)
				}
				if n > hi {
					return show("help accepts too many arguments")
				}
			}
		case core.ResultCode_ERROR:
			if hsig, is := aritySig(hr); is {
				rec.Label("help rejects")
				if !crej {
					return show("help reports a wrong number of arguments for a call which is accepted")
				}
				if !call.Loose && csig != hsig {
					return show("the signatures differ")
				}
				// the announced signature must exclude this count
				if lo, hi, loose := sigCount(hsig); !loose && n >= lo && n <= hi {
					return show("the signature allows this number of arguments")
				}
				break
			}
			switch {
			case strings.HasPrefix(hs, "unknown subcommand"), hs == "invalid subcommand name":
				rec.Label("unknown subcommand")
				if _, m := core.ValueToString(cr.Value); cr.Code != core.ResultCode_ERROR || m != hs && !call.Loose {
					return show("the call does not report the same problem")
				}
			case strings.HasPrefix(hs, "no help for "):
				rec.Label("no help")
				if call.Path[0] != "t" && !(strings.HasPrefix(call.Path[0], "u") || strings.HasPrefix(call.Path[0], "$")) {
					return show("a built-in command has no help")
				}
			case call.Path[0] == "help":
			default:
				return show("unexpected error of help")
			}
		default:
			return show("unexpected result of help")
		}
		// fewer arguments never change what help displays
		for k := len(call.Args) - 1; k >= 0 && hr.Code == core.ResultCode_OK && call.Path[0] != "help"; k-- {
			if len(call.Path) == 1 && strings.HasSuffix(hs, "?arg ...?") {
				break
			}
			less := strings.Join(append(call.Path[:len(call.Path):len(call.Path)], call.Args[:k]...), " ")
			lr, err := helper("help " + less)
			if err != nil {
				return err
			}
			if _, ls := core.ValueToString(lr.Value); lr.Code == core.ResultCode_OK && ls != hs && !ensemblePrefix(ls) {
				return show("but help %s -> %q", less, ls)
			} else if lr.Code != core.ResultCode_OK {
				return show("but help %s -> %s %s", less, hx.CodeName(lr), hx.Repr(lr.Value))
			}
		}
		if crej {
			rejected++
		} else {
			accepted++
		}
	}
	if rejected > 0 && accepted > 0 {
		rec.NonTrivial(fmt.Sprint(c))
	}
	return nil
}

// ensemblePrefix is the signature of an ensemble without its subcommand.
func ensemblePrefix(s string) bool { return strings.HasSuffix(s, "?subcommand? ?arg ...?") }

func init() {
	h.Reg("P23", "help", "definitions of user commands with random specifications and calls of built-in, user, ensemble, namespace and metacommand words at random argument counts: help against execution in a fresh scope; non-trivial: one call rejected for its count and one accepted", 40000, 1500000, drawHelp, runHelp)
}
