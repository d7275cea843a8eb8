package props

import (
	"fmt"
	"strings"

	"helena/core"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// HelpNode is a command, an ensemble or a namespace of a tree of user commands.
type HelpNode struct {
	Kind string // macro, closure, proc, alias, ensemble, namespace, module
	Name string
	Req  int // required arguments (ensemble arguments)
	Opt  int
	Rest bool
	Subs []HelpNode
}

// HelpTreeCase is a tree of commands and the calls made, as words after the root command.
type HelpTreeCase struct {
	Root  HelpNode
	Via   string // how the root command is written
	Calls [][]string
}

func drawHelpNode(t *rapid.T, depth, outer int, name string) HelpNode {
	n := HelpNode{Name: name, Kind: pick(t, "kind", []string{"macro", "closure", "proc"})}
	if depth == 3 || depth > 0 && chance(t, "inner", 65) {
		n.Kind = "ensemble"
		if outer == 0 && chance(t, "ns", 30) {
			n.Kind = "namespace"
		}
	}
	if n.Kind == "macro" && depth < 3 && chance(t, "alias", 15) {
		return HelpNode{Name: name, Kind: "alias"}
	}
	if n.Kind == "namespace" && chance(t, "module", 25) {
		n.Kind = "module"
	}
	switch n.Kind {
	case "ensemble":
		n.Req = pick(t, "req", []int{0, 1, 1, 2, 2, 3})
		if n.Req < outer && chance(t, "more", 80) {
			n.Req = outer + rapid.IntRange(0, 1).Draw(t, "extra")
		}
	case "namespace", "module":
	default:
		n.Req = outer + rapid.IntRange(0, 2).Draw(t, "req")
		n.Opt = pick(t, "opt", []int{0, 0, 1, 2})
		n.Rest = chance(t, "rest", 25)
		return n
	}
	for i, m := 0, rapid.IntRange(1, 3).Draw(t, "subs"); i < m; i++ {
		o := 0
		if n.Kind == "ensemble" {
			o = n.Req
		}
		n.Subs = append(n.Subs, drawHelpNode(t, depth-1, o, string(rune('f'+i))))
	}
	return n
}

func drawHelpTree(t *rapid.T) HelpTreeCase {
	c := HelpTreeCase{Root: drawHelpNode(t, 3, 0, "u"), Via: "u"}
	if c.Root.Kind == "module" {
		c.Via = pick(t, "via", []string{"u", "$v", "[idem $v]"})
	}
	for i, n := 0, rapid.IntRange(2, 6).Draw(t, "ncalls"); i < n; i++ {
		var words []string
		val := func() string { return pick(t, "v", []string{"1", "2", "3", "v", "w"}) }
		node, have := &c.Root, 0
		for len(node.Subs) > 0 && chance(t, "deeper", 90) {
			if node.Kind == "module" {
				w := pick(t, "modsub", []string{"exports", "import", "import", "subcommands", "nope", "f"})
				words = append(words, w)
				if w == "import" {
					if chance(t, "known", 60) {
						words = append(words, node.Subs[0].Name, "zz")
					} else {
						words = append(words, "none")
					}
				}
				break
			}
			if node.Kind == "ensemble" {
				for ; have < node.Req; have++ {
					words = append(words, val())
				}
				// the arguments beyond those of this ensemble come after the subcommand
			}
			sub := &node.Subs[rapid.IntRange(0, len(node.Subs)-1).Draw(t, "sub")]
			w := sub.Name
			switch rapid.IntRange(0, 19).Draw(t, "odd") {
			case 0:
				w = "subcommands"
			case 1:
				w = pick(t, "none", []string{"nope", "()", "[]"})
			}
			words = append(words, w)
			have = 0
			if node.Kind == "ensemble" {
				have = node.Req
			}
			node = sub
			if w != sub.Name {
				break
			}
		}
		if node.Kind == "module" {
			for range pick(t, "k", []int{0, 0, 0, 1, 1, 2}) {
				words = append(words, val())
			}
			c.Calls = append(c.Calls, words)
			continue
		}
		for j, m := 0, max(0, node.Req-have)+pick(t, "k", []int{0, 0, 0, 0, 1, 1, 2, 3, -1, -2}); j < m; j++ {
			words = append(words, val())
		}
		c.Calls = append(c.Calls, words)
	}
	return c
}

func (n *HelpNode) names() []string {
	var out []string
	for i := range n.Req {
		out = append(out, fmt.Sprintf("%s%d", n.Name, i))
	}
	return out
}

// usage is the usage text of each argument.
func (n *HelpNode) usage() []string {
	out := n.names()
	for i := range n.Opt {
		out = append(out, fmt.Sprintf("?%so%d?", n.Name, i))
	}
	if n.Rest {
		out = append(out, "?"+n.Name+"r ...?")
	}
	return out
}

func (n *HelpNode) source() string {
	switch n.Kind {
	case "alias":
		return "alias " + n.Name + " (kk " + n.Name + ")"
	case "ensemble", "namespace", "module":
		var subs []string
		for i := range n.Subs {
			subs = append(subs, n.Subs[i].source())
			if n.Kind == "module" {
				subs = append(subs, "export "+n.Subs[i].Name)
			}
		}
		s := n.Kind + " " + n.Name
		if n.Kind == "ensemble" {
			s += " (" + strings.Join(n.names(), " ") + ")"
		}
		return s + " {" + strings.Join(subs, "; ") + "}"
	}
	spec, vals := n.names(), ""
	for _, s := range spec {
		vals += ",${" + s + "}"
	}
	for i := range n.Opt {
		spec = append(spec, fmt.Sprintf("(?%so%d d)", n.Name, i))
		vals += fmt.Sprintf(",${%so%d}", n.Name, i)
	}
	if n.Rest {
		spec = append(spec, "*"+n.Name+"r")
		vals += ",$[list $" + n.Name + "r length]"
	}
	return fmt.Sprintf("%s %s (%s) {t; idem \"%s%s\"}", n.Kind, n.Name, strings.Join(spec, " "), n.Name, vals)
}

func (n *HelpNode) sub(name string) *HelpNode {
	for i := range n.Subs {
		if n.Subs[i].Name == name {
			return &n.Subs[i]
		}
	}
	return nil
}

func joinSig(parts ...string) string {
	var out []string
	for _, p := range parts {
		if p != "" {
			out = append(out, p)
		}
	}
	return strings.Join(out, " ")
}

// help is what help shows for a call of this command: prefix is the signature of what encloses it
// and skip the number of words of the call it already covers.
func (n *HelpNode) help(args []string, prefix string, skip int) (string, bool) {
	sig := prefix
	if skip == 0 {
		sig = joinSig(prefix, args[0])
		if args[0] != n.Name {
			sig = "<" + n.Kind + ">"
		}
	}
	if n.Kind != "namespace" && n.Kind != "module" {
		u := n.usage()
		sig = joinSig(sig, strings.Join(u[min(max(skip-1, 0), len(u)):], " "))
	}
	at := 1
	switch n.Kind {
	case "ensemble":
		at = n.Req + 1
	case "namespace", "module":
	default:
		if k := len(args) - 1; !n.Rest && k > n.Req+n.Opt {
			return "wrong # args: should be \"" + sig + "\"", false
		}
		return sig, true
	}
	if len(args) <= at {
		return sig + " ?subcommand? ?arg ...?", true
	}
	name := args[at]
	if name == "()" || name == "[]" {
		return "invalid subcommand name", false
	}
	if n.Kind == "module" && name != "subcommands" {
		most := 2
		switch name {
		case "exports":
		case "import":
			most, name = 4, "import name ?alias?"
		default:
			return "unknown subcommand \"" + name + "\"", false
		}
		if len(args) > most {
			return "wrong # args: should be \"" + sig + " " + name + "\"", false
		}
		return sig + " " + name, true
	}
	if name == "subcommands" {
		if len(args) > at+1 {
			return "wrong # args: should be \"" + sig + " subcommands\"", false
		}
		return sig + " subcommands", true
	}
	s := n.sub(name)
	if s == nil {
		return "unknown subcommand \"" + name + "\"", false
	}
	if s.Kind == "alias" {
		return "no help for subcommand \"" + name + "\"", false
	}
	inner := append([]string{name}, args[1:at]...)
	return s.help(append(inner, args[at+1:]...), sig+" "+name, at)
}

// call is the outcome of the call: the text it gives, or "" when it is something else than the
// result of a command at the bottom of the tree.
func (n *HelpNode) call(args []string) (text string, fails bool) {
	at := 1
	switch n.Kind {
	case "alias":
		return fmt.Sprintf("%s,%d", n.Name, len(args)-1), false
	case "module":
		if len(args) == 1 {
			return "", false
		}
		switch args[1] {
		case "subcommands", "exports":
			return "", len(args) != 2
		case "import":
			return "", len(args) != 4 || args[2] == "none"
		}
		return "", true
	case "ensemble":
		at = n.Req + 1
	case "namespace":
	default:
		k := len(args) - 1
		if k < n.Req || !n.Rest && k > n.Req+n.Opt {
			return "", true
		}
		out := append([]string{n.Name}, args[1:1+min(k, n.Req+n.Opt)]...)
		for range n.Req + n.Opt - min(k, n.Req+n.Opt) {
			out = append(out, "d")
		}
		if n.Rest {
			out = append(out, fmt.Sprint(max(0, k-n.Req-n.Opt)))
		}
		return strings.Join(out, ","), false
	}
	if len(args) == 1 {
		return "", false
	}
	if len(args) < at {
		return "", true
	}
	if len(args) == at {
		return "", false
	}
	name := args[at]
	if name == "subcommands" {
		return "", len(args) > at+1
	}
	s := n.sub(name)
	if s == nil {
		return "", true
	}
	inner := append([]string{name}, args[1:at]...)
	return s.call(append(inner, args[at+1:]...))
}

func runHelpTree(c HelpTreeCase, rec *h.Rec) error {
	sc := hx.New()
	ran := 0
	sc.RegisterNamedCommand("t", hx.Func(func([]core.Value, any) core.Result {
		ran++
		return core.OK(core.NIL)
	}))
	def := "closure kk (nm *r) {t; idem \"${nm},$[list $r length]\"}; set v [" + c.Root.source() + "]"
	r, err := hx.Run(sc, def)
	if err != nil || r.Code != core.ResultCode_OK {
		return fmt.Errorf("harness: %s: %v %s", def, err, hx.Repr(r.Value))
	}
	deep := 0
	for _, words := range c.Calls {
		args := append([]string{c.Via}, words...)
		src := strings.Join(args, " ")
		ran = 0
		want, ok := c.Root.help(args, "", 0)
		r, err := hx.Run(sc, "help "+src)
		if err != nil {
			return err
		}
		_, got := core.ValueToString(r.Value)
		if (r.Code == core.ResultCode_OK) != ok || got != want {
			return fmt.Errorf("%s\nhelp %s -> %s %q\nexpected %v %q", def, src, hx.CodeName(r), got, ok, want)
		}
		if ran != 0 {
			return fmt.Errorf("%s\nhelp %s executed the command", def, src)
		}
		text, fails := c.Root.call(args)
		if r, err = hx.Run(sc, src); err != nil {
			return err
		}
		_, got = core.ValueToString(r.Value)
		if (r.Code != core.ResultCode_OK) != fails || text != "" && got != text {
			return fmt.Errorf("%s\n%s -> %s %q\nexpected failure %v %q", def, src, hx.CodeName(r), got, fails, text)
		}
		if !ok && !fails && !strings.HasPrefix(want, "no help for ") {
			return fmt.Errorf("harness: %s: help rejects an accepted call %s", def, src)
		}
		if text != "" && strings.Count(want, " ") > 3 {
			deep++
		}
	}
	if deep > 0 {
		rec.NonTrivial(def)
	}
	return nil
}

func init() {
	h.Reg("P23", "tree", "trees of ensembles (up to three arguments), namespaces and commands up to four levels deep, called with valid and invalid subcommands and argument counts: the text of help and the outcome of the call against a model of both; non-trivial: a call reaching a command at the bottom of the tree", 30000, 1000000, drawHelpTree, runHelpTree)
}
