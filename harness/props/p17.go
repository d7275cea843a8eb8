package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// Module graphs: files in a scratch directory, a main session importing them, and a
// reference of the module rules on top of the reference interpreter.

// ModCase is a set of files and a main session; the host command "file" changes files.
type ModCase struct {
	Files map[string]string
	Main  session
}

// ---- reference

type rMod struct {
	sc      *rscope
	exports map[string]bool
	cmd     *rCmd
}
type rMods struct {
	files  map[string]string
	known  map[string]*rMod
	open   map[string]bool
	loads  int
	reuse  int
	cycles int
	fails  int
}

func rtext(s string) rres { return rres{cError, s} }

// enter makes a module out of a body; the files of its imports are found from dir.
func (m *rMods) enter(in *rint, dir string, body *rScript) (*rMod, rres) {
	sc := &rscope{ctx: newRctx(nil)}
	root := in.root
	in.root = sc
	in.builtins()
	in.root = root
	m.install(sc, dir)
	mod := &rMod{sc: sc, exports: map[string]bool{}}
	sc.def("export", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 {
			return rfail()
		}
		s, good := rstr(a[1])
		if !good {
			return rfail()
		}
		mod.exports[s] = true
		return ok(rNil{})
	})
	r := in.once(func() rres { return in.evalScript(sc, body) })
	if r.code == cError {
		return nil, r
	}
	if r.code != cOK {
		return nil, rfail()
	}
	mod.cmd = m.command(mod)
	return mod, ok(mod.cmd)
}

func (mod *rMod) bring(name, alias rv, to *rscope) rres {
	n, good := rstr(name)
	a, good2 := rstr(alias)
	if !good || !good2 {
		return rfail()
	}
	if !mod.exports[n] {
		return rtext(`unknown export "` + n + `"`)
	}
	c := mod.sc.command(n)
	if c == nil {
		return rtext(`cannot resolve export "` + n + `"`)
	}
	to.ctx.cmds[a] = c
	return ok(rNil{})
}

func (m *rMods) command(mod *rMod) *rCmd {
	c := &rCmd{name: "module"}
	c.exec = func(in *rint, sc *rscope, a []rv) rres {
		if len(a) == 1 {
			return ok(c)
		}
		s, good := rstr(a[1])
		switch {
		case good && s == "subcommands" && len(a) == 2:
			return ok(rstrings("subcommands", "exports", "import"))
		case good && s == "exports" && len(a) == 2:
			out := []rv{}
			for _, e := range sortedKeys(mod.exports) {
				out = append(out, e)
			}
			return ok(rList{out})
		case good && s == "import" && (len(a) == 3 || len(a) == 4):
			return mod.bring(a[2], a[len(a)-1], sc)
		}
		return rfail()
	}
	return c
}

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (m *rMods) resolve(in *rint, dir, path string) (*rMod, rres) {
	if mod := m.known[path]; mod != nil {
		return mod, ok(mod.cmd)
	}
	file := filepath.Join(dir, path)
	if mod := m.known[file]; mod != nil {
		m.reuse++
		return mod, ok(mod.cmd)
	}
	if m.open[file] {
		m.cycles++
		return nil, rtext("circular imports are forbidden")
	}
	src, has := m.files[file]
	if !has {
		m.fails++
		return nil, rfail()
	}
	ss, msg := refParse(src)
	if msg != "" {
		m.fails++
		return nil, rfail()
	}
	m.open[file] = true
	mod, r := m.enter(in, filepath.Dir(file), &rScript{src: &src, ss: ss})
	delete(m.open, file)
	if mod == nil {
		m.fails++
		return nil, r
	}
	m.known[file] = mod
	m.loads++
	return mod, r
}

// install defines the module commands of a scope.
func (m *rMods) install(sc *rscope, dir string) {
	sc.def("module", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 && len(a) != 3 {
			return rfail()
		}
		body, is := a[len(a)-1].(*rScript)
		if !is {
			return rfail()
		}
		mod, r := m.enter(in, dir, body)
		if mod == nil {
			return r
		}
		if len(a) == 3 {
			s, good := rstr(a[1])
			if !good {
				return rfail()
			}
			sc.ctx.cmds[s] = mod.cmd
		}
		return r
	})
	sc.def("import", func(in *rint, sc *rscope, a []rv) rres {
		if len(a) != 2 && len(a) != 3 {
			return rfail()
		}
		path, good := rstr(a[1])
		if !good {
			return rfail()
		}
		mod, r := m.resolve(in, dir, path)
		if mod == nil {
			return r
		}
		if len(a) == 2 {
			return r
		}
		switch a[2].(type) {
		case rList, rTuple, *rScript:
			names, good := rarray(a[2])
			if !good {
				return rfail()
			}
			for _, n := range names {
				alias := n
				if t, is := n.(rTuple); is {
					if len(t.v) != 2 {
						return rfail()
					}
					n, alias = t.v[0], t.v[1]
				}
				if x := mod.bring(n, alias, sc); x.code != cOK {
					return x
				}
			}
		default:
			s, good := rstr(a[2])
			if !good {
				return rfail()
			}
			sc.ctx.cmds[s] = mod.cmd
		}
		return r
	})
}

// ---- both sides

func runModules(c ModCase, r *h.Rec) error {
	dir, err := os.MkdirTemp("", "verif-p17-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	write := func(f, src string) {
		p := filepath.Join(dir, f)
		if src == "-" {
			os.Remove(p)
			return
		}
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
			panic(err)
		}
	}
	m := &rMods{files: map[string]string{}, known: map[string]*rMod{}, open: map[string]bool{}}
	for f, src := range c.Files {
		m.files[filepath.Join(dir, f)] = src
		write(f, src)
	}
	mainDir := filepath.Join(dir, "main")
	st, good, err := diffSessionWith(c.Main, diffFuel,
		func() *hd.Scope {
			s := hd.NewRootScope(nil)
			reg := hd.NewModuleRegistry(nil)
			hd.InitCommandsForModule(s, reg, mainDir)
			// the trace command is available to modules as a native module
			ts := hd.NewRootScope(nil)
			ts.RegisterNamedCommand("t", hx.Func(func(a []core.Value, ctx any) core.Result {
				return s.ResolveNamedCommand("t").Execute(a, ctx)
			}))
			reg.Register("host:trace", hd.NewModule(ts, &hd.Exports{"t": core.STR("t")}))
			s.RegisterNamedCommand("file", hx.Func(func(a []core.Value, _ any) core.Result {
				_, f := core.ValueToString(a[1])
				_, src := core.ValueToString(a[2])
				write(f, src)
				return core.OK(core.NIL)
			}))
			return s
		},
		func(in *rint) {
			m.install(in.root, mainDir)
			ts := &rscope{ctx: newRctx(nil)}
			root := in.root
			ts.def("t", func(in *rint, sc *rscope, a []rv) rres { return root.command("t").exec(in, sc, a) })
			mod := &rMod{sc: ts, exports: map[string]bool{"t": true}}
			mod.cmd = m.command(mod)
			m.known["host:trace"] = mod
			in.root.def("file", func(in *rint, sc *rscope, a []rv) rres {
				f, _ := rstr(a[1])
				src, _ := rstr(a[2])
				if src == "-" {
					delete(m.files, filepath.Join(dir, f))
				} else {
					m.files[filepath.Join(dir, f)] = src
				}
				return ok(rNil{})
			})
		})
	if !good {
		r.Label("discarded: too long")
		return nil
	}
	if err != nil {
		out := ""
		for _, f := range sortedKeys(c.Files) {
			out += fmt.Sprintf("file %s:\n%s\n", f, c.Files[f])
		}
		return fmt.Errorf("%s%v", out, err)
	}
	label(r, st)
	r.Labelf("loads %s", bucket(m.loads))
	for what, n := range map[string]int{"module reused": m.reuse, "circular import": m.cycles, "failed load": m.fails} {
		if n > 0 {
			r.Label(what)
		}
	}
	if m.loads > 0 && st.calls > 2 && (m.reuse > 0 || m.cycles > 0 || m.fails > 0) {
		r.NonTrivial(fmt.Sprint(c.Files, c.Main.Scripts))
	}
	return nil
}

// ---- generation

type modGen struct {
	t     *rapid.T
	paths []string
	dup   bool
}

func (g *modGen) n(lo, hi int) int         { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *modGen) pick(xs ...string) string { return pick(g.t, "pick", xs) }

// from spells the path of file j from the directory of file i (-1: the main session).
func (g *modGen) from(i, j int) string {
	dir := "main"
	if i >= 0 {
		dir = filepath.Dir(g.paths[i])
	}
	p := "main/missing"
	if j < len(g.paths) {
		p = g.paths[j]
	}
	rel, err := filepath.Rel(dir, p)
	if err != nil {
		panic(err)
	}
	switch g.n(0, 7) {
	case 0:
		rel = "./" + rel
	case 1:
		rel = "nodir/../" + rel
	case 2:
		rel = "../" + filepath.Base(dir) + "/" + rel
	case 3:
		rel = strings.ReplaceAll(rel, "/", "//")
	}
	return rel
}

func (g *modGen) name() string {
	return g.pick("f", "cnt", "getv", "setv", "p", "mac", "al", "ens", "ns", "f2", "cnt2")
}

func (g *modGen) importStmt(i, j int) string {
	s := "import " + g.from(i, j)
	switch g.n(0, 7) {
	case 0:
		if chance(g.t, "keep", 50) {
			s = "set mv [" + s + "]"
		}
	case 1:
		s += " mm"
	case 2, 3:
		s += " (" + g.pick("f", "cnt getv", "setv getv", "(f f2)", "(cnt cnt2) f", "mac p", "al ens ns") + ")"
	case 4, 5:
		names := []string{}
		for k, n := 0, g.n(0, 3); k < n; k++ {
			x := g.name()
			if chance(g.t, "alias", 30) {
				x = "(" + x + " " + g.name() + ")"
			}
			names = append(names, x)
		}
		s += " " + g.pick("(", "[list (") + strings.Join(names, " ") + ")"
		if strings.Contains(s, "[list") {
			s += "]"
		}
	case 6:
		s += " " + g.pick("(nope)", "(f nope)", "((f))", "((f a b))", "{f cnt}", "()", "((f g) (f k))", "(())", "[list ()]")
	case 7:
		s += " m" + fmt.Sprint(g.n(0, 2))
	}
	if rare(g.t) && chance(g.t, "really", 50) {
		names, calls := []string{}, []string{}
		for k, n := 0, g.n(6, 40); k < n; k++ {
			x := fmt.Sprint("e", k)
			if chance(g.t, "alias", 30) {
				names, x = append(names, "("+x+" x"+x+")"), "x"+x
			} else {
				names = append(names, x)
			}
			calls = append(calls, "t got ["+x+"]")
		}
		return "catch {import " + g.from(i, j) + " (" + strings.Join(names, " ") + "); " + strings.Join(calls, "; ") + "} error e {t no}"
	}
	if chance(g.t, "value", map[bool]int{true: 5, false: 15}[i >= 0]) {
		return "[" + s + "] import " + g.name() + g.pick("", " f2", " loc")
	}
	if chance(g.t, "guarded", map[bool]int{true: 80, false: 45}[i >= 0]) {
		return "t r [catch {" + s + "; t imported} error e {t err $e}]"
	}
	return s
}

func (g *modGen) use() string {
	n := g.name()
	switch g.n(0, 13) {
	case 10, 11, 12:
		m := g.pick("mm", "m0", "m1", "$[mm]", "[m0]", "[mm]", "$mv", "[$mv]", "m2")
		return "t mod [catch {" + g.pick(
			"t ["+m+" subcommands]", m+" subcommands x", m+" exports x", m+" (a)", m+" nope", m+" import", m+" import (a)", m+" import "+n+" (a)", m+" import "+n+" a b", m+" import []",
			"t [list ["+m+" exports] length]", "set mv ["+m+"]; t same", m+" import "+n+" "+g.name(), m+" import "+n+"; t [exists v]; t got ["+n+"]", m+" import "+n+" loc; loc", "eval {"+m+" import "+n+"; "+n+"}; "+n,
			"closure q {} {"+m+" import "+n+"; "+n+"}; q; "+n, "[scope {"+m+" import "+n+"}] call "+n, "namespace nsx {"+m+" import "+n+"}; nsx call "+n, "ensemble enx () {"+m+" import "+n+"}; enx "+n, "alias al2 ("+m+" import); al2 "+n+"; "+n) +
			"; t done} error e {t no}]"
	case 13:
		return "t bad [catch {" + g.pick("import", "import (a)", "import a b c d", "import []", "import [list (a)]", "module", "module x", "module (a) {}", "module a b c", "module {} {}", "module []", "module {export}", "module {export (a)}", "module {export a b}", "module {export a; export a; export []}", "module ([] x) {}", "export f", "t [list [[module {export f; export f; export g}] exports] length]",
			"[module {macro f {} {idem 1}; export f}] import f; t [f]", "module m0 {export nof}; m0 import nof", "module m1 {closure getv {} {get v none}; set v inner; export getv}; m1 import getv; t [getv]", "set mv [module {set n 0; closure cnt {} {set n [+ $n 1]}; export cnt}]; $mv import cnt; $mv import cnt cnt2; t [cnt] [cnt2]", "set mv [module {alias f list; export f}]; $mv import f g; t [g (a)]",
			"module m2 {ensemble ens {x} {macro sub {y} {idem $x$y}}; export ens}; m2 import ens e2; t [e2 1 sub 2]") + "; t ok} error e {t no}]"
	case 0:
		return "t [list [" + g.pick("mm", "m0", "m1") + " exports] sort]"
	case 1:
		return "catch {" + g.pick("mm", "m0", "m1") + " import " + n + g.pick("", " zz") + "} error e {t no}"
	case 2:
		return "set v " + g.pick("here", "there")
	case 3:
		return "t v [exists v] [get v none] [exists n]"
	case 4:
		return n + g.pick("", " x")
	}
	call := n
	switch n {
	case "setv", "p":
		call += " val" + g.pick("1", "2")
	case "ens":
		call += " x sub y"
	case "ns":
		call += " " + g.pick("get", "bump")
	}
	if chance(g.t, "guarded", 75) {
		return "catch {t got [" + call + "]} error e {t failed}"
	}
	return "t got [" + call + "]"
}

func (g *modGen) module(i int, broken bool) string {
	id := g.paths[i]
	out := []string{}
	if chance(g.t, "late", 10) {
		out = append(out, "set v early")
	}
	out = append(out, "import host:trace (t)", "t load "+id)
	body := func() []string {
		var out []string
		if rare(g.t) {
			// many exports of the same closure, whose state they share
			n := g.n(6, 40)
			s := "set n 0; "
			for k := 0; k < n; k++ {
				s += fmt.Sprintf("closure e%d {} {set n [+ $n 1]; t e%d "+id+" $n}; export e%d; ", k, k, k)
			}
			out = append(out, s)
		}
		for k, n := 0, g.n(1, 7); k < n; k++ {
			var s, name string
			switch g.n(0, 13) {
			case 0, 1:
				s, name = "set n "+fmt.Sprint(10*i)+"; closure cnt {} {set n [+ $n 1]; t cnt "+id+" $n}", "cnt"
			case 2:
				s, name = "closure setv {x} {set v $x; t setv "+id+"}", "setv"
			case 3:
				s, name = "closure getv {} {t getv "+id+" [get v none]}", "getv"
			case 4:
				s, name = "proc p {x} {t p "+id+" $x [exists v]; f}", "p"
			case 5:
				s, name = "macro mac {} {t mac "+id+" [get v none]}", "mac"
			case 6:
				s, name = g.pick("macro", "closure", "proc")+" f {} {t f "+id+"; "+g.pick("idem f"+fmt.Sprint(i), "error ferr", "return r", "getv", "yield y", "cnt", "break")+"}", "f"
			case 7:
				s, name = "alias al "+g.pick("f", "(f)", "cnt", "(t al)"), "al"
			case 8:
				s, name = "ensemble ens {x} {macro sub {y} {t ens "+id+" $y [exists v]}}", "ens"
			case 9:
				s, name = "namespace ns {set v ns"+fmt.Sprint(i)+"; closure get {} {t ns $v}; closure bump {} {set v ${v}x}}", "ns"
			case 10:
				s = "set v v" + fmt.Sprint(i)
			case 11:
				s = "let v c" + fmt.Sprint(i)
			case 12:
				s = g.importStmt(i, g.target(i))
			case 13:
				s = g.use()
			}
			if name != "" && chance(g.t, "export", 80) {
				if chance(g.t, "before", 30) {
					s = "export " + name + "; " + s
				} else {
					s += "; export " + name
				}
			}
			out = append(out, s)
		}
		return out
	}
	out = append(out, body()...)
	if chance(g.t, "deps", 70) {
		for k, n := 0, g.n(1, 2); k < n; k++ {
			at := g.n(2, len(out))
			out = append(out[:at:at], append([]string{g.importStmt(i, g.target(i))}, out[at:]...)...)
		}
	}
	if chance(g.t, "reexport", 30) {
		out = append(out, "export "+g.pick("f", "cnt", "f2", "getv", "nope", "t", "list"))
	}
	if chance(g.t, "inline", 10) {
		out = append(out, "module m2 {import host:trace (t); set v inl; closure getv {} {t inl $v}; export getv; "+g.importStmt(i, g.target(i))+"}", "catch {m2 import getv} error e {t none}")
	}
	if broken {
		at := g.n(1, len(out))
		out = append(out[:at:at], append([]string{g.pick("error broken", "nocmd", "return r", "yield y", "break", "continue", "pass", "set (a) ()", "import missing", "t }", "{", "t \"", "idem ]")}, out[at:]...)...)
	}
	return strings.Join(out, g.pick("\n", "\n", "; "))
}

// target picks a module to import, mostly one that comes later.
func (g *modGen) target(i int) int {
	if i+1 < len(g.paths) && chance(g.t, "forward", 75) {
		return g.n(i+1, len(g.paths)-1)
	}
	return g.n(0, len(g.paths))
}

func drawModules(t *rapid.T) ModCase {
	g := &modGen{t: t}
	all := []string{"main/a", "main/b", "main/sub/c", "main/sub/deep/d", "other/e", "main/sub/a"}
	n := g.n(1, 5)
	for k := 0; k < n; k++ {
		i := g.n(0, len(all)-1)
		g.paths = append(g.paths, all[i])
		all = append(all[:i:i], all[i+1:]...)
	}
	c := ModCase{Files: map[string]string{}}
	broken := map[int]bool{}
	for i := range g.paths {
		broken[i] = chance(t, "broken", 10)
		if chance(t, "absent", 4) {
			broken[i] = true
			continue
		}
		c.Files[g.paths[i]] = g.module(i, broken[i])
	}
	for k, m := 0, g.n(2, 6); k < m; k++ {
		s := []string{}
		for j, q := 0, g.n(1, 4); j < q; j++ {
			switch x := g.n(0, 9); {
			case x <= 4 || k == 0 && j == 0:
				s = append(s, g.importStmt(-1, g.target(-1)))
			case x <= 8:
				s = append(s, g.use())
			default:
				i := g.n(0, n-1)
				if chance(t, "delete", 20) {
					s = append(s, "file "+g.paths[i]+" -")
				} else {
					s = append(s, "file "+g.paths[i]+" "+hx.QuoteWord(g.module(i, chance(t, "still", 20))))
				}
			}
		}
		c.Main.Scripts = append(c.Main.Scripts, strings.Join(s, "\n"))
	}
	if chance(t, "send", 30) {
		c.Main.Sends = []string{"s0"}
	}
	return c
}

func init() {
	h.Reg("P17", "graphs", "sets of module files in nested directories (chains, diamonds, cycles, failing and missing nodes, repairs) driven by a main session, compared with the reference of the module rules; non-trivial: a module was loaded and another import reused, closed a cycle or failed", 40000, 1000000,
		drawModules, runModules)
}
