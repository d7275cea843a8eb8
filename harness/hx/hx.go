// Package hx wraps the interpreter under test: evaluation of source text and
// structural (display-independent) rendering of values.
package hx

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
)

// Codes by number.
var codeNames = map[core.ResultCode]string{
	core.ResultCode_OK: "ok", core.ResultCode_RETURN: "return", core.ResultCode_YIELD: "yield",
	core.ResultCode_ERROR: "error", core.ResultCode_BREAK: "break", core.ResultCode_CONTINUE: "continue",
	core.ResultCode_CUSTOM: "custom",
}

// CodeName names the result code.
func CodeName(r core.Result) string {
	if r.Code == core.ResultCode_CUSTOM {
		if c, ok := r.Data.(core.CustomResultCode); ok {
			return "custom:" + c.Name
		}
	}
	return codeNames[r.Code]
}

// Repr renders a value structurally; equal strings mean equal values.
func Repr(v core.Value) string {
	var b strings.Builder
	repr(&b, v, 0)
	return b.String()
}

func repr(b *strings.Builder, v core.Value, depth int) {
	if depth > 200 {
		b.WriteString("<deep>")
		return
	}
	list := func(open string, vs []core.Value, cl string) {
		b.WriteString(open)
		for i, x := range vs {
			if i > 0 {
				b.WriteByte(' ')
			}
			repr(b, x, depth+1)
		}
		b.WriteString(cl)
	}
	switch x := v.(type) {
	case nil:
		b.WriteString("<go-nil>")
	case core.NilValue:
		b.WriteString("nil")
	case core.BooleanValue:
		fmt.Fprintf(b, "%v", x.Value)
	case core.IntegerValue:
		fmt.Fprintf(b, "i%d", x.Value)
	case core.RealValue:
		b.WriteString("r" + FloatRepr(x.Value))
	case core.StringValue:
		b.WriteString(strconv.Quote(x.Value))
	case core.ListValue:
		list("L[", x.Values, "]")
	case core.TupleValue:
		list("T(", x.Values, ")")
	case core.DictionaryValue:
		keys := make([]string, 0, len(x.Map))
		for k := range x.Map {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("D{")
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Quote(k) + ":")
			repr(b, x.Map[k], depth+1)
		}
		b.WriteString("}")
	case core.ScriptValue:
		if x.Source != nil {
			b.WriteString("S" + strconv.Quote(*x.Source))
		} else {
			b.WriteString("S<" + ScriptRepr(x.Script) + ">")
		}
	case core.QualifiedValue:
		b.WriteString("Q<")
		repr(b, x.Source, depth+1)
		for _, s := range x.Selectors {
			switch y := s.(type) {
			case core.IndexedSelector:
				list("[", []core.Value{y.Index}, "]")
			case core.KeyedSelector:
				list("(", y.Keys, ")")
			case core.GenericSelector:
				list("{", y.Rules, "}")
			default:
				fmt.Fprintf(b, "?%T", s)
			}
		}
		b.WriteString(">")
	case core.CommandValue:
		b.WriteString("<command>")
	default:
		if c, ok := v.(core.CustomValue); ok {
			b.WriteString("<custom " + c.CustomType().Name + ">")
		} else {
			fmt.Fprintf(b, "<%T>", v)
		}
	}
}

// FloatRepr distinguishes all floats.
func FloatRepr(f float64) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	if f == 0 && math.Signbit(f) {
		return "-0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// ScriptRepr renders a syntax tree structurally.
func ScriptRepr(s core.Script) string {
	var b strings.Builder
	(&synRepr{b: &b}).script(s)
	return b.String()
}

// ScriptReprPos renders a syntax tree with the position of every sentence, word and morpheme.
func ScriptReprPos(s core.Script) string {
	var b strings.Builder
	(&synRepr{b: &b, pos: true}).script(s)
	return b.String()
}

type synRepr struct {
	b   *strings.Builder
	pos bool
}

func (r *synRepr) at(p *core.SourcePosition) {
	if !r.pos {
		return
	}
	if p == nil {
		r.b.WriteString("@none")
		return
	}
	fmt.Fprintf(r.b, "@%d:%d:%d", p.Index, p.Line, p.Column)
}

func (r *synRepr) script(s core.Script) {
	b := r.b
	for i, sent := range s.Sentences {
		if i > 0 {
			b.WriteString("; ")
		}
		r.at(sent.Position)
		for j, w := range sent.Words {
			if j > 0 {
				b.WriteByte(' ')
			}
			if w.Value != nil {
				b.WriteString("=" + Repr(w.Value))
			} else {
				r.word(w.Word)
			}
		}
	}
}
func (r *synRepr) word(w core.Word) {
	b := r.b
	b.WriteString("<")
	r.at(w.Position)
	for _, m := range w.Morphemes {
		r.morpheme(m)
	}
	b.WriteString(">")
}
func (r *synRepr) morpheme(m core.Morpheme) {
	b := r.b
	r.at(m.Position())
	switch x := m.(type) {
	case core.LiteralMorpheme:
		b.WriteString("lit" + strconv.Quote(x.Value))
	case core.TupleMorpheme:
		b.WriteString("(")
		r.script(x.Subscript)
		b.WriteString(")")
	case core.BlockMorpheme:
		b.WriteString("{" + strconv.Quote(x.Value) + " ")
		r.script(x.Subscript)
		b.WriteString("}")
	case core.ExpressionMorpheme:
		b.WriteString("[")
		r.script(x.Subscript)
		b.WriteString("]")
	case core.StringMorpheme:
		b.WriteString("str(")
		for _, y := range x.Morphemes {
			r.morpheme(y)
		}
		b.WriteString(")")
	case core.HereStringMorpheme:
		fmt.Fprintf(b, "here%d%s", x.DelimiterLength, strconv.Quote(x.Value))
	case core.TaggedStringMorpheme:
		fmt.Fprintf(b, "tag%s%s", strconv.Quote(x.Tag), strconv.Quote(x.Value))
	case core.LineCommentMorpheme:
		fmt.Fprintf(b, "lc%d%s", x.DelimiterLength, strconv.Quote(x.Value))
	case core.BlockCommentMorpheme:
		fmt.Fprintf(b, "bc%d%s", x.DelimiterLength, strconv.Quote(x.Value))
	case core.SubstituteNextMorpheme:
		fmt.Fprintf(b, "sub(%v,%s)", x.Expansion, strconv.Quote(x.Value))
	default:
		fmt.Fprintf(b, "?%T", m)
	}
}

// Outcome is a comparable result.
type Outcome struct {
	Code  string
	Value string
}

func (o Outcome) String() string { return o.Code + " " + o.Value }

// Out makes an outcome of a result.
func Out(r core.Result) Outcome { return Outcome{CodeName(r), Repr(r.Value)} }

// Parse tokenizes and parses.
func Parse(src string) (core.Script, error) {
	pr := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	if !pr.Success {
		return core.Script{}, fmt.Errorf("parse: %s", pr.Message)
	}
	return *pr.Script, nil
}

// ParsePos parses with position capture, keeping the source.
func ParsePos(src string) (core.Script, error) {
	in := core.NewStringStream(src)
	out := core.NewArrayTokenStream([]core.Token{}, in.Source())
	(&core.Tokenizer{}).TokenizeStream(in, out)
	pr := core.NewParser(&core.ParserOptions{CapturePositions: true}).Parse(out)
	if !pr.Success {
		return core.Script{}, fmt.Errorf("parse: %s", pr.Message)
	}
	return *pr.Script, nil
}

// New makes an interpreter with the whole built-in vocabulary.
func New() *hd.Scope {
	s := hd.NewRootScope(nil)
	hd.InitCommandsForModule(s, hd.NewModuleRegistry(nil), "/nonexistent")
	return s
}

// NewOpt makes an interpreter with capture options.
func NewOpt(pos, stack bool) *hd.Scope {
	s := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: pos, CaptureErrorStack: stack})
	hd.InitCommandsForModule(s, hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: pos, CaptureErrorStack: stack}), "/nonexistent")
	return s
}

// Run parses and runs a text in the interpreter.
func Run(s *hd.Scope, src string) (core.Result, error) {
	script, err := Parse(src)
	if err != nil {
		return core.Result{}, err
	}
	return s.PrepareProcess(s.Compile(script)).Run(), nil
}

// Eval parses and runs a text; a parse error is an error outcome with code "parse".
func Eval(s *hd.Scope, src string) Outcome {
	r, err := Run(s, src)
	if err != nil {
		return Outcome{"parse", err.Error()}
	}
	return Out(r)
}

// Func is a host command.
type Func func(args []core.Value, ctx any) core.Result

// Execute implements core.Command.
func (f Func) Execute(args []core.Value, ctx any) core.Result { return f(args, ctx) }

// QuoteWord writes a string as a source word which evaluates to that string.
func QuoteWord(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\\', '$', '"', '(', '{', '[', ')', '}', ']', '#', ';', '*':
			b.WriteByte('\\')
			b.WriteByte(c)
		case '\n':
			b.WriteString(`\n`)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Source writes a value as source text evaluating to it; ok=false when it has no source form.
func Source(v core.Value) (string, bool) {
	switch x := v.(type) {
	case core.NilValue:
		return "[]", true
	case core.BooleanValue:
		return fmt.Sprintf("[idem %v]", x.Value), true
	case core.StringValue:
		return QuoteWord(x.Value), true
	case core.IntegerValue:
		return "[int " + strconv.FormatInt(x.Value, 10) + "]", true
	case core.RealValue:
		return "[real " + strconv.FormatFloat(x.Value, 'g', -1, 64) + "]", true
	case core.TupleValue:
		return seq("(", x.Values, ")")
	case core.ListValue:
		return seq("[list (", x.Values, ")]")
	case core.DictionaryValue:
		keys := make([]string, 0, len(x.Map))
		for k := range x.Map {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		kv := []core.Value{}
		for _, k := range keys {
			kv = append(kv, core.STR(k), x.Map[k])
		}
		return seq("[dict (", kv, ")]")
	}
	return "", false
}
func seq(open string, vs []core.Value, cl string) (string, bool) {
	parts := []string{}
	for _, v := range vs {
		s, ok := Source(v)
		if !ok {
			return "", false
		}
		parts = append(parts, s)
	}
	return open + strings.Join(parts, " ") + cl, true
}
