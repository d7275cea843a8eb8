package props

import (
	"math"
	"strconv"
	"strings"

	"helena/core"
	"verifharness/hx"

	"pgregory.net/rapid"
)

// DV describes a value.
type DV struct {
	K   string  // nil bool int real str tuple list dict script nosrc qual cmd custom
	S   hx.Text `json:",omitempty"`
	I   int64   `json:",omitempty"`
	F   uint64  `json:",omitempty"`
	B   bool    `json:",omitempty"`
	Sub []DV    `json:",omitempty"`
	Key []hx.Text
	Sel []DSel `json:",omitempty"`
}

// DSel describes a selector.
type DSel struct {
	K   string // index keys rules
	Sub []DV
}

type opaqueValue struct{}

func (opaqueValue) Type() core.ValueType { return core.ValueType_CUSTOM }
func (opaqueValue) CustomType() core.CustomValueType {
	return core.CustomValueType{Name: "opaque"}
}

// value builds the described value.
func (d DV) value() core.Value {
	switch d.K {
	case "bool":
		return core.BOOL(d.B)
	case "int":
		return core.INT(d.I)
	case "real":
		return core.REAL(math.Float64frombits(d.F))
	case "str":
		return core.STR(string(d.S))
	case "tuple":
		return core.TUPLE(dvs(d.Sub))
	case "list":
		return core.LIST(dvs(d.Sub))
	case "dict":
		m := map[string]core.Value{}
		for i, x := range d.Sub {
			m[string(d.Key[i])] = x.value()
		}
		return core.DICT(m)
	case "script":
		s, err := hx.Parse(string(d.S))
		if err != nil {
			panic(err)
		}
		return core.NewScriptValue(s, string(d.S))
	case "nosrc":
		s, err := hx.Parse(string(d.S))
		if err != nil {
			panic(err)
		}
		return core.NewScriptValueWithNoSource(s)
	case "qual":
		sels := []core.Selector{}
		for _, s := range d.Sel {
			switch s.K {
			case "index":
				_, x := core.CreateIndexedSelector(s.Sub[0].value())
				sels = append(sels, x)
			case "keys":
				_, x := core.CreateKeyedSelector(dvs(s.Sub))
				sels = append(sels, x)
			case "rules":
				_, x := core.CreateGenericSelector(dvs(s.Sub))
				sels = append(sels, x)
			}
		}
		return core.NewQualifiedValue(d.Sub[0].value(), sels)
	case "cmd":
		return core.NewCommandValue(hx.Func(func([]core.Value, any) core.Result { return core.OK(core.NIL) }))
	case "custom":
		return opaqueValue{}
	}
	return core.NIL
}

func dvs(ds []DV) []core.Value {
	out := make([]core.Value, len(ds))
	for i, d := range ds {
		out[i] = d.value()
	}
	return out
}

// hostString is the string form of a described value.
func (d DV) hostString() (string, bool) {
	switch d.K {
	case "bool":
		if d.B {
			return "true", true
		}
		return "false", true
	case "int":
		return strconv.FormatInt(d.I, 10), true
	case "real":
		return strconv.FormatFloat(math.Float64frombits(d.F), 'g', -1, 64), true
	case "str", "script":
		return string(d.S), true
	}
	return "", false
}

// asRead replaces numbers and booleans by their literal form: how the value reads back.
func (d DV) asRead() DV {
	switch d.K {
	case "bool", "int", "real":
		s, _ := d.hostString()
		return DV{K: "str", S: hx.Text(s)}
	}
	e := d
	e.Sub = nil
	for _, x := range d.Sub {
		e.Sub = append(e.Sub, x.asRead())
	}
	e.Sel = nil
	for _, s := range d.Sel {
		t := DSel{K: s.K}
		for _, x := range s.Sub {
			y := x.asRead()
			if s.K == "index" {
				y = x // indices are evaluated as numbers
			}
			t.Sub = append(t.Sub, y)
		}
		e.Sel = append(e.Sel, t)
	}
	return e
}

var specialInts = []int64{0, 1, -1, 2, 7, 10, -128, 255, 65536, 1 << 31, -(1 << 31), 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1000000, 999999, 21, 123456789012345678}
var specialReals = []float64{0, math.Copysign(0, -1), 0.1, -1.5, 0.5, 3, 1e6, 1e20, 1e21, 123456.789, 1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1.0 / 3, 2.2250738585072014e-308, 9007199254740993, 9.223372036854776e18, -9.223372036854775808e18, 1e5, 0.1 + 0.2, 100, 1e15}

func drawInt64(t *rapid.T) int64 {
	switch rapid.IntRange(0, 3).Draw(t, "ik") {
	case 0:
		return int64(rapid.IntRange(-20, 120).Draw(t, "i"))
	case 1:
		return pick(t, "i", specialInts)
	case 2:
		return rapid.Int64().Draw(t, "i")
	}
	return int64(1)<<uint(rapid.IntRange(0, 62).Draw(t, "sh")) + int64(rapid.IntRange(-2, 2).Draw(t, "d"))
}

func drawFloat(t *rapid.T) float64 {
	switch rapid.IntRange(0, 4).Draw(t, "fk") {
	case 0:
		return float64(rapid.IntRange(-2000, 2000).Draw(t, "q")) / float64(pick(t, "d", []int{1, 2, 4, 10, 3}))
	case 1:
		return pick(t, "f", specialReals)
	case 2:
		return math.Float64frombits(rapid.Uint64().Draw(t, "bits"))
	case 3:
		return float64(drawInt64(t))
	}
	m := float64(rapid.IntRange(1, 9999).Draw(t, "m"))
	return m * math.Pow(10, float64(rapid.IntRange(-330, 308).Draw(t, "e")))
}

var plainStrings = []string{"", "a", "abc", "true", "12", "-1", "a b", "$a", "x;y", "é", "日本", "#", "# c", "#{x}#", "{", "}", "(", ")", "[", "]", "\"", "\"\"\"", "\\", "\\n", "\n", "\\\n", "$", "$*", "*", "**", "a*b", "a#b", "a\"b", "a\\", "\\\\", "\t", "\x00", "\xff", "\xc3\xa9", "a\\b", "{a}", "[list ()]", "a\r\nb", "\"\"EOF\nx\nEOF\"\"", "\\x41", "tab\tsep", " lead", "trail ", "\v\f", "😀", "$[x]", "${x}", "$(x)"}

func drawStr(t *rapid.T) string {
	switch rapid.IntRange(0, 3).Draw(t, "sk") {
	case 0, 1:
		return pick(t, "s", plainStrings)
	}
	return lexText(t, 6)
}

// noEscapeSource draws a script source without escapes.
func noEscapeSource(t *rapid.T) string {
	if chance(t, "gen", 60) {
		s, _ := drawScript(t, rapid.IntRange(1, 12).Draw(t, "budget"))
		if sc, err := hx.Parse("{" + s + "}"); !strings.Contains(s, "\\") && err == nil && len(sc.Sentences) == 1 && len(sc.Sentences[0].Words) == 1 {
			return s
		}
	}
	return pick(t, "src", []string{"", "a", "a b", "cmd $x {y z}; t", "\n a\n", "# comment\na", "1", "true", "a;b", "\"q $x [y]\"", "\"\"\"here\"\"\"", "(1 2)", "#{c}# a", "\"\"EOF\n } \nEOF\"\" x", "  a  ", "idem $*x"})
}

// drawDV draws a value; display restricts it to values with a readable display form.
func drawDV(t *rapid.T, depth int, display bool) DV {
	hi := 11
	if depth <= 0 {
		hi = 5
	}
	sub := func(lo int) []DV {
		n := rapid.IntRange(lo, 3).Draw(t, "n")
		out := []DV{}
		for i := 0; i < n; i++ {
			out = append(out, drawDV(t, depth-1, display))
		}
		return out
	}
	if !display && chance(t, "odd", 15) {
		switch rapid.IntRange(0, 3).Draw(t, "oddk") {
		case 0:
			return DV{K: "cmd"}
		case 1:
			return DV{K: "custom"}
		case 2:
			return DV{K: "nosrc", S: hx.Text(noEscapeSource(t))}
		}
		return DV{K: "script", S: hx.Text(pick(t, "esc", []string{"\\n", "a\\\n b", "\"\\\"\"", "\\x41"}))}
	}
	switch rapid.IntRange(0, hi).Draw(t, "kind") {
	case 0, 1:
		return DV{K: "str", S: hx.Text(drawStr(t))}
	case 2:
		return DV{K: "int", I: drawInt64(t)}
	case 3:
		return DV{K: "real", F: math.Float64bits(drawFloat(t))}
	case 4:
		return DV{K: "bool", B: rapid.Bool().Draw(t, "b")}
	case 5:
		if chance(t, "nil", 30) {
			return DV{K: "nil"}
		}
		return DV{K: "script", S: hx.Text(noEscapeSource(t))}
	case 6, 7:
		return DV{K: "tuple", Sub: sub(0)}
	case 8:
		return DV{K: "list", Sub: sub(0)}
	case 9:
		d := DV{K: "dict"}
		seen := map[string]bool{}
		for _, x := range sub(0) {
			k := drawStr(t)
			if !seen[k] {
				seen[k] = true
				d.Sub, d.Key = append(d.Sub, x), append(d.Key, hx.Text(k))
			}
		}
		return d
	}
	// qualified
	d := DV{K: "qual"}
	if chance(t, "tuplesource", 25) {
		d.Sub = []DV{{K: "tuple", Sub: sub(0)}}
	} else {
		d.Sub = []DV{{K: "str", S: hx.Text(drawStr(t))}}
	}
	prev := ""
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "sels"); i < n; i++ {
		s := DSel{K: pick(t, "selkind", []string{"index", "keys", "rules"})}
		if s.K == "keys" && prev == "keys" {
			s.K = "index"
		}
		prev = s.K
		switch s.K {
		case "index":
			v := drawInt64(t)
			if int64(float64(v)) != v || v == math.MaxInt64 {
				v = 3 // number words are double-precision
			}
			s.Sub = []DV{{K: "int", I: v}}
			if chance(t, "realindex", 15) {
				f := drawFloat(t)
				if f == math.Trunc(f) || math.IsNaN(f) {
					f = 1.5
				}
				s.Sub = []DV{{K: "real", F: math.Float64bits(f)}}
			}
		case "keys":
			s.Sub = sub(1)
		case "rules":
			for j, m := 0, rapid.IntRange(1, 2).Draw(t, "rules"); j < m; j++ {
				s.Sub = append(s.Sub, DV{K: "tuple", Sub: sub(1)})
			}
		}
		d.Sel = append(d.Sel, s)
	}
	return d
}
