package props

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"helena/core"
	"verifharness/h"
	"verifharness/hx"

	"pgregory.net/rapid"
)

var reInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
var reDec = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

// refInt reads an integer numeral exactly.
func refInt(s string) (int64, bool) {
	if !reInt.MatchString(s) {
		return 0, false
	}
	b, ok := new(big.Int).SetString(strings.TrimPrefix(s, "+"), 10)
	if !ok || !b.IsInt64() {
		return 0, false
	}
	return b.Int64(), true
}

// refReal reads a numeral as the nearest real.
func refReal(s string) (float64, bool) {
	if !reDec.MatchString(s) {
		// other forms (hexadecimal, infinities, not-a-number): the host numerals documented by the API
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 && len(s)-i > 5 {
		f, err := strconv.ParseFloat(s, 64)
		return f, err == nil
	}
	q, ok := new(big.Rat).SetString(strings.TrimPrefix(s, "+"))
	if !ok {
		return 0, false
	}
	f, _ := q.Float64()
	if math.IsInf(f, 0) {
		return 0, false
	}
	if f == 0 && strings.HasPrefix(s, "-") {
		f = math.Copysign(0, -1)
	}
	return f, true
}

func numeral(t *rapid.T) string {
	digits := func(lo, hi int) string {
		s := ""
		for i, n := 0, stretch(t, "nd", lo, hi); i < n; i++ {
			s += string(rune('0' + rapid.IntRange(0, 9).Draw(t, "d")))
		}
		return s
	}
	switch rapid.IntRange(0, 8).Draw(t, "numeral") {
	case 0:
		return strconv.FormatInt(drawInt64(t), 10)
	case 1:
		return strconv.FormatFloat(drawFloat(t), pick(t, "fmt", []byte{'g', 'e', 'f', 'E'}), pick(t, "prec", []int{-1, 3, 17, 20}), 64)
	case 2:
		s := pick(t, "sign", []string{"", "-", "+"}) + digits(0, 3)
		if chance(t, "dot", 60) {
			s += "." + digits(0, 3)
		}
		if chance(t, "exp", 50) {
			s += pick(t, "e", []string{"e", "E"}) + pick(t, "esign", []string{"", "-", "+"}) + digits(0, 3)
		}
		return s
	case 3:
		return pick(t, "edge", []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616", "00012", "+5", "-0", "0", "1e3", "1.0", "1.", ".5", ".", "+", "-", "--1", "+-1", "1e", "e1", "1e400", "1e-400", "-1e400", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880", "2.4703282292062327e-324", "2.4703282292062328e-324", "9007199254740993", "9007199254740992.5", "0.1", "1e+06"})
	case 4:
		return pick(t, "odd", []string{"0x10", "0x1p4", "0X1.8p1", "0b101", "0o17", "1_000", "0x_1p1", "1_0.5", "inf", "Inf", "-Infinity", "+inf", "NaN", "nan", "-nan", "infinit", "1,000", "1.2.3", "١٢", "½", "1e5.5", "1f", "1L", "0x", "1e1000000000000", "1E+5", "1.e1"})
	case 5: // mutated numeral
		s := numeral(t)
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		return s[:i] + pick(t, "ins", []string{" ", "\n", "\t", "_", "+", "-", ".", "e", "x", "0", "\x00", "é", "f", "'"}) + s[i:]
	case 6:
		return digits(15, 40)
	case 7:
		return digits(1, 20) + "." + digits(1, 40)
	}
	return pick(t, "word", []string{"true", "false", "True", "TRUE", "yes", "1", "0", "", " true", "true ", "tru", "truefalse", "nil", "x", "a b"})
}

func floatWant(f float64) core.Value {
	if f == math.Trunc(f) && !math.IsInf(f, 0) {
		b, acc := new(big.Float).SetFloat64(f).Int64()
		if acc == big.Exact && new(big.Float).SetInt64(b).Cmp(new(big.Float).SetFloat64(f)) == 0 {
			return core.INT(b)
		}
	}
	return core.REAL(f)
}

func init() {
	h.Reg("P07", "conversions", "the value converts to at least one of boolean, integer and real, or is a near-numeral text", 15000, 600000,
		func(t *rapid.T) DV {
			switch rapid.IntRange(0, 9).Draw(t, "class") {
			case 0, 1, 2, 3, 4:
				return DV{K: "str", S: hx.Text(numeral(t))}
			case 5:
				s := numeral(t)
				if _, err := hx.Parse(s); err != nil {
					s = "12"
				}
				return DV{K: pick(t, "sk", []string{"script", "script", "nosrc"}), S: hx.Text(s)}
			case 6:
				return DV{K: "int", I: drawInt64(t)}
			case 7, 8:
				return DV{K: "real", F: math.Float64bits(drawFloat(t))}
			}
			return drawDV(t, 1, false)
		}, runConversions)
}

func runConversions(d DV, r *h.Rec) error {
	v := d.value()
	s, hasString := d.hostString()
	// the exact counterparts
	wi, okI := int64(0), false
	wf, okF := 0.0, false
	wb, okB := false, false
	if hasString {
		wi, okI = refInt(s)
		wf, okF = refReal(s)
		wb, okB = s == "true", s == "true" || s == "false"
	}
	switch d.K {
	case "int":
		wi, okI, wf, okF = d.I, true, float64(d.I), true
		if back, ok := refInt(s); !ok || back != d.I {
			return fmt.Errorf("integer %d is written %q", d.I, s)
		}
	case "real":
		wf, okF = math.Float64frombits(d.F), true
	}
	r.Labelf("%s int=%v real=%v bool=%v", d.K, okI, okF, okB)
	if okI || okF || okB || (hasString && strings.ContainsAny(s, "0123456789")) {
		r.NonTrivial(d.K + s)
	}
	same := func(a, b float64) bool { return hx.FloatRepr(a) == hx.FloatRepr(b) }
	fail := func(what string, got any, want any, ok bool) error {
		return fmt.Errorf("%s of %s gives %v, expected %v (accepted: %v)", what, hx.Repr(v), got, want, ok)
	}
	ok := core.ResultCode_OK
	// host API
	if x, g := core.ValueToString(v); (x.Code == ok) != hasString || g != s {
		return fail("ValueToString", g, s, hasString)
	}
	if x, g := core.StringValueFromValue(v); (x.Code == ok) != hasString || hasString && (g.Value != s || hx.Repr(x.Value) != hx.Repr(core.STR(s))) {
		return fail("StringValueFromValue", g, s, hasString)
	}
	if x, g := core.ValueToStringOrDefault(v, "dflt"); x.Code != ok || hasString && g != s || !hasString && g != "dflt" {
		return fail("ValueToStringOrDefault", g, s, hasString)
	}
	if x, g := core.ValueToInteger(v); (x.Code == ok) != okI || okI && g != wi {
		return fail("ValueToInteger", g, wi, okI)
	}
	if x, g := core.IntegerValueFromValue(v); (x.Code == ok) != okI || okI && (g.Value != wi || hx.Repr(x.Value) != hx.Repr(core.INT(wi))) {
		return fail("IntegerValueFromValue", g, wi, okI)
	}
	if x, g := core.ValueToFloat(v); (x.Code == ok) != okF || okF && !same(g, wf) {
		return fail("ValueToFloat", g, wf, okF)
	}
	if x, g := core.RealValueFromValue(v); (x.Code == ok) != okF || okF && (!same(g.Value, wf) || hx.Repr(x.Value) != hx.Repr(core.REAL(wf))) {
		return fail("RealValueFromValue", g, wf, okF)
	}
	if x, g := core.ValueToBoolean(v); (x.Code == ok) != okB || okB && g != wb {
		return fail("ValueToBoolean", g, wb, okB)
	}
	if x, g := core.BooleanValueFromValue(v); (x.Code == ok) != okB || okB && (g.Value != wb || hx.Repr(x.Value) != hx.Repr(core.BOOL(wb))) {
		return fail("BooleanValueFromValue", g, wb, okB)
	}
	if hasString {
		_, strI := refInt(s)
		_, strF := refReal(s)
		if core.StringIsInteger(s) != strI {
			return fail("StringIsInteger", !strI, strI, strI)
		}
		if core.StringIsNumber(s) != strF {
			return fail("StringIsNumber", !strF, strF, strF)
		}
	}
	// the display form reads back
	switch d.K {
	case "int":
		if g := core.Display(v, nil); g != s {
			return fail("Display", g, s, true)
		}
	case "real":
		if back, ok := refReal(core.Display(v, nil)); !ok || !same(back, wf) {
			return fail("Display", core.Display(v, nil), wf, true)
		}
		if back, ok := refReal(s); !ok || !same(back, wf) {
			return fail("string form", s, wf, true)
		}
	}
	// commands: explicit and implicit conversions
	sc := hx.New()
	sc.SetNamedVariable("x", v)
	type probe struct {
		src  string
		ok   bool
		want core.Value
	}
	probes := []probe{
		{"int $x", okI, core.INT(wi)},
		{"real $x", okF, core.REAL(wf)},
		{"bool $x", okB, core.BOOL(wb)},
		{"string $x", hasString, core.STR(s)},
		{"+ $x", okF, floatWant(0 + wf)},
		{"* $x", okF, floatWant(wf)},
		{"- $x", okF, floatWant(-wf)},
		{"* 1 $x", okF, floatWant(wf)},
		{"0 == $x", okF, core.BOOL(wf == 0)},
		{"1 * $x", okF, floatWant(wf)},
		{"string \"\" append $x", hasString, core.STR(s)},
		{"idem \"[idem $x]\"", hasString, core.STR(s)},
		{"list (a b c) at $x dflt", okI, core.STR(map[int64]string{0: "a", 1: "b", 2: "c"}[wi] + map[bool]string{true: "dflt"}[wi < 0 || wi > 2])},
		{"string abc at $x dflt", okI, core.STR(map[int64]string{0: "a", 1: "b", 2: "c"}[wi] + map[bool]string{true: "dflt"}[wi < 0 || wi > 2])},
		{"dict (k v) has $x", hasString, core.BOOL(s == "k")},
	}
	if d.K != "script" && d.K != "nosrc" {
		probes = append(probes,
			probe{"if $x {idem yes} else {idem no}", okB, core.STR(map[bool]string{true: "yes", false: "no"}[wb])},
			probe{"! $x", okB, core.BOOL(!wb)},
			probe{"&& true $x", okB, core.BOOL(wb)},
			probe{"|| false $x", okB, core.BOOL(wb)},
			probe{"while [idem $x] {break}", okB && !wb, core.NIL},
			probe{"repeat $x {break}", false, nil},
		)[:len(probes)+4]
	}
	if okF && d.K != "script" && d.K != "nosrc" {
		probes = append(probes, probe{"$x", true, floatWant(wf)}, probe{"$x + 0", true, floatWant(wf + 0)}, probe{"$x == $x", true, core.BOOL(wf == wf)})
		if d.K == "str" {
			sc.SetNamedVariable("c", core.TUPLE([]core.Value{v, core.STR("<"), core.STR("1")}))
			probes = append(probes, probe{"$c", true, core.BOOL(wf < 1)})
		}
	}
	for _, p := range probes {
		res, err := hx.Run(sc, p.src)
		if err != nil {
			return err
		}
		if !p.ok {
			if res.Code != core.ResultCode_ERROR {
				return fmt.Errorf("%q with x=%s gives %s, expected an error", p.src, hx.Repr(v), hx.Out(res))
			}
			continue
		}
		if res.Code != ok || hx.Repr(res.Value) != hx.Repr(p.want) {
			return fmt.Errorf("%q with x=%s gives %s, expected %s", p.src, hx.Repr(v), hx.Out(res), hx.Repr(p.want))
		}
	}
	return nil
}
