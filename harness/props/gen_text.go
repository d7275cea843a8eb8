package props

import (
	"strings"

	"pgregory.net/rapid"
	"verifharness/hx"
)

// pick draws an element of a slice.
func pick[T any](t *rapid.T, label string, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// chance is true with probability about p percent (false when shrunk).
func chance(t *rapid.T, label string, p int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-p
}

// rare is true less than once in a hundred times (chance is at least 3 in 100 in fact, as rapid
// favours the ends of a range).
func rare(t *rapid.T) bool { return chance(t, "rare", 1) && chance(t, "really", 35) }

// stretch draws a size between lo and hi, rarely a much larger one.
func stretch(t *rapid.T, label string, lo, hi int) int {
	if rare(t) {
		return rapid.IntRange(hi, 16*hi+16).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// repeats draws the length of a long run, around the powers of two up to 1024.
func repeats(t *rapid.T) int {
	return (2 << rapid.IntRange(1, 9).Draw(t, "log")) + rapid.IntRange(-2, 9).Draw(t, "about")
}

// long is the text, rarely repeated many times.
func long(t *rapid.T, s string) string {
	if rare(t) {
		return strings.Repeat(s, repeats(t))
	}
	return s
}

var lexAtoms = []string{
	"a", " ", "\n", "b", "\\", "\"", "\"\"", "\"\"\"", "$", "*", "#", "##", "{", "}", "(", ")", "[", "]", ";",
	"\t", "\r", "\f", "\v", "0", "7", "8", "x", "u", "U", "\\\n", "\\x", "\\u", "\\U", "\\x4", "\\41", "\\101", "\\377", "\\777",
	"\\u00e9", "\\U0001F600", "\\UFFFFFFFF", "\\ud800", "é", "日", "😀", "\x00", "\xff", "\xc3", "\xa9", "EOF", "#{", "}#", "\"\"EOF", "$*", "$$", "\\a", "\\n", "\\\\", "\\\"", "word", "12", "1.5", "-", "+",
	"F", "f", "9", "A", "  ", "\n\n",
}

// lexText draws a text made of lexically interesting atoms and arbitrary bytes.
func lexText(t *rapid.T, max int) string {
	n := rapid.IntRange(0, max).Draw(t, "n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if k := rapid.IntRange(0, 15).Draw(t, "k"); k == 15 {
			b.WriteByte(byte(rapid.IntRange(0, 255).Draw(t, "byte")))
		} else {
			b.WriteString(long(t, pick(t, "atom", lexAtoms)))
		}
	}
	return b.String()
}

// TextCase is a case made of one text.
type TextCase struct{ Src hx.Text }
