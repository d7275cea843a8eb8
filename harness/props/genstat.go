package props

import (
	"fmt"
	"sort"

	"helena/core"
	"pgregory.net/rapid"
	"verifharness/hx"
)

// Profiles by name, for exploration and for the checks.
var profiles = map[string]profile{}

// GenStat draws programs in a profile and summarizes what they do.
func GenStat(name string, n, seed, show, maxErr int) (out []string) {
	p, has := profiles[name]
	if !has {
		p = baseProfile()
	}
	gen := rapid.Custom(func(t *rapid.T) session { return drawSession(t, p) })
	count := map[string]int{}
	msgs := map[string]int{}
	size, calls := 0, 0
	for i := 0; i < n; i++ {
		s := gen.Example(seed + i)
		if i < show || show < 0 && len(errMessages(s)) > 0 {
			out = append(out, "-----", listing(s))
		}
		st, good, err := safeDiff(s)
		for _, x := range errMessages(s) {
			msgs[x]++
		}
		for _, x := range s.Scripts {
			size += len(x)
		}
		switch {
		case !good:
			count["discarded"]++
		case err != nil:
			count["DIFFERENT"]++
			if count["DIFFERENT"] <= maxErr {
				out = append(out, "=====", err.Error())
			}
		default:
			calls += st.calls
			count[fmt.Sprintf("calls:%d", min(st.calls/3*3, 15))]++
			for c := range st.codes {
				count["code "+c]++
			}
		}
	}
	ks := []string{}
	for k := range count {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, fmt.Sprintf("%-20s %d", k, count[k]))
	}
	type mc struct {
		m string
		n int
	}
	ms := []mc{}
	for m, n := range msgs {
		ms = append(ms, mc{m, n})
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].n > ms[j].n || ms[i].n == ms[j].n && ms[i].m < ms[j].m })
	for i, m := range ms {
		if i < 25 {
			out = append(out, fmt.Sprintf("  %5d %s", m.n, m.m))
		}
	}
	return append(out, fmt.Sprintf("mean size %d, mean traced calls %.1f", size/n, float64(calls)/float64(n)))
}

func safeDiff(s session) (st diffStats, good bool, err error) {
	defer func() {
		if x := recover(); x != nil {
			good, err = true, fmt.Errorf("%spanic: %v", listing(s), x)
		}
	}()
	return diffSession(s, 20000, nil)
}

// errMessages are the error messages of a session.
func errMessages(s session) (out []string) {
	defer func() { recover() }()
	sc := hx.New()
	k := 0
	traceReal(sc, func([]core.Value) {
		if k++; k > 3000 {
			panic("stop")
		}
	})
	realSession(sc, s, func(i int, r core.Result, parsed bool) {
		if k++; k > 3000 {
			panic("stop")
		}
		if parsed && r.Code == core.ResultCode_ERROR {
			out = append(out, hx.Repr(r.Value))
		} else if !parsed {
			_, e := hx.Parse(s.Scripts[i])
			out = append(out, "parse error "+e.Error())
		}
	})
	return
}
