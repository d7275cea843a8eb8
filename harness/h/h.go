// Package h is the property-checking engine: registration of sub-checks,
// worker (rapid-driven search), replay, and bookkeeping of what was explored.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Rec collects classification of one case.
type Rec struct {
	key    string
	nt     bool
	labels []string
}

// NonTrivial marks the case as non-trivial; cases with equal keys count once.
func (r *Rec) NonTrivial(key string) { r.nt = true; r.key = key }

// Label counts a feature of the case in the distribution.
func (r *Rec) Label(l string) { r.labels = append(r.labels, l) }

// Labelf counts a feature of the case in the distribution.
func (r *Rec) Labelf(f string, a ...any) { r.labels = append(r.labels, fmt.Sprintf(f, a...)) }

// Sub is one sub-check of a property.
type Sub struct {
	Prop, Name, Rule string
	Quick, Thorough  int
	// Serial sub-checks own all cores for their run (concurrency checks).
	Serial bool
	// Race sub-checks run in the race-detector build of this program.
	Race bool
	gen  func(*rapid.T) any
	dec  func([]byte) (any, error)
	run  func(any, *Rec) error
}

// Subs is the registry.
var Subs []*Sub

// Reg registers a sub-check.
func Reg[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) C, run func(C, *Rec) error) *Sub {
	s := &Sub{Prop: prop, Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	s.gen = func(t *rapid.T) any { return gen(t) }
	s.dec = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	s.run = func(c any, r *Rec) error { return run(c.(C), r) }
	Subs = append(Subs, s)
	return s
}

// Find returns the sub-checks of a property.
func Find(prop string) (out []*Sub) {
	for _, s := range Subs {
		if s.Prop == prop {
			out = append(out, s)
		}
	}
	return
}

// FindSub returns one sub-check.
func FindSub(prop, name string) *Sub {
	for _, s := range Subs {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Safe runs the oracle on a case; a panic of the code under test is a failure.
func (s *Sub) Safe(c any, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("host panic: %v\n%s", p, trimStack(st))
		}
	}()
	return s.run(c, r)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	// drop frames of the recover machinery
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			lines = lines[i:]
			break
		}
	}
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Stats is what a worker reports.
type Stats struct {
	Prop, Sub   string
	Evaluations int
	Keys        []uint64
	Labels      map[string]int
	Samples     []json.RawMessage
	Failed      bool
	Err         string
	Case        json.RawMessage
	Known       int
	Inconcl     string
}

// TB is a minimal rapid.TB.
type TB struct {
	name   string
	failed bool
	Out    strings.Builder
}

type stopTB struct{}

func (t *TB) Helper()                   {}
func (t *TB) Name() string              { return t.name }
func (t *TB) Logf(f string, a ...any)   { fmt.Fprintf(&t.Out, f+"\n", a...) }
func (t *TB) Log(a ...any)              { fmt.Fprintln(&t.Out, a...) }
func (t *TB) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (t *TB) Skip(a ...any)             { panic(stopTB{}) }
func (t *TB) SkipNow()                  { panic(stopTB{}) }
func (t *TB) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *TB) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *TB) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(stopTB{}) }
func (t *TB) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(stopTB{}) }
func (t *TB) FailNow()                  { t.failed = true; panic(stopTB{}) }
func (t *TB) Fail()                     { t.failed = true }
func (t *TB) Failed() bool              { return t.failed }

// Hooks let the worker observe each case.
type Hooks struct {
	Before func(raw []byte)
	After  func()
	Known  func(raw []byte) bool
}

// Explore drives the sub-check with rapid; flags (seed, checks) are set by the caller.
func (s *Sub) Explore(hk Hooks) *Stats {
	st := &Stats{Prop: s.Prop, Sub: s.Name, Labels: map[string]int{}}
	keys := map[uint64]struct{}{}
	tb := &TB{name: s.Prop + "/" + s.Name}
	nextSample := 1
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopTB); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := s.gen(t)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			if hk.Before != nil {
				hk.Before(raw)
			}
			// the oracle sees the decoded case, so that replays are exact
			dc, err := s.dec(raw)
			if err != nil {
				panic(err)
			}
			r := &Rec{}
			err = s.Safe(dc, r)
			if hk.After != nil {
				hk.After()
			}
			if !st.Failed {
				st.Evaluations++
				for _, l := range r.labels {
					st.Labels[l]++
				}
				if r.nt {
					hh := fnv.New64a()
					hh.Write([]byte(r.key))
					k := hh.Sum64()
					if _, ok := keys[k]; !ok {
						keys[k] = struct{}{}
						if len(keys) == nextSample && len(st.Samples) < 4 && len(raw) < 4000 {
							st.Samples = append(st.Samples, append(json.RawMessage{}, raw...))
							nextSample *= 7
						}
					}
				}
			}
			if err != nil {
				if hk.Known != nil && hk.Known(raw) {
					st.Known++
					return
				}
				st.Failed = true
				st.Err = err.Error()
				st.Case = append(json.RawMessage{}, raw...)
				t.Fatalf("violation")
			}
		})
	}()
	if tb.failed && !st.Failed {
		st.Inconcl = tb.Out.String()
	}
	for k := range keys {
		st.Keys = append(st.Keys, k)
	}
	sort.Slice(st.Keys, func(i, j int) bool { return st.Keys[i] < st.Keys[j] })
	return st
}

// Replay runs the oracle on a saved case.
func (s *Sub) Replay(raw []byte) (error, error) {
	c, err := s.dec(raw)
	if err != nil {
		return nil, err
	}
	return s.Safe(c, &Rec{}), nil
}
