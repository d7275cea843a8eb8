// verif: property checks for helena-go.
//
//	verif check P05 [-tier quick|thorough] [-seed N] [-verif DIR]
//	verif worker ...            (internal)
//	verif replay FILE           run a saved case
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"verifharness/h"
	_ "verifharness/props"
)

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check|worker|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		os.Exit(worker(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for _, s := range h.Subs {
			fmt.Printf("%s %s quick=%d thorough=%d\t%s\n", s.Prop, s.Name, s.Quick, s.Thorough, s.Rule)
		}
	default:
		os.Exit(2)
	}
}

const caseCPULimit = 40 * time.Second
const caseRSSLimit = 5 << 30

// watch ends the process with status 3 when one case uses up far more CPU or memory than any case may.
type watch struct{ n atomic.Int64 }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}
func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}
func (w *watch) start(limit time.Duration) {
	go func() {
		last, base := w.n.Load(), cpuTime()
		for {
			time.Sleep(250 * time.Millisecond)
			if n := w.n.Load(); n != last {
				last, base = n, cpuTime()
			}
			if cpuTime()-base > limit {
				fmt.Fprintln(os.Stderr, "RUNAWAY: case exceeds CPU limit")
				os.Exit(3)
			}
			if rss() > caseRSSLimit {
				fmt.Fprintln(os.Stderr, "RUNAWAY: case exceeds memory limit")
				os.Exit(3)
			}
		}
	}()
}

func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	sub := fs.String("sub", "", "")
	n := fs.Int("n", 100, "")
	seed := fs.Uint64("seed", 1, "")
	out := fs.String("out", "", "")
	journal := fs.String("journal", "", "")
	known := fs.String("known", "", "")
	shrink := fs.String("shrink", "15s", "")
	fs.Parse(args)
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.checks", strconv.Itoa(*n))
	flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", *shrink)
	debug.SetMaxStack(256 << 20)
	s := h.FindSub(*prop, *sub)
	if s == nil {
		return 2
	}
	knownSet := map[string]bool{}
	if *known != "" {
		b, _ := os.ReadFile(*known)
		for _, l := range strings.Split(string(b), "\n") {
			knownSet[l] = true
		}
	}
	var jf *os.File
	if *journal != "" {
		jf, _ = os.Create(*journal)
	}
	w := &watch{}
	w.start(caseCPULimit)
	st := s.Explore(h.Hooks{
		Before: func(raw []byte) {
			w.n.Add(1)
			if jf != nil {
				hdr := fmt.Sprintf("%010d\n", len(raw))
				jf.WriteAt(append([]byte(hdr), raw...), 0)
			}
		},
		Known: func(raw []byte) bool { return knownSet[string(raw)] },
	})
	b, _ := json.Marshal(st)
	if err := os.WriteFile(*out, b, 0644); err != nil {
		return 2
	}
	return 0
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	s := h.FindSub(rf.Property, rf.Sub)
	if s == nil {
		fmt.Fprintln(os.Stderr, "unknown sub-check", rf.Property, rf.Sub)
		return 2
	}
	debug.SetMaxStack(256 << 20)
	w := &watch{}
	w.start(caseCPULimit)
	verr, err := s.Replay(rf.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if verr != nil {
		fmt.Println(verr)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Println("held")
	return 0
}

type knownFinding struct {
	prop, file, what string
}

func loadKnown(verif, prop string) (out []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=P05 case=known/x.json what fails
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+prop && strings.HasPrefix(f[1], "case=") {
			out = append(out, knownFinding{prop, filepath.Join(verif, strings.TrimPrefix(f[1], "case=")), f[2]})
		}
	}
	return
}

func readReplay(file string) (rf replayFile, err error) {
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	return
}

// binFor returns the program to run the sub-check in.
func binFor(s *h.Sub) string {
	self, _ := os.Executable()
	if s != nil && s.Race {
		return self + "-race"
	}
	return self
}

// runReplay runs one saved case in a process of its own.
func runReplay(file string) (status int, output string) {
	rf, err := readReplay(file)
	if err != nil {
		return 2, err.Error()
	}
	cmd := exec.Command(binFor(h.FindSub(rf.Property, rf.Sub)), "replay", file)
	cmd.Env = workerEnv()
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return 2, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(300 * time.Second):
		cmd.Process.Kill()
		<-done
		return 4, "replay did not end"
	}
	return cmd.ProcessState.ExitCode(), buf.String()
}

func workerEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GODEBUG=") || strings.HasPrefix(e, "GOTRACEBACK=") || strings.HasPrefix(e, "GOGC=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GORACE=halt_on_error=1 exitcode=66", "GOGC=200")
}

func isCrash(status int, out string) bool {
	return strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:") ||
		strings.Contains(out, "WARNING: DATA RACE") || strings.Contains(out, "unexpected fault address")
}

func check(args []string) int {
	prop := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	scale := fs.Float64("scale", 1, "")
	only := fs.String("sub", "", "")
	fs.Parse(args[1:])
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	start := time.Now()
	subs := h.Find(prop)
	if len(subs) == 0 {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return 2
	}
	if *only != "" {
		var f []*h.Sub
		for _, s := range subs {
			if s.Name == *only {
				f = append(f, s)
			}
		}
		subs = f
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	os.Setenv("TMPDIR", tmp)
	replayDir := filepath.Join(*verif, "replays")

	violations := []string{}
	inconcl := []string{}
	addViolation := func(sub, why string, c json.RawMessage) {
		os.MkdirAll(replayDir, 0755)
		b, _ := json.MarshalIndent(replayFile{prop, sub, why, c}, "", " ")
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%s.json", prop, sub))
		os.WriteFile(path, append(b, '\n'), 0644)
		if len(why) > 3000 {
			why = why[:3000] + "..."
		}
		fmt.Printf("--- %s/%s\ncase: %s\n%s\n", prop, sub, truncate(string(c), 3000), why)
		violations = append(violations, path)
	}

	// Known findings and regression cases.
	known := loadKnown(*verif, prop)
	knownRaw := []string{}
	knownHit := 0
	for _, k := range known {
		rf, err := readReplay(k.file)
		if err != nil {
			fmt.Fprintln(os.Stderr, "known finding:", err)
			return 2
		}
		var cb bytes.Buffer
		json.Compact(&cb, rf.Case)
		knownRaw = append(knownRaw, cb.String())
		if st, out := runReplay(k.file); st == 1 || isCrash(st, out) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
			knownHit++
		}
	}
	regress, _ := filepath.Glob(filepath.Join(*verif, "regress", prop+"-*.json"))
	sort.Strings(regress)
	var rmu sync.Mutex
	var rwg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for _, f := range regress {
		rwg.Add(1)
		sem <- struct{}{}
		go func(f string) {
			defer func() { <-sem; rwg.Done() }()
			st, out := runReplay(f)
			if st == 0 {
				return
			}
			rf, _ := readReplay(f)
			rmu.Lock()
			defer rmu.Unlock()
			if st == 1 || st == 3 || isCrash(st, out) {
				addViolation(rf.Sub, "saved case "+filepath.Base(f)+": "+truncate(out, 2000), rf.Case)
			} else {
				inconcl = append(inconcl, fmt.Sprintf("saved case %s: status %d: %s", f, st, truncate(out, 500)))
			}
		}(f)
	}
	rwg.Wait()

	knownFile := filepath.Join(tmp, "known")
	os.WriteFile(knownFile, []byte(strings.Join(knownRaw, "\n")), 0644)

	type task struct {
		s     *h.Sub
		shard int
		n     int
	}
	var par, ser []task
	for _, s := range subs {
		n := s.Quick
		if *tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * *scale)
		if n < 1 {
			n = 1
		}
		if s.Serial {
			ser = append(ser, task{s, 0, n})
			continue
		}
		shards := 8
		if n < 64 {
			shards = 1
		}
		for i := 0; i < shards; i++ {
			k := n / shards
			if i < n%shards {
				k++
			}
			par = append(par, task{s, i, k})
		}
	}
	type agg struct {
		evals  int
		keys   map[uint64]struct{}
		labels map[string]int
		samp   []json.RawMessage
	}
	aggs := map[string]*agg{}
	var mu sync.Mutex
	failedSub := map[string]bool{}
	runTask := func(t task) {
		mu.Lock()
		if failedSub[t.s.Name] {
			mu.Unlock()
			return
		}
		mu.Unlock()
		id := fmt.Sprintf("%s-%d", t.s.Name, t.shard)
		outF, jF := filepath.Join(tmp, id+".out"), filepath.Join(tmp, id+".journal")
		ws := uint64(seed)*1000003 + uint64(t.shard)*7919 + 17
		if ws == 0 {
			ws = 1
		}
		shrink := "15s"
		if *tier == "thorough" {
			shrink = "60s"
		}
		cmd := exec.Command(binFor(t.s), "worker", "-prop", prop, "-sub", t.s.Name, "-n", strconv.Itoa(t.n),
			"-seed", strconv.FormatUint(ws, 10), "-out", outF, "-journal", jF, "-known", knownFile, "-shrink", shrink)
		cmd.Env = workerEnv()
		var buf bytes.Buffer
		cmd.Stdout, cmd.Stderr = &buf, &buf
		err := cmd.Run()
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			// The worker died: confirm the journaled case in a process of its own.
			st := cmd.ProcessState.ExitCode()
			out := buf.String()
			jb, jerr := os.ReadFile(jF)
			if jerr == nil && len(jb) > 11 && (st == 3 || isCrash(st, out)) {
				n, _ := strconv.Atoi(string(jb[:10]))
				raw := jb[11:]
				if n <= len(raw) {
					raw = raw[:n]
				}
				cf := filepath.Join(tmp, id+".json")
				b, _ := json.Marshal(replayFile{prop, t.s.Name, "", json.RawMessage(raw)})
				os.WriteFile(cf, b, 0644)
				var cst int
				var cout string
				for try := 0; try < 3; try++ {
					cst, cout = runReplay(cf)
					if cst != 0 || !t.s.Race {
						break
					}
				}
				if cst == 1 || cst == 3 || isCrash(cst, cout) {
					failedSub[t.s.Name] = true
					why := "the host process is brought down or never gets an answer:\n" + truncate(cout, 2500)
					addViolation(t.s.Name, why, json.RawMessage(raw))
					return
				}
				if t.s.Race && strings.Contains(out, "WARNING: DATA RACE") {
					// a data race is a violation whenever it is seen
					failedSub[t.s.Name] = true
					addViolation(t.s.Name, "data race:\n"+truncate(out, 2500), json.RawMessage(raw))
					return
				}
			}
			inconcl = append(inconcl, fmt.Sprintf("worker %s: %v\n%s", id, err, truncate(out, 2000)))
			return
		}
		b, rerr := os.ReadFile(outF)
		var st h.Stats
		if rerr != nil || json.Unmarshal(b, &st) != nil {
			inconcl = append(inconcl, "worker "+id+": no result")
			return
		}
		a := aggs[t.s.Name]
		if a == nil {
			a = &agg{keys: map[uint64]struct{}{}, labels: map[string]int{}}
			aggs[t.s.Name] = a
		}
		a.evals += st.Evaluations
		for _, k := range st.Keys {
			a.keys[k] = struct{}{}
		}
		for l, n := range st.Labels {
			a.labels[l] += n
		}
		if len(a.samp) < 3 {
			a.samp = append(a.samp, st.Samples...)
		}
		if st.Failed {
			if !failedSub[t.s.Name] {
				failedSub[t.s.Name] = true
				addViolation(t.s.Name, st.Err, st.Case)
			}
		} else if st.Inconcl != "" {
			inconcl = append(inconcl, "worker "+id+": "+truncate(st.Inconcl, 1000))
		}
	}
	var wg sync.WaitGroup
	for _, t := range par {
		wg.Add(1)
		sem <- struct{}{}
		go func(t task) { defer func() { <-sem; wg.Done() }(); runTask(t) }(t)
	}
	wg.Wait()
	for _, t := range ser {
		runTask(t)
	}

	// Evidence.
	total, nt := 0, 0
	rules := []string{}
	perSub := map[string]any{}
	samples := []any{}
	for _, s := range subs {
		a := aggs[s.Name]
		if a == nil {
			continue
		}
		total += a.evals
		nt += len(a.keys)
		rules = append(rules, s.Name+": "+s.Rule)
		perSub[s.Name] = map[string]any{"cases": a.evals, "nontrivial": len(a.keys), "labels": a.labels}
		for i, x := range a.samp {
			if i < 3 {
				samples = append(samples, map[string]any{"sub": s.Name, "case": x})
			}
		}
	}
	ev := map[string]any{
		"property": prop, "tier": *tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": nt,
			"rule": strings.Join(rules, " | "), "samples": samples, "per_sub": perSub,
			"saved_cases_rerun": len(regress), "known_findings_seen": knownHit,
		},
		"assumptions": []string{"cases are those the generators can produce (see DESIGN.md); absence of a violation is not a proof"},
		"wall_s":      time.Since(start).Seconds(), "violations": len(violations),
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", prop+".json"), append(eb, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, v := range violations {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v)
	}
	if len(violations) > 0 {
		return 1
	}
	if len(inconcl) > 0 {
		for _, s := range inconcl {
			fmt.Println("INCONCLUSIVE:", s)
		}
		return 2
	}
	fmt.Printf("property %s held on %d cases (%d distinct non-trivial) in %.1fs\n", prop, total, nt, time.Since(start).Seconds())
	return 0
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
