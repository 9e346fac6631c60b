// Command etxemon runs the monitors for one property: it drives the real
// packages with generated workloads, observes every execution and compares it
// with an oracle.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// prop is a property with its workload and oracle.
type prop struct {
	id              string
	quick, thorough int // number of cases
	run             func(*C)
	workers         int // 0: all cores
	race            bool
	sweep           int  // percentage of the edits of small documents that are judged before the other cases
	fast            bool // most cases may run on the parser that is used again
	per             int  // cases per process (0: all), so that first uses are observed too
	rule            string
	must            []string // what must have been observed for a verdict
	assumptions     []string
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

// C is one case: an execution under observation.
type C struct {
	p      *prop
	idx    int
	r      *rng
	s      *stats
	inputs []kv
	known  bool    // the case replays a known finding
	fast   bool    // parses with the parser that is used again
	given  *string // the text to judge, in a sweep
}

type kv struct {
	Name string `json:"name"`
	Text string `json:"text"`
}

type failure struct{ msg string }

// fail ends the case with a violation.
func (c *C) fail(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// input records what the case ran on, for the replay file.
func (c *C) input(name, text string) {
	for i := range c.inputs {
		if c.inputs[i].Name == name {
			c.inputs[i].Text = text
			return
		}
	}
	c.inputs = append(c.inputs, kv{name, text})
}

// saw counts observations.
func (c *C) saw(what string, n int) {
	if n != 0 {
		c.s.Counters[what] += int64(n)
	}
}

// eval counts one execution; key identifies its content if it is non-trivial.
func (c *C) eval(nontrivial bool, key string) {
	c.s.Evaluations++
	if nontrivial {
		c.s.Distinct[hashString(key)] = true
		if len(c.s.Samples) < 2 && len(key) < 700 {
			c.s.Samples = append(c.s.Samples, key)
		}
	}
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type stats struct {
	Evaluations int64
	Counters    map[string]int64
	Distinct    map[uint64]bool
	Samples     []string
}

func newStats() *stats { return &stats{Counters: map[string]int64{}, Distinct: map[uint64]bool{}} }

func (s *stats) merge(o *stats) {
	s.Evaluations += o.Evaluations
	for k, v := range o.Counters {
		s.Counters[k] += v
	}
	for k := range o.Distinct {
		s.Distinct[k] = true
	}
	if len(s.Samples) < 4 {
		s.Samples = append(s.Samples, o.Samples...)
	}
	if len(s.Samples) > 4 {
		s.Samples = s.Samples[:4]
	}
}

type violation struct {
	Property string `json:"property"`
	Seed     uint64 `json:"seed"`
	Index    int    `json:"index"`
	Message  string `json:"message"`
	Inputs   []kv   `json:"inputs"`
	How      string `json:"how_to_replay"`
}

type result struct {
	Evaluations int64
	Distinct    int
	Counters    map[string]int64
	Samples     []string
	Violations  []violation
	Hashes      []uint64 `json:",omitempty"`
}

var (
	flagProp   = flag.String("prop", "", "property")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagSeed   = flag.Uint64("seed", 1, "seed")
	flagDir    = flag.String("dir", ".", "the /verif directory")
	flagWork   = flag.String("work", "", "scratch directory")
	flagChild  = flag.Bool("child", false, "internal")
	flagOnly   = flag.Int("only", -1, "run a single case")
	flagCases  = flag.Int("cases", 0, "override the number of cases")
	flagReplay = flag.String("replay", "", "replay a violation file")
	flagFrom   = flag.Int("from", 0, "internal")
	flagTo     = flag.Int("to", 0, "internal")
)

const (
	exitHang   = 77
	exitMemory = 78
	exitRace   = 66

	caseLimit  = 100 * time.Second // a case normally takes milliseconds
	rssLimitMB = 14000
)

func main() {
	flag.Parse()
	if *flagReplay != "" {
		var v violation
		b, err := os.ReadFile(*flagReplay)
		must(err)
		must(json.Unmarshal(b, &v))
		*flagProp, *flagSeed, *flagOnly = v.Property, v.Seed, v.Index
	}
	p := props[*flagProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *flagProp)
		os.Exit(2)
	}
	if *flagWork == "" {
		d, err := os.MkdirTemp("", "etxemon")
		must(err)
		*flagWork = d
	}
	if *flagChild {
		child(p)
		return
	}
	os.Exit(parent(p))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

func (p *prop) sweeps(i int) bool { return p.sweep > 0 && i < sweepCases() }

func (p *prop) cases() int {
	if *flagCases > 0 {
		return *flagCases
	}
	n := 0
	if p.sweep > 0 {
		n = sweepCases()
	}
	if *flagTier == "thorough" {
		return n + p.thorough
	}
	return n + p.quick
}

// /////////////////////////////////////
// The child runs the cases.

type slot struct {
	idx   atomic.Int64 // case + 1
	since atomic.Int64
	_     [48]byte
}

func child(p *prop) {
	debug.SetMaxStack(512 << 20)
	workers := p.workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	first, last := *flagFrom, *flagTo
	if *flagOnly >= 0 {
		first, last, workers = *flagOnly, *flagOnly+1, 1
	}
	slots := make([]slot, workers)
	inflight, err := os.Create(filepath.Join(*flagWork, "inflight"))
	must(err)
	go watch(slots)

	var (
		next  atomic.Int64
		stop  atomic.Bool
		mu    sync.Mutex
		wg    sync.WaitGroup
		total = newStats()
		viols []violation
	)
	next.Store(int64(first))
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := newStats()
			for !stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= last {
					break
				}
				slots[w].since.Store(time.Now().UnixNano())
				slots[w].idx.Store(int64(i) + 1)
				inflight.WriteAt([]byte(fmt.Sprintf("%15d\n", i)), int64(w*16))
				if v := runCase(p, i, st); v != nil {
					mu.Lock()
					viols = append(viols, *v)
					if len(viols) >= 4 {
						stop.Store(true)
					}
					mu.Unlock()
				}
				slots[w].idx.Store(0)
			}
			inflight.WriteAt([]byte(fmt.Sprintf("%15d\n", -1)), int64(w*16))
			mu.Lock()
			total.merge(st)
			mu.Unlock()
		}()
	}
	wg.Wait()
	sort.Slice(viols, func(a, b int) bool { return viols[a].Index < viols[b].Index })
	res := result{Evaluations: total.Evaluations, Distinct: len(total.Distinct), Counters: total.Counters, Samples: total.Samples, Violations: viols}
	if p.per > 0 {
		for h := range total.Distinct {
			res.Hashes = append(res.Hashes, h)
		}
	}
	b, err := json.Marshal(res)
	must(err)
	must(os.WriteFile(filepath.Join(*flagWork, "result.json"), b, 0o644))
}

// runCase runs a case. What it tells of the parser that is used again has to
// be confirmed on a fresh one.
func runCase(p *prop, i int, st *stats) *violation {
	if reused == nil || *flagOnly >= 0 || !p.sweeps(i) && (!p.fast || i%8 == 0) {
		return runOnce(p, i, st, false)
	}
	v := runOnce(p, i, st, true)
	if v == nil {
		st.Counters["cases on a parser that is used again"]++
		return nil
	}
	if v = runOnce(p, i, st, false); v == nil {
		st.Counters["not confirmed on a fresh parser, not judged"]++
	}
	return v
}

func runOnce(p *prop, i int, st *stats, fast bool) (v *violation) {
	c := &C{p: p, idx: i, r: newRng(*flagSeed, p.id, uint64(i)), s: st, fast: fast}
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		v = &violation{Property: p.id, Seed: *flagSeed, Index: i, Inputs: c.inputs,
			How: fmt.Sprintf("sh /verif/run.sh %s --replay <this file>", p.id)}
		if f, ok := e.(failure); ok {
			v.Message = f.msg
			return
		}
		stack := string(debug.Stack())
		if s := fmt.Sprint(e); strings.HasPrefix(s, "harness:") {
			fmt.Fprintln(os.Stderr, s, stack)
			os.Exit(2)
		}
		v.Message = fmt.Sprintf("panic: %v\n%s", e, stack)
	}()
	if p.sweeps(i) {
		c.swept()
	} else {
		p.run(c)
	}
	return nil
}

// watch ends the process when a case does not return or memory runs away.
func watch(slots []slot) {
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		for i := range slots {
			if slots[i].idx.Load() != 0 && now-slots[i].since.Load() > int64(caseLimit) && slots[i].idx.Load() != 0 {
				if now-slots[i].since.Load() > int64(caseLimit) {
					fmt.Fprintf(os.Stderr, "case %d has not returned after %v\n%s\n", slots[i].idx.Load()-1, caseLimit, allStacks())
					os.Exit(exitHang)
				}
			}
		}
		if rssMB() > rssLimitMB {
			fmt.Fprintf(os.Stderr, "memory use over %d MB\n%s\n", rssLimitMB, allStacks())
			os.Exit(exitMemory)
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<18)
	return string(buf[:runtime.Stack(buf, true)])
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, rss int
	fmt.Sscan(string(b), &size, &rss)
	return rss * os.Getpagesize() >> 20
}

// /////////////////////////////////////
// The parent judges.

type outcome struct {
	res    *result
	code   int
	stderr string
	races  []string
}

func spawn(p *prop, only, from, to int) outcome {
	os.Remove(filepath.Join(*flagWork, "result.json"))
	old, _ := filepath.Glob(filepath.Join(*flagWork, "race.*"))
	for _, f := range old {
		os.Remove(f)
	}
	exe, err := os.Executable()
	must(err)
	args := []string{"-child", "-prop", p.id, "-tier", *flagTier, "-seed", fmt.Sprint(*flagSeed), "-dir", *flagDir, "-work", *flagWork, "-cases", fmt.Sprint(*flagCases), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to)}
	if only >= 0 {
		args = append(args, "-only", fmt.Sprint(only))
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(*flagWork, "race"), "GOTRACEBACK=all")
	ef, err := os.Create(filepath.Join(*flagWork, "stderr"))
	must(err)
	cmd.Stdout, cmd.Stderr = ef, ef
	err = cmd.Run()
	ef.Close()
	out := outcome{}
	if err != nil {
		out.code = -1
		if x, ok := err.(*exec.ExitError); ok {
			out.code = x.ExitCode()
		}
	}
	b, _ := os.ReadFile(filepath.Join(*flagWork, "stderr"))
	out.stderr = string(b)
	if b, err := os.ReadFile(filepath.Join(*flagWork, "result.json")); err == nil {
		out.res = &result{}
		must(json.Unmarshal(b, out.res))
	}
	logs, _ := filepath.Glob(filepath.Join(*flagWork, "race.*"))
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, block := range strings.Split(string(b), "==================") {
			if strings.Contains(block, "DATA RACE") {
				out.races = append(out.races, block)
			}
		}
	}
	return out
}

const repoPath = "github.com/hexbee-net/etxe/pkg/"

func parent(p *prop) int {
	start := time.Now()
	if *flagReplay != "" {
		return verdict(p, start, spawn(p, *flagOnly, 0, 0), nil)
	}
	if p.per == 0 || *flagOnly >= 0 {
		out, extra, code := runRange(p, 0, p.cases())
		if code != 0 {
			return code
		}
		return verdict(p, start, out, extra)
	}
	// Several processes, one after the other.
	total := newStats()
	var all outcome
	var viols, extras []violation
	for from := 0; from < p.cases() && len(viols)+len(extras)+len(all.races) < 4; from += p.per {
		to := from + p.per
		if to > p.cases() {
			to = p.cases()
		}
		out, extra, code := runRange(p, from, to)
		if code != 0 {
			return code
		}
		st := &stats{Evaluations: out.res.Evaluations, Counters: out.res.Counters, Samples: out.res.Samples, Distinct: map[uint64]bool{}}
		for _, h := range out.res.Hashes {
			st.Distinct[h] = true
		}
		total.merge(st)
		total.Counters["processes"]++
		viols = append(viols, out.res.Violations...)
		extras = append(extras, extra...)
		all.races = append(all.races, out.races...)
	}
	all.res = &result{Evaluations: total.Evaluations, Distinct: len(total.Distinct), Counters: total.Counters, Samples: total.Samples, Violations: viols}
	return verdict(p, start, all, extras)
}

// runRange runs cases in a process of their own. A code other than 0 means
// that there is no verdict.
func runRange(p *prop, from, to int) (outcome, []violation, int) {
	out := spawn(p, *flagOnly, from, to)
	var extra []violation
	if out.res == nil {
		// The child died: find out which case did it.
		if out.code == 2 && strings.Contains(out.stderr, "harness:") {
			fmt.Fprintln(os.Stderr, clipTo(out.stderr, 4000))
			return out, nil, 2
		}
		b, _ := os.ReadFile(filepath.Join(*flagWork, "inflight"))
		for _, f := range strings.Fields(string(b)) {
			var idx int
			fmt.Sscan(f, &idx)
			if idx < 0 || len(extra) > 0 {
				continue
			}
			again := spawn(p, idx, 0, 0)
			switch {
			case again.res != nil && len(again.res.Violations) > 0:
				extra = append(extra, again.res.Violations...)
			case again.res == nil && again.code != 2 || again.res == nil && !strings.Contains(again.stderr, "harness:"):
				what := "the process crashed"
				switch again.code {
				case exitHang:
					what = "an operation never returned"
				case exitMemory:
					what = "an operation used unbounded memory"
				}
				extra = append(extra, violation{Property: p.id, Seed: *flagSeed, Index: idx, Message: what + "\n" + clipTo(again.stderr, 20000)})
			}
		}
		if len(extra) == 0 {
			if out.code != exitHang && out.code != exitMemory && strings.Contains(out.stderr, repoPath) {
				extra = append(extra, violation{Property: p.id, Seed: *flagSeed, Index: -1, Message: "the process crashed\n" + clipTo(out.stderr, 20000)})
			} else {
				fmt.Fprintf(os.Stderr, "inconclusive: the driver ended with code %d and no single case reproduces it\n%s\n", out.code, clipTo(out.stderr, 4000))
				return out, nil, 2
			}
		}
		out.res = &result{Counters: map[string]int64{}}
	}
	return out, extra, 0
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

var reRaceFrame = regexp.MustCompile(`(?m)^  (\S+)\(`)

func verdict(p *prop, start time.Time, out outcome, extra []violation) int {
	if out.res == nil {
		fmt.Fprintf(os.Stderr, "the driver ended with code %d\n%s\n", out.code, clipTo(out.stderr, 8000))
		if *flagReplay != "" && out.code != 2 {
			return 1
		}
		return 2
	}
	viols := append(out.res.Violations, extra...)
	seen := map[string]bool{}
	own := false
	for _, r := range out.races {
		own = own || strings.Contains(r, repoPath)
	}
	for _, r := range out.races {
		if !strings.Contains(r, repoPath) {
			if own || len(viols) > 0 {
				continue // in the wake of the others
			}
			fmt.Fprintf(os.Stderr, "harness: a race outside the code under test\n%s\n", r)
			return 2
		}
		var fr []string
		for _, m := range reRaceFrame.FindAllStringSubmatch(r, -1) {
			if strings.Contains(m[1], repoPath) {
				fr = append(fr, m[1])
			}
		}
		key := strings.Join(fr, " ")
		if !seen[key] && len(seen) < 4 {
			seen[key] = true
			viols = append(viols, violation{Property: p.id, Seed: *flagSeed, Index: *flagOnly, Message: "data race\n" + r})
		}
	}
	inconclusive := ""
	if len(viols) == 0 && *flagOnly < 0 {
		for _, m := range p.must {
			if out.res.Counters[m] == 0 {
				inconclusive = "never observed: " + m
			}
		}
		if out.res.Evaluations == 0 {
			inconclusive = "nothing was run"
		}
	}
	if *flagReplay == "" && *flagOnly < 0 {
		knownFindings(p)
		writeEvidence(p, start, out, len(viols))
	}
	if inconclusive != "" {
		fmt.Fprintln(os.Stderr, "inconclusive:", inconclusive)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %d races, %.1fs\n", p.id, *flagTier, *flagSeed, out.res.Evaluations, out.res.Distinct, len(out.races), time.Since(start).Seconds())
	if len(viols) == 0 {
		return 0
	}
	dir := filepath.Join(*flagDir, "replay")
	os.MkdirAll(dir, 0o755)
	for i, v := range viols {
		if *flagReplay != "" {
			fmt.Println(v.Message)
			continue
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.id, *flagSeed, i))
		b, _ := json.MarshalIndent(v, "", "  ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
		fmt.Printf("  %s\n", strings.ReplaceAll(clipTo(v.Message, 1500), "\n", "\n  "))
	}
	return 1
}

func writeEvidence(p *prop, start time.Time, out outcome, viols int) {
	cov := map[string]any{
		"evaluations":         out.res.Evaluations,
		"distinct_nontrivial": out.res.Distinct,
		"rule":                p.rule,
		"samples":             out.res.Samples,
		"observed":            out.res.Counters,
	}
	if p.race {
		cov["race_reports"] = len(out.races)
	}
	ev := map[string]any{
		"property": p.id, "tier": *flagTier, "seed": *flagSeed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viols,
	}
	if len(p.assumptions) > 0 {
		ev["assumptions"] = p.assumptions
	}
	b, err := json.MarshalIndent(ev, "", "  ")
	must(err)
	dir := filepath.Join(*flagDir, "evidence")
	os.MkdirAll(dir, 0o755)
	must(os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644))
}
