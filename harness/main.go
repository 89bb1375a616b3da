// Command harness runs the monitored workloads that decide the properties in
// /verif/properties.jsonl against the code in /repo.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Workload is a family of generated cases plus the monitor that judges them.
type Workload struct {
	Name     string
	Quick    int    // number of cases, quick tier
	Thorough int    // number of cases, thorough tier
	Mode     string // "", "race", "asan": which build executes it
	Procs    int    // 0: one worker per CPU
	Fn       func(c *Case)
}

// Property is one claimed property.
type Property struct {
	ID    string
	Rule  string
	W     []Workload
	Notes []string
}

var registry = map[string]*Property{}

func register(p *Property) {
	if _, ok := registry[p.ID]; ok {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

// Case is one execution of a workload.
type Case struct {
	Prop, Workload string
	Idx            int
	Seed           int64
	Tier           string
	R              *rand.Rand
	Desc           string // description, put into samples and reports
	dir            string
	mu             sync.Mutex
	fails          []Failure
	events         map[string]int64
	sigs           []uint64
	trivial        bool
}

// Failure is a monitor report.
type Failure struct {
	Prop     string `json:"property"`
	Workload string `json:"workload"`
	Idx      int    `json:"idx"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Mode     string `json:"mode"`
	Key      string `json:"key"` // non-empty: candidate for the known findings file
	Msg      string `json:"msg"`
	Desc     string `json:"desc"`
}

type stopCase struct{}

// Failf reports a violation and abandons the case.
func (c *Case) Failf(format string, a ...interface{}) {
	c.report("", fmt.Sprintf(format, a...))
	panic(stopCase{})
}

// Known reports a violation identified by key; it is quiet only if key is
// listed in known-findings.jsonl.
func (c *Case) Known(key, format string, a ...interface{}) {
	c.report(key, fmt.Sprintf(format, a...))
}

func (c *Case) report(key, msg string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(msg) > 6000 {
		msg = msg[:6000] + "...(truncated)"
	}
	c.fails = append(c.fails, Failure{Prop: c.Prop, Workload: c.Workload, Idx: c.Idx, Seed: c.Seed, Tier: c.Tier, Mode: buildMode, Key: key, Msg: msg, Desc: c.Desc})
}

// Obs counts observed events of a kind.
func (c *Case) Obs(kind string, n int) {
	c.mu.Lock()
	c.events[kind] += int64(n)
	c.mu.Unlock()
}

// Sig records a signature of what this case exercised.
func (c *Case) Sig(a ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, c.Workload, a)
	c.mu.Lock()
	c.sigs = append(c.sigs, h.Sum64())
	c.mu.Unlock()
}

// Trivial marks the case as not counting as non-trivial.
func (c *Case) Trivial() { c.trivial = true }

// Dir returns a scratch directory, removed afterwards.
func (c *Case) Dir() string {
	if c.dir == "" {
		d, err := ioutil.TempDir("", "vcase")
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}

// Panics runs fn and reports whether it panicked (and with what).
func Panics(fn func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				panic(r)
			}
			p = r
		}
	}()
	fn()
	return nil
}

var buildMode = ""

type workerResult struct {
	Cases    int64               `json:"cases"`
	NonTriv  int64               `json:"nontriv"`
	Events   map[string]int64    `json:"events"`
	PerW     map[string]int64    `json:"perw"`
	Sigs     []uint64            `json:"-"`
	Samples  map[string][]string `json:"samples"`
	Fails    []Failure           `json:"fails"`
	Finished bool                `json:"finished"`
}

func caseSeed(seed int64, prop, w string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, w, idx)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func runCase(p *Property, w *Workload, idx int, seed int64, tier string) *Case {
	cs := caseSeed(seed, p.ID, w.Name, idx)
	c := &Case{Prop: p.ID, Workload: w.Name, Idx: idx, Seed: seed, Tier: tier, R: rand.New(rand.NewSource(cs)), events: map[string]int64{}}
	rand.Seed(cs ^ 0x5bd1e995)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				c.report("", fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(debug.Stack())))
			}
		}()
		w.Fn(c)
	}()
	if c.dir != "" {
		os.RemoveAll(c.dir)
	}
	return c
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "runtime/") || strings.HasPrefix(l, "panic(") {
			continue
		}
		out = append(out, l)
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

const (
	cpuLimit  = 150 * time.Second
	wallLimit = 400 * time.Second
)

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	out := fs.String("out", "", "")
	mode := fs.String("mode", "", "")
	only := fs.String("only", "", "workload")
	onlyIdx := fs.Int("idx", -1, "")
	fs.Parse(args)
	buildMode = *mode
	p := registry[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	prog, err := os.Create(*out + ".progress")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	res := &workerResult{Events: map[string]int64{}, PerW: map[string]int64{}, Samples: map[string][]string{}}
	sigs := map[uint64]bool{}
	if *mode == "" || *mode == "cgo" {
		// memory that grows without end is the case's failure, not the machine's
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	}
	var startWall, startCPU, running int64
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if atomic.LoadInt64(&running) == 0 {
				continue
			}
			scale := time.Duration(1)
			if *mode != "" || *tier == "thorough" {
				scale = 3
			}
			if cpuTime()-time.Duration(atomic.LoadInt64(&startCPU)) > scale*cpuLimit ||
				time.Since(time.Unix(0, atomic.LoadInt64(&startWall))) > scale*wallLimit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "WATCHDOG: case did not terminate\n%s\n", buf[:n])
				os.Exit(97)
			}
		}
	}()
	for wi := range p.W {
		w := &p.W[wi]
		if w.Mode != *mode && *only == "" {
			continue
		}
		if *only != "" && w.Name != *only {
			continue
		}
		n := w.Quick
		if *tier == "thorough" {
			n = w.Thorough
		}
		procs := *shards
		if w.Procs > 0 && w.Procs < procs {
			procs = w.Procs
		}
		if *shard >= procs && *onlyIdx < 0 {
			continue
		}
		for i := 0; i < n || *onlyIdx >= 0; i++ {
			if *onlyIdx >= 0 {
				i = *onlyIdx
			} else if i%procs != *shard {
				continue
			}
			prog.WriteAt([]byte(fmt.Sprintf("%-40s %10d\n", w.Name, i)), 0)
			atomic.StoreInt64(&startWall, time.Now().UnixNano())
			atomic.StoreInt64(&startCPU, int64(cpuTime()))
			atomic.StoreInt64(&running, 1)
			c := runCase(p, w, i, *seed, *tier)
			atomic.StoreInt64(&running, 0)
			res.Cases++
			res.PerW[w.Name]++
			for k, v := range c.events {
				res.Events[k] += v
			}
			if !c.trivial {
				for _, s := range c.sigs {
					if !sigs[s] {
						sigs[s] = true
						res.NonTriv++
					}
				}
			}
			if c.Desc != "" && len(res.Samples[w.Name]) < 1 && *shard == 0 && !c.trivial {
				d := c.Desc
				if len(d) > 700 {
					d = d[:700] + "..."
				}
				res.Samples[w.Name] = append(res.Samples[w.Name], d)
			}
			res.Fails = append(res.Fails, c.fails...)
			unlisted := 0
			for _, f := range res.Fails {
				if f.Key == "" {
					unlisted++
				}
			}
			if unlisted >= 3 || *onlyIdx >= 0 {
				break
			}
		}
	}
	res.Finished = true
	b, _ := json.Marshal(res)
	if err := ioutil.WriteFile(*out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sb := new(bytes.Buffer)
	for s := range sigs {
		binary.Write(sb, binary.LittleEndian, s)
	}
	ioutil.WriteFile(*out+".sigs", sb.Bytes(), 0644)
}

type knownFinding struct {
	Status string `json:"status"` // "finding" or "fixed"
	Prop   string `json:"property"`
	Key    string `json:"key"`
	What   string `json:"what"`
}

func readKnown(path string) map[string]knownFinding {
	ret := map[string]knownFinding{}
	f, err := os.Open(path)
	if err != nil {
		return ret
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Status == "finding" {
			ret[k.Prop+"|"+k.Key] = k
		}
	}
	return ret
}

func tail(s string, n int) string {
	if len(s) > n {
		h := n / 2
		return s[:h] + "\n...\n" + s[len(s)-h:]
	}
	return s
}

func runMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	raceBin := fs.String("racebin", "", "")
	asanBin := fs.String("asanbin", "", "")
	only := fs.String("only", "", "")
	onlyIdx := fs.Int("idx", -1, "")
	fs.Parse(args)
	start := time.Now()
	p := registry[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(3)
	}
	self, _ := os.Executable()
	bins := map[string]string{"": self, "cgo": self, "race": *raceBin, "asan": *asanBin}
	kn := readKnown(*known)
	work, err := ioutil.TempDir("", "vrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(work)
	modes := map[string]bool{}
	for _, w := range p.W {
		if *only != "" && w.Name != *only {
			continue
		}
		modes[w.Mode] = true
	}
	total := &workerResult{Events: map[string]int64{}, PerW: map[string]int64{}, Samples: map[string][]string{}}
	sigs := map[uint64]bool{}
	var fails []Failure
	hardErr := ""
	var order []string
	for _, m := range []string{"", "cgo", "race", "asan"} {
		if modes[m] {
			order = append(order, m)
		}
	}
	for _, m := range order {
		if bins[m] == "" {
			hardErr = "no binary for mode " + m
			break
		}
		n := runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if *onlyIdx >= 0 {
			n = 1
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		for s := 0; s < n; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				out := filepath.Join(work, fmt.Sprintf("w%s%d", m, s))
				tmp := out + ".tmp"
				os.Mkdir(tmp, 0755)
				a := []string{"worker", "-prop", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-shard", fmt.Sprint(s), "-shards", fmt.Sprint(n), "-out", out, "-mode", m}
				if *only != "" {
					a = append(a, "-only", *only)
				}
				if *onlyIdx >= 0 {
					a = append(a, "-idx", fmt.Sprint(*onlyIdx))
				}
				cmd := exec.Command(bins[m], a...)
				cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GORACE=halt_on_error=1 exitcode=66", "ASAN_OPTIONS=detect_leaks=0:halt_on_error=1:exitcode=67:detect_stack_use_after_return=0", "GOTRACEBACK=all", "GLIBC_TUNABLES=glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0:glibc.malloc.arena_max=1")
				if m == "cgo" { // as the Go runtime has it by default
					cmd.Env = append(cmd.Env, "GODEBUG=randautoseed=0,randseednop=0")
				}
				cmd.Dir = tmp
				var errb bytes.Buffer
				cmd.Stderr = &errb
				err := cmd.Run()
				mu.Lock()
				defer mu.Unlock()
				var wr workerResult
				b, rerr := ioutil.ReadFile(out)
				if err == nil && rerr == nil && json.Unmarshal(b, &wr) == nil && wr.Finished {
					total.Cases += wr.Cases
					for k, v := range wr.Events {
						total.Events[k] += v
					}
					for k, v := range wr.PerW {
						total.PerW[k] += v
					}
					for k, v := range wr.Samples {
						total.Samples[k] = append(total.Samples[k], v...)
					}
					fails = append(fails, wr.Fails...)
					sb, _ := ioutil.ReadFile(out + ".sigs")
					for i := 0; i+8 <= len(sb); i += 8 {
						sigs[binary.LittleEndian.Uint64(sb[i:])] = true
					}
					return
				}
				pb, _ := ioutil.ReadFile(out + ".progress")
				var wn string
				var idx int
				k, _ := fmt.Sscanf(string(pb), "%s %d", &wn, &idx)
				if ws, ok := err.(*exec.ExitError); ok {
					if st, ok := ws.Sys().(syscall.WaitStatus); ok && st.Signaled() && (st.Signal() == syscall.SIGKILL || st.Signal() == syscall.SIGTERM) {
						hardErr = "worker was killed: " + err.Error()
						return
					}
				}
				if k != 2 || err == nil {
					hardErr = fmt.Sprintf("worker failed: %v %s", err, tail(errb.String(), 3000))
					return
				}
				fails = append(fails, Failure{Prop: *prop, Workload: wn, Idx: idx, Seed: *seed, Tier: *tier, Mode: m,
					Msg: fmt.Sprintf("process executing the case died: %v\n%s", err, tail(errb.String(), 5000))})
			}(s)
		}
		wg.Wait()
	}
	wall := time.Since(start).Seconds()
	sort.SliceStable(fails, func(i, j int) bool {
		if fails[i].Workload != fails[j].Workload {
			return fails[i].Workload < fails[j].Workload
		}
		return fails[i].Idx < fails[j].Idx
	})
	violations := 0
	knownSeen := map[string]bool{}
	rc := 0
	for _, f := range fails {
		if f.Key != "" {
			if k, ok := kn[f.Prop+"|"+f.Key]; ok {
				if !knownSeen[f.Key] {
					knownSeen[f.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", f.Prop, f.Key, k.What)
				}
				continue
			}
		}
		violations++
		if violations > 10 {
			continue
		}
		rp := "none"
		if *replays != "" {
			os.MkdirAll(*replays, 0755)
			rp = filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", f.Prop, f.Workload, f.Idx))
			b, _ := json.MarshalIndent(f, "", " ")
			ioutil.WriteFile(rp, b, 0644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, rp)
		fmt.Printf("  workload=%s case=%d mode=%q key=%q\n  %s\n", f.Workload, f.Idx, f.Mode, f.Key, strings.Replace(tail(f.Msg, 2500), "\n", "\n  ", -1))
		if f.Desc != "" {
			fmt.Printf("  case: %s\n", tail(f.Desc, 1500))
		}
		rc = 1
	}
	if *onlyIdx < 0 && *only == "" && *evidence != "" {
		var samples []interface{}
		var wn []string
		for k := range total.Samples {
			wn = append(wn, k)
		}
		sort.Strings(wn)
		for _, k := range wn {
			for _, s := range total.Samples[k] {
				samples = append(samples, map[string]string{"workload": k, "case": s})
			}
		}
		if samples == nil {
			samples = []interface{}{}
		}
		ev := map[string]interface{}{
			"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "wall_s": wall, "violations": violations,
			"coverage": map[string]interface{}{
				"evaluations": total.Cases, "distinct_nontrivial": len(sigs), "rule": p.Rule, "samples": samples,
				"events_observed": total.Events, "cases_per_workload": total.PerW, "build_modes": order, "known_findings_seen": len(knownSeen),
			},
			"assumptions": p.Notes,
		}
		if p.Notes == nil {
			delete(ev, "assumptions")
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evidence), 0755)
		if err := ioutil.WriteFile(*evidence, append(b, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	fmt.Printf("%s %s: cases=%d distinct=%d violations=%d wall=%.1fs events=%v\n", *prop, *tier, total.Cases, len(sigs), violations, wall, total.Events)
	if rc == 1 {
		os.Exit(1)
	}
	if hardErr != "" {
		fmt.Fprintln(os.Stderr, "ERROR:", hardErr)
		os.Exit(3)
	}
	if total.Cases == 0 || len(sigs) == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: nothing was observed")
		os.Exit(3)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|worker|modes ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "run":
		runMain(os.Args[2:])
	case "list":
		// prints every workload: property, name, build mode, cases per tier
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, w := range registry[id].W {
				fmt.Printf("%s\t%s\t%s\t%d\t%d\n", id, w.Name, w.Mode, w.Quick, w.Thorough)
			}
		}
	case "modes":
		// prints the build modes the property needs
		p := registry[os.Args[2]]
		if p == nil {
			os.Exit(3)
		}
		m := map[string]bool{}
		for _, w := range p.W {
			if w.Mode != "" && w.Mode != "cgo" && !m[w.Mode] {
				m[w.Mode] = true
				fmt.Println(w.Mode)
			}
		}
	default:
		os.Exit(3)
	}
}
