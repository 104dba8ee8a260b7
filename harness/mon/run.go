package mon

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	maxViolations = 5
	cpuLimit      = 60               // CPU seconds that a single case may burn when rerun alone
	stuckAfter    = 45 * time.Second // when to suspect a case; the verdict comes from the rerun
	memLimit      = 6 << 30          // bytes, whole worker
	memLimitAlone = 3 << 30          // bytes, single case
)

// Violation is one refuting observation.
type Violation struct {
	Case   int               `json:"case"`
	Msg    string            `json:"msg"`
	Inputs map[string]string `json:"inputs,omitempty"`
}

type result struct {
	Cases      int               `json:"cases"`
	Events     map[string]int    `json:"events"`
	Distinct   int               `json:"distinct"`
	Samples    []string          `json:"samples"`
	Known      map[string]string `json:"known"`
	Violations []Violation       `json:"violations"`
}

// slots is a file-backed table of the case that each worker goroutine is
// running, which survives a crash of the worker.
type slots struct{ mem []byte }

func openSlots(path string, n int, create bool) (*slots, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if create {
		if err := f.Truncate(int64(n * 8)); err != nil {
			return nil, err
		}
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, n*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &slots{mem}, nil
}

func (s *slots) set(i, v int)  { binary.LittleEndian.PutUint64(s.mem[i*8:], uint64(v+1)) }
func (s *slots) get(i int) int { return int(binary.LittleEndian.Uint64(s.mem[i*8:])) - 1 }
func (s *slots) close()        { syscall.Munmap(s.mem) }

const maxWorkers = 64

func workers(p *Prop) int {
	n := p.Workers
	if n == 0 {
		n = runtime.NumCPU()
	}
	if n > maxWorkers {
		n = maxWorkers
	}
	return n
}

// slowLog names a file that gets the slow cases, for tuning workloads.
var slowLog = os.Getenv("HCLMON_SLOW")

// WorkerMain runs cases from..to (or a single one) and writes the result.
func WorkerMain(p *Prop, seed uint64, tier string, from, to int, dir string, known map[string]bool, verbose bool) error {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(300)
	sl, err := openSlots(filepath.Join(dir, "slots"), maxWorkers, false)
	if err != nil {
		return err
	}
	res := &result{Events: map[string]int{}, Known: map[string]string{}}
	sigs := map[uint64]struct{}{}
	var mu sync.Mutex
	var next = int64(from) - 1
	var stop int32
	var wg sync.WaitGroup
	n := workers(p)
	if to-from < n {
		n = to - from
	}
	for w := 0; w < n; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer sl.set(w, -1)
			for atomic.LoadInt32(&stop) == 0 {
				i := int(atomic.AddInt64(&next, 1))
				if i >= to {
					return
				}
				sl.set(w, i)
				c := newCase(p, seed, i, tier, known)
				began := time.Now()
				o := runCase(p, c)
				if d := time.Since(began); slowLog != "" && d > 300*time.Millisecond {
					f, _ := os.OpenFile(slowLog, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
					fmt.Fprintln(f, p.ID, i, d)
					f.Close()
				}
				mu.Lock()
				res.Cases++
				for k, v := range c.events {
					res.Events[k] += v
				}
				for _, s := range c.sigs {
					if len(sigs) < 5000000 {
						sigs[s] = struct{}{}
					}
				}
				for k, v := range c.hits {
					if _, ok := res.Known[k]; !ok {
						res.Known[k] = v
					}
				}
				for _, s := range c.samples {
					if len(res.Samples) < 6 && len(s) < 2000 {
						res.Samples = append(res.Samples, s)
					}
				}
				if verbose {
					for _, in := range c.inputs {
						fmt.Printf("--- %s\n%s\n", in.name, in.data)
					}
					ks := make([]string, 0)
					for k := range c.events {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						fmt.Printf("event %s: %d\n", k, c.events[k])
					}
				}
				if o.msg != "" {
					v := Violation{Case: i, Msg: o.msg, Inputs: map[string]string{}}
					for _, in := range c.inputs {
						v.Inputs[in.name] = in.data
					}
					res.Violations = append(res.Violations, v)
					if len(res.Violations) >= maxViolations {
						atomic.StoreInt32(&stop, 1)
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	res.Distinct = len(sigs)
	buf, err := json.Marshal(res)
	if err != nil {
		return err
	}
	tmp := filepath.Join(dir, "result.tmp")
	if err := os.WriteFile(tmp, buf, 0644); err != nil {
		return err
	}
	return os.Rename(tmp, filepath.Join(dir, "result.json"))
}

type workerEnd struct {
	res    *result
	kind   string // "", "crash", "stuck", "memory", "cpu", "killed"
	cases  []int  // in progress
	stderr string
	races  string
}

func startWorker(exe string, p *Prop, seed uint64, tier string, from, to int, alone bool) (*workerEnd, error) {
	dir, err := os.MkdirTemp("", "hclmon-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	sl, err := openSlots(filepath.Join(dir, "slots"), maxWorkers, true)
	if err != nil {
		return nil, err
	}
	defer sl.close()
	for i := 0; i < maxWorkers; i++ {
		sl.set(i, -1)
	}
	args := []string{"worker", p.ID, strconv.FormatUint(seed, 10), tier, strconv.Itoa(from), strconv.Itoa(to), dir}
	var cmd *exec.Cmd
	if alone {
		sh := fmt.Sprintf("ulimit -t %d; exec \"$0\" \"$@\"", cpuLimit)
		cmd = exec.Command("/bin/sh", append([]string{"-c", sh, exe}, args...)...)
	} else {
		cmd = exec.Command(exe, args...)
	}
	errF, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		return nil, err
	}
	defer errF.Close()
	cmd.Stderr = errF
	cmd.Stdout = errF
	cmd.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(dir, "race")+" halt_on_error=0 exitcode=0 history_size=3", "GOTRACEBACK=single", "TMPDIR="+dir)
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()

	end := &workerEnd{}
	type seen struct {
		idx   int
		since time.Time
	}
	last := map[int]seen{}
	var waitErr error
	limit := uint64(memLimit)
	if alone {
		limit = memLimitAlone
	}
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case waitErr = <-done:
			break loop
		case now := <-tick.C:
			if rss(cmd.Process.Pid) > limit {
				end.kind = "memory"
			}
			if !alone {
				for i := 0; i < maxWorkers; i++ {
					idx := sl.get(i)
					if s, ok := last[i]; !ok || s.idx != idx {
						last[i] = seen{idx, now}
					} else if idx >= 0 && now.Sub(s.since) > stuckAfter {
						end.kind = "stuck"
					}
				}
			}
			if end.kind != "" {
				for i := 0; i < maxWorkers; i++ {
					if idx := sl.get(i); idx >= 0 {
						end.cases = append(end.cases, idx)
					}
				}
				cmd.Process.Kill()
				waitErr = <-done
				break loop
			}
		}
	}
	if buf, err := os.ReadFile(filepath.Join(dir, "stderr")); err == nil {
		end.stderr = string(buf)
	}
	if ms, _ := filepath.Glob(filepath.Join(dir, "race.*")); len(ms) > 0 {
		for _, m := range ms {
			buf, _ := os.ReadFile(m)
			end.races += string(buf)
		}
	}
	if buf, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		end.res = &result{}
		if err := json.Unmarshal(buf, end.res); err != nil {
			return nil, err
		}
		return end, nil
	}
	if end.kind == "" {
		for i := 0; i < maxWorkers; i++ {
			if idx := sl.get(i); idx >= 0 {
				end.cases = append(end.cases, idx)
			}
		}
		end.kind = "crash"
		if ee, ok := waitErr.(*exec.ExitError); ok {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				end.kind = "killed"
				if ws.Signal() == syscall.SIGXCPU || (alone && ws.Signal() == syscall.SIGKILL && cmd.ProcessState.UserTime()+cmd.ProcessState.SystemTime() > (cpuLimit-5)*time.Second) {
					end.kind = "cpu"
				}
			}
		}
	}
	return end, nil
}

func rss(pid int) uint64 {
	f, err := os.Open(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	defer f.Close()
	line, _ := bufio.NewReader(f).ReadString('\n')
	fs := strings.Fields(line)
	if len(fs) < 2 {
		return 0
	}
	n, _ := strconv.ParseUint(fs[1], 10, 64)
	return n * uint64(os.Getpagesize())
}

func tail(s string, n int) string {
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "goroutine stack exceeds"); i >= 0 {
		s = s[i:]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// Supervise runs a check and returns the process exit status.
func Supervise(p *Prop, exe string, seed uint64, tier string, root string, only int) int {
	start := time.Now()
	from, to := 0, p.Quick
	if tier == "thorough" {
		to = p.Thorough
		if to == 0 {
			to = p.Quick * 10
		}
	}
	// for trying out many changed trees in less time
	if pct, err := strconv.Atoi(os.Getenv("HCLMON_PERCENT")); err == nil {
		to = to * pct / 100
	}
	if only >= 0 {
		from, to = only, only+1
	}
	end, err := startWorker(exe, p, seed, tier, from, to, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, "hclmon:", err)
		return 2
	}
	res := end.res
	if res == nil {
		// The worker died or had to be ended: find the case responsible by
		// running those that were in progress, each in its own process.
		res = &result{Events: map[string]int{"worker-" + end.kind: 1}, Known: map[string]string{}}
		sort.Ints(end.cases)
		for _, i := range end.cases {
			e, err := startWorker(exe, p, seed, tier, i, i+1, true)
			if err != nil {
				fmt.Fprintln(os.Stderr, "hclmon:", err)
				return 2
			}
			res.Cases++
			if e.res != nil {
				res.Violations = append(res.Violations, e.res.Violations...)
				continue
			}
			msg := ""
			switch e.kind {
			case "crash":
				msg = "the process crashed\n" + tail(e.stderr, 4000)
			case "memory":
				msg = fmt.Sprintf("the case used more than %d MB of memory", memLimitAlone>>20)
			case "cpu":
				msg = fmt.Sprintf("the case did not finish within %d s of CPU time", cpuLimit)
			default:
				fmt.Fprintf(os.Stderr, "hclmon: case %d was killed from outside\n", i)
				return 2
			}
			res.Violations = append(res.Violations, Violation{Case: i, Msg: msg})
			if len(res.Violations) >= 2 {
				break
			}
		}
		if len(res.Violations) == 0 {
			if end.kind == "crash" && (strings.Contains(end.stderr, "fatal error:") || strings.Contains(end.stderr, "panic:")) {
				res.Violations = append(res.Violations, Violation{Case: -1, Msg: "the process crashed while running several cases\n" + tail(end.stderr, 4000)})
			} else {
				fmt.Fprintf(os.Stderr, "hclmon: worker ended (%s) and no single case explains it\n%s\n", end.kind, tail(end.stderr, 4000))
				return 2
			}
		}
	}
	if end.races != "" {
		n := strings.Count(end.races, "WARNING: DATA RACE")
		res.Events["data-race-reports"] += n
		msg := end.races
		if len(msg) > 8000 {
			msg = msg[:8000]
		}
		res.Violations = append(res.Violations, Violation{Case: -1, Msg: "data race reported by the race detector\n" + msg})
	}

	// Known findings that were observed
	names := make([]string, 0, len(res.Known))
	for k := range res.Known {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, firstLine(res.Known[k]))
	}

	status := 0
	sort.SliceStable(res.Violations, func(i, j int) bool { return res.Violations[i].Case < res.Violations[j].Case })
	rdir := filepath.Join(root, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	for _, v := range res.Violations {
		status = 1
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.txt", p.ID, seed, v.Case))
		var b strings.Builder
		fmt.Fprintf(&b, "property %s seed %d case %d tier %s\n", p.ID, seed, v.Case, tier)
		if v.Case >= 0 {
			fmt.Fprintf(&b, "replay: cd /verif && VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s %d\n", seed, tier, p.ID, v.Case)
		}
		fmt.Fprintf(&b, "\n%s\n", v.Msg)
		ks := make([]string, 0)
		for k := range v.Inputs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&b, "\n--- %s\n%s\n--- quoted\n%q\n", k, v.Inputs[k], v.Inputs[k])
		}
		os.WriteFile(path, []byte(b.String()), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  case %d: %s\n", v.Case, firstLine(v.Msg))
	}

	if status == 0 && only < 0 && os.Getenv("HCLMON_PERCENT") == "" {
		for _, k := range p.Require {
			if res.Events[k] == 0 {
				fmt.Fprintf(os.Stderr, "hclmon: nothing of kind %q was observed\n", k)
				status = 2
			}
		}
		if res.Cases == 0 || res.Distinct == 0 {
			fmt.Fprintln(os.Stderr, "hclmon: nothing was observed")
			status = 2
		}
	}

	if only < 0 {
		seedInt := seed
		ev := map[string]interface{}{
			"property": p.ID,
			"tier":     tier,
			"seed":     seedInt,
			"level":    "exploration",
			"coverage": map[string]interface{}{
				"evaluations":         res.Cases,
				"distinct_nontrivial": res.Distinct,
				"rule":                p.Rule,
				"samples":             nonNil(res.Samples),
				"events":              res.Events,
			},
			"assumptions": nonNil(p.Assumptions),
			"wall_s":      time.Since(start).Seconds(),
			"violations":  len(res.Violations),
		}
		buf, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(buf, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, "hclmon:", err)
			return 2
		}
	}
	skipped := 0
	for k, v := range res.Events {
		if strings.HasPrefix(k, "skipped") {
			skipped += v
		}
	}
	fmt.Printf("%s: %d cases, %d distinct, %d skipped, %d violations, %.1fs\n", p.ID, res.Cases, res.Distinct, skipped, len(res.Violations), time.Since(start).Seconds())
	return status
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}
