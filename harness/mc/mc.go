// Package mc is the exploration engine: it runs every case of an enumerated
// space on a pool of workers, counts what was covered, matches known findings
// and writes evidence and replay files.
package mc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Out is where verdicts go; the code under test may print to os.Stdout.
var Out io.Writer = os.Stdout

type Finding struct {
	Prop, Case, Msg, Text string
	hits                  int64
}

type Run struct {
	Prop     string
	Tier     string
	Seed     int
	Only     string
	Root     string // /verif
	Deadline time.Time
	Workers  int

	Technique string
	Level     string // of the evidence; model_checking by default
	Bounds    []string

	start    time.Time
	states   sync.Map
	nstates  int64
	trans    int64
	traces   int64
	outs     sync.Map
	nouts    int64
	cases    int64
	skipped  int64
	mu       sync.Mutex
	samples  []string
	viol     []Violation
	violSeen int64
	findings []*Finding
	extra    map[string]interface{}
	stop     int32
	running  sync.Map
	jobs     chan func()
	wg       sync.WaitGroup
	progress *os.File
	progMu   sync.Mutex
	strata   map[string]int64
	unconf   []Violation
}

type Violation struct {
	Case, Msg, File string
}

func New(prop, tier string) *Run {
	r := &Run{Prop: prop, Tier: tier, start: time.Now(), Workers: runtime.NumCPU(), extra: map[string]interface{}{}, strata: map[string]int64{}}
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q for quick and t for thorough.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

func (r *Run) Bound(f string, a ...interface{}) {
	r.mu.Lock()
	r.Bounds = append(r.Bounds, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}
func (r *Run) Extra(k string, v interface{}) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// State records a model state by its canonical key.
func (r *Run) State(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	if _, dup := r.states.LoadOrStore(h.Sum64(), true); !dup {
		atomic.AddInt64(&r.nstates, 1)
		return true
	}
	return false
}
func (r *Run) Trans(n int) { atomic.AddInt64(&r.trans, int64(n)) }
func (r *Run) Trace()      { atomic.AddInt64(&r.traces, 1) }
func (r *Run) Outcome(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	if _, dup := r.outs.LoadOrStore(h.Sum64(), true); !dup {
		atomic.AddInt64(&r.nouts, 1)
	}
}
func (r *Run) Stopped() bool { return atomic.LoadInt32(&r.stop) != 0 }

func (r *Run) startWorkers() {
	r.jobs = make(chan func(), 64)
	for i := 0; i < r.Workers; i++ {
		r.wg.Add(1)
		go func() {
			defer r.wg.Done()
			for j := range r.jobs {
				j()
			}
		}()
	}
}

// Case enqueues one execution.  f returns a violation (or nil).
func (r *Run) Case(stratum, id string, f func() error) {
	id = stratum + "|" + id
	if r.Only != "" && r.Only != id {
		return
	}
	if r.Stopped() {
		return
	}
	if time.Now().After(r.Deadline) {
		atomic.AddInt64(&r.skipped, 1)
		return
	}
	if r.jobs == nil {
		r.startWorkers()
	}
	r.jobs <- func() { r.exec(stratum, id, f, true) }
}

var busy int64

// confirm executes a violating case again.  A case is made from nothing and does
// the same whenever it is executed, but for the order of maps: a violation that does
// not come again in any of the executions is a fault of the machine.
func (r *Run) confirm(key int64, id string, f func() error) bool {
	t0 := time.Now()
	for i := 0; i < 16 && (i < 2 || time.Since(t0) < 20*time.Second); i++ {
		r.running.Store(key, [2]interface{}{id, time.Now()})
		if Guard(f) != nil {
			return true
		}
	}
	return false
}

// unconfirmed keeps a violation that did not come again.  One may be a fault of the
// machine, three are reported.
func (r *Run) unconfirmed(id, msg string) {
	r.mu.Lock()
	r.unconf = append(r.unconf, Violation{Case: id, Msg: msg})
	fmt.Fprintf(Out, "  note: failed once and not again in repeated executions: %s\n    %s\n", id, msg)
	var all []Violation
	if len(r.unconf) == 3 {
		all = r.unconf
	} else if len(r.unconf) > 3 {
		all = r.unconf[len(r.unconf)-1:]
	}
	r.mu.Unlock()
	for _, v := range all {
		r.Report(v.Case, v.Msg+" (not in every execution)")
	}
}

func (r *Run) exec(stratum, id string, f func() error, again bool) {
	if r.Stopped() {
		return
	}
	if time.Now().After(r.Deadline) {
		atomic.AddInt64(&r.skipped, 1)
		return
	}
	key := atomic.AddInt64(&busy, 1)
	r.running.Store(key, [2]interface{}{id, time.Now()})
	err := Guard(f)
	once := err != nil && again && !r.known(id, err.Error()) && !r.confirm(key, id, f)
	r.running.Delete(key)
	n := atomic.AddInt64(&r.cases, 1)
	r.mu.Lock()
	r.strata[stratum]++
	if r.strata[stratum] == 1 && len(r.samples) < 24 || n%4999 == 0 && len(r.samples) < 30 {
		r.samples = append(r.samples, id)
	}
	r.mu.Unlock()
	if once {
		r.unconfirmed(id, err.Error())
	} else if err != nil {
		r.Report(id, err.Error())
	}
}

// Wait drains the pool.
func (r *Run) Wait() {
	if r.jobs != nil {
		close(r.jobs)
		r.wg.Wait()
		r.jobs = nil
	}
}

// Go runs a job of the exploration (no case by itself) on the pool.
func (r *Run) Go(f func()) {
	if r.jobs == nil {
		r.startWorkers()
	}
	r.jobs <- f
}

// Inline executes one case in the calling goroutine, for explorers that need
// what an execution did before they choose the next one.
func (r *Run) Inline(stratum, id string, f func() error) {
	id = stratum + "|" + id
	if r.Only != "" && r.Only != id {
		Guard(f) // the explorer needs its choice points
		return
	}
	r.exec(stratum, id, f, false)
}

// Flush waits for the cases enqueued so far.
func (r *Run) Flush() {
	r.Wait()
}

// Late tells whether the deadline has passed.
func (r *Run) Late() bool { return time.Now().After(r.Deadline) }

// Incomplete records that the space was not enumerated completely.
func (r *Run) Incomplete() { atomic.AddInt64(&r.skipped, 1) }

// Guard runs f turning a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			var keep []string
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "/repo/") || strings.Contains(l, "/harness/") {
					keep = append(keep, strings.TrimSpace(l))
				}
				if len(keep) > 5 {
					break
				}
			}
			err = fmt.Errorf("panic: %v [%s]", p, strings.Join(keep, " < "))
		}
	}()
	return f()
}

func glob(pat, s string) bool {
	parts := strings.Split(pat, "*")
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i := 1; i < len(parts)-1; i++ {
		k := strings.Index(s, parts[i])
		if k < 0 {
			return false
		}
		s = s[k+len(parts[i]):]
	}
	return strings.HasSuffix(s, parts[len(parts)-1])
}

func (r *Run) known(id, msg string) bool {
	for _, f := range r.findings {
		if glob(f.Case, id) && strings.Contains(msg, f.Msg) {
			return true
		}
	}
	return false
}

// Report handles a violation.
func (r *Run) Report(id, msg string) {
	for _, f := range r.findings {
		if glob(f.Case, id) && strings.Contains(msg, f.Msg) {
			atomic.AddInt64(&f.hits, 1)
			return
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violSeen++
	if len(r.viol) >= 6 {
		atomic.StoreInt32(&r.stop, 1)
		return
	}
	dir := filepath.Join(r.Root, "replays")
	os.MkdirAll(dir, 0755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", r.Prop, len(r.viol)+1))
	os.WriteFile(file, []byte(fmt.Sprintf("property: %s\ntier: %s\ncase: %s\nviolation: %s\nreplay: bash /verif/run.sh %s %s --only '%s'\n", r.Prop, r.Tier, id, msg, r.Prop, r.Tier, id)), 0644)
	r.viol = append(r.viol, Violation{id, msg, file})
	fmt.Fprintf(Out, "  violating case: %s\n    %s\n", id, msg)
	if len(r.viol) >= 6 {
		atomic.StoreInt32(&r.stop, 1)
	}
}

// LoadFindings reads the committed list of known findings.
func (r *Run) LoadFindings(file string) {
	fh, err := os.Open(file)
	if err != nil {
		return
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=C08 | case=glob | msg=substring | text
		p := strings.Split(strings.TrimPrefix(l, "finding:"), " :: ")
		if len(p) != 4 {
			continue
		}
		f := &Finding{
			Prop: strings.TrimPrefix(strings.TrimSpace(p[0]), "property="),
			Case: strings.TrimPrefix(strings.TrimSpace(p[1]), "case="),
			Msg:  strings.TrimPrefix(strings.TrimSpace(p[2]), "msg="),
			Text: strings.TrimSpace(p[3]),
		}
		if f.Prop == r.Prop {
			r.findings = append(r.findings, f)
		}
	}
}

// Watch guards against executions that never end or exhaust memory.
func (r *Run) Watch() {
	debug.SetMaxStack(256 << 20)
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var oldest time.Duration
			id := ""
			r.running.Range(func(k, v interface{}) bool {
				x := v.([2]interface{})
				if d := time.Since(x[1].(time.Time)); d > oldest {
					oldest, id = d, x[0].(string)
				}
				return true
			})
			if oldest > 150*time.Second {
				r.fatal(id, "execution did not terminate (150 s without finishing; such a case normally takes milliseconds)")
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 14<<30 {
				r.fatal(id, "execution exhausts memory (heap above 14 GB)")
			}
		}
	}()
}

func (r *Run) fatal(id, msg string) {
	r.Report(id, msg)
	ok := r.Finish()
	if r.progress != nil {
		os.WriteFile(r.progress.Name()+".done", []byte("x"), 0644)
	}
	if ok {
		os.Exit(0)
	}
	os.Exit(1)
}

// Running lists the cases currently executing (for crash attribution).
func (r *Run) ProgressTo(path string) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	r.progress = f
	go func() {
		for {
			time.Sleep(20 * time.Millisecond)
			r.dumpProgress()
		}
	}()
}

func (r *Run) dumpProgress() {
	var ids []string
	r.running.Range(func(k, v interface{}) bool {
		ids = append(ids, v.([2]interface{})[0].(string))
		return true
	})
	r.progMu.Lock()
	r.progress.Truncate(0)
	r.progress.WriteAt([]byte(strings.Join(ids, "\n")), 0)
	r.progMu.Unlock()
}

// Finish writes evidence and prints the verdict; true means no violation.
func (r *Run) Finish() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	var keys []string
	for k := range r.strata {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	strata := map[string]int64{}
	for _, k := range keys {
		strata[k] = r.strata[k]
	}
	cov := map[string]interface{}{
		"states":                        atomic.LoadInt64(&r.nstates),
		"transitions":                   atomic.LoadInt64(&r.trans),
		"traces_validated_against_impl": atomic.LoadInt64(&r.traces),
		"executions":                    atomic.LoadInt64(&r.cases),
		"distinct_outcomes":             atomic.LoadInt64(&r.nouts),
		"exhaustive":                    r.skipped == 0 && atomic.LoadInt32(&r.stop) == 0,
		"cases_cut_by_deadline":         r.skipped,
		"cases_by_stratum":              strata,
		"bounds":                        r.Bounds,
		"samples":                       r.samples,
		"rule":                          "every element of each stratum is executed on the real code and compared with the reference model; strata and bounds as listed",
	}
	if r.Level == "" {
		r.Level = "model_checking"
	}
	if r.Level == "fault_enumeration" {
		cov["evaluations"] = cov["transitions"]
		delete(cov, "transitions")
		cov["distinct_nontrivial"] = cov["states"]
		delete(cov, "states")
		delete(cov, "distinct_outcomes")
		cov["rule"] = "every fault of each stratum is injected into an execution of the real code (evaluations: injected faults; executions: batches of them and fault-free controls); non-trivial are the distinct faults or mutated inputs"
	}
	if len(r.unconf) > 0 {
		var u []string
		for _, v := range r.unconf {
			u = append(u, v.Case+": "+v.Msg)
		}
		cov["failed_once_not_reproduced"] = u
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	known := []string{}
	for _, f := range r.findings {
		if f.hits > 0 {
			fmt.Fprintf(Out, "KNOWN-FINDING: property=%s %s (%d cases)\n", r.Prop, f.Text, f.hits)
			known = append(known, f.Text)
		}
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	vs := []map[string]string{}
	for _, v := range r.viol {
		vs = append(vs, map[string]string{"case": v.Case, "message": v.Msg, "replay": v.File})
	}
	ev := map[string]interface{}{
		"property":       r.Prop,
		"tier":           r.Tier,
		"seed":           r.Seed,
		"level":          r.Level,
		"coverage":       cov,
		"wall_s":         time.Since(r.start).Seconds(),
		"violations":     len(vs),
		"violation_list": vs,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0755)
	if r.Only == "" {
		os.WriteFile(filepath.Join(r.Root, "evidence", r.Prop+".json"), append(b, '\n'), 0644)
	}
	fmt.Fprintf(Out, "%s %s: %d states, %d transitions, %d traces, %d executions, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		r.Prop, r.Tier, r.nstates, r.trans, r.traces, r.cases, r.nouts, cov["exhaustive"], time.Since(r.start).Seconds())
	for _, v := range r.viol {
		fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", r.Prop, v.File)
	}
	return len(r.viol) == 0
}
