// Package kit is the runtime-monitoring driver shared by every property check.
//
// A check is a deterministic list of cases (a function of VERIF_SEED and
// VERIF_TIER only).  The parent process hands cases to worker processes; each
// worker runs the real code of /repo under the case's workload while the
// case's monitors observe it.  A worker that crashes, deadlocks, trips the race
// detector or stops making progress is itself an observation: the parent
// attributes it to the case that was running.
package kit

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Case is one workload + monitors.
type Case struct {
	Name string
	Run  func(t *T)
	// Timeout overrides the property's CaseTimeout (0 = default).
	Timeout time.Duration
}

// Prop is one property check.
type Prop struct {
	ID          string
	Level       string // MANIFEST level; default exploration
	Rule        string // how cases are made, what is non-trivial
	Assumptions []string
	Cases       func(tier string, seed int64) []Case
	CaseTimeout time.Duration
	Workers     int
	MinEvals    int64 // coverage floor: fewer evaluations than this is an error of the check
	MaxDistinct int
}

// Violation is one observed breach.
type Violation struct {
	Case   string `json:"case"`
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

type caseResult struct {
	Case       string           `json:"case"`
	Evals      int64            `json:"evals"`
	Counters   map[string]int64 `json:"counters"`
	Distinct   []string         `json:"distinct"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Poisoned   bool             `json:"poisoned"`
	Inconcl    []string         `json:"inconclusive"`
}

// T is what a case sees.
type T struct {
	R        *rand.Rand
	Tier     string
	Seed     int64
	Name     string
	dir      string
	mu       sync.Mutex
	res      *caseResult
	distinct map[string]struct{}
}

type abort struct{}

// Thorough tells whether this is the thorough tier.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// Dir returns the scratch directory of the case (created, removed by the driver).
func (t *T) Dir() string { return t.dir }

// SubDir makes a fresh directory below the scratch directory.
func (t *T) SubDir(name string) string {
	d := filepath.Join(t.dir, name)
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

// Failf records a violation and goes on. sig is a stable short signature.
func (t *T) Failf(sig string, format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.res.Violations) < 6 {
		d := fmt.Sprintf(format, args...)
		if len(d) > 3000 {
			d = d[:3000] + "..."
		}
		t.res.Violations = append(t.res.Violations, Violation{Case: t.Name, Sig: sig, Detail: d})
	}
	t.res.Counters["violations_raw"]++
}

// Fatalf records a violation and ends the case.
func (t *T) Fatalf(sig string, format string, args ...any) {
	t.Failf(sig, format, args...)
	panic(abort{})
}

// NoErr ends the case with a violation if err is not nil.
func (t *T) NoErr(err error, what string) {
	if err != nil {
		t.Fatalf("error:"+what, "%s: unexpected error: %v", what, err)
	}
}

// Inconclusive records that the case could not decide.
func (t *T) Inconclusive(format string, args ...any) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.res.Inconcl = append(t.res.Inconcl, fmt.Sprintf(format, args...))
}

// Retire ends this worker process after the case (for cases that leave things running).
func (t *T) Retire() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.res.Poisoned = true
}

// Must is for errors of the harness itself (not of the code under test).
func Must(err error) {
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
}

// Evals adds n to the number of oracle evaluations.
func (t *T) Evals(n int64) {
	t.mu.Lock()
	t.res.Evals += n
	t.mu.Unlock()
}

// Count adds n to a named observation counter.
func (t *T) Count(key string, n int64) {
	t.mu.Lock()
	t.res.Counters[key] += n
	t.mu.Unlock()
}

// CountMax keeps the maximum of a named observation.
func (t *T) CountMax(key string, n int64) {
	t.mu.Lock()
	if n > t.res.Counters["max:"+key] {
		t.res.Counters["max:"+key] = n
	}
	t.mu.Unlock()
}

// Distinct records a distinct non-trivial state/input/trace class.
func (t *T) Distinct(parts ...any) {
	s := fmt.Sprint(parts...)
	h := sha256.Sum256([]byte(s))
	k := hex.EncodeToString(h[:8])
	t.mu.Lock()
	if len(t.distinct) < 20000 {
		t.distinct[k] = struct{}{}
	}
	t.mu.Unlock()
}

// Sample records an actual case, written out.
func (t *T) Sample(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	t.mu.Lock()
	if len(t.res.Samples) < 2 {
		t.res.Samples = append(t.res.Samples, s)
	}
	t.mu.Unlock()
}

// Sub derives an independent generator.
func (t *T) Sub(label string) *rand.Rand { return NewRand(t.Seed, t.Name+"/"+label) }

// NewRand derives a PRNG from the seed and a label.
func NewRand(seed int64, label string) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s", seed, label)))
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:8]))))
}

// Panics runs f and returns the panic message ("" when it did not panic).
func Panics(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				panic(r)
			}
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

func runCase(c Case, seed int64, tier string, scratch string) *caseResult {
	t := &T{Tier: tier, Seed: seed, Name: c.Name, R: NewRand(seed, c.Name), distinct: map[string]struct{}{}}
	t.res = &caseResult{Case: c.Name, Counters: map[string]int64{}}
	dir, err := os.MkdirTemp(scratch, "case")
	Must(err)
	t.dir = dir
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				st := string(debug.Stack())
				t.Failf(panicSig(fmt.Sprint(r), st), "panic: %v\n%s", r, trimStack(st))
				t.res.Poisoned = true
			}
		}()
		c.Run(t)
	}()
	_ = os.RemoveAll(dir)
	t.mu.Lock()
	defer t.mu.Unlock()
	for k := range t.distinct {
		t.res.Distinct = append(t.res.Distinct, k)
	}
	sort.Strings(t.res.Distinct)
	return t.res
}

var frameRe = regexp.MustCompile(`github\.com/KitchenMishap/pudding-shed/([A-Za-z0-9_/]+)\.((?:\(\*?[A-Za-z0-9_]+(?:\[[^\]]*\])?\)\.)?[A-Za-z0-9_]+)`)

func panicSig(msg, stack string) string {
	if strings.HasPrefix(msg, "HARNESS:") {
		return "harness-error"
	}
	m := frameRe.FindStringSubmatch(stack)
	fn := "?"
	if m != nil {
		fn = m[1] + "." + m[2]
	}
	return "panic@" + fn
}

func trimStack(st string) string {
	if len(st) > 2500 {
		return st[:2500]
	}
	return st
}

// Main is the entry point of every check binary.
func Main(p Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.CaseTimeout == 0 {
		p.CaseTimeout = 180 * time.Second
	}
	if p.Workers == 0 {
		p.Workers = runtime.NumCPU()
		if p.Workers > 8 {
			p.Workers = 8
		}
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) > 1 && os.Args[1] == "-worker" {
		worker(p, seed, tier, os.Args[2])
		return
	}
	only := ""
	if len(os.Args) > 2 && os.Args[1] == "-case" {
		only = os.Args[2]
	}
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		for _, c := range p.Cases(tier, seed) {
			fmt.Println(c.Name)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "-replay" {
		b, err := os.ReadFile(os.Args[2])
		Must(err)
		var rep replay
		Must(json.Unmarshal(b, &rep))
		seed, tier, only = rep.Seed, rep.Tier, rep.Violation.Case
		os.Setenv("VERIF_SEED", fmt.Sprint(seed))
		os.Setenv("VERIF_TIER", tier)
	}
	os.Exit(parent(p, seed, tier, only))
}

type replay struct {
	Property  string    `json:"property"`
	Seed      int64     `json:"seed"`
	Tier      string    `json:"tier"`
	Violation Violation `json:"violation"`
	How       string    `json:"how"`
}

// worker reads case indices on stdin and writes results on fd 3.
func worker(p Prop, seed int64, tier string, scratch string) {
	cases := p.Cases(tier, seed)
	out := os.NewFile(3, "results")
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		i, err := strconv.Atoi(strings.TrimSpace(in.Text()))
		Must(err)
		res := runCase(cases[i], seed, tier, scratch)
		b, err := json.Marshal(res)
		Must(err)
		b = append(b, '\n')
		_, err = out.Write(b)
		Must(err)
		if res.Poisoned {
			return
		}
	}
}

type proc struct {
	cmd     *exec.Cmd
	stdin   *os.File
	out     *bufio.Reader
	outf    *os.File
	errPath string
	done    chan error
}

func spawn(id int, gen int, scratch string) *proc {
	pr := &proc{}
	inR, inW, err := os.Pipe()
	Must(err)
	outR, outW, err := os.Pipe()
	Must(err)
	pr.errPath = filepath.Join(scratch, fmt.Sprintf("stderr-%d-%d", id, gen))
	ef, err := os.Create(pr.errPath)
	Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	Must(err)
	sd := filepath.Join(scratch, fmt.Sprintf("w%d-%d", id, gen))
	Must(os.MkdirAll(sd, 0755))
	cmd := exec.Command(os.Args[0], "-worker", sd)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all", "TMPDIR="+sd)
	cmd.Dir = sd
	cmd.Stdin = inR
	cmd.Stdout = null
	cmd.Stderr = ef
	cmd.ExtraFiles = []*os.File{outW}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	Must(cmd.Start())
	inR.Close()
	outW.Close()
	ef.Close()
	null.Close()
	pr.cmd = cmd
	pr.stdin = inW
	pr.outf = outR
	pr.out = bufio.NewReaderSize(outR, 1<<20)
	pr.done = make(chan error, 1)
	return pr
}

func (pr *proc) stop() {
	pr.stdin.Close()
	fin := make(chan struct{})
	go func() { _ = pr.cmd.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(10 * time.Second):
		_ = pr.cmd.Process.Kill()
		<-fin
	}
	pr.outf.Close()
}

func tailFile(path string, n int) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	if len(b) > n {
		// Keep the head of the last panic / race report if there is one
		s := "\n" + string(b)
		for _, mark := range []string{"WARNING: DATA RACE", "\npanic: ", "fatal error: ", "SIGQUIT"} {
			if k := strings.LastIndex(s, mark); k >= 0 {
				e := k + n
				if e > len(s) {
					e = len(s)
				}
				return s[k:e]
			}
		}
		return s[len(s)-n:]
	}
	return string(b)
}

func crashSig(errText string, exit string) string {
	kind := "crash"
	switch {
	case strings.Contains(errText, "WARNING: DATA RACE"):
		kind = "race"
	case strings.Contains(errText, "all goroutines are asleep"):
		kind = "deadlock"
	case strings.Contains(errText, "panic: HARNESS:"):
		return "harness-error"
	case strings.Contains(errText, "concurrent map"):
		kind = "race"
	case strings.Contains(errText, "panic: "):
		kind = "panic"
	case strings.Contains(errText, "out of memory"), strings.Contains(exit, "killed"):
		kind = "killed"
	}
	m := frameRe.FindStringSubmatch(errText)
	fn := "?"
	if m != nil {
		fn = m[1] + "." + m[2]
	}
	return kind + "@" + fn
}

type knownFinding struct {
	Property string `json:"property"`
	Case     string `json:"case"`  // exact case name
	Sig      string `json:"sig"`   // exact signature
	What     string `json:"what"`  // one line
	Fixed    string `json:"fixed"` // set for repaired defects: suppresses nothing
}

func loadKnown(id string) []knownFinding {
	path := os.Getenv("VERIF_KNOWN")
	if path == "" {
		path = "/verif/known_findings.jsonl"
	}
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue
		}
		var k knownFinding
		Must(json.Unmarshal([]byte(line), &k))
		if k.Property == id && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

// isKnown gives the index of the known finding that is exactly this violation, or -1.
func isKnown(known []knownFinding, v Violation) int {
	for ki, k := range known {
		if k.Case == v.Case && k.Sig == v.Sig {
			return ki
		}
	}
	return -1
}

func parent(p Prop, seed int64, tier string, only string) int {
	start := time.Now()
	cases := p.Cases(tier, seed)
	names := map[string]bool{}
	for _, c := range cases {
		if names[c.Name] {
			panic("HARNESS: duplicate case name " + c.Name)
		}
		names[c.Name] = true
	}
	known := loadKnown(p.ID)
	scratch, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	Must(err)
	defer os.RemoveAll(scratch)

	var idx []int
	for i, c := range cases {
		if only == "" || c.Name == only {
			idx = append(idx, i)
		}
	}
	queue := make(chan int, len(idx))
	for _, i := range idx {
		queue <- i
	}
	close(queue)
	results := make(chan *caseResult, len(idx)+1)
	nw := p.Workers
	if nw > len(idx) {
		nw = len(idx)
	}
	var stopMu sync.Mutex
	bad := 0 // number of violating cases so far, to stop early when hopeless
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			gen := 0
			pr := spawn(w, gen, scratch)
			served := 0
			for i := range queue {
				stopMu.Lock()
				hopeless := bad >= 12
				stopMu.Unlock()
				if hopeless {
					results <- &caseResult{Case: cases[i].Name, Counters: map[string]int64{"cases_skipped_after_violations": 1}}
					continue
				}
				to := cases[i].Timeout
				if to == 0 {
					to = p.CaseTimeout
				}
				var res *caseResult
				var fail *Violation
				_, werr := fmt.Fprintf(pr.stdin, "%d\n", i)
				if werr == nil {
					type rd struct {
						b   []byte
						err error
					}
					ch := make(chan rd, 1)
					go func(r *bufio.Reader) {
						b, err := r.ReadBytes('\n')
						ch <- rd{b, err}
					}(pr.out)
					select {
					case r := <-ch:
						if r.err == nil {
							var cr caseResult
							Must(json.Unmarshal(r.b, &cr))
							res = &cr
						} else {
							werr := pr.cmd.Wait()
							txt := tailFile(pr.errPath, 5000)
							es := fmt.Sprint(werr)
							fail = &Violation{Case: cases[i].Name, Sig: crashSig(txt, es), Detail: "worker died (" + es + ") running the case:\n" + txt}
							pr.outf.Close()
							pr.stdin.Close()
						}
					case <-time.After(to):
						_ = pr.cmd.Process.Signal(syscall.SIGQUIT)
						time.Sleep(2 * time.Second)
						_ = pr.cmd.Process.Kill()
						<-ch
						_ = pr.cmd.Wait()
						txt := tailFile(pr.errPath, 5000)
						fn := "?"
						if m := frameRe.FindStringSubmatch(txt); m != nil {
							fn = m[1] + "." + m[2]
						}
						fail = &Violation{Case: cases[i].Name, Sig: "hang@" + fn, Detail: fmt.Sprintf("no result after %v (a normal run of this case takes seconds); goroutines:\n%s", to, txt)}
						pr.outf.Close()
						pr.stdin.Close()
					}
				} else {
					fail = &Violation{Case: cases[i].Name, Sig: "harness-error", Detail: "worker gone: " + werr.Error()}
				}
				served++
				if fail != nil {
					res = &caseResult{Case: cases[i].Name, Counters: map[string]int64{"worker_deaths": 1}, Violations: []Violation{*fail}}
					gen++
					pr = spawn(w, gen, scratch)
					served = 0
				} else if res.Poisoned || served >= 400 {
					pr.stop()
					gen++
					pr = spawn(w, gen, scratch)
					served = 0
				}
				for _, v := range res.Violations {
					if isKnown(known, v) >= 0 {
						continue
					}
					stopMu.Lock()
					bad++
					if strings.HasPrefix(v.Sig, "hang@") {
						bad += 5
					}
					stopMu.Unlock()
					break
				}
				results <- res
			}
			pr.stop()
		}(w)
	}
	wg.Wait()
	close(results)

	counters := map[string]int64{}
	distinct := map[string]struct{}{}
	var samples []string
	var viols []Violation
	var evals int64
	var inconcl []string
	var all []*caseResult
	for r := range results {
		all = append(all, r)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Case < all[j].Case })
	for _, r := range all {
		evals += r.Evals
		for k, v := range r.Counters {
			if strings.HasPrefix(k, "max:") {
				if v > counters[k] {
					counters[k] = v
				}
			} else {
				counters[k] += v
			}
		}
		for _, d := range r.Distinct {
			distinct[d] = struct{}{}
		}
		for _, s := range r.Samples {
			if len(samples) < 400 {
				samples = append(samples, r.Case+": "+s)
			}
		}
		viols = append(viols, r.Violations...)
		for _, s := range r.Inconcl {
			inconcl = append(inconcl, r.Case+": "+s)
		}
	}
	// Thin the samples evenly
	if len(samples) > 10 {
		var th []string
		for i := 0; i < 10; i++ {
			th = append(th, samples[i*len(samples)/10])
		}
		samples = th
	}
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}

	var unlisted []Violation
	harness := 0
	seenKnown := map[int]bool{}
	for _, v := range viols {
		if v.Sig == "harness-error" {
			harness++
			fmt.Printf("HARNESS ERROR in case %s: %s\n", v.Case, v.Detail)
			continue
		}
		if ki := isKnown(known, v); ki >= 0 {
			if !seenKnown[ki] {
				seenKnown[ki] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[ki].What)
			}
		} else {
			unlisted = append(unlisted, v)
		}
	}
	for ki, k := range known {
		if !seenKnown[ki] && only == "" {
			fmt.Printf("note: known finding no longer observed: %s / %s\n", k.Case, k.Sig)
		}
	}
	for _, v := range unlisted {
		first := v.Detail
		if len(first) > 700 {
			first = first[:700] + "..."
		}
		fmt.Printf("violated: case=%s sig=%s\n  %s\n", v.Case, v.Sig, strings.ReplaceAll(first, "\n", "\n  "))
	}

	evdir := os.Getenv("VERIF_EVIDENCE_DIR")
	if evdir == "" {
		evdir = "/verif/evidence"
	}
	Must(os.MkdirAll(evdir, 0755))
	replayPath := ""
	old, _ := filepath.Glob(filepath.Join(evdir, p.ID+"-replay-*.json"))
	if only == "" {
		for _, o := range old {
			_ = os.Remove(o)
		}
	}
	for i, v := range unlisted {
		if i >= 10 {
			break
		}
		rp := filepath.Join(evdir, fmt.Sprintf("%s-replay-%d.json", p.ID, i))
		b, _ := json.MarshalIndent(replay{p.ID, seed, tier, v, "./run.sh " + p.ID + " " + tier + " -replay " + rp}, "", " ")
		Must(os.WriteFile(rp, b, 0644))
		if i == 0 {
			replayPath = rp
		}
	}

	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"cases_run":           len(all),
		"observed":            counters,
		"known_findings_seen": len(seenKnown),
		"inconclusive":        inconcl,
	}
	ev := map[string]any{
		"property":    p.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       p.Level,
		"coverage":    cov,
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(unlisted),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if only == "" {
		b, err := json.MarshalIndent(ev, "", " ")
		Must(err)
		Must(os.WriteFile(filepath.Join(evdir, p.ID+".json"), append(b, '\n'), 0644))
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d violations=%d known=%d wall=%.1fs\n",
		p.ID, tier, seed, len(all), evals, len(distinct), len(unlisted), len(seenKnown), time.Since(start).Seconds())
	keys := make([]string, 0, len(counters))
	for k := range counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  observed %s = %d\n", k, counters[k])
	}
	for _, s := range inconcl {
		fmt.Printf("  inconclusive %s\n", s)
	}
	if len(unlisted) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	if harness > 0 {
		return 3
	}
	if only == "" && evals < p.MinEvals {
		fmt.Printf("coverage floor not met: %d < %d evaluations\n", evals, p.MinEvals)
		return 4
	}
	return 0
}
