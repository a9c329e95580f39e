package main

// Core of the explorer: deterministic enumeration of numbered cases, sharded over child processes,
// crash/hang attribution, counters, evidence and replay files. No randomness, no clock-based verdicts.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Checker decides one property.
type Checker struct {
	ID          string
	Rule        string   // what is enumerated (alphabet and bound), and against which oracle
	Assumptions []string // what is trusted or left out
	Run         func(c *Ctx)
	Supervised  func(p *Parent)                            // optional extra work in the supervisor (e.g. compile-and-run), after the shards
	Replay      func(tier string, k int64) (Failure, bool) // re-executes a failing case of Supervised (numbers from supBase)
}

// supBase separates the case numbers of Supervised from those of Run.
const supHang = 60 * time.Second

const supBase = int64(1) << 40

var checkers = map[string]*Checker{}

func register(ch *Checker) {
	if n := histDepth[ch.ID]; n != "" {
		ch.Rule += "; histories: on tables of every column type, keyed, struct-shaped and nested, the operations of this property, an edit of about 35 (cells of every type, bytes in place, inside nested tables, rows, columns, names, keys, order), the operations again, up to " + n + " edits, the last answer being that of a table built directly with what is held then"
	}
	checkers[ch.ID] = ch
}

// Failure is one failing case.
type Failure struct {
	Case int64  `json:"case"`
	Key  string `json:"key"` // identifies the specific input / call site / history
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

// Ctx is the context of one shard's enumeration.
type Ctx struct {
	ID        string
	Tier      string
	Thorough  bool
	Shard, N  int
	only      int64 // >=0: execute only this case
	n         int64 // global case counter (independent of sharding)
	deadline  time.Time
	stop      bool
	Truncated bool

	crumb *int64

	Cases       int64 // cases executed by this shard
	Transitions int64 // calls into / steps of the implementation
	Traces      int64 // executions compared step by step or end to end with the reference model
	states      map[uint64]struct{}
	Outcomes    map[string]int64
	Samples     []string
	Failures    []Failure
	NFail       int64
	seenKey     map[string]int
	Notes       map[string]int64
}

// T is the handle of one executing case.
type T struct {
	c    *Ctx
	fail string
	key  string
	dry  bool // a confirmation re-run: do not count
}

func (t *T) Failf(format string, a ...interface{}) {
	if t.fail == "" {
		t.fail = fmt.Sprintf(format, a...)
	}
}

// Key names the specific failing input/call/history, for the known-findings file.
func (t *T) Key(format string, a ...interface{}) { t.key = fmt.Sprintf(format, a...) }
func (t *T) Failed() bool                        { return t.fail != "" }

// Step counts calls into the implementation.
func (t *T) Step(n int) {
	if !t.dry {
		t.c.Transitions += int64(n)
	}
}

// State records a (canonical) state or input that was reached.
func (t *T) State(s string) {
	if t.dry {
		return
	}
	h := fnv.New64a()
	io.WriteString(h, s)
	t.c.states[h.Sum64()] = struct{}{}
}

// Outcome counts distinct observed outcomes, to make vacuous exploration visible.
func (t *T) Outcome(s string) {
	if !t.dry {
		if len(t.c.Outcomes) < 400 {
			t.c.Outcomes[s]++
		} else if _, ok := t.c.Outcomes[s]; ok {
			t.c.Outcomes[s]++
		}
	}
}

// pick chooses a bound by tier.
func (c *Ctx) pick(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func (c *Ctx) Note(s string, n int64) { c.Notes[s] += n }

// Stopped tells enumeration loops to unwind (deadline, too many failures, or the single case is done).
func (c *Ctx) Stopped() bool { return c.stop }

// Next numbers the next case and tells whether this process must execute it.
func (c *Ctx) Next() bool {
	k := c.n
	c.n++
	if c.stop {
		return false
	}
	if c.only >= 0 {
		if k > c.only {
			c.stop = true
		}
		return k == c.only
	}
	return int(k%int64(c.N)) == c.Shard
}

// Skip advances the numbering over n cases without executing them.
func (c *Ctx) Skip(n int64) { c.n += n }

// Scratch is a new directory of this shard's own; the returned function removes it.
func (c *Ctx) Scratch() (dir string, done func()) {
	dir, err := os.MkdirTemp(".", "scratch-")
	if err == nil {
		dir, err = filepath.Abs(dir)
	}
	if err != nil {
		panic(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

// Do runs one case if it belongs to this shard.
func (c *Ctx) Do(desc func() string, body func(t *T)) {
	if c.Next() {
		c.exec(desc, body)
	}
}

func runBody(c *Ctx, dry bool, body func(t *T)) (t *T) {
	t = &T{c: c, dry: dry}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			t.fail = fmt.Sprintf("panic: %v\n%s", r, st)
		}
	}()
	body(t)
	return t
}

func (c *Ctx) exec(desc func() string, body func(t *T)) {
	if describeOnly {
		fmt.Println(desc())
		os.Exit(0)
	}
	if c.crumb != nil {
		atomic.StoreInt64(c.crumb, c.n) // case number + 1
	}
	c.Cases++
	t := runBody(c, false, body)
	c.Traces++
	if len(c.Samples) < 3 || (c.Cases == 1000 || c.Cases == 10000) {
		s := desc()
		if len(s) > 500 {
			s = s[:500] + "..."
		}
		c.Samples = append(c.Samples, s)
	}
	if t.fail != "" {
		// Confirm before believing: the same case must fail again.
		again := 0
		for i := 0; i < 5; i++ {
			if runBody(c, true, body).fail != "" {
				again++
			}
		}
		if again == 0 {
			for i := 0; i < 200 && again == 0; i++ {
				if runBody(c, true, body).fail != "" {
					again++
				}
			}
		}
		msg := t.fail
		if again == 0 {
			c.Note("unreproduced failure (not reported): "+firstLine(msg), 1)
			return
		}
		d := desc()
		key := t.key
		if key == "" {
			key = d
		}
		c.NFail++
		if len(c.Failures) < 40 {
			c.Failures = append(c.Failures, Failure{Case: c.n - 1, Key: key, Desc: d, Msg: fmt.Sprintf("%s  (reproduced %d of 5)", msg, again)})
		} else if c.NFail > 2000 {
			c.stop = true
		}
	}
	if c.Cases%256 == 0 && time.Now().After(c.deadline) {
		c.stop = true
		c.Truncated = true
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---- child ----

type ShardResult struct {
	Cases, Transitions, Traces, NFail, Enumerated int64
	Truncated                                     bool
	Outcomes                                      map[string]int64
	Samples                                       []string
	Failures                                      []Failure
	Notes                                         map[string]int64
}

func mapCrumb(path string) *int64 {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil
	}
	defer f.Close()
	f.Truncate(4096)
	b, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return (*int64)(unsafe.Pointer(&b[0]))
}

func childMain(args []string) {
	fs := flag.NewFlagSet("child", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 1, "")
	only := fs.Int64("only", -1, "")
	out := fs.String("out", "", "")
	limit := fs.Int("limit", 600, "seconds")
	fs.Parse(args)
	ch := checkers[*id]
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(256 << 20)
	var rl syscall.Rlimit
	rl.Cur, rl.Max = 6<<30, 6<<30
	if *id != "G22R" { // the race detector reserves much more address space than it uses
		syscall.Setrlimit(syscall.RLIMIT_AS, &rl)
	}
	c := &Ctx{ID: *id, Tier: *tier, Thorough: *tier == "thorough", Shard: *shard, N: *n, only: *only,
		deadline: time.Now().Add(time.Duration(*limit) * time.Second),
		states:   map[uint64]struct{}{}, Outcomes: map[string]int64{}, Notes: map[string]int64{}}
	c.crumb = mapCrumb(*out + ".crumb")
	ch.Run(c)
	res := ShardResult{Cases: c.Cases, Transitions: c.Transitions, Traces: c.Traces, NFail: c.NFail, Enumerated: c.n,
		Truncated: c.Truncated, Outcomes: c.Outcomes, Samples: c.Samples, Failures: c.Failures, Notes: c.Notes}
	b, _ := json.Marshal(res)
	st := make([]byte, 0, 8*len(c.states))
	for h := range c.states {
		st = binary.LittleEndian.AppendUint64(st, h)
	}
	os.WriteFile(*out+".states", st, 0600)
	if err := os.WriteFile(*out, b, 0600); err != nil {
		os.Exit(97)
	}
	os.Exit(0)
}

// ---- supervisor ----

type Parent struct {
	ID, Tier, Dir, Verif string
	Bin                  string // the program that runs the shards
	Seed                 int
	Checker              *Checker
	Total                ShardResult
	States               map[uint64]struct{}
	Crashes              int
	mu                   sync.Mutex
	Extra                map[string]interface{}
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<17 {
		t.b = append([]byte{}, t.b[len(t.b)-1<<16:]...)
	}
	return len(p), nil
}

func crashText(s string) string {
	for _, m := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "runtime: goroutine stack exceeds", "SIGSEGV"} {
		if i := strings.Index(s, m); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 1200 {
		s = s[:1200]
	}
	return s
}

// runChild runs one child; ok=false means it died or hung, with the case in crumb.
func (p *Parent) runChild(name string, limit int, hang time.Duration, args ...string) (res *ShardResult, crumbCase int64, why string) {
	out := filepath.Join(p.Dir, name)
	os.Remove(out)
	crumb := mapCrumb(out + ".crumb")
	if crumb != nil {
		atomic.StoreInt64(crumb, 0)
	}
	a := append([]string{"child", "-id", p.ID, "-tier", p.Tier, "-out", out, "-limit", strconv.Itoa(limit)}, args...)
	cmd := exec.Command(p.Bin, a...)
	tb := &tailBuf{}
	cmd.Stderr = tb
	cmd.Stdout = nil
	cmd.Dir = p.Dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return nil, -1, "cannot start child: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastT := int64(-1), time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	hung := false
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			cur := int64(0)
			if crumb != nil {
				cur = atomic.LoadInt64(crumb)
			}
			if cur != last {
				last, lastT = cur, time.Now()
			} else if time.Since(lastT) > hang {
				hung = true
				cmd.Process.Kill()
			}
		}
	}
	if crumb != nil {
		crumbCase = atomic.LoadInt64(crumb) - 1
	}
	if hung {
		return nil, crumbCase, fmt.Sprintf("no progress for %v in this case (hang)", hang)
	}
	b, rerr := os.ReadFile(out)
	if err != nil || rerr != nil {
		code := "?"
		if err != nil {
			code = err.Error()
		}
		return nil, crumbCase, fmt.Sprintf("the process died (%s): %s", code, crashText(string(tb.b)))
	}
	res = new(ShardResult)
	if json.Unmarshal(b, res) != nil {
		return nil, crumbCase, "unreadable child result"
	}
	st, _ := os.ReadFile(out + ".states")
	p.mu.Lock()
	for i := 0; i+8 <= len(st); i += 8 {
		p.States[binary.LittleEndian.Uint64(st[i:])] = struct{}{}
	}
	p.mu.Unlock()
	os.Remove(out)
	os.Remove(out + ".states")
	os.Remove(out + ".crumb")
	return res, crumbCase, ""
}

func (p *Parent) add(r *ShardResult) {
	p.mu.Lock()
	defer p.mu.Unlock()
	t := &p.Total
	t.Cases += r.Cases
	t.Transitions += r.Transitions
	t.Traces += r.Traces
	t.NFail += r.NFail
	if r.Enumerated > t.Enumerated {
		t.Enumerated = r.Enumerated
	}
	t.Truncated = t.Truncated || r.Truncated
	for k, v := range r.Outcomes {
		t.Outcomes[k] += v
	}
	for k, v := range r.Notes {
		t.Notes[k] += v
	}
	if len(t.Samples) < 12 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	t.Failures = append(t.Failures, r.Failures...)
}

type Known struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Key      string `json:"key,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Entry    string `json:"entry,omitempty"`
}

func loadKnown(path string) (ks []Known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil {
			ks = append(ks, k)
		}
	}
	return
}

func superMain(id, tier string) int {
	start := time.Now()
	ch := checkers[id]
	if ch == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	p := &Parent{ID: id, Tier: tier, Dir: dir, Bin: os.Args[0], Verif: verif, Seed: seed, Checker: ch, States: map[uint64]struct{}{}, Extra: map[string]interface{}{}}
	p.Total.Outcomes = map[string]int64{}
	p.Total.Notes = map[string]int64{}

	if ch.Run != nil {
		p.runShards(0)
	}
	if ch.Supervised != nil {
		ch.Supervised(p)
	}

	// Known findings.
	known := map[string]*Known{}
	ks := loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	for i := range ks {
		if ks[i].Status == "known" && ks[i].Property == id {
			known[ks[i].Key] = &ks[i]
		}
	}
	sort.SliceStable(p.Total.Failures, func(i, j int) bool { return p.Total.Failures[i].Case < p.Total.Failures[j].Case })
	hitKnown := map[string]bool{}
	var real []Failure
	for _, f := range p.Total.Failures {
		if known[f.Key] != nil {
			hitKnown[f.Key] = true
			continue
		}
		real = append(real, f)
	}
	for _, k := range ks {
		if k.Status == "known" && k.Property == id && hitKnown[k.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	real = diversify(real)
	rdir := filepath.Join(verif, "replays")
	os.MkdirAll(rdir, 0755)
	old, _ := filepath.Glob(filepath.Join(rdir, id+"-"+tier+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	for i, f := range real {
		if i >= 10 {
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", id, tier, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": tier, "case": f.Case, "key": f.Key, "desc": f.Desc, "msg": f.Msg,
			"replay_cmd": fmt.Sprintf("bash /verif/run.sh --replay %s", path)}, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  case %d: %s\n  %s\n", f.Case, clip(f.Desc, 1500), clip(f.Msg, 1500))
	}
	if len(real) > 10 {
		fmt.Printf("  ... and %d more recorded failing cases\n", len(real)-10)
	}

	cov := map[string]interface{}{
		"states": len(p.States), "transitions": p.Total.Transitions, "traces_validated_against_impl": p.Total.Traces,
		"samples": p.Total.Samples, "exhaustive": !p.Total.Truncated, "rule": ch.Rule,
		"distinct_outcomes": len(p.Total.Outcomes), "outcomes": topOutcomes(p.Total.Outcomes, 40),
	}
	if len(p.Total.Notes) > 0 {
		cov["notes"] = p.Total.Notes
	}
	for k, v := range p.Extra {
		cov[k] = v
	}
	if len(p.Total.Samples) == 0 {
		cov["samples"] = []string{"(none)"}
	}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": ch.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(real)}
	if ch.Assumptions == nil {
		delete(ev, "assumptions")
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetIndent("", " ")
	enc.SetEscapeHTML(false)
	enc.Encode(ev)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), buf.Bytes(), 0644)
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d outcomes=%d exhaustive=%v failing=%d known=%d wall=%.1fs\n", id, tier,
		p.Total.Cases, len(p.States), p.Total.Transitions, len(p.Total.Outcomes), !p.Total.Truncated, p.Total.NFail, len(hitKnown), time.Since(start).Seconds())
	for k, v := range p.Total.Notes {
		fmt.Printf("  note: %s: %d\n", k, v)
	}
	if len(real) > 0 {
		return 1
	}
	return 0
}

// runShards explores all cases of p's checker in child processes. base is added to the case numbers of failures.
func (p *Parent) runShards(base int64) {
	add := func(r *ShardResult) {
		for i := range r.Failures {
			r.Failures[i].Case += base
		}
		p.add(r)
	}
	limit := 400
	if p.Tier == "thorough" {
		limit = 3000
	}
	hang := 90 * time.Second
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	var wg sync.WaitGroup
	{
		for s := 0; s < n; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				r, k, why := p.runChild(fmt.Sprintf("s%d", s), limit, hang, "-shard", strconv.Itoa(s), "-n", strconv.Itoa(n))
				if r != nil {
					add(r)
					return
				}
				// The child died: attribute it to the case, and confirm by running that case alone.
				if k < 0 {
					r2, k2, why2 := p.runChild(fmt.Sprintf("s%db", s), limit, hang, "-shard", strconv.Itoa(s), "-n", strconv.Itoa(n))
					if r2 != nil {
						add(r2)
						return
					}
					if k2 < 0 && strings.Contains(why2, "unexpected error") {
						// must() in build: a call that a correct library accepts was refused while making the inputs.
						p.add(&ShardResult{Truncated: true, NFail: 1, Failures: []Failure{{Case: -1, Key: "setup", Desc: "making the inputs of the first cases", Msg: why2 + " (twice)"}}})
						return
					}
					p.add(&ShardResult{Truncated: true, Notes: map[string]int64{"child lost before its first case: " + firstLine(why): 1}})
					return
				}
				r2, _, why2 := p.runChild(fmt.Sprintf("s%do", s), 200, 60*time.Second, "-only", strconv.FormatInt(k, 10))
				desc := p.describe(k)
				if r2 != nil && len(r2.Failures) == 0 {
					// not reproduced alone; resume is not possible, so report the shard as not covered
					r3, k3, why3 := p.runChild(fmt.Sprintf("s%dr", s), limit, hang, "-shard", strconv.Itoa(s), "-n", strconv.Itoa(n))
					if r3 != nil {
						add(r3)
						return
					}
					if k3 == k {
						p.add(&ShardResult{Truncated: true, NFail: 1, Failures: []Failure{{Case: k, Key: "crash:" + desc, Desc: desc, Msg: why3 + " (twice, in sequence)"}}})
						return
					}
					p.add(&ShardResult{Truncated: true, Notes: map[string]int64{"shard lost: " + firstLine(why): 1}})
					return
				}
				if r2 != nil {
					add(r2)
					p.mu.Lock()
					p.Total.Truncated = true
					p.mu.Unlock()
					return
				}
				p.add(&ShardResult{Truncated: true, NFail: 1, Failures: []Failure{{Case: k, Key: "crash:" + desc, Desc: desc, Msg: why2}}})
			}(s)
		}
		wg.Wait()
	}
}

// diversify moves the first failure of each kind (message with digits and quoted text removed) to the front.
func diversify(fs []Failure) []Failure {
	seen := map[string]bool{}
	var a, b []Failure
	for _, f := range fs {
		var k strings.Builder
		inq := false
		for _, r := range firstLine(f.Msg) {
			if r == '"' {
				inq = !inq
			} else if !inq && !(r >= '0' && r <= '9') && k.Len() < 60 {
				k.WriteRune(r)
			}
		}
		if seen[k.String()] {
			b = append(b, f)
		} else {
			seen[k.String()] = true
			a = append(a, f)
		}
	}
	return append(a, b...)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func topOutcomes(m map[string]int64, n int) map[string]int64 {
	type kv struct {
		k string
		v int64
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v || l[i].v == l[j].v && l[i].k < l[j].k })
	r := map[string]int64{}
	for i := 0; i < len(l) && i < n; i++ {
		r[clip(l[i].k, 80)] = l[i].v
	}
	return r
}

// describe obtains the description of case k without executing its body.
func (p *Parent) describe(k int64) string {
	cmd := exec.Command(p.Bin, "describe", p.ID, p.Tier, strconv.FormatInt(k, 10))
	cmd.Dir = p.Dir
	b, err := cmd.Output()
	if err != nil {
		return fmt.Sprintf("case %d", k)
	}
	return strings.TrimSpace(string(b))
}

var describeOnly = false

func describeMain(id, tier, k string) {
	n, _ := strconv.ParseInt(k, 10, 64)
	c := &Ctx{ID: id, Tier: tier, Thorough: tier == "thorough", N: 1, only: n, deadline: time.Now().Add(time.Hour),
		states: map[uint64]struct{}{}, Outcomes: map[string]int64{}, Notes: map[string]int64{}}
	describeOnly = true
	checkers[id].Run(c)
	os.Exit(3)
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Tier, Desc, Msg string
		Case                      int64
	}
	json.Unmarshal(b, &r)
	if d, err := os.MkdirTemp("", "mcreplay-"); err == nil {
		os.Chdir(d)
		defer os.RemoveAll(d)
	}
	ch := checkers[r.Property]
	if ch == nil || ch.Run == nil {
		fmt.Println("nothing to replay")
		return 2
	}
	if r.Case >= supBase && ch.Replay != nil {
		if f, failed := ch.Replay(r.Tier, r.Case-supBase); failed {
			fmt.Printf("REPRODUCED property=%s\n%s\n%s\n", r.Property, f.Desc, f.Msg)
			return 1
		}
		fmt.Println("case passes")
		return 0
	}
	c := &Ctx{ID: r.Property, Tier: r.Tier, Thorough: r.Tier == "thorough", N: 1, only: r.Case, deadline: time.Now().Add(time.Hour),
		states: map[uint64]struct{}{}, Outcomes: map[string]int64{}, Notes: map[string]int64{}}
	ch.Run(c)
	for _, f := range c.Failures {
		fmt.Printf("REPRODUCED property=%s\n%s\n%s\n", r.Property, f.Desc, f.Msg)
		return 1
	}
	fmt.Println("case passes")
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc ID quick|thorough | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "child":
		childMain(os.Args[2:])
	case "describe":
		describeMain(os.Args[2], os.Args[3], os.Args[4])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "list":
		var ids []string
		for id := range checkers {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		tier := "quick"
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		os.Exit(superMain(os.Args[1], tier))
	}
}
