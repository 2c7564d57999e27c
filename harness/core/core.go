//go:build go1.22

// Package core is the exploration engine shared by all checks.
//
// A check is a function that enumerates a bounded space of cases, always in
// the same order. The engine starts one worker process per core; worker i
// executes every case whose index is i modulo the number of workers, so that
// the union of the workers executes every case exactly once. A case that fails
// is executed again before it is reported, and can be executed alone with
// --replay.
package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Check is one property check.
type Check struct {
	// ID is the property id.
	ID string
	// Level is the evidence level.
	Level string
	// Rule says how cases are made and what makes one non-trivial.
	Rule string
	// Assumptions are the stated assumptions.
	Assumptions []string
	// Run enumerates all the cases of the tier.
	Run func(w *W)
	// QuickDeadline bounds the quick tier; default 240s.
	QuickDeadline time.Duration
	// CaseTimeout bounds one case; default 120s.
	CaseTimeout time.Duration
	// Workers is the number of workers, default the number of cores.
	Workers int
	// Race: the check is built with the race detector (file harness/<id>/flags), a race fails the case.
	Race bool
}

// W is a worker.
type W struct {
	Tier    string
	Scratch string

	check     *Check
	index     int64
	shard     int
	shards    int
	only      int64
	deadline  time.Time
	res       *result
	seen      map[uint64]struct{}
	states    map[uint64]struct{}
	caseStart int64
	caseIndex int64
	curFile   *os.File
	stopped   bool
	known     []knownFinding
}

type violation struct {
	Property string          `json:"property"`
	Tier     string          `json:"tier"`
	Index    int64           `json:"index"`
	Kind     string          `json:"kind"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Repeats  int             `json:"repeats"`
}

type result struct {
	Cases      int64            `json:"cases"`
	Executed   int64            `json:"executed"`
	Counters   map[string]int64 `json:"counters"`
	Samples    []json.RawMessage
	Violations []violation
	Flaky      []violation
	KnownHits  int64
	Complete   bool
	Seen       []byte
	States     []byte
}

// T is one execution of one case.
type T struct {
	W    *W
	fail []failure
}

var maxPerKind = func() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_MAX_PER_KIND")); err == nil {
		return n
	}
	return 5
}()

type failure struct {
	kind string
	msg  string
}

// Thorough returns true for the thorough tier.
func (w *W) Thorough() bool { return w.Tier == "thorough" }

// Pick returns q for quick and th for thorough.
func (w *W) Pick(q, th int) int {
	if w.Thorough() {
		return th
	}
	return q
}

// Case executes a case if it belongs to this worker.
//
// kase describes the case and is only marshalled when needed.
func (w *W) Case(kase interface{}, f func(t *T)) {
	idx := w.index
	w.index++
	w.res.Cases++
	if w.stopped {
		return
	}
	if w.only >= 0 {
		if idx != w.only {
			return
		}
	} else if idx%int64(w.shards) != int64(w.shard) {
		return
	}
	if w.only < 0 && time.Now().After(w.deadline) {
		w.stopped = true
		w.res.Complete = false
		return
	}
	w.markCase(idx)
	t := w.exec(f)
	w.res.Executed++
	if w.res.Executed == 1 || w.res.Executed == 97 {
		if len(w.res.Samples) < 2 {
			w.res.Samples = append(w.res.Samples, marshal(kase))
		}
	}
	if len(t.fail) > 0 {
		w.confirm(idx, kase, t, f)
	}
	atomic.StoreInt64(&w.caseStart, 0)
}

func (w *W) markCase(idx int64) {
	atomic.StoreInt64(&w.caseIndex, idx)
	atomic.StoreInt64(&w.caseStart, time.Now().UnixNano())
	if w.curFile != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx))
		_, _ = w.curFile.WriteAt(b[:], 0)
	}
}

func (w *W) exec(f func(t *T)) (t *T) {
	t = &T{W: w}
	defer func() {
		if r := recover(); r != nil {
			t.fail = append(t.fail, failure{"panic", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))})
		}
	}()
	was := len(w.races())
	f(t)
	if now := w.races(); len(now) > was {
		t.Failf("race", "%s", trimStack([]byte(now[was:])))
	}
	return t
}

// races returns what the race detector reported so far.
func (w *W) races() string {
	if !w.check.Race {
		return ""
	}
	data, _ := ioutil.ReadFile(fmt.Sprintf("%s.race.%d", w.Scratch, os.Getpid()))
	return string(data)
}

func trimStack(b []byte) string {
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func (w *W) confirm(idx int64, kase interface{}, t *T, f func(t *T)) {
	kinds := map[string]failure{}
	for _, fl := range t.fail {
		if _, ok := kinds[fl.kind]; !ok {
			kinds[fl.kind] = fl
		}
	}
	counts := map[string]int{}
	reruns := 4
	if w.check.Race {
		reruns = 1
	}
	for i := 0; i < reruns; i++ {
		atomic.StoreInt64(&w.caseStart, time.Now().UnixNano())
		t2 := w.exec(f)
		have := map[string]bool{}
		for _, fl := range t2.fail {
			have[fl.kind] = true
		}
		for k := range have {
			counts[k]++
		}
	}
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		v := violation{Property: w.check.ID, Tier: w.Tier, Index: idx, Kind: k, Case: marshal(kase), Message: kinds[k].msg, Repeats: counts[k]}
		if counts[k] == 0 {
			w.res.Flaky = append(w.res.Flaky, v)
			continue
		}
		if isKnown(w.known, v) {
			w.res.KnownHits++
			continue
		}
		perKind := 0
		for _, old := range w.res.Violations {
			if old.Kind == k {
				perKind++
			}
		}
		if perKind < maxPerKind {
			w.res.Violations = append(w.res.Violations, v)
		}
	}
}

func marshal(v interface{}) json.RawMessage {
	data, err := json.Marshal(v)
	if err != nil {
		data, _ = json.Marshal(fmt.Sprintf("%+v", v))
	}
	if len(data) > 6000 {
		data, _ = json.Marshal(string(data[:6000]) + "...")
	}
	return data
}

// Failf records a failure. kind is a short stable class of failure.
func (t *T) Failf(kind string, format string, args ...interface{}) {
	f := failure{kind, fmt.Sprintf(format, args...)}
	// a case may fail in several ways: a listed finding never hides another one
	if isKnown(t.W.known, violation{Property: t.W.check.ID, Kind: kind, Message: f.msg}) {
		t.W.res.KnownHits++
		return
	}
	t.fail = append(t.fail, f)
}

// Failed returns true if the case failed.
func (t *T) Failed() bool { return len(t.fail) > 0 }

// Count adds to a named counter.
func (w *W) Count(name string, n int64) { w.res.Counters[name] += n }

// Nontrivial records that a case with this key is non-trivial.
func (w *W) Nontrivial(key string) { w.seen[hash(key)] = struct{}{} }

// State records a state reached; returns true if it is new for this worker.
func (w *W) State(key string) bool {
	h := hash(key)
	if _, ok := w.states[h]; ok {
		return false
	}
	w.states[h] = struct{}{}
	return true
}

func hash(key string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(key))
	return h.Sum64()
}

func packSet(m map[uint64]struct{}) []byte {
	b := make([]byte, 0, 8*len(m))
	for k := range m {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	return b
}

func unpackSet(m map[uint64]struct{}, b []byte) {
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

// Main runs the check.
func Main(check *Check) {
	var tier, replay, workerSpec string
	flag.StringVar(&tier, "tier", "", "quick or thorough")
	flag.StringVar(&replay, "replay", "", "replay file")
	flag.StringVar(&workerSpec, "worker", "", "internal")
	flag.Parse()
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier == "" {
		tier = "quick"
	}
	if check.QuickDeadline == 0 {
		check.QuickDeadline = 240 * time.Second
	}
	if check.CaseTimeout == 0 {
		check.CaseTimeout = 120 * time.Second
	}
	if workerSpec != "" {
		runWorker(check, tier, workerSpec)
		return
	}
	os.Exit(coordinate(check, tier, replay))
}

func deadline(check *Check, tier string) time.Duration {
	if tier == "thorough" {
		if s := os.Getenv("VERIF_THOROUGH_SECONDS"); s != "" {
			if n, err := strconv.Atoi(s); err == nil {
				return time.Duration(n) * time.Second
			}
		}
		return 780 * time.Second
	}
	return check.QuickDeadline
}

// spec: shard/shards/only/scratch
func runWorker(check *Check, tier string, spec string) {
	parts := strings.SplitN(spec, ",", 4)
	shard, _ := strconv.Atoi(parts[0])
	shards, _ := strconv.Atoi(parts[1])
	only, _ := strconv.ParseInt(parts[2], 10, 64)
	scratch := parts[3]
	w := &W{
		Tier:     tier,
		Scratch:  scratch,
		check:    check,
		shard:    shard,
		shards:   shards,
		only:     only,
		deadline: time.Now().Add(deadline(check, tier)),
		res:      &result{Counters: map[string]int64{}, Complete: true},
		seen:     map[uint64]struct{}{},
		states:   map[uint64]struct{}{},
		known:    loadKnown(),
	}
	var err error
	w.curFile, err = os.Create(scratch + ".cur")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			time.Sleep(time.Second)
			start := atomic.LoadInt64(&w.caseStart)
			if start != 0 && time.Since(time.Unix(0, start)) > check.CaseTimeout {
				fmt.Fprintf(os.Stderr, "VERIF-HANG case %d\n", atomic.LoadInt64(&w.caseIndex))
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				_, _ = os.Stderr.Write(buf[:n])
				os.Exit(77)
			}
		}
	}()
	if err := os.Chdir(scratch); err != nil {
		panic(err)
	}
	check.Run(w)
	_ = w.curFile.Close()
	w.res.Seen = packSet(w.seen)
	w.res.States = packSet(w.states)
	data, err := json.Marshal(w.res)
	if err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(scratch+".res", data, 0644); err != nil {
		panic(err)
	}
}

func scratchBase() string {
	base := "/dev/shm"
	if dir, err := ioutil.TempDir(base, "verif-"); err == nil {
		return dir
	}
	dir, err := ioutil.TempDir("/tmp", "verif-")
	if err != nil {
		panic(err)
	}
	return dir
}

type workerRun struct {
	crashed bool
	stderr  string
	cur     int64
	res     *result
}

func startWorker(check *Check, tier string, base string, shard, shards int, only int64) workerRun {
	dir := filepath.Join(base, fmt.Sprintf("w%d", shard))
	_ = os.RemoveAll(dir)
	tmp := filepath.Join(base, fmt.Sprintf("t%d", shard))
	_ = os.RemoveAll(tmp)
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	if err := os.MkdirAll(tmp, 0755); err != nil {
		panic(err)
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(self, "-tier", tier, "-worker", fmt.Sprintf("%d,%d,%d,%s", shard, shards, only, dir))
	var stderr bytes.Buffer
	c.Stderr = &stderr
	c.Stdout = &stderr
	c.Env = append(os.Environ(), "TMPDIR="+tmp, "HOME="+filepath.Join(base, fmt.Sprintf("h%d", shard)), "XDG_CACHE_HOME=", "GOMAXPROCS=4")
	if check.Race {
		c.Env = append(c.Env, "GORACE=log_path="+dir+".race halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
	}
	err = c.Run()
	run := workerRun{stderr: stderr.String()}
	if data, rerr := ioutil.ReadFile(dir + ".res"); rerr == nil && err == nil {
		run.res = &result{}
		if jerr := json.Unmarshal(data, run.res); jerr == nil {
			return run
		}
	}
	run.crashed = true
	run.res = nil
	if err != nil {
		run.stderr += "\nworker: " + err.Error()
	}
	if data, rerr := ioutil.ReadFile(dir + ".cur"); rerr == nil && len(data) >= 8 {
		run.cur = int64(binary.LittleEndian.Uint64(data))
	} else {
		run.cur = -1
	}
	return run
}

func coordinate(check *Check, tier string, replay string) int {
	start := time.Now()
	base := scratchBase()
	defer func() { _ = removeScratch(base) }()
	shards := check.Workers
	if shards == 0 {
		shards = runtime.NumCPU()
	}
	only := int64(-1)
	if replay != "" {
		data, err := ioutil.ReadFile(replay)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var v violation
		if err := json.Unmarshal(data, &v); err != nil {
			fmt.Println(err)
			return 2
		}
		only = v.Index
		tier = v.Tier
		shards = 1
	}
	runs := make([]workerRun, shards)
	done := make(chan int)
	for i := 0; i < shards; i++ {
		i := i
		go func() {
			runs[i] = startWorker(check, tier, base, i, shards, only)
			done <- i
		}()
	}
	for i := 0; i < shards; i++ {
		<-done
	}
	total := &result{Counters: map[string]int64{}, Complete: true}
	seen := map[uint64]struct{}{}
	states := map[uint64]struct{}{}
	for i := range runs {
		r := runs[i]
		if r.crashed {
			total.Complete = false
			if r.cur < 0 || strings.Contains(r.stderr, "VERIF-INTERNAL") {
				fmt.Println("check infrastructure error:\n" + tail(r.stderr, 4000))
				return 2
			}
			// confirm that this case alone crashes
			again := startWorker(check, tier, base, 100+i, 1, r.cur)
			v := violation{Property: check.ID, Tier: tier, Index: r.cur, Kind: "crash", Case: marshal("see message"), Message: tail(r.stderr, 4000), Repeats: 1}
			if again.crashed {
				total.Violations = append(total.Violations, v)
			} else if again.res != nil && len(again.res.Violations) > 0 {
				total.Violations = append(total.Violations, again.res.Violations...)
			} else {
				// the crash may depend on what ran before it in this worker
				rerun := startWorker(check, tier, base, i, shards, only)
				if rerun.crashed && rerun.cur == r.cur {
					total.Violations = append(total.Violations, v)
				} else if rerun.crashed {
					v.Message = "crashed twice, in different cases: " + v.Message
					total.Violations = append(total.Violations, v)
				} else {
					total.Flaky = append(total.Flaky, v)
					r.res = rerun.res
				}
			}
			if r.res == nil {
				continue
			}
		}
		if r.res.Cases > total.Cases {
			total.Cases = r.res.Cases
		}
		total.Executed += r.res.Executed
		total.KnownHits += r.res.KnownHits
		for k, n := range r.res.Counters {
			total.Counters[k] += n
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.res.Samples...)
		}
		total.Violations = append(total.Violations, r.res.Violations...)
		total.Flaky = append(total.Flaky, r.res.Flaky...)
		if !r.res.Complete {
			total.Complete = false
		}
		unpackSet(seen, r.res.Seen)
		unpackSet(states, r.res.States)
	}
	known := loadKnown()
	var reported []violation
	for _, v := range total.Violations {
		if isKnown(known, v) {
			total.KnownHits++
		} else {
			reported = append(reported, v)
		}
	}
	sort.SliceStable(reported, func(i, j int) bool { return reported[i].Index < reported[j].Index })
	if replay != "" {
		if len(total.Violations) == 0 {
			fmt.Println("replay: no violation")
			return 0
		}
		for _, v := range total.Violations {
			fmt.Printf("replay: %s: %s\n", v.Kind, v.Message)
		}
		return 1
	}
	for _, k := range known {
		if k.property == check.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", check.ID, k.text)
		}
	}
	code := 0
	replayDir := filepath.Join(verifDir, "evidence", "replay")
	if len(reported) > 0 {
		code = 1
		_ = os.MkdirAll(replayDir, 0755)
		printed := map[string]bool{}
		for i, v := range reported {
			path := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", check.ID, i))
			data, _ := json.MarshalIndent(v, "", "  ")
			_ = ioutil.WriteFile(path, data, 0644)
			if !printed[v.Kind] && len(printed) < 8 {
				printed[v.Kind] = true
				fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, path)
				fmt.Printf("  kind=%s index=%d\n  case=%s\n  %s\n", v.Kind, v.Index, tail(string(v.Case), 1500), strings.Replace(tail(v.Message, 2500), "\n", "\n  ", -1))
			}
		}
	}
	coverage := map[string]interface{}{
		"evaluations":         total.Executed,
		"distinct_nontrivial": len(seen),
		"rule":                check.Rule,
		"samples":             total.Samples,
		"exhaustive":          total.Complete && total.Executed == total.Cases,
		"cases_enumerated":    total.Cases,
		"workers":             shards,
	}
	for k, n := range total.Counters {
		coverage[k] = n
	}
	if check.Level == "model_checking" {
		coverage["states"] = len(states)
		if _, ok := coverage["transitions"]; !ok {
			coverage["transitions"] = 0
		}
		if _, ok := coverage["traces_validated_against_impl"]; !ok {
			coverage["traces_validated_against_impl"] = 0
		}
	}
	if len(total.Flaky) > 0 {
		coverage["unreproduced"] = len(total.Flaky)
		coverage["unreproduced_first"] = total.Flaky[0].Kind + ": " + tail(total.Flaky[0].Message, 500)
		fmt.Printf("note: %d failure(s) did not reproduce, first: case %d %s: %s\n", len(total.Flaky), total.Flaky[0].Index, total.Flaky[0].Kind, tail(total.Flaky[0].Message, 600))
	}
	if total.KnownHits > 0 {
		coverage["known_finding_hits"] = total.KnownHits
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property":    check.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       check.Level,
		"coverage":    coverage,
		"assumptions": check.Assumptions,
		"wall_s":      float64(int(time.Since(start).Seconds()*100)) / 100,
		"violations":  len(reported),
	}
	data, _ := json.MarshalIndent(ev, "", "  ")
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := ioutil.WriteFile(filepath.Join(verifDir, "evidence", check.ID+".json"), append(data, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d/%d cases, %d distinct non-trivial, %d states, %d violations, %.1fs\n", check.ID, tier, total.Executed, total.Cases, len(seen), len(states), len(reported), time.Since(start).Seconds())
	if total.Executed == 0 && code == 0 {
		fmt.Println("no case was executed")
		return 2
	}
	return code
}

func removeScratch(base string) error {
	if !strings.HasPrefix(base, "/dev/shm/verif-") && !strings.HasPrefix(base, "/tmp/verif-") {
		return fmt.Errorf("refusing to remove %s", base)
	}
	return os.RemoveAll(base)
}

func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
}

type knownFinding struct {
	property string
	kind     string
	match    string
	text     string
}

// loadKnown reads known_findings.txt. A line is
//
//	finding: property=<id> kind=<kind> match=<substring of the case or message> | <text>
//	fixed: property=<id> <commit> <what failed>
//
// fixed lines suppress nothing.
func loadKnown() []knownFinding {
	data, err := ioutil.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "finding: ") {
			continue
		}
		head, text, ok := strings.Cut(strings.TrimPrefix(line, "finding: "), " | ")
		if !ok {
			continue
		}
		k := knownFinding{text: text}
		for head != "" {
			var f string
			if strings.HasPrefix(head, "match=") {
				k.match = strings.TrimPrefix(head, "match=")
				break
			}
			f, head, _ = strings.Cut(head, " ")
			if strings.HasPrefix(f, "property=") {
				k.property = strings.TrimPrefix(f, "property=")
			} else if strings.HasPrefix(f, "kind=") {
				k.kind = strings.TrimPrefix(f, "kind=")
			}
		}
		if k.property != "" && k.kind != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func isKnown(known []knownFinding, v violation) bool {
	for _, k := range known {
		if k.property == v.Property && k.kind == v.Kind && (strings.Contains(string(v.Case), k.match) || strings.Contains(v.Message, k.match)) {
			return true
		}
	}
	return false
}

// Internal aborts the check as an infrastructure error.
func Internal(err error) {
	if err != nil {
		fmt.Fprintf(os.Stderr, "VERIF-INTERNAL %v\n%s", err, debug.Stack())
		os.Exit(3)
	}
}
