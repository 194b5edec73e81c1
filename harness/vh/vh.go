// Package vh is the exhaustive-exploration driver shared by all checks.
//
// A check enumerates cases in a fixed order; each case is executed on the real
// code and compared with an oracle.  The parent process shards the enumeration
// over child processes (case index modulo shard count), so that a crash, a
// fatal runtime error, a hang or a memory blow-up of the code under test is
// attributed to exactly one case.  Nothing here samples: a run either covers
// its whole enumeration or reports exhaustive=false.
package vh

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Check is one property's machinery.
type Check struct {
	ID     string
	Bounds func(quick bool) string // what the enumeration covers, in words
	Run    func(h *H)
	// Shards limits the number of child processes (0: one per core).
	Shards int
	// CaseLimit is the hang limit for one case (0: 30s).
	CaseLimit time.Duration
	// HeapLimit in bytes (0: 2 GiB).
	HeapLimit uint64
	// Procs is GOMAXPROCS in children (0: 2).
	Procs int
	// Level overrides the reported level (default model_checking).
	Level string
	// Wrap runs the child body (e.g. inside a testing environment).
	Wrap func(f func())
}

// H is the enumeration context of one child process.
type H struct {
	quick     bool
	shard, n  int
	only      int64 // run just this index (-1: all)
	from      int64 // skip indices below
	upto      int64 // stop after this index (-1: no bound)
	idx       int64
	cur       *int64
	deadline  time.Time
	capped    bool
	dir       string
	vioFile   *os.File
	res       childResult
	states    map[uint64]struct{}
	outcomes  map[uint64]struct{}
	now       atomic.Int64 // real time, kept by the watchdog: inside a synctest bubble time.Now is another
	start     atomic.Int64 // unix nanos of the current case's start, 0 if none
	limit     time.Duration
	heapLimit uint64
	mu        sync.Mutex
	samplerN  int64
	vios      int
	keyOnly   bool
	check     string
}

type childResult struct {
	Cases       int64
	Transitions int64
	Traces      int64
	Samples     []string
	Capped      bool
	Total       int64 // enumeration size seen
	Notes       map[string]int64
}

type vio struct {
	Idx  int64
	Key  string
	What string
}

// C is one case.
type C struct {
	h   *H
	i   int64
	key func() string
}

type failure struct{ msg string }

// Quick tells whether this is the quick tier.
func (h *H) Quick() bool { return h.quick }

// Pick chooses a bound by tier.
func (h *H) Pick(q, t int) int {
	if h.quick {
		return q
	}
	return t
}

// Stop tells an enumerator that nothing further will be run.
func (h *H) Stop() bool {
	if h.capped {
		return true
	}
	if h.upto >= 0 && h.idx > h.upto {
		return true
	}
	if h.only >= 0 && h.idx > h.only {
		return true
	}
	return h.vios >= 8
}

// Skip reports that the next n cases belong to nobody in this process; used to
// avoid materialising them.  Only valid if none of them would be run.
func (h *H) mine(i int64) bool {
	if h.only >= 0 {
		return i == h.only
	}
	if i < h.from || (h.upto >= 0 && i > h.upto) {
		return false
	}
	return int(i%int64(h.n)) == h.shard
}

// Case runs body as the next case if it belongs to this shard.
func (h *H) Case(key func() string, body func(c *C)) {
	i := h.idx
	h.idx++
	if h.capped || h.vios >= 8 || !h.mine(i) {
		return
	}
	if h.res.Cases&63 == 0 && time.Now().After(h.deadline) {
		h.capped = true
		return
	}
	if h.keyOnly {
		h.violation(i, key(), "")
		return
	}
	atomic.StoreInt64(h.cur, i+1)
	h.now.Store(time.Now().UnixNano())
	h.start.Store(h.now.Load())
	c := &C{h: h, i: i, key: key}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(failure); ok {
					h.violation(i, key(), f.msg)
					return
				}
				h.violation(i, key(), fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
			}
		}()
		body(c)
	}()
	h.start.Store(0)
	atomic.StoreInt64(h.cur, 0)
	h.res.Cases++
	if n := h.res.Cases; n <= 2 || n&(n-1) == 0 && len(h.res.Samples) < 12 {
		k := key()
		if len(k) > 400 {
			k = k[:400] + "..."
		}
		h.res.Samples = append(h.res.Samples, k)
	}
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

func (h *H) violation(i int64, key, what string) {
	h.vios++
	b, _ := json.Marshal(vio{Idx: i, Key: key, What: what})
	h.vioFile.Write(append(b, '\n'))
}

// Failf reports a violation and ends the case.
func (c *C) Failf(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Die reports a violation and ends the process, for when what's left of the
// case can't be cleaned up.
func (c *C) Die(format string, args ...interface{}) {
	c.h.violation(c.i, c.key(), fmt.Sprintf(format, args...))
	os.Exit(exitDied)
}

// Known reports an occurrence of a defect that is recorded in
// known_findings.json under key.  If it is recorded the case goes on (and the
// parent prints the KNOWN-FINDING line), otherwise this is Failf.
func (c *C) Known(key string, format string, args ...interface{}) {
	for _, k := range loadKnown().Findings {
		if k.Property == c.h.check && k.Key == key {
			c.h.res.Notes["known:"+key]++
			return
		}
	}
	c.Failf(format, args...)
}

var knownOnce sync.Once
var knownData knownFile

func loadKnown() *knownFile {
	knownOnce.Do(func() {
		base := os.Getenv("VERIF_DIR")
		if base == "" {
			base = "/verif"
		}
		if b, err := os.ReadFile(filepath.Join(base, "known_findings.json")); err == nil {
			must(json.Unmarshal(b, &knownData))
		}
	})
	return &knownData
}

// Recover must be called (deferred) in goroutines other than the case's own, to
// turn their panics into messages.
func Recover(msg *string) {
	if r := recover(); r != nil {
		if f, ok := r.(failure); ok {
			*msg = f.msg
			return
		}
		*msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
	}
}

// Trans counts explored transitions (operations executed on the real code).
func (c *C) Trans(n int) { c.h.res.Transitions += int64(n) }

// Trace counts an execution of the real code that was compared with the oracle
// from start to end.
func (c *C) Trace() { c.h.res.Traces++ }

// State records a canonical state observed.
func (c *C) State(parts ...string) {
	if len(c.h.states) < 3000000 {
		c.h.states[Hash(parts...)] = struct{}{}
	}
}

// StateHash records a canonical state given by hash.
func (c *C) StateHash(v uint64) {
	if len(c.h.states) < 3000000 {
		c.h.states[v] = struct{}{}
	}
}

// Outcome records a distinct final observation.
func (c *C) Outcome(parts ...string) {
	if len(c.h.outcomes) < 1000000 {
		c.h.outcomes[Hash(parts...)] = struct{}{}
	}
}

// Note adds to a named counter in the evidence.
func (c *C) Note(name string, n int) {
	c.h.res.Notes[name] += int64(n)
}

// NoteMax keeps the maximum of a named counter (per process).
func (c *C) NoteMax(name string, n int) {
	if c.h.res.Notes["max_"+name] < int64(n) {
		c.h.res.Notes["max_"+name] = int64(n)
	}
}

// Touch resets the hang timer of the running case (for long legitimate cases).
func (c *C) Touch() { c.h.start.Store(c.h.now.Load()) }

// Expired tells that the run's soft deadline is over; the enumeration inside
// the case may stop early, which is reported as not exhaustive.
func (c *C) Expired() bool {
	if c.h.now.Load() > c.h.deadline.UnixNano() {
		c.h.capped = true
		return true
	}
	return false
}

// Hash hashes strings unambiguously.
func Hash(parts ...string) uint64 {
	f := fnv.New64a()
	for _, p := range parts {
		f.Write([]byte(p))
		f.Write([]byte{0xff})
	}
	return f.Sum64()
}

func runChild(ck *Check, tier string) {
	dir := os.Getenv("VH_DIR")
	h := &H{check: ck.ID, quick: tier != "thorough", dir: dir, only: -1, upto: -1, n: 1,
		states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, limit: ck.CaseLimit, heapLimit: ck.HeapLimit}
	h.res.Notes = map[string]int64{}
	if h.limit == 0 {
		h.limit = 30 * time.Second
	}
	if h.heapLimit == 0 {
		h.heapLimit = 2 << 30
	}
	fmt.Sscanf(os.Getenv("VH_SHARD"), "%d/%d", &h.shard, &h.n)
	geti := func(k string, p *int64) {
		if v := os.Getenv(k); v != "" {
			*p, _ = strconv.ParseInt(v, 10, 64)
		}
	}
	geti("VH_ONLY", &h.only)
	geti("VH_FROM", &h.from)
	geti("VH_UPTO", &h.upto)
	var dl int64
	geti("VH_DEADLINE", &dl)
	h.deadline = time.Unix(dl, 0)
	name := os.Getenv("VH_NAME")
	h.keyOnly = os.Getenv("VH_KEYONLY") != ""

	cf, err := os.OpenFile(filepath.Join(dir, name+".cur"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o600)
	must(err)
	must(cf.Truncate(4096))
	mm, err := syscall.Mmap(int(cf.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	h.cur = (*int64)(unsafe.Pointer(&mm[0]))
	h.vioFile, err = os.OpenFile(filepath.Join(dir, name+".vio"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	must(err)

	go h.watchdog()
	// a Wrap may end the process after f returns, so f does everything
	f := func() {
		ck.Run(h)
		h.res.Capped = h.capped
		h.res.Total = h.idx
		b, _ := json.Marshal(h.res)
		must(os.WriteFile(filepath.Join(dir, name+".res"), b, 0o600))
		writeSet(filepath.Join(dir, name+".states"), h.states)
		writeSet(filepath.Join(dir, name+".outcomes"), h.outcomes)
		os.Exit(0)
	}
	if ck.Wrap != nil {
		ck.Wrap(f)
	} else {
		f()
	}
}

func writeSet(path string, m map[uint64]struct{}) {
	f, err := os.Create(path)
	must(err)
	w := bufio.NewWriter(f)
	var b [8]byte
	for k := range m {
		binary.LittleEndian.PutUint64(b[:], k)
		w.Write(b[:])
	}
	w.Flush()
	f.Close()
}

func readSet(path string, m map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

const (
	exitHang = 70
	exitHeap = 71
	exitDied = 72 // a violation has been noted
)

func (h *H) watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		h.now.Store(time.Now().UnixNano())
		time.Sleep(50 * time.Millisecond)
		metrics.Read(sample)
		if sample[0].Value.Uint64() > h.heapLimit && h.start.Load() != 0 {
			// collect first: only live memory counts
			var ms runtime.MemStats
			runtime.GC()
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > h.heapLimit {
				os.Exit(exitHeap)
			}
		}
		if s := h.start.Load(); s != 0 && time.Since(time.Unix(0, s)) > h.limit {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			os.Exit(exitHang)
		}
	}
}

// ---------------------------------------------------------------- parent ----

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

type childEnd struct {
	code   int
	cur    int64
	stderr string
	vios   []vio
	res    *childResult
}

// exes are the binaries that explore the property: this one, and those named by
// VH_ALSO, whose enumerations are explored in addition.
func exes() []string {
	return append([]string{"/proc/self/exe"}, strings.Fields(os.Getenv("VH_ALSO"))...)
}

func spawn(ck *Check, exe, dir, name, tier string, shard, n int, extra ...string) childEnd {
	os.Remove(filepath.Join(dir, name+".vio"))
	os.Remove(filepath.Join(dir, name+".res"))
	cmd := exec.Command(exe, ck.ID)
	procs := ck.Procs
	if procs == 0 {
		procs = 2
	}
	cmd.Env = append(os.Environ(), "VH_CHILD=1", "VH_DIR="+dir, "VH_NAME="+name, "VERIF_TIER="+tier,
		fmt.Sprintf("VH_SHARD=%d/%d", shard, n), fmt.Sprintf("GOMAXPROCS=%d", procs), "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, extra...)
	errf, _ := os.Create(filepath.Join(dir, name+".err"))
	outf, _ := os.Create(filepath.Join(dir, name+".out"))
	cmd.Stderr, cmd.Stdout = errf, outf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	err := cmd.Run()
	runtime.UnlockOSThread()
	errf.Close()
	outf.Close()
	ce := childEnd{}
	if err != nil {
		ce.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			ce.code = ee.ExitCode()
			if ce.code < 0 {
				ce.code = 128
			}
		}
	}
	b, _ := os.ReadFile(filepath.Join(dir, name+".err"))
	if len(b) > 12000 {
		b = b[:12000]
	}
	ce.stderr = string(b)
	if b, err := os.ReadFile(filepath.Join(dir, name+".cur")); err == nil && len(b) >= 8 {
		ce.cur = int64(binary.LittleEndian.Uint64(b))
	}
	if f, err := os.Open(filepath.Join(dir, name+".vio")); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 64<<20)
		for sc.Scan() {
			var v vio
			if json.Unmarshal(sc.Bytes(), &v) == nil {
				ce.vios = append(ce.vios, v)
			}
		}
		f.Close()
	}
	if b, err := os.ReadFile(filepath.Join(dir, name+".res")); err == nil {
		r := &childResult{}
		if json.Unmarshal(b, r) == nil {
			ce.res = r
		}
	}
	if ce.code != 0 {
		ce.res = nil
	}
	return ce
}

func crashText(ce childEnd) string {
	switch ce.code {
	case exitHang:
		return "the code under test did not finish (hang)\n" + ce.stderr
	case exitHeap:
		return "the code under test used memory without bound"
	}
	return fmt.Sprintf("the process died (exit %d) while executing the case\n%s", ce.code, ce.stderr)
}

type shardedVio struct {
	vio
	exe      int
	shard, n int
	crash    bool
}

// Main runs the check named by os.Args[1].
func Main(checks ...Check) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: bin ID [--replay FILE]")
		os.Exit(2)
	}
	var ck *Check
	for i := range checks {
		if checks[i].ID == os.Args[1] {
			ck = &checks[i]
		}
	}
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[1])
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if os.Getenv("VH_CHILD") != "" {
		runChild(ck, tier)
		return
	}
	if len(os.Args) > 2 && os.Args[2] == "--bounds" {
		fmt.Print(ck.Bounds(tier == "quick"))
		return
	}
	os.Exit(parent(ck, tier))
}

func parent(ck *Check, tier string) int {
	t0 := time.Now()
	base := os.Getenv("VERIF_DIR")
	if base == "" {
		base = "/verif"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dir, err := os.MkdirTemp("", "vh-"+ck.ID+"-")
	must(err)
	defer os.RemoveAll(dir)
	budget := 480
	if tier == "thorough" {
		budget = 3000
	}
	if v := os.Getenv("VERIF_BUDGET_S"); v != "" {
		budget, _ = strconv.Atoi(v)
	}
	dl := fmt.Sprintf("VH_DEADLINE=%d", t0.Add(time.Duration(budget)*time.Second).Unix())

	if len(os.Args) > 3 && os.Args[2] == "--replay" {
		return replay(ck, dir, os.Args[3])
	}

	n := ck.Shards
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var vios []shardedVio
	var total childResult
	total.Notes = map[string]int64{}
	states, outcomes := map[uint64]struct{}{}, map[uint64]struct{}{}
	infra := ""
	for ei, exe := range exes() {
		var size int64
		for s := 0; s < n; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				name := fmt.Sprintf("s%d-%d", ei, s)
				from := int64(0)
				for attempt := 0; attempt < 2; attempt++ {
					ce := spawn(ck, exe, dir, name, tier, s, n, dl, fmt.Sprintf("VH_FROM=%d", from))
					mu.Lock()
					for _, v := range ce.vios {
						vios = append(vios, shardedVio{v, ei, s, n, false})
					}
					if ce.res != nil {
						total.Cases += ce.res.Cases
						total.Transitions += ce.res.Transitions
						total.Traces += ce.res.Traces
						total.Capped = total.Capped || ce.res.Capped
						if len(total.Samples) < 16 {
							total.Samples = append(total.Samples, ce.res.Samples...)
						}
						if ce.res.Total > size {
							size = ce.res.Total
						}
						for k, v := range ce.res.Notes {
							if strings.HasPrefix(k, "max_") {
								if total.Notes[k] < v {
									total.Notes[k] = v
								}
							} else {
								total.Notes[k] += v
							}
						}
						readSet(filepath.Join(dir, name+".states"), states)
						readSet(filepath.Join(dir, name+".outcomes"), outcomes)
						mu.Unlock()
						return
					}
					if ce.cur == 0 {
						infra = fmt.Sprintf("shard %d ended with code %d outside any case:\n%s", s, ce.code, ce.stderr)
						mu.Unlock()
						return
					}
					if ce.code != exitDied {
						vios = append(vios, shardedVio{vio{Idx: ce.cur - 1, Key: "", What: crashText(ce)}, ei, s, n, true})
					}
					total.Capped = true
					from = ce.cur
					mu.Unlock()
				}
			}(s)
		}
		wg.Wait()
		total.Total += size
	}

	sort.Slice(vios, func(i, j int) bool {
		if vios[i].exe != vios[j].exe {
			return vios[i].exe < vios[j].exe
		}
		return vios[i].Idx < vios[j].Idx
	})
	exit := 0
	nrep := 0
	unconfirmed := 0
	crashes := 0
	for _, v := range vios {
		if v.Key == "" { // crashed: ask for the key without running the case
			ce := spawn(ck, exes()[v.exe], dir, "key", tier, 0, 1, dl, fmt.Sprintf("VH_ONLY=%d", v.Idx), "VH_KEYONLY=1")
			if len(ce.vios) > 0 {
				v.Key = ce.vios[0].Key
			} else {
				v.Key = fmt.Sprintf("case#%d", v.Idx)
			}
		}
		if nrep >= 3 || unconfirmed >= 6 || v.crash && crashes > 0 {
			continue
		}
		if v.crash {
			crashes++
		}
		// confirm: alone, then in the context of its shard
		mode, text := confirm(ck, dir, tier, dl, v)
		if mode == "" {
			unconfirmed++
			fmt.Fprintf(os.Stderr, "UNCONFIRMED (not reproduced in 5 reruns, not reported): %s %s: %s\n", ck.ID, v.Key, v.What)
			continue
		}
		rp := filepath.Join(base, "evidence", "replay")
		os.MkdirAll(rp, 0o755)
		path := filepath.Join(rp, fmt.Sprintf("%s-%d.json", ck.ID, nrep))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": ck.ID, "tier": tier, "index": v.Idx, "key": v.Key, "what": text,
			"mode": mode, "exe": v.exe, "shard": v.shard, "shards": v.n,
			"replay_cmd": fmt.Sprintf("bash /verif/check.sh %s --replay %s", ck.ID, path),
		}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		lines := strings.SplitN(text, "\n", 12)
		if len(lines) > 11 {
			lines = lines[:11]
		}
		key := v.Key
		if len(key) > 600 {
			key = key[:600] + "..."
		}
		fmt.Printf("  case: %s\n  what: %s\n", key, strings.Join(lines, "\n        "))
		nrep++
		exit = 1
	}
	for _, k := range loadKnown().Findings {
		if k.Property == ck.ID && total.Notes["known:"+k.Key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.What)
		}
	}
	if infra != "" && exit == 0 {
		fmt.Fprintln(os.Stderr, "ERROR:", infra)
		return 2
	}
	level := ck.Level
	if level == "" {
		level = "model_checking"
	}
	if len(total.Samples) > 16 {
		total.Samples = total.Samples[:16]
	}
	bounds := ck.Bounds(tier == "quick")
	for _, exe := range exes()[1:] {
		cmd := exec.Command(exe, ck.ID, "--bounds")
		cmd.Env = append(os.Environ(), "VERIF_TIER="+tier)
		out, err := cmd.Output()
		must(err)
		bounds += "; and " + string(out)
	}
	cov := map[string]interface{}{
		"states": len(states), "transitions": total.Transitions,
		"traces_validated_against_impl": total.Traces, "samples": total.Samples,
		"cases": total.Cases, "enumeration_size": total.Total,
		"distinct_outcomes": len(outcomes), "exhaustive": !total.Capped && len(vios) == 0,
		"bounds": bounds, "shards": n, "unconfirmed": unconfirmed,
		"violations_seen": len(vios),
	}
	for k, v := range total.Notes {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(t0).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(base, "evidence"), 0o755)
	must(os.WriteFile(filepath.Join(base, "evidence", ck.ID+".json"), append(b, '\n'), 0o644))
	fmt.Printf("%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		ck.ID, tier, total.Cases, total.Total, len(states), total.Transitions, total.Traces, len(outcomes),
		!total.Capped && len(vios) == 0, time.Since(t0).Seconds())
	return exit
}

func confirm(ck *Check, dir, tier, dl string, v shardedVio) (mode, text string) {
	dl = fmt.Sprintf("VH_DEADLINE=%d", time.Now().Add(600*time.Second).Unix())
	for i := 0; i < 3; i++ {
		ce := spawn(ck, exes()[v.exe], dir, "confirm", tier, 0, 1, dl, fmt.Sprintf("VH_ONLY=%d", v.Idx))
		if len(ce.vios) > 0 {
			return "alone", ce.vios[0].What
		}
		if ce.res == nil && ce.cur == v.Idx+1 {
			return "alone", crashText(ce)
		}
	}
	for i := 0; i < 2; i++ {
		ce := spawn(ck, exes()[v.exe], dir, "confirm", tier, v.shard, v.n, dl, fmt.Sprintf("VH_UPTO=%d", v.Idx))
		for _, w := range ce.vios {
			if w.Idx == v.Idx {
				return "in-shard", w.What
			}
		}
		if ce.res == nil && ce.cur == v.Idx+1 {
			return "in-shard", crashText(ce)
		}
	}
	return "", ""
}

func replay(ck *Check, dir, path string) int {
	var r struct {
		Tier   string
		Index  int64
		Key    string
		Mode   string
		Exe    int
		Shard  int
		Shards int
	}
	b, err := os.ReadFile(path)
	must(err)
	must(json.Unmarshal(b, &r))
	dl := fmt.Sprintf("VH_DEADLINE=%d", time.Now().Add(600*time.Second).Unix())
	var ce childEnd
	if r.Mode == "in-shard" {
		ce = spawn(ck, exes()[r.Exe], dir, "replay", r.Tier, r.Shard, r.Shards, dl, fmt.Sprintf("VH_UPTO=%d", r.Index))
	} else {
		ce = spawn(ck, exes()[r.Exe], dir, "replay", r.Tier, 0, 1, dl, fmt.Sprintf("VH_ONLY=%d", r.Index))
	}
	for _, v := range ce.vios {
		if v.Idx == r.Index {
			fmt.Printf("VIOLATION property=%s replay=%s\n  case: %s\n  what: %s\n", ck.ID, path, v.Key, v.What)
			return 1
		}
	}
	if ce.res == nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", ck.ID, path, crashText(ce))
		return 1
	}
	fmt.Println("replay: no violation")
	return 0
}
