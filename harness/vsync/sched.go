package vsync

import (
	"fmt"
	"runtime"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

type opKind int

const (
	opPoint opKind = iota
	opLock
	opWLock
	opRLock
)

func (k opKind) String() string { return [...]string{"go on", "Lock", "Lock(rw)", "RLock"}[k] }

// thread is a goroutine that reached a scheduling point at least once.
type thread struct {
	id      int
	goid    int64
	gate    chan struct{}
	waiting bool // at a scheduling point
	done    bool
	op      opKind
	obj     unsafe.Pointer
	held    *bool
	readers *int
	writers *int
	arrived bool // a writer waits inside Lock, and keeps readers out
	daemon  bool // not started by Spawn
	pc      uintptr
}

const maxThreads = 64

// The state of the running exploration.  Threads touch it only in functions
// hidden from the race detector, one at a time under mu.
var (
	mu      sync.Mutex
	on      bool
	abort   bool
	ctrl    int64 // the controlling goroutine
	threads [maxThreads]*thread
	nth     int
	paniced [8]string
	npan    int
)

//go:norace
func active() bool { return on && goid() != ctrl }

//go:norace
func aborting() bool { return abort }

//go:norace
func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

// Point is a scheduling point.
//
//go:norace
func Point() {
	if !active() {
		return
	}
	await(opPoint, nil, nil, nil, nil)
}

//go:norace
func await(op opKind, obj unsafe.Pointer, held *bool, readers, writers *int) {
	raceDisable()
	id := goid()
	mu.Lock()
	var t *thread
	for i := 0; i < nth; i++ {
		if threads[i].goid == id && !threads[i].done {
			t = threads[i]
		}
	}
	if t == nil {
		t = register()
		t.goid, t.daemon = id, true
	}
	t.op, t.obj, t.held, t.readers, t.writers, t.waiting = op, obj, held, readers, writers, true
	t.arrived = false
	var pcs [3]uintptr
	if runtime.Callers(3, pcs[:]) > 0 {
		t.pc = pcs[0]
	}
	gate := t.gate
	ab := abort
	mu.Unlock()
	if !ab {
		<-gate
	}
	raceEnable()
	if abort {
		runtime.Goexit()
	}
}

//go:norace
func register() *thread {
	if nth == maxThreads {
		panic("too many threads")
	}
	t := &thread{id: nth, gate: make(chan struct{})}
	threads[nth] = t
	nth++
	return t
}

//go:norace
func finished(t *thread) {
	raceDisable()
	mu.Lock()
	t.done, t.waiting = true, false
	mu.Unlock()
	raceEnable()
}

//go:norace
func notePanic(v interface{}) {
	s := fmt.Sprint(v)
	var buf [4096]byte
	n := runtime.Stack(buf[:], false)
	raceDisable()
	mu.Lock()
	if npan < len(paniced) {
		paniced[npan] = s + "\n" + string(buf[:n])
		npan++
	}
	mu.Unlock()
	raceEnable()
}

//go:norace
func newThread() *thread {
	raceDisable()
	mu.Lock()
	t := register()
	mu.Unlock()
	raceEnable()
	return t
}

//go:norace
func setGoid(t *thread) {
	id := goid()
	raceDisable()
	mu.Lock()
	t.goid = id
	mu.Unlock()
	raceEnable()
}

// Go stands in for the go statement.
func Go(f func()) {
	if !active() {
		go f()
		return
	}
	Spawn(f)
}

// Spawn starts a thread of the exploration.
func Spawn(f func()) {
	t := newThread()
	go func() {
		setGoid(t)
		defer finished(t)
		defer func() {
			if v := recover(); v != nil {
				notePanic(v)
			}
		}()
		Point()
		f()
	}()
}

// Step is one decision of a schedule.
type Step struct {
	Thread int
	Op     string
	Where  string
	// alternatives at this step, and which was taken
	n, taken int
}

func (s Step) String() string { return fmt.Sprintf("T%d %s %s", s.Thread, s.Op, s.Where) }

//go:norace
func (t *thread) enabled() bool {
	switch t.op {
	case opLock:
		return !*t.held
	case opWLock:
		// a writer that finds the lock taken goes on to wait in it
		return !t.arrived || t.free()
	case opRLock:
		return !*t.held && *t.writers == 0
	}
	return true
}

//go:norace
func (t *thread) free() bool { return !*t.held && *t.readers == 0 }

//go:norace
func (t *thread) release() {
	switch t.op {
	case opLock:
		*t.held = true
	case opWLock:
		if !t.free() {
			t.arrived = true
			*t.writers++
			return
		}
		*t.held = true
		if t.arrived {
			*t.writers--
		}
	case opRLock:
		*t.readers++
	}
	t.waiting = false
	raceDisable()
	t.gate <- struct{}{}
	raceEnable()
}

func where(pc uintptr) string {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	for i := len(f.File) - 1; i >= 0; i-- {
		if f.File[i] == '/' {
			return fmt.Sprintf("%s:%d", f.File[i+1:], f.Line)
		}
	}
	return "?"
}

// Explorer enumerates the schedules of one scenario.
type Explorer struct {
	Bound    int  // preemptions
	Delays   bool // the bound is on all deviations from the first choice
	Reverse  bool // the first choice is the newest thread, not the oldest
	MaxSteps int
	Daemons  bool // goroutines not started by Spawn or Go needn't end

	path     []int // decisions to repeat
	last     []Step
	Runs     int
	Steps    int64
	MaxDepth int
}

// Next prepares the next schedule; false when all have been explored.
func (e *Explorer) Next() bool {
	if e.Runs == 0 {
		return true
	}
	for i := len(e.last) - 1; i >= 0; i-- {
		if s := e.last[i]; s.taken+1 < s.n {
			e.path = e.path[:0]
			for _, p := range e.last[:i] {
				e.path = append(e.path, p.taken)
			}
			e.path = append(e.path, s.taken+1)
			return true
		}
	}
	return false
}

// Run executes one schedule of start, which spawns threads with Spawn, inside a
// synctest bubble.  extra, if set, runs whenever no thread can go on although
// some haven't finished; it returns false if it can't help either.  The result
// is a description of what went wrong, or "".
//
//go:norace
func (e *Explorer) Run(start func(), extra func() bool) string {
	mu.Lock()
	for i := range threads {
		threads[i] = nil
	}
	nth, npan, abort, on, ctrl = 0, 0, false, true, goid()
	mu.Unlock()
	defer func() {
		on = false
	}()
	races := RaceErrors()
	e.Runs++
	e.last = e.last[:0]
	cur, budget := -1, e.Bound
	start()
	slept := false
	for {
		synctest.Wait()
		mu.Lock()
		var en []*thread
		left := 0
		curEnabled := false
		for j := 0; j < nth; j++ {
			i := j
			if e.Reverse {
				i = nth - 1 - j
			}
			t := threads[i]
			if t.done {
				continue
			}
			if !t.daemon || !e.Daemons {
				left++
			}
			if t.waiting && t.enabled() {
				if t.id == cur {
					curEnabled = true
					en = append([]*thread{t}, en...)
				} else {
					en = append(en, t)
				}
			}
		}
		mu.Unlock()
		if npan > 0 {
			e.stop()
			return "panic: " + paniced[0]
		}
		if len(en) == 0 {
			if left == 0 {
				break
			}
			if extra != nil && extra() {
				continue
			}
			if !slept {
				slept = true
				time.Sleep(time.Hour)
				continue
			}
			s := "deadlock:"
			for i := 0; i < nth; i++ {
				if t := threads[i]; !t.done {
					if t.waiting {
						s += fmt.Sprintf(" T%d waits for %s at %s;", t.id, t.op, where(t.pc))
					} else {
						s += fmt.Sprintf(" T%d is blocked;", t.id)
					}
				}
			}
			e.stop()
			return s
		}
		slept = false
		n := len(en)
		if (curEnabled || e.Delays) && budget == 0 {
			n = 1
		}
		choice := 0
		if k := len(e.last); k < len(e.path) {
			choice = e.path[k]
			if choice >= n {
				e.stop()
				return fmt.Sprintf("INTERNAL: the schedule can't be repeated: step %d has %d alternatives", k, n)
			}
		}
		t := en[choice]
		if (curEnabled || e.Delays) && choice > 0 {
			budget--
		}
		e.last = append(e.last, Step{Thread: t.id, Op: t.op.String(), Where: where(t.pc), n: n, taken: choice})
		e.Steps++
		cur = t.id
		t.release()
		if e.MaxSteps > 0 && len(e.last) > e.MaxSteps {
			e.stop()
			return fmt.Sprintf("no end after %d steps", e.MaxSteps)
		}
	}
	if len(e.last) > e.MaxDepth {
		e.MaxDepth = len(e.last)
	}
	if r := RaceErrors(); r > races {
		return "data race (the race detector's report is on stderr)"
	}
	return ""
}

// stop ends the waiting threads of a failed schedule.
//
//go:norace
func (e *Explorer) stop() {
	for round := 0; round < 100; round++ {
		mu.Lock()
		abort = true
		var w []*thread
		for i := 0; i < nth; i++ {
			if t := threads[i]; t.waiting {
				t.waiting = false
				w = append(w, t)
			}
		}
		mu.Unlock()
		if len(w) == 0 {
			return
		}
		for _, t := range w {
			raceDisable()
			t.gate <- struct{}{}
			raceEnable()
			synctest.Wait()
		}
	}
}

// Trace is the last schedule.
func (e *Explorer) Trace() string {
	s := ""
	for i, st := range e.last {
		if i > 0 {
			s += " | "
		}
		s += st.String()
	}
	return s
}

// Choices identifies the last schedule.
func (e *Explorer) Choices() []int {
	var out []int
	for _, st := range e.last {
		out = append(out, st.taken)
	}
	return out
}

var stamp int64

// Stamp numbers events in the order in which they happen, without creating an
// order that the race detector would see.
//
//go:norace
func Stamp() int64 {
	stamp++
	return stamp
}

// Self is the number of the calling thread, -1 for others.
//
//go:norace
func Self() int {
	id := goid()
	for i := 0; i < nth; i++ {
		if threads[i].goid == id {
			return threads[i].id
		}
	}
	return -1
}
