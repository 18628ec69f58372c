// Package sim runs scenarios against snapws in a synctest bubble (fake time) with a fake network, and controls
// the interleaving of all goroutines: the instrumented library parks at every statement until the controller
// (the bubble's main goroutine) lets it continue. Run it with GOMAXPROCS=1.
package sim

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"
)

type M = map[string]any

// World is one run of one scenario.
type World struct {
	Rng      *rand.Rand
	start    time.Time
	mu       sync.Mutex
	Ev       []M
	park     []*Park
	ctl      atomic.Bool // parking enabled
	steps    int
	hits     int
	pol      Policy
	next     int // op ids
	pend     map[int]M
	Conns    []*FConn
	Hung     bool
	Trace    []string // schedule, for replays
	frees    map[int64]bool
	MaxSteps int
	bell     chan struct{} // rung when something parks
}

// Park is a goroutine waiting at a point.
type Park struct {
	G    int64
	What string
	ch   chan struct{}
}

var cur atomic.Pointer[World]

func init() {
	snapws.VerifPoint = func(id int) {
		if w := cur.Load(); w != nil && w.ctl.Load() {
			w.parkAt("p" + strconv.Itoa(id))
		}
	}
}

func NewWorld(seed int64) *World {
	w := &World{Rng: rand.New(rand.NewSource(seed)), start: time.Now(), pend: map[int]M{}, frees: map[int64]bool{}, MaxSteps: 400000, bell: make(chan struct{}, 1)}
	w.frees[Goid()] = true
	cur.Store(w)
	return w
}

// Stop detaches the world: nothing parks anymore, everything parked continues.
func (w *World) Stop() {
	w.Free()
	cur.CompareAndSwap(w, nil)
}

func Goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	i := bytes.IndexByte(s, ' ')
	id, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return id
}

func (w *World) parkAt(what string) {
	g := Goid()
	if w.frees[g] { // the controller itself
		return
	}
	p := &Park{G: g, What: what, ch: make(chan struct{})}
	w.mu.Lock()
	if !w.ctl.Load() {
		w.mu.Unlock()
		return
	}
	w.hits++
	w.park = append(w.park, p)
	w.mu.Unlock()
	select {
	case w.bell <- struct{}{}:
	default:
	}
	<-p.ch
}

// Step parks a harness goroutine, so that its next action is scheduled like the library's.
func (w *World) Step(what string) {
	if w.ctl.Load() {
		w.parkAt(what)
	}
}

// Now is the fake time in milliseconds since the start.
func (w *World) Now() int { return int(time.Since(w.start) / time.Millisecond) }

// Log appends an event.
func (w *World) Log(e M) {
	w.mu.Lock()
	e["t"] = w.Now()
	w.Ev = append(w.Ev, e)
	w.mu.Unlock()
}

// Call logs the call of an operation, runs it and logs its result. f returns extra result fields.
func (w *World) Call(e M, f func() M) M {
	w.mu.Lock()
	w.next++
	id := w.next
	e["id"] = id
	w.pend[id] = e
	w.mu.Unlock()
	e["e"] = "call"
	w.Step("call")
	w.Log(e)
	var r M
	func() {
		defer func() {
			if x := recover(); x != nil {
				st := make([]byte, 4096)
				st = st[:runtime.Stack(st, false)]
				fmt.Fprintf(os.Stderr, "PANIC in call: %v\n%s\n", x, st)
				r = M{"r": "panic", "msg": fmt.Sprint(x)}
			}
		}()
		r = f()
	}()
	r["e"] = "ret"
	r["id"] = id
	w.mu.Lock()
	delete(w.pend, id)
	r["t"] = w.Now()
	w.Ev = append(w.Ev, r)
	w.mu.Unlock()
	w.Step("ret")
	return r
}

// Pending returns the ids of the operations that have not returned.
func (w *World) Pending() []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	r := []int{}
	for id := range w.pend {
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

// Control switches parking on.
func (w *World) Control(p Policy) {
	w.pol = p
	w.ctl.Store(true)
}

// Free switches parking off and lets everybody run.
func (w *World) Free() {
	w.mu.Lock()
	w.ctl.Store(false)
	ps := w.park
	w.park = nil
	w.mu.Unlock()
	for _, p := range ps {
		close(p.ch)
	}
}

func settle() {
	for i := 0; i < 4; i++ {
		runtime.Gosched()
	}
}

// Run schedules until nothing is parked and every goroutine is blocked.
func (w *World) Run() {
	for {
		settle()
		w.mu.Lock()
		n := len(w.park)
		w.mu.Unlock()
		if n == 0 {
			if !w.allBlocked() {
				continue
			}
			w.mu.Lock()
			n = len(w.park)
			w.mu.Unlock()
			if n == 0 {
				return
			}
		}
		w.mu.Lock()
		w.steps++
		if w.steps > w.MaxSteps {
			w.mu.Unlock()
			w.Hung = true
			w.Log(M{"e": "livelock"})
			return
		}
		i := 0
		if w.pol != nil {
			i = w.pol.Pick(w.steps, w.park)
		}
		p := w.park[i]
		w.park = append(w.park[:i:i], w.park[i+1:]...)
		w.mu.Unlock()
		close(p.ch)
	}
}

var stackBuf = make([]byte, 1<<20)

// Goroutines returns "state" and stack of every goroutine of the bubble but the caller.
func Goroutines() []string {
	n := runtime.Stack(stackBuf, true)
	parts := strings.Split(string(stackBuf[:n]), "\n\n")
	var r []string
	for i, p := range parts {
		if i == 0 {
			continue
		}
		nl := strings.IndexByte(p, '\n')
		if nl < 0 {
			nl = len(p)
		}
		if strings.Contains(p[:nl], "synctest bubble") {
			r = append(r, p)
		}
	}
	return r
}

func state(g string) string {
	i, j := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
	s := g[i+1 : j]
	if k := strings.IndexByte(s, ','); k >= 0 {
		s = s[:k]
	}
	if k := strings.IndexByte(s, '('); k >= 0 { // (durable)
		s = strings.TrimSpace(s[:k])
	}
	return s
}

// allBlocked reports whether no goroutine of the bubble can run.
func (w *World) allBlocked() bool {
	for _, g := range Goroutines() {
		switch state(g) {
		case "running", "runnable", "syscall", "GC assist wait", "GC worker", "waiting", "preempted", "copystack":
			return false
		}
	}
	return true
}

// mutexBlocked returns the stacks of goroutines that wait for a mutex (after Run: a deadlock, nobody will unlock it).
func (w *World) mutexBlocked() []string {
	var r []string
	for _, g := range Goroutines() {
		s := state(g)
		if strings.Contains(s, "sync.") && !strings.Contains(s, "WaitGroup") && !strings.Contains(s, "Cond") || strings.Contains(s, "semacquire") {
			r = append(r, g)
		}
	}
	return r
}

// Quiesce logs that nothing can run: the operations listed are blocked. It returns false if the run must end,
// because a goroutine is blocked on a mutex forever.
func (w *World) Quiesce(what string) bool {
	w.Run()
	mb := w.mutexBlocked()
	e := M{"e": "q", "what": what, "pend": w.Pending(), "mutex": len(mb)}
	w.Log(e)
	if len(mb) > 0 {
		fmt.Fprintf(os.Stderr, "MUTEX DEADLOCK\n%s\n", strings.Join(mb, "\n\n"))
		w.Hung = true
	}
	return !w.Hung
}

// Advance lets d of fake time pass (only when quiescent and not hung) and runs what that wakes.
func (w *World) Advance(d time.Duration) {
	if w.Hung {
		return
	}
	w.Log(M{"e": "adv", "d": int(d / time.Millisecond)})
	t := time.NewTimer(d)
	defer t.Stop()
	for {
		select {
		case <-t.C:
			w.Run()
			return
		case <-w.bell: // something was woken by the time and is parked: now is when it runs
			w.Run()
			if w.Hung {
				return
			}
		}
	}
}

// Policy picks the goroutine to run next.
type Policy interface {
	Pick(step int, ps []*Park) int
}

// Random keeps the running goroutine with probability 1-P.
type Random struct {
	R    *rand.Rand
	P    float64
	last int64
}

func (r *Random) Pick(_ int, ps []*Park) int {
	if r.R.Float64() >= r.P {
		for i, p := range ps {
			if p.G == r.last {
				return i
			}
		}
	}
	i := r.R.Intn(len(ps))
	r.last = ps[i].G
	return i
}

// PCT runs the goroutine of highest priority; at the change points the one that would run is demoted.
type PCT struct {
	R      *rand.Rand
	Change map[int]bool
	prio   map[int64]float64
	low    float64
}

func NewPCT(r *rand.Rand, d, k int) *PCT {
	p := &PCT{R: r, Change: map[int]bool{}, prio: map[int64]float64{}}
	for i := 0; i < d; i++ {
		p.Change[1+r.Intn(k)] = true
	}
	return p
}

func (p *PCT) Pick(step int, ps []*Park) int {
	best := func() int {
		b := -1
		for i, x := range ps {
			if _, ok := p.prio[x.G]; !ok {
				p.prio[x.G] = 1 + p.R.Float64()
			}
			if b < 0 || p.prio[x.G] > p.prio[ps[b].G] {
				b = i
			}
		}
		return b
	}
	i := best()
	if p.Change[step] {
		p.low -= 1
		p.prio[ps[i].G] = p.low
		i = best()
	}
	return i
}

func (w *World) Hits() int  { return w.hits }
func (w *World) Steps() int { return w.steps }

// PickPolicy chooses a policy at random.
func PickPolicy(r *rand.Rand, est int) (Policy, string) {
	switch x := r.Intn(10); {
	case x < 3:
		p := []float64{0.05, 0.2, 0.5, 1}[r.Intn(4)]
		return &Random{R: r, P: p}, fmt.Sprint("random ", p)
	default:
		d := r.Intn(4)
		return NewPCT(r, d, est), fmt.Sprint("pct ", d)
	}
}

// Preempt runs goroutine A, then B, then the others (or the others first); after K[0] steps of A it is demoted below
// everybody, after K[1] steps of B so is B.
type Preempt struct {
	A, B    int64
	K       [2]int
	BgFirst bool
	Await   *int64 // becomes the next goroutine that is neither A, B nor Skip
	Skip    int64
	Old     map[int64]bool // ... and isn't one of these
	steps   [2]int
	demoted [2]bool
	order   map[int64]int
}

func (p *Preempt) rank(g int64) int {
	switch {
	case g == p.A && p.demoted[0]:
		return -1
	case g == p.B && p.demoted[1]:
		return -2
	case g == p.A:
		return 100
	case g == p.B:
		return 50
	}
	if p.order == nil {
		p.order = map[int64]int{}
	}
	n, ok := p.order[g]
	if !ok {
		n = len(p.order)
		p.order[g] = n
	}
	if p.BgFirst {
		return 200 + n
	}
	return 40 - n
}

func (p *Preempt) Pick(_ int, ps []*Park) int {
	for i := range ps {
		if g := ps[i].G; p.Await != nil && g != p.A && g != p.B && g != p.Skip && !p.Old[g] {
			*p.Await, p.Await = g, nil
		}
	}
	for {
		b := 0
		for i, x := range ps {
			if p.rank(x.G) > p.rank(ps[b].G) {
				b = i
			}
		}
		k := -1
		switch ps[b].G {
		case p.A:
			k = 0
		case p.B:
			k = 1
		}
		if k >= 0 && !p.demoted[k] && p.K[k] >= 0 {
			if p.steps[k] == p.K[k] {
				p.demoted[k] = true
				continue
			}
			p.steps[k]++
		}
		return b
	}
}

// AwaitNew makes the next goroutine to be started the one that g stands for.
func (p *Preempt) AwaitNew(g *int64) {
	p.Old = map[int64]bool{}
	for _, s := range Goroutines() {
		var id int64
		fmt.Sscanf(s, "goroutine %d ", &id)
		p.Old[id] = true
	}
	p.Skip, *g, p.Await = *g, 0, g
}

// Done reports whether A was preempted.
func (p *Preempt) Done() bool { return p.demoted[0] }
