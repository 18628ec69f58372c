package drv

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// Batching: connections of one upgrader, messages batched directly and by batch broadcasts to a room or a manager,
// flushers that are closed, replaced or whose context ends, slow and failing connections (spec: Batch).

type bconn struct {
	id, fl int
	conn   *snapws.Conn
	fc     *sim.FConn
	base   int
	held   bool
	sealed bool // closed by the harness
}

type bflush struct {
	id, every int
	strat     string
	pre, suf  bool
	ctx       context.Context
	cancel    context.CancelFunc
	done      bool
	close     func()
}

type bmsg struct {
	id   int
	data []byte
}

type bat struct {
	r      *rand.Rand
	w      *sim.World
	u      *snapws.Upgrader
	m      *snapws.Manager[int]
	rm     *snapws.RoomManager[int]
	room   *snapws.Room[int]
	opt    snapws.Options
	mu     sync.Mutex
	conns  []*bconn
	msgs   []*bmsg
	fls    []*bflush
	ctxs   []*wctx
	fates  []string
	holdCh chan struct{}
	end    bool
	nhold  int
	nbb    int
	nopen  int // upgrades in progress
	nena   int // Enable... in progress
	maxc   int
	json   bool
	fresh  bool // OnConnect batches
	curFl  int
}

func (x *bat) call(k string, extra M, f func() M) M {
	e := M{"k": k, "c": 0, "f": 0, "prev": 0, "grp": 0, "excl": []int{}, "m": 0, "ctx": 0, "code": 0}
	for a, b := range extra {
		e[a] = b
	}
	return x.w.Call(e, f)
}

// Every message is a JSON value that starts with its number, so that it can be used with all strategies.
func (x *bat) msg() *bmsg {
	x.mu.Lock()
	defer x.mu.Unlock()
	m := &bmsg{id: len(x.msgs) + 1}
	body := content(x.r, pick(x.r, 0, 0, 1, 3, 5, 10, 20, 40, x.opt.MaxBatchSize-10, x.opt.MaxBatchSize, 2*x.opt.MaxBatchSize))
	switch x.r.Intn(4) {
	case 0:
		m.data = []byte(fmt.Sprintf(`{"m":%d,"x":"%s"}`, m.id, body))
	case 1:
		m.data = []byte(fmt.Sprintf(`[%d,"%s"]`, m.id, body))
	case 2:
		m.data = []byte(fmt.Sprint(1000 + m.id))
	default:
		m.data = []byte(fmt.Sprintf(`"%d,%s"`, m.id, body))
	}
	x.msgs = append(x.msgs, m)
	return m
}

func (x *bat) ident(b []byte) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, m := range x.msgs {
		if bytes.Equal(m.data, b) {
			return m.id
		}
	}
	return 0
}

// what the prefix and suffix functions return for a batch
func affix(kind string, strat string, c int, ids []int) []byte {
	if len(ids) == 0 || (ids[0]+c)%4 == 0 {
		return nil
	}
	if (ids[0]+c)%4 == 1 && strat == "len" {
		return []byte{}
	}
	return []byte(fmt.Sprintf(`"%s%d:%s"`, kind, c, strings.Trim(strings.ReplaceAll(fmt.Sprint(ids), " ", "."), "[]")))
}

func (x *bat) idents(msgs [][]byte) []int {
	l := []int{}
	for _, m := range msgs {
		l = append(l, x.ident(m))
	}
	return l
}

func (x *bat) idOf(c *snapws.Conn) int { return c.NetConn().(*sim.FConn).ID }

func (x *bat) custom(f *bflush) snapws.SendFunc {
	return func(ctx context.Context, c *snapws.Conn, messages [][]byte) error {
		id := x.idOf(c)
		x.w.Log(M{"e": "custom", "c": id, "ids": x.idents(messages)})
		defer x.w.Log(M{"e": "customend", "c": id})
		x.w.Step("custom")
		x.mu.Lock()
		how, slow := x.r.Intn(4), x.r.Intn(4) == 0 && !x.end
		x.mu.Unlock()
		if slow {
			<-x.hold()
		}
		switch how {
		case 0:
			return nil
		case 1:
			return fmt.Errorf("custom error")
		default:
			return c.SendBytes(ctx, bytes.Join(messages, []byte("|")))
		}
	}
}

func (x *bat) hold() chan struct{} {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.holdCh
}

// enable (re)starts batching. Not while a connection is being made: whose flusher it gets would be a race.
func (x *bat) enable() {
	x.mu.Lock()
	if x.nopen > 0 || x.nena > 0 || x.end || len(x.fls) >= 3 {
		x.mu.Unlock()
		return
	}
	x.nena++
	f := &bflush{id: len(x.fls) + 1}
	every := pick(x.r, 0, 20, 50, 200, 1000)
	f.every = every
	if every == 0 {
		f.every = 50
	}
	f.strat = pick(x.r, "json", "len", "custom", "json", "len")
	f.pre, f.suf = x.r.Intn(3) == 0, x.r.Intn(3) == 0
	if x.r.Intn(3) > 0 {
		f.ctx, f.cancel = context.WithCancel(context.Background())
	}
	x.fls = append(x.fls, f)
	prev := x.curFl
	x.mu.Unlock()
	d := time.Duration(every) * time.Millisecond
	x.call("enable", M{"f": f.id, "prev": prev}, func() M {
		switch f.strat {
		case "json":
			x.u.EnableJSONBatching(f.ctx, d)
		case "len":
			x.u.EnablePrefixBatching(f.ctx, d)
		case "custom":
			x.u.EnableBatching(f.ctx, d, x.custom(f))
		}
		if f.pre {
			x.u.Flusher.BatchPrefixFunc = func(c *snapws.Conn, messages [][]byte) []byte {
				return affix("P", f.strat, x.idOf(c), x.idents(messages))
			}
		}
		if f.suf {
			x.u.Flusher.BatchSuffixFunc = func(c *snapws.Conn, messages [][]byte) []byte {
				return affix("S", f.strat, x.idOf(c), x.idents(messages))
			}
		}
		f.close = x.u.Flusher.Close
		return M{"r": "ok"}
	})
	x.mu.Lock()
	x.curFl = f.id
	x.nena--
	x.mu.Unlock()
}

func (x *bat) connect() {
	x.mu.Lock()
	if x.nena > 0 || len(x.conns)+x.nopen >= x.maxc {
		x.mu.Unlock()
		return
	}
	x.nopen++
	x.mu.Unlock()
	rw := x.w.NewRW()
	fate := x.fates[x.r.Intn(len(x.fates))]
	fr := rand.New(rand.NewSource(x.r.Int63()))
	rw.C.Plan = func(n int, b []byte) sim.Outcome {
		if n == 1 || x.end {
			return sim.Outcome{}
		}
		switch {
		case fate == "stall", fate == "mixed" && fr.Intn(3) == 0:
			return sim.Outcome{Kind: "stall"}
		case fate == "err", fate == "mixed" && fr.Intn(3) == 0:
			k := 0
			if len(b) > 0 {
				k = fr.Intn(len(b))
			}
			return sim.Outcome{Kind: pick(fr, "err", "part"), K: k}
		}
		return sim.Outcome{}
	}
	g := x.r.Intn(3)
	x.w.Call(M{"k": "join", "c": rw.C.ID, "f": 0, "grp": g, "excl": []int{}, "m": 0, "ctx": 0, "code": 0, "fl": x.curFl}, func() M {
		conn, err := x.u.Upgrade(rw, sim.GoodReq())
		if err != nil {
			panic(err)
		}
		x.mu.Lock()
		x.nopen--
		x.mu.Unlock()
		switch g {
		case 1:
			x.room.Add(conn)
		case 0:
			x.m.Register(rw.C.ID, &snapws.ManagedConn[int]{Conn: conn, Key: rw.C.ID, Manager: x.m})
		default:
			x.room.Add(conn)
			x.m.Register(rw.C.ID, &snapws.ManagedConn[int]{Conn: conn, Key: rw.C.ID, Manager: x.m})
		}
		return M{"r": "ok"}
	})
}

func (x *bat) pick() *bconn {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.conns) == 0 {
		return nil
	}
	return x.conns[x.r.Intn(len(x.conns))]
}

func (x *bat) batch(c *bconn) {
	m := x.msg()
	e := M{"c": c.id, "m": m.id}
	switch x.r.Intn(8) {
	case 0:
		var v any
		json.Unmarshal(m.data, &v)
		d, _ := json.Marshal(v)
		x.mu.Lock()
		m.data = d
		x.mu.Unlock()
		x.call("batch", e, func() M { return res(c.conn.BatchJSON(v)) })
	case 1:
		x.call("badbatch", e, func() M { return res(c.conn.BatchJSON(make(chan int))) })
	default:
		d := append([]byte(nil), m.data...)
		x.call("batch", e, func() M { return res(c.conn.Batch(d)) })
	}
}

// full makes a batch leave because the next message doesn't fit.
func (x *bat) full(soon func()) {
	c := x.pick()
	if c == nil {
		return
	}
	for k := 0; k < 2; k++ {
		if soon != nil {
			soon()
			soon = nil
		}
		m := x.msg()
		x.mu.Lock()
		m.data = []byte(fmt.Sprintf(`"%d,%s"`, m.id, strings.Repeat("f", x.opt.MaxBatchSize)))
		x.mu.Unlock()
		d := append([]byte(nil), m.data...)
		x.call("batch", M{"c": c.id, "m": m.id}, func() M { return res(c.conn.Batch(d)) })
	}
}

func (x *bat) bb() {
	x.mu.Lock()
	if x.nbb >= 2 {
		x.mu.Unlock()
		return
	}
	x.nbb++
	x.mu.Unlock()
	defer func() { x.mu.Lock(); x.nbb--; x.mu.Unlock() }()
	m := x.msg()
	cx := &wctx{}
	x.mu.Lock()
	switch x.r.Intn(5) {
	case 0:
	case 1, 2, 3:
		cx.ctx = context.Background()
	default:
		cx.id = len(x.ctxs) + 1
		cx.ctx, cx.cancel = context.WithCancel(context.Background())
		x.ctxs = append(x.ctxs, cx)
	}
	x.mu.Unlock()
	ids, ks, cs := []int{}, []int{}, []*snapws.Conn{}
	for i := pick(x.r, 0, 0, 0, 1, 1, 2, 3, 6); i > 0; i-- {
		if c := x.pick(); c != nil {
			ids, ks, cs = append(ids, c.id), append(ks, c.id), append(cs, c.conn)
		}
	}
	e := M{"m": m.id, "ctx": cx.id, "excl": ids, "grp": x.r.Intn(2)}
	var v any
	js := x.r.Intn(5) == 0
	if js {
		json.Unmarshal(m.data, &v)
		d, _ := json.Marshal(v)
		x.mu.Lock()
		m.data = d
		x.mu.Unlock()
	}
	d := append([]byte(nil), m.data...)
	x.call("bb", e, func() M {
		var n int
		var err error
		switch {
		case e["grp"] == 0 && js:
			n, err = x.m.BatchBroadcastJSON(cx.ctx, v, ks...)
		case e["grp"] == 0:
			n, err = x.m.BatchBroadcast(cx.ctx, d, ks...)
		case js:
			n, err = x.room.BatchBroadcastJSON(cx.ctx, v, cs...)
		default:
			n, err = x.room.BatchBroadcast(cx.ctx, d, cs...)
		}
		return M{"r": errKind(err), "n": n}
	})
}

func (x *bat) do(k string) {
	w := x.w
	switch k {
	case "enable":
		x.enable()
		return
	case "connect":
		x.connect()
		return
	case "bb":
		x.bb()
		return
	case "fclose", "cancel":
		x.mu.Lock()
		if len(x.fls) == 0 {
			x.mu.Unlock()
			return
		}
		f := x.fls[x.r.Intn(len(x.fls))]
		if f.close == nil || k == "cancel" && (f.cancel == nil || f.done) {
			x.mu.Unlock()
			return
		}
		if k == "cancel" {
			f.done = true
		}
		x.mu.Unlock()
		if k == "cancel" {
			x.call("fcancel", M{"f": f.id}, func() M { f.cancel(); return M{"r": "ok"} })
		} else {
			x.call("fclose", M{"f": f.id}, func() M { f.close(); return M{"r": "ok"} })
		}
		return
	case "ccancel":
		x.mu.Lock()
		var c *wctx
		for _, y := range x.ctxs {
			if !y.done {
				c = y
			}
		}
		if c != nil {
			c.done = true
		}
		x.mu.Unlock()
		if c != nil {
			w.Log(M{"e": "cancel", "ctx": c.id})
			c.cancel()
		}
		return
	}
	c := x.pick()
	if c == nil {
		return
	}
	switch k {
	case "batch":
		x.batch(c)
	case "send":
		w.Log(M{"e": "hold", "c": c.id})
		c.conn.SendString(context.Background(), []byte("plain"))
		w.Log(M{"e": "unhold", "c": c.id})
	case "close":
		code := pick(x.r, 1000, 3000+x.r.Intn(900))
		x.call("close", M{"c": c.id, "code": code}, func() M {
			if code == 1000 {
				c.conn.Close()
			} else {
				c.conn.CloseWithCode(uint16(code), "bye")
			}
			return M{"r": "ok"}
		})
	case "hold":
		x.mu.Lock()
		if c.held || x.end {
			x.mu.Unlock()
			return
		}
		c.held = true
		x.nhold++
		x.mu.Unlock()
		defer func() {
			x.mu.Lock()
			c.held = false
			x.nhold--
			x.mu.Unlock()
		}()
		w.Log(M{"e": "hold", "c": c.id})
		wr, err := c.conn.NextWriter(context.Background(), 1)
		if err != nil {
			w.Log(M{"e": "unhold", "c": c.id})
			return
		}
		wr.Write([]byte("stream"))
		if x.r.Intn(2) == 0 {
			w.Step("holding")
		} else {
			<-x.hold()
		}
		wr.Close()
		w.Log(M{"e": "unhold", "c": c.id})
	}
}

func (x *bat) letGo() {
	x.mu.Lock()
	close(x.holdCh)
	x.holdCh = make(chan struct{})
	x.mu.Unlock()
}

func (x *bat) release() {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, c := range x.w.Conns {
		c.ReleaseStalls()
	}
}

var batKinds = map[string][]string{
	"C15":   {"batch", "batch", "batch", "batch", "batch", "bb", "bb", "send", "hold", "connect"},
	"C21":   {"batch", "batch", "batch", "bb", "bb", "fclose", "cancel", "enable", "connect", "connect", "connect", "close", "ccancel"},
	"mixed": {"batch", "batch", "batch", "bb", "bb", "fclose", "cancel", "enable", "connect", "close", "hold", "send", "ccancel"},
}

func batchScenario(i int, seed int64, mode string) ([]M, bool) {
	mode, seed, isPair, fresh := pairMode(i, seed, mode)
	if !fresh {
		return nil, true
	}
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	x := &bat{r: r, w: w, holdCh: make(chan struct{}), maxc: 1 + r.Intn(3)}
	if mode != "C15" {
		x.maxc = 1 + r.Intn(5)
	}
	o := &x.opt
	o.WriteBufferSize = pick(r, 32, 64, 256, 4096)
	o.WriteWait = 5 * time.Second
	o.ReadWait = 1000 * time.Hour
	o.PingEvery = 2000 * time.Hour
	o.MaxBatchSize = pick(r, 20, 30, 60, 100, 1<<20)
	o.BroadcastChannelsSize = pick(r, 1, 2, 3, 8)
	o.BroadcastBackpressure = snapws.BackpressureStrategy(r.Intn(3))
	x.fates = pick(r, []string{""}, []string{""}, []string{"", "stall"}, []string{"", "mixed"}, []string{"", "", "err"})
	if o.MaxBatchSize == 1<<20 {
		o.MaxBatchSize = 100
		x.opt.MaxBatchSize = 100
	}
	x.fresh = r.Intn(3) == 0
	opt := *o
	if r.Intn(4) == 0 {
		opt.MaxBatchSize = 1 << 20 // practically none
	}
	max := opt.MaxBatchSize
	opt.OnConnect = func(c *snapws.Conn) {
		fc := c.NetConn().(*sim.FConn)
		b := &bconn{id: fc.ID, conn: c, fc: fc, fl: x.curFl}
		b.base = bytes.Index(fc.Wire, []byte("\r\n\r\n")) + 4
		x.mu.Lock()
		x.conns = append(x.conns, b)
		x.mu.Unlock()
		if x.fresh {
			x.batch(b)
		}
	}
	opt.OnDisconnect = func(c *snapws.Conn) {
		w.Log(M{"e": "disc", "c": x.idOf(c)})
		if x.fresh && r.Intn(2) == 0 {
			for _, b := range x.conns {
				if b.conn == c {
					x.batch(b)
				}
			}
		}
	}
	byDefault(r, &opt)
	x.u = snapws.NewUpgrader(&opt)
	x.m = snapws.NewManager[int](x.u)
	x.rm = snapws.NewRoomManager[int](x.u)
	x.room = x.rm.Add(1)
	kinds := batKinds[mode]
	if kinds == nil {
		kinds = batKinds["mixed"]
	}
	nb := r.Intn(8) == 0
	var pr *pair
	if isPair {
		pr = newPair(i, r, batPairOps[mode], []string{"empty", "filled", "due"})
		nb = false
	}
	go func() {
		if nb { // connections without batching
			x.connect()
		}
		if !nb || r.Intn(2) == 0 {
			x.enable()
		}
		for k := 1 + r.Intn(2); k > 0; k-- {
			x.connect()
		}
		for k := 1 + r.Intn(2); k > 0 && pr != nil && pr.setup != "empty"; k-- {
			x.do("batch")
		}
	}()
	w.Run()
	okk := w.Quiesce("prep")
	if pr == nil && r.Intn(2) == 0 { // one thing at a time
		for k := 4 + r.Intn(15); k > 0 && okk; k-- {
			switch r.Intn(12) {
			case 0:
				x.release()
			case 1:
				x.letGo()
			case 2, 3:
				w.Advance(time.Duration(pick(r, 1, 10, 19, 20, 21, 50, 51, 199, 200, 1000)) * time.Millisecond)
			default:
				kd := kinds[r.Intn(len(kinds))]
				go x.do(kd)
			}
			w.Run()
			okk = w.Quiesce("one")
		}
	}
	rounds := 1 + r.Intn(3)
	if pr != nil {
		rounds = 0
		for k, g := range []*int64{&pr.pol.A, &pr.pol.B} {
			op := []string{pr.a, pr.b}[k]
			pr.start(w, g, func() {
				if op == "tick" { // the flusher's goroutine it is
					pr.pol.Skip, *g, pr.pol.Await = *g, 0, g
				}
				if (op == "tick" || pr.setup == "due") && len(x.fls) > 0 { // at the moment of a flush
					e := x.fls[len(x.fls)-1].every
					time.Sleep(time.Duration(e-w.Now()%e) * time.Millisecond)
				}
				switch op {
				case "tick":
				case "sender": // the goroutine that sends a full batch
					x.full(func() { pr.pol.AwaitNew(g) })
				default:
					x.do(op)
				}
			})
		}
		w.Control(pr.pol)
		if okk = w.Quiesce("run"); okk {
			w.Advance(time.Duration(pick(r, 20, 50, 200)) * time.Millisecond)
			okk = w.Quiesce("act")
		}
	}
	for round := rounds; round > 0 && okk; round-- {
		var agents []string
		if mode == "C21" && r.Intn(2) == 0 { // connections come and go while the flusher is closed
			go func() {
				for k := 1 + r.Intn(3); k > 0; k-- {
					x.do("batch")
				}
			}()
			w.Run()
			if okk = w.Quiesce("batched"); !okk {
				break
			}
			agents = []string{"fclose", "connect", pick(r, "connect", "close"), pick(r, "batch", "close", "connect", "bb")}
		}
		free := agents == nil
		if free {
			for k := 1 + r.Intn(4); k > 0; k-- {
				agents = append(agents, kinds[r.Intn(len(kinds))])
			}
		}
		for _, kd := range agents {
			reps := 1 + r.Intn(3)
			go func() {
				w.Step("start")
				for i := x.r.Intn(4); i > 0; i-- {
					w.Step("delay")
				}
				if free && x.r.Intn(2) == 0 {
					// at the moment of a flush
					ms := pick(x.r, 20, 50, 200, 19)
					if len(x.fls) > 0 {
						ms = x.fls[len(x.fls)-1].every - x.w.Now()%x.fls[len(x.fls)-1].every
					}
					time.Sleep(time.Duration(ms) * time.Millisecond)
				}
				for ; reps > 0; reps-- {
					x.do(kd)
					if free && x.r.Intn(3) == 0 {
						x.do(kinds[x.r.Intn(len(kinds))])
					}
				}
			}()
		}
		if round == rounds {
			pol, _ := sim.PickPolicy(r, 200)
			w.Control(pol)
		}
		okk = w.Quiesce("run")
		for k := r.Intn(4); k > 0 && okk; k-- {
			switch r.Intn(5) {
			case 0:
				x.release()
			case 1:
				x.letGo()
			default:
				w.Advance(time.Duration(pick(r, 1, 20, 50, 60, 200, 1000)) * time.Millisecond)
			}
			okk = w.Quiesce("act")
		}
	}
	for k := 0; k < 7 && okk; k++ {
		x.mu.Lock()
		x.end = true
		x.mu.Unlock()
		x.letGo()
		x.release()
		okk = w.Quiesce("settle")
		if okk {
			w.Advance(1001 * time.Millisecond)
			okk = w.Quiesce("settle")
		}
		busy := false
		for _, c := range w.Conns {
			busy = busy || c.Busy() > 0
		}
		if !busy && len(w.Pending()) == 0 && x.nhold == 0 && k > 0 {
			break
		}
		if k > 2 && okk {
			w.Advance(5500 * time.Millisecond)
			okk = w.Quiesce("settle")
		}
	}
	pend := len(w.Pending())
	tr := x.project(max)
	w.Free()
	for _, c := range x.ctxs {
		c.cancel()
	}
	x.letGo()
	for _, c := range x.conns {
		go c.conn.Close()
	}
	for _, f := range x.fls {
		if f.close != nil {
			f.close()
		}
	}
	x.release()
	w.Run()
	if pr != nil && okk && !pr.pol.Done() {
		pr.dead()
		return nil, pend == 0
	}
	return []M{tr}, okk && pend == 0
}

// unbatch takes a batch apart: the messages in it, or nothing if it isn't a batch in f's encoding.
func (x *bat) unbatch(f *bflush, c int, b []byte) []int {
	var parts [][]byte
	switch f.strat {
	case "json":
		var l []json.RawMessage
		if len(b) == 0 || b[0] != '[' || json.Unmarshal(b, &l) != nil {
			return nil
		}
		for _, p := range l {
			parts = append(parts, p)
		}
		exact := append([]byte{'['}, bytes.Join(parts, []byte{','})...)
		if !bytes.Equal(append(exact, ']'), b) {
			return nil
		}
	case "len":
		for len(b) > 0 {
			if len(b) < 4 || int(binary.BigEndian.Uint32(b)) > len(b)-4 {
				return nil
			}
			n := int(binary.BigEndian.Uint32(b))
			parts = append(parts, b[4:4+n])
			b = b[4+n:]
		}
	default:
		return nil
	}
	// the messages are those in the middle that are known; then the ends have to be what the functions gave
	for from := 0; from <= 1; from++ {
		for to := len(parts); to >= len(parts)-1 && to > from; to-- {
			ids := x.idents(parts[from:to])
			good := true
			for _, id := range ids {
				good = good && id > 0
			}
			var p, s []byte
			if f.pre {
				p = affix("P", f.strat, c, ids)
			}
			if f.suf {
				s = affix("S", f.strat, c, ids)
			}
			good = good && (p != nil) == (from == 1) && (s != nil) == (to == len(parts)-1)
			if good && (p == nil || bytes.Equal(p, parts[0])) && (s == nil || bytes.Equal(s, parts[len(parts)-1])) {
				return ids
			}
		}
	}
	return nil
}

func (x *bat) project(max int) M {
	rets := map[int]M{}
	for _, e := range x.w.Ev {
		if e["e"] == "ret" {
			rets[e["id"].(int)] = e
		}
	}
	byID := map[int]*bconn{}
	wires := map[int][]OFrame{}
	for _, c := range x.conns {
		byID[c.id] = c
		wires[c.id] = parseWire(c.fc.Wire[c.base:])
	}
	evs := []M{}
	infl := 0
	fi := map[int]int{}
	cur := map[int][]byte{}
	curOp := map[int]int{}
	open, shut := map[int]bool{}, map[int]bool{} // in the middle of a message, after a close frame
	seen := make([][]int, len(x.w.Conns))
	for i := range seen {
		seen[i] = []int{}
	}
	add := func(e, n M) {
		n["e"], n["t"] = e["e"], e["t"]
		evs = append(evs, n)
	}
	for _, e := range x.w.Ev {
		switch e["e"] {
		case "call":
			id := e["id"].(int)
			r, n, done := "", 0, false
			if q := rets[id]; q != nil {
				done = true
				r = strings.SplitN(q["r"].(string), ":", 2)[0]
				if v, is := q["n"].(int); is {
					n = v
				}
			}
			fl := 0
			if e["k"] == "join" {
				fl = e["fl"].(int)
			}
			if e["k"] == "enable" {
				fl = e["prev"].(int)
			}
			add(e, M{"id": id, "k": e["k"], "c": e["c"], "f": e["f"], "grp": e["grp"], "excl": e["excl"], "m": e["m"], "ctx": e["ctx"], "code": e["code"],
				"fl": fl, "r": r, "n": n, "done": done})
		case "ret":
			n := 0
			if v, is := e["n"].(int); is {
				n = v
			}
			add(e, M{"id": e["id"], "r": strings.SplitN(e["r"].(string), ":", 2)[0], "n": n})
		case "disc", "hold", "unhold", "customend":
			add(e, M{"c": e["c"]})
		case "custom":
			c := e["c"].(int)
			ids := e["ids"].([]int)
			seen[c-1] = append(seen[c-1], ids...)
			add(e, M{"c": c, "ids": ids})
		case "cancel":
			add(e, M{"ctx": e["ctx"]})
		case "rawclose":
			add(e, M{"c": e["c"]})
		case "ws", "we":
			c := byID[e["c"].(int)]
			if c == nil || e["from"].(int) < c.base {
				continue
			}
			if e["e"] == "ws" {
				infl++
				add(e, M{"c": c.id})
				continue
			}
			infl--
			fs := []M{}
			fr := wires[c.id]
			for fi[c.id] < len(fr) && fr[fi[c.id]].To+c.base <= e["to"].(int) && fr[fi[c.id]].Bad != "cut" {
				f := fr[fi[c.id]]
				fi[c.id]++
				if f.Bad != "" || f.Rsv || shut[c.id] || f.Op < 3 && (f.Op == 0) != open[c.id] {
					fs = append(fs, M{"k": "bad", "v": 0, "ids": []int{}})
				}
				shut[c.id] = shut[c.id] || f.Op == 8
				if f.Op < 3 {
					open[c.id] = !f.Fin
				}
				switch {
				case f.Op == 8:
					code := 1005
					if len(f.Payload) >= 2 {
						code = int(binary.BigEndian.Uint16(f.Payload))
					}
					fs = append(fs, M{"k": "close", "v": code, "ids": []int{}})
				case f.Op < 8:
					if f.Op != 0 {
						cur[c.id] = nil
						curOp[c.id] = f.Op
					}
					cur[c.id] = append(cur[c.id], f.Payload...)
					if !f.Fin {
						continue
					}
					if curOp[c.id] == 1 && (string(cur[c.id]) == "stream" || string(cur[c.id]) == "plain") {
						continue
					}
					if c.fl == 0 {
						fs = append(fs, M{"k": "junk", "v": 0, "ids": []int{}})
						continue
					}
					if x.fls[c.fl-1].strat == "custom" {
						continue
					}
					ids := x.unbatch(x.fls[c.fl-1], c.id, cur[c.id])
					if ids == nil || curOp[c.id] != 2 {
						fs = append(fs, M{"k": "junk", "v": curOp[c.id], "ids": []int{}})
						continue
					}
					seen[c.id-1] = append(seen[c.id-1], ids...)
					fs = append(fs, M{"k": "batch", "v": 0, "ids": ids})
				}
			}
			add(e, M{"c": c.id, "ok": e["r"] == "ok", "fr": fs})
		case "q":
			add(e, M{"pend": e["pend"], "infl": infl, "mutex": e["mutex"]})
		case "livelock":
			add(e, M{})
		}
	}
	ends := []int{}
	for _, c := range x.w.Conns {
		if c.IsClosed() {
			ends = append(ends, c.ID)
		}
	}
	fends := []int{}
	for _, e := range x.w.Ev {
		switch {
		case e["e"] != "call":
		case e["k"] == "fclose" || e["k"] == "fcancel":
			fends = append(fends, e["f"].(int))
		case e["k"] == "enable" && e["prev"] != 0:
			fends = append(fends, e["prev"].(int))
		}
	}
	every, size := []int{}, []int{}
	for _, f := range x.fls {
		every = append(every, f.every)
	}
	for _, m := range x.msgs {
		size = append(size, len(m.data))
	}
	return M{"cfg": M{"nc": len(x.w.Conns), "q": x.opt.BroadcastChannelsSize, "bp": int(x.opt.BroadcastBackpressure), "max": max,
		"every": every, "size": size, "seen": seen, "ends": ends, "fends": fends}, "ev": evs}
}
