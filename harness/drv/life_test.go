package drv

import (
	"context"
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"
	"weak"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// What closed connections leave behind: connections of an upgrader with all kinds of features, in managers, rooms,
// flushers and a rate limiter, used in all kinds of ways and ending in all kinds of ways. Once nobody uses them they must
// be garbage, and none of the library's goroutines may be theirs (spec: Lifecycle).

type lconn struct {
	id   int
	conn *snapws.Conn // forgotten in the end
	wp   weak.Pointer[snapws.Conn]
	mc   *snapws.ManagedConn[int]
	fc   *sim.FConn
	keep bool // the application holds on to it
	nr   int
}

type life struct {
	r     *rand.Rand
	w     *sim.World
	mu    sync.Mutex
	u     *snapws.Upgrader
	m     *snapws.Manager[int]
	rm    *snapws.RoomManager[int]
	rooms []*snapws.Room[int]
	conns []*lconn
	ctx   context.Context
	busy  map[int]int // operations in progress on a connection
	inUp  int
	shut  bool
}

func (x *life) op(c *lconn, k string, f func()) {
	x.w.Log(M{"e": "call", "c": c.id, "k": k})
	x.mu.Lock()
	x.busy[c.id]++
	x.mu.Unlock()
	go func() {
		x.w.Step("op")
		f()
		x.mu.Lock()
		x.busy[c.id]--
		x.mu.Unlock()
		x.w.Log(M{"e": "ret", "c": c.id, "k": k})
	}()
}

func (x *life) connect() {
	how := pick(x.r, "upgrade", "upgrade", "manager", "room")
	fail := x.r.Intn(8) == 0
	rw := x.w.NewRW()
	c := &lconn{id: rw.C.ID, fc: rw.C, keep: x.r.Intn(10) == 0}
	fate := pick(x.r, "", "", "", "err", "stall")
	at := 2 + x.r.Intn(4)
	rw.C.Plan = func(n int, b []byte) sim.Outcome {
		if n == 1 && fail {
			return sim.Outcome{Kind: "err"}
		}
		if n >= at && n > 1 && fate != "" {
			return sim.Outcome{Kind: fate}
		}
		return sim.Outcome{}
	}
	x.mu.Lock()
	x.conns = append(x.conns, c)
	x.inUp++
	key := x.r.Intn(3)
	x.mu.Unlock()
	x.w.Log(M{"e": "dial", "c": c.id})
	go func() {
		x.w.Step("dial")
		var err error
		switch how {
		case "manager":
			var mc *snapws.ManagedConn[int]
			if mc, err = x.m.Connect(key, rw, sim.GoodReq()); err == nil {
				c.mc, c.conn = mc, mc.Conn
			}
		case "room":
			c.conn, _, err = x.rm.Connect(rw, sim.GoodReq(), 10+key)
		default:
			c.conn, err = x.u.Upgrade(rw, sim.GoodReq())
		}
		if err == nil {
			c.wp = weak.Make(c.conn)
		}
		x.mu.Lock()
		x.inUp--
		x.mu.Unlock()
		x.w.Log(M{"e": "dialed", "c": c.id, "ok": err == nil})
		if err == nil && x.r.Intn(4) > 0 {
			conn := c.conn
			x.op(c, "reads", func() {
				for {
					if _, _, err := conn.ReadMessage(); snapws.IsFatalErr(err) {
						return
					}
				}
			})
		}
	}()
}

func (x *life) live() *lconn {
	var l []*lconn
	for _, c := range x.conns {
		if c.conn != nil {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[x.r.Intn(len(l))]
}

func (x *life) frame(c *lconn, op int, p []byte) {
	var key [4]byte
	h, b := clientFrame(op, true, false, true, len(p), p, key)
	c.fc.Feed(append(h, b...))
}

func (x *life) act() {
	c := x.live()
	if c == nil || x.r.Intn(8) == 0 && len(x.conns) < 6 && !x.shut {
		x.connect()
		return
	}
	conn, key, data := c.conn, x.r.Intn(3), []byte(content(x.r, pick(x.r, 1, 10, 130)))
	room := x.rooms[x.r.Intn(len(x.rooms))]
	switch x.r.Intn(26) {
	case 0:
		x.op(c, "send", func() { conn.SendBytes(x.ctx, data) })
	case 1:
		x.op(c, "stream", func() {
			if w, err := conn.NextWriter(x.ctx, 2); err == nil {
				w.Write(data)
				w.Flush()
				x.w.Step("mid")
				w.Close()
			}
		})
	case 2: // a message that's never finished
		x.op(c, "half", func() {
			if w, err := conn.NextWriter(x.ctx, 1); err == nil {
				w.Write(data)
			}
		})
	case 3:
		if !x.shut {
			mc := &snapws.ManagedConn[int]{Conn: conn, Key: key, Manager: x.m}
			if c.mc != nil {
				mc = c.mc
			}
			if c.nr++; c.nr == 1 && c.mc == nil {
				x.op(c, "register", func() { x.m.Register(key, mc) })
			}
		}
	case 4:
		x.op(c, "lookup", func() { x.m.Get(key); x.m.GetAllConns() })
	case 5, 6, 7:
		x.op(c, "join", func() { room.Add(conn) })
	case 8:
		x.op(c, "leave", func() { room.Remove(conn) })
	case 9:
		x.op(c, "move", func() { room.Move(conn, 10+key) })
	case 10, 11:
		x.op(c, "bcast", func() { room.BroadcastBytes(x.ctx, data) })
	case 12, 13:
		x.op(c, "bcast", func() { x.m.BroadcastString(x.ctx, data) })
	case 14:
		x.op(c, "batch", func() { conn.Batch(data) })
	case 15:
		x.op(c, "batch", func() { room.BatchBroadcast(x.ctx, data); x.m.BatchBroadcast(x.ctx, data) })
	case 16:
		x.op(c, "ping", func() { conn.Ping() })
	case 17:
		for i := x.r.Intn(4); i >= 0; i-- {
			x.frame(c, pick(x.r, 2, 2, 9, 10), data[:min(len(data), 100)])
		}
	case 18, 19:
		x.w.Advance(time.Duration(pick(x.r, 1, 20, 2000, 3000, 5100)) * time.Millisecond)
	case 20:
		x.op(c, "rooms", func() { x.rm.Get(10 + key); x.rm.GetRoomKeys(); room.GetAllConns() })
	default:
		x.finish(c)
	}
}

// finish ends a connection in one way or another.
func (x *life) finish(c *lconn) {
	conn := c.conn
	switch x.r.Intn(8) {
	case 0, 1:
		x.op(c, "close", conn.Close)
	case 2:
		x.op(c, "close", func() { conn.CloseWithCode(4000, "bye") })
	case 3:
		x.frame(c, 8, binary.BigEndian.AppendUint16(nil, 1000))
	case 4:
		c.fc.FeedErr(io.EOF)
	case 5:
		c.fc.FeedErr(sim.ErrNet)
	case 6:
		x.frame(c, 5, nil) // no such opcode
	case 7:
		x.w.Advance(time.Duration(pick(x.r, 61, 100)) * time.Second) // a ping, or the peer's silence
	}
}

func lifeScenario(i int, seed int64, mode string) ([]M, bool) {
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	x := &life{r: r, w: w, busy: map[int]int{}}
	ctx, cancel := context.WithCancel(context.Background())
	x.ctx = ctx
	opt := &snapws.Options{BroadcastBackpressure: snapws.BackpressureStrategy(r.Intn(3)), BroadcastChannelsSize: pick(r, 0, 1, 2), DisableWriteBuffersPooling: r.Intn(4) == 0}
	hooks := r.Intn(3) > 0
	opt.OnDisconnect = func(c *snapws.Conn) {
		w.Log(M{"e": "disc", "c": c.NetConn().(*sim.FConn).ID})
	}
	if hooks {
		opt.OnConnect = func(c *snapws.Conn) {
			if w.Rng.Intn(6) == 0 {
				c.Close()
			}
		}
	}
	x.u = snapws.NewUpgrader(opt)
	x.m = snapws.NewManager[int](x.u)
	x.rm = snapws.NewRoomManager[int](x.u)
	if r.Intn(2) == 0 {
		x.u.Limiter = snapws.NewRateLimiter(1, 2)
		if r.Intn(2) == 0 {
			x.u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error { c.Close(); return errors.New("enough") }
		}
	}
	fctx, fcancel := context.WithCancel(context.Background())
	enable := func() {
		switch d := 2 * time.Second; r.Intn(3) {
		case 0:
			x.u.EnableJSONBatching(fctx, d)
		case 1:
			x.u.EnablePrefixBatching(fctx, d)
		case 2:
			x.u.EnableBatching(fctx, d, func(ctx context.Context, c *snapws.Conn, messages [][]byte) error {
				return c.SendBytes(ctx, messages[0])
			})
		}
	}
	if r.Intn(3) > 0 {
		enable()
	}
	for k := 0; k < 3; k++ {
		x.rooms = append(x.rooms, x.rm.Add(10+k))
	}
	if hooks {
		x.m.OnRegister = func(mc *snapws.ManagedConn[int]) { maybe(w, func() { mc.Close() }) }
		x.m.OnUnregister = func(mc *snapws.ManagedConn[int]) { maybe(w, func() { x.m.Get(1) }) }
		x.rm.DefaultOnJoin = func(rm *snapws.Room[int], c *snapws.Conn, args ...any) {
			maybe(w, func() { c.Close() })
			maybe(w, func() { rm.Remove(c) })
		}
		x.rm.DefaultOnLeave = func(rm *snapws.Room[int], c *snapws.Conn, args ...any) {
			maybe(w, func() { rm.GetAllConns() })
		}
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		x.connect()
	}
	w.Run()
	pol, _ := sim.PickPolicy(r, 400)
	w.Control(pol)
	ok := w.Quiesce("prep")
	for k := 5 + r.Intn(30); k > 0 && ok; k-- {
		x.act()
		if r.Intn(12) == 0 && x.u.Flusher != nil {
			if ok = w.Quiesce("before"); ok && x.inUp == 0 { // not while somebody connects
				enable()
			}
		}
		if r.Intn(30) == 0 && x.u.Flusher != nil {
			x.u.Flusher.Close()
		}
		if r.Intn(25) == 0 && !x.shut && x.inUp == 0 {
			x.shut = true
			x.w.Log(M{"e": "call", "c": 0, "k": "shutdown"})
			go func() {
				x.m.Shutdown()
				x.w.Log(M{"e": "ret", "c": 0, "k": "shutdown"})
			}()
		}
		if r.Intn(2) == 0 {
			ok = w.Quiesce("step")
			if ok && r.Intn(6) == 0 {
				x.gc()
			}
		}
	}
	if ok {
		ok = w.Quiesce("body")
	}
	if ok && r.Intn(2) == 0 {
		w.Advance(20 * time.Second)
		x.gc()
	}
	// the end of all of them
	for _, c := range x.conns {
		if c.conn != nil && ok {
			x.finish(c)
			if r.Intn(2) == 0 {
				ok = w.Quiesce("end")
			}
			if c.conn != nil {
				x.op(c, "close", c.conn.Close)
			}
		}
	}
	cancel()
	if ok {
		ok = w.Quiesce("closing")
	}
	w.Advance(20 * time.Second)
	if ok && w.Quiesce("closed") {
		x.gc()
	} else {
		ok = false
	}
	fcancel()
	w.Free()
	w.Run()
	w.Advance(time.Second)
	n := 0
	for _, g := range sim.Goroutines() {
		if strings.Contains(g, "Atheer-Ganayem/SnapWS.") {
			n++
		}
	}
	w.Log(M{"e": "end", "gor": n})
	runtime.KeepAlive(x.m)
	runtime.KeepAlive(x.rm)
	runtime.KeepAlive(x.u)
	return []M{project10(w)}, ok
}

func maybe(w *sim.World, f func()) {
	if w.Rng.Intn(8) == 0 {
		f()
	}
}

// gc forgets the closed connections (unless the application keeps them) and logs which can still be reached.
func (x *life) gc() {
	for _, c := range x.conns {
		if c.fc.IsClosed() && !c.keep && x.busy[c.id] == 0 {
			c.conn, c.mc = nil, nil
		}
	}
	held := []int{}
	for _, c := range x.conns {
		if c.conn != nil {
			held = append(held, c.id)
		}
	}
	var left []int
	for n := 0; n < 4; n++ {
		runtime.GC()
		left = []int{}
		for _, c := range x.conns {
			if c.wp.Value() != nil {
				left = append(left, c.id)
			}
		}
		if len(left) == len(held) {
			break
		}
		x.w.Run()
	}
	x.w.Log(M{"e": "gc", "left": left, "held": held})
}

func project10(w *sim.World) M {
	evs := []M{}
	for _, e := range w.Ev {
		switch e["e"] {
		case "dial", "disc", "rawclose":
			evs = append(evs, M{"e": e["e"], "c": e["c"]})
		case "dialed":
			evs = append(evs, M{"e": "dialed", "c": e["c"], "ok": e["ok"]})
		case "call", "ret":
			evs = append(evs, M{"e": e["e"], "c": e["c"], "k": e["k"]})
		case "q":
			evs = append(evs, M{"e": "q", "mutex": e["mutex"]})
		case "gc":
			evs = append(evs, M{"e": "gc", "left": e["left"], "held": e["held"]})
		case "end":
			evs = append(evs, M{"e": "end", "gor": e["gor"]})
		case "livelock":
			evs = append(evs, M{"e": "livelock"})
		}
	}
	return M{"cfg": M{"nc": len(w.Conns)}, "ev": evs}
}
