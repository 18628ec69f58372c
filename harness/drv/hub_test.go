package drv

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// Managers, rooms and broadcasts: any mix of registering, joining, leaving, closing, broadcasting and shutting down on
// a few connections, some of them slow or broken, with hooks that call back. One scenario is projected to a trace of
// VH_KIND: "registry", "rooms" or "bcast".

type hconn struct {
	id, key int
	conn    *snapws.Conn
	mc      *snapws.ManagedConn[int]
	fc      *sim.FConn
	base    int
	fate    string // "", stall, err
	reg     bool
	moving  bool
	held    bool
	reads   bool
	fi      int
}

type hroom struct {
	id, key int
	r       *snapws.Room[int]
	adds    int
	closed  bool // closed or being closed
}

type hmsg struct {
	id, op int
	data   []byte
}

type hub struct {
	r      *rand.Rand
	w      *sim.World
	mode   string
	u      *snapws.Upgrader
	m      *snapws.Manager[int]
	rm     *snapws.RoomManager[int]
	opt    snapws.Options
	mu     sync.Mutex
	conns  []*hconn
	rooms  []*hroom
	msgs   []*hmsg
	ctxs   []*wctx
	kbusy  map[int]int // adds by key in progress
	kclose map[int]int
	budget int // hook actions left
	hookDo map[string]string
	fates  []string
	slow   map[int]bool // connections that take no more bytes for now
	shut   bool         // rm.Shutdown has been called
	holdCh chan struct{}
	end    bool
	nhold  int
	maxc   int
	will   map[int]bool // connections of a Connect in progress
	nbc    int          // broadcasts in progress
	keys   int
}

func (x *hub) agent(f func()) {
	go func() {
		x.w.Step("start")
		for i := x.r.Intn(4); i > 0; i-- {
			x.w.Step("delay")
		}
		f()
	}()
}

func (x *hub) idOf(c *snapws.Conn) int {
	if c == nil {
		return 0
	}
	return c.NetConn().(*sim.FConn).ID
}

func (x *hub) roomOf(r *snapws.Room[int]) *hroom {
	if r == nil {
		return &hroom{}
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, h := range x.rooms {
		if h.r == r {
			return h
		}
	}
	h := &hroom{id: len(x.rooms) + 1, key: r.Key, r: r}
	x.rooms = append(x.rooms, h)
	return h
}

func (x *hub) call(k string, extra M, f func() M) M {
	e := M{"k": k, "c": 0, "key": 0, "room": 0, "args": []int{}, "excl": []int{}, "m": 0, "ctx": 0, "code": 0}
	for a, b := range extra {
		e[a] = b
	}
	return x.w.Call(e, f)
}

func ok(res []int) M { return M{"r": "ok", "res": res} }

func (x *hub) rw() *sim.RW {
	rw := x.w.NewRW()
	fate := x.fates[x.r.Intn(len(x.fates))]
	fr := rand.New(rand.NewSource(x.r.Int63()))
	rw.C.Plan = func(n int, b []byte) sim.Outcome {
		if x.slow[rw.C.ID] {
			return sim.Outcome{Kind: "stall"}
		}
		if n == 1 || x.end {
			return sim.Outcome{}
		}
		switch {
		case fate == "stall", fate == "mixed" && fr.Intn(3) == 0:
			return sim.Outcome{Kind: "stall"}
		case fate == "err", fate == "mixed" && fr.Intn(3) == 0:
			k := 0
			if len(b) > 0 {
				k = fr.Intn(len(b))
			}
			return sim.Outcome{Kind: pick(fr, "err", "part"), K: k}
		}
		return sim.Outcome{}
	}
	return rw
}

func (x *hub) known(c *snapws.Conn, mc *snapws.ManagedConn[int], key int) *hconn {
	fc := c.NetConn().(*sim.FConn)
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, h := range x.conns {
		if h.id == fc.ID {
			if mc != nil {
				h.mc, h.key, h.reg = mc, key, true
			}
			return h
		}
	}
	h := &hconn{id: fc.ID, conn: c, fc: fc, mc: mc, key: key, reg: mc != nil || x.will[fc.ID]}
	h.base = bytes.Index(fc.Wire, []byte("\r\n\r\n")) + 4
	x.conns = append(x.conns, h)
	return h
}

func (x *hub) conn() *hconn {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.conns) == 0 {
		return nil
	}
	return x.conns[x.r.Intn(len(x.conns))]
}

func (x *hub) room() *hroom {
	x.mu.Lock()
	defer x.mu.Unlock()
	var l []*hroom
	for _, h := range x.rooms {
		if !h.closed {
			l = append(l, h)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[x.r.Intn(len(l))]
}

func (x *hub) key() int { return 1 + x.r.Intn(x.keys) }

func (x *hub) plain() *hconn {
	rw := x.rw()
	c, err := x.u.Upgrade(rw, sim.GoodReq())
	if err != nil {
		panic(err)
	}
	return x.known(c, nil, 0)
}

func (x *hub) args() ([]int, []any) {
	n := []int{}
	a := []any{}
	for i := pick(x.r, 0, 0, 0, 1, 1, 2, 3, 6); i > 0; i-- {
		v := x.r.Intn(50)
		n = append(n, v)
		a = append(a, v)
	}
	return n, a
}

func intArgs(args []any) []int {
	r := []int{}
	for i := range args {
		v, ok := snapws.GetArg[int](args, i)
		if !ok {
			v = -1
		}
		r = append(r, v)
	}
	return r
}

func (x *hub) readLoop(c *hconn) {
	for {
		if _, _, err := c.conn.ReadMessage(); err != nil {
			return
		}
	}
}

func (x *hub) newCtx() *wctx {
	x.mu.Lock()
	defer x.mu.Unlock()
	c := &wctx{}
	switch x.r.Intn(5) {
	case 0, 1:
		return c
	case 2:
		c.ctx = context.Background()
		return c
	}
	c.id = len(x.ctxs) + 1
	x.ctxs = append(x.ctxs, c)
	c.ctx, c.cancel = context.WithCancel(context.Background())
	return c
}

func (x *hub) cancel() {
	x.mu.Lock()
	var l []*wctx
	for _, c := range x.ctxs {
		if !c.done {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		x.mu.Unlock()
		return
	}
	c := l[x.r.Intn(len(l))]
	c.done = true
	x.mu.Unlock()
	x.w.Log(M{"e": "cancel", "ctx": c.id})
	c.cancel()
}

// gate reserves a key (and a room) for adding; false if the room is being closed.
func (x *hub) gate(key int, h *hroom) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.kclose[key] > 0 || h != nil && h.closed || x.shut {
		return false
	}
	x.kbusy[key]++
	if h != nil {
		h.adds++
	}
	return true
}

func (x *hub) ungate(key int, h *hroom) {
	x.mu.Lock()
	x.kbusy[key]--
	if h != nil {
		h.adds--
	}
	x.mu.Unlock()
}

// sel says on what an operation is done; what isn't given is chosen at random.
type sel struct {
	c        *hconn
	h        *hroom
	key      int
	made     *hconn // the connection it made
	anyCount bool
}

func (x *hub) do(k string) { x.doOn(k, &sel{}) }

func (x *hub) doOn(k string, s *sel) {
	w := x.w
	theConn := func() *hconn {
		if s.c != nil {
			return s.c
		}
		return x.conn()
	}
	theRoom := func() *hroom {
		if s.h == nil {
			return x.room()
		}
		x.mu.Lock()
		defer x.mu.Unlock()
		if s.h.closed {
			return nil
		}
		return s.h
	}
	theKey := func() int {
		if s.key != 0 {
			return s.key
		}
		return x.key()
	}
	if !s.anyCount && len(w.Conns) >= x.maxc && (k == "mconnect" || k == "rconnect") {
		return
	}
	switch k {
	case "mconnect":
		key := theKey()
		rw := x.rw()
		x.mu.Lock()
		x.will[rw.C.ID] = true
		x.mu.Unlock()
		x.call("mreg", M{"c": rw.C.ID, "key": key}, func() M {
			mc, err := x.m.Connect(key, rw, sim.GoodReq())
			if err != nil {
				return M{"r": "err", "res": []int{}}
			}
			s.made = x.known(mc.Conn, mc, key)
			return ok([]int{})
		})
	case "mreg":
		c := theConn()
		if c == nil || c.moving || s.anyCount {
			c = x.plain()
			s.made = c
		}
		x.mu.Lock()
		if c.reg {
			x.mu.Unlock()
			return
		}
		c.reg, c.key = true, theKey()
		c.mc = &snapws.ManagedConn[int]{Conn: c.conn, Key: c.key, Manager: x.m}
		x.mu.Unlock()
		x.call("mreg", M{"c": c.id, "key": c.key}, func() M { x.m.Register(c.key, c.mc); return ok([]int{}) })
	case "mget":
		key := theKey()
		x.call("mget", M{"key": key}, func() M {
			mc := x.m.Get(key)
			if mc == nil {
				return ok([]int{0})
			}
			if mc.Key != key {
				return ok([]int{-mc.Key})
			}
			return ok([]int{x.idOf(mc.Conn)})
		})
	case "mgetall":
		ex := x.exclKeys()
		x.call("mgetall", M{"excl": ex}, func() M {
			l := []int{}
			if x.r.Intn(2) == 0 {
				for _, c := range x.m.GetAllConns(ex...) {
					l = append(l, x.idOf(c.Conn))
				}
			} else {
				for _, c := range x.m.GetAllConnsAsConn(ex...) {
					l = append(l, x.idOf(c))
				}
			}
			return ok(l)
		})
	case "mshut":
		x.call("mshut", nil, func() M { x.m.Shutdown(); return ok([]int{}) })
	case "rmshut":
		x.mu.Lock()
		if x.shut || len(x.kclose) > 0 {
			x.mu.Unlock()
			return
		}
		for _, n := range x.kbusy {
			if n > 0 {
				x.mu.Unlock()
				return
			}
		}
		x.shut = true
		x.mu.Unlock()
		x.call("rmshut", nil, func() M { x.rm.Shutdown(); return ok([]int{}) })
	case "close":
		c := theConn()
		if c == nil {
			return
		}
		x.close(c)
	case "kill":
		c := theConn()
		if c == nil {
			return
		}
		w.Step("kill")
		code := pick(x.r, 0, 1001, 3000)
		w.Log(M{"e": "kill", "c": c.id, "code": code})
		if code == 0 {
			c.fc.FeedErr(io.EOF)
		} else {
			h, b := clientFrame(8, true, false, true, 2, binary.BigEndian.AppendUint16(nil, uint16(code)), [4]byte{1, 2, 3, 4})
			c.fc.Feed(append(h, b...))
		}
	case "release":
		w.Step("release")
		x.release()
	case "cancel":
		w.Step("cancel")
		x.cancel()
	case "rconnect":
		key := theKey()
		if !x.gate(key, nil) {
			return
		}
		rw := x.rw()
		n, a := x.args()
		x.call("rconnect", M{"c": rw.C.ID, "key": key, "args": n}, func() M {
			c, r, err := x.rm.Connect(rw, sim.GoodReq(), key, a...)
			if err != nil {
				return M{"r": "err", "res": []int{}}
			}
			s.made = x.known(c, nil, 0)
			return ok([]int{x.roomOf(r).id})
		})
		x.ungate(key, nil)
	case "rmadd":
		key := theKey()
		if x.shut {
			return
		}
		x.call("rmadd", M{"key": key}, func() M { return ok([]int{x.roomOf(x.rm.Add(key)).id}) })
	case "rmget":
		key := theKey()
		x.call("rmget", M{"key": key}, func() M { return ok([]int{x.roomOf(x.rm.Get(key)).id}) })
	case "rmkeys":
		x.call("rmkeys", nil, func() M { return ok(append([]int{}, x.rm.GetRoomKeys()...)) })
	case "radd":
		h, c := theRoom(), theConn()
		if h == nil || c == nil || !x.gate(h.key, h) {
			return
		}
		n, a := x.args()
		x.call("radd", M{"c": c.id, "room": h.id, "args": n}, func() M { h.r.Add(c.conn, a...); return ok([]int{}) })
		x.ungate(h.key, h)
	case "rrem":
		h, c := theRoom(), theConn()
		if h == nil || c == nil {
			return
		}
		n, a := x.args()
		x.call("rrem", M{"c": c.id, "room": h.id, "args": n}, func() M { h.r.Remove(c.conn, a...); return ok([]int{}) })
	case "rremall":
		h := theRoom()
		if h == nil {
			return
		}
		x.call("rremall", M{"room": h.id}, func() M { h.r.RemoveAll(); return ok([]int{}) })
	case "rmove":
		h, c := theRoom(), theConn()
		key := theKey()
		if h == nil || c == nil {
			return
		}
		x.mu.Lock()
		if c.moving {
			x.mu.Unlock()
			return
		}
		c.moving = true
		x.mu.Unlock()
		if x.gate(key, nil) {
			x.call("rmove", M{"c": c.id, "room": h.id, "key": key}, func() M { h.r.Move(c.conn, key); return ok([]int{}) })
			x.ungate(key, nil)
		}
		c.moving = false
	case "rgetall":
		h := theRoom()
		if h == nil {
			return
		}
		ex := x.exclConns()
		ids := []int{}
		for _, c := range ex {
			ids = append(ids, x.idOf(c))
		}
		x.call("rgetall", M{"room": h.id, "excl": ids}, func() M {
			l := []int{}
			for _, c := range h.r.GetAllConns(ex...) {
				l = append(l, x.idOf(c))
			}
			return ok(l)
		})
	case "rclose":
		h := theRoom()
		if h == nil {
			return
		}
		x.mu.Lock()
		if x.kbusy[h.key] > 0 || h.adds > 0 || h.closed || x.shut {
			x.mu.Unlock()
			return
		}
		h.closed = true
		x.kclose[h.key]++
		x.mu.Unlock()
		x.call("rclose", M{"room": h.id}, func() M { h.r.Close(); return ok([]int{}) })
		x.mu.Lock()
		x.kclose[h.key]--
		if x.kclose[h.key] == 0 {
			delete(x.kclose, h.key)
		}
		x.mu.Unlock()
	case "bcast":
		x.bcast(x.r.Intn(2) == 0)
	case "hold":
		c := theConn()
		if c == nil {
			return
		}
		x.mu.Lock()
		if c.held || x.end {
			x.mu.Unlock()
			return
		}
		c.held = true
		x.nhold++
		x.mu.Unlock()
		defer func() {
			x.mu.Lock()
			c.held = false
			x.nhold--
			x.mu.Unlock()
		}()
		w.Log(M{"e": "hold", "c": c.id})
		wr, err := c.conn.NextWriter(context.Background(), 1)
		if err != nil {
			w.Log(M{"e": "unhold", "c": c.id})
			return
		}
		wr.Write([]byte("stream"))
		if x.r.Intn(2) == 0 {
			w.Step("holding")
		} else {
			<-x.holdCh
		}
		wr.Close()
		w.Log(M{"e": "unhold", "c": c.id})
	}
}

func (x *hub) close(c *hconn) {
	code := pick(x.r, 1000, 3000+x.r.Intn(900))
	x.call("close", M{"c": c.id, "code": code}, func() M {
		if code == 1000 {
			c.conn.Close()
		} else {
			c.conn.CloseWithCode(uint16(code), "bye")
		}
		return ok([]int{})
	})
}

func (x *hub) exclKeys() []int {
	l := []int{}
	for i := pick(x.r, 0, 0, 0, 1, 1, 2, 3, 6); i > 0; i-- {
		l = append(l, x.key())
	}
	return l
}

func (x *hub) exclConns() []*snapws.Conn {
	l := []*snapws.Conn{}
	for i := pick(x.r, 0, 0, 0, 1, 1, 2, 3, 6); i > 0; i-- {
		if c := x.conn(); c != nil {
			l = append(l, c.conn)
		}
	}
	return l
}

func (x *hub) bcast(room bool) {
	x.mu.Lock()
	if x.nbc >= 3 {
		x.mu.Unlock()
		return
	}
	x.nbc++
	defer func() { x.mu.Lock(); x.nbc--; x.mu.Unlock() }()
	n := len(x.msgs) + 1
	m := &hmsg{id: n, op: pick(x.r, 1, 2), data: []byte(fmt.Sprintf("b%d:", n))}
	m.data = append(m.data, content(x.r, pick(x.r, 0, 1, 5, 118, 119, 120, 121, 122, 123, 124, 300, 66000, 65533-len(m.data), 65535-len(m.data), 65536-len(m.data)))...)
	x.msgs = append(x.msgs, m)
	x.mu.Unlock()
	cx := x.newCtx()
	e := M{"m": m.id, "ctx": cx.id}
	form := x.r.Intn(6)
	data := append([]byte(nil), m.data...)
	if form == 0 {
		m.op = 1
		m.data = append(append([]byte{'"'}, m.data...), '"')
	}
	do := func(str, bin func() (int, error), js func(v any) (int, error)) M {
		var k int
		var err error
		switch {
		case form == 1 && m.id%3 == 0:
			k, err = js(make(chan int))
			if err != nil && k == 0 {
				return M{"r": "badjson", "res": []int{k}}
			}
			return M{"r": "other", "res": []int{k}}
		case form == 0:
			k, err = js(string(data))
		case m.op == 1:
			k, err = str()
		default:
			k, err = bin()
		}
		return M{"r": errKind(err), "res": []int{k}}
	}
	if room {
		h := x.room()
		if h == nil {
			return
		}
		ex := x.exclConns()
		ids := []int{}
		for _, c := range ex {
			ids = append(ids, x.idOf(c))
		}
		e["room"], e["excl"] = h.id, ids
		x.call("bcast", e, func() M {
			return do(func() (int, error) { return h.r.BroadcastString(cx.ctx, data, ex...) },
				func() (int, error) { return h.r.BroadcastBytes(cx.ctx, data, ex...) },
				func(v any) (int, error) { return h.r.BroadcastJSON(cx.ctx, v, ex...) })
		})
		return
	}
	ex := x.exclKeys()
	e["excl"] = ex
	x.call("bcast", e, func() M {
		return do(func() (int, error) { return x.m.BroadcastString(cx.ctx, data, ex...) },
			func() (int, error) { return x.m.BroadcastBytes(cx.ctx, data, ex...) },
			func(v any) (int, error) { return x.m.BroadcastJSON(cx.ctx, v, ex...) })
	})
}

func (x *hub) release() {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, c := range x.conns {
		c.fc.ReleaseStalls()
	}
}

func (x *hub) letGo() {
	x.mu.Lock()
	close(x.holdCh)
	x.holdCh = make(chan struct{})
	x.mu.Unlock()
}

// hook runs what this scenario's hook of the given name does, if anything is left of the budget.
func (x *hub) hook(name string, c *snapws.Conn, r *snapws.Room[int]) {
	do := x.hookDo[name]
	x.mu.Lock()
	if do == "" || x.budget == 0 || x.end && strings.HasPrefix(do, "r") {
		x.mu.Unlock()
		return
	}
	x.budget--
	x.mu.Unlock()
	switch do {
	case "self":
		x.close(x.known(c, nil, 0))
	case "leave":
		if r != nil {
			h := x.roomOf(r)
			x.call("rrem", M{"c": x.idOf(c), "room": h.id, "args": []int{}}, func() M { r.Remove(c); return ok([]int{}) })
		}
	case "bcast":
		if x.opt.BroadcastBackpressure != snapws.BackpressureWait {
			x.bcast(x.r.Intn(2) == 0)
		}
	default:
		x.do(do)
	}
}

var hubKinds = map[string][]string{
	"C11":   {"mconnect", "mconnect", "mreg", "mreg", "mget", "mgetall", "close", "close", "kill", "bcast", "mget", "mgetall"},
	"C12":   {"rconnect", "radd", "radd", "radd", "rrem", "rrem", "rremall", "rmove", "rmove", "rgetall", "rclose", "rmadd", "rmget", "rmkeys", "close", "close", "kill", "mreg"},
	"C13":   {"bcast", "bcast", "bcast", "bcast", "radd", "rrem", "mconnect", "close", "cancel", "hold", "rmove"},
	"C14":   {"bcast", "bcast", "bcast", "bcast", "bcast", "hold", "hold", "cancel", "release", "close"},
	"C20":   {"mshut", "rmshut", "close", "kill", "mconnect", "radd", "rrem", "bcast", "mget", "rgetall", "release", "hold"},
	"mixed": {"mconnect", "mreg", "mget", "mgetall", "close", "kill", "rconnect", "radd", "rrem", "rremall", "rmove", "rgetall", "rclose", "rmadd", "rmget", "rmkeys", "bcast", "bcast", "hold", "cancel", "release", "mshut", "rmshut"},
}

var hookActs = []string{"mget", "mgetall", "rmget", "rgetall", "rmkeys", "radd", "rrem", "rmadd", "self", "leave", "bcast", "close", "rmove"}

func hubScenario(i int, seed int64, mode string) ([]M, bool) {
	mode, seed, isPair, fresh := pairMode(i, seed, mode)
	if !fresh {
		return nil, true
	}
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	kind := os.Getenv("VH_KIND")
	x := &hub{r: r, w: w, mode: mode, kbusy: map[int]int{}, kclose: map[int]int{}, will: map[int]bool{}, hookDo: map[string]string{}, slow: map[int]bool{}, holdCh: make(chan struct{}), keys: 3}
	x.maxc = 4 + r.Intn(5)
	if kind == "bcast" {
		x.maxc = 3 + r.Intn(3)
	}
	var pr *pair
	if isPair {
		pr = newPair(i, r, hubPairOps[mode], []string{"one", "two", "more"})
	}
	o := &x.opt
	o.WriteBufferSize = 256
	o.WriteWait = 5 * time.Second
	o.ReadWait = 1000 * time.Hour
	o.PingEvery = 2000 * time.Hour
	o.BroadcastChannelsSize = pick(r, 1, 1, 2, 3, 8)
	o.BroadcastBackpressure = snapws.BackpressureStrategy(r.Intn(3))
	switch mode {
	case "C14":
		x.fates = pick(r, []string{""}, []string{"", "stall"}, []string{"", "stall", "mixed"}, []string{"", "", "err"})
	case "C13":
		x.fates = pick(r, []string{""}, []string{""}, []string{"", "mixed"})
	default:
		x.fates = pick(r, []string{""}, []string{"", "", "stall"}, []string{"", "mixed"}, []string{"", "", "err"})
	}
	if pr != nil {
		x.fates = pick(r, []string{""}, []string{""}, []string{"stall"}, []string{"err"})
		x.keys = 1
		if pr.setup == "more" {
			x.keys = 2
		}
		for _, k := range []string{pr.a, pr.b} { // somewhere to move to
			if k == "rmove" {
				x.keys = 2
			}
		}
	}
	if r.Intn(3) == 0 {
		x.budget = 1 + r.Intn(5)
		for _, h := range []string{"register", "unregister", "join", "leave", "disc"} {
			if r.Intn(2) == 0 {
				x.hookDo[h] = hookActs[r.Intn(len(hookActs))]
			}
		}
	}
	opt := *o
	opt.OnConnect = func(c *snapws.Conn) { x.known(c, nil, 0) }
	opt.OnDisconnect = func(c *snapws.Conn) {
		w.Log(M{"e": "disc", "c": x.idOf(c)})
		x.hook("disc", c, nil)
	}
	byDefault(r, &opt)
	x.u = snapws.NewUpgrader(&opt)
	x.m = snapws.NewManager[int](x.u)
	x.rm = snapws.NewRoomManager[int](x.u)
	hooks := r.Intn(6) > 0
	if hooks {
		x.m.OnRegister = func(c *snapws.ManagedConn[int]) {
			w.Log(M{"e": "onreg", "c": x.idOf(c.Conn), "key": c.Key})
			x.hook("register", c.Conn, nil)
		}
		x.m.OnUnregister = func(c *snapws.ManagedConn[int]) {
			w.Log(M{"e": "onunreg", "c": x.idOf(c.Conn), "key": c.Key})
			x.hook("unregister", c.Conn, nil)
		}
		x.rm.DefaultOnJoin = func(rm *snapws.Room[int], c *snapws.Conn, args ...any) {
			w.Log(M{"e": "join", "c": x.idOf(c), "room": x.roomOf(rm).id, "args": intArgs(args)})
			x.hook("join", c, rm)
		}
		x.rm.DefaultOnLeave = func(rm *snapws.Room[int], c *snapws.Conn, args ...any) {
			w.Log(M{"e": "leave", "c": x.idOf(c), "room": x.roomOf(rm).id, "args": intArgs(args)})
			x.hook("leave", c, rm)
		}
	}
	// the beginning, one thing at a time
	prep := map[string][]string{
		"C11": {"mconnect", "mreg"}, "C12": {"rmadd", "rconnect", "rconnect", "radd"},
		"C13": {"rconnect", "mconnect", "radd", "mreg"}, "C14": {"rconnect", "mconnect", "radd", "mreg"}}[mode]
	if prep == nil {
		prep = []string{"mconnect", "rconnect", "radd", "mreg", "rmadd"}
	}
	np := r.Intn(6)
	if mode == "C20" {
		np = r.Intn(9)
	}
	if mode == "C13" || mode == "C14" {
		np = 2 + r.Intn(4)
	}
	var sc *hscript
	if mode == "script" {
		sc = x.script(i, kind)
		np = 0
	}
	if pr != nil {
		np = map[string]int{"one": 1, "two": 2, "more": 3 + r.Intn(3)}[pr.setup]
	}
	go func() {
		if pr != nil { // so that there are rooms and connections
			x.do("rconnect")
			if mode == "C11" || mode == "C20" || mode == "C13" {
				x.do("mconnect")
			}
		}
		for k := 0; k < np; k++ {
			x.do(prep[r.Intn(len(prep))])
		}
	}()
	w.Run()
	okk := w.Quiesce("prep")
	if r.Intn(3) > 0 {
		for _, c := range append([]*hconn{}, x.conns...) {
			if r.Intn(2) == 0 {
				x.agent(func() { x.readLoop(c) })
			}
		}
	}
	kinds := hubKinds[mode]
	if kinds == nil {
		kinds = hubKinds["mixed"]
	}
	for sc != nil && sc.i < sc.seq && okk {
		go x.scriptStep(sc, sc.next())
		w.Run()
		okk = w.Quiesce("script")
	}
	if sc == nil && pr == nil && r.Intn(3) == 0 { // one thing at a time: what happens to it is then determined
		for k := 4 + r.Intn(20); k > 0 && okk; k-- {
			switch r.Intn(12) {
			case 0:
				x.release()
			case 1:
				x.letGo()
			case 2:
				x.cancel()
			default:
				kd := kinds[r.Intn(len(kinds))]
				go x.do(kd)
			}
			w.Run()
			okk = w.Quiesce("one")
		}
	}
	na := 2 + r.Intn(5)
	if sc != nil {
		for na = 0; sc.i < len(sc.ops); {
			op := sc.next()
			x.agent(func() { x.scriptStep(sc, op) })
		}
	}
	if pr != nil {
		na = 0
		pr.start(w, &pr.pol.A, func() { x.do(pr.a) })
		pr.start(w, &pr.pol.B, func() { x.do(pr.b) })
		if pr.third {
			x.agent(func() { x.do(kinds[r.Intn(len(kinds))]) })
		}
	}
	for k := na; k > 0; k-- {
		kd := kinds[r.Intn(len(kinds))]
		reps := 1 + r.Intn(2)
		if kd == "bcast" {
			reps = 1 + r.Intn(4)
		}
		x.agent(func() {
			for ; reps > 0; reps-- {
				x.do(kd)
				if r.Intn(3) == 0 {
					x.do(kinds[r.Intn(len(kinds))])
				}
			}
		})
	}
	pol, _ := sim.PickPolicy(r, 200)
	if pr != nil {
		pol = pr.pol
	}
	w.Control(pol)
	if okk {
		okk = w.Quiesce("run")
	}
	acts := []string{"adv", "cancel", "release", "letgo", "more", "adv"}
	r.Shuffle(len(acts), func(a, b int) { acts[a], acts[b] = acts[b], acts[a] })
	nacts := 1 + r.Intn(5)
	if sc != nil {
		nacts = 0
	}
	for _, a := range acts[:nacts] {
		if !okk {
			break
		}
		switch a {
		case "adv":
			w.Advance(5500 * time.Millisecond)
		case "cancel":
			x.cancel()
		case "release":
			x.release()
		case "letgo":
			x.letGo()
		case "more":
			for k := 0; k < 2; k++ {
				kd := kinds[r.Intn(len(kinds))]
				x.agent(func() { x.do(kd) })
			}
		}
		okk = w.Quiesce(a)
	}
	// the end: everything slow becomes fast, then (maybe) shutdowns, then reads
	settle := func(what string) {
		for k := 0; k < 6 && okk; k++ {
			x.mu.Lock()
			x.end = true
			x.mu.Unlock()
			x.letGo()
			x.release()
			okk = w.Quiesce(what)
			busy := false
			for _, c := range w.Conns {
				busy = busy || c.Busy() > 0
			}
			if !busy && len(w.Pending()) == 0 && x.nhold == 0 {
				break
			}
			if k > 2 && okk {
				w.Advance(5500 * time.Millisecond)
				okk = w.Quiesce(what)
			}
		}
	}
	settle("settle")
	var slow []*hconn
	if okk && mode == "C20" && r.Intn(2) == 0 { // connections that are closing slowly meanwhile
		x.mu.Lock()
		for _, c := range x.conns {
			if !c.fc.IsClosed() && r.Intn(3) > 0 {
				x.slow[c.id] = true
				slow = append(slow, c)
			}
		}
		x.mu.Unlock()
		for _, c := range slow {
			x.agent(func() { x.close(c) })
		}
		if r.Intn(4) > 0 {
			okk = w.Quiesce("slow")
		}
	}
	if okk && slow == nil {
		x.agent(func() { x.do("mgetall"); x.do("rmkeys"); x.do("rgetall"); x.do("mget"); x.do("rmget") })
		okk = w.Quiesce("look")
	}
	if okk && (mode == "C20" || mode == "mixed" || r.Intn(4) == 0) {
		x.mu.Lock()
		x.budget += r.Intn(3)
		x.mu.Unlock()
		fin := []string{"mshut", "rmshut", "close"}
		r.Shuffle(len(fin), func(a, b int) { fin[a], fin[b] = fin[b], fin[a] })
		for _, k := range fin[:1+r.Intn(3)] {
			x.agent(func() { x.do(k) })
		}
		if slow != nil {
			okk = w.Quiesce("shutting")
			x.mu.Lock()
			for _, c := range slow {
				delete(x.slow, c.id)
			}
			x.mu.Unlock()
		}
		settle("shut")
		if okk {
			x.agent(func() { x.do("mgetall"); x.do("rmkeys"); x.do("rgetall"); x.do("mget"); x.do("rmget") })
			okk = w.Quiesce("look")
		}
	}
	pend := len(w.Pending())
	tr := x.project(kind, hooks)
	w.Free()
	for _, cx := range x.ctxs {
		cx.cancel()
	}
	x.letGo()
	for _, c := range x.conns {
		go c.conn.Close()
	}
	x.release()
	w.Run()
	if pr != nil && okk && !pr.pol.Done() {
		pr.dead()
		return nil, pend == 0
	}
	return []M{tr}, okk && pend == 0
}

var hubProj = map[string]map[string]bool{
	"registry": {"mreg": true, "mget": true, "mgetall": true, "mshut": true, "close": true, "bcast": true, "rmshut": true},
	"rooms": {"mreg": true, "mshut": true, "close": true, "bcast": true, "rmshut": true, "rconnect": true, "rmadd": true, "rmget": true, "rmkeys": true,
		"radd": true, "rrem": true, "rremall": true, "rmove": true, "rgetall": true, "rclose": true},
	"bcast": {"mreg": true, "mshut": true, "close": true, "bcast": true, "rmshut": true, "rconnect": true, "radd": true, "rrem": true, "rremall": true,
		"rmove": true, "rclose": true},
}

func (x *hub) project(kind string, hooks bool) M {
	inc := hubProj[kind]
	rets := map[int]M{}
	keys := map[int]int{}
	rkeys := map[int]int{}
	for _, e := range x.w.Ev {
		if e["e"] == "ret" {
			rets[e["id"].(int)] = e
		}
		if e["e"] == "call" && e["k"] == "mreg" {
			keys[e["c"].(int)] = e["key"].(int)
		}
	}
	for _, h := range x.rooms {
		rkeys[h.id] = h.key
	}
	skip := map[int]bool{}
	evs := []M{}
	infl := 0
	fi := map[int]int{}
	bases := map[int]int{}
	wires := map[int][]OFrame{}
	for _, c := range x.conns {
		bases[c.id] = c.base
		wires[c.id] = parseWire(c.fc.Wire[c.base:])
	}
	for _, e := range x.w.Ev {
		switch e["e"] {
		case "call":
			id := e["id"].(int)
			if !inc[e["k"].(string)] {
				skip[id] = true
				continue
			}
			res, done := []int{}, false
			if q := rets[id]; q != nil {
				if v, is := q["res"].([]int); is {
					res = v
				}
				done = true
			}
			n := M{"e": "call", "id": id, "k": e["k"], "c": e["c"], "key": e["key"], "room": e["room"], "args": e["args"], "excl": e["excl"],
				"m": e["m"], "ctx": e["ctx"], "code": e["code"], "res": res, "done": done}
			if kind == "bcast" {
				n["grp"] = e["room"]
				if e["k"] == "rconnect" && len(res) == 1 {
					n["room"] = res[0]
				}
			}
			evs = append(evs, n)
		case "ret":
			id := e["id"].(int)
			if skip[id] {
				continue
			}
			rr := e["r"].(string)
			n := 0
			if v, is := e["res"].([]int); is && len(v) == 1 {
				n = v[0]
			}
			evs = append(evs, M{"e": "ret", "id": id, "r": strings.SplitN(rr, ":", 2)[0], "n": n})
		case "onreg", "onunreg":
			if kind == "registry" {
				evs = append(evs, M{"e": e["e"], "c": e["c"], "key": e["key"]})
			}
		case "join", "leave":
			if kind == "rooms" {
				evs = append(evs, M{"e": e["e"], "c": e["c"], "room": e["room"], "args": e["args"]})
			}
		case "disc":
			evs = append(evs, M{"e": "disc", "c": e["c"]})
		case "cancel":
			evs = append(evs, M{"e": "cancel", "ctx": e["ctx"]})
		case "kill":
			evs = append(evs, M{"e": "kill", "c": e["c"], "code": e["code"]})
		case "hold", "unhold":
			if kind == "bcast" {
				evs = append(evs, M{"e": e["e"], "c": e["c"]})
			}
		case "rawclose":
			evs = append(evs, M{"e": "raw", "c": e["c"]})
		case "ws":
			if e["from"].(int) < bases[e["c"].(int)] {
				continue
			}
			infl++
			if kind == "bcast" {
				evs = append(evs, M{"e": "ws", "c": e["c"]})
			}
		case "we":
			c := e["c"].(int)
			if e["from"].(int) < bases[c] {
				continue
			}
			infl--
			fs := []M{}
			fr := wires[c]
			for fi[c] < len(fr) && fr[fi[c]].To+bases[c] <= e["to"].(int) && fr[fi[c]].Bad != "cut" {
				f := fr[fi[c]]
				fi[c]++
				switch {
				case f.Op == 8:
					code := 1005
					if len(f.Payload) >= 2 {
						code = int(binary.BigEndian.Uint16(f.Payload))
					}
					fs = append(fs, M{"k": "close", "v": code})
				case f.Op < 8 && kind == "bcast":
					m := 0
					for _, y := range x.msgs {
						if y.op == f.Op && f.Fin && bytes.Equal(y.data, f.Payload) {
							m = y.id
						}
					}
					if m == 0 && string(f.Payload) == "stream" {
						continue
					}
					fs = append(fs, M{"k": "msg", "v": m})
				}
			}
			if kind == "bcast" || len(fs) > 0 || e["r"] != "ok" {
				evs = append(evs, M{"e": "we", "c": c, "ok": e["r"] == "ok", "fr": fs})
			}
		case "q":
			p := []int{}
			for _, id := range e["pend"].([]int) {
				if !skip[id] {
					p = append(p, id)
				}
			}
			evs = append(evs, M{"e": "q", "pend": p, "infl": infl, "mutex": e["mutex"]})
		case "livelock":
			evs = append(evs, M{"e": "livelock"})
		}
	}
	nr := len(x.rooms)
	rk := []int{}
	for i := 1; i <= nr; i++ {
		rk = append(rk, rkeys[i])
	}
	ck := []int{}
	for i := 1; i <= len(x.w.Conns); i++ {
		ck = append(ck, keys[i])
	}
	mc := []int{} // contexts of the messages
	for range x.msgs {
		mc = append(mc, 0)
	}
	for _, e := range x.w.Ev {
		if e["e"] == "call" && e["k"] == "bcast" {
			mc[e["m"].(int)-1] = e["ctx"].(int)
		}
	}
	ends := []int{}
	for _, c := range x.w.Conns {
		if c.IsClosed() {
			ends = append(ends, c.ID)
		}
	}
	ws := [][]int{}
	for _, c := range x.w.Conns {
		l := []int{}
		for _, f := range wires[c.ID] {
			for _, y := range x.msgs {
				if y.op == f.Op && f.Fin && bytes.Equal(y.data, f.Payload) {
					l = append(l, y.id)
				}
			}
		}
		ws = append(ws, l)
	}
	return M{"cfg": M{"nc": len(x.w.Conns), "ckey": ck, "rkey": rk, "hooks": hooks, "q": x.opt.BroadcastChannelsSize,
		"bp": int(x.opt.BroadcastBackpressure), "mctx": mc, "ends": ends, "wires": ws}, "ev": evs}
}

// A script is a sequence of operations the specification generated (RegistryMC, RoomsMC), run one after the other, the
// last ones at once (as the plan says).
type hscript struct {
	ops    []string
	i, seq int
	plan   int
	conns  map[byte]*hconn
}

var hubPlans = 4

func (x *hub) script(i int, kind string) *hscript {
	readEnum()
	sc := &hscript{ops: strings.Fields(enumSeqs[i/hubPlans]), plan: i % hubPlans, conns: map[byte]*hconn{}}
	x.fates, x.budget, x.maxc = []string{""}, 0, 100
	sc.seq = len(sc.ops)
	switch sc.plan {
	case 1: // hooks that do something
		x.budget = 1 + x.r.Intn(4)
		for _, h := range []string{"register", "unregister", "join", "leave", "disc"} {
			if x.r.Intn(2) == 0 {
				x.hookDo[h] = hookActs[x.r.Intn(len(hookActs))]
			}
		}
	case 2: // the last ones at once
		sc.seq = max(1, len(sc.ops)-2)
	case 3:
		sc.seq = max(1, len(sc.ops)-3)
		x.fates = []string{"", "stall", "err"}
	}
	return sc
}

func (s *hscript) next() string { s.i++; return s.ops[s.i-1] }

func (x *hub) scriptStep(sc *hscript, op string) {
	at := func(i int) byte {
		if i < len(op) {
			return op[i]
		}
		return '0'
	}
	room := func(k byte) *hroom {
		x.mu.Lock()
		defer x.mu.Unlock()
		for i := len(x.rooms) - 1; i >= 0; i-- {
			if x.rooms[i].key == int(k-'0') && !x.rooms[i].closed {
				return x.rooms[i]
			}
		}
		return nil
	}
	x.mu.Lock()
	c := sc.conns[at(1)]
	x.mu.Unlock()
	made := func(s *sel) {
		if s.made != nil {
			x.mu.Lock()
			sc.conns[at(1)] = s.made
			x.mu.Unlock()
		}
	}
	switch op[0] {
	case 'r':
		s := &sel{key: int(at(2) - '0'), anyCount: true}
		x.doOn(pick(x.r, "mconnect", "mreg"), s)
		made(s)
		if s.made != nil && x.r.Intn(2) == 0 {
			x.readSoon(s.made)
		}
	case 'n':
		s := &sel{key: int(at(2) - '0'), anyCount: true}
		x.doOn("rconnect", s)
		made(s)
		if s.made != nil && x.r.Intn(2) == 0 {
			x.readSoon(s.made)
		}
	case 's':
		x.do("mshut")
	case 'S':
		x.do("rmshut")
	case 'm':
		x.doOn("rmadd", &sel{key: int(at(1) - '0')})
	case 'x', 'k':
		if c != nil {
			if op[0] == 'k' {
				x.readSoon(c)
			}
			x.doOn(map[byte]string{'x': "close", 'k': "kill"}[op[0]], &sel{c: c})
		}
	case 'a', 'd':
		if h := room(at(2)); h != nil && c != nil {
			x.doOn(map[byte]string{'a': "radd", 'd': "rrem"}[op[0]], &sel{c: c, h: h})
		}
	case 'D', 'C':
		if h := room(at(1)); h != nil {
			x.doOn(map[byte]string{'D': "rremall", 'C': "rclose"}[op[0]], &sel{h: h})
		}
	case 'M':
		if h := room(at(2)); h != nil && c != nil {
			x.doOn("rmove", &sel{c: c, h: h, key: int(at(3) - '0')})
		}
	}
	if sc.plan < 2 {
		x.do(pick(x.r, "mget", "mgetall", "rgetall", "rmkeys", "rmget"))
	}
}

// readSoon lets somebody read the connection, so that its end is noticed.
func (x *hub) readSoon(c *hconn) {
	x.mu.Lock()
	r := c.reads
	c.reads = true
	x.mu.Unlock()
	if !r {
		go x.readLoop(c)
	}
}
