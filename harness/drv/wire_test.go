package drv

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// The send side: any mix of senders, streaming writers, broadcasts, pings, pongs, readers, closers, cancellations and
// network faults on one or more connections (spec: Wire).

const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

func content(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	return b
}

type wmsg struct {
	id    int
	conn  int // 0: broadcast
	op    int
	data  []byte
	tots  []int // allowed total lengths; nil: whatever has been written
	async bool
}

type wctx struct {
	id     int
	ctx    context.Context
	cancel context.CancelFunc
	at     int // ms, when it times out
	done   bool
}

type wconn struct {
	id   int
	conn *snapws.Conn
	fc   *sim.FConn
	base int
	read bool
	ping int // pings fed
}

type wire struct {
	r       *rand.Rand
	w       *sim.World
	u       *snapws.Upgrader
	rm      *snapws.RoomManager[int]
	room    *snapws.Room[int]
	mode    string
	mu      sync.Mutex
	conns   []*wconn
	msgs    []*wmsg
	ctxs    []*wctx
	pings   [][]byte // payloads of the pings fed, by connection order
	opt     snapws.Options
	wg      sync.WaitGroup
	hook    string
	fail    func(n int, b []byte) sim.Outcome
	bsz     int
	big     bool // frames of 64 KiB and more
	cancels bool
	pauses  bool // streams may pause
	pause   chan struct{}
	resumed sync.Once
	notes   []string
}

func (x *wire) msg(conn, op, n int) *wmsg {
	x.mu.Lock()
	defer x.mu.Unlock()
	m := &wmsg{id: len(x.msgs) + 1, conn: conn, op: op, data: content(x.r, n)}
	x.msgs = append(x.msgs, m)
	return m
}

func (x *wire) newCtx() *wctx {
	x.mu.Lock()
	defer x.mu.Unlock()
	c := &wctx{}
	n := 6
	if x.cancels {
		n = 20
	}
	switch x.r.Intn(n) {
	case 0:
		return c // nil context
	case 1, 2:
		c.ctx = context.Background()
		return c
	}
	c.id = len(x.ctxs) + 1
	x.ctxs = append(x.ctxs, c)
	if x.r.Intn(4) == 0 {
		d := time.Duration(1+x.r.Intn(8000)) * time.Millisecond
		c.at = x.w.Now() + int(d/time.Millisecond)
		c.ctx, c.cancel = context.WithTimeout(context.Background(), d)
	} else {
		c.ctx, c.cancel = context.WithCancel(context.Background())
	}
	return c
}

func (x *wire) cancelCtx(c *wctx) {
	x.mu.Lock()
	if c.done || c.cancel == nil {
		x.mu.Unlock()
		return
	}
	c.done = true
	x.mu.Unlock()
	x.w.Log(M{"e": "cancel", "ctx": c.id})
	c.cancel()
}

func errKind(err error) string {
	switch {
	case err == nil:
		return "ok"
	case snapws.IsFatalErr(err):
		return "fatal"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "ctx"
	case errors.Is(err, snapws.ErrWriterClosed):
		return "wclosed"
	case errors.Is(err, snapws.ErrInvalidOPCODE):
		return "opcode"
	case errors.Is(err, snapws.ErrPingAlreadySent):
		return "pingsent"
	case errors.Is(err, snapws.ErrConnClosed):
		return "closed"
	case errors.Is(err, snapws.ErrFlusherClosed):
		return "flusher"
	case errors.Is(err, snapws.ErrBatchingUninitialized):
		return "nobatch"
	case errors.Is(err, snapws.ErrMessageTypeMismatch):
		return "mismatch"
	case errors.As(err, new(*json.UnsupportedTypeError)):
		return "json"
	}
	return "other: " + err.Error()
}

func res(err error) M { return M{"r": errKind(err)} }

func (x *wire) open(id int) *wconn {
	rw := x.w.NewRW()
	rw.WBuf = pick(x.r, 4096, x.opt.WriteBufferSize, 512)
	rw.RBuf = pick(x.r, 4096, 4096, 512, 64)
	c := &wconn{id: rw.C.ID, fc: rw.C}
	rw.C.Plan = func(n int, b []byte) sim.Outcome {
		if n == 1 { // the response
			return sim.Outcome{}
		}
		return x.fail(n, b)
	}
	conn, err := x.u.Upgrade(rw, sim.GoodReq())
	if err != nil {
		panic(err)
	}
	c.conn = conn
	c.base = bytes.Index(c.fc.Wire, []byte("\r\n\r\n")) + 4
	conn.MetaData.Store("id", c.id)
	x.mu.Lock()
	x.conns = append(x.conns, c)
	x.mu.Unlock()
	return c
}

func (x *wire) op(c *wconn, k string, extra M, f func() M) M {
	e := M{"k": k, "c": c.id, "m": 0, "ctx": 0, "n": 0, "code": 0, "rs": "", "rslen": 0}
	for a, b := range extra {
		e[a] = b
	}
	return x.w.Call(e, f)
}

func (x *wire) size() int {
	if x.big && x.r.Intn(3) > 0 { // around the frame header's third length encoding
		return pick(x.r, 65534, 65535, 65535, 65536, 65536, 65537, x.bsz-1, x.bsz, x.bsz+1, x.bsz+65535, x.bsz+65536)
	}
	return min(16*x.bsz, pick(x.r, 0, 1, 2, 5, 10, x.bsz-1, x.bsz, x.bsz+1, 2*x.bsz, 2*x.bsz+3, 3*x.bsz+1, 125, 126, 127))
}

func (x *wire) sendOne(c *wconn, kind string) M {
	op := pick(x.r, 1, 2)
	switch kind {
	case "bytes":
		op = 2
	case "string":
		op = 1
	case "json":
		op = 1
	}
	m := x.msg(c.id, op, x.size())
	m.tots = []int{len(m.data)}
	cx := x.newCtx()
	data := append([]byte(nil), m.data...)
	switch kind {
	case "bytes":
		return x.op(c, "send", M{"m": m.id, "ctx": cx.id}, func() M { return res(c.conn.SendBytes(cx.ctx, data)) })
	case "string":
		return x.op(c, "send", M{"m": m.id, "ctx": cx.id}, func() M { return res(c.conn.SendString(cx.ctx, data)) })
	case "json":
		m.data = append(append([]byte{'"'}, m.data...), '"', '\n')
		m.tots = []int{len(m.data) - 1, len(m.data)}
		return x.op(c, "send", M{"m": m.id, "ctx": cx.id}, func() M { return res(c.conn.SendJSON(cx.ctx, string(data))) })
	case "badjson":
		return x.op(c, "badjson", M{"m": 0, "ctx": cx.id}, func() M { return res(c.conn.SendJSON(cx.ctx, make(chan int))) })
	case "badop":
		op := pick(x.r, 0, 3, 8, 9, 10, 0xff)
		return x.op(c, "badop", M{"m": 0, "ctx": cx.id}, func() M { return res(c.conn.SendMessage(cx.ctx, byte(op), data)) })
	case "badnext":
		return x.op(c, "badop", M{"m": 0, "ctx": cx.id}, func() M { _, err := c.conn.NextWriter(cx.ctx, 9); return res(err) })
	default:
		return x.op(c, "send", M{"m": m.id, "ctx": cx.id}, func() M { return res(c.conn.SendMessage(cx.ctx, byte(op), data)) })
	}
}

func (x *wire) stream(c *wconn) {
	total := 400
	if x.big {
		total = 300000
	}
	m := x.msg(c.id, pick(x.r, 1, 2), total)
	cx := x.newCtx()
	var wr *snapws.ConnWriter
	if q := x.op(c, "next", M{"m": m.id, "ctx": cx.id}, func() M {
		v, err := c.conn.NextWriter(cx.ctx, byte(m.op))
		wr = v
		return res(err)
	}); q["r"] != "ok" {
		return
	}
	off := 0
	for i := x.r.Intn(5); i > 0; i-- {
		if x.pauses && x.r.Intn(5) == 0 { // the application takes its time
			<-x.pause
			x.w.Step("resume")
		}
		if x.r.Intn(3) == 0 {
			x.op(c, "flush", M{"m": m.id, "ctx": cx.id}, func() M { return res(wr.Flush()) })
			continue
		}
		n := pick(x.r, 0, 1, 3, 7, x.bsz-1, x.bsz, x.bsz+1, 2*x.bsz, 30, 60)
		if x.big && x.r.Intn(2) == 0 {
			n = pick(x.r, 65535, 65536, 65536-7, 65536-30)
		}
		n = min(n, len(m.data)-off, 6*x.bsz)
		p := append([]byte(nil), m.data[off:off+n]...)
		off += n
		x.op(c, "write", M{"m": m.id, "n": n, "ctx": cx.id}, func() M {
			k, err := wr.Write(p)
			e := res(err)
			if err == nil && k != n {
				e["r"] = "short"
			}
			return e
		})
	}
	if x.r.Intn(25) == 0 {
		return // never closed
	}
	x.op(c, "wclose", M{"m": m.id, "ctx": cx.id}, func() M { return res(wr.Close()) })
	switch x.r.Intn(6) {
	case 0:
		x.op(c, "wstale", M{"m": m.id}, func() M { wr.Close(); return M{"r": "ok"} })
	case 1:
		x.op(c, "wstale", M{"m": m.id}, func() M { wr.Write([]byte("stale stale stale stale stale stale")); wr.Flush(); return M{"r": "ok"} })
	}
}

func (x *wire) bcast(c *wconn) {
	m := x.msg(0, pick(x.r, 1, 2), x.size())
	m.async = true
	m.tots = []int{len(m.data)}
	cx := x.newCtx()
	data := append([]byte(nil), m.data...)
	x.w.Call(M{"k": "bcast", "c": 0, "m": m.id, "ctx": cx.id, "n": 0, "code": 0, "rs": "", "rslen": 0}, func() M {
		var err error
		if m.op == 1 {
			_, err = x.room.BroadcastString(cx.ctx, data)
		} else {
			_, err = x.room.BroadcastBytes(cx.ctx, data)
		}
		return res(err)
	})
}

func (x *wire) closeOp(c *wconn) {
	code, reason := 1000, ""
	switch x.r.Intn(4) {
	case 0:
		x.op(c, "close", M{"code": 1000, "rs": "Normal close", "rslen": 12}, func() M { c.conn.Close(); return M{"r": "ok"} })
		return
	case 1:
		code, reason = pick(x.r, 1005, 0, 2999, 5000), "odd"
	case 2:
		code, reason = pick(x.r, 1001, 1011, 3000, 4999), pick(x.r, "", "x", "bye bye", strings.Repeat("r", 123), strings.Repeat("r", 124), strings.Repeat("r", 300))
	case 3:
		code, reason = 4000+x.r.Intn(900), fmt.Sprint("closer ", x.r.Intn(1000))
	}
	x.op(c, "close", M{"code": code, "rs": reason, "rslen": len(reason)}, func() M { c.conn.CloseWithCode(uint16(code), reason); return M{"r": "ok"} })
}

func (x *wire) readLoop(c *wconn) {
	for i := 0; i < 30; i++ {
		q := x.op(c, "read", nil, func() M { _, _, err := c.conn.ReadMessage(); return res(err) })
		if q["r"] != "ok" {
			return
		}
	}
}

// feed lets the peer send something.
func (x *wire) feed(c *wconn, k string) {
	var key [4]byte
	x.r.Read(key[:])
	put := func(op int, fin bool, p []byte) {
		h, b := clientFrame(op, fin, false, true, len(p), p, key)
		c.fc.Feed(append(h, b...))
	}
	e := M{"e": "feed", "c": c.id, "k": k, "code": 0, "rs": "", "i": 0}
	switch k {
	case "ping":
		p := content(x.r, pick(x.r, 1, 4, 20, 125))
		x.mu.Lock()
		c.ping++
		e["i"] = c.ping
		p = append([]byte(fmt.Sprintf("%d.", c.ping)), p...)[:min(125, len(p)+2)]
		x.mu.Unlock()
		x.w.Log(e)
		x.mu.Lock()
		x.pings = append(x.pings, append([]byte(fmt.Sprintf("%d:%d:", c.id, c.ping)), p...))
		x.mu.Unlock()
		put(9, true, p)
	case "data":
		x.w.Log(e)
		put(pick(x.r, 1, 2), true, []byte("hello"))
	case "close":
		code := pick(x.r, 1000, 1001, 3001)
		reason := fmt.Sprint("peer ", x.r.Intn(1000))
		e["k"], e["code"], e["rs"] = "kill", code, reason
		x.w.Log(e)
		put(8, true, append(binary.BigEndian.AppendUint16(nil, uint16(code)), reason...))
	case "bad":
		e["k"] = "kill"
		x.w.Log(e)
		put(3, true, []byte("x"))
	case "eof":
		e["k"] = "kill"
		x.w.Log(e)
		c.fc.FeedErr(pick(x.r, io.EOF, errors.New("reset")))
	case "pongs": // answer the pings on the wire that haven't been answered
		n := 0
		for _, f := range parseWire(c.fc.Wire[c.base:]) {
			if f.Op == 9 && f.Bad == "" {
				n++
				if n > c.answered() {
					c.fc.W.Log(M{"e": "feed", "c": c.id, "k": "pong", "code": 0, "rs": "", "i": n})
					c.setAnswered(n)
					put(10, true, f.Payload)
				}
			}
		}
	}
}

var answered sync.Map

func (c *wconn) answered() int {
	v, _ := answered.Load(c)
	n, _ := v.(int)
	return n
}
func (c *wconn) setAnswered(n int) { answered.Store(c, n) }

func (x *wire) agent(f func()) {
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		x.w.Step("start")
		for i := x.r.Intn(4); i > 0; i-- {
			x.w.Step("delay")
		}
		f()
	}()
}

func (x *wire) conn() *wconn {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.conns[x.r.Intn(len(x.conns))]
}

var allKinds = []string{"send", "send", "stream", "stream", "bcast", "ping", "close", "cancel", "read", "feed", "pongs", "kill", "open", "bad", "release"}

var wireKinds = map[string][]string{
	"C05":   {"send", "stream", "stream", "bcast", "bcast", "ping", "close", "feed", "pongs", "cancel", "kill", "release"},
	"C06":   {"send", "send", "stream", "stream", "bcast", "close", "cancel", "feed", "kill", "release"},
	"C07":   {"send", "send", "stream", "stream", "cancel", "cancel", "cancel", "bad", "bcast", "close", "release"},
	"C08":   {"close", "close", "close", "send", "stream", "kill", "bcast", "ping", "feed", "cancel", "hook", "release"},
	"C09":   {"send", "stream", "bcast", "ping", "feed", "close", "kill", "cancel", "read", "release"},
	"C10":   {"send", "stream", "bcast", "ping", "feed", "close", "kill", "open", "hook", "cancel"},
	"C17":   {"ping", "ping", "feed", "feed", "feed", "pongs", "pongs", "stream", "send", "release"},
	"C19":   {"send", "stream", "stream", "open", "open", "close", "close", "cancel", "kill", "bcast", "release"},
	"mixed": allKinds,
}

func wireScenario(i int, seed int64, mode string) ([]M, bool) {
	mode, seed, isPair, fresh := pairMode(i, seed, mode)
	if !fresh {
		return nil, true
	}
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	x := &wire{r: r, w: w, mode: mode, pause: make(chan struct{})}
	x.pauses = !isPair && r.Intn(3) == 0
	x.bsz = pick(r, 1, 2, 6, 10, 16, 40, 111, 112, 126, 127, 200)
	if x.big = !isPair && r.Intn(16) == 0; x.big {
		x.bsz = pick(r, 30000, 65534, 65535, 65536, 65537, 70000)
	}
	o := &x.opt
	o.WriteBufferSize = x.bsz + 14
	o.WriteWait = 5 * time.Second
	o.ReadWait = pick(r, time.Minute, 40*time.Second)
	o.PingEvery = 1000 * time.Hour
	if r.Intn(4) == 0 {
		o.PingEvery = pick(r, time.Second, 3*time.Second, 20*time.Second)
	}
	o.DisableWriteBuffersPooling = r.Intn(5) == 0
	o.BroadcastChannelsSize = pick(r, 1, 2, 8)
	o.BroadcastBackpressure = snapws.BackpressureStrategy(r.Intn(3))
	var pr *pair
	if isPair {
		pr = newPair(i, r, pairOps[mode], wireSetups)
		x.bsz = pick(r, 6, 16, 40, 126)
		o.WriteBufferSize = x.bsz + 14
		o.PingEvery = 1000 * time.Hour
	}
	kinds := wireKinds[mode]
	if kinds == nil {
		kinds = allKinds
	}
	// faults
	fr := rand.New(rand.NewSource(r.Int63()))
	rate := pick(r, 0, 0, 0.1, 0.25)
	if mode == "C09" || mode == "C08" || mode == "C07" {
		rate = pick(r, 0, 0.1, 0.3, 0.5)
	}
	x.fail = func(n int, b []byte) sim.Outcome {
		if fr.Float64() >= rate {
			return sim.Outcome{}
		}
		k := 0
		if len(b) > 0 && fr.Intn(2) == 0 {
			k = fr.Intn(len(b))
		}
		return sim.Outcome{Kind: pick(fr, "err", "part", "stall", "stall", "stall"), K: k}
	}
	if pr != nil {
		rate = 0
		x.fail = pr.fail
		x.cancels = pr.a == "cancel" || pr.b == "cancel"
	}
	hookDo := ""
	for _, k := range kinds {
		if k == "hook" {
			hookDo = pick(r, "close", "send", "ping", "next", "read", "remove", "")
		}
	}
	opt := *o
	if r.Intn(8) > 0 {
		opt.OnDisconnect = func(c *snapws.Conn) {
			v, _ := c.MetaData.Load("id")
			id, _ := v.(int)
			if id == 0 {
				return // it failed before anybody could know it
			}
			w.Log(M{"e": "disc", "c": id})
			switch hookDo {
			case "close":
				c.Close()
			case "send":
				c.SendBytes(nil, []byte("from the hook"))
			case "ping":
				c.Ping()
			case "next":
				c.NextWriter(context.Background(), 1)
			case "read":
				c.ReadMessage()
			case "remove":
				x.room.Remove(c)
			}
		}
	}
	opt.ReadBufferSize = pick(r, 0, 0, 16, 200)
	byDefault(r, &opt)
	x.u = snapws.NewUpgrader(&opt)
	if uint64(seed)%3 == 0 {
		x.u.EnableJSONBatching(context.Background(), 1000*time.Hour)
	}
	x.rm = snapws.NewRoomManager[int](x.u)
	x.room = x.rm.Add(1)
	nc := pick(r, 1, 1, 1, 2)
	if mode == "C19" {
		nc = pick(r, 1, 2, 3)
	}
	for k := 0; k < nc; k++ {
		c := x.open(k)
		x.room.Add(c.conn)
	}
	w.Run()
	w.Ev = nil
	if pr != nil {
		x.pairAgents(pr)
	} else if r.Intn(4) > 0 {
		for _, c := range x.conns {
			c := c
			c.read = true
			x.agent(func() { x.readLoop(c) })
		}
	}
	na := 2 + r.Intn(5)
	if pr != nil {
		na = 0
	}
	for k := 0; k < na; k++ {
		c := x.conn()
		reps := 1 + r.Intn(3)
		switch kind := kinds[r.Intn(len(kinds))]; kind {
		case "send":
			x.agent(func() {
				for ; reps > 0; reps-- {
					x.sendOne(c, pick(r, "msg", "msg", "bytes", "string", "json", "badjson", "badop"))
				}
			})
		case "bad":
			x.agent(func() {
				for ; reps > 0; reps-- {
					x.sendOne(c, pick(r, "badjson", "badop", "badnext", "msg"))
				}
			})
		case "stream":
			x.agent(func() {
				for ; reps > 0; reps-- {
					x.stream(c)
				}
			})
		case "bcast":
			x.agent(func() {
				for ; reps > 0; reps-- {
					x.bcast(c)
				}
			})
		case "ping":
			x.agent(func() {
				for ; reps > 0; reps-- {
					x.op(c, "ping", nil, func() M { return res(c.conn.Ping()) })
				}
			})
		case "close":
			x.agent(func() { x.closeOp(c) })
		case "cancel":
			x.agent(func() {
				for k := 0; k < 3; k++ {
					w.Step("cancel")
					x.mu.Lock()
					var live []*wctx
					for _, cx := range x.ctxs {
						if !cx.done && cx.at == 0 {
							live = append(live, cx)
						}
					}
					x.mu.Unlock()
					if len(live) > 0 {
						x.cancelCtx(live[r.Intn(len(live))])
					}
				}
			})
		case "feed":
			x.agent(func() {
				for ; reps > 0; reps-- {
					w.Step("feed")
					x.feed(c, pick(r, "ping", "ping", "data"))
				}
			})
		case "pongs":
			x.agent(func() {
				for k := 0; k < 4; k++ {
					w.Step("feed")
					x.feed(c, "pongs")
				}
			})
		case "kill":
			x.agent(func() { w.Step("feed"); x.feed(c, pick(r, "close", "bad", "eof")) })
		case "read":
			if !c.read {
				c.read = true
				x.agent(func() { x.readLoop(c) })
			}
		case "open":
			x.agent(func() {
				d := x.open(len(x.conns))
				if r.Intn(2) == 0 {
					x.room.Add(d.conn)
				}
				for ; reps > 0; reps-- {
					if r.Intn(2) == 0 {
						x.stream(d)
					} else {
						x.sendOne(d, "msg")
					}
				}
			})
		case "release":
			x.agent(func() {
				w.Step("release")
				x.release()
			})
		}
	}
	pol, _ := sim.PickPolicy(r, 150)
	if pr != nil {
		pol = pr.pol
	}
	w.Control(pol)
	ok := w.Quiesce("run")
	// then, in some order: time passes, contexts end, stalled writes continue, connections are closed
	acts := []string{"adv1", "cancel", "release", "adv6", "pong", "adv1", "adv70", "resume", "resume"}
	if pr != nil {
		acts = []string{"hold", "adv1", "cancel", "release", "adv6", "pong", "hold", "adv70"}
	}
	r.Shuffle(len(acts), func(a, b int) { acts[a], acts[b] = acts[b], acts[a] })
	for _, a := range acts[:2+r.Intn(5)] {
		if !ok {
			break
		}
		switch a {
		case "adv1":
			w.Advance(time.Second)
		case "adv6":
			w.Advance(5500 * time.Millisecond)
		case "adv70":
			w.Advance(70 * time.Second)
		case "cancel":
			for _, cx := range x.ctxs {
				if r.Intn(2) == 0 {
					x.cancelCtx(cx)
				}
			}
		case "hold":
			pr.let()
		case "resume":
			x.resume()
		case "release":
			x.release()
		case "pong":
			for _, c := range x.conns {
				x.feed(c, "pongs")
			}
		}
		ok = w.Quiesce(a)
	}
	if pr != nil && ok {
		pr.let()
		ok = w.Quiesce("hold")
	}
	if ok && r.Intn(4) > 0 {
		x.resume()
		ok = w.Quiesce("resume")
	}
	if ok && r.Intn(2) == 0 { // more use of whatever is still usable
		rate = 0
		for _, c := range x.conns {
			c := c
			x.agent(func() { x.sendOne(c, "msg") })
			if r.Intn(2) == 0 {
				x.agent(func() { x.stream(c) })
			}
		}
		ok = w.Quiesce("more")
	}
	if ok { // the end: everything is closed
		for _, c := range x.conns {
			c := c
			x.agent(func() { x.closeOp(c) })
		}
		ok = w.Quiesce("close")
		for k := 0; k < 3 && ok && len(w.Pending()) > 0; k++ {
			w.Advance(5500 * time.Millisecond)
			ok = w.Quiesce("closewait")
		}
	}
	if ok {
		x.resume()
		ok = w.Quiesce("resume")
	}
	if ok { // closed is closed
		for _, c := range x.conns {
			c := c
			x.agent(func() {
				x.sendOne(c, pick(r, "msg", "json", "bytes", "string"))
				x.op(c, "ping", nil, func() M { return res(c.conn.Ping()) })
				x.op(c, "read", nil, func() M { _, _, err := c.conn.ReadMessage(); return res(err) })
				x.op(c, "read", nil, func() M { _, _, err := c.conn.NextReader(); return res(err) })
				x.stream(c)
				x.op(c, "batch", nil, func() M { return res(c.conn.Batch([]byte("late"))) })
				x.closeOp(c)
			})
		}
		ok = w.Quiesce("post")
	}
	leaks := 0
	if ok {
		for _, cx := range x.ctxs {
			if cx.cancel != nil {
				cx.cancel()
			}
		}
		w.Free()
		if x.u.Flusher != nil {
			x.u.Flusher.Close()
		}
		w.Run()
		for _, g := range sim.Goroutines() {
			if strings.Contains(g, "Atheer-Ganayem/SnapWS.") {
				leaks++
			}
		}
	}
	tr := x.project(leaks, ok)
	if pr != nil && !pr.pol.Done() && ok { // the preemption lies behind the end: a smaller one is the same
		tr = nil
		pr.dead()
	}
	for _, c := range x.conns {
		answered.Delete(c)
	}
	return tr, ok && len(w.Pending()) == 0
}

// resume lets the streams that were paused go on.
func (x *wire) resume() {
	x.resumed.Do(func() { close(x.pause) })
}

func (x *wire) release() {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, c := range x.conns {
		c.fc.ReleaseStalls()
	}
}

// project makes one trace per connection.
func (x *wire) project(leaks int, ok bool) []M {
	var out []M
	for _, c := range x.conns {
		out = append(out, x.projectConn(c, leaks, ok))
	}
	return out
}

func (x *wire) classify(c *wconn, f OFrame, prev []OFrame) M {
	e := M{"op": f.Op, "fin": f.Fin, "len": len(f.Payload), "bad": f.Bad, "cand": [][]int{}, "code": 0, "rs": "", "ping": 0}
	if f.Rsv {
		e["bad"] = "rsv"
	}
	switch {
	case f.Op == 8:
		if len(f.Payload) >= 2 {
			e["code"] = int(binary.BigEndian.Uint16(f.Payload))
			e["rs"] = string(f.Payload[2:])
		} else {
			e["bad"] = "close"
		}
	case f.Op == 10:
		for _, p := range x.pings {
			var cid, n int
			fmt.Sscanf(string(p), "%d:%d:", &cid, &n)
			if cid == c.id && bytes.Equal(p[len(fmt.Sprintf("%d:%d:", cid, n)):], f.Payload) {
				e["ping"] = n
			}
		}
	case f.Op < 3:
		cand := [][]int{}
		sums := map[int]bool{0: true} // in long messages: the offsets at which the data frames before this one may have ended
		if x.big {
			sum := 0
			for k := len(prev) - 1; k >= 0; k-- {
				if prev[k].Op < 3 {
					sum += len(prev[k].Payload)
					sums[sum] = true
				}
			}
		}
		if len(f.Payload) > 0 {
			for _, m := range x.msgs {
				if m.conn != 0 && m.conn != c.id {
					continue
				}
				for off := 0; ; off++ {
					k := bytes.Index(m.data[off:], f.Payload)
					if k < 0 {
						break
					}
					off += k
					if len(m.data) > 4000 && !sums[off] {
						continue
					}
					cand = append(cand, []int{m.id, off})
				}
			}
		}
		e["cand"] = cand
	}
	return e
}

func (x *wire) projectConn(c *wconn, leaks int, ok bool) M {
	frames := parseWire(c.fc.Wire[c.base:])
	fi := 0
	evs := []M{}
	now := 0
	own := map[int]bool{}
	for _, e := range x.w.Ev {
		cc, has := e["c"].(int)
		if id, is := e["id"].(int); is {
			if e["e"] == "call" && (cc == c.id || cc == 0) {
				own[id] = true
			}
			if !own[id] {
				continue
			}
		} else if has && cc != c.id {
			continue
		}
		t := e["t"].(int)
		// contexts that timed out meanwhile
		if t > now {
			for _, cx := range x.ctxs {
				if cx.at > now && cx.at <= t {
					evs = append(evs, M{"e": "cancel", "ctx": cx.id})
				}
			}
			now = t
		}
		if f, is := e["from"].(int); is && f < c.base { // the handshake's response
			continue
		}
		switch e["e"] {
		case "call", "ret", "cancel", "feed", "disc":
			evs = append(evs, e)
		case "ws":
			p := e["p"].([]byte)
			from := e["from"].(int) - c.base
			st := append(append([]byte(nil), c.fc.Wire[c.base:c.base+max(0, from)]...), p...)
			ow := map[int]bool{}
			sent := parseWire(st)
			for k, f := range sent {
				if f.To <= from {
					continue
				}
				cl := x.classify(c, f, sent[:k])
				switch {
				case f.Op >= 8:
					ow[0] = true
				case len(f.Payload) == 0:
					ow[-1] = true
				}
				for _, k := range cl["cand"].([][]int) {
					ow[k[0]] = true
				}
			}
			l := []int{}
			for k := range ow {
				l = append(l, k)
			}
			sortInts(l)
			evs = append(evs, M{"e": "ws", "own": l, "dl": e["dl"]})
		case "we":
			to := e["to"].(int) - c.base
			fs := []M{}
			for fi < len(frames) && frames[fi].To <= to && frames[fi].Bad != "cut" {
				fs = append(fs, x.classify(c, frames[fi], frames[:fi]))
				fi++
			}
			torn := fi < len(frames) && frames[fi].From < to
			evs = append(evs, M{"e": "we", "r": e["r"], "n": e["n"], "fr": fs, "torn": torn, "mut": e["mut"], "dur": e["dur"]})
		case "rawclose":
			evs = append(evs, M{"e": "raw"})
		case "rd":
			if e["r"] == "block" {
				evs = append(evs, M{"e": "rd", "dl": e["dl"]})
			}
		case "dlfail":
			evs = append(evs, M{"e": "dlfail"})
		case "adv":
			evs = append(evs, M{"e": "adv"})
		case "q":
			p := []int{}
			for _, id := range e["pend"].([]int) {
				if own[id] {
					p = append(p, id)
				}
			}
			evs = append(evs, M{"e": "q", "pend": p, "mutex": e["mutex"]})
		case "livelock":
			evs = append(evs, M{"e": "livelock"})
		}
	}
	if ok {
		evs = append(evs, M{"e": "end", "leaks": leaks})
	}
	for _, e := range evs {
		if e["e"] == "ret" {
			if s := e["r"].(string); strings.HasPrefix(s, "other") {
				e["r"], e["msg"] = "other", s
			}
		}
	}
	ms := []M{}
	for _, m := range x.msgs {
		tots := m.tots
		if tots == nil {
			tots = []int{}
		}
		ms = append(ms, M{"op": m.op, "tots": tots, "async": m.async})
	}
	hasDisc := x.u.OnDisconnect != nil
	return M{"cfg": M{"ww": 5000, "rw": int(x.opt.ReadWait / time.Millisecond), "disc": hasDisc, "conn": c.id,
		"autoping": x.opt.PingEvery < 100*time.Hour, "msgs": ms, "bp": int(x.opt.BroadcastBackpressure)}, "ev": evs}
}
