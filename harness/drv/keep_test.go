package drv

import (
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"sort"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// Keeping connections alive: pings at their times, peers that answer at once, late, wrongly or not at all, readers
// that read all the time, slowly or rarely (spec: KeepAlive).

type kconn struct {
	id     int
	conn   *snapws.Conn
	fc     *sim.FConn
	delay  func() int // ms until a ping is answered; -1: never, 0: before its write has ended
	idle   int        // how often the reader pauses
	owed   []owed
	part   []byte // the rest of a frame
	partEv M
	open   bool   // inside a fragmented message
	killed bool   // the peer is gone
	sent   []byte // what the server has started to write, unparsed
}
type owed struct {
	at      int
	payload []byte
}

type keep struct {
	r     *rand.Rand
	w     *sim.World
	u     *snapws.Upgrader
	conns []*kconn
	np    int
	end   bool
}

func (x *keep) connect() {
	rw := x.w.NewRW()
	c := &kconn{id: rw.C.ID, fc: rw.C}
	x.conns = append(x.conns, c)
	style := x.r.Intn(6)
	pe, rw2 := int(x.u.PingEvery/time.Millisecond), int(x.u.ReadWait/time.Millisecond)
	c.delay = func() int {
		switch style {
		case 0: // always, at once
			return 0
		case 1:
			return 1 + x.r.Intn(20)
		case 2: // late, but not too late
			return 1 + x.r.Intn(max(1, rw2-pe-2))
		case 3: // sometimes too late
			return 1 + x.r.Intn(rw2)
		case 4: // stops answering
			if x.r.Intn(6) == 0 {
				style = 5
			}
			return pick(x.r, 0, 5, pe/2, pe-1, pe, pe+1)
		}
		return -1
	}
	c.idle = pick(x.r, 0, 0, 0, 2, 4)
	c.fc.MaxRead = pick(x.r, 0, 0, 1, 3)
	c.fc.LogDL = true
	rw.RBuf = pick(x.r, 4096, 4096, 512, 64)
	c.fc.Coalesce = x.r.Intn(2) == 0
	conn, err := x.u.Upgrade(rw, sim.GoodReq())
	if err != nil {
		panic(err)
	}
	c.conn = conn
	x.w.Log(M{"e": "open", "c": c.id})
	c.fc.Started = func(p []byte) {
		c.sent = append(c.sent, p...)
		fs := parseWire(c.sent)
		n := 0
		for _, f := range fs {
			if f.Bad == "cut" {
				break
			}
			n = f.To
			if f.Op == 9 {
				switch d := c.delay(); {
				case d == 0 && c.part == nil:
					x.pong(c, f.Payload)
				case d >= 0:
					c.owed = append(c.owed, owed{x.w.Now() + max(1, d), f.Payload})
					sort.SliceStable(c.owed, func(i, j int) bool { return c.owed[i].at < c.owed[j].at })
				}
			}
		}
		c.sent = c.sent[n:]
	}
	go x.read(c)
}

func (x *keep) feed(c *kconn, e M, op int, fin bool, p []byte) {
	x.rest(c)
	if c.killed {
		return
	}
	var key [4]byte
	x.r.Read(key[:])
	h, b := clientFrame(op, fin, false, true, len(p), p, key)
	all := append(h, b...)
	e["e"], e["c"] = "feed", c.id
	if x.r.Intn(12) == 0 && op != 10 {
		k := 1 + x.r.Intn(len(all)-1)
		c.part, c.partEv = all[k:], e
		c.fc.Feed(all[:k])
		return
	}
	x.w.Log(e)
	c.fc.Feed(all)
}

func (x *keep) rest(c *kconn) {
	if c.part != nil {
		x.w.Log(c.partEv)
		c.fc.Feed(c.part)
		c.part = nil
	}
}

// pong sends a pong that answers a ping with that payload.
func (x *keep) pong(c *kconn, p []byte) {
	n := 1
	p = append([]byte(nil), p...)
	if x.r.Intn(40) == 0 {
		n = 0
		if x.r.Intn(2) == 0 || len(p) == 0 {
			p = append(p, content(x.r, 1+x.r.Intn(125-len(p)))...)
		} else {
			p = p[:len(p)-1]
		}
	}
	x.feed(c, M{"k": "pong", "n": n}, 10, true, p)
	for x.r.Intn(4) == 0 { // and more at once
		if x.r.Intn(2) == 0 {
			x.data(c)
		} else {
			x.ping(c)
		}
	}
}

func (x *keep) ping(c *kconn) {
	x.np++
	p := make([]byte, 2, 125)
	binary.BigEndian.PutUint16(p, uint16(x.np))
	p = append(p, content(x.r, pick(x.r, 0, 1, 5, 62, 123))...)
	x.feed(c, M{"k": "ping", "n": x.np, "p": string(p)}, 9, true, p)
}

func (x *keep) data(c *kconn) {
	fin := x.r.Intn(3) > 0
	op := 2
	if c.open {
		op = 0
	}
	x.feed(c, M{"k": "data", "n": 0}, op, fin, []byte(content(x.r, pick(x.r, 0, 3, 40, 200))))
	c.open = !fin
}

// due returns when the next pong is due.
func (x *keep) due() int {
	t := 1 << 60
	for _, c := range x.conns {
		for _, o := range c.owed {
			t = min(t, o.at)
		}
	}
	return t
}

func (x *keep) advance(d int) {
	to := x.w.Now() + d
	for !x.w.Hung {
		n := min(to, x.due())
		if n > x.w.Now() {
			x.w.Advance(time.Duration(n-x.w.Now()) * time.Millisecond)
		}
		for _, c := range x.conns {
			for len(c.owed) > 0 && c.owed[0].at <= x.w.Now() {
				p := c.owed[0].payload
				c.owed = c.owed[1:]
				x.pong(c, p)
			}
		}
		x.w.Run()
		if x.w.Now() >= to && x.due() > to {
			return
		}
		if x.r.Intn(2) == 0 {
			x.w.Quiesce("mid")
		}
	}
}

func (x *keep) read(c *kconn) {
	ret := func(err error) bool {
		x.w.Log(M{"e": "retread", "c": c.id, "ok": err == nil})
		return err == nil
	}
	for {
		x.w.Step("read")
		if !x.end && c.idle > 0 && x.r.Intn(c.idle) == 0 {
			time.Sleep(time.Duration(x.r.Intn(int(x.u.ReadWait/time.Millisecond)*3/2)) * time.Millisecond)
		}
		x.w.Log(M{"e": "callread", "c": c.id, "k": "new"})
		if x.r.Intn(2) == 0 {
			_, _, err := c.conn.ReadMessage()
			if !ret(err) {
				return
			}
			continue
		}
		rd, _, err := c.conn.NextReader()
		if !ret(err) {
			return
		}
		for x.r.Intn(4) > 0 {
			x.w.Step("cont")
			if !x.end && c.idle > 0 && x.r.Intn(2*c.idle) == 0 {
				time.Sleep(time.Duration(x.r.Intn(int(x.u.ReadWait/time.Millisecond))) * time.Millisecond)
			}
			x.w.Log(M{"e": "callread", "c": c.id, "k": "cont"})
			_, err := rd.Read(make([]byte, 1+x.r.Intn(20)))
			eof := errors.Is(err, io.EOF)
			if eof {
				err = nil
			}
			if !ret(err) {
				return
			}
			if eof {
				break
			}
		}
	}
}

func keepScenario(i int, seed int64, mode string) ([]M, bool) {
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	x := &keep{r: r, w: w}
	pe := pick(r, 50, 100, 100, 200)
	rw := pick(r, pe+10, pe+pe/2, 2*pe, 2*pe+7, 3*pe, 5*pe)
	if r.Intn(12) == 0 {
		rw = pe - 10
	}
	if r.Intn(10) == 0 {
		pe, rw = 50000, 60000
	}
	opt := &snapws.Options{ReadWait: time.Duration(rw) * time.Millisecond, PingEvery: time.Duration(pe) * time.Millisecond, WriteWait: 5 * time.Second,
		ReadBufferSize: pick(r, 0, 0, 16, 200)}
	opt.OnDisconnect = func(c *snapws.Conn) {
		x.w.Log(M{"e": "disc", "c": c.NetConn().(*sim.FConn).ID})
	}
	byDefault(r, opt)
	x.u = snapws.NewUpgrader(opt)
	nc := 1 + r.Intn(2)
	for k := 0; k < nc; k++ {
		if k > 0 {
			w.Advance(time.Duration(r.Intn(pe)) * time.Millisecond)
		}
		go x.connect()
		w.Run()
	}
	okk := w.Quiesce("prep")
	ctl := r.Intn(3) > 0
	if ctl {
		pol, _ := sim.PickPolicy(r, 200)
		w.Control(pol)
	}
	steps := 10 + r.Intn(50)
	for k := 0; k < steps && okk; k++ {
		c := x.conns[r.Intn(len(x.conns))]
		switch r.Intn(24) {
		case 0, 1:
			for n := 1 + r.Intn(3); n > 0; n-- {
				x.ping(c)
			}
		case 2, 3, 4: // data
			x.data(c)
		case 5, 6, 7:
			id := 1000 + k
			go func() {
				w.Step("ping")
				w.Log(M{"e": "callping", "c": c.id, "id": id})
				res := "ok"
				if err := c.conn.Ping(); errors.Is(err, snapws.ErrPingAlreadySent) {
					res = "pingsent"
				} else if err != nil {
					res = "fatal"
				}
				w.Log(M{"e": "retping", "c": c.id, "id": id, "r": res})
			}()
			if r.Intn(3) == 0 {
				continue // something else at the same time
			}
		case 8: // a pong out of the blue
			n := 0
			p := []byte(content(r, pick(r, 0, 1, 10, 125)))
			if len(p) == 0 {
				n = 1
			}
			if r.Intn(3) == 0 || len(c.owed) == 0 {
				x.feed(c, M{"k": "pong", "n": n}, 10, true, p)
			}
		case 9:
			x.rest(c)
		case 10:
			if r.Intn(12) == 0 {
				w.Log(M{"e": "close", "c": c.id})
				go c.conn.Close()
			} else if r.Intn(12) == 0 {
				x.rest(c)
				w.Log(M{"e": "feed", "c": c.id, "k": "kill", "n": 0})
				c.killed = true
				c.fc.FeedErr(io.EOF)
			}
		case 11, 12: // to a tick's very moment
			d := pe - w.Now()%pe
			x.advance(d)
		default:
			x.advance(pick(r, 1, 5, pe/2, pe-1, pe, pe+1, 2*pe, 3*pe, rw-1, rw, rw+1))
		}
		okk = w.Quiesce("step")
	}
	x.end = true
	for k := 0; k < 3 && okk; k++ {
		for _, c := range x.conns {
			x.rest(c)
		}
		x.advance(pe)
		okk = w.Quiesce("settle")
	}
	tr := x.project(pe, rw)
	w.Free()
	for _, c := range x.conns {
		go c.conn.Close()
	}
	w.Run()
	return []M{tr}, okk
}

func (x *keep) project(pe, rw int) M {
	evs := []M{}
	acc := map[any][]byte{}
	for _, e := range x.w.Ev {
		t := e["t"]
		switch e["e"] {
		case "open", "close":
			evs = append(evs, M{"e": e["e"], "c": e["c"], "t": t})
		case "disc":
			evs = append(evs, M{"e": "disc", "c": e["c"], "code": 0, "t": t})
		case "rawclose":
			evs = append(evs, M{"e": "raw", "c": e["c"], "code": 0, "t": t})
		case "callread":
			evs = append(evs, M{"e": "callread", "c": e["c"], "k": e["k"], "t": t})
		case "retread":
			evs = append(evs, M{"e": "retread", "c": e["c"], "ok": e["ok"], "t": t})
		case "callping":
			evs = append(evs, M{"e": "callping", "c": e["c"], "id": e["id"], "t": t})
		case "retping":
			evs = append(evs, M{"e": "retping", "c": e["c"], "id": e["id"], "r": e["r"], "t": t})
		case "feed":
			evs = append(evs, M{"e": "feed", "c": e["c"], "k": e["k"], "n": e["n"], "t": t})
		case "dl":
			evs = append(evs, M{"e": "dl", "c": e["c"], "d": e["d"], "t": t})
		case "ws":
			id := e["c"]
			acc[id] = append(acc[id], e["p"].([]byte)...)
			if len(acc[id]) > 4 && string(acc[id][:4]) == "HTTP" {
				acc[id] = nil
				continue
			}
			n := 0
			for _, f := range parseWire(acc[id]) {
				if f.Bad == "cut" {
					break
				}
				n = f.To
				switch f.Op {
				case 9:
					evs = append(evs, M{"e": "ping", "c": id, "t": t})
				case 10:
					n := 0
					if len(f.Payload) > 1 {
						n = int(binary.BigEndian.Uint16(f.Payload))
						if n > 0 && n <= x.np && !x.isPing(n, f.Payload) {
							n = -1
						}
					}
					evs = append(evs, M{"e": "pong", "c": id, "n": n, "t": t})
				case 8:
					code := 0
					if len(f.Payload) > 1 {
						code = int(binary.BigEndian.Uint16(f.Payload))
					}
					evs = append(evs, M{"e": "cf", "c": id, "code": code, "t": t})
				}
			}
			acc[id] = acc[id][n:]
		case "q":
			evs = append(evs, M{"e": "q", "mutex": e["mutex"], "t": t})
		case "livelock":
			evs = append(evs, M{"e": "livelock", "c": 0, "t": t})
		}
	}
	return M{"cfg": M{"nc": len(x.w.Conns), "pe": pe, "rw": rw}, "ev": evs}
}

// isPing reports whether b is what ping n contained.
func (x *keep) isPing(n int, b []byte) bool {
	for _, e := range x.w.Ev {
		if e["e"] == "feed" && e["k"] == "ping" && e["n"] == n {
			return string(b) == e["p"]
		}
	}
	return false
}
