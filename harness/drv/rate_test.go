package drv

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"sync"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// Rate limiting: a few connections of one upgrader, messages in fragments and bursts with control frames in between,
// readers of all kinds, time passing (spec: RateLimit).

type rconn struct {
	id    int
	conn  *snapws.Conn
	fc    *sim.FConn
	n     int    // messages fed
	cur   string // the rest of a message that has been fed only in part
	curM  int
	bad   int // the hook closes the connection at this hit
	hits  int
	inMsg bool
}

type rate struct {
	r     *rand.Rand
	w     *sim.World
	u     *snapws.Upgrader
	mu    sync.Mutex
	conns []*rconn
	msgs  map[int]string
	nm    int
	end   bool
}

func (x *rate) connect() {
	rw := x.w.NewRW()
	c := &rconn{id: rw.C.ID, fc: rw.C}
	if x.r.Intn(5) == 0 {
		c.bad = 1 + x.r.Intn(3)
	}
	x.mu.Lock()
	x.conns = append(x.conns, c)
	x.mu.Unlock()
	rw.C.Coalesce = x.r.Intn(2) == 0
	rw.C.MaxRead = pick(x.r, 0, 0, 1, 7)
	conn, err := x.u.Upgrade(rw, sim.GoodReq())
	if err != nil {
		panic(err)
	}
	c.conn = conn
	x.w.Log(M{"e": "open", "c": c.id})
	go x.read(c)
}

// read reads until the connection ends.
func (x *rate) read(c *rconn) {
	for i := 0; i < 200; i++ {
		how := x.r.Intn(6)
		x.w.Step("read")
		if x.r.Intn(5) == 0 && !x.end {
			time.Sleep(time.Duration(x.r.Intn(400)) * time.Millisecond)
		}
		kind := "whole"
		if how == 0 {
			kind = "next"
		}
		x.w.Log(M{"e": "call", "c": c.id, "k": kind})
		var err error
		var b []byte
		var rd io.Reader
		r := "msg"
		switch how {
		case 0:
			r = "next"
			rd, _, err = c.conn.NextReader()
		case 1:
			b, err = c.conn.ReadBinary()
		case 2:
			b, err = c.conn.ReadString()
		default:
			_, b, err = c.conn.ReadMessage()
		}
		m := 0
		switch {
		case err == nil && r == "msg":
			m = x.ident(b)
		case err == nil:
		case snapws.IsFatalErr(err):
			r = "fatal"
		case errors.Is(err, snapws.ErrMessageTypeMismatch):
			r = "mismatch"
		default:
			r = "limited"
		}
		x.w.Log(M{"e": "ret", "c": c.id, "r": r, "m": m})
		if r == "fatal" {
			return
		}
		if rd != nil && x.r.Intn(3) > 0 {
			p := make([]byte, x.r.Intn(6))
			if k, err := io.ReadFull(rd, p); err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
				x.w.Log(M{"e": "call", "c": c.id, "k": "whole"})
				x.w.Log(M{"e": "ret", "c": c.id, "r": "fatal", "m": 0})
				return
			} else if j := bytes.IndexByte(p[:k], ':'); j > 0 {
				n, _ := strconv.Atoi(string(p[:j]))
				x.w.Log(M{"e": "part", "c": c.id, "m": n})
			}
		}
	}
}

func (x *rate) ident(b []byte) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	if j := bytes.IndexByte(b, ':'); j > 0 {
		if n, err := strconv.Atoi(string(b[:j])); err == nil && x.msgs[n] == string(b) {
			return n
		}
	}
	return -1
}

func (x *rate) frame(c *rconn, op int, fin bool, p string) {
	var key [4]byte
	x.r.Read(key[:])
	h, b := clientFrame(op, fin, false, true, len(p), []byte(p), key)
	all := append(h, b...)
	if x.r.Intn(3) == 0 && len(all) > 3 {
		k := 1 + x.r.Intn(len(all)-1)
		c.fc.Feed(all[:k], all[k:])
	} else {
		c.fc.Feed(all)
	}
}

func (x *rate) feed(c *rconn) {
	if c.curM != 0 { // the rest first
		x.rest(c)
		return
	}
	x.mu.Lock()
	x.nm++
	m := x.nm
	s := fmt.Sprintf("%d:%s", m, content(x.r, pick(x.r, 0, 0, 1, 3, 10, 130, 600)))
	x.msgs[m] = s
	x.mu.Unlock()
	op := pick(x.r, 1, 2)
	k := x.r.Intn(len(s) + 1)
	switch x.r.Intn(6) {
	case 0: // in two parts, time may pass between them
		x.w.Log(M{"e": "feed", "c": c.id, "m": m, "op": op})
		x.frame(c, op, false, s[:k])
		c.curM, c.cur = m, s[k:]
		return
	case 1, 2: // in fragments
		x.w.Log(M{"e": "feed", "c": c.id, "m": m, "op": op})
		x.w.Log(M{"e": "fed", "c": c.id, "m": m})
		x.frame(c, op, false, s[:k])
		for i := x.r.Intn(4); i > 0; i-- {
			if x.r.Intn(2) == 0 {
				x.frame(c, 9, true, "ping")
			} else {
				j := k + x.r.Intn(len(s)-k+1)
				x.frame(c, 0, false, s[k:j])
				k = j
			}
		}
		x.frame(c, 0, true, s[k:])
	default:
		x.w.Log(M{"e": "feed", "c": c.id, "m": m, "op": op})
		x.w.Log(M{"e": "fed", "c": c.id, "m": m})
		x.frame(c, op, true, s)
	}
}

func (x *rate) rest(c *rconn) {
	x.w.Log(M{"e": "fed", "c": c.id, "m": c.curM})
	x.frame(c, 0, true, c.cur)
	c.curM, c.cur = 0, ""
}

func rateScenario(i int, seed int64, mode string) ([]M, bool) {
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	x := &rate{r: r, w: w, msgs: map[int]string{}}
	mps := pick(r, 0, 1, 2, 3, 5, 7, 10, 50, 100)
	burst := pick(r, 0, 1, 1, 2, 3, 5)
	hook := r.Intn(6) > 0
	opt := &snapws.Options{ReadWait: 1000 * time.Hour, PingEvery: 2000 * time.Hour, WriteWait: 5 * time.Second}
	opt.OnDisconnect = func(c *snapws.Conn) { w.Log(M{"e": "disc", "c": c.NetConn().(*sim.FConn).ID}) }
	x.u = snapws.NewUpgrader(opt)
	x.u.Limiter = snapws.NewRateLimiter(mps, burst)
	if hook {
		x.u.Limiter.OnRateLimitHit = func(c *snapws.Conn) error {
			id := c.NetConn().(*sim.FConn).ID
			var h *rconn
			x.mu.Lock()
			for _, y := range x.conns {
				if y.id == id {
					h = y
				}
			}
			h.hits++
			bad := h.bad == h.hits
			x.mu.Unlock()
			w.Log(M{"e": "hit", "c": id, "bad": bad})
			if bad {
				c.CloseWithCode(4008, "enough")
				return errors.New("enough")
			}
			return nil
		}
	}
	nc := 1 + r.Intn(3)
	for k := 0; k < nc; k++ {
		go x.connect()
	}
	w.Run()
	okk := w.Quiesce("prep")
	if r.Intn(2) == 0 {
		pol, _ := sim.PickPolicy(r, 200)
		w.Control(pol)
	}
	unit := 1000
	if mps > 0 {
		unit = 1000 / mps
	}
	for k := 3 + r.Intn(25); k > 0 && okk; k-- {
		c := x.conns[r.Intn(len(x.conns))]
		switch r.Intn(10) {
		case 0, 1, 2:
			w.Advance(time.Duration(pick(r, 1, unit/2, unit-2, unit, unit+2, unit, 2*unit, 3*unit-1, 5*unit, 10*unit)) * time.Millisecond)
		case 3:
			x.frame(c, pick(r, 9, 10), true, "x")
		case 4:
			if r.Intn(6) == 0 {
				w.Log(M{"e": "call", "c": c.id, "k": "close"})
				go c.conn.Close()
			} else if len(x.conns) < 5 && r.Intn(3) == 0 {
				go x.connect()
			}
		case 5:
			for j := 1 + r.Intn(6); j > 0; j-- {
				x.feed(c)
			}
		default:
			x.feed(c)
			if r.Intn(2) == 0 {
				continue // more at the same time
			}
		}
		okk = w.Quiesce("step")
	}
	x.end = true
	for k := 0; k < 3 && okk; k++ {
		for _, c := range x.conns {
			if c.curM != 0 {
				x.rest(c)
			}
		}
		w.Advance(500 * time.Millisecond)
		okk = w.Quiesce("settle")
	}
	tr := x.project(mps, burst, hook)
	w.Free()
	for _, c := range x.conns {
		go c.conn.Close()
	}
	w.Run()
	return []M{tr}, okk
}

func (x *rate) project(mps, burst int, hook bool) M {
	evs := []M{}
	for _, e := range x.w.Ev {
		switch e["e"] {
		case "open", "disc":
			evs = append(evs, M{"e": e["e"], "c": e["c"], "t": e["t"]})
		case "call":
			evs = append(evs, M{"e": "call", "c": e["c"], "k": e["k"], "t": e["t"]})
		case "ret":
			evs = append(evs, M{"e": "ret", "c": e["c"], "r": e["r"], "m": e["m"], "t": e["t"]})
		case "part", "fed":
			evs = append(evs, M{"e": e["e"], "c": e["c"], "m": e["m"], "t": e["t"]})
		case "feed":
			evs = append(evs, M{"e": "feed", "c": e["c"], "m": e["m"], "t": e["t"]})
		case "hit":
			evs = append(evs, M{"e": "hit", "c": e["c"], "bad": e["bad"], "t": e["t"]})
		case "q":
			evs = append(evs, M{"e": "q", "mutex": e["mutex"], "t": e["t"]})
		case "livelock":
			evs = append(evs, M{"e": "livelock", "t": e["t"]})
		}
	}
	return M{"cfg": M{"nc": len(x.w.Conns), "mps": mps, "burst": burst, "hook": hook}, "ev": evs}
}
