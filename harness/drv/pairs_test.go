package drv

import (
	"math/rand"
	"strings"
	"sync"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// Two operations on a prepared connection, the first being preempted by the second after each of its steps in turn:
// scenario i is pair i/pairK, with the preemption after i%pairK steps.

const pairK = 512

var pairDead = map[int]bool{} // pairs whose first operation has fewer steps

type pair struct {
	n      int
	a, b   string
	third  bool // something else happens at the same time
	setup  string
	hold   chan struct{}
	once   sync.Once
	pol    *sim.Preempt
	writes int
}

var pairOps = map[string][]string{
	"C05": {"send", "stream", "json", "bcast", "ping", "close", "fping", "fclose", "release", "feof"},
	"C06": {"send", "stream", "bcast", "close", "cancel", "feof", "release", "fping"},
	"C07": {"send", "stream", "cancel", "let", "badjson", "bcast", "release", "close"},
	"C08": {"close", "feof", "fclose", "fbad", "send", "ping", "stream", "bcast", "fping"},
	"C09": {"send", "stream", "bcast", "ping", "close", "feof", "release", "cancel", "fping", "fclose"},
	"C10": {"send", "stream", "bcast", "ping", "close", "feof", "fclose", "open", "fping"},
	"C17": {"ping", "fping", "fpong", "stream", "send", "release", "close"},
	"C19": {"send", "stream", "open", "close", "cancel", "feof", "bcast", "fclose"},
}

var wireSetups = []string{"fresh", "held", "stall", "fail", "part", "stall2", "held+stall"}

var hubPairOps = map[string][]string{
	"C11": {"mconnect", "mreg", "mget", "mgetall", "close", "kill", "bcast", "mshut"},
	"C12": {"rconnect", "radd", "rrem", "rremall", "rmove", "rgetall", "rclose", "rmadd", "rmkeys", "close", "kill"},
	"C13": {"bcast", "radd", "rrem", "mreg", "mconnect", "close", "cancel", "hold", "rmove", "kill"},
	"C14": {"bcast", "hold", "close", "cancel", "release", "kill"},
	"C20": {"mshut", "rmshut", "close", "kill", "mconnect", "rconnect", "radd", "rrem", "rmove", "bcast", "rgetall", "mreg"},
}

var batPairOps = map[string][]string{
	"C15": {"batch", "bb", "send", "hold", "connect", "tick", "close", "sender"},
	"C21": {"batch", "bb", "fclose", "cancel", "enable", "connect", "close", "tick", "ccancel", "sender"},
}

// pairMode takes a scenario's number and seed apart; ok is false if the scenario is known to be another one's equal.
func pairMode(i int, seed int64, mode string) (string, int64, bool, bool) {
	if !strings.HasSuffix(mode, "pairs") {
		return mode, seed, false, true
	}
	return strings.TrimSuffix(mode, "pairs"), seed - int64(i%pairK)*7919, true, !pairDead[i/pairK]
}

// start runs f as the goroutine the schedule knows as g.
func (p *pair) start(w *sim.World, g *int64, f func()) {
	go func() {
		*g = sim.Goid()
		w.Step("start")
		f()
	}()
}

func newPair(i int, r *rand.Rand, ops, setups []string) *pair {
	p := &pair{n: i / pairK, hold: make(chan struct{})}
	// all combinations in turn, in an order that mixes them
	x := p.n * 7919 % (len(ops) * len(ops) * len(setups) * 6)
	next := func(n int) int { v := x % n; x /= n; return v }
	p.a, p.b = ops[next(len(ops))], ops[next(len(ops))]
	p.setup = setups[next(len(setups))]
	p.pol = &sim.Preempt{K: [2]int{i % pairK, -1}, BgFirst: next(2) == 0}
	if next(3) == 0 {
		p.pol.K[1] = r.Intn(120)
	}
	p.third = r.Intn(4) == 0
	return p
}

func (p *pair) let()  { p.once.Do(func() { close(p.hold) }) }
func (p *pair) dead() { pairDead[p.n] = true }

// fail is what happens to the writes after the setup.
func (p *pair) fail(n int, b []byte) sim.Outcome {
	p.writes++
	k := max(0, min(1, len(b)-1))
	switch {
	case p.writes == 1 && (p.setup == "stall" || p.setup == "held+stall"), p.writes == 2 && p.setup == "stall2":
		return sim.Outcome{Kind: "stall", K: k}
	case p.writes == 1 && p.setup == "fail":
		return sim.Outcome{Kind: "err"}
	case p.writes == 1 && p.setup == "part":
		return sim.Outcome{Kind: "part", K: k}
	}
	return sim.Outcome{}
}

func (x *wire) pairAgents(p *pair) {
	c := x.conns[0]
	d := x.conns[len(x.conns)-1]
	if p.setup == "held" || p.setup == "held+stall" { // a message half written
		m := x.msg(c.id, 1, 200)
		x.wg.Add(1)
		go func() {
			defer x.wg.Done()
			x.hold(c, m, p)
		}()
		x.w.Run()
		p.writes = 0
	}
	reads := func(op string) bool { return op[0] == 'f' && op != "fpong" }
	self := ""
	if reads(p.a) {
		self = p.a
	} else if reads(p.b) {
		self = p.b
	}
	for _, e := range x.conns {
		e := e
		if (e == c && self == p.a || e == d && self == p.b) && self != "" {
			continue
		}
		e.read = true
		x.agent0(func() { x.readLoop(e) })
	}
	p.start(x.w, &p.pol.A, func() { x.pairOp(p.a, c, p, self != "" && self == p.a) })
	p.start(x.w, &p.pol.B, func() { x.pairOp(p.b, d, p, self != "" && self != p.a) })
	if p.third {
		x.agent(func() { x.pairOp(pick(x.r, pairOps[x.mode]...), x.conn(), p, false) })
	}
}

func (x *wire) agent0(f func()) {
	x.wg.Add(1)
	go func() {
		defer x.wg.Done()
		x.w.Step("start")
		f()
	}()
}

// hold writes half a message and continues when told.
func (x *wire) hold(c *wconn, m *wmsg, p *pair) {
	cx := &wctx{}
	var wr *snapws.ConnWriter
	if q := x.op(c, "next", M{"m": m.id, "ctx": 0}, func() M {
		v, err := c.conn.NextWriter(cx.ctx, byte(m.op))
		wr = v
		return res(err)
	}); q["r"] != "ok" {
		return
	}
	put := func(from, n int) {
		b := append([]byte(nil), m.data[from:from+n]...)
		x.op(c, "write", M{"m": m.id, "n": n, "ctx": 0}, func() M {
			k, err := wr.Write(b)
			e := res(err)
			if err == nil && k != n {
				e["r"] = "short"
			}
			return e
		})
	}
	n := x.bsz/2 + 1
	put(0, n)
	<-p.hold
	put(n, x.bsz)
	x.op(c, "wclose", M{"m": m.id, "ctx": 0}, func() M { return res(wr.Close()) })
}

// pairOp does one operation of a pair; a reader goes on reading what was fed.
func (x *wire) pairOp(op string, c *wconn, p *pair, reader bool) {
	switch op {
	case "send":
		x.sendOne(c, pick(x.r, "msg", "bytes", "string"))
	case "json", "badjson":
		x.sendOne(c, op)
	case "stream":
		x.stream(c)
	case "bcast":
		x.bcast(c)
	case "ping":
		x.op(c, "ping", nil, func() M { return res(c.conn.Ping()) })
	case "close":
		x.closeOp(c)
	case "fping", "fclose", "fbad", "feof":
		x.w.Step("feed")
		x.feed(c, map[string]string{"fping": "ping", "fclose": "close", "fbad": "bad", "feof": "eof"}[op])
		if reader {
			c.read = true
			x.readLoop(c)
		}
	case "fpong":
		x.w.Step("feed")
		x.feed(c, "pongs")
	case "cancel":
		for {
			x.w.Step("cancel")
			x.mu.Lock()
			var live *wctx
			for _, cx := range x.ctxs {
				if !cx.done && cx.at == 0 {
					live = cx
				}
			}
			x.mu.Unlock()
			if live == nil {
				return
			}
			x.cancelCtx(live)
		}
	case "open":
		d := x.open(len(x.conns))
		x.room.Add(d.conn)
		x.stream(d)
	case "release":
		x.w.Step("release")
		x.release()
	case "let":
		x.w.Step("let")
		p.let()
	}
}
