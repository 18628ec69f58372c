package drv

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

// Handshakes: requests as raw HTTP, parsed by net/http, in every combination TLC's HandshakeEnum printed (mode enum)
// or several at once at random (spec: Handshake).

// The values of each dimension, the first being the ordinary one. Header lines are raw, the tokens are what they list.
type hlines struct {
	lines []string
	toks  []string
}

var (
	hMethods = []string{"GET", "POST", "get", "HEAD"}
	hUps     = []hlines{{[]string{"websocket"}, []string{"websocket"}}, {[]string{"WebSocket"}, []string{"WebSocket"}},
		{[]string{"h2c, WEBSOCKET"}, []string{"h2c", "WEBSOCKET"}}, {[]string{"h2c", "websocket"}, []string{"h2c", "websocket"}},
		{[]string{" wEbSoCkEt\t, x"}, []string{"wEbSoCkEt", "x"}}, {nil, nil}, {[]string{""}, nil}, {[]string{"websocketx"}, []string{"websocketx"}},
		{[]string{"web socket"}, []string{"web socket"}}, {[]string{"h2c"}, []string{"h2c"}}, {[]string{"websocket;q=1"}, []string{"websocket;q=1"}},
		{[]string{"websocket", "h2c"}, []string{"websocket", "h2c"}}}
	hCos = []hlines{{[]string{"Upgrade"}, []string{"Upgrade"}}, {[]string{"upgrade"}, []string{"upgrade"}},
		{[]string{"keep-alive, UPGRADE"}, []string{"keep-alive", "UPGRADE"}}, {[]string{"keep-alive", "upGrade"}, []string{"keep-alive", "upGrade"}},
		{[]string{"Upgrade ,keep-alive"}, []string{"Upgrade", "keep-alive"}}, {nil, nil}, {[]string{""}, nil}, {[]string{"keep-alive"}, []string{"keep-alive"}},
		{[]string{"upgraded"}, []string{"upgraded"}}, {[]string{"up grade, close"}, []string{"up grade", "close"}}, {[]string{"close", "no-upgrade"}, []string{"close", "no-upgrade"}},
		{[]string{"Upgrade", "close"}, []string{"Upgrade", "close"}}}
	hVers = []string{"13", "-", "8", "130", "1", "013", "thirteen"}
	hKeys = []string{"16", "16", "none", "empty", "15", "17", "bad", "nopad", "hex"}
	hPros = []hlines{{nil, nil}, {[]string{"a"}, []string{"a"}}, {[]string{"b, a"}, []string{"b", "a"}}, {[]string{"c", "a"}, []string{"c", "a"}},
		{[]string{"a,b"}, []string{"a", "b"}}, {[]string{"A"}, []string{"A"}}, {[]string{"c"}, []string{"c"}}, {[]string{"ab, aa"}, []string{"ab", "aa"}},
		{[]string{"x\t,  b  ,a"}, []string{"x", "b", "a"}}}
	hSups = [][]string{nil, {"a"}, {"a", "b"}, {"b"}, {}}
	hMws  = [][]int{{}, {0}, {403}, {0, 0}, {0, 418, 403}, {400, 403}, {0, 0, 1}, {1, 403}, {503, 1}} // 1: an error of no particular type
)

type hreq struct {
	n     int
	raw   string
	req   M
	key   string
	early []byte
	rw    *hrw
	fail  string // "", hijack, err, part
}

// hrw records what is done with the response writer.
type hrw struct {
	*sim.RW
	w    *sim.World
	q    *hreq
	sent bool
}

func (x *hrw) WriteHeader(s int) {
	if !x.sent {
		x.sent = true
		x.w.Log(M{"e": "http", "r": x.q.n, "status": s})
	}
	x.RW.WriteHeader(s)
}
func (x *hrw) Write(b []byte) (int, error) {
	x.WriteHeader(200)
	return x.RW.Write(b)
}
func (x *hrw) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	x.w.Log(M{"e": "hijack", "r": x.q.n, "ok": x.q.fail != "hijack"})
	if x.q.fail == "hijack" {
		return nil, nil, errors.New("no hijacking here")
	}
	return x.RW.Hijack()
}

var handOnce sync.Once
var handSeqs []string

// Requests are told apart by this header.
const hdrNum = "X-Verif-Request"

func handScenario(i int, seed int64, mode string) ([]M, bool) {
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	dims := []int{len(hMethods), len(hUps), len(hCos), len(hVers), len(hKeys), len(hPros), len(hSups), 2, len(hMws), 4, 4}
	var v []int
	nreq := 1
	if mode == "enum" {
		handOnce.Do(func() {
			b, err := os.ReadFile(os.Getenv("VH_ENUM"))
			if err != nil {
				panic(err)
			}
			handSeqs = strings.Split(strings.TrimSpace(string(b)), "\n")
		})
		for _, s := range strings.Split(handSeqs[i%len(handSeqs)], ",") {
			x := 0
			fmt.Sscan(s, &x)
			v = append(v, x-1)
		}
	} else {
		nreq = 1 + r.Intn(4)
	}
	roll := func() []int {
		v := make([]int, len(dims))
		bad := pick(r, 2, 6, 12)
		for k, d := range dims {
			if r.Intn(bad) == 0 || k >= 5 {
				v[k] = r.Intn(d)
			}
		}
		if r.Intn(3) > 0 {
			v[8] = pick(r, 0, 1, 3)
			v[9] = 0
		}
		return v
	}
	if v == nil {
		v = roll()
	}
	sup, reject, mws, hook := hSups[v[6]], v[7] == 1, hMws[v[8]], v[10]
	opt := &snapws.Options{SubProtocols: sup, RejectRaw: reject, WriteBufferSize: pick(r, 0, 100, 4096)}
	reqs := []*hreq{}
	byConn := func(c *snapws.Conn) *hreq {
		for _, q := range reqs {
			if q.rw.C == c.NetConn().(*sim.FConn) {
				return q
			}
		}
		return nil
	}
	codes := []int{}
	var mw snapws.Middlwares
	for k, what := range mws {
		code := what
		if code == 1 {
			code = 400
		}
		codes = append(codes, code)
		mw = append(mw, func(rw http.ResponseWriter, rq *http.Request) error {
			n := 0
			fmt.Sscan(rq.Header.Get(hdrNum), &n)
			w.Log(M{"e": "mw", "r": n, "i": k + 1})
			w.Step("mw")
			switch what {
			case 0:
				return nil
			case 1:
				return errors.New("no")
			}
			return snapws.NewMiddlewareErr(what, "no")
		})
	}
	use := r.Intn(2) == 0
	if !use {
		opt.Middlwares = mw
	}
	if hook > 0 {
		opt.OnConnect = func(c *snapws.Conn) {
			q := byConn(c)
			w.Log(M{"e": "hook", "r": q.n})
			switch hook {
			case 2:
				c.SendString(nil, []byte("welcome"))
			case 3:
				c.Close()
			}
		}
	}
	u := snapws.NewUpgrader(opt)
	if use {
		for _, m := range mw {
			u.Use(m)
		}
	}
	if r.Intn(2) == 0 {
		u.Limiter = snapws.NewRateLimiter(1, 1)
	}
	conns := make([]*snapws.Conn, nreq+1)
	for k := 1; k <= nreq; k++ {
		if k > 1 {
			x := roll()
			copy(v[:6], x[:6])
			v[9] = x[9]
		}
		q := &hreq{n: k}
		q.build(r, v)
		q.fail = []string{"", "hijack", "err", "part"}[v[9]]
		q.rw = &hrw{RW: w.NewRW(), w: w, q: q}
		q.rw.WBuf = pick(r, 16, 200, 4096)
		if q.fail == "err" || q.fail == "part" {
			q.rw.C.Plan = func(n int, b []byte) sim.Outcome { return sim.Outcome{Kind: q.fail, K: r.Intn(len(b))} }
		}
		q.rw.Early = q.early
		reqs = append(reqs, q)
	}
	if nreq > 1 || r.Intn(2) == 0 {
		pol, _ := sim.PickPolicy(r, 60*nreq)
		w.Control(pol)
	}
	for _, q := range reqs {
		hr, err := http.ReadRequest(bufio.NewReader(strings.NewReader(q.raw)))
		if err != nil {
			panic(fmt.Sprint(err, q.raw))
		}
		w.Log(M{"e": "call", "r": q.n, "req": q.req})
		go func() {
			w.Step("call")
			c, err := u.Upgrade(q.rw, hr)
			p := ""
			if c != nil {
				conns[q.n] = c
				p = c.SubProtocol
			}
			w.Log(M{"e": "ret", "r": q.n, "ok": err == nil || c != nil, "proto": p})
		}()
	}
	ok := w.Quiesce("end")
	tr := project18(w, reqs, sup, reject, codes, hook > 0)
	w.Free()
	for _, c := range conns {
		if c != nil {
			go c.Close()
		}
	}
	w.Run()
	return []M{tr}, ok
}

func (q *hreq) build(r *rand.Rand, v []int) {
	var b strings.Builder
	up, co, pro := hUps[v[1]], hCos[v[2]], hPros[v[5]]
	var hs []string
	add := func(name string, lines []string) {
		for _, l := range lines {
			hs = append(hs, pick(r, name, strings.ToLower(name), strings.ToUpper(name))+":"+pick(r, " ", "", "  ")+l+pick(r, "", "", " "))
		}
	}
	groups := []func(){
		func() { add("Upgrade", up.lines) },
		func() { add("Connection", co.lines) },
		func() { add("Sec-WebSocket-Protocol", pro.lines) },
		func() {
			if hVers[v[3]] != "-" {
				add("Sec-WebSocket-Version", []string{hVers[v[3]]})
			}
		},
		func() {
			raw := make([]byte, 16)
			r.Read(raw)
			k := ""
			kind := "bad"
			switch hKeys[v[4]] {
			case "16":
				k, kind = base64.StdEncoding.EncodeToString(raw), "ok"
			case "none":
				return
			case "empty":
			case "15":
				k = base64.StdEncoding.EncodeToString(raw[:15])
			case "17":
				k = base64.StdEncoding.EncodeToString(append(raw, 1))
			case "bad":
				k = base64.StdEncoding.EncodeToString(raw)
				k = "!" + k[1:]
			case "nopad":
				k = base64.RawStdEncoding.EncodeToString(raw)
			case "hex":
				k = fmt.Sprintf("%x", raw)
			}
			q.key = k
			q.req["key"] = kind
			add("Sec-WebSocket-Key", []string{k})
		},
		func() { add("Host", []string{"example.org"}) },
		func() { add("Origin", []string{"http://example.org"}) },
		func() { add("Sec-WebSocket-Extensions", []string{"permessage-deflate"}) },
		func() { add(hdrNum, []string{fmt.Sprint(q.n)}) },
	}
	q.req = M{"get": hMethods[v[0]] == "GET", "up": seq(up.toks), "co": seq(co.toks), "ver": hVers[v[3]], "key": "none", "proto": seq(pro.toks)}
	r.Shuffle(len(groups), func(i, j int) { groups[i], groups[j] = groups[j], groups[i] })
	for _, g := range groups {
		g()
	}
	fmt.Fprintf(&b, "%s /chat HTTP/1.1\r\n%s\r\n\r\n", hMethods[v[0]], strings.Join(hs, "\r\n"))
	q.raw = b.String()
	if r.Intn(8) == 0 {
		var key [4]byte
		h, bd := clientFrame(9, true, false, true, 1, []byte("x"), key)
		q.early = append(h, bd...)
	}
}

func seq(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func project18(w *sim.World, reqs []*hreq, sup []string, reject bool, mws []int, hook bool) M {
	evs := []M{}
	wire := map[int][]byte{}
	done := map[int]bool{}
	by := func(c any) *hreq {
		for _, q := range reqs {
			if q.rw.C.ID == c {
				return q
			}
		}
		return nil
	}
	for _, e := range w.Ev {
		switch e["e"] {
		case "call":
			evs = append(evs, M{"e": "call", "r": e["r"], "req": e["req"]})
		case "mw":
			evs = append(evs, M{"e": "mw", "r": e["r"], "i": e["i"]})
		case "hijack":
			evs = append(evs, M{"e": "hijack", "r": e["r"], "ok": e["ok"]})
		case "http":
			evs = append(evs, M{"e": "http", "r": e["r"], "status": e["status"]})
		case "hook":
			evs = append(evs, M{"e": "hook", "r": e["r"]})
		case "ret":
			evs = append(evs, M{"e": "ret", "r": e["r"], "ok": e["ok"], "proto": e["proto"]})
		case "rawclose":
			evs = append(evs, M{"e": "raw", "r": by(e["c"]).n})
		case "q":
			evs = append(evs, M{"e": "q", "mutex": e["mutex"]})
		case "livelock":
			evs = append(evs, M{"e": "livelock"})
		case "we":
			q := by(e["c"])
			if e["r"] != "ok" {
				if !done[q.n] {
					done[q.n] = true
					evs = append(evs, M{"e": "answerfails", "r": q.n})
				}
				continue
			}
			if done[q.n] {
				evs = append(evs, M{"e": "frame", "r": q.n})
				continue
			}
			b := append(wire[q.n], q.rw.C.Wire[e["from"].(int):e["to"].(int)]...)
			wire[q.n] = b
			k := bytes.Index(b, []byte("\r\n\r\n"))
			if k < 0 && bytes.HasPrefix(b, []byte("HTTP")) {
				continue // more to come
			}
			done[q.n] = true
			a := M{"e": "answer", "r": q.n, "status": 0, "up": false, "co": false, "accept": false, "proto": "", "ext": false}
			if resp, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(b)), &http.Request{Method: "GET"}); err == nil {
				h := sha1.Sum([]byte(q.key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
				a["status"] = resp.StatusCode
				a["up"] = strings.EqualFold(resp.Header.Get("Upgrade"), "websocket")
				a["co"] = strings.EqualFold(resp.Header.Get("Connection"), "upgrade")
				a["accept"] = resp.Header.Get("Sec-Websocket-Accept") == base64.StdEncoding.EncodeToString(h[:])
				a["proto"] = strings.Join(resp.Header.Values("Sec-Websocket-Protocol"), ",")
				a["ext"] = resp.Header.Get("Sec-Websocket-Extensions") != "" || resp.Header.Get("Content-Length") != ""
				if !bytes.HasPrefix(b, []byte("HTTP/1.1 ")) {
					a["status"] = 0
				}
			}
			evs = append(evs, a)
			if len(b) > k+4 {
				evs = append(evs, M{"e": "frame", "r": q.n})
			}
		}
	}
	return M{"cfg": M{"sup": seq(sup), "reject": reject, "mws": append([]int{}, mws...), "hook": hook}, "ev": evs}
}

var _ = io.EOF
