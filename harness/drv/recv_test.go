package drv

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"slices"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

type inFrame struct {
	Op   int    `json:"op"`
	Fin  bool   `json:"fin"`
	Rsv  bool   `json:"rsv"`
	Mask bool   `json:"mask"`
	Len  int    `json:"len"`
	Have int    `json:"have"`
	Hdr  bool   `json:"hdr"`
	U8   bool   `json:"u8"`
	Ck   string `json:"ck"`
	Code int    `json:"code"`
	Js   string `json:"js"`
	Jl   int    `json:"jl"`
	Huge bool   `json:"huge"` // the length announced has its highest bit set

	pay    []byte
	reason string
	whole  []byte // data, first frame: the whole message
	jsVal  any
	ann    uint64 // the length announced, if it isn't Len
	bytes  []byte
}

type recvGen struct {
	r     *rand.Rand
	fr    []*inFrame
	cfg   recvCfg
	mode  string
	fails bool
	plan  string
}

type recvCfg struct {
	Max     int  `json:"max"`
	MaxFrag int  `json:"maxfrag"`
	U8chk   bool `json:"u8chk"`

	rbuf, hbuf int
	early      bool
	split      int
	end        string
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func randText(r *rand.Rand, n int) []byte {
	var b []byte
	for len(b) < n {
		left := n - len(b)
		switch k := r.Intn(8); {
		case k == 0 && left >= 2:
			b = utf8.AppendRune(b, rune(0x80+r.Intn(0x700)))
		case k == 1 && left >= 3:
			b = utf8.AppendRune(b, rune(0x800+r.Intn(0x5000)))
		case k == 2 && left >= 4:
			b = utf8.AppendRune(b, rune(0x10000+r.Intn(0x5000)))
		default:
			b = append(b, byte(32+r.Intn(95)))
		}
	}
	return b
}

func randBytes(r *rand.Rand, n int) []byte { b := make([]byte, n); r.Read(b); return b }

func (g *recvGen) msgLen() int {
	r := g.r
	if g.mode == "C03" && g.cfg.Max >= 0 {
		m := g.cfg.Max
		return max(0, pick(r, m, m-1, m+1, m, m/2, m/3, 0, 1, m+2, r.Intn(m+10)))
	}
	switch r.Intn(20) {
	case 0:
		return pick(r, 65535, 65536, 65537, 70000)
	case 1, 2:
		return pick(r, 124, 125, 126, 127, 128, 129)
	case 3, 4:
		return r.Intn(600)
	case 5:
		return r.Intn(9000)
	case 6, 7:
		return 0
	default:
		return r.Intn(70)
	}
}

func (g *recvGen) add(f *inFrame) *inFrame {
	f.Hdr = true
	f.Have = f.Len
	g.fr = append(g.fr, f)
	return f
}

func (g *recvGen) control(bad bool) {
	r := g.r
	n := pick(r, 0, 1, 2, 5, 30, 124, 125)
	if g.cfg.Max >= 0 {
		n = min(n, g.cfg.Max)
	}
	f := &inFrame{Op: pick(r, 9, 9, 10), Fin: true, Mask: true, Len: n, pay: randBytes(r, n), U8: true}
	g.add(f)
}

func (g *recvGen) message(op, n, nfrag int, ctl float64) {
	r := g.r
	var whole []byte
	first := &inFrame{}
	if op == 1 {
		whole = randText(r, n)
		if (g.mode == "C01" || g.mode == "C04") && r.Intn(3) == 0 {
			g.json(&whole, n)
		}
	} else {
		whole = randBytes(r, n)
	}
	first.whole = whole
	n = len(whole)
	cuts := []int{0}
	for i := 1; i < nfrag; i++ {
		cuts = append(cuts, r.Intn(n+1))
	}
	cuts = append(cuts, n)
	sortInts(cuts)
	for i := 0; i < nfrag; i++ {
		f := first
		if i > 0 {
			f = &inFrame{}
			for r.Float64() < ctl {
				g.control(false)
			}
		}
		f.pay = whole[cuts[i]:cuts[i+1]]
		f.Op = 0
		if i == 0 {
			f.Op = op
		}
		f.Fin = i == nfrag-1
		f.Mask = true
		f.Len = len(f.pay)
		f.U8 = utf8.Valid(whole)
		g.add(f)
	}
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// json makes the message JSON: a value, or a value with something after it, or something that isn't JSON.
func (g *recvGen) json(whole *[]byte, n int) {
	r := g.r
	b, _ := json.Marshal(map[string]any{"k": string(randText(r, n)), "n": float64(r.Intn(1000))})
	switch r.Intn(4) {
	case 2: // trailing data
		b = append(b, pick(r, " ", "\n", "xyz", "{\"a\":1}", strings.Repeat(" ", 700), strings.Repeat("q", 1500))...)
	case 3:
		b = pick(r, []byte("{"), []byte("}x"), b[:len(b)-1], append([]byte("nope"), b...), append([]byte{'{', '1'}, b...))
	}
	*whole = b
}

// violation appends something forbidden.
func (g *recvGen) violation(inMsg bool) {
	r := g.r
	d := func(op int, fin bool, n int) *inFrame {
		if g.cfg.Max >= 0 {
			n = min(n, g.cfg.Max)
		}
		p := randText(r, n)
		return &inFrame{Op: op, Fin: fin, Mask: true, Len: n, pay: p, whole: p, U8: true}
	}
	n := pick(r, 0, 1, 10, 125, 126, 200)
	closeF := func(ck string, code int, reason string, pay []byte) *inFrame {
		if ck == "ok" || ck == "code" || ck == "utf" {
			pay = append(binary.BigEndian.AppendUint16(nil, uint16(code)), reason...)
		}
		return &inFrame{Op: 8, Fin: true, Mask: true, Len: len(pay), pay: pay, Ck: ck, Code: code, reason: reason, U8: true}
	}
	switch k := r.Intn(16); k {
	case 15:
		f := d(pick(r, 1, 2, 0), r.Intn(2) == 0, pick(r, 2, 100))
		if inMsg {
			f.Op = 0
		}
		f.Huge = true
		g.add(f)
	case 0:
		g.add(d(pick(r, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15), r.Intn(2) == 0, n))
	case 1:
		f := d(pick(r, 0, 1, 2, 9, 10, 8), true, pick(r, 0, 1, 10))
		if f.Op == 8 {
			f = closeF("ok", 1000, "", nil)
		}
		f.Rsv = true
		g.add(f)
	case 2:
		f := d(pick(r, 0, 1, 2, 9, 10, 8), true, pick(r, 0, 1, 10))
		if f.Op == 8 {
			f = closeF("ok", 1000, "", nil)
		}
		f.Mask = false
		g.add(f)
	case 3: // fragmented control
		g.add(d(pick(r, 9, 10), false, pick(r, 0, 1, 10)))
	case 4: // over-long control
		f := d(pick(r, 9, 10), true, 1)
		m := pick(r, 126, 127, 200, 70000)
		f.Len, f.pay = m, randBytes(r, m)
		g.add(f)
	case 5, 6:
		if inMsg {
			g.add(d(pick(r, 1, 2), r.Intn(2) == 0, n))
		} else {
			g.add(d(0, r.Intn(2) == 0, n))
		}
	case 7:
		g.add(closeF("one", 0, "", []byte{3}))
	case 8:
		g.add(closeF("code", pick(r, 0, 1, 999, 1004, 1005, 1006, 1012, 1013, 1014, 1015, 1016, 1099, 2000, 2999, 5000, 65535), pick(r, "", "bye"), nil))
	case 9:
		g.add(closeF("utf", pick(r, 1000, 3000), pick(r, "\xff", "ab\xc3", "\xed\xa0\x80"), nil))
	case 10:
		g.add(closeF("empty", 1000, "", nil))
	case 11, 12:
		g.add(closeF("ok", pick(r, 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 3000, 3999, 4000, 4999),
			pick(r, "", "x", "bye bye", "grüße", strings.Repeat("r", 123)), nil))
	case 13, 14: // invalid UTF-8 text message
		if inMsg {
			g.add(d(1, true, n))
			return
		}
		b := append(randText(r, pick(r, r.Intn(20), r.Intn(20), r.Intn(20), 130, 600, 1000+r.Intn(4000), 66000)), pick(r, "\xff", "\xc0\xaf", "\xe2\x82", "\xf8\x88\x80\x80\x80", "\xed\xa0\x80")...)
		b = append(b, randText(r, pick(r, r.Intn(5), r.Intn(5), r.Intn(5), 200, 3000))...)
		if utf8.Valid(b) {
			b = append(b, 0xff)
		}
		cuts := []int{0, len(b)}
		for i := pick(r, 0, 0, 1, 1, 1, 2, 3); i > 0; i-- {
			cuts = append(cuts, r.Intn(len(b)+1))
		}
		slices.Sort(cuts)
		for i := range cuts[1:] {
			f := &inFrame{Op: 0, Fin: i == len(cuts)-2, Mask: true, pay: b[cuts[i]:cuts[i+1]], Len: cuts[i+1] - cuts[i]}
			if i == 0 {
				f.Op, f.whole = 1, b
			}
			g.add(f)
		}
	}
}

func (g *recvGen) generate() {
	r := g.r
	c := &g.cfg
	c.Max, c.MaxFrag, c.U8chk = 1<<20, 0, true
	c.rbuf = pick(r, 0, 0, 0, 1, 13, 14, 16, 64, 125, 126, 128, 200, 4096, 5000)
	c.hbuf = pick(r, 4096, 4096, 512, 128, 64, 16)
	c.early = r.Intn(4) == 0
	c.split = r.Intn(5)
	c.end = pick(r, "eof", "err", "stall")
	nm := 1 + r.Intn(5)
	frag := func() int { return pick(r, 1, 1, 2, 3, 1+r.Intn(8)) }
	ctl := pick(r, 0, 0.3)
	switch g.mode {
	case "C01":
		c.Max = pick(r, 1<<20, -1, 1<<20)
		c.U8chk = r.Intn(3) > 0
		for i := 0; i < nm; i++ {
			g.message(pick(r, 1, 2), g.msgLen(), frag(), ctl)
			for r.Float64() < ctl {
				g.control(false)
			}
		}
	case "C02":
		c.U8chk = r.Intn(4) > 0
		if r.Intn(8) == 0 {
			c.Max = 300
		}
		lim := func(n int) int {
			if c.Max >= 0 {
				n = min(n, c.Max)
			}
			return n
		}
		nm = r.Intn(3)
		for i := 0; i < nm; i++ {
			g.message(pick(r, 1, 2), lim(pick(r, 0, 3, 40, 130)), frag(), ctl)
		}
		in := r.Intn(2) == 0
		if in { // an unfinished message
			k := len(g.fr)
			g.message(pick(r, 1, 2), lim(pick(r, 0, 3, 40, 130)), 2+r.Intn(3), ctl)
			// drop its last frames
			drop := 1 + r.Intn(len(g.fr)-k-1)
			for drop > 0 && len(g.fr) > k+1 {
				g.fr = g.fr[:len(g.fr)-1]
				drop--
			}
			for len(g.fr) > k+1 && g.fr[len(g.fr)-1].Fin && g.fr[len(g.fr)-1].Op < 8 {
				g.fr = g.fr[:len(g.fr)-1]
			}
		}
		g.violation(in)
		for i := 0; i < r.Intn(3); i++ {
			g.message(pick(r, 1, 2), pick(r, 0, 5, 100), frag(), ctl)
		}
	case "C03":
		c.Max = pick(r, -1, 1, 2, 10, 125, 126, 127, 200, 1000, 70000, 1<<20)
		c.MaxFrag = pick(r, 0, 1, 2, 3, 5)
		if c.Max < 0 && c.MaxFrag == 0 && r.Intn(2) == 0 {
			c.Max = 100
		}
		for i := 0; i < nm; i++ {
			nf := frag()
			if c.MaxFrag > 0 {
				nf = max(1, c.MaxFrag+r.Intn(4)-2)
				if r.Intn(3) > 0 {
					nf = min(nf, c.MaxFrag)
				}
			}
			n := 0
			if c.Max >= 0 {
				n = g.msgLen()
				if r.Intn(3) > 0 {
					n = min(n, c.Max)
				}
				if c.Max == 1<<20 {
					if c.split = 0; i > 0 || r.Intn(4) > 0 {
						n = min(n, 300)
					}
				}
			} else {
				n = pick(r, 0, 10, 2000, 1<<20+5)
			}
			g.message(2, n, nf, ctl/2)
		}
		if c.Max >= 0 && r.Intn(4) == 0 { // announces more than the limit, the payload never comes
			f := &inFrame{Op: 2, Fin: true, Mask: true, Len: c.Max + 1 + r.Intn(100000)}
			g.add(f)
			f.Have = 0
			g.far(f)
		} else if c.Max < 0 && r.Intn(4) == 0 { // as much as can be announced, and little of it comes
			f := &inFrame{Op: 2, Fin: true, Mask: true, pay: randBytes(r, pick(r, 0, 1, 40))}
			g.add(f)
			f.Have = len(f.pay)
			for f.ann == 0 {
				g.far(f)
			}
		}
	case "C04":
		nm = 2 + r.Intn(5)
		if r.Intn(6) == 0 {
			c.Max = 3000
		}
		for i := 0; i < nm; i++ {
			n := g.msgLen()
			if c.Max < 1<<20 {
				n = min(n, 1000)
			}
			g.message(pick(r, 1, 1, 2), n, frag(), ctl)
		}
	}
	// cut the stream short
	if len(g.fr) > 0 && g.mode != "C02" && (g.fails && r.Intn(5) > 0 || r.Intn(6) == 0) {
		f := g.fr[len(g.fr)-1]
		if f.Have > 0 && r.Intn(2) == 0 {
			f.Have = r.Intn(f.Have)
		} else if f.Have == f.Len {
			f.Hdr = false
			f.Have = 0
		}
	}
	g.finish()
}

// far makes the frame announce a length beyond 2^30, sometimes.
func (g *recvGen) far(f *inFrame) {
	if g.r.Intn(2) == 0 {
		f.Len, f.ann = 1<<30, pick[uint64](g.r, 1<<31, 1<<32, 1<<32+1, 1<<40, 1<<62, 1<<63-1)
	}
}

// finish derives the bytes of the frames and what their messages hold.
func (g *recvGen) finish() {
	for _, f := range g.fr {
		var key [4]byte
		g.r.Read(key[:])
		h, b := clientFrame(f.Op, f.Fin, f.Rsv, f.Mask, f.Len, f.pay, key)
		if f.Huge {
			f.ann = pick(g.r, 1<<63, 1<<63+2, 1<<64-1, 1<<63+uint64(f.Have))
		}
		if f.ann > 0 {
			b0, key := h[0], h[len(h)-4:]
			h = binary.BigEndian.AppendUint64([]byte{b0, 0x80 | 127}, f.ann)
			h = append(h, key...)
		}
		if !f.Hdr {
			h = h[:g.r.Intn(len(h))]
			b = nil
		} else {
			b = b[:min(f.Have, len(b))]
		}
		f.bytes = append(h, b...)
	}
	// whole of a message without "whole" (unfinished ones): what its frames carry
	for i, f := range g.fr {
		if f.Op == 1 || f.Op == 2 {
			w := append([]byte(nil), f.pay...)
			for _, x := range g.fr[i+1:] {
				if x.Op == 0 {
					w = append(w, x.pay...)
					if x.Fin {
						break
					}
				} else if x.Op < 8 {
					break
				}
			}
			if f.Fin {
				w = append([]byte(nil), f.pay...)
			}
			f.whole = w
			f.U8 = utf8.Valid(w)
			f.Js, f.Jl, f.jsVal = "bad", 0, nil
			d := json.NewDecoder(bytes.NewReader(w))
			if err := d.Decode(&f.jsVal); f.Op == 1 && err == nil {
				f.Js, f.Jl = "ok", int(d.InputOffset())
			}
		}
	}
}

// The sequences TLC's RecvEnum printed (VH_ENUM): one a line, "max maxfrag letters". Each is replayed with every plan
// of the application.
var enumOnce sync.Once
var enumSeqs []string

// readEnum reads what a generator specification enumerated, a line per sequence.
func readEnum() {
	enumOnce.Do(func() {
		b, err := os.ReadFile(os.Getenv("VH_ENUM"))
		if err != nil {
			panic(err)
		}
		enumSeqs = strings.Split(strings.TrimSpace(string(b)), "\n")
	})
}

var enumPlans = []string{"msg", "next1", "next0", "bin", "json", "nextall", "part"}

func (g *recvGen) enumerated(i int) bool {
	readEnum()
	if i >= len(enumSeqs)*len(enumPlans) {
		return false
	}
	l := strings.Fields(enumSeqs[i/len(enumPlans)])
	g.plan = enumPlans[i%len(enumPlans)]
	c := &g.cfg
	c.U8chk = true
	fmt.Sscan(l[0], &c.Max)
	fmt.Sscan(l[1], &c.MaxFrag)
	c.rbuf = pick(g.r, 0, 13, 200)
	c.hbuf = 512
	c.early = g.r.Intn(3) == 0
	c.split = g.r.Intn(3)
	c.end = pick(g.r, "eof", "err", "stall")
	ctl := func(op, n int) *inFrame {
		return &inFrame{Op: op, Fin: true, Mask: true, Len: n, Have: n, pay: randBytes(g.r, n), Hdr: true}
	}
	for _, x := range l[2] {
		f := &inFrame{Op: 1, Fin: true, Mask: true, Len: 2, Have: 2, Hdr: true, pay: []byte{'a' + byte(g.r.Intn(26)), 'a' + byte(g.r.Intn(26))}}
		empty := func() { f.Len, f.Have, f.pay = 0, 0, nil }
		cl := func(ck string, code int, pay string) {
			f = ctl(8, len(pay))
			f.Ck, f.Code, f.pay = ck, code, []byte(pay)
			if len(pay) > 2 {
				f.reason = pay[2:]
			}
		}
		switch x {
		case 'T':
		case 't':
			f.Fin = false
		case 'J':
			f.pay = pick(g.r, []byte("{}"), []byte("[]"), []byte("17"))
		case 'B':
			f.Op = 2
		case 'b':
			f.Op, f.Fin = 2, false
		case 'E':
			empty()
		case 'e':
			empty()
			f.Fin = false
		case 'G':
			f.Op, f.Len, f.Have, f.pay = 2, 5, 5, []byte("bigly")
		case 'C':
			f.Op = 0
		case 'c':
			f.Op, f.Fin = 0, false
		case 'd':
			empty()
			f.Op, f.Fin = 0, false
		case 'i':
			f = ctl(9, 2)
		case 'I':
			f = ctl(9, 0)
		case 'o':
			f = ctl(10, 2)
		case 'X':
			f.Op = 3
		case 'Y':
			f = ctl(11, 2)
		case 'R':
			f.Rsv = true
		case 'U':
			f.Mask = false
		case 'u':
			f = ctl(9, 2)
			f.Mask = false
		case 'F':
			f = ctl(9, 2)
			f.Fin = false
		case 'L':
			f = ctl(9, 126)
		case 'K':
			cl("ok", 1001, "\x03\xe9bye")
		case 'k':
			cl("empty", 1000, "")
		case '1':
			cl("one", 0, "x")
		case 'Z':
			cl("code", 1005, "\x03\xed")
		case 'W':
			cl("utf", 1000, "\x03\xe8\xff")
		case 'V':
			f.pay[1] = 0xff
		case 'H':
			f.Hdr, f.Have = false, 0
		case 'P':
			f.Op, f.Have = 2, 1
		case 'p':
			f = ctl(9, 2)
			f.Have = 1
		case 'M':
			f.Op, f.Huge = pick(g.r, 1, 2), true
		case 'm':
			f.Op, f.Huge = 0, true
		default:
			panic("letter " + string(x))
		}
		g.fr = append(g.fr, f)
	}
	g.finish()
	return true
}

func recvScenario(i int, seed int64, mode string) ([]M, bool) {
	r := rand.New(rand.NewSource(seed))
	w := sim.NewWorld(seed)
	defer w.Stop()
	g := &recvGen{r: r, mode: mode}
	if mode == "C09" { // the network fails
		g.mode, g.fails = pick(r, "C01", "C01", "C03", "C04"), true
	}
	if mode == "enum" {
		if !g.enumerated(i) {
			return nil, true
		}
	} else {
		g.generate()
	}
	c := g.cfg
	var stream []byte
	var bounds []int
	for _, f := range g.fr {
		stream = append(stream, f.bytes...)
		bounds = append(bounds, len(stream))
	}

	opt := &snapws.Options{MaxMessageSize: c.Max, ReaderMaxFragments: c.MaxFrag, SkipUTF8Validation: !c.U8chk,
		ReadBufferSize: c.rbuf, PingEvery: 1000 * time.Hour, ReadWait: time.Minute}
	byDefault(r, opt)
	u := snapws.NewUpgrader(opt)
	rw := w.NewRW()
	rw.RBuf = c.hbuf
	fc := rw.C
	rest := stream
	if c.early {
		k := min(len(stream), 1+r.Intn(c.hbuf))
		rw.Early, rest = stream[:k], stream[k:]
	}
	conn, err := u.Upgrade(rw, sim.GoodReq())
	if err != nil {
		return []M{{"fr": g.fr, "cfg": c, "ev": []M{{"e": "upgradefailed", "msg": err.Error()}}}}, true
	}
	base := len(fc.Wire)
	w.Ev = nil
	// segmentation
	for len(rest) > 0 {
		k := len(rest)
		switch c.split {
		case 1:
			if len(rest) < 3000 {
				k = 1
			} else {
				k = 1 + r.Intn(500)
			}
		case 2:
			k = 1 + r.Intn(min(len(rest), 20))
			if len(rest) > 5000 {
				k = 1 + r.Intn(5000)
			}
		case 3:
			k = 1 + r.Intn(min(len(rest), 3000))
		}
		fc.Feed(rest[:k])
		rest = rest[k:]
	}
	switch c.end {
	case "eof":
		fc.FeedErr(io.EOF)
	case "err":
		fc.FeedErr(errors.New("connection reset"))
	}

	done := make(chan struct{})
	go func() { defer close(done); g.read(w, conn, r) }()
	ok := w.Quiesce("")
	for k := 0; k < 3 && ok && len(w.Pending()) > 0; k++ {
		w.Advance(61 * time.Second)
		ok = w.Quiesce("")
	}
	stuck := len(w.Pending()) > 0
	evs := g.project(w, fc, base)
	if stuck {
		evs = append(evs, M{"e": "stuck"})
	} else {
		evs = append(evs, M{"e": "end"})
	}
	tr := []M{{"fr": g.fr, "cfg": c, "ev": evs}}
	if !ok {
		return tr, false
	}
	fc.Close()
	fc.FeedErr(io.EOF)
	conn.Close()
	w.Run()
	return tr, len(w.Pending()) == 0
}

// read is the application: it calls read operations until a fatal error (and once more), at most 40 times.
func (g *recvGen) read(w *sim.World, conn *snapws.Conn, r *rand.Rand) {
	fatal := 0
	do := func(k string, n int, f func() M) M {
		e := M{"k": k}
		res := w.Call(e, func() M {
			x := f()
			x["k"] = k
			return x
		})
		if res["r"] == "fatal" || res["r"] == "panic" {
			fatal++
		}
		return res
	}
	fail := func(err error) M {
		if snapws.IsFatalErr(err) {
			return M{"r": "fatal"}
		}
		if errors.Is(err, snapws.ErrMessageTypeMismatch) {
			return M{"r": "mismatch"}
		}
		return M{"r": "error", "msg": err.Error()}
	}
	match := func(data []byte, off int) []int {
		c := []int{}
		for i, f := range g.fr {
			if (f.Op == 1 || f.Op == 2) && off+len(data) <= len(f.whole) && bytes.Equal(f.whole[off:off+len(data)], data) {
				c = append(c, i+1)
			}
		}
		return c
	}
	whole := func(op int, data []byte, err error) M {
		if err != nil {
			return fail(err)
		}
		c := []int{}
		for _, i := range match(data, 0) {
			if len(g.fr[i-1].whole) == len(data) {
				c = append(c, i)
			}
		}
		return M{"r": "msg", "op": op, "cand": c}
	}
	for calls := 0; calls < 40 && fatal < 2; calls++ {
		var k string
		switch g.mode {
		case "C04":
			k = pick(r, "msg", "bin", "str", "json", "json", "next", "next", "next")
		case "C01":
			k = pick(r, "msg", "msg", "bin", "str", "json", "next", "next")
		default:
			k = pick(r, "msg", "msg", "bin", "str", "next", "next")
		}
		switch g.plan {
		case "msg", "bin", "json":
			k = g.plan
		case "next1", "next0", "nextall", "part":
			k = "next"
		}
		if fatal > 0 { // also with other calls: whatever was left of the last message must not appear
			k = pick(r, "msg", "next", "json", "str", "bin")
		}
		switch k {
		case "msg":
			do(k, 0, func() M { op, d, err := conn.ReadMessage(); return whole(int(op), d, err) })
		case "bin":
			do(k, 0, func() M { d, err := conn.ReadBinary(); return whole(2, d, err) })
		case "str":
			do(k, 0, func() M { d, err := conn.ReadString(); return whole(1, d, err) })
		case "json":
			do(k, 0, func() M {
				var v any
				err := conn.ReadJSON(&v)
				if err == nil {
					c := []int{}
					for i, f := range g.fr {
						if (f.Op == 1) && f.Js == "ok" && fmt.Sprint(f.jsVal) == fmt.Sprint(v) {
							c = append(c, i+1)
						}
					}
					return M{"r": "json", "ok": true, "cand": c}
				}
				if x := fail(err); x["r"] != "error" {
					return x
				}
				return M{"r": "json", "ok": false, "cand": []int{}}
			})
		case "next":
			var rd io.Reader
			x := do(k, 0, func() M {
				h, op, err := conn.NextReader()
				rd = h
				if err != nil {
					return fail(err)
				}
				return M{"r": "next", "op": int(op)}
			})
			if x["r"] != "next" {
				continue
			}
			off, zero := 0, 0
			limit := 1 << 30
			if g.mode == "C04" && r.Intn(4) > 0 {
				limit = pick(r, 0, 0, 1, 2, 3, 10, 100, 1000)
			}
			size := pick(r, 1, 2, 3, 5, 16, 100, 125, 512, 4096, 100000)
			switch g.plan {
			case "next1":
				size = 1
			case "next0":
				limit = 0
			case "nextall":
				size = 512
			case "part":
				size, limit = 1, 1+r.Intn(3)
			}
			for reads := 0; reads < limit; reads++ {
				n := size
				if g.plan == "" && reads > 40 {
					n = max(n, 300)
				} else if g.plan == "" && r.Intn(5) == 0 {
					n = pick(r, 0, 1, 7, 50, 1000)
				}
				x := do("read", n, func() M {
					p := make([]byte, n)
					got, err := rd.Read(p)
					if got < 0 || got > n {
						return M{"r": "badcount", "got": got}
					}
					if err != nil && err != io.EOF {
						return fail(err)
					}
					return M{"r": "read", "n": n, "got": got, "eof": err == io.EOF, "cand": match(p[:got], off)}
				})
				if x["r"] != "read" {
					break
				}
				got := x["got"].(int)
				off += got
				if x["eof"].(bool) {
					break
				}
				if got == 0 && n > 0 {
					if zero++; zero > len(g.fr)+20 {
						w.Log(M{"e": "spin"})
						return
					}
				}
			}
		}
	}
}

func (g *recvGen) project(w *sim.World, fc *sim.FConn, base int) []M {
	evs := []M{}
	frames := parseWire(fc.Wire[base:])
	fi := 0
	for _, e := range w.Ev {
		switch e["e"] {
		case "call":
			evs = append(evs, M{"e": "call", "k": e["k"]})
		case "ret", "spin":
			evs = append(evs, e)
		case "rawclose":
			evs = append(evs, M{"e": "raw"})
		case "we":
			to := e["to"].(int) - base
			for fi < len(frames) && frames[fi].To <= to {
				f := frames[fi]
				fi++
				if f.Bad != "" || f.Rsv || !f.Fin || f.Op < 8 {
					evs = append(evs, M{"e": "badout", "why": f.Bad})
					continue
				}
				switch f.Op {
				case 10:
					c := []int{}
					for i, x := range g.fr {
						if x.Op == 9 && bytes.Equal(x.pay, f.Payload) {
							c = append(c, i+1)
						}
					}
					evs = append(evs, M{"e": "pong", "cand": c})
				case 8:
					code, echo := 0, false
					if len(f.Payload) >= 2 {
						code = int(binary.BigEndian.Uint16(f.Payload))
						for _, x := range g.fr {
							if x.Op == 8 && x.Ck == "ok" && x.reason == string(f.Payload[2:]) && x.Code == code {
								echo = true
							}
						}
					}
					evs = append(evs, M{"e": "close", "code": code, "echo": echo})
				default:
					evs = append(evs, M{"e": "badout", "why": "op"})
				}
			}
		}
	}
	for _, e := range evs {
		delete(e, "t")
		delete(e, "id")
		delete(e, "msg")
	}
	return evs
}
