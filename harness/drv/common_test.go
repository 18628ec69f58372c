package drv

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	snapws "github.com/Atheer-Ganayem/SnapWS"

	"verifharness/sim"
)

type M = map[string]any

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// drive runs scenarios VH_FROM.. (every VH_STEP-th, below VH_TO), each in its own bubble, and writes the traces f
// returns to VH_OUT, one JSON line each. VH_PROG holds the scenario being run, for the case of a crash.
// It exits with 10 if a scenario left the process unusable (deadlock); the caller continues with the next one.
func drive(t *testing.T, f func(i int, seed int64, mode string) (traces []M, ok bool)) {
	runtime.GOMAXPROCS(1)
	from, to, step := envInt("VH_FROM", 0), envInt("VH_TO", 10), envInt("VH_STEP", 1)
	seed := int64(envInt("VH_SEED", 1))
	mode := os.Getenv("VH_MODE")
	budget := time.Duration(envInt("VH_SECONDS", 3600)) * time.Second
	out, err := os.OpenFile(os.Getenv("VH_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	bw := bufio.NewWriterSize(out, 1<<20)
	prog := os.Getenv("VH_PROG")
	began := time.Now()
	beat := make(chan int, 1)
	go watchdog(beat)
	n := 0
	for i := from; i < to; i += step {
		if time.Since(began) > budget {
			break
		}
		if prog != "" {
			os.WriteFile(prog, []byte(strconv.Itoa(i)), 0o644)
		}
		bw.Flush() // a crash loses nothing
		select {
		case beat <- i:
		default:
		}
		var tr []M
		ok := true
		func() {
			defer func() {
				if x := recover(); x != nil {
					fmt.Fprintln(os.Stderr, "BUBBLE PANIC:", x)
					ok = false
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				tr, ok = f(i, seed*1_000_003+int64(i)*7919, mode)
				for _, x := range tr {
					x["id"] = i
					b, err := json.Marshal(x)
					if err != nil {
						panic(err)
					}
					bw.Write(b)
					bw.WriteByte('\n')
				}
				if !ok { // the bubble can't end
					bw.Flush()
					fmt.Printf("ABANDONED %d\n", i)
					os.Exit(10)
				}
			})
		}()
		if !ok {
			bw.Flush()
			fmt.Printf("ABANDONED %d\n", i)
			os.Exit(10)
		}
		n++
	}
	bw.Flush()
	fmt.Printf("DONE %d\n", n)
}

// watchdog ends the process if one scenario takes longer than 20 s of real time.
func watchdog(beat chan int) {
	last := 0
	for {
		select {
		case last = <-beat:
		case <-time.After(20 * time.Second):
			select {
			case last = <-beat:
				continue
			default:
			}
			fmt.Fprintf(os.Stderr, "HANG in scenario %d\n", last)
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(11)
		}
	}
}

// Frame of the server on the wire.
type OFrame struct {
	Op       int
	Fin, Rsv bool
	Payload  []byte
	From, To int // positions in the wire
	Bad      string
}

// parseWire splits server output into frames. A frame that is cut short at the end has Bad = "cut".
func parseWire(b []byte) []OFrame {
	var r []OFrame
	i := 0
	for i < len(b) {
		f := OFrame{From: i}
		cut := func() []OFrame { f.Bad = "cut"; f.To = len(b); return append(r, f) }
		if len(b)-i < 2 {
			return cut()
		}
		f.Fin = b[i]&0x80 != 0
		f.Rsv = b[i]&0x70 != 0
		f.Op = int(b[i] & 15)
		masked := b[i+1]&0x80 != 0
		n := int(b[i+1] & 127)
		p := i + 2
		switch n {
		case 126:
			if len(b)-p < 2 {
				return cut()
			}
			n = int(binary.BigEndian.Uint16(b[p:]))
			if n < 126 {
				f.Bad = "len16"
			}
			p += 2
		case 127:
			if len(b)-p < 8 {
				return cut()
			}
			x := binary.BigEndian.Uint64(b[p:])
			if x > 1<<40 {
				f.Bad = "len64"
				f.To = len(b)
				return append(r, f)
			}
			n = int(x)
			if n < 65536 {
				f.Bad = "len64"
			}
			p += 8
		}
		if masked {
			f.Bad = "masked"
			p += 4
		}
		if len(b) < p+n {
			if p > len(b) {
				p = len(b)
			}
			f.Payload = b[p:]
			f.Bad = "cut"
			f.To = len(b)
			return append(r, f)
		}
		f.Payload = b[p : p+n]
		f.To = p + n
		r = append(r, f)
		i = f.To
	}
	return r
}

// clientFrame encodes a masked client frame.
func clientFrame(op int, fin, rsv, masked bool, announce int, payload []byte, key [4]byte) (hdr, body []byte) {
	b0 := byte(op)
	if fin {
		b0 |= 0x80
	}
	if rsv {
		b0 |= 0x40
	}
	mb := byte(0)
	if masked {
		mb = 0x80
	}
	hdr = append(hdr, b0)
	switch {
	case announce < 126:
		hdr = append(hdr, mb|byte(announce))
	case announce < 65536:
		hdr = append(hdr, mb|126)
		hdr = binary.BigEndian.AppendUint16(hdr, uint16(announce))
	default:
		hdr = append(hdr, mb|127)
		hdr = binary.BigEndian.AppendUint64(hdr, uint64(announce))
	}
	body = append([]byte(nil), payload...)
	if masked {
		hdr = append(hdr, key[:]...)
		for i := range body {
			body[i] ^= key[i%4]
		}
	}
	return
}

func TestDriver(t *testing.T) {
	switch f := os.Getenv("VH_FAM"); f {
	case "recv":
		drive(t, recvScenario)
	case "batch":
		drive(t, batchScenario)
	case "keep":
		drive(t, keepScenario)
	case "hand":
		drive(t, handScenario)
	case "life":
		drive(t, lifeScenario)
	case "rate":
		drive(t, rateScenario)
	case "hub":
		drive(t, hubScenario)
	case "wire":
		drive(t, wireScenario)
	case "":
		t.Skip("no VH_FAM")
	default:
		t.Fatal("unknown family " + f)
	}
}

// byDefault leaves what has its default value to the library.
func byDefault(r *rand.Rand, o *snapws.Options) {
	d := func(is bool) bool { return is && r.Intn(2) == 0 }
	if d(o.WriteWait == 5*time.Second) {
		o.WriteWait = 0
	}
	if d(o.ReadWait == time.Minute) {
		o.ReadWait = 0
	}
	if d(o.PingEvery == 50*time.Second) {
		o.PingEvery = 0
	}
	if d(o.MaxMessageSize == 1<<20) {
		o.MaxMessageSize = 0
	}
	if d(o.MaxBatchSize == 1<<20) {
		o.MaxBatchSize = 0
	}
	if d(o.BroadcastChannelsSize == 8) {
		o.BroadcastChannelsSize = 0
	}
}

var _ = sim.Goid
