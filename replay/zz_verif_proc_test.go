package ustack_test

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"testing"
	"time"
	"ustack"
)

type vObj struct {
	A int
	S string
	B []byte
}

func verifAll() map[string]func() ustack.DataProcessor {
	yes := func(ustack.Context, bool) bool { return true }
	no := func(ustack.Context, bool) bool { return false }
	return map[string]func() ustack.DataProcessor{
		"echo": ustack.NewEcho, "loopback": ustack.NewLoopback, "discarder": ustack.NewDiscarder,
		"flow": ustack.NewFlowController, "session": ustack.NewSessionResolver, "balancer": ustack.NewLoadBalancer,
		"heartbeat": ustack.NewHeartbeat, "stat": ustack.NewStatCounter, "frame": ustack.NewFrameDecoder,
		"bytes": ustack.NewBytesCodec, "string": ustack.NewStringCodec,
		"json": func() ustack.DataProcessor { return ustack.NewJSONCodec(reflect.TypeOf(vObj{})) },
		"gob":  func() ustack.DataProcessor { return ustack.NewGOBCodec(reflect.TypeOf(vObj{})) },
		"generic": func() ustack.DataProcessor {
			return ustack.NewGenericCodec(nil, func(m interface{}, w io.Writer) error { _, e := w.Write([]byte("x")); return e },
				func(r io.Reader) (interface{}, error) {
					b := make([]byte, 4)
					n, e := r.Read(b)
					return b[:n], e
				})
		},
		"filter":  func() ustack.DataProcessor { return ustack.NewFilter(yes) },
		"forward": func() ustack.DataProcessor { return ustack.NewForwarder(no) },
	}
}

var verifHeader = map[string]int{"session": 4, "balancer": 1, "heartbeat": 1, "stat": 1, "frame": 4}

func TestVerifC06(t *testing.T) {
	defer verifQuiet()()
	verifLoop(t, 12*time.Second, 4000, func(r *rand.Rand) {
		capacity, most := 4+r.Intn(40), 6
		switch r.Intn(8) {
		case 0:
			capacity = 200 + r.Intn(3000)
		case 1:
			most = 60
		}
		dp := ustack.NewFrameDecoder()
		dp.SetOption("CacheCapacity", capacity)
		g := newRig(dp, 64, 0)
		nconn := 1 + r.Intn(3)
		conns := make([]*vConn, nconn)
		want := make([][][]byte, nconn)
		stream := make([][]byte, nconn)
		for i := range conns {
			conns[i] = &vConn{name: fmt.Sprint("c", i)}
			for k := r.Intn(most); k > 0; k-- {
				n := r.Intn(capacity - 3)
				switch r.Intn(4) {
				case 0:
					n = capacity - 4
				case 1:
					n = 0
				case 2:
					if n > 12 {
						n = r.Intn(12)
					}
				}
				p := verifBytes(r, n)
				want[i] = append(want[i], p)
				stream[i] = append(stream[i], byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
				stream[i] = append(stream[i], p...)
			}
			if r.Intn(2) == 0 { // an incomplete tail
				n := 1 + r.Intn(capacity-3)
				if n > capacity-4 {
					n = capacity - 4
				}
				if n >= 1 {
					b := append([]byte{0, 0, byte(n >> 8), byte(n)}, verifBytes(r, n)...)
					stream[i] = append(stream[i], b[:r.Intn(len(b))]...)
				}
			}
		}
		got := make([][][]byte, nconn)
		g.up.on = func(m vMsg) {
			for i := range conns {
				if m.conn == ustack.TransportConnection(conns[i]) {
					got[i] = append(got[i], m.buf)
				}
			}
			switch r.Intn(3) { // consumers use the buffer
			case 0:
				m.ub.Read(make([]byte, 100))
			case 1:
				m.ub.WriteHeadU32BE(77)
			}
		}
		for {
			left := false
			for i := range conns {
				if len(stream[i]) > 0 {
					left = true
				}
			}
			if !left {
				break
			}
			if r.Intn(6) == 0 { // events about something else
				other := &vConn{name: conns[0].name}
				g.dp.OnEvent(ustack.Event{Type: ustack.UStackEventConnectionClosed, Source: g.st, Data: other})
				g.dp.OnEvent(ustack.Event{Type: ustack.UStackEventNewConnection, Source: g.st, Data: conns[0]})
				g.dp.OnEvent(ustack.Event{Type: ustack.UStackEventHeartbeatLost, Source: g.st, Data: conns[0]})
			}
			i := r.Intn(nconn)
			n := r.Intn(len(stream[i]) + 1)
			if r.Intn(2) == 0 && n > 7 {
				n = r.Intn(7)
			}
			chunk := stream[i][:n]
			stream[i] = stream[i][n:]
			c, _ := g.msg(r, conns[i], r.Intn(3), chunk, r.Intn(3))
			if !verifNoPanic(t, fmt.Sprintf("capacity %d chunk %x", capacity, chunk), func() { g.dp.OnLowerData(c) }) {
				return
			}
		}
		for i := range conns {
			if len(got[i]) != len(want[i]) {
				t.Errorf("capacity %d, connection %d: %d frames passed up, want %d", capacity, i, len(got[i]), len(want[i]))
				return
			}
			for j := range want[i] {
				if !bytes.Equal(got[i][j], want[i][j]) {
					t.Errorf("capacity %d, connection %d frame %d: got %x want %x", capacity, i, j, got[i][j], want[i][j])
					return
				}
			}
		}
	})
}

func TestVerifC07(t *testing.T) {
	all := verifAll()
	tags := []byte{0, 0x10, 0x23, 0x83, 0x19, 0x82, 0x11, 0x08, 0xff, 0x7f, 0x80}
	hb := 0
	verifLoop(t, 15*time.Second, 20000, func(r *rand.Rand) {
		for name, mk := range all {
			if name == "heartbeat" {
				if hb++; hb > 300 {
					continue
				}
			}
			dp := mk()
			if name == "frame" {
				dp.SetOption("CacheCapacity", 1+r.Intn(40))
			}
			dp.SetEnable(r.Intn(4) > 0)
			extra, mtu := r.Intn(8), 20+r.Intn(60)
			g := newRig(dp, mtu, extra)
			enabled := true
			if r.Intn(4) == 0 {
				dp.SetEnable(false)
				enabled = false
			} else {
				dp.SetEnable(true)
			}
			g.up.on = func(m vMsg) {
				if m.ub != nil && r.Intn(2) == 0 {
					m.ub.Read(make([]byte, r.Intn(9)))
					m.ub.WriteHeadByte(1)
				}
			}
			conn := &vConn{name: "c"}
			other := &vConn{name: "d"}
			for k := 0; k < 6; k++ {
				p := verifBytes(r, r.Intn(3)*r.Intn(15))
				if len(p) > 0 && r.Intn(2) == 0 {
					p[0] = tags[r.Intn(len(tags))]
				}
				if len(p) >= 4 && r.Intn(3) == 0 {
					v := []uint32{0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffc, uint32(r.Intn(50)), uint32(len(p))}[r.Intn(8)]
					binary.BigEndian.PutUint32(p, v)
				}
				cn := conn
				if r.Intn(3) == 0 {
					cn = other
				}
				c, _ := g.msg(r, cn, r.Intn(3), p, r.Intn(3))
				if !verifNoPanic(t, fmt.Sprintf("%s (mtu %d, overhead %d) receiving %x", name, mtu, g.st.GetOverhead(), p), func() { g.dp.OnLowerData(c) }) {
					return
				}
				up := g.up.take()
				if h := verifHeader[name]; len(p) < h && (enabled || name == "balancer" || name == "heartbeat" || name == "stat") && name != "frame" && len(up) > 0 {
					t.Errorf("%s: message %x, too short for the %d byte header, was passed up", name, p, h)
					return
				}
				if name == "frame" && enabled && len(up) > 0 && k == 0 && len(p) < 4 {
					t.Errorf("frame decoder passed up something from the first bytes %x", p)
					return
				}
			}
		}
	})
}

func TestVerifC08(t *testing.T) {
	all := verifAll()
	hb := 0
	verifLoop(t, 12*time.Second, 6000, func(r *rand.Rand) {
		for name, h := range verifHeader {
			if name == "heartbeat" {
				if hb++; hb > 300 {
					continue
				}
			}
			dp := all[name]()
			g := newRig(dp, 80, 4)
			if name == "balancer" || ((name == "heartbeat" || name == "stat") && r.Intn(3) == 0) {
				dp.SetEnable(false)
			}
			conn := &vConn{name: "c"}
			p := verifBytes(r, r.Intn(40))
			head := r.Intn(8)
			c, ub := g.msg(r, conn, head, p, r.Intn(4))
			sess := 0
			if r.Intn(4) > 0 {
				sess = int(uint32(r.Uint32()))
				if r.Intn(3) == 0 {
					sess = []int{0, 1, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(5)]
				}
				c.SetOption("session", sess)
			}
			l := g.one(true, c)
			what := fmt.Sprintf("%s sending %x with head room %d, session %d", name, p, head, sess)
			if head < h {
				if len(l) != 0 {
					t.Errorf("%s: passed on although the header does not fit", what)
				}
				continue
			}
			if len(l) != 1 || !l[0].down || l[0].ctx != c || l[0].conn != ustack.TransportConnection(conn) || l[0].ub != ub {
				t.Errorf("%s: not passed down exactly once on its connection", what)
				return
			}
			if len(l[0].buf) != len(p)+h || !bytes.Equal(l[0].buf[h:], p) || l[0].head != head-h {
				t.Errorf("%s: sent %x, not the payload behind exactly %d header bytes", what, l[0].buf, h)
				return
			}
			if name == "session" && binary.BigEndian.Uint32(l[0].buf) != uint32(sess) {
				t.Errorf("%s: header %x", what, l[0].buf[:4])
				return
			}
			if name == "frame" && binary.BigEndian.Uint32(l[0].buf) != uint32(len(p)) {
				t.Errorf("%s: header %x", what, l[0].buf[:4])
				return
			}
			// the peer
			peer := all[name]()
			q := newRig(peer, 80, 4)
			if name == "balancer" {
				peer.SetEnable(false)
			}
			c2, ub2 := q.msg(r, conn, r.Intn(3), l[0].buf, r.Intn(3))
			l2 := q.one(false, c2)
			if len(l2) != 1 || l2[0].down || l2[0].conn != ustack.TransportConnection(conn) || l2[0].ctx != c2 || !bytes.Equal(l2[0].buf, p) {
				t.Errorf("%s: peer passed up %v", what, l2)
				return
			}
			if name != "frame" && l2[0].ub != ub2 {
				t.Errorf("%s: peer passed up another buffer", what)
				return
			}
			if name == "session" && !vSame(l2[0].sess, sess) {
				t.Errorf("%s: peer restored session %v", what, l2[0].sess)
				return
			}
			if name != "session" && l2[0].sess != nil {
				t.Errorf("%s: peer invented session %v", what, l2[0].sess)
				return
			}
		}
	})
}

func TestVerifC09(t *testing.T) {
	all := verifAll()
	verifLoop(t, 12*time.Second, 6000, func(r *rand.Rand) {
		for _, name := range []string{"bytes", "string"} {
			mtu, extra := 1+r.Intn(60), r.Intn(10)
			if extra > mtu {
				extra = mtu
			}
			g := newRig(all[name](), mtu, extra)
			conn := &vConn{name: "c"}
			p := verifBytes(r, r.Intn(70))
			if r.Intn(2) == 0 && mtu-extra+1 > 0 {
				p = verifBytes(r, mtu-extra+r.Intn(3)-1+boolInt(mtu == extra))
			}
			var m interface{} = p
			if name == "string" {
				m = string(p)
			}
			okType := true
			switch r.Intn(8) {
			case 0:
				m, okType = nil, false
			case 1:
				m, okType = 7, false
			case 2:
				okType = false
				if name == "string" {
					m = p
				} else {
					m = string(p)
				}
			}
			c := ustack.NewUStackContext().SetConnection(conn).SetMessage(m).SetOption("session", 9)
			l := g.one(true, c)
			what := fmt.Sprintf("%s codec sending %v, mtu %d overhead %d", name, m, mtu, extra)
			want := okType && len(p) > 0 && len(p) <= mtu-extra
			if !want {
				if len(l) != 0 {
					t.Errorf("%s: not dropped", what)
					return
				}
			} else {
				if len(l) != 1 || !l[0].down || l[0].conn != ustack.TransportConnection(conn) || !bytes.Equal(l[0].buf, p) || !vSame(l[0].sess, 9) {
					t.Errorf("%s: passed on %+v", what, l)
					return
				}
				if l[0].head != extra {
					t.Errorf("%s: head room %d", what, l[0].head)
					return
				}
			}
			// receiving
			p = verifBytes(r, r.Intn(3)*r.Intn(30))
			if name == "string" && r.Intn(3) == 0 && len(p) > 2 {
				p[len(p)-1] = 0
			}
			c, _ = g.msg(r, conn, r.Intn(3), p, r.Intn(3))
			c.SetOption("session", 5)
			if r.Intn(6) == 0 {
				c.SetBuffer(nil)
				p = nil
			}
			l = g.one(false, c)
			if len(p) == 0 {
				if len(l) != 0 {
					t.Errorf("%s codec passed up an empty message", name)
					return
				}
				continue
			}
			if len(l) != 1 || l[0].down || l[0].conn != ustack.TransportConnection(conn) || !vSame(l[0].sess, 5) {
				t.Errorf("%s codec receiving %x: passed on %+v", name, p, l)
				return
			}
			if name == "bytes" && !vSame(l[0].msg, p) || name == "string" && !vSame(l[0].msg, string(p)) {
				t.Errorf("%s codec receiving %x: message %v", name, p, l[0].msg)
				return
			}
		}
		// object codecs
		o := vObj{A: r.Intn(1000) - 500, S: string(rune('a' + r.Intn(26))), B: verifBytes(r, r.Intn(50))}
		for _, name := range []string{"json", "gob"} {
			var size int
			if name == "json" {
				b, _ := json.Marshal(&o)
				size = len(b)
			} else {
				var w bytes.Buffer
				gob.NewEncoder(&w).Encode(&o)
				size = w.Len()
			}
			extra := r.Intn(10)
			mtu := size + extra + r.Intn(6) - 3
			if r.Intn(4) == 0 {
				mtu = 200
			}
			g := newRig(all[name](), mtu, extra)
			conn := &vConn{name: "c"}
			var m interface{} = &o
			bad := r.Intn(6) == 0
			if bad {
				m = make(chan int)
				if r.Intn(2) == 0 {
					m = nil
				}
			}
			c := ustack.NewUStackContext().SetConnection(conn).SetMessage(m)
			l := g.one(true, c)
			what := fmt.Sprintf("%s codec sending %v (%d bytes), mtu %d overhead %d", name, m, size, mtu, extra)
			if bad || size > mtu-extra {
				if len(l) != 0 {
					t.Errorf("%s: not dropped", what)
					return
				}
			} else if len(l) != 1 || !l[0].down || len(l[0].buf) != size || l[0].conn != ustack.TransportConnection(conn) {
				t.Errorf("%s: passed on %+v", what, l)
				return
			}
			if len(l) == 1 {
				data := l[0].buf
				broken := r.Intn(3) == 0
				if broken {
					data = append([]byte{}, data...)
					data = data[:r.Intn(len(data))]
				}
				c, _ = g.msg(r, conn, 0, data, 1)
				l = g.one(false, c)
				if broken {
					if len(l) != 0 {
						t.Errorf("%s codec passed up a message decoded from the truncated %x", name, data)
						return
					}
				} else if len(l) != 1 || l[0].down || l[0].conn != ustack.TransportConnection(conn) {
					t.Errorf("%s codec receiving %x: passed on %+v", name, data, l)
					return
				} else if d, ok := l[0].msg.(*vObj); !ok || d.A != o.A || d.S != o.S || !bytes.Equal(d.B, o.B) {
					t.Errorf("%s codec decoded %+v from %+v", name, l[0].msg, o)
					return
				}
			}
		}
		// generic codec
		var seenM interface{}
		var encN int
		fail := r.Intn(3) == 0
		inits := 0
		var initFn ustack.InitFn
		if r.Intn(2) == 0 {
			initFn = func() { inits++ }
		}
		gc := ustack.NewGenericCodec(initFn, func(m interface{}, w io.Writer) error {
			seenM = m
			encN++
			w.Write([]byte("enc"))
			if fail {
				return errors.New("no")
			}
			return nil
		}, func(rd io.Reader) (interface{}, error) {
			encN++
			b := make([]byte, 100)
			n, _ := rd.Read(b)
			seenM = string(b[:n])
			if fail {
				return "partly", errors.New("no")
			}
			return "dec", nil
		})
		if inits != boolInt(initFn != nil) {
			t.Errorf("generic codec with initialiser %v: it ran %d times", initFn != nil, inits)
			return
		}
		g := newRig(gc, 50, 3)
		conn := &vConn{name: "c"}
		c := ustack.NewUStackContext().SetConnection(conn).SetMessage("hello")
		l := g.one(true, c)
		if encN != 1 || seenM != "hello" || fail != (len(l) == 0) || len(l) > 1 || (len(l) == 1 && (!l[0].down || string(l[0].buf) != "enc")) {
			t.Errorf("generic codec sending: encoder calls %d with %v, failing %v, passed on %+v", encN, seenM, fail, l)
			return
		}
		encN = 0
		c, _ = g.msg(r, conn, 0, []byte("raw"), 0)
		l = g.one(false, c)
		if encN != 1 || seenM != "raw" || fail != (len(l) == 0) || len(l) > 1 || (len(l) == 1 && (l[0].down || l[0].msg != "dec")) {
			t.Errorf("generic codec receiving: decoder calls %d with %v, failing %v, passed on %+v", encN, seenM, fail, l)
		}
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func TestVerifC10(t *testing.T) {
	all := verifAll()
	hb := 0
	verifLoop(t, 12*time.Second, 6000, func(r *rand.Rand) {
		for name, mk := range all {
			ref := false
			switch name {
			case "loopback":
				continue
			case "heartbeat", "stat", "balancer":
				ref = true
			case "frame":
				ref = r.Intn(2) == 0
			}
			if name == "heartbeat" {
				if hb++; hb > 300 {
					continue
				}
			}
			dp := mk()
			g := newRig(dp, 64, 3)
			dp.SetEnable(ref && r.Intn(2) == 0)
			conn := &vConn{name: "c", ref: ref}
			down := r.Intn(2) == 0
			p := verifBytes(r, r.Intn(20))
			c, ub := g.msg(r, conn, r.Intn(6), p, r.Intn(3))
			head := ub.HeadWritableLength()
			if r.Intn(4) == 0 && !(name == "frame" && !ref) {
				c.SetBuffer(nil)
				ub, p = nil, nil
			}
			msg := []interface{}{nil, "s", []byte("bytes"), 5, &vObj{}}[r.Intn(5)]
			c.SetMessage(msg)
			var sess interface{}
			if r.Intn(2) == 0 {
				sess = r.Intn(100)
				c.SetOption("session", sess)
			}
			c.SetOption("x", "y")
			l := g.one(down, c)
			what := fmt.Sprintf("%s (by reference %v) down=%v message %v buffer %x", name, ref, down, msg, p)
			if len(l) != 1 {
				t.Errorf("%s: passed on %d times", what, len(l))
				return
			}
			if s := l[0].asIs(down, c, conn, msg, sess, ub, p, head); s != "" || c.GetOption("x") != "y" {
				t.Errorf("%s: %s", what, s)
				return
			}
		}
	})
}

func TestVerifC11(t *testing.T) {
	all := verifAll()
	verifLoop(t, 10*time.Second, 3000, func(r *rand.Rand) {
		names := []string{"session", "balancer", "stat", "frame", "echo", "discarder"}
		st := ustack.NewUStack()
		mtu := 30 + r.Intn(40)
		st.SetOption("MTU", mtu).SetName("n")
		var top ustack.DataProcessor = ustack.NewBytesCodec()
		if r.Intn(3) == 0 {
			top = ustack.NewGenericCodec(nil, func(m interface{}, w io.Writer) error {
				_, err := w.Write(m.([]byte))
				return err
			}, nil)
		}
		st.AppendDataProcessor(top)
		var sum int
		grow := func() {
			n := names[r.Intn(len(names))]
			dp := all[n]()
			st.AppendDataProcessor(dp)
			sum += dp.GetOverhead()
			if h, ok := verifHeader[n]; ok && dp.GetOverhead() < h {
				t.Errorf("%s announces overhead %d for a %d byte header", n, dp.GetOverhead(), h)
			}
		}
		for k := r.Intn(5); k > 0; k-- {
			grow()
		}
		bottom := newNode()
		bottom.over = r.Intn(3)
		sum += bottom.over
		st.AppendDataProcessor(bottom)
		st.Run()
		if st.GetOverhead() != sum {
			t.Errorf("stack overhead %d, sum of its processors %d", st.GetOverhead(), sum)
			return
		}
		if sum < mtu {
			for _, n := range []int{1, mtu - sum} {
				conn := &vConn{name: "c"}
				top.OnUpperData(ustack.NewUStackContext().SetConnection(conn).SetMessage(verifBytes(r, n)))
				l := bottom.take()
				if len(l) != 1 {
					t.Errorf("message of %d bytes with mtu %d, overhead %d arrived %d times at the bottom", n, mtu, sum, len(l))
					return
				}
			}
		}
		if r.Intn(2) == 0 {
			grow()
			st.Run()
			if st.GetOverhead() != sum {
				t.Errorf("restarted stack overhead %d, sum of its processors %d", st.GetOverhead(), sum)
				return
			}
		}
		// the answer of the statistics counter
		sc := ustack.NewStatCounter()
		g := newRig(sc, 40, 2)
		g.st.SetName("nm")
		c, _ := g.msg(r, &vConn{name: "c"}, 0, []byte{ustack.StatCounterSelfMessageReqTag}, 0)
		l := g.one(false, c)
		if len(l) != 1 || !l[0].down || len(l[0].buf) < 1 || l[0].buf[0] != ustack.StatCounterSelfMessageResTag || l[0].head < 2 {
			t.Errorf("statistics answer %+v", l)
		}
	})
	// heartbeats
	dp := ustack.NewHeartbeat()
	g := newRig(dp, 40, 3)
	conn := &vConn{name: "c"}
	dp.OnEvent(ustack.Event{Type: ustack.UStackEventNewConnection, Data: ustack.TransportConnection(conn)})
	var l []vMsg
	for i := 0; i < 300 && len(l) == 0; i++ {
		time.Sleep(10 * time.Millisecond)
		l = g.low.take()
	}
	conn.Close()
	if len(l) < 1 || len(l[0].buf) != 1 || l[0].head < 3 {
		t.Errorf("heartbeat message %+v", l)
	}
}

func TestVerifC16(t *testing.T) {
	verifLoop(t, 8*time.Second, 6000, func(r *rand.Rand) {
		n := r.Intn(5)
		ans := make([]bool, n)
		type call struct {
			i  int
			c  ustack.Context
			up bool
		}
		var calls []call
		fl := []ustack.FilterFn{}
		fw := []ustack.ForwardFn{}
		for i := 0; i < n; i++ {
			i := i
			ans[i] = r.Intn(3) == 0
			f := func(c ustack.Context, up bool) bool { calls = append(calls, call{i, c, up}); return ans[i] }
			fl = append(fl, f)
			fw = append(fw, f)
		}
		filter := r.Intn(2) == 0
		var dp ustack.DataProcessor
		if filter {
			dp = ustack.NewFilter(fl...)
		} else {
			dp = ustack.NewForwarder(fw...)
		}
		for i := range fl { // the caller's slice is its own
			fl[i], fw[i] = nil, nil
		}
		if g := (*vRig)(nil); g == nil {
			g = newRig(dp, 64, 0)
			var drops [2]int
			for k := 0; k < 4; k++ {
				for i := range ans {
					ans[i] = r.Intn(3) == 0
				}
				calls = nil
				first := -1
				for i, a := range ans {
					if a {
						first = i
						break
					}
				}
				down := r.Intn(2) == 0
				conn := &vConn{name: "c", ref: r.Intn(3) == 0}
				p := verifBytes(r, r.Intn(5))
				c, ub := g.msg(r, conn, 2, p, 2)
				var l []vMsg
				if !verifNoPanic(t, "rules", func() { l = g.one(down, c) }) {
					return
				}
				what := fmt.Sprintf("filter=%v rules %v down=%v", filter, ans, down)
				pass := (first >= 0) == filter
				if pass {
					if len(l) != 1 {
						t.Errorf("%s: passed on %d times", what, len(l))
						return
					}
					if s := l[0].asIs(down, c, conn, nil, nil, ub, p, 2); s != "" {
						t.Errorf("%s: %s", what, s)
						return
					}
				} else {
					if len(l) != 0 {
						t.Errorf("%s: not stopped", what)
						return
					}
					drops[boolInt(down)]++
				}
				asked := first + 1
				if first < 0 {
					asked = n
				}
				if len(calls) != asked {
					t.Errorf("%s: %d rules consulted, want %d", what, len(calls), asked)
					return
				}
				for i, cl := range calls {
					if cl.i != i || cl.c != c || cl.up != !down {
						t.Errorf("%s: consultation %d was of rule %d, direction up=%v", what, i, cl.i, cl.up)
						return
					}
				}
			}
			// the counters are read through reflection (they have no accessor)
			v := reflect.ValueOf(dp).Elem()
			tx, rx := v.FieldByName("txCounter"), v.FieldByName("rxCounter")
			if tx.IsValid() && rx.IsValid() && (tx.Uint() != uint64(drops[1]) || rx.Uint() != uint64(drops[0])) {
				t.Errorf("filter=%v counts %d/%d after stopping %d down and %d up", filter, tx.Uint(), rx.Uint(), drops[1], drops[0])
			}
		}
	})
}

func TestVerifC19(t *testing.T) {
	verifLoop(t, 8*time.Second, 4000, func(r *rand.Rand) {
		sc := ustack.NewStatCounter()
		mtu := 17 + r.Intn(60)
		name := string(verifBytes(r, r.Intn(20)))
		extra := r.Intn(3)
		g := newRig(sc, mtu, extra)
		g.st.SetName(name)
		enabled := true
		var tx, rx uint64
		conns := []*vConn{{name: "a"}, {name: "b"}, {name: "r", ref: true}}
		for k := 0; k < 12; k++ {
			if r.Intn(8) == 0 {
				enabled = !enabled
				sc.SetEnable(enabled)
			}
			conn := conns[r.Intn(3)]
			p := verifBytes(r, r.Intn(6))
			head := r.Intn(3)
			down := r.Intn(2) == 0
			if !down && len(p) > 0 {
				p[0] = []byte{0, 0x10, 0x23, 0, 0x55}[r.Intn(5)]
			}
			c, _ := g.msg(r, conn, head, p, 3)
			var l []vMsg
			if !verifNoPanic(t, fmt.Sprintf("stat counter receiving %x", p), func() { l = g.one(down, c) }) {
				return
			}
			what := fmt.Sprintf("stat counter enabled=%v down=%v by-reference=%v message %x head room %d", enabled, down, conn.ref, p, head)
			switch {
			case conn.ref:
				if len(l) != 1 || l[0].down != down {
					t.Errorf("%s: passed on %+v", what, l)
					return
				}
			case down:
				if head >= 1 != (len(l) == 1) {
					t.Errorf("%s: passed on %d times", what, len(l))
					return
				}
				if enabled && len(l) == 1 {
					tx++
				}
			case len(p) == 0:
				if len(l) != 0 {
					t.Errorf("%s: passed on", what)
					return
				}
			case enabled && p[0] == 0x23:
				if len(l) != 0 {
					t.Errorf("%s: response passed on", what)
					return
				}
			case enabled && p[0] == 0x10:
				if len(l) != 1 || !l[0].down || l[0].conn != ustack.TransportConnection(conn) {
					t.Errorf("%s: answers %+v", what, l)
					return
				}
				w := binary.BigEndian.AppendUint64([]byte{0x23}, tx)
				w = append(binary.BigEndian.AppendUint64(w, rx), name...)
				if mtu-g.st.GetOverhead() >= 16+len(name) && !bytes.Equal(l[0].buf, w) {
					t.Errorf("%s: answer %x, want %x", what, l[0].buf, w)
					return
				}
			default:
				if len(l) != 1 || l[0].down || !bytes.Equal(l[0].buf, p[1:]) {
					t.Errorf("%s: passed on %+v", what, l)
					return
				}
				if enabled {
					rx++
				}
			}
			v := reflect.ValueOf(sc).Elem()
			ftx, frx := v.FieldByName("txCounter"), v.FieldByName("rxCounter")
			if ftx.IsValid() && frx.IsValid() && (ftx.Uint() != tx || frx.Uint() != rx) {
				t.Errorf("%s: counts %d/%d, want %d/%d", what, ftx.Uint(), frx.Uint(), tx, rx)
				return
			}
		}
	})
	// collection requests
	for _, ref := range []bool{false, true} {
		sc := ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", 1)
		g := newRig(sc, 64, 2)
		sc.Run()
		conn := &vConn{name: "c", ref: ref}
		sc.OnEvent(ustack.Event{Type: ustack.UStackEventNewConnection, Data: ustack.TransportConnection(conn)})
		time.Sleep(300 * time.Millisecond)
		conn.Close()
		l := g.low.take()
		if ref && len(l) != 0 || !ref && (len(l) != 1 || len(l[0].buf) != 1 || l[0].buf[0] != 0x10 || l[0].conn != ustack.TransportConnection(conn)) {
			t.Errorf("collection on by-reference=%v connection sent %+v", ref, l)
		}
		if v := reflect.ValueOf(sc).Elem().FieldByName("txCounter"); v.IsValid() && v.Uint() != 0 {
			t.Errorf("collection requests were counted")
		}
	}
}

func TestVerifC24(t *testing.T) {
	all := verifAll()
	verifLoop(t, 6*time.Second, 6000, func(r *rand.Rand) {
		for _, name := range []string{"echo", "loopback", "discarder"} {
			dp := all[name]()
			g := newRig(dp, 64, 0)
			conn := &vConn{name: "c", ref: r.Intn(3) == 0}
			p := verifBytes(r, r.Intn(10))
			down := r.Intn(2) == 0
			c, ub := g.msg(r, conn, 3, p, 2)
			if r.Intn(3) == 0 {
				c.SetBuffer(nil)
				ub, p = nil, nil
			}
			msg := []interface{}{nil, "s", []byte("bytes"), 5}[r.Intn(4)]
			c.SetMessage(msg)
			l := g.one(down, c)
			what := fmt.Sprintf("%s down=%v message %v buffer %x", name, down, msg, p)
			want, dir := 1, true
			switch {
			case name == "loopback" && down:
				dir = false
			case name == "loopback":
				for _, m := range l {
					if m.down {
						t.Errorf("%s: sent down", what)
					}
				}
				continue
			case name == "discarder" && !down:
				want = 0
			}
			if len(l) != want {
				t.Errorf("%s: handed on %d times", what, len(l))
				return
			}
			if want == 1 {
				if s := l[0].asIs(dir, c, conn, msg, nil, ub, p, 3); s != "" {
					t.Errorf("%s: %s", what, s)
					return
				}
			}
		}
	})
}
