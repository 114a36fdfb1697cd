package ustack_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
	"ustack"
)

// vSock is a scripted socket.
type vSock struct {
	net.Conn
	mu     sync.Mutex
	in     []byte
	out    []byte
	n      int
	err    error
	reads  int
	writes int
	closes int
}

func (s *vSock) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.reads++
	n := len(p)
	if n > s.n {
		n = s.n
	}
	n = copy(p[:n], s.in)
	s.in = s.in[n:]
	return n, s.err
}
func (s *vSock) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.writes++
	n := len(p)
	if n > s.n {
		n = s.n
	}
	s.out = append(s.out, p[:n]...)
	return n, s.err
}
func (s *vSock) Close() error { s.mu.Lock(); defer s.mu.Unlock(); s.closes++; return nil }

// within runs f and reports whether it ended in time.
func within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func TestVerifC20(t *testing.T) {
	verifLoop(t, 8*time.Second, 400, func(r *rand.Rand) {
		for name, mk := range map[string]func(string, net.Conn) ustack.TransportConnection{"tcp": ustack.NewTCPTransportConnection, "unix": ustack.NewUDSTransportConnection} {
			s := &vSock{in: verifBytes(r, 40)}
			c := mk("nm", s)
			if c.GetName() != "nm" || c.UseReference() || c.Closed() {
				t.Errorf("%s: a new connection reports name %q, by reference %v, closed %v", name, c.GetName(), c.UseReference(), c.Closed())
			}
			closed := false
			for k := 0; k < 8; k++ {
				s.n = r.Intn(12)
				big := r.Intn(10) == 0
				if big {
					s.n = 200000
				}
				s.err = nil
				if r.Intn(3) == 0 {
					s.err = errors.New("e")
				}
				if r.Intn(5) == 0 {
					s.err = io.EOF
				}
				r0, w0, cl0, in0, out0 := s.reads, s.writes, s.closes, append([]byte{}, s.in...), append([]byte{}, s.out...)
				p := verifBytes(r, r.Intn(10))
				if big {
					p = verifBytes(r, r.Intn(150000))
				}
				q := append([]byte{}, p...)
				min := len(p)
				if s.n < min {
					min = s.n
				}
				switch r.Intn(5) {
				case 0:
					if len(in0) < min {
						min = len(in0)
					}
					n, err := c.Read(q)
					if closed {
						if n != 0 || s.reads != r0 || !bytes.Equal(p, q) {
							t.Errorf("%s: a read on a closed connection moved data", name)
						}
					} else if n != min || err != s.err || s.reads != r0+1 || !bytes.Equal(q[:n], in0[:n]) || !bytes.Equal(q[n:], p[n:]) {
						t.Errorf("%s: the socket read %d bytes and error %v, the connection returned %d and %v", name, min, s.err, n, err)
					}
				case 1:
					n, err := c.Write(p)
					if closed {
						if n != 0 || s.writes != w0 {
							t.Errorf("%s: a write on a closed connection moved data", name)
						}
					} else if n != min || err != s.err || s.writes != w0+1 || !bytes.Equal(s.out[len(out0):], p[:n]) {
						t.Errorf("%s: the socket accepted %d bytes and error %v, the connection returned %d and %v, wrote %x of %x", name, min, s.err, n, err, s.out[len(out0):], p)
					}
				case 2:
					if v, err := c.GetReference(); v != nil || err == nil {
						t.Errorf("%s: GetReference returned %v %v", name, v, err)
					}
				case 3:
					if c.SetReference("x") == nil {
						t.Errorf("%s: SetReference succeeded", name)
					}
				case 4:
					if r.Intn(2) == 0 {
						c.Close()
						if s.closes == cl0 && !closed {
							t.Errorf("%s: the socket was not closed", name)
						}
						closed = true
					}
				}
				if c.Closed() != closed {
					t.Errorf("%s: reports closed %v after Close: %v", name, c.Closed(), closed)
				}
			}
		}
		// reference connections, obtained from the transports
		a := fmt.Sprint("c20-", r.Int())
		ts := []ustack.Transport{ustack.NewReferenceTransport("s").SetAddress(a), ustack.NewReferenceTransport("c").SetAddress(a).ForServer(false)}
		var cs []ustack.TransportConnection
		for _, x := range ts {
			x.Run()
			var c ustack.TransportConnection
			if !within(2*time.Second, func() { c = x.NextConnection() }) || c == nil {
				t.Errorf("reference: no connection from a running transport")
				return
			}
			cs = append(cs, c)
		}
		if cs[0].GetName() != "s" || !cs[0].UseReference() || cs[0].Closed() {
			t.Errorf("reference: a new connection reports name %q, by reference %v, closed %v", cs[0].GetName(), cs[0].UseReference(), cs[0].Closed())
		}
		queue := [2][]interface{}{}
		for k := 0; k < 12 && !t.Failed(); k++ {
			i := r.Intn(2)
			switch r.Intn(3) {
			case 0:
				var v interface{} = &vConn{name: fmt.Sprint(k)}
				if r.Intn(4) == 0 {
					v = fmt.Sprint(k)
				}
				switch r.Intn(8) {
				case 0:
					v = errors.New("a value")
				case 1:
					v = k
				case 2:
					v = ustack.UBufAlloc(4)
				}
				if err := cs[i].SetReference(v); err != nil {
					t.Errorf("reference: send failed: %v", err)
				}
				queue[1-i] = append(queue[1-i], v)
				if cs[i].SetReference(nil) == nil {
					t.Errorf("reference: a nil value was sent")
				}
			case 1:
				if len(queue[i]) > 0 {
					var v interface{}
					var err error
					if !within(2*time.Second, func() { v, err = cs[i].GetReference() }) {
						t.Errorf("reference: a sent value never arrives at the opposite side")
						return
					}
					if err != nil || v != queue[i][0] {
						t.Errorf("reference: received %v, %v instead of %v", v, err, queue[i][0])
					}
					queue[i] = queue[i][1:]
				}
			case 2:
				if n, err := cs[i].Read(make([]byte, 4)); n != 0 || err == nil {
					t.Errorf("reference: Read returned %d %v", n, err)
				}
				if n, err := cs[i].Write(make([]byte, 4)); n != 0 || err == nil {
					t.Errorf("reference: Write returned %d %v", n, err)
				}
			}
		}
		z := r.Intn(2)
		if r.Intn(2) == 0 {
			cs[1-z].SetReference("before")
		}
		cs[z].Close()
		if !cs[z].Closed() || cs[1-z].Closed() {
			t.Errorf("reference: after closing one side they report closed %v and %v", cs[z].Closed(), cs[1-z].Closed())
		}
		cs[1-z].SetReference("left")
		if !within(2*time.Second, func() {
			if v, err := cs[z].GetReference(); v != nil || err == nil {
				t.Errorf("reference: receive on a closed connection returned %v %v", v, err)
			}
			if cs[z].SetReference("x") == nil {
				t.Errorf("reference: send on a closed connection succeeded")
			}
		}) {
			t.Errorf("reference: a call on a closed connection blocks")
		}
		for _, x := range ts {
			x.Stop()
		}
	})
}

func vPort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return ""
	}
	defer l.Close()
	return l.Addr().String()
}

func TestVerifC21(t *testing.T) {
	defer verifQuiet()()
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	r := verifRand()
	dialable := func(kind, a string) bool {
		c, err := net.DialTimeout(kind, a, time.Second)
		if err == nil {
			c.Close()
		}
		return err == nil
	}
	for _, kind := range []string{"tcp", "unix"} {
		for round := 0; round < 4 && !t.Failed(); round++ {
			a := vPort()
			mk := ustack.NewTCPTransport
			if kind == "unix" {
				a = filepath.Join(dir, fmt.Sprint("s", r.Int()))
				mk = ustack.NewUDSTransport
			}
			// server
			s := mk("s").SetAddress(a).ForServer(true)
			s.Stop()
			for again := 0; again < 3 && !t.Failed(); again++ {
				what := fmt.Sprintf("%s server, run %d", kind, again+1)
				s.Run()
				s.Run()
				if !verifWait(func() bool { return dialable(kind, a) }) {
					t.Errorf("%s: not listening after Run", what)
					break
				}
				if c := s.NextConnection(); c == nil { // the probe
					t.Errorf("%s: no connection", what)
					break
				} else {
					c.Close()
				}
				var got []ustack.TransportConnection
				var peers []net.Conn
				count := 3
				if round == 1 {
					count = 24
				}
				for k := 0; k < count; k++ {
					p, err := net.Dial(kind, a)
					if err != nil {
						t.Errorf("%s: %v", what, err)
						break
					}
					peers = append(peers, p)
					if k < count-1 {
						var c ustack.TransportConnection
						if !within(2*time.Second, func() { c = s.NextConnection() }) || c == nil {
							t.Errorf("%s: no connection %d", what, k)
							break
						}
						got = append(got, c)
					}
				}
				time.Sleep(5 * time.Millisecond)
				s.Stop()
				s.Stop()
				for _, c := range got {
					if !c.Closed() {
						t.Errorf("%s: a handed out connection is open after Stop", what)
					}
				}
				if !within(2*time.Second, func() {
					if c := s.NextConnection(); c != nil && !c.Closed() {
						t.Errorf("%s: a stopped transport hands out an open connection", what)
					}
					for s.NextConnection() != nil {
					}
				}) {
					t.Errorf("%s: NextConnection blocks after Stop", what)
				}
				if again%2 == 0 {
					time.Sleep(5 * time.Millisecond)
					if dialable(kind, a) {
						t.Errorf("%s: still listening after Stop", what)
					}
				}
				for _, p := range peers {
					p.Close()
				}
			}
			// stopped before anybody connected
			s.Run()
			time.Sleep(40 * time.Millisecond)
			s.Stop()
			time.Sleep(5 * time.Millisecond)
			if dialable(kind, a) {
				t.Errorf("%s server: still listening after Stop without any connection", kind)
			}
			// restarted at once: still running afterwards
			s.Run()
			verifWait(func() bool { return dialable(kind, a) })
			s.Stop()
			if kind == "tcp" {
				time.Sleep(2 * time.Millisecond)
			}
			s.Run()
			time.Sleep(20 * time.Millisecond)
			if !verifWait(func() bool { return dialable(kind, a) }) {
				t.Errorf("%s server: not listening after Stop and Run", kind)
			}
			s.Stop()
			// client
			l, err := net.Listen(kind, a)
			if err != nil {
				continue
			}
			n := 0
			var mu sync.Mutex
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					mu.Lock()
					n++
					mu.Unlock()
					defer c.Close()
				}
			}()
			c := mk("c").SetAddress(a).ForServer(false).SetOption("RetryIntervalInSecond", 0)
			for again := 0; again < 2; again++ {
				n0 := n
				c.Run()
				c.Run()
				var k ustack.TransportConnection
				if !within(2*time.Second, func() { k = c.NextConnection() }) || k == nil {
					t.Errorf("%s client: no connection", kind)
					break
				}
				time.Sleep(20 * time.Millisecond)
				mu.Lock()
				if n-n0 != 1 {
					t.Errorf("%s client: dialed %d connections", kind, n-n0)
				}
				mu.Unlock()
				c.Stop()
				if !k.Closed() {
					t.Errorf("%s client: the connection is open after Stop", kind)
				}
				if !within(2*time.Second, func() {
					if c.NextConnection() != nil {
						t.Errorf("%s client: a stopped transport hands out a connection", kind)
					}
				}) {
					t.Errorf("%s client: NextConnection blocks after Stop", kind)
				}
			}
			l.Close()
			// stopped while dialing
			a2 := a
			if kind == "tcp" {
				a2 = vPort()
			}
			c = mk("c").SetAddress(a2).ForServer(false).SetOption("RetryIntervalInSecond", 0).SetOption("MaxRetryCount", 1<<30)
			c.Run()
			time.Sleep(2 * time.Millisecond)
			c.Stop()
			if l, err := net.Listen(kind, a2); err == nil {
				time.Sleep(20 * time.Millisecond)
				l.Close()
			}
			if !within(2*time.Second, func() {
				if c.NextConnection() != nil {
					t.Errorf("%s client stopped while dialing: hands out a connection", kind)
				}
			}) {
				t.Errorf("%s client stopped while dialing: NextConnection blocks", kind)
			}
			// gives up
			c = mk("c").SetAddress(a2).ForServer(false).SetOption("RetryIntervalInSecond", 0).SetOption("MaxRetryCount", 2)
			c.Run()
			if !within(3*time.Second, func() {
				if c.NextConnection() != nil {
					t.Errorf("%s client without server: hands out a connection", kind)
				}
			}) {
				t.Errorf("%s client without server: NextConnection blocks after the last retry", kind)
			}
		}
	}
	// reference transports
	verifLoop(t, 6*time.Second, 500, func(r *rand.Rand) {
		type side struct {
			tr     ustack.Transport
			server bool
			run    bool
			conn   ustack.TransportConnection
			addr   int
		}
		base := fmt.Sprint("c21-", r.Int())
		var ss []*side
		for i := 0; i < 4; i++ {
			s := &side{server: i%2 == 0, addr: i / 2}
			if r.Intn(4) == 0 {
				s.addr = 0
			}
			s.tr = ustack.NewReferenceTransport(fmt.Sprint("t", i)).SetAddress(fmt.Sprint(base, s.addr)).ForServer(s.server)
			if r.Intn(2) == 0 {
				s.tr.SetOption("MaxQueueSize", 2+r.Intn(5))
			}
			ss = append(ss, s)
		}
		hist := ""
		running := func(a int) (n int) {
			for _, s := range ss {
				if s.run && s.addr == a {
					n++
				}
			}
			return
		}
		pending := map[string][]interface{}{}
		for k := 0; k < 14 && !t.Failed(); k++ {
			i := r.Intn(4)
			s := ss[i]
			switch r.Intn(4) {
			case 0:
				hist += fmt.Sprintf(" run %d;", i)
				s.tr.Run()
				if !s.run {
					s.run = true
					if r.Intn(5) > 0 {
						if !within(2*time.Second, func() { s.conn = s.tr.NextConnection() }) || s.conn == nil || s.conn.Closed() {
							t.Errorf("history%s: no open connection from a started transport", hist)
							return
						}
					}
				}
			case 1:
				hist += fmt.Sprintf(" stop %d;", i)
				if !verifNoPanic(t, "history"+hist, func() { s.tr.Stop() }) {
					return
				}
				if s.run {
					s.run = false
					if s.conn != nil && !s.conn.Closed() {
						t.Errorf("history%s: connection open after Stop", hist)
					}
					s.conn = nil
					if !within(2*time.Second, func() {
						if c := s.tr.NextConnection(); c != nil && !c.Closed() {
							t.Errorf("history%s: a stopped transport hands out an open connection", hist)
						}
					}) {
						t.Errorf("history%s: NextConnection blocks after Stop", hist)
					}
					if running(s.addr) == 0 {
						delete(pending, fmt.Sprint(s.addr, true))
						delete(pending, fmt.Sprint(s.addr, false))
					}
				}
			case 2:
				key := fmt.Sprint(s.addr, !s.server)
				if s.conn != nil && len(pending[key]) < 2 {
					hist += fmt.Sprintf(" send %d;", i)
					v := &vConn{}
					if !verifNoPanic(t, "history"+hist, func() { s.conn.SetReference(v) }) {
						return
					}
					pending[key] = append(pending[key], v)
				}
			case 3:
				key := fmt.Sprint(s.addr, s.server)
				if s.conn != nil && len(pending[key]) > 0 {
					hist += fmt.Sprintf(" receive %d;", i)
					var v interface{}
					if !within(2*time.Second, func() { v, _ = s.conn.GetReference() }) || v != pending[key][0] {
						t.Errorf("history%s: a value sent by a transport with the same address did not arrive", hist)
						return
					}
					pending[key] = pending[key][1:]
				}
			}
		}
		for _, s := range ss {
			s.tr.Stop()
		}
	})
}
