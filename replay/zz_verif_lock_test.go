package ustack_test

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
	"ustack"
)

// Hammers the operations that share a table from several threads. Built with
// the race detector: an access outside the lock is reported as a data race, a
// lock left held as an operation that never ends.

// vQuiet is a neighbour that records nothing.
type vQuiet struct{ ustack.DataProcessor }

func (vQuiet) OnUpperData(ustack.Context) {}
func (vQuiet) OnLowerData(ustack.Context) {}
func (vQuiet) OnEvent(ustack.Event)       {}

func crowd(t *testing.T, what string, fs ...func()) {
	done := make(chan string, 2*len(fs))
	for i := range fs {
		f := fs[i]
		go func() {
			defer func() {
				if e := recover(); e != nil {
					done <- fmt.Sprint("panic: ", e)
				} else {
					done <- ""
				}
			}()
			f()
		}()
	}
	end := time.After(20 * time.Second)
	for range fs {
		select {
		case s := <-done:
			if s != "" {
				t.Errorf("%s: %s", what, s)
			}
		case <-end:
			t.Errorf("%s: an operation never ends", what)
			return
		}
	}
}

func lockUpperDeck(t *testing.T) {
	ud := ustack.NewUpperDeck()
	st := ustack.NewUStack()
	ud.SetUStack(st)
	ud.SetLower(vQuiet{ustack.NewProcBase()})
	for i := 20; i < 24; i++ {
		st.AddEndPoint(ustack.NewEndPoint("pre", i))
	}
	var fs []func()
	for i := 0; i < 4; i++ {
		ep := ustack.NewEndPoint(fmt.Sprint("e", i), i)
		fs = append(fs, func() {
			for k := 0; k < 30; k++ {
				ud.OnEvent(ustack.Event{Type: ustack.UStackEventEndpointAdded, Source: st, Data: ep})
				// a second endpoint of the same session is refused
				ud.OnEvent(ustack.Event{Type: ustack.UStackEventEndpointAdded, Source: st, Data: ustack.NewEndPoint("twin", ep.GetSession())})
				ud.OnEvent(ustack.Event{Type: ustack.UStackEventEndpointAdded, Source: st, Data: ep})
				ud.OnEvent(ustack.Event{Type: ustack.UStackEventEndpointDeleted, Source: st, Data: ep})
			}
		}, func() {
			for k := 0; k < 60; k++ {
				c := ustack.NewUStackContext().SetConnection(&vConn{}).SetMessage("m").SetOption("session", k%7)
				ud.OnLowerData(c)
			}
		}, func() {
			for k := 0; k < 60; k++ {
				for len(ep.GetRxChannel()) > 0 {
					select {
					case <-ep.GetRxChannel():
					default:
					}
				}
				time.Sleep(time.Millisecond)
			}
		})
	}
	fs = append(fs, func() { ud.Run() })
	crowd(t, "endpoints added, deleted and served at the same time", fs...)
}

func lockHeartbeat(t *testing.T) {
	for _, timeout := range []int{100, 0} {
		hb := ustack.NewHeartbeat().SetOption("TimeoutInSecond", timeout).SetOption("IntervalInSecond", 1).SetOption("CloseOnLost", true)
		st := ustack.NewUStack()
		hb.SetUStack(st)
		hb.SetLower(vQuiet{ustack.NewProcBase()})
		hb.SetUpper(vQuiet{ustack.NewProcBase()})
		var fs []func()
		var conns []*vConn
		for i := 0; i < 6; i++ {
			c := &vConn{name: fmt.Sprint(i)}
			conns = append(conns, c)
			fs = append(fs, func() {
				hb.OnEvent(ustack.Event{Type: ustack.UStackEventNewConnection, Source: hb, Data: c})
				for k := 0; k < 50; k++ {
					ub := ustack.UBufAlloc(4)
					ub.WriteByte(ustack.HeartbeatSelfMessageTag)
					hb.OnLowerData(ustack.NewUStackContext().SetConnection(c).SetBuffer(ub))
					if k == 25 {
						c.Close()
					}
				}
			})
		}
		hb.Run()
		crowd(t, "heartbeats of several connections at the same time", fs...)
		time.Sleep(2500 * time.Millisecond)
		crowd(t, "heartbeats after the monitor ran", fs...)
	}
}

func lockFrames(t *testing.T) {
	fd := ustack.NewFrameDecoder()
	st := ustack.NewUStack()
	fd.SetUStack(st)
	fd.SetLower(vQuiet{ustack.NewProcBase()})
	fd.SetUpper(vQuiet{ustack.NewProcBase()})
	var fs []func()
	for i := 0; i < 6; i++ {
		c := &vConn{name: fmt.Sprint(i)}
		fs = append(fs, func() {
			for k := 0; k < 60; k++ {
				chunk := []byte{0, 0, 0, 3, 1, 2, 3, 0}
				if k%5 == 4 {
					chunk = []byte{0, 255, 255, 255, 1}
				}
				if k%2 == 1 && k%5 != 4 {
					chunk = []byte{0, 0, 2, 7, 7}
				}
				ub := ustack.UBufAlloc(16)
				ub.Write(chunk)
				fd.OnLowerData(ustack.NewUStackContext().SetConnection(c).SetBuffer(ub))
				if k%7 == 6 {
					fd.OnEvent(ustack.Event{Type: ustack.UStackEventConnectionClosed, Source: fd, Data: ustack.TransportConnection(c)})
				}
			}
		})
	}
	crowd(t, "frames of several connections at the same time", fs...)
}

func lockSockets(t *testing.T, kind string, round int) {
	dir, err := os.MkdirTemp("", "verifc18")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	var srv ustack.Transport
	addr := filepath.Join(dir, "s")
	if kind == "unix" {
		srv = ustack.NewUDSTransport("s")
	} else {
		srv = ustack.NewTCPTransport("s")
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return
		}
		addr = l.Addr().String()
		l.Close()
	}
	srv.SetAddress(addr).ForServer(true)
	srv.Run()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				c, err := net.Dial(kind, addr)
				if err != nil {
					time.Sleep(10 * time.Millisecond)
					continue
				}
				time.Sleep(20 * time.Millisecond)
				c.Close()
				return
			}
		}()
	}
	next := func() {
		for k := 0; k < 2; k++ {
			if srv.NextConnection() == nil {
				return
			}
		}
	}
	stop := func() {
		time.Sleep(time.Duration(round*5+10) * time.Millisecond)
		srv.Stop()
	}
	crowd(t, kind+" transport stopped and run while connections are handed out", next, next, next, stop, stop, func() { time.Sleep(5 * time.Millisecond); srv.Run() })
	crowd(t, kind+" transport run and stopped after that", func() { srv.Run(); srv.Stop(); srv.Stop() })
	// a client whose server is not there
	cl := ustack.NewTCPTransport("c")
	if kind == "unix" {
		cl = ustack.NewUDSTransport("c")
	}
	cl.SetAddress(addr + "0").ForServer(false).SetOption("MaxRetryCount", 1).SetOption("RetryIntervalInSecond", 0)
	crowd(t, kind+" client without a server", func() {
		cl.Run()
		cl.NextConnection()
		cl.Stop()
	})
	wg.Wait()
}

func lockReference(t *testing.T) {
	for n := 0; n < 20; n++ {
		a := fmt.Sprint("c18-", n)
		var fs []func()
		for i := 0; i < 6; i++ {
			tr := ustack.NewReferenceTransport(fmt.Sprint(i)).SetAddress(a).ForServer(i%2 == 0)
			fs = append(fs, func() {
				for k := 0; k < 5; k++ {
					tr.Run()
					tr.Run()
					tr.NextConnection()
					tr.Stop()
					tr.Stop()
				}
			})
		}
		crowd(t, "reference transports of one address run and stopped at the same time", fs...)
		one := ustack.NewReferenceTransport("x").SetAddress(a)
		one.Run()
		crowd(t, "a reference transport used by several threads", func() { one.NextConnection() }, func() { one.Stop() }, func() { one.Stop() })
	}
}

func TestVerifC18(t *testing.T) {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	lockUpperDeck(t)
	lockFrames(t)
	lockReference(t)
	for i := 0; i < 4; i++ {
		lockSockets(t, "tcp", i)
		lockSockets(t, "unix", i)
	}
	lockHeartbeat(t)
}
