package ustack_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing"
	"time"
	"ustack"
)

// vTrans is a scripted transport.
type vTrans struct {
	mu         sync.Mutex
	name       string
	runs, stop int
	next       chan ustack.TransportConnection
}

func newTrans(name string) *vTrans {
	return &vTrans{name: name, next: make(chan ustack.TransportConnection, 64)}
}
func (t *vTrans) GetName() string                                { return t.name }
func (t *vTrans) SetOption(string, interface{}) ustack.Transport { return t }
func (t *vTrans) GetOption(string) interface{}                   { return nil }
func (t *vTrans) ForServer(bool) ustack.Transport                { return t }
func (t *vTrans) SetAddress(string) ustack.Transport             { return t }
func (t *vTrans) GetAddress() string                             { return "" }
func (t *vTrans) NextConnection() ustack.TransportConnection     { return <-t.next }
func (t *vTrans) Run() ustack.Transport {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	return t
}
func (t *vTrans) Stop() ustack.Transport {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.stop++
	return t
}

// vProc is a processor that records how it is linked, run and notified.
type vProc struct {
	ustack.DataProcessor
	mu     sync.Mutex
	id     string
	over   int
	upper  []ustack.DataProcessor
	lower  []ustack.DataProcessor
	st     ustack.UStack
	runs   int
	events []ustack.Event
	ups    []ustack.Context
	downs  []ustack.Context
	note   func(who string, e ustack.Event)
	order  func(who string)
}

func newProc(id string) *vProc { return &vProc{DataProcessor: ustack.NewProcBase(), id: id} }
func (p *vProc) SetUpper(d ustack.DataProcessor) ustack.DataProcessor {
	p.upper = append(p.upper, d)
	return p
}
func (p *vProc) SetLower(d ustack.DataProcessor) ustack.DataProcessor {
	p.lower = append(p.lower, d)
	return p
}
func (p *vProc) SetUStack(u ustack.UStack) ustack.DataProcessor { p.st = u; return p }
func (p *vProc) GetOverhead() int                               { return p.over }
func (p *vProc) Run() ustack.DataProcessor {
	p.runs++
	if p.order != nil {
		p.order(p.id)
	}
	return p
}
func (p *vProc) OnEvent(e ustack.Event) {
	if p.note != nil {
		p.note(p.id, e)
	}
}
func (p *vProc) OnUpperData(c ustack.Context) {
	p.mu.Lock()
	p.downs = append(p.downs, c)
	p.mu.Unlock()
	p.lower[len(p.lower)-1].OnUpperData(c)
}
func (p *vProc) OnLowerData(c ustack.Context) {
	p.mu.Lock()
	p.ups = append(p.ups, c)
	p.mu.Unlock()
	p.upper[len(p.upper)-1].OnLowerData(c)
}

type vFeat struct {
	ustack.Feature
	name string
	runs int
}

func (f *vFeat) GetName() string     { return f.name }
func (f *vFeat) Run() ustack.Feature { f.runs++; return f }

func verifWait(cond func() bool) bool {
	for i := 0; i < 400; i++ {
		if cond() {
			return true
		}
		time.Sleep(time.Duration(i) * 20 * time.Microsecond)
	}
	return cond()
}

func TestVerifC12(t *testing.T) {
	verifLoop(t, 8*time.Second, 400, func(r *rand.Rand) {
		n := r.Intn(5)
		if r.Intn(6) == 0 {
			n = 15 + r.Intn(30)
		}
		st := ustack.NewUStack()
		ps := make([]*vProc, n)
		for i := range ps {
			ps[i] = newProc(fmt.Sprint("p", i))
			st.AppendDataProcessor(ps[i])
		}
		var fs []*vFeat
		for i := r.Intn(3) * (1 + r.Intn(6)); i > 0; i-- {
			f := &vFeat{Feature: ustack.NewFeatBase(), name: fmt.Sprint("f", i)}
			fs = append(fs, f)
			st.AddFeature(f)
		}
		runs := 1 + r.Intn(2)
		for k := 0; k < runs; k++ {
			st.Run()
		}
		ep := ustack.NewEndPoint("e", 0)
		tr := newTrans("t")
		st.AddEndPoint(ep)
		st.AddTransport(tr)
		for _, f := range fs {
			if f.runs != runs {
				t.Errorf("feature %s ran %d times in %d starts of the stack", f.name, f.runs, runs)
			}
		}
		for i, p := range ps {
			if p.runs != runs {
				t.Errorf("processor %d of %d ran %d times in %d starts of the stack", i, n, p.runs, runs)
			}
			if p.st != st {
				t.Errorf("processor %d of %d does not know its stack", i, n)
			}
			if len(p.upper) == 0 || len(p.lower) == 0 {
				t.Errorf("processor %d of %d is not linked", i, n)
				return
			}
			up, low := p.upper[len(p.upper)-1], p.lower[len(p.lower)-1]
			if i > 0 && up != ustack.DataProcessor(ps[i-1]) {
				t.Errorf("upper neighbour of processor %d of %d is not the one appended before it", i, n)
			}
			if i < n-1 && low != ustack.DataProcessor(ps[i+1]) {
				t.Errorf("lower neighbour of processor %d of %d is not the one appended after it", i, n)
			}
			if _, ok := up.(*ustack.UpperDeck); i == 0 && !ok {
				t.Errorf("upper neighbour of the first processor is %T", up)
			}
			if _, ok := low.(*ustack.LowerDeck); i == n-1 && !ok {
				t.Errorf("lower neighbour of the last processor is %T", low)
			}
		}
		if t.Failed() {
			return
		}
		// one message in each direction passes every processor once
		conn := &vConn{name: "c", ref: true, inref: []interface{}{"up"}}
		conn.wait = make(chan bool)
		tr.next <- conn
		select {
		case d := <-ep.GetRxChannel():
			if d.GetData() != "up" {
				t.Errorf("received %v instead of up", d.GetData())
			}
		case <-time.After(3 * time.Second):
			t.Errorf("with %d processors a received message does not reach the endpoint", n)
		}
		ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(conn).SetData("down")
		if !verifWait(func() bool { conn.Lock(); defer conn.Unlock(); return len(conn.outref) > 0 }) {
			t.Errorf("with %d processors a sent message does not reach the connection", n)
		}
		for i, p := range ps {
			p.mu.Lock()
			if len(p.ups) != 1 || len(p.downs) != 1 {
				t.Errorf("processor %d of %d saw %d messages up and %d down instead of one each", i, n, len(p.ups), len(p.downs))
			}
			p.mu.Unlock()
		}
		close(conn.wait)
		close(tr.next)
	})
}

func TestVerifC13(t *testing.T) {
	rounds := 0
	verifLoop(t, 10*time.Second, 300, func(r *rand.Rand) {
		rounds++
		st := ustack.NewUStack()
		ud := ustack.NewUpperDeck()
		low := newNode()
		ud.SetUStack(st)
		ud.SetLower(low)
		added := func(ep ustack.EndPoint) {
			ud.OnEvent(ustack.Event{Type: ustack.UStackEventEndpointAdded, Source: st, Data: ep})
		}
		deleted := func(ep ustack.EndPoint) {
			ud.OnEvent(ustack.Event{Type: ustack.UStackEventEndpointDeleted, Source: st, Data: ep})
		}
		route := map[int]ustack.EndPoint{}
		var all []ustack.EndPoint
		viaRun := r.Intn(3) == 0
		n := 1 + r.Intn(4)
		pool := []int{0, 1, 2, 3, 4}
		if r.Intn(2) == 0 {
			pool = []int{0, 1, 256, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, -1}
		}
		for i := 0; i < n; i++ {
			s := pool[r.Intn(len(pool))]
			ep := ustack.NewEndPoint(fmt.Sprint("e", i), s)
			all = append(all, ep)
			if viaRun {
				st.AddEndPoint(ep)
			} else {
				added(ep)
				if r.Intn(3) == 0 {
					added(ep)
				}
			}
			if route[s] == nil {
				route[s] = ep
			}
		}
		if viaRun {
			ud.Run()
		}
		hist := fmt.Sprintf("%d endpoints (from Run: %v)", n, viaRun)
		for step := 0; step < 6 && !t.Failed(); step++ {
			conn := &vConn{name: "c"}
			switch r.Intn(3) {
			case 0: // delete one
				i := r.Intn(n)
				deleted(all[i])
				hist += fmt.Sprintf(", deleted session %d", all[i].GetSession())
				if route[all[i].GetSession()] == all[i] {
					delete(route, all[i].GetSession())
				}
			case 1: // receive
				c := ustack.NewUStackContext().SetConnection(conn).SetMessage("m")
				s := pool[r.Intn(len(pool))]
				if r.Intn(2) == 0 {
					s = all[r.Intn(n)].GetSession()
				}
				if r.Intn(4) == 0 {
					s = 0
				} else {
					c.SetOption("session", s)
				}
				if !verifNoPanic(t, hist, func() { ud.OnLowerData(c) }) {
					return
				}
				for _, ep := range all {
					want := 0
					if route[s] == ep {
						want = 1
					}
					if got := len(ep.GetRxChannel()); got != want {
						t.Errorf("%s: message of session %d put %d times on the queue of endpoint %s of session %d, %d expected", hist, s, got, ep.GetName(), ep.GetSession(), want)
					} else if got == 1 {
						d := <-ep.GetRxChannel()
						if d.GetData() != "m" || d.GetConnection() != ustack.TransportConnection(conn) {
							t.Errorf("%s: the queued datum is %v on %v", hist, d.GetData(), d.GetConnection())
						}
					}
				}
			case 2: // send
				for s, ep := range route {
					var data interface{} = fmt.Sprint("d", step)
					var on ustack.TransportConnection = conn
					if r.Intn(4) == 0 {
						data = nil
					}
					if r.Intn(4) == 0 {
						on = nil
					}
					d := ustack.NewEndPointData().SetConnection(on).SetData(data)
					want := s
					if r.Intn(2) == 0 {
						want = pool[r.Intn(len(pool))]
						d.SetDestinationSession(want)
					}
					ep.GetTxChannel() <- d
					var l []vMsg
					if !verifWait(func() bool { low.mu.Lock(); defer low.mu.Unlock(); return len(low.log) > 0 }) {
						t.Errorf("%s: a message sent by endpoint of session %d never goes down", hist, s)
						return
					}
					l = low.take()
					if len(l) != 1 || l[0].msg != data || l[0].conn != on || l[0].sess != want {
						t.Errorf("%s: endpoint of session %d sent to session %d: went down as %v with session %v (%d messages)", hist, s, want, l[0].msg, l[0].sess, len(l))
					}
				}
			}
		}
		if rounds <= 12 && rounds%2 == 0 {
			hist += ", messages queued"
			low.mu.Lock() // holds the serving goroutines up
			for _, ep := range route {
				for j := 0; j < 200; j++ {
					select {
					case ep.GetTxChannel() <- ustack.NewEndPointData().SetData("queued"):
					default:
					}
				}
			}
		}
		for _, ep := range route {
			deleted(ep)
		}
		if rounds <= 12 && rounds%2 == 0 {
			low.mu.Unlock()
		}
		if rounds <= 12 {
			// a deleted endpoint is no longer served
			time.Sleep(300 * time.Millisecond)
			low.take()
			for _, ep := range all {
				for len(ep.GetTxChannel()) > 0 {
					select {
					case <-ep.GetTxChannel():
					default:
					}
				}
				select {
				case ep.GetTxChannel() <- ustack.NewEndPointData().SetData("late"):
				default:
				}
			}
			time.Sleep(100 * time.Millisecond)
			if l := low.take(); len(l) != 0 {
				t.Errorf("%s: a message sent by an endpoint after its deletion went down: %v", hist, l[0].msg)
			}
		}
	})
}

func TestVerifC14(t *testing.T) {
	verifLoop(t, 6*time.Second, 3000, func(r *rand.Rand) {
		st := ustack.NewUStack()
		var log []string
		ev := ustack.Event{Type: 77, Source: "s", Data: &vConn{}}
		note := func(who string, e ustack.Event) {
			if e == ev {
				log = append(log, who)
			} else if e.Type == 77 {
				log = append(log, who+" got another event")
			}
		}
		nl, ne, np := r.Intn(4)*(1+r.Intn(5)), r.Intn(4)*(1+r.Intn(5)), r.Intn(4)*(1+r.Intn(5))
		pick := r.Intn(5)
		var want []string
		for i := 0; i < nl; i++ {
			id := fmt.Sprint("listener", i)
			st.SetEventListener(func(e ustack.Event) { note(id, e) })
			want = append(want, id)
		}
		for i := 0; i < ne; i++ {
			id := fmt.Sprint("endpoint", i)
			ep := ustack.NewEndPoint(id, i)
			if r.Intn(4) > 0 {
				ep.SetEventListener(func(e ustack.EndPoint, v ustack.Event) {
					if e != ep {
						note(id+" with another endpoint", v)
					} else {
						note(id, v)
					}
				})
				want = append(want, id)
			}
			st.AddEndPoint(ep)
			if pick == 0 {
				ev.Data = ep
			}
		}
		for i := 0; i < np; i++ {
			p := newProc(fmt.Sprint("processor", i))
			p.note = note
			st.AppendDataProcessor(p)
			want = append(want, p.id)
			if pick == 1 {
				ev.Source = p
			}
			if pick == 2 {
				ev.Data = p
			}
		}
		if pick == 3 {
			ev.Source, ev.Data = st, nil
		}
		if r.Intn(2) == 0 {
			st.Run()
		}
		if !verifNoPanic(t, "publish", func() { st.PublishEvent(ev) }) {
			return
		}
		if !reflect.DeepEqual(log, want) && len(log)+len(want) > 0 {
			t.Errorf("an event published with %d listeners, %d endpoints, %d processors reached %v instead of %v", nl, ne, np, log, want)
		}
	})
}

func TestVerifC15(t *testing.T) {
	verifLoop(t, 6*time.Second, 3000, func(r *rand.Rand) {
		st := ustack.NewUStack()
		var evs []ustack.Event
		st.SetEventListener(func(e ustack.Event) { evs = append(evs, e) })
		eps := []ustack.EndPoint{ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 1), ustack.NewEndPoint("c", 1), ustack.NewEndPoint("d", 2)}
		trs := []ustack.Transport{newTrans("a"), newTrans("b"), newTrans("c"), newTrans("d")}
		var me []ustack.EndPoint
		var mt []ustack.Transport
		hist := ""
		for k := r.Intn(12); k >= 0 && !t.Failed(); k-- {
			evs = nil
			i := r.Intn(4)
			add, tr := r.Intn(2) == 0, r.Intn(2) == 0
			hist += fmt.Sprintf(" add=%v transport=%v %d;", add, tr, i)
			var want []ustack.Event
			at := -1
			if tr {
				for j, x := range mt {
					if x == trs[i] {
						at = j
					}
				}
			} else {
				for j, x := range me {
					if x == eps[i] {
						at = j
					}
				}
			}
			ok := verifNoPanic(t, hist, func() {
				switch {
				case tr && add:
					st.AddTransport(trs[i])
					if at < 0 {
						mt = append(mt, trs[i])
						want = []ustack.Event{{Type: ustack.UStackEventTransportAdded, Source: st, Data: trs[i]}}
					}
				case tr:
					st.DeleteTransport(trs[i])
					if at >= 0 {
						mt = append(append([]ustack.Transport{}, mt[:at]...), mt[at+1:]...)
						want = []ustack.Event{{Type: ustack.UStackEventTransportDeleted, Source: st, Data: trs[i]}}
					}
				case add:
					st.AddEndPoint(eps[i])
					if at < 0 {
						me = append(me, eps[i])
						want = []ustack.Event{{Type: ustack.UStackEventEndpointAdded, Source: st, Data: eps[i]}}
					}
				default:
					st.DeleteEndPoint(eps[i])
					if at >= 0 {
						me = append(append([]ustack.EndPoint{}, me[:at]...), me[at+1:]...)
						want = []ustack.Event{{Type: ustack.UStackEventEndpointDeleted, Source: st, Data: eps[i]}}
					}
				}
			})
			if !ok {
				return
			}
			if len(evs) != len(want) || (len(want) == 1 && (evs[0].Type != want[0].Type || evs[0].Data != want[0].Data)) {
				t.Errorf("history%s: announced %v instead of %v", hist, evs, want)
			}
			ge, gt := st.GetEndPoint(), st.GetTransport()
			same := len(ge) == len(me) && len(gt) == len(mt)
			for j := 0; same && j < len(me); j++ {
				same = ge[j] == me[j]
			}
			for j := 0; same && j < len(mt); j++ {
				same = gt[j] == mt[j]
			}
			if !same {
				t.Errorf("history%s: registries hold %d endpoints and %d transports, or in another order, instead of %d and %d", hist, len(ge), len(gt), len(me), len(mt))
			}
		}
		var fs []*vFeat
		for k := r.Intn(4); k > 0; k-- {
			f := &vFeat{Feature: ustack.NewFeatBase(), name: fmt.Sprint("f", r.Intn(3))}
			fs = append(fs, f)
			st.AddFeature(f)
		}
		for k := 0; k < 3; k++ {
			var want ustack.Feature
			for _, f := range fs {
				if f.name == fmt.Sprint("f", k) {
					want = f
					break
				}
			}
			if got := st.GetFeature(fmt.Sprint("f", k)); got != want {
				t.Errorf("feature f%d of %d features: got %v", k, len(fs), got)
			}
		}
	})
}

func TestVerifC17(t *testing.T) {
	defer verifQuiet()()
	// detection: connections last heard of at known times, checked by the running processor
	var wg sync.WaitGroup
	for _, cl := range []bool{true, false} {
		for _, timeout := range []int{1, 2, 4} {
			cl, timeout := cl, timeout
			wg.Add(1)
			go func() {
				defer wg.Done()
				what := fmt.Sprintf("timeout %d s, CloseOnLost %v", timeout, cl)
				hb := ustack.NewHeartbeat()
				hb.SetOption("TimeoutInSecond", timeout).SetOption("CloseOnLost", cl).SetOption("IntervalInSecond", 1)
				g := newRig(hb, 64, 3)
				var mu sync.Mutex
				lost := map[ustack.TransportConnection]int{}
				when := map[ustack.TransportConnection]time.Time{}
				g.st.SetEventListener(func(e ustack.Event) {
					if e.Type == ustack.UStackEventHeartbeatLost {
						mu.Lock()
						c := e.Data.(ustack.TransportConnection)
						lost[c]++
						when[c] = time.Now()
						mu.Unlock()
					}
				})
				silent, silent2, alive, byref := &vConn{name: "silent"}, &vConn{name: "silent2"}, &vConn{name: "alive"}, &vConn{name: "ref", ref: true}
				// between two of the checks, which are a second apart
				time.Sleep(500 * time.Millisecond)
				start := time.Now()
				for _, c := range []*vConn{silent, silent2, alive, byref} {
					hb.OnEvent(ustack.Event{Type: ustack.UStackEventNewConnection, Data: c})
				}
				end := start.Add(time.Duration(timeout)*time.Second + 2200*time.Millisecond)
				beats := 0
				for time.Now().Before(end) {
					c := ustack.NewUStackContext().SetConnection(alive)
					ub := ustack.UBufAlloc(16)
					ub.WriteByte(ustack.HeartbeatSelfMessageTag)
					hb.OnLowerData(c.SetBuffer(ub))
					// user messages and short ones on the silent connection are no heartbeats
					c2 := ustack.NewUStackContext().SetConnection(silent)
					ub2 := ustack.UBufAlloc(16)
					ub2.WriteByte(ustack.HeartbeatUplayerMessageTag)
					ub2.WriteByte(ustack.HeartbeatSelfMessageTag)
					hb.OnLowerData(c2.SetBuffer(ub2))
					hb.OnLowerData(ustack.NewUStackContext().SetConnection(silent).SetBuffer(ustack.UBufAlloc(4)))
					beats++
					time.Sleep(50 * time.Millisecond)
				}
				mu.Lock()
				defer mu.Unlock()
				if lost[silent] != 1 {
					t.Errorf("%s: connection silent since %v announced lost %d times", what, time.Since(start), lost[silent])
				} else if d := when[silent].Sub(start); d < time.Duration(timeout)*time.Second-20*time.Millisecond {
					t.Errorf("%s: connection announced lost after %v", what, d)
				}
				for _, c := range []*vConn{silent, silent2} {
					if d := when[c].Sub(start); lost[c] != 1 || d > time.Duration(timeout)*time.Second+1300*time.Millisecond {
						t.Errorf("%s: connection %s announced lost %d times, after %v", what, c.name, lost[c], d)
					}
				}
				if lost[alive] != 0 {
					t.Errorf("%s: connection that sends heartbeats announced lost", what)
				}
				if lost[byref] != 0 {
					t.Errorf("%s: by-reference connection announced lost", what)
				}
				want := 0
				if cl {
					want = 1
				}
				silent.Lock()
				if silent.closes != want {
					t.Errorf("%s: lost connection closed %d times", what, silent.closes)
				}
				silent.Unlock()
				if alive.Closed() || byref.Closed() {
					t.Errorf("%s: a connection that is not lost was closed", what)
				}
				up := g.up.take()
				for _, m := range up {
					if m.conn != ustack.TransportConnection(silent) || !bytes.Equal(m.buf, []byte{ustack.HeartbeatSelfMessageTag}) {
						t.Errorf("%s: %x passed up", what, m.buf)
						break
					}
				}
				if len(up) != beats {
					t.Errorf("%s: %d of %d user messages passed up", what, len(up), beats)
				}
				down := g.low.take()
				n := map[ustack.TransportConnection]int{}
				for _, m := range down {
					n[m.conn]++
					if !bytes.Equal(m.buf, []byte{ustack.HeartbeatSelfMessageTag}) {
						t.Errorf("%s: sent %x as heartbeat", what, m.buf)
						break
					}
				}
				if n[byref] != 0 {
					t.Errorf("%s: heartbeat sent on a by-reference connection", what)
				}
				if n[alive] == 0 || n[silent] == 0 {
					t.Errorf("%s: no heartbeats sent", what)
				}
				// a closed connection gets no more heartbeats and is not reported any more
				alive.Close()
				time.Sleep(1300 * time.Millisecond)
				g.low.take()
				l0 := lost[alive]
				mu.Unlock()
				time.Sleep(time.Duration(timeout)*time.Second + 1200*time.Millisecond)
				mu.Lock()
				for _, m := range g.low.take() {
					if m.conn == ustack.TransportConnection(alive) {
						t.Errorf("%s: heartbeat sent on a closed connection", what)
					}
				}
				if lost[alive] != l0 {
					t.Errorf("%s: a closed connection was announced lost", what)
				}
			}()
		}
	}
	wg.Wait()
}

func TestVerifC23(t *testing.T) {
	verifLoop(t, 10*time.Second, 200, func(r *rand.Rand) {
		st := ustack.NewUStack().SetOption("MTU", 8+r.Intn(8))
		viaRun := r.Intn(2) == 0
		if !viaRun {
			st.Run()
		}
		ld := ustack.NewLowerDeck()
		up := newNode()
		ld.SetUStack(st)
		ld.SetUpper(up)
		var mu sync.Mutex
		closedEv := map[ustack.TransportConnection]int{}
		newEv := map[ustack.TransportConnection]int{}
		st.SetEventListener(func(e ustack.Event) {
			mu.Lock()
			defer mu.Unlock()
			switch e.Type {
			case ustack.UStackEventConnectionClosed:
				closedEv[e.Data.(ustack.TransportConnection)]++
			case ustack.UStackEventNewConnection:
				newEv[e.Data.(ustack.TransportConnection)]++
			}
		})
		// receiving
		tr := newTrans("t")
		if viaRun {
			st.AddTransport(tr)
			ld.Run()
		} else {
			ld.OnEvent(ustack.Event{Type: ustack.UStackEventTransportAdded, Data: tr})
		}
		if tr.runs != 1 {
			t.Errorf("added transport ran %d times", tr.runs)
		}
		var conns []*vConn
		want := map[*vConn][]byte{}
		wantref := map[*vConn][]interface{}{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			c := &vConn{name: fmt.Sprint("c", i), ref: r.Intn(3) == 0}
			for k := r.Intn(5); k > 0; k-- {
				b := verifBytes(r, 1+r.Intn(20))
				if c.ref {
					c.inref = append(c.inref, string(b))
					wantref[c] = append(wantref[c], string(b))
				} else {
					c.in = append(c.in, b)
					want[c] = append(want[c], b...)
				}
			}
			if !c.ref && r.Intn(3) == 0 {
				c.empty = true
			}
			conns = append(conns, c)
			tr.next <- c
		}
		done := func() bool {
			mu.Lock()
			defer mu.Unlock()
			for _, c := range conns {
				if closedEv[c] == 0 {
					return false
				}
			}
			return true
		}
		if !verifWait(done) {
			t.Errorf("a failed or empty receive is not announced as closing")
		}
		time.Sleep(200 * time.Microsecond)
		got := map[*vConn][]byte{}
		gotref := map[*vConn][]interface{}{}
		for _, m := range up.take() {
			c := m.conn.(*vConn)
			if c.ref {
				gotref[c] = append(gotref[c], m.msg)
			} else {
				if len(m.buf) == 0 {
					t.Errorf("an empty receive was passed up")
				}
				got[c] = append(got[c], m.buf...)
			}
		}
		for _, c := range conns {
			if !bytes.Equal(got[c], want[c]) || !reflect.DeepEqual(gotref[c], wantref[c]) {
				t.Errorf("connection delivered %x %v, passed up %x %v", want[c], wantref[c], got[c], gotref[c])
			}
			mu.Lock()
			if newEv[c] != 1 || closedEv[c] != 1 {
				t.Errorf("connection announced new %d times and closed %d times", newEv[c], closedEv[c])
			}
			mu.Unlock()
			c.Lock()
			if !c.closed {
				t.Errorf("connection not closed after a failed or empty receive")
			}
			c.Unlock()
		}
		close(tr.next)
		ld.OnEvent(ustack.Event{Type: ustack.UStackEventTransportDeleted, Data: tr})
		if tr.stop != 1 {
			t.Errorf("deleted transport stopped %d times", tr.stop)
		}
		// sending
		for k := 0; k < 6 && !t.Failed(); k++ {
			c := &vConn{name: "s", ref: r.Intn(3) == 0}
			if r.Intn(3) == 0 {
				c.werr = fmt.Errorf("broken")
			}
			ctx := ustack.NewUStackContext().SetMessage(fmt.Sprint("m", k))
			var b []byte
			nobuf, noconn := r.Intn(4) == 0, r.Intn(6) == 0
			if !nobuf {
				b = verifBytes(r, 1+r.Intn(10))
				ub := ustack.UBufAllocWithHeadReserved(16, r.Intn(4))
				ub.Write(b)
				ctx.SetBuffer(ub)
			}
			if !noconn {
				ctx.SetConnection(c)
			}
			what := fmt.Sprintf("send (by reference %v, failing %v, no buffer %v, no connection %v)", c.ref, c.werr != nil, nobuf, noconn)
			if !verifNoPanic(t, what, func() { ld.OnUpperData(ctx) }) {
				return
			}
			nb, nr := 0, 0
			if !noconn && c.ref {
				nr = 1
			} else if !noconn && !nobuf {
				nb = 1
			}
			if len(c.out) != nb || len(c.outref) != nr || (nb == 1 && !bytes.Equal(c.out[0], b)) || (nr == 1 && c.outref[0] != fmt.Sprint("m", k)) {
				t.Errorf("%s of %x: wrote %x and references %v", what, b, c.out, c.outref)
			}
			wc := 0
			if c.werr != nil && nb+nr == 1 {
				wc = 1
			}
			mu.Lock()
			if c.closes != wc || closedEv[c] != wc {
				t.Errorf("%s: closed %d times, announced %d times, expected %d", what, c.closes, closedEv[c], wc)
			}
			mu.Unlock()
		}
	})
}
