package ustack_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"time"
	"ustack"
)

// vOptions drives SetOption and GetOption against a map.
func vOptions(t *testing.T, r *rand.Rand, what string, self interface{}, set func(string, interface{}) interface{}, get func(string) interface{}, touch func()) {
	model := map[string]interface{}{}
	vals := []interface{}{1, 0, "x", true, false, nil, byte(3), []byte{1, 2}}
	for i := 0; i < 8; i++ {
		k := fmt.Sprint("opt", r.Intn(3))
		v := vals[r.Intn(len(vals))]
		if got := set(k, v); got != self {
			t.Errorf("%s: SetOption returned another object", what)
		}
		model[k] = v
		touch()
		for _, q := range []string{"opt0", "opt1", "opt2", "never", ""} {
			if got := get(q); !reflect.DeepEqual(got, model[q]) {
				t.Errorf("%s: GetOption(%q) = %v, last set %v", what, q, got, model[q])
			}
		}
	}
}

func TestVerifC22(t *testing.T) {
	verifLoop(t, 6*time.Second, 200, func(r *rand.Rand) {
		same := func(what string, got, want interface{}) {
			if !reflect.DeepEqual(got, want) || (reflect.TypeOf(want) != nil && reflect.TypeOf(want).Kind() == reflect.Ptr && got != want) {
				t.Errorf("%s: got %v (%T), expected %v (%T)", what, got, got, want, want)
			}
		}
		mk := verifAll()
		mk["base"] = ustack.NewProcBase
		mk["upper"] = ustack.NewUpperDeck
		mk["lower"] = ustack.NewLowerDeck
		for name, f := range mk {
			dp, o1, o2 := f(), newNode(), newNode()
			st := ustack.NewUStack()
			n := fmt.Sprint("n", r.Intn(99))
			same(name+" SetName", dp.SetName(n), dp)
			touch := func() {
				same(name+" SetEnable", dp.SetEnable(r.Intn(2) == 0), dp)
				same(name+" ForServer", dp.ForServer(r.Intn(2) == 0), dp)
				same(name+" SetUpper", dp.SetUpper(o1), dp)
				same(name+" SetLower", dp.SetLower(o2), dp)
				same(name+" SetUStack", dp.SetUStack(st), dp)
				same(name+" GetName", dp.GetName(), n)
			}
			touch()
			vOptions(t, r, name, dp, func(k string, v interface{}) interface{} { return dp.SetOption(k, v) }, dp.GetOption, touch)
		}
		// settings of neighbours take effect exactly
		{
			dp, u, l := ustack.NewEcho(), newNode(), newNode()
			dp.SetUpper(u).SetLower(l).SetEnable(false)
			c := ustack.NewUStackContext()
			dp.OnLowerData(c)
			dp.OnUpperData(c)
			same("messages at the upper neighbour", len(u.take()), 1)
			same("messages at the lower neighbour", len(l.take()), 1)
			dp.SetEnable(true)
			dp.OnLowerData(c)
			same("messages at the upper neighbour of an enabled echo", len(u.take()), 0)
			same("messages at the lower neighbour of an enabled echo", len(l.take()), 1)
		}
		for name, tr := range map[string]ustack.Transport{"tcp": ustack.NewTCPTransport("nm"), "unix": ustack.NewUDSTransport("nm"), "reference": ustack.NewReferenceTransport("nm")} {
			tr := tr
			same(name+" initial address", tr.GetAddress(), "")
			a := fmt.Sprint("a", r.Intn(99))
			same(name+" SetAddress", tr.SetAddress(a), tr)
			touch := func() {
				same(name+" ForServer", tr.ForServer(r.Intn(2) == 0), tr)
				same(name+" GetAddress", tr.GetAddress(), a)
				same(name+" GetName", tr.GetName(), "nm")
			}
			touch()
			vOptions(t, r, name, tr, func(k string, v interface{}) interface{} { return tr.SetOption(k, v) }, tr.GetOption, touch)
		}
		{
			ft := ustack.NewFeatBase()
			n := fmt.Sprint("n", r.Intn(99))
			same("feature SetName", ft.SetName(n), ft)
			vOptions(t, r, "feature", ft, func(k string, v interface{}) interface{} { return ft.SetOption(k, v) }, ft.GetOption, func() {
				same("feature SetUStack", ft.SetUStack(ustack.NewUStack()), ft)
				same("feature GetName", ft.GetName(), n)
			})
		}
		{
			st := ustack.NewUStack()
			n := fmt.Sprint("n", r.Intn(99))
			same("stack SetName", st.SetName(n), st)
			vOptions(t, r, "stack", st, func(k string, v interface{}) interface{} { return st.SetOption(k, v) }, st.GetOption, func() {
				same("stack SetEventListener", st.SetEventListener(func(ustack.Event) {}), st)
				same("stack AppendDataProcessor", st.AppendDataProcessor(ustack.NewEcho()), st)
				same("stack AddFeature", st.AddFeature(ustack.NewFeatBase()), st)
				ep, tr := ustack.NewEndPoint("e", 0), newTrans("t")
				same("stack AddEndPoint", st.AddEndPoint(ep), st)
				same("stack AddEndPoint again", st.AddEndPoint(ep), st)
				same("stack DeleteEndPoint", st.DeleteEndPoint(ep), st)
				same("stack DeleteEndPoint again", st.DeleteEndPoint(ep), st)
				same("stack AddTransport", st.AddTransport(tr), st)
				same("stack AddTransport again", st.AddTransport(tr), st)
				same("stack DeleteTransport", st.DeleteTransport(tr), st)
				same("stack DeleteTransport again", st.DeleteTransport(tr), st)
				same("stack PublishEvent", st.PublishEvent(ustack.Event{Type: 99}), st)
				same("stack GetName", st.GetName(), n)
			})
			m := 1 + r.Intn(4000)
			same("stack SetOption MTU", st.SetOption("MTU", m).Run(), st)
			same("stack MTU", st.GetMTU(), m)
		}
		{
			ep := ustack.NewEndPoint("x", 3)
			same("endpoint name", ep.GetName(), "x")
			same("endpoint session", ep.GetSession(), 3)
			n, s := fmt.Sprint("n", r.Intn(99)), r.Intn(1<<30)-1<<29
			same("endpoint SetName", ep.SetName(n), ep)
			same("endpoint SetSession", ep.SetSession(s), ep)
			same("endpoint SetEventListener", ep.SetEventListener(nil), ep)
			same("endpoint SetDataListener", ep.SetDataListener(nil), ep)
			same("endpoint GetName", ep.GetName(), n)
			same("endpoint GetSession", ep.GetSession(), s)
			if ep.GetTxChannel() == ep.GetRxChannel() || ep.GetTxChannel() != ep.GetTxChannel() || ep.GetRxChannel() != ep.GetRxChannel() {
				t.Errorf("endpoint: channels are not distinct and fixed")
			}
		}
		{
			d, c := ustack.NewEndPointData(), &vConn{}
			same("datum connection", d.GetConnection(), nil)
			same("datum data", d.GetData(), nil)
			same("datum destination", d.HasDestinationSession(), false)
			s := r.Intn(1000)
			same("datum SetDestinationSession", d.SetDestinationSession(s), d)
			same("datum SetConnection", d.SetConnection(c), d)
			same("datum SetData", d.SetData("v"), d)
			same("datum GetConnection", d.GetConnection(), c)
			same("datum GetData", d.GetData(), "v")
			same("datum HasDestinationSession", d.HasDestinationSession(), true)
			same("datum GetDestinationSession", d.GetDestinationSession(), s)
			same("datum ClearDestinationSession", d.ClearDestinationSession(), d)
			same("datum HasDestinationSession", d.HasDestinationSession(), false)
		}
		{
			c, k := ustack.NewUStackContext(), &vConn{}
			ub := ustack.UBufAlloc(4)
			same("context connection", c.GetConnection(), nil)
			same("context message", c.GetMessage(), nil)
			same("context SetConnection", c.SetConnection(k), c)
			same("context SetBuffer", c.SetBuffer(ub), c)
			same("context SetMessage", c.SetMessage("m"), c)
			vOptions(t, r, "context", c, func(k string, v interface{}) interface{} { return c.SetOption(k, v) }, c.GetOption, func() {
				same("context GetConnection", c.GetConnection(), k)
				same("context GetBuffer", c.GetBuffer(), ub)
				same("context GetMessage", c.GetMessage(), "m")
			})
		}
		for _, v := range []interface{}{nil, 0, 5, -1, byte(0), byte(9), true, false, []byte(nil), []byte{4}, "s", int64(5), uint16(7), int8(3)} {
			_, isB := v.(byte)
			_, isI := v.(int)
			_, isF := v.(bool)
			_, isS := v.([]byte)
			d := r.Intn(100)
			b, bok := ustack.OptionParseByte(v, byte(d))
			i, iok := ustack.OptionParseInt(v, d)
			f, fok := ustack.OptionParseBool(v, d%2 == 0)
			s, sok := ustack.OptionParseByteSlice(v)
			what := fmt.Sprintf("option value %v (%T)", v, v)
			same(what+" as byte", bok, isB)
			same(what+" as int", iok, isI)
			same(what+" as bool", fok, isF)
			same(what+" as bytes", sok, isS)
			if isB {
				same(what, b, v)
			} else {
				same(what+" default byte", b, byte(d))
			}
			if isI {
				same(what, i, v)
			} else {
				same(what+" default int", i, d)
			}
			if isF {
				same(what, f, v)
			} else {
				same(what+" default bool", f, d%2 == 0)
			}
			if isS {
				same(what, s, v)
			} else if s != nil {
				t.Errorf("%s as bytes: %v", what, s)
			}
		}
	})
}
