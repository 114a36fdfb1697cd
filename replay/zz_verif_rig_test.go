package ustack_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"ustack"
)

// vConn is a scripted transport connection that records what is done to it.
type vConn struct {
	sync.Mutex
	name   string
	ref    bool
	closed bool
	closes int
	in     [][]byte      // chunks to receive
	inref  []interface{} // references to receive
	out    [][]byte
	outref []interface{}
	werr   error
	wmax   int
	rerr   error // error after the chunks
	rboth  bool  // the error comes together with the last chunk
	hold   chan bool
	wait   chan bool // references end when this is closed
	empty  bool      // the stream ends with an empty read
}

func (c *vConn) GetName() string { return c.name }
func (c *vConn) Read(p []byte) (int, error) {
	c.Lock()
	defer c.Unlock()
	if len(c.in) == 0 {
		if c.empty {
			return 0, nil
		}
		if c.rerr == nil {
			return 0, errors.New("eof")
		}
		return 0, c.rerr
	}
	n := copy(p, c.in[0])
	c.in[0] = c.in[0][n:]
	if len(c.in[0]) == 0 {
		c.in = c.in[1:]
		if len(c.in) == 0 && c.rboth {
			return n, errors.New("eof with data")
		}
	}
	return n, nil
}
func (c *vConn) Write(p []byte) (int, error) {
	c.Lock()
	defer c.Unlock()
	c.out = append(c.out, append([]byte{}, p...))
	if c.werr != nil {
		return 0, c.werr
	}
	return len(p), nil
}
func (c *vConn) UseReference() bool { return c.ref }
func (c *vConn) GetReference() (interface{}, error) {
	c.Lock()
	defer c.Unlock()
	if len(c.inref) == 0 {
		if c.wait != nil {
			w := c.wait
			c.Unlock()
			<-w
			c.Lock()
		}
		return nil, errors.New("eof")
	}
	v := c.inref[0]
	c.inref = c.inref[1:]
	return v, nil
}
func (c *vConn) SetReference(p interface{}) error {
	c.Lock()
	defer c.Unlock()
	c.outref = append(c.outref, p)
	return c.werr
}
func (c *vConn) Close() {
	c.Lock()
	defer c.Unlock()
	c.closed = true
	c.closes++
}
func (c *vConn) Closed() bool {
	c.Lock()
	defer c.Unlock()
	return c.closed
}

// vMsg is one message handed to a neighbour.
type vMsg struct {
	down    bool
	ctx     ustack.Context
	conn    ustack.TransportConnection
	msg     interface{}
	ub      *ustack.UBuf
	buf     []byte
	head    int
	tail    int
	sess    interface{}
	at      *vNode
	isEvent bool
	ev      ustack.Event
}

func vPeek(ub *ustack.UBuf) []byte {
	if ub == nil {
		return nil
	}
	b := make([]byte, ub.ReadableLength())
	ub.Peek(b)
	return b
}

// vNode is a recording neighbour.
type vNode struct {
	ustack.DataProcessor
	mu   sync.Mutex
	log  []vMsg
	over int
	on   func(vMsg)
}

func newNode() *vNode { return &vNode{DataProcessor: ustack.NewProcBase()} }
func (n *vNode) rec(down bool, c ustack.Context) {
	m := vMsg{down: down, ctx: c, conn: c.GetConnection(), msg: c.GetMessage(), ub: c.GetBuffer(), sess: c.GetOption("session"), at: n}
	if b, ok := m.msg.([]byte); ok && b != nil {
		m.msg = append([]byte{}, b...)
	}
	if m.ub != nil {
		m.buf, m.head, m.tail = vPeek(m.ub), m.ub.HeadWritableLength(), m.ub.TailWritableLength()
	}
	n.mu.Lock()
	n.log = append(n.log, m)
	n.mu.Unlock()
	if n.on != nil {
		n.on(m)
	}
}
func (n *vNode) OnUpperData(c ustack.Context) { n.rec(true, c) }
func (n *vNode) OnLowerData(c ustack.Context) { n.rec(false, c) }
func (n *vNode) GetOverhead() int             { return n.over }
func (n *vNode) take() []vMsg {
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.log
	n.log = nil
	return l
}

// vRig is one processor between two recording neighbours in a built stack.
type vRig struct {
	dp         ustack.DataProcessor
	up, low    *vNode
	st         ustack.UStack
	mtu, extra int
}

func newRig(dp ustack.DataProcessor, mtu, extra int) *vRig {
	g := &vRig{dp: dp, up: newNode(), low: newNode(), mtu: mtu, extra: extra}
	pad := newNode()
	pad.over = extra
	g.st = ustack.NewUStack().SetOption("MTU", mtu).AppendDataProcessor(dp).AppendDataProcessor(pad)
	g.st.Run()
	dp.SetUpper(g.up)
	dp.SetLower(g.low)
	return g
}

// one sends a message through the rig and returns everything handed on.
func (g *vRig) one(down bool, c ustack.Context) []vMsg {
	if down {
		g.dp.OnUpperData(c)
	} else {
		g.dp.OnLowerData(c)
	}
	return append(g.up.take(), g.low.take()...)
}

func (g *vRig) msg(r *rand.Rand, conn ustack.TransportConnection, head int, payload []byte, tail int) (ustack.Context, *ustack.UBuf) {
	c := ustack.NewUStackContext().SetConnection(conn)
	ub := ustack.UBufAllocWithHeadReserved(head+len(payload)+tail+1, head)
	ub.Write(payload)
	return c.SetBuffer(ub), ub
}

func vSame(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// asIs says whether m is the untouched message.
func (m vMsg) asIs(down bool, c ustack.Context, conn ustack.TransportConnection, msg interface{}, sess interface{}, ub *ustack.UBuf, buf []byte, head int) string {
	switch {
	case m.down != down:
		return "travels in the wrong direction"
	case m.ctx != c || m.conn != conn:
		return "handed on with another context or connection"
	case !vSame(m.msg, msg):
		return fmt.Sprintf("message changed from %v to %v", msg, m.msg)
	case !vSame(m.sess, sess):
		return fmt.Sprintf("session changed from %v to %v", sess, m.sess)
	case m.ub != ub || !bytes.Equal(m.buf, buf) || (ub != nil && m.head != head):
		return fmt.Sprintf("buffer changed from %x (head room %d) to %x (%d)", buf, head, m.buf, m.head)
	}
	return ""
}
