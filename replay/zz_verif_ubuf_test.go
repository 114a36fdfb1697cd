package ustack_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing"
	"time"

	"ustack"
)

// mbuf is the reference model of one buffer.
type mbuf struct {
	capacity, reserved, head int
	data                     []byte
}

func (m *mbuf) tail() int { return m.capacity - m.head - len(m.data) }

type vreader struct {
	data []byte
	err  error
	got  int
}

func (v *vreader) Read(p []byte) (int, error) {
	v.got = len(p)
	n := copy(p, v.data)
	return n, v.err
}

type vwriter struct {
	accept int
	err    error
	got    []byte
	calls  int
}

func (v *vwriter) Write(p []byte) (int, error) {
	v.calls++
	v.got = append([]byte(nil), p...)
	n := v.accept
	if n > len(p) {
		n = len(p)
	}
	return n, v.err
}

type ubx struct {
	u    *ustack.UBuf
	m    *mbuf
	noCk bool
}

func ubCheck(t *testing.T, hist []string, x *ubx) bool {
	if x.u.Capacity() != x.m.capacity || x.u.HeadWritableLength() != x.m.head || x.u.ReadableLength() != len(x.m.data) || x.u.TailWritableLength() != x.m.tail() {
		t.Errorf("accounts differ: got cap=%d head=%d len=%d tail=%d want cap=%d head=%d len=%d tail=%d after %v",
			x.u.Capacity(), x.u.HeadWritableLength(), x.u.ReadableLength(), x.u.TailWritableLength(), x.m.capacity, x.m.head, len(x.m.data), x.m.tail(), hist)
		return false
	}
	p := make([]byte, len(x.m.data))
	if len(p) > 0 {
		n, err := x.u.Peek(p)
		if n != len(p) || err != nil || !bytes.Equal(p, x.m.data) {
			t.Errorf("contents differ: Peek=%d,%v %v want %v after %v", n, err, p, x.m.data, hist)
			return false
		}
	}
	return true
}

func (x *ubx) fail(t *testing.T, hist []string, f string, a ...interface{}) {
	t.Errorf("%s after %v", fmt.Sprintf(f, a...), hist)
}

func encInt(le bool, w int, v uint64) []byte {
	b := make([]byte, 8)
	if le {
		binary.LittleEndian.PutUint64(b, v)
		return b[:w]
	}
	binary.BigEndian.PutUint64(b, v)
	return b[8-w:]
}

func wrInt(u *ustack.UBuf, head bool, form, w int, v uint64) error {
	type k struct {
		h bool
		f int
		w int
	}
	switch (k{head, form, w}) {
	case k{false, 0, 2}:
		return u.WriteU16(uint16(v))
	case k{false, 1, 2}:
		return u.WriteU16BE(uint16(v))
	case k{false, 2, 2}:
		return u.WriteU16LE(uint16(v))
	case k{false, 0, 4}:
		return u.WriteU32(uint32(v))
	case k{false, 1, 4}:
		return u.WriteU32BE(uint32(v))
	case k{false, 2, 4}:
		return u.WriteU32LE(uint32(v))
	case k{false, 0, 8}:
		return u.WriteU64(v)
	case k{false, 1, 8}:
		return u.WriteU64BE(v)
	case k{false, 2, 8}:
		return u.WriteU64LE(v)
	case k{true, 0, 2}:
		return u.WriteHeadU16(uint16(v))
	case k{true, 1, 2}:
		return u.WriteHeadU16BE(uint16(v))
	case k{true, 2, 2}:
		return u.WriteHeadU16LE(uint16(v))
	case k{true, 0, 4}:
		return u.WriteHeadU32(uint32(v))
	case k{true, 1, 4}:
		return u.WriteHeadU32BE(uint32(v))
	case k{true, 2, 4}:
		return u.WriteHeadU32LE(uint32(v))
	case k{true, 0, 8}:
		return u.WriteHeadU64(v)
	case k{true, 1, 8}:
		return u.WriteHeadU64BE(v)
	default:
		return u.WriteHeadU64LE(v)
	}
}

func rdInt(u *ustack.UBuf, peek bool, form, w int) (uint64, error) {
	type k struct {
		p bool
		f int
		w int
	}
	f16 := func(v uint16, e error) (uint64, error) { return uint64(v), e }
	f32 := func(v uint32, e error) (uint64, error) { return uint64(v), e }
	switch (k{peek, form, w}) {
	case k{false, 0, 2}:
		return f16(u.ReadU16())
	case k{false, 1, 2}:
		return f16(u.ReadU16BE())
	case k{false, 2, 2}:
		return f16(u.ReadU16LE())
	case k{false, 0, 4}:
		return f32(u.ReadU32())
	case k{false, 1, 4}:
		return f32(u.ReadU32BE())
	case k{false, 2, 4}:
		return f32(u.ReadU32LE())
	case k{false, 0, 8}:
		return u.ReadU64()
	case k{false, 1, 8}:
		return u.ReadU64BE()
	case k{false, 2, 8}:
		return u.ReadU64LE()
	case k{true, 0, 2}:
		return f16(u.PeekU16())
	case k{true, 1, 2}:
		return f16(u.PeekU16BE())
	case k{true, 2, 2}:
		return f16(u.PeekU16LE())
	case k{true, 0, 4}:
		return f32(u.PeekU32())
	case k{true, 1, 4}:
		return f32(u.PeekU32BE())
	case k{true, 2, 4}:
		return f32(u.PeekU32LE())
	case k{true, 0, 8}:
		return u.PeekU64()
	case k{true, 1, 8}:
		return u.PeekU64BE()
	default:
		return u.PeekU64LE()
	}
}

var intForms = []string{"", "BE", "LE"}

// ubStep performs one random operation on x and its model; only the classes in
// ops are used: 'b' byte operations, 'i' integers, 's' streams, 'r' reset.
func ubStep(t *testing.T, r *rand.Rand, x *ubx, name string, ops string, hist *[]string) bool {
	note := func(f string, a ...interface{}) { *hist = append(*hist, name+"."+fmt.Sprintf(f, a...)) }
	u, m := x.u, x.m
	ok := true
	bad := func(f string, a ...interface{}) {
		ok = false
		t.Errorf("%s after %v", fmt.Sprintf(f, a...), *hist)
	}
	n := r.Intn(6)
	if r.Intn(6) == 0 {
		n = r.Intn(m.capacity + 3)
	}
	switch ops[r.Intn(len(ops))] {
	case 'r':
		note("Reset()")
		u.Reset()
		m.head, m.data = m.reserved, nil
	case 'b':
		switch r.Intn(8) {
		case 0:
			b := verifBytes(r, n)
			if r.Intn(20) == 0 {
				b = nil
			}
			note("Write(%v)", b)
			tr := m.tail()
			k, err := u.Write(b)
			w := len(b)
			if w > tr {
				w = tr
			}
			if k != w || (w < len(b)) != (err != nil) && !(tr == 0 && len(b) == 0) {
				bad("Write returned %d,%v want %d", k, err, w)
			}
			m.data = append(append([]byte(nil), m.data...), b[:w]...)
		case 1:
			c := byte(r.Intn(256))
			note("WriteByte(%d)", c)
			err := u.WriteByte(c)
			if (err == nil) != (m.tail() >= 1) {
				bad("WriteByte returned %v", err)
			}
			if m.tail() >= 1 {
				m.data = append(append([]byte(nil), m.data...), c)
			}
		case 2:
			c := byte(r.Intn(256))
			note("WriteHeadByte(%d)", c)
			err := u.WriteHeadByte(c)
			if (err == nil) != (m.head >= 1) {
				bad("WriteHeadByte returned %v", err)
			}
			if m.head >= 1 {
				m.data = append([]byte{c}, m.data...)
				m.head--
			}
		case 3:
			b := verifBytes(r, n)
			note("WriteHeadBytes(%v)", b)
			err := u.WriteHeadBytes(b)
			if len(b) > 0 && (err == nil) != (m.head >= len(b)) {
				bad("WriteHeadBytes returned %v", err)
			}
			if m.head >= len(b) {
				m.data = append(append([]byte(nil), b...), m.data...)
				m.head -= len(b)
			}
		case 4, 5:
			b := make([]byte, n)
			peek := r.Intn(2) == 0
			w := len(b)
			if w > len(m.data) {
				w = len(m.data)
			}
			var k int
			var err error
			if peek {
				note("Peek(%d)", n)
				k, err = u.Peek(b)
			} else {
				note("Read(%d)", n)
				k, err = u.Read(b)
			}
			if k != w || !bytes.Equal(b[:w], m.data[:w]) || w > 0 && (w < len(b)) != (err != nil) {
				bad("returned %d,%v %v want %d %v", k, err, b, w, m.data[:w])
			}
			for _, c := range b[w:] {
				if c != 0 {
					bad("bytes beyond the reported count were written: %v count %d", b, w)
					break
				}
			}
			if !peek {
				m.data = m.data[w:]
				m.head += w
			}
		default:
			peek := r.Intn(2) == 0
			var c byte
			var err error
			if peek {
				note("PeekByte()")
				c, err = u.PeekByte()
			} else {
				note("ReadByte()")
				c, err = u.ReadByte()
			}
			if (err == nil) != (len(m.data) > 0) || err == nil && c != m.data[0] {
				bad("returned %d,%v want %v", c, err, m.data)
			}
			if !peek && len(m.data) > 0 {
				m.data = m.data[1:]
				m.head++
			}
		}
	case 'i':
		w := []int{2, 4, 8}[r.Intn(3)]
		form := r.Intn(3)
		v := r.Uint64()
		if r.Intn(3) == 0 {
			v = []uint64{0, 1, 0x80, 0xff, 0x8000, 0xffff, 0x80000000, 0xffffffff, 1 << 63, ^uint64(0)}[r.Intn(10)]
		}
		switch r.Intn(4) {
		case 0, 1:
			head := r.Intn(2) == 0
			if head {
				note("WriteHeadU%d%s(%#x)", w*8, intForms[form], v)
			} else {
				note("WriteU%d%s(%#x)", w*8, intForms[form], v)
			}
			err := wrInt(u, head, form, w, v)
			room := m.tail()
			if head {
				room = m.head
			}
			if (err == nil) != (room >= w) {
				bad("returned %v with room %d", err, room)
			}
			if room >= w {
				b := encInt(form == 2, w, v)
				if head {
					m.data = append(b, m.data...)
					m.head -= w
				} else {
					m.data = append(append([]byte(nil), m.data...), b...)
				}
			}
		default:
			peek := r.Intn(2) == 0
			note("%sU%d%s()", map[bool]string{true: "Peek", false: "Read"}[peek], w*8, intForms[form])
			v, err := rdInt(u, peek, form, w)
			if (err == nil) != (len(m.data) >= w) {
				bad("returned %v with %d readable", err, len(m.data))
			} else if err == nil {
				if !bytes.Equal(encInt(form == 2, w, v), m.data[:w]) {
					bad("returned %#x, readable bytes %v", v, m.data)
				}
				if !peek {
					m.data = m.data[w:]
					m.head += w
				}
			}
		}
	case 's':
		var e error
		if r.Intn(2) == 0 {
			e = []error{io.EOF, errors.New("x")}[r.Intn(2)]
		}
		if r.Intn(2) == 0 {
			rd := &vreader{data: verifBytes(r, n), err: e}
			if r.Intn(4) == 0 {
				rd.data = nil
			}
			note("ReadFrom(%v,%v)", rd.data, e)
			tr := m.tail()
			w := len(rd.data)
			k, err := u.ReadFrom(rd)
			if w > rd.got {
				w = rd.got
			}
			if tr == 0 {
				w = 0
				if rd.got != 0 {
					bad("reader called with no room")
				}
			} else if rd.got == 0 || rd.got > tr {
				bad("reader offered %d bytes of room %d", rd.got, tr)
				return false
			} else if e != err {
				bad("error %v reported as %v", e, err)
			}
			if k != int64(w) {
				bad("ReadFrom returned %d want %d", k, w)
			}
			m.data = append(append([]byte(nil), m.data...), rd.data[:w]...)
		} else {
			wr := &vwriter{accept: n, err: e}
			if r.Intn(3) == 0 {
				wr.accept = len(m.data)
			}
			note("WriteTo(accept %d, %v)", wr.accept, e)
			k, err := u.WriteTo(wr)
			if len(m.data) == 0 {
				if k != 0 || wr.calls != 0 {
					bad("drain of an empty buffer moved %d, %d calls", k, wr.calls)
				}
			} else {
				w := wr.accept
				if w > len(m.data) {
					w = len(m.data)
				}
				if wr.calls != 1 || !bytes.Equal(wr.got, m.data) || k != int64(w) || err != e {
					bad("WriteTo offered %v want %v, returned %d,%v want %d,%v", wr.got, m.data, k, err, w, e)
				}
				m.data = m.data[w:]
				m.head += w
			}
		}
	}
	return ok
}

func ubNew(t *testing.T, r *rand.Rand, hist *[]string) *ubx {
	c := 1 + r.Intn(24)
	if r.Intn(4) == 0 {
		c = 20 + r.Intn(60)
	}
	res := r.Intn(c + 1)
	m := &mbuf{capacity: c, reserved: res, head: res}
	var u *ustack.UBuf
	switch r.Intn(4) {
	case 0:
		m.reserved, m.head = 0, 0
		u = ustack.UBufAlloc(c)
	case 1:
		u = ustack.UBufAllocWithHeadReserved(c, res)
	case 2:
		m.reserved, m.head = 0, 0
		u = ustack.UBufFrom(make([]byte, r.Intn(c+1), c))
	default:
		u = ustack.UBufFromWithHeadReserved(make([]byte, r.Intn(c+1), c), res)
	}
	*hist = append(*hist, fmt.Sprintf("new(cap=%d,reserved=%d)", c, m.reserved))
	if u == nil {
		t.Errorf("constructor returned nil: %v", *hist)
		return nil
	}
	return &ubx{u: u, m: m}
}

func ubHistory(t *testing.T, r *rand.Rand, ops string, snaps []int) {
	var hist []string
	verifNoPanicH(t, &hist, func() {
		x := ubNew(t, r, &hist)
		if x == nil {
			return
		}
		fam := []*ubx{x}
		for i := 0; i < 40; i++ {
			k := r.Intn(len(fam))
			y := fam[k]
			if len(snaps) > 0 && len(fam) < 6 && r.Intn(6) == 0 {
				ty := snaps[r.Intn(len(snaps))]
				hist = append(hist, fmt.Sprintf("b%d=snapshot(b%d,type %d)", len(fam), k, ty))
				u := ustack.UBufMakeSnapshot(y.u, ty)
				if u == nil {
					t.Errorf("nil snapshot after %v", hist)
					return
				}
				mm := *y.m
				mm.data = append([]byte(nil), y.m.data...)
				fam = append(fam, &ubx{u: u, m: &mm})
			} else if !ubStep(t, r, y, fmt.Sprintf("b%d", k), ops, &hist) {
				return
			}
			for _, z := range fam {
				if !ubCheck(t, hist, z) {
					return
				}
			}
		}
	})
}

func verifNoPanicH(t *testing.T, hist *[]string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			t.Errorf("panic: %v after %v", e, *hist)
		}
	}()
	f()
}

func TestVerifC01(t *testing.T) {
	verifLoop(t, 8*time.Second, 60000, func(r *rand.Rand) {
		ubHistory(t, r, []string{"bbbir", "bbisr", "b"}[r.Intn(3)], [][]int{nil, {1, 2}}[r.Intn(2)])
	})
	// a snapshot of any kind shows the readable bytes of its source
	verifLoop(t, 2*time.Second, 20000, func(r *rand.Rand) {
		var hist []string
		verifNoPanicH(t, &hist, func() {
			x := ubNew(t, r, &hist)
			for i := 0; i < 6 && x != nil; i++ {
				ubStep(t, r, x, "b0", "bi", &hist)
			}
			ty := r.Intn(5) - 1
			hist = append(hist, fmt.Sprintf("snapshot(%d)", ty))
			u := ustack.UBufMakeSnapshot(x.u, ty)
			if (u != nil) != (ty >= 0 && ty <= 2) {
				t.Errorf("snapshot nil=%v after %v", u == nil, hist)
				return
			}
			if u != nil {
				ubCheck(t, hist, &ubx{u: u, m: x.m})
			}
			ubCheck(t, hist, x)
		})
	})
}

func TestVerifC02(t *testing.T) {
	verifLoop(t, 8*time.Second, 60000, func(r *rand.Rand) {
		ubHistory(t, r, []string{"bbir", "bbisr", "b", "i", "s"}[r.Intn(5)], [][]int{nil, {1, 2}}[r.Intn(2)])
	})
	for c := -3; c < 12; c++ {
		for res := -2; res < 14; res++ {
			bad := c <= 0 || res < 0 || res > c
			if verifPanics(func() { ustack.UBufAllocWithHeadReserved(c, res) }) != bad {
				t.Errorf("UBufAllocWithHeadReserved(%d,%d): panic expected %v", c, res, bad)
			}
			if res == 0 && verifPanics(func() { ustack.UBufAlloc(c) }) != (c <= 0) {
				t.Errorf("UBufAlloc(%d): panic expected %v", c, c <= 0)
			}
			if c >= 0 {
				for l := 0; l <= c; l++ {
					verifNoPanic(t, fmt.Sprintf("UBufFromWithHeadReserved(len %d cap %d, %d)", l, c, res), func() {
						u := ustack.UBufFromWithHeadReserved(make([]byte, l, c), res)
						if (u == nil) != bad {
							t.Errorf("UBufFromWithHeadReserved(len %d cap %d, %d): nil=%v", l, c, res, u == nil)
						}
						v := ustack.UBufFrom(make([]byte, l, c))
						if (v == nil) != (c == 0) {
							t.Errorf("UBufFrom(len %d cap %d): nil=%v", l, c, v == nil)
						}
					})
				}
			}
		}
	}
	if ustack.UBufFrom(nil) != nil || ustack.UBufFromWithHeadReserved(nil, 0) != nil || ustack.UBufMakeSnapshot(nil, 1) != nil {
		t.Errorf("nil argument accepted")
	}
}

func TestVerifC03(t *testing.T) {
	verifLoop(t, 8*time.Second, 60000, func(r *rand.Rand) { ubHistory(t, r, "i", [][]int{nil, {1, 2}}[r.Intn(2)]) })
}

func TestVerifC04(t *testing.T) {
	verifLoop(t, 12*time.Second, 100000, func(r *rand.Rand) {
		ubHistory(t, r, []string{"bir", "b", "i", "bisr", "bs"}[r.Intn(5)], []int{1, 1, 2})
	})
}

func TestVerifC05(t *testing.T) {
	verifLoop(t, 8*time.Second, 60000, func(r *rand.Rand) {
		ubHistory(t, r, []string{"s", "bs", "ssi"}[r.Intn(3)], [][]int{nil, {1, 2}}[r.Intn(2)])
	})
}
