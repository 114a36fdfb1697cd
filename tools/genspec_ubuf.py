#!/usr/bin/env python3
"""Generates contracts/ubuf.spec (the fixed-width families are regular)."""
out=[]
def p(s): out.append(s)
p('''// Generated by tools/genspec_ubuf.py. Contracts of the buffer (ubuf.go).
// rb(u,i): i-th readable byte; rl: readable length; hr/tr: head and tail room.
def capu(u) = cap(u.data.bytes)
def wf(u) = u != nil && u.data != nil && u.data.bytes != nil && len(u.data.bytes) == capu(u) && capu(u) >= 1 &&
   0 <= u.reserved && u.reserved <= capu(u) && 0 <= u.readerIndex && u.readerIndex <= u.writerIndex && u.writerIndex <= capu(u)
def rl(u) = u.writerIndex - u.readerIndex
def hr(u) = u.readerIndex
def tr(u) = capu(u) - u.writerIndex
def rb(u,i) = u.data.bytes[u.readerIndex + i]
def kept(u) = capu(u) == old(capu(u)) && u.reserved == old(u.reserved)
def samebytes(u, n) = forall(i, 0, n, rb(u, i) == old(rb(u, i)))
def unchanged(u) = u.readerIndex == old(u.readerIndex) && u.writerIndex == old(u.writerIndex) && samebytes(u, old(rl(u)))
def datasame(u) = implies(!old(u.copyOnWrite), u.data == old(u.data) && !u.copyOnWrite) && (u.data == old(u.data) || (fresh(u.data) && fresh(u.data.bytes) && !u.copyOnWrite))
def sep(s, u) = len(s) == 0 || base(s) != base(u.data.bytes)
''')
MW="ub.writerIndex, ub.copyOnWrite, ub.data, ub.data.refCount, elems(ub.data.bytes, ub.writerIndex, cap(ub.data.bytes))"
MH="ub.readerIndex, ub.copyOnWrite, ub.data, ub.data.refCount, elems(ub.data.bytes, 0, ub.readerIndex)"
# constructors
p('''
func UBufAllocWithHeadReserved(capacity, reserved) (ub)
  props C02 C01
  panics [C02] capacity <= 0 || reserved < 0 || reserved > capacity
  modifies nothing
  ensures [C01 C02] wf(ub) && fresh(ub) && fresh(ub.data) && fresh(ub.data.bytes) && !ub.copyOnWrite && ub.data.refCount == 1
  ensures [C02] capu(ub) == capacity && ub.reserved == reserved && ub.readerIndex == reserved
  ensures [C01] rl(ub) == 0
func UBufAlloc(capacity) (ub)
  props C02 C01
  panics [C02] capacity <= 0
  modifies nothing
  ensures [C01 C02] wf(ub) && fresh(ub) && fresh(ub.data) && fresh(ub.data.bytes) && !ub.copyOnWrite && ub.data.refCount == 1
  ensures [C02] capu(ub) == capacity && ub.reserved == 0 && ub.readerIndex == 0
  ensures [C01] rl(ub) == 0
func UBufFromWithHeadReserved(data, reserved) (ub)
  props C02 C01
  modifies nothing
  ensures [C02] iff(ub == nil, data == nil || cap(data) <= 0 || reserved < 0 || reserved > cap(data))
  ensures [C01 C02] implies(ub != nil, wf(ub) && fresh(ub) && fresh(ub.data) && capu(ub) == cap(data) && ub.reserved == reserved && ub.readerIndex == reserved && rl(ub) == 0 && base(ub.data.bytes) == base(data) && off(ub.data.bytes) == off(data) && !ub.copyOnWrite && ub.data.refCount == 1)
func UBufFrom(data) (ub)
  props C02 C01
  modifies nothing
  ensures [C02] iff(ub == nil, data == nil || cap(data) <= 0)
  ensures [C01 C02] implies(ub != nil, wf(ub) && fresh(ub) && fresh(ub.data) && capu(ub) == cap(data) && ub.reserved == 0 && ub.readerIndex == 0 && rl(ub) == 0 && base(ub.data.bytes) == base(data) && off(ub.data.bytes) == off(data) && !ub.copyOnWrite && ub.data.refCount == 1)
unit UBufMakeSnapshot(ub, which) (nu)
  props C02 C01
  requires ub == nil || wf(ub)
  ensures [C02] implies(nu != nil, wf(nu) && fresh(nu) && capu(nu) == old(capu(ub)) && nu.reserved == old(ub.reserved))
  ensures [C01 C02] iff(nu != nil, ub != nil && (which == UBufSnapshotTypeReference || which == UBufSnapshotTypeCopyOnWrite || which == UBufSnapshotTypeCopyDirectly))
  ensures [C01 C02] implies(ub != nil, wf(ub) && kept(ub) && unchanged(ub))
  ensures [C01] implies(nu != nil, rl(nu) == old(rl(ub)) && hr(nu) == old(hr(ub)) && forall(i, 0, rl(nu), rb(nu, i) == old(rb(ub, i))))
func (*UBuf).Reset(ub)
  props C01 C02
  requires wf(ub)
  modifies ub.readerIndex, ub.writerIndex
  ensures [C01 C02] wf(ub)
  ensures [C01] rl(ub) == 0 && hr(ub) == ub.reserved
func (*UBuf).Capacity(ub) (n)
  props C02
  requires wf(ub)
  modifies nothing
  ensures n == capu(ub)
func (*UBuf).ReadableLength(ub) (n)
  props C01 C02
  requires wf(ub)
  modifies nothing
  ensures n == rl(ub) && n >= 0
func (*UBuf).HeadWritableLength(ub) (n)
  props C02
  requires wf(ub)
  modifies nothing
  ensures n == hr(ub) && n >= 0
func (*UBuf).TailWritableLength(ub) (n)
  props C02
  requires wf(ub)
  modifies nothing
  ensures n == tr(ub) && n >= 0
func (*UBuf).Peek(ub, p) (n, err)
  props C01 C02
  requires wf(ub)
  requires sep(p, ub)
  modifies elems(p, 0, len(p))
  ensures [C01] n == min(rl(ub), len(p)) && forall(i, 0, n, p[i] == old(rb(ub, i))) && forall(i, n, len(p), p[i] == old(p[i]))
  ensures [C01] implies(n < len(p), err != nil) && implies(n == len(p) && rl(ub) > 0, err == nil)
  ensures [C01] samebytes(ub, rl(ub))
unit (*UBuf).Peek@alias(ub, p) (n, err)
  props C02
  requires wf(ub)
  ensures wf(ub) && kept(ub) && ub.readerIndex == old(ub.readerIndex) && ub.writerIndex == old(ub.writerIndex)
func (*UBuf).PeekByte(ub) (b, err)
  props C01 C02
  requires wf(ub)
  modifies nothing
  ensures [C01] implies(rl(ub) >= 1, err == nil && b == rb(ub, 0)) && implies(rl(ub) < 1, err != nil)
func (*UBuf).ReadByte(ub) (b, err)
  props C01 C02
  requires wf(ub)
  modifies ub.readerIndex
  ensures [C01 C02] wf(ub)
  ensures [C01] implies(old(rl(ub)) >= 1, err == nil && b == old(rb(ub, 0)) && hr(ub) == old(hr(ub)) + 1) && implies(old(rl(ub)) < 1, err != nil && unchanged(ub))
func (*UBuf).Read(ub, p) (n, err)
  props C01 C02
  requires wf(ub)
  requires sep(p, ub)
  modifies ub.readerIndex, elems(p, 0, len(p))
  ensures [C01 C02] wf(ub)
  ensures [C01] n == old(min(rl(ub), len(p))) && hr(ub) == old(hr(ub)) + n && forall(i, 0, n, p[i] == old(rb(ub, i))) && forall(i, n, len(p), p[i] == old(p[i]))
  ensures [C01] implies(n < len(p) && n > 0, err != nil) && implies(n == len(p), err == nil)
  ensures [C01] forall(i, 0, rl(ub), rb(ub, i) == old(rb(ub, i + n)))
unit (*UBuf).Read@alias(ub, p) (n, err)
  props C02
  requires wf(ub)
  ensures wf(ub) && kept(ub)
func (*UBuf).WriteByte(ub, c) (err)
  props C01 C02
  requires wf(ub)
  modifies %(MW)s
  ensures [C01 C02] wf(ub) && kept(ub)
  ensures datasame(ub)
  ensures [C01] implies(old(tr(ub)) >= 1, err == nil && hr(ub) == old(hr(ub)) && rl(ub) == old(rl(ub)) + 1 && samebytes(ub, old(rl(ub))) && rb(ub, old(rl(ub))) == c)
  ensures [C01] implies(old(tr(ub)) < 1, err != nil && unchanged(ub))
func (*UBuf).Write(ub, p) (n, err)
  props C01 C02
  requires wf(ub)
  modifies %(MW)s
  ensures [C01 C02] wf(ub) && kept(ub)
  ensures datasame(ub)
  ensures [C01] n == old(min(tr(ub), len(p))) && hr(ub) == old(hr(ub)) && rl(ub) == old(rl(ub)) + n
  ensures [C01] samebytes(ub, old(rl(ub))) && forall(i, 0, n, rb(ub, old(rl(ub)) + i) == old(p[i]))
  ensures [C01] implies(n < len(p), err != nil) && implies(n == len(p) && old(tr(ub)) > 0, err == nil)
func (*UBuf).WriteHeadByte(ub, c) (err)
  props C01 C02
  requires wf(ub)
  modifies %(MH)s
  ensures [C01 C02] wf(ub) && kept(ub)
  ensures datasame(ub)
  ensures [C01] implies(old(hr(ub)) >= 1, err == nil && hr(ub) == old(hr(ub)) - 1 && ub.writerIndex == old(ub.writerIndex) && rb(ub, 0) == c && forall(i, 0, old(rl(ub)), rb(ub, i + 1) == old(rb(ub, i))))
  ensures [C01] implies(old(hr(ub)) < 1, err != nil && unchanged(ub))
func (*UBuf).WriteHeadBytes(ub, p) (err)
  props C01 C02
  requires wf(ub)
  modifies %(MH)s
  ensures [C01 C02] wf(ub) && kept(ub)
  ensures datasame(ub)
  ensures [C01] implies(old(hr(ub)) >= len(p) && len(p) > 0, err == nil && hr(ub) == old(hr(ub)) - len(p) && ub.writerIndex == old(ub.writerIndex) && forall(i, 0, len(p), rb(ub, i) == old(p[i])) && forall(i, 0, old(rl(ub)), rb(ub, i + len(p)) == old(rb(ub, i))))
  ensures [C01] implies(old(hr(ub)) < len(p), err != nil)
  ensures [C01] implies(old(hr(ub)) < len(p) || len(p) == 0, unchanged(ub))
unit (*UBuf).ReadFrom(ub, r) (n, err)
  props C05 C02 C01
  requires wf(ub)
  requires r != nil && opaque(r)
  ensures [C01 C02 C05] wf(ub) && kept(ub)
  ensures [C05] implies(old(tr(ub)) <= 0, n == 0 && ncalls() == 0 && unchanged(ub))
  ensures [C05] implies(old(tr(ub)) > 0, ncalls() == 1 && evis(0, Read) && evrecv(0) == r && n == evlen(0) && evtail(0) >= 1 && evr1(0) == err)
  ensures [C01 C05] implies(old(tr(ub)) > 0, hr(ub) == old(hr(ub)) && rl(ub) == old(rl(ub)) + n && samebytes(ub, old(rl(ub))) && forall(i, 0, n, rb(ub, old(rl(ub)) + i) == evbyte(0, i)))
unit (*UBuf).WriteTo(ub, w) (n, err)
  props C05 C02 C01
  requires wf(ub)
  requires w != nil && opaque(w)
  ensures [C01 C02 C05] wf(ub) && kept(ub)
  ensures [C05] implies(old(rl(ub)) <= 0, n == 0 && ncalls() == 0 && unchanged(ub))
  ensures [C05] implies(old(rl(ub)) > 0, ncalls() == 1 && evis(0, Write) && evrecv(0) == w && evlen(0) == old(rl(ub)) && forall(i, 0, old(rl(ub)), evbyte(0, i) == old(rb(ub, i))))
  ensures [C05] implies(old(rl(ub)) > 0, n == as(evr0(0), int) && evr1(0) == err)
  ensures [C01 C05] implies(old(rl(ub)) > 0, hr(ub) == old(hr(ub)) + n && ub.writerIndex == old(ub.writerIndex) && forall(i, 0, rl(ub), rb(ub, i) == old(rb(ub, i + n))))
'''%dict(MW=MW,MH=MH))
for w in (16,32,64):
    n=w//8
    for e in ('','BE','LE'):
        be = e!='LE'
        name=f'U{w}{e}'
        def val(u):
            # value from the readable bytes
            idx=range(n) if be else range(n-1,-1,-1)
            return ' + '.join(f'{256**(n-1-k)} * rb({u}, {i})' for k,i in enumerate(idx))
        def byte(v,i):
            k = n-1-i if be else i
            return f'{v} / {256**k} % 256' if k else f'{v} % 256'
        V=val('ub')
        p(f'''func (*UBuf).Peek{name}(ub) (v, err)
  props C03 C01 C02
  requires wf(ub)
  modifies nothing
  ensures [C01 C03] implies(rl(ub) < {n}, err != nil)
  ensures [C01 C03] implies(rl(ub) >= {n}, err == nil && v == {V})''')
        p(f'''func (*UBuf).Read{name}(ub) (v, err)
  props C03 C01 C02
  requires wf(ub)
  modifies ub.readerIndex
  ensures [C01 C02 C03] wf(ub)
  ensures [C01 C03] implies(old(rl(ub)) < {n}, err != nil && unchanged(ub))
  ensures [C01 C03] implies(old(rl(ub)) >= {n}, err == nil && hr(ub) == old(hr(ub)) + {n} && v == old({V}))''')
        p(f'''func (*UBuf).Write{name}(ub, v) (err)
  props C03 C01 C02
  requires wf(ub)
  modifies {MW}
  ensures [C01 C02 C03] wf(ub) && kept(ub)
  ensures datasame(ub)
  ensures [C01 C03] implies(old(tr(ub)) < {n}, err != nil && unchanged(ub))
  ensures [C01 C03] implies(old(tr(ub)) >= {n}, err == nil && hr(ub) == old(hr(ub)) && rl(ub) == old(rl(ub)) + {n} && samebytes(ub, old(rl(ub))))
  ensures [C01 C03] implies(old(tr(ub)) >= {n}, {' && '.join(f'rb(ub, old(rl(ub)) + {i}) == {byte("v",i)}' for i in range(n))})''')
        p(f'''func (*UBuf).WriteHead{name}(ub, v) (err)
  props C03 C01 C02
  requires wf(ub)
  modifies {MH}
  ensures [C01 C02 C03] wf(ub) && kept(ub)
  ensures datasame(ub)
  ensures [C01 C03] implies(old(hr(ub)) < {n}, err != nil && unchanged(ub))
  ensures [C01 C03] implies(old(hr(ub)) >= {n}, err == nil && hr(ub) == old(hr(ub)) - {n} && ub.writerIndex == old(ub.writerIndex) && forall(i, 0, old(rl(ub)), rb(ub, i + {n}) == old(rb(ub, i))))
  ensures [C01 C03] implies(old(hr(ub)) >= {n}, {' && '.join(f'rb(ub, {i}) == {byte("v",i)}' for i in range(n))})''')
open('/verif/contracts/ubuf.spec','w').write('\n'.join(out)+'\n')
