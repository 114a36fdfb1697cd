// Generated by tools/genspec_c04.py. Snapshot isolation (C04).
// Family invariant over any two buffers x, y other than each other: buffers that
// share storage are both marked copy-on-write and hold distinct slots below the
// storage's reference count; buffers with different storage have disjoint bytes.
// slot is a ghost witness; o and o2 stand for any other buffers of the program.
def slot(x) = ufn(slot, x)
def famone(x, s) = wf(x) && 0 <= s && s < x.data.refCount && x.data.refCount < 2147483647
def fampair(x, sx, y, sy) = x != y && ite(x.data == y.data, x.copyOnWrite && y.copyOnWrite && sx != sy, base(x.data.bytes) != base(y.data.bytes))
// the operation's buffer left its old storage and gave its slot back
def gaveback(u) = old(u.data) != u.data && as(old(u.data), *uBufData).refCount == old(u.data.refCount) - 1
def slot1(x, u) = ite(gaveback(u) && old(x.data) == old(u.data) && slot(x) == old(u.data.refCount) - 1, slot(u), slot(x))
def slotu(u) = ite(old(u.data) != u.data, 0, slot(u))
def sameview(x) = x.readerIndex == old(x.readerIndex) && x.writerIndex == old(x.writerIndex) && x.reserved == old(x.reserved) && capu(x) == old(capu(x)) && samebytes(x, old(rl(x)))
group C04
  props C04
  ghost o *UBuf
  ghost o2 *UBuf
  requires famone(ub, slot(ub)) && famone(o, slot(o)) && famone(o2, slot(o2))
  requires fampair(ub, slot(ub), o, slot(o)) && fampair(ub, slot(ub), o2, slot(o2)) && fampair(o, slot(o), o2, slot(o2))
  ensures sameview(o)
  ensures famone(ub, slotu(ub))
  ensures famone(o, slot1(o, ub))
  ensures fampair(ub, slotu(ub), o, slot1(o, ub))
  ensures fampair(o, slot1(o, ub), o2, slot1(o2, ub))
  inline (*UBuf).Write (*UBuf).WriteByte (*UBuf).WriteHeadByte (*UBuf).WriteHeadBytes (*UBuf).Read (*UBuf).ReadByte (*UBuf).Peek (*UBuf).PeekByte (*UBuf).Reset (*UBuf).WriteU16 (*UBuf).WriteHeadU16 (*UBuf).ReadU16 (*UBuf).PeekU16 (*UBuf).WriteU16BE (*UBuf).WriteHeadU16BE (*UBuf).ReadU16BE (*UBuf).PeekU16BE (*UBuf).WriteU16LE (*UBuf).WriteHeadU16LE (*UBuf).ReadU16LE (*UBuf).PeekU16LE (*UBuf).WriteU32 (*UBuf).WriteHeadU32 (*UBuf).ReadU32 (*UBuf).PeekU32 (*UBuf).WriteU32BE (*UBuf).WriteHeadU32BE (*UBuf).ReadU32BE (*UBuf).PeekU32BE (*UBuf).WriteU32LE (*UBuf).WriteHeadU32LE (*UBuf).ReadU32LE (*UBuf).PeekU32LE (*UBuf).WriteU64 (*UBuf).WriteHeadU64 (*UBuf).ReadU64 (*UBuf).PeekU64 (*UBuf).WriteU64BE (*UBuf).WriteHeadU64BE (*UBuf).ReadU64BE (*UBuf).PeekU64BE (*UBuf).WriteU64LE (*UBuf).WriteHeadU64LE (*UBuf).ReadU64LE (*UBuf).PeekU64LE

unit (*UBuf).Write@C04(ub, p) (n, err)
  include C04
unit (*UBuf).WriteByte@C04(ub, c) (err)
  include C04
unit (*UBuf).WriteHeadByte@C04(ub, c) (err)
  include C04
unit (*UBuf).WriteHeadBytes@C04(ub, p) (err)
  include C04
unit (*UBuf).Reset@C04(ub)
  include C04
unit (*UBuf).ReadByte@C04(ub) (b, err)
  include C04
unit (*UBuf).PeekByte@C04(ub) (b, err)
  include C04
unit (*UBuf).Read@C04(ub, p) (n, err)
  include C04
  requires len(p) == 0 || base(p) != base(o.data.bytes) && base(p) != base(o2.data.bytes)
unit (*UBuf).Peek@C04(ub, p) (n, err)
  include C04
  requires len(p) == 0 || base(p) != base(o.data.bytes) && base(p) != base(o2.data.bytes)
unit (*UBuf).ReadFrom@C04(ub, r) (n, err)
  include C04
  requires r != nil && opaque(r)
unit (*UBuf).WriteTo@C04(ub, w) (n, err)
  include C04
  requires w != nil && opaque(w)
unit (*UBuf).WriteU16@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU16@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU16@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU16@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU16BE@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU16BE@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU16BE@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU16BE@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU16LE@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU16LE@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU16LE@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU16LE@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU32@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU32@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU32@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU32@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU32BE@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU32BE@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU32BE@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU32BE@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU32LE@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU32LE@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU32LE@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU32LE@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU64@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU64@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU64@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU64@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU64BE@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU64BE@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU64BE@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU64BE@C04(ub) (v, err)
  include C04
unit (*UBuf).WriteU64LE@C04(ub, v) (err)
  include C04
unit (*UBuf).WriteHeadU64LE@C04(ub, v) (err)
  include C04
unit (*UBuf).ReadU64LE@C04(ub) (v, err)
  include C04
unit (*UBuf).PeekU64LE@C04(ub) (v, err)
  include C04

// a snapshot starts as the source's readable bytes and joins the family
unit UBufMakeSnapshot@C04(ub, which) (nu)
  props C04
  ghost o *UBuf
  ghost o2 *UBuf
  requires famone(ub, slot(ub)) && famone(o, slot(o)) && famone(o2, slot(o2))
  requires fampair(ub, slot(ub), o, slot(o)) && fampair(ub, slot(ub), o2, slot(o2)) && fampair(o, slot(o), o2, slot(o2))
  requires which == UBufSnapshotTypeCopyOnWrite || which == UBufSnapshotTypeCopyDirectly
  requires ub.data.refCount < 2147483646
  ensures nu != nil && wf(nu) && rl(nu) == old(rl(ub)) && hr(nu) == old(hr(ub)) && capu(nu) == old(capu(ub)) && forall(i, 0, rl(nu), rb(nu, i) == old(rb(ub, i)))
  ensures sameview(ub) && sameview(o)
  ensures famone(nu, ite(nu.data == ub.data, old(ub.data.refCount), 0)) && famone(ub, slot(ub)) && famone(o, slot(o))
  ensures fampair(nu, ite(nu.data == ub.data, old(ub.data.refCount), 0), ub, slot(ub))
  ensures fampair(nu, ite(nu.data == ub.data, old(ub.data.refCount), 0), o, slot(o))
  ensures fampair(ub, slot(ub), o, slot(o)) && fampair(o, slot(o), o2, slot(o2))

// a new buffer is no member of any existing family
unit UBufAllocWithHeadReserved@C04(capacity, reserved) (ub)
  props C04
  ghost o *UBuf
  requires capacity > 0 && reserved >= 0 && reserved <= capacity
  requires famone(o, slot(o))
  ensures famone(ub, 0) && famone(o, slot(o)) && fampair(ub, 0, o, slot(o)) && sameview(o)
unit UBufFromWithHeadReserved@C04(data, reserved) (ub)
  props C04
  ghost o *UBuf
  requires data != nil && cap(data) > 0 && reserved >= 0 && reserved <= cap(data)
  requires famone(o, slot(o)) && base(data) != base(o.data.bytes)
  ensures famone(ub, 0) && famone(o, slot(o)) && fampair(ub, 0, o, slot(o)) && sameview(o)

