// Contracts of the frame decoder.
// The byte stream of the connection: what is pending in its cache followed by the chunk just received.
// strm(i) is its i-th byte, fpos(j) the position of its j-th frame (length field of 4 bytes, then the payload).
def strm(i) = ufn(S, i)
def fpos(j) = ufn(pos, j)
def flen(j) = 16777216 * strm(fpos(j)) + 65536 * strm(fpos(j) + 1) + 256 * strm(fpos(j) + 2) + strm(fpos(j) + 3)
def be32b(u) = 16777216 * rb(u, 0) + 65536 * rb(u, 1) + 256 * rb(u, 2) + rb(u, 3)
def cacheof(p, c) = p.caches[c]
def pend(p, c) = ite(has(p.caches, c), rl(cacheof(p, c)), 0)
def fcap(p, c) = ite(has(p.caches, c), capu(cacheof(p, c)), p.cacheCapacity)
// the pending bytes are a proper prefix of a frame that fits
def partial(u) = rl(u) < 4 || rl(u) < 4 + be32b(u)
def apart(u, v) = u != v && u.data != v.data && base(u.data.bytes) != base(v.data.bytes)
def strlenT(p, c) = old(pend(p, c.connection)) + old(rl(c.ubuf))

group stream
  include proc
  requires p.caches != nil && p.cacheCapacity >= 4 && p.cacheCapacity <= 1099511627776
  requires context.ubuf != nil
  ghost o TransportConnection
  ghost oc *UBuf
  requires implies(has(p.caches, o), cacheof(p, o) == oc)
  requires implies(has(p.caches, context.connection), wf(cacheof(p, context.connection)) && !cacheof(p, context.connection).copyOnWrite && cacheof(p, context.connection).reserved == 0 && capu(cacheof(p, context.connection)) >= 4 && partial(cacheof(p, context.connection)) && apart(cacheof(p, context.connection), context.ubuf))
  requires implies(has(p.caches, o), wf(cacheof(p, o)) && apart(cacheof(p, o), context.ubuf))
  requires implies(has(p.caches, o) && has(p.caches, context.connection) && o != context.connection, apart(cacheof(p, o), cacheof(p, context.connection)))
  requires forall(i, 0, pend(p, context.connection), strm(i) == rb(cacheof(p, context.connection), i))
  requires forall(i, 0, rl(context.ubuf), strm(pend(p, context.connection) + i) == rb(context.ubuf, i))
  requires forallk(i, int, 0 <= strm(i) && strm(i) <= 255)
  requires fpos(0) == 0 && forallk(j, int, implies(j >= 0, fpos(j) >= 0 && fpos(j + 1) == fpos(j) + 4 + flen(j)))

// moving bytes of the chunk into the cache
def moved(cache, ub) = min(rl(ub), capu(cache) - rl(cache))
func (*FrameDecoder).fillCache(p, cache, ub) (r)
  props C06
  requires wf(cache) && wf(ub) && apart(cache, ub) && !cache.copyOnWrite && cache.reserved == 0
  modifies cache.readerIndex, cache.writerIndex, cache.copyOnWrite, cache.data, cache.data.refCount, elems(cache.data.bytes), ub.readerIndex
  ensures wf(cache) && kept(cache) && cache.data == old(cache.data) && cache.data.bytes == old(cache.data.bytes) && !cache.copyOnWrite && ub.data == old(ub.data)
  ensures wf(ub) && rl(cache) == old(rl(cache)) + old(moved(cache, ub)) && rl(ub) == old(rl(ub)) - old(moved(cache, ub)) && r == (old(moved(cache, ub)) > 0)
  ensures forall(i, 0, old(rl(cache)), rb(cache, i) == old(rb(cache, i)))
  ensures forall(i, old(rl(cache)), rl(cache), rb(cache, i) == old(rb(ub, i - rl(cache))))
  ensures forall(i, 0, rl(ub), rb(ub, i) == old(rb(ub, i + moved(cache, ub))))

unit (*FrameDecoder).OnLowerData@more(p, context)
  props C06
  merge
  patient
  include stream
  requires has(p.caches, context.connection)
  requires p.enable && !byref(context)
  requires forallk(j, int, implies(j >= 0 && fpos(j) + 4 <= pend(p, context.connection) + rl(context.ubuf), 4 + flen(j) <= fcap(p, context.connection)))
  preserves p.caches[old(context.connection)]
  preserves p.caches[o]
  preserves old(context.ubuf)
  preserves context
  loopinv has(p.caches, old(context.connection)) && wf(cacheof(p, old(context.connection))) && wf(old(context.ubuf)) && apart(cacheof(p, old(context.connection)), old(context.ubuf))
  loopinv capu(cacheof(p, old(context.connection))) == old(fcap(p, context.connection)) && !cacheof(p, old(context.connection)).copyOnWrite && cacheof(p, old(context.connection)).reserved == 0
  loopinv context.connection == old(context.connection)
  loopinv rl(cacheof(p, old(context.connection))) == strlenT(p, context) - rl(old(context.ubuf)) - fpos(ncalls())
  loopinv forall(i, 0, rl(cacheof(p, old(context.connection))), rb(cacheof(p, old(context.connection)), i) == strm(fpos(ncalls()) + i))
  loopinv forall(i, 0, rl(old(context.ubuf)), rb(old(context.ubuf), i) == strm(strlenT(p, context) - rl(old(context.ubuf)) + i))
  loopinv partial(cacheof(p, old(context.connection)))
  loopinv implies(o != old(context.connection), has(p.caches, o) == old(has(p.caches, o)))
  loopinv implies(o != old(context.connection) && old(has(p.caches, o)), cacheof(p, o) == oc)
  loopinv implies(o != old(context.connection) && old(has(p.caches, o)), wf(oc) && apart(oc, cacheof(p, old(context.connection))) && apart(oc, old(context.ubuf)))
  loopinv implies(o != old(context.connection) && old(has(p.caches, o)), rl(oc) == old(rl(oc)) && forall(i, 0, rl(oc), rb(oc, i) == old(rb(oc, i))))
  onevent OnLowerData evrecv(j) == old(p.upper) && eva0(j) == context && evconn(j) == old(context.connection) && evlen(j) == flen(j)
  onevent OnLowerData forall(i, 0, evlen(j), evbyte(j, i) == strm(fpos(j) + 4 + i))
  ensures cnt(OnLowerData, old(p.upper)) == ncalls()
  loopinv cnt(OnLowerData, old(p.upper)) == ncalls()
  ensures implies(strlenT(p, context) > 0, has(p.caches, old(context.connection)) && wf(cacheof(p, old(context.connection))) && rl(cacheof(p, old(context.connection))) == strlenT(p, context) - fpos(ncalls()) && partial(cacheof(p, old(context.connection))) && capu(cacheof(p, old(context.connection))) == old(fcap(p, context.connection)))
  ensures implies(strlenT(p, context) > 0, !cacheof(p, old(context.connection)).copyOnWrite && cacheof(p, old(context.connection)).reserved == 0 && implies(o != old(context.connection) && old(has(p.caches, o)), wf(oc) && apart(oc, cacheof(p, old(context.connection)))))
  ensures implies(strlenT(p, context) > 0, forall(i, 0, rl(cacheof(p, old(context.connection))), rb(cacheof(p, old(context.connection)), i) == strm(fpos(ncalls()) + i)))
  ensures implies(o != old(context.connection), has(p.caches, o) == old(has(p.caches, o)))
  ensures implies(o != old(context.connection) && old(has(p.caches, o)), cacheof(p, o) == oc)
  ensures implies(o != old(context.connection) && old(has(p.caches, o)), rl(oc) == old(rl(oc)) && forall(i, 0, rl(oc), rb(oc, i) == old(rb(oc, i))))

unit (*FrameDecoder).OnLowerData@first(p, context)
  props C06
  merge
  patient
  include stream
  requires !has(p.caches, context.connection)
  requires p.enable && !byref(context)
  requires forallk(j, int, implies(j >= 0 && fpos(j) + 4 <= pend(p, context.connection) + rl(context.ubuf), 4 + flen(j) <= fcap(p, context.connection)))
  preserves p.caches[old(context.connection)]
  preserves p.caches[o]
  preserves old(context.ubuf)
  preserves context
  loopinv has(p.caches, old(context.connection)) && wf(cacheof(p, old(context.connection))) && wf(old(context.ubuf)) && apart(cacheof(p, old(context.connection)), old(context.ubuf))
  loopinv capu(cacheof(p, old(context.connection))) == old(fcap(p, context.connection)) && !cacheof(p, old(context.connection)).copyOnWrite && cacheof(p, old(context.connection)).reserved == 0
  loopinv context.connection == old(context.connection)
  loopinv rl(cacheof(p, old(context.connection))) == strlenT(p, context) - rl(old(context.ubuf)) - fpos(ncalls())
  loopinv forall(i, 0, rl(cacheof(p, old(context.connection))), rb(cacheof(p, old(context.connection)), i) == strm(fpos(ncalls()) + i))
  loopinv forall(i, 0, rl(old(context.ubuf)), rb(old(context.ubuf), i) == strm(strlenT(p, context) - rl(old(context.ubuf)) + i))
  loopinv partial(cacheof(p, old(context.connection)))
  loopinv implies(o != old(context.connection), has(p.caches, o) == old(has(p.caches, o)))
  loopinv implies(o != old(context.connection) && old(has(p.caches, o)), cacheof(p, o) == oc)
  loopinv implies(o != old(context.connection) && old(has(p.caches, o)), wf(oc) && apart(oc, cacheof(p, old(context.connection))) && apart(oc, old(context.ubuf)))
  loopinv implies(o != old(context.connection) && old(has(p.caches, o)), rl(oc) == old(rl(oc)) && forall(i, 0, rl(oc), rb(oc, i) == old(rb(oc, i))))
  onevent OnLowerData evrecv(j) == old(p.upper) && eva0(j) == context && evconn(j) == old(context.connection) && evlen(j) == flen(j)
  onevent OnLowerData forall(i, 0, evlen(j), evbyte(j, i) == strm(fpos(j) + 4 + i))
  ensures cnt(OnLowerData, old(p.upper)) == ncalls()
  loopinv cnt(OnLowerData, old(p.upper)) == ncalls()
  ensures implies(strlenT(p, context) > 0, has(p.caches, old(context.connection)) && wf(cacheof(p, old(context.connection))) && rl(cacheof(p, old(context.connection))) == strlenT(p, context) - fpos(ncalls()) && partial(cacheof(p, old(context.connection))) && capu(cacheof(p, old(context.connection))) == old(fcap(p, context.connection)))
  ensures implies(strlenT(p, context) > 0, !cacheof(p, old(context.connection)).copyOnWrite && cacheof(p, old(context.connection)).reserved == 0 && implies(o != old(context.connection) && old(has(p.caches, o)), wf(oc) && apart(oc, cacheof(p, old(context.connection)))))
  ensures implies(strlenT(p, context) > 0, forall(i, 0, rl(cacheof(p, old(context.connection))), rb(cacheof(p, old(context.connection)), i) == strm(fpos(ncalls()) + i)))
  ensures implies(o != old(context.connection), has(p.caches, o) == old(has(p.caches, o)))
  ensures implies(o != old(context.connection) && old(has(p.caches, o)), cacheof(p, o) == oc)
  ensures implies(o != old(context.connection) && old(has(p.caches, o)), rl(oc) == old(rl(oc)) && forall(i, 0, rl(oc), rb(oc, i) == old(rb(oc, i))))

// the caches live from the first chunk to the end of the connection
unit NewFrameDecoder() (r)
  props C06
  ensures as(r, *FrameDecoder).caches != nil && forallk(q, TransportConnection, !has(as(r, *FrameDecoder).caches, q))
unit (*FrameDecoder).Run(p) (r)
  props C06
  ghost o TransportConnection
  requires p.ustack != nil && p.options != nil && p.caches != nil && p.ustack.mtu <= 1099511627776
  requires ite(has(p.options, "CacheCapacity") && typeis(p.options["CacheCapacity"], int), as(p.options["CacheCapacity"], int), 2 * p.ustack.mtu) >= 1
  ensures p.cacheCapacity >= ite(has(p.options, "CacheCapacity") && typeis(p.options["CacheCapacity"], int), as(p.options["CacheCapacity"], int), 2 * p.ustack.mtu)
  ensures p.caches != nil && has(p.caches, o) == old(has(p.caches, o)) && p.caches[o] == old(p.caches[o])
unit (*FrameDecoder).OnEvent(p, event)
  props C06
  ghost o TransportConnection
  requires p.caches != nil
  ensures ncalls() == 0 && p.caches != nil
  ensures implies(event.Type != UStackEventConnectionClosed || event.Data != o, has(p.caches, o) == old(has(p.caches, o)) && p.caches[o] == old(p.caches[o]))
  ensures implies(has(p.caches, o) && p.caches[o] != nil, p.caches[o].readerIndex == old(p.caches[o].readerIndex) && p.caches[o].writerIndex == old(p.caches[o].writerIndex))

// ---------------------------------------------------------------- any bytes at all
unit (*FrameDecoder).OnLowerData@any(p, context)
  props C07 C10
  merge
  include proc
  requires p.caches != nil && p.cacheCapacity >= 1
  requires implies(context.ubuf != nil && has(p.caches, context.connection), wf(cacheof(p, context.connection)) && apart(cacheof(p, context.connection), context.ubuf))
  preserves p.caches[old(context.connection)]
  preserves old(context.ubuf)
  preserves context
  loopinv has(p.caches, old(context.connection)) && wf(cacheof(p, old(context.connection))) && wf(old(context.ubuf)) && apart(cacheof(p, old(context.connection)), old(context.ubuf))
  loopinv context.connection == old(context.connection)
  ensures [C10] implies(old(byref(context)) || (!old(p.enable) && old(context.ubuf) != nil), upasis(p, context))
  onevent [C10] OnLowerData implies(old(byref(context)) || (!old(p.enable) && old(context.ubuf) != nil), untouched(context))
unit (*FrameDecoder).OnLowerData@lock(p, context)
  props C18
  merge
  lockonly
  include proc
  requires p.caches != nil && p.cacheCapacity >= 1
  requires implies(context.ubuf != nil && has(p.caches, context.connection), wf(cacheof(p, context.connection)) && apart(cacheof(p, context.connection), context.ubuf))
  preserves p.caches[old(context.connection)]
  preserves old(context.ubuf)
  preserves context
  loopinv has(p.caches, old(context.connection)) && wf(cacheof(p, old(context.connection))) && wf(old(context.ubuf)) && apart(cacheof(p, old(context.connection)), old(context.ubuf))
  loopinv context.connection == old(context.connection)
unit (*FrameDecoder).OnUpperData(p, context)
  props C08 C10 C11
  include proc
  ensures [C10] implies(!old(p.enable) || old(byref(context)), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable) || old(byref(context)), untouched(context))
  ensures [C08] implies(old(p.enable) && !old(byref(context)) && (old(context.ubuf) == nil || old(hr(context.ubuf)) < 4), ncalls() == 0)
  ensures [C08] implies(old(p.enable) && !old(byref(context)) && old(context.ubuf) != nil && old(hr(context.ubuf)) >= 4, down1(p, context) && behind(context, 4))
  ensures [C08] implies(old(p.enable) && !old(byref(context)) && old(context.ubuf) != nil && old(hr(context.ubuf)) >= 4 && old(rl(context.ubuf)) < 4294967296,
     16777216 * evbyte(0, 0) + 65536 * evbyte(0, 1) + 256 * evbyte(0, 2) + evbyte(0, 3) == old(rl(context.ubuf)))
  ensures [C11] implies(ncalls() == 1 && old(context.ubuf) != nil, old(hr(context.ubuf)) - evhead(0) <= 4)
unit (*FrameDecoder).GetOverhead(p) (n)
  props C11
  ensures n >= 4
