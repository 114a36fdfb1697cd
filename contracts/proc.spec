// Contracts of the data processors.
// Neighbours (upper, lower) are arbitrary other processors: calls to them are
// events of the ghost trace; evX(j) is the j-th event of the operation.
def ready(p) = p.upper != nil && p.lower != nil && p.ustack != nil && p.options != nil && stackok(p.ustack)
def stackok(u) = u.mtu >= 1 && 0 <= u.overhead && u.overhead <= u.mtu
def ctxok(c) = c != nil && c.connection != nil && c.options != nil && (c.ubuf == nil || wf(c.ubuf))
def byref(c) = pure(UseReference, c.connection)
def down1(p, c) = ncalls() == 1 && evis(0, OnUpperData) && evrecv(0) == old(p.lower) && eva0(0) == c && evconn(0) == old(c.connection)
def up1(p, c) = ncalls() == 1 && evis(0, OnLowerData) && evrecv(0) == old(p.upper) && eva0(0) == c && evconn(0) == old(c.connection)
def samesess(c) = evhassess(0) == old(has(c.options, "session")) && implies(old(has(c.options, "session")), evsess(0) == old(c.options["session"]))
def samebuf(c) = evbuf(0) == old(c.ubuf) && implies(old(c.ubuf) != nil, evlen(0) == old(rl(c.ubuf)) && evhead(0) == old(hr(c.ubuf)) && evtail(0) == old(tr(c.ubuf)) && forall(i, 0, evlen(0), evbyte(0, i) == old(rb(c.ubuf, i))))
def asis(c) = evmsg(0) == old(c.message) && samesess(c) && samebuf(c)
def downasis(p, c) = down1(p, c) && asis(c)
def upasis(p, c) = up1(p, c) && asis(c)
// the message and the options of the context are those it came with
def untouched(c) = forallk(q, string, has(c.options, q) == old(has(c.options, q)) && implies(has(c.options, q), c.options[q] == old(c.options[q]))) &&
   implies(typeis(c.message, []byte), forall(i, 0, len(as(c.message, []byte)), as(c.message, []byte)[i] == old(as(c.message, []byte)[i])))
// the payload goes down behind a header of n bytes in the same buffer
def behind(c, n) = evbuf(0) == old(c.ubuf) && evlen(0) == old(rl(c.ubuf)) + n && evhead(0) == old(hr(c.ubuf)) - n && forall(i, 0, old(rl(c.ubuf)), evbyte(0, i + n) == old(rb(c.ubuf, i)))
// the payload goes up without its header of n bytes
def stripped(c, n) = evbuf(0) == old(c.ubuf) && evlen(0) == old(rl(c.ubuf)) - n && forall(i, 0, evlen(0), evbyte(0, i) == old(rb(c.ubuf, i + n)))

group proc
  requires ready(p)
  requires ctxok(context)

// ---------------------------------------------------------------- echo
unit (*Echo).OnUpperData(p, context)
  props C24 C10
  include proc
  ensures downasis(p, context)
  onevent OnUpperData untouched(context)
unit (*Echo).OnLowerData(p, context)
  props C24 C10 C07
  include proc
  ensures [C24] implies(old(p.enable), downasis(p, context))
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C24 C10] OnUpperData untouched(context)
  onevent [C24 C10] OnLowerData untouched(context)
unit (*Loopback).OnUpperData(p, context)
  props C24
  include proc
  ensures upasis(p, context)
  onevent OnLowerData untouched(context)
unit (*Loopback).OnLowerData(p, context)
  props C24 C07
  include proc
  ensures [C24] cnt(OnUpperData, p.lower) == 0
unit (*Discarder).OnUpperData(p, context)
  props C24 C10
  include proc
  ensures downasis(p, context)
  onevent OnUpperData untouched(context)
unit (*Discarder).OnLowerData(p, context)
  props C24 C10 C07
  include proc
  ensures [C24] implies(old(p.enable), ncalls() == 0)
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData untouched(context)
unit (*FlowController).OnUpperData(p, context)
  props C10
  include proc
  ensures implies(!old(p.enable), downasis(p, context))
  onevent OnUpperData implies(!old(p.enable), untouched(context))
unit (*FlowController).OnLowerData(p, context)
  props C10 C07
  include proc
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))

// ---------------------------------------------------------------- session resolver
def sess(c) = ite(has(c.options, "session") && typeis(c.options["session"], int), as(c.options["session"], int), 0)
unit (*SessionResolver).OnUpperData(p, context)
  props C08 C10 C11
  include proc
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C08] implies(old(p.enable) && (old(context.ubuf) == nil || old(hr(context.ubuf)) < 4), ncalls() == 0)
  ensures [C08] implies(old(p.enable) && old(context.ubuf) != nil && old(hr(context.ubuf)) >= 4, down1(p, context) && behind(context, 4))
  ensures [C08] implies(old(p.enable) && old(context.ubuf) != nil && old(hr(context.ubuf)) >= 4 && 0 <= old(sess(context)) && old(sess(context)) < 4294967296,
     16777216 * evbyte(0, 0) + 65536 * evbyte(0, 1) + 256 * evbyte(0, 2) + evbyte(0, 3) == old(sess(context)))
  ensures [C11] implies(ncalls() == 1, old(hr(context.ubuf)) - evhead(0) <= 4 || !old(p.enable))
unit (*SessionResolver).OnLowerData(p, context)
  props C08 C10 C07
  include proc
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C07 C08] implies(old(p.enable) && (old(context.ubuf) == nil || old(rl(context.ubuf)) < 4), ncalls() == 0)
  ensures [C08] implies(old(p.enable) && old(context.ubuf) != nil && old(rl(context.ubuf)) >= 4, up1(p, context) && stripped(context, 4) && evhassess(0) && typeis(evsess(0), int) &&
     as(evsess(0), int) == old(16777216 * rb(context.ubuf, 0) + 65536 * rb(context.ubuf, 1) + 256 * rb(context.ubuf, 2) + rb(context.ubuf, 3)))
unit (*SessionResolver).GetOverhead(p) (n)
  props C11
  ensures n >= 4

// ---------------------------------------------------------------- one-byte tag processors
unit (*LoadBalancer).OnUpperData(p, context)
  props C08 C10
  include proc
  ensures [C10] implies(old(byref(context)), downasis(p, context))
  onevent [C10] OnUpperData implies(old(byref(context)), untouched(context))
  ensures [C08] implies(!old(byref(context)) && (old(context.ubuf) == nil || old(hr(context.ubuf)) < 1), ncalls() == 0)
  ensures [C08] implies(!old(byref(context)) && !old(p.enable) && old(context.ubuf) != nil && old(hr(context.ubuf)) >= 1, down1(p, context) && behind(context, 1) && evbyte(0, 0) == LoadBalancerUplayerMessageTag)
unit (*LoadBalancer).OnLowerData(p, context)
  props C08 C10 C07
  include proc
  ensures [C10] implies(old(byref(context)), upasis(p, context))
  onevent [C10] OnLowerData implies(old(byref(context)), untouched(context))
  ensures [C07 C08] implies(!old(byref(context)) && (old(context.ubuf) == nil || old(rl(context.ubuf)) < 1), ncalls() == 0)
  ensures [C08] implies(!old(byref(context)) && (!old(p.enable) || old(rb(context.ubuf, 0)) == LoadBalancerUplayerMessageTag) && old(context.ubuf) != nil && old(rl(context.ubuf)) >= 1, up1(p, context) && stripped(context, 1) && samesess(context))
unit (*LoadBalancer).GetOverhead(p) (n)
  props C11
  ensures n >= 1

unit (*Heartbeat).OnUpperData(p, context)
  props C08 C10 C17
  include proc
  ensures [C10] implies(old(byref(context)), downasis(p, context))
  onevent [C10] OnUpperData implies(old(byref(context)), untouched(context))
  ensures [C08] implies(!old(byref(context)) && (old(context.ubuf) == nil || old(hr(context.ubuf)) < 1), ncalls() == 0)
  ensures [C08 C17] implies(!old(byref(context)) && old(context.ubuf) != nil && old(hr(context.ubuf)) >= 1, down1(p, context) && behind(context, 1) && evbyte(0, 0) == HeartbeatUplayerMessageTag)
unit (*Heartbeat).OnLowerData(p, context)
  props C08 C10 C07 C17
  include proc
  include hbtable
  ghost o TransportConnection
  ensures [C10] implies(old(byref(context)), upasis(p, context))
  onevent [C10] OnLowerData implies(old(byref(context)), untouched(context))
  ensures [C07 C08] implies(!old(byref(context)) && (old(context.ubuf) == nil || old(rl(context.ubuf)) < 1), ncalls() == 0)
  ensures [C08 C17] implies(!old(byref(context)) && old(context.ubuf) != nil && old(rl(context.ubuf)) >= 1 && old(rb(context.ubuf, 0)) != HeartbeatSelfMessageTag, up1(p, context) && stripped(context, 1) && samesess(context))
  ensures [C17] implies(!old(byref(context)) && old(context.ubuf) != nil && old(rl(context.ubuf)) >= 1 && old(rb(context.ubuf, 0)) == HeartbeatSelfMessageTag,
     ncalls() == 0 && has(p.monitors, old(context.connection)) && p.monitors[old(context.connection)] == now() &&
     implies(o != old(context.connection), has(p.monitors, o) == old(has(p.monitors, o)) && p.monitors[o] == old(p.monitors[o])))
  ensures [C17] implies(old(byref(context)) || old(context.ubuf) == nil || old(rl(context.ubuf)) < 1 || old(rb(context.ubuf, 0)) != HeartbeatSelfMessageTag,
     has(p.monitors, o) == old(has(p.monitors, o)) && p.monitors[o] == old(p.monitors[o]))
unit (*Heartbeat).GetOverhead(p) (n)
  props C11
  ensures n >= 1

unit (*StatCounter).OnUpperData(p, context)
  props C08 C10 C19
  include proc
  ensures [C10] implies(old(byref(context)), downasis(p, context))
  onevent [C10] OnUpperData implies(old(byref(context)), untouched(context))
  ensures [C08] implies(!old(byref(context)) && (old(context.ubuf) == nil || old(hr(context.ubuf)) < 1), ncalls() == 0)
  ensures [C08 C19] implies(!old(byref(context)) && old(context.ubuf) != nil && old(hr(context.ubuf)) >= 1, down1(p, context) && behind(context, 1) && evbyte(0, 0) == StatCounterUplayerMessageTag)
  ensures [C19] p.rxCounter == old(p.rxCounter) && p.txCounter == ite(old(p.enable) && !old(byref(context)) && ncalls() == 1, uint64(old(p.txCounter) + 1), old(p.txCounter))
unit (*StatCounter).OnLowerData(p, context)
  props C08 C10 C07 C19
  include proc
  requires p.ustack.overhead >= 1
  ensures [C10] implies(old(byref(context)), upasis(p, context))
  onevent [C10] OnLowerData implies(old(byref(context)), untouched(context))
  ensures [C07 C08] implies(!old(byref(context)) && (old(context.ubuf) == nil || old(rl(context.ubuf)) < 1), ncalls() == 0)
  ensures [C08 C19] implies(!old(byref(context)) && old(context.ubuf) != nil && old(rl(context.ubuf)) >= 1 && (!old(p.enable) || old(rb(context.ubuf, 0)) == StatCounterUplayerMessageTag), up1(p, context) && stripped(context, 1) && samesess(context))
  ensures [C19] implies(!old(byref(context)) && old(context.ubuf) != nil && old(rl(context.ubuf)) >= 1 && old(p.enable) && old(rb(context.ubuf, 0)) == StatCounterSelfMessageResTag, ncalls() == 0)
  ensures [C19] implies(old(isreq(p, context)), down1(p, context) && evlen(0) >= 1 && evbyte(0, 0) == StatCounterSelfMessageResTag)
  ensures [C19] implies(old(isreq(p, context)) && roomy(p), evlen(0) == 17 + len(old(p.ustack.name)))
  ensures [C19] implies(old(isreq(p, context)) && roomy(p), is64(0, 1, old(p.txCounter)))
  ensures [C19] implies(old(isreq(p, context)) && roomy(p), is64(0, 9, old(p.rxCounter)))
  ensures [C19] implies(old(isreq(p, context)) && roomy(p), forall(i, 0, len(old(p.ustack.name)), evbyte(0, 17 + i) == old(p.ustack.name)[i]))
  ensures [C19] p.txCounter == old(p.txCounter)
  ensures [C19] implies(old(byref(context)) || !old(p.enable) || ncalls() != 1 || !evis(0, OnLowerData), p.rxCounter == old(p.rxCounter))
  ensures [C19] implies(!old(byref(context)) && old(p.enable) && ncalls() == 1 && evis(0, OnLowerData), p.rxCounter == uint64(old(p.rxCounter) + 1))
def isreq(p, c) = !byref(c) && c.ubuf != nil && rl(c.ubuf) >= 1 && p.enable && rb(c.ubuf, 0) == StatCounterSelfMessageReqTag
def roomy(p) = old(p.ustack.mtu - p.ustack.overhead) >= 16 + len(old(p.ustack.name))
def is64(j, o, v) = evbyte(j, o + 0) == v / 72057594037927936 % 256 && evbyte(j, o + 1) == v / 281474976710656 % 256 && evbyte(j, o + 2) == v / 1099511627776 % 256 && evbyte(j, o + 3) == v / 4294967296 % 256 && evbyte(j, o + 4) == v / 16777216 % 256 && evbyte(j, o + 5) == v / 65536 % 256 && evbyte(j, o + 6) == v / 256 % 256 && evbyte(j, o + 7) == v % 256
unit (*StatCounter).GetOverhead(p) (n)
  props C11
  ensures n >= 1

// ---------------------------------------------------------------- codecs
def fits(p, n) = n > 0 && n <= p.ustack.mtu - p.ustack.overhead
unit (*BytesCodec).OnUpperData(p, context)
  props C09 C10 C11
  include proc
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable) && (old(context.message) == nil || !typeis(old(context.message), []byte)), ncalls() == 0)
  ensures [C09] implies(old(p.enable) && typeis(old(context.message), []byte) && !old(fits(p, len(as(context.message, []byte)))), ncalls() == 0)
  ensures [C09] implies(old(p.enable) && typeis(old(context.message), []byte) && old(fits(p, len(as(context.message, []byte)))), down1(p, context) && samesess(context) && evlen(0) == old(len(as(context.message, []byte))) && forall(i, 0, evlen(0), evbyte(0, i) == old(as(context.message, []byte)[i])))
  ensures [C11] implies(old(p.enable) && ncalls() == 1, evhead(0) == old(p.ustack.overhead) && evhead(0) + evlen(0) + evtail(0) == old(p.ustack.mtu))
unit (*BytesCodec).OnLowerData(p, context)
  props C09 C10 C07
  include proc
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable) && (old(context.ubuf) == nil || old(rl(context.ubuf)) == 0), ncalls() == 0)
  ensures [C09] implies(old(p.enable) && old(context.ubuf) != nil && old(rl(context.ubuf)) > 0, up1(p, context) && samesess(context) && typeis(evmsg(0), []byte) && len(as(evmsg(0), []byte)) == old(rl(context.ubuf)))
  onevent [C09] OnLowerData implies(old(p.enable), forall(i, 0, old(rl(context.ubuf)), as(context.message, []byte)[i] == old(rb(context.ubuf, i))))
unit (*StringCodec).OnUpperData(p, context)
  props C09 C10 C11
  include proc
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable) && (old(context.message) == nil || !typeis(old(context.message), string)), ncalls() == 0)
  ensures [C09] implies(old(p.enable) && typeis(old(context.message), string) && !old(fits(p, len(as(context.message, string)))), ncalls() == 0)
  ensures [C09] implies(old(p.enable) && typeis(old(context.message), string) && old(fits(p, len(as(context.message, string)))), down1(p, context) && samesess(context) && evlen(0) == len(as(old(context.message), string)) && forall(i, 0, evlen(0), evbyte(0, i) == as(old(context.message), string)[i]))
  ensures [C11] implies(old(p.enable) && ncalls() == 1, evhead(0) == old(p.ustack.overhead) && evhead(0) + evlen(0) + evtail(0) == old(p.ustack.mtu))
unit (*StringCodec).OnLowerData(p, context)
  props C09 C10 C07
  include proc
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable) && (old(context.ubuf) == nil || old(rl(context.ubuf)) == 0), ncalls() == 0)
  ensures [C09] implies(old(p.enable) && old(context.ubuf) != nil && old(rl(context.ubuf)) > 0, up1(p, context) && samesess(context) && typeis(evmsg(0), string) && len(as(evmsg(0), string)) == old(rl(context.ubuf)) && forall(i, 0, old(rl(context.ubuf)), as(evmsg(0), string)[i] == old(rb(context.ubuf, i))))

// JSON: event 0 is json.Marshal / json.Unmarshal
unit (*JSONCodec).OnUpperData(p, context)
  props C09 C10 C11
  include proc
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable), ncalls() <= 2 && implies(ncalls() >= 1, evis(0, Marshal) && eva0(0) == old(context.message)))
  ensures [C09] implies(old(p.enable) && old(context.message) == nil, ncalls() == 0)
  ensures [C09] implies(old(p.enable) && old(context.message) != nil, ncalls() >= 1 && iff(ncalls() == 2, evr1(0) == nil && old(fits(p, 1)) && evlen(0) > 0 && evlen(0) <= old(p.ustack.mtu - p.ustack.overhead)))
  ensures [C09] implies(old(p.enable) && ncalls() == 2, evis(1, OnUpperData) && evrecv(1) == old(p.lower) && eva0(1) == context && evconn(1) == old(context.connection) && evlen(1) == evlen(0) && forall(i, 0, evlen(1), evbyte(1, i) == evbyte(0, i)))
  ensures [C11] implies(old(p.enable) && ncalls() == 2, evhead(1) == old(p.ustack.overhead) && evhead(1) + evlen(1) + evtail(1) == old(p.ustack.mtu))
unit (*JSONCodec).OnLowerData(p, context)
  props C09 C10 C07
  include proc
  requires p.objectType != nil
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable), ncalls() <= 2 && implies(ncalls() >= 1, evis(0, Unmarshal) && evlen(0) == old(rl(context.ubuf)) && forall(i, 0, evlen(0), evbyte(0, i) == old(rb(context.ubuf, i)))))
  ensures [C09] implies(old(p.enable), iff(ncalls() == 0, old(context.ubuf) == nil || old(rl(context.ubuf)) == 0))
  ensures [C09] implies(old(p.enable) && ncalls() >= 1, iff(ncalls() == 2, evr0(0) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() == 2, evis(1, OnLowerData) && evrecv(1) == old(p.upper) && eva0(1) == context && evconn(1) == old(context.connection) && evmsg(1) == eva0(0))
unit (*GOBCodec).OnUpperData(p, context)
  props C09 C10 C11
  include proc
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable), ncalls() <= 2 && implies(ncalls() >= 1, evis(0, Encode) && eva0(0) == old(context.message)))
  ensures [C09] implies(old(p.enable), iff(ncalls() == 0, old(context.message) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() >= 1, iff(ncalls() == 2, evr0(0) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() == 2, evis(1, OnUpperData) && evrecv(1) == old(p.lower) && eva0(1) == context && evconn(1) == old(context.connection) && typeis(evrecv(0), *UBuf) && evbuf(1) == as(evrecv(0), *UBuf))
  ensures [C11] implies(old(p.enable) && ncalls() == 2, evhead(1) == old(p.ustack.overhead) && evhead(1) + evlen(1) + evtail(1) == old(p.ustack.mtu))
unit (*GOBCodec).OnLowerData(p, context)
  props C09 C10 C07
  include proc
  requires p.objectType != nil
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable), ncalls() <= 2 && implies(ncalls() >= 1, evis(0, Decode) && evlen(0) == old(rl(context.ubuf)) && forall(i, 0, evlen(0), evbyte(0, i) == old(rb(context.ubuf, i)))))
  // the decoder is told where the message ends, so that a message cut short is an error
  ensures [C09] implies(old(p.enable) && ncalls() >= 1, evhead(0) == 1)
  ensures [C09] implies(old(p.enable) && old(context.ubuf) == nil, ncalls() == 0)
  ensures [C09] implies(old(p.enable) && old(context.ubuf) != nil && old(rl(context.ubuf)) > 0, ncalls() >= 1 && iff(ncalls() == 2, evr0(0) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() == 1, evr0(0) != nil)
  ensures [C09] implies(old(p.enable) && ncalls() == 2, evis(1, OnLowerData) && evrecv(1) == old(p.upper) && eva0(1) == context && evconn(1) == old(context.connection) && evmsg(1) == eva0(0))
unit (*GenericCodec).OnUpperData(p, context)
  props C09 C10 C11
  include proc
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable), ncalls() <= 2 && implies(ncalls() >= 1, evis(0, call) && eva0(0) == old(context.message) && typeis(eva1(0), *UBuf) && ref(evrecv(0)) == ref(old(p.encoder))))
  ensures [C09] implies(old(p.enable), iff(ncalls() == 0, old(p.encoder) == nil || old(context.message) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() >= 1, iff(ncalls() == 2, evr0(0) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() == 2, evis(1, OnUpperData) && evrecv(1) == old(p.lower) && eva0(1) == context && evbuf(1) == as(eva1(0), *UBuf))
  // the encoder is handed an empty buffer of the stack's MTU with the overhead reserved in front
  onevent [C09] call implies(typeis(eva1(j), *UBuf), rl(as(eva1(j), *UBuf)) == 0)
  onevent [C11] call implies(typeis(eva1(j), *UBuf), hr(as(eva1(j), *UBuf)) == p.ustack.overhead && capu(as(eva1(j), *UBuf)) == p.ustack.mtu)
unit NewGenericCodec(init, enc, dec) (dp)
  props C09
  ensures typeis(dp, *GenericCodec) && ref(as(dp, *GenericCodec).encoder) == ref(enc) && ref(as(dp, *GenericCodec).decoder) == ref(dec)
  ensures ite(init == nil, ncalls() == 0, ncalls() == 1 && evis(0, call) && ref(evrecv(0)) == ref(init))
unit (*GenericCodec).OnLowerData(p, context)
  props C09 C10 C07
  include proc
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C09] implies(old(p.enable), ncalls() <= 2 && implies(ncalls() >= 1, evis(0, call) && ref(evrecv(0)) == ref(old(p.decoder)) && typeis(eva0(0), *UBuf) && as(eva0(0), *UBuf) == old(context.ubuf)))
  ensures [C09] implies(old(p.enable), iff(ncalls() == 0, old(p.decoder) == nil || old(context.ubuf) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() >= 1, iff(ncalls() == 2, evr1(0) == nil))
  ensures [C09] implies(old(p.enable) && ncalls() == 2, evis(1, OnLowerData) && evrecv(1) == old(p.upper) && eva0(1) == context && evmsg(1) == evr0(0))

// ---------------------------------------------------------------- filter and forwarder
// asked(r, m, up): the first m events are the rules r[0..m) asked in order with the message and direction
def asked(r, c, m, up) = forall(j, 0, m, evis(j, call) && ref(evrecv(j)) == ref(r[j]) && eva0(j) == c && iff(as(eva1(j), bool), up))
def no(j) = !as(evr0(j), bool)
group filter
  include proc
  requires forall(i, 0, len(p.filterFn), p.filterFn[i] != nil)
  loopinv ncalls() == k() && k() <= len(p.filterFn)
  loopinv len(anyslice) == len(p.filterFn) - k()
  loopinv forall(j, 0, ncalls() - 1, no(j))
  loopinv implies(!anybool, forall(j, 0, ncalls(), no(j)))
  loopinv implies(anybool, ncalls() >= 1 && !no(ncalls() - 1))
group forward
  include proc
  requires forall(i, 0, len(p.forwardFn), p.forwardFn[i] != nil)
  loopinv ncalls() == k() && k() <= len(p.forwardFn)
  loopinv len(anyslice) == len(p.forwardFn) - k()
  loopinv forall(j, 0, ncalls() - 1, no(j))
  loopinv implies(!anybool, forall(j, 0, ncalls(), no(j)))
  loopinv implies(anybool, ncalls() >= 1 && !no(ncalls() - 1))
unit (*Filter).OnUpperData(p, context)
  props C16 C10
  include filter
  loopinv asked(p.filterFn, context, ncalls(), false) && forall(j, 0, ncalls(), no(j))
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C16] implies(old(p.enable) && ncalls() > 0 && evis(ncalls() - 1, OnUpperData), ncalls() >= 2 && ncalls() - 1 <= old(len(p.filterFn)) && evrecv(ncalls() - 1) == old(p.lower) && eva0(ncalls() - 1) == context &&
     asked(p.filterFn, context, ncalls() - 1, false) && forall(j, 0, ncalls() - 2, no(j)) && !no(ncalls() - 2) && p.txCounter == old(p.txCounter) && p.rxCounter == old(p.rxCounter))
  ensures [C16] implies(old(p.enable) && !(ncalls() > 0 && evis(ncalls() - 1, OnUpperData)), ncalls() == old(len(p.filterFn)) && asked(p.filterFn, context, ncalls(), false) && forall(j, 0, ncalls(), no(j)) && p.txCounter == uint64(old(p.txCounter) + 1) && p.rxCounter == old(p.rxCounter))
unit (*Filter).OnLowerData(p, context)
  props C16 C10 C07
  include filter
  loopinv asked(p.filterFn, context, ncalls(), true) && forall(j, 0, ncalls(), no(j))
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C16] implies(old(p.enable) && ncalls() > 0 && evis(ncalls() - 1, OnLowerData), ncalls() >= 2 && ncalls() - 1 <= old(len(p.filterFn)) && evrecv(ncalls() - 1) == old(p.upper) && eva0(ncalls() - 1) == context &&
     asked(p.filterFn, context, ncalls() - 1, true) && forall(j, 0, ncalls() - 2, no(j)) && !no(ncalls() - 2) && p.txCounter == old(p.txCounter) && p.rxCounter == old(p.rxCounter))
  ensures [C16] implies(old(p.enable) && !(ncalls() > 0 && evis(ncalls() - 1, OnLowerData)), ncalls() == old(len(p.filterFn)) && asked(p.filterFn, context, ncalls(), true) && forall(j, 0, ncalls(), no(j)) && p.rxCounter == uint64(old(p.rxCounter) + 1) && p.txCounter == old(p.txCounter))
unit (*Forwarder).OnUpperData(p, context)
  props C16 C10
  include forward
  loopinv asked(p.forwardFn, context, ncalls(), false) && forall(j, 0, ncalls(), no(j))
  ensures [C10] implies(!old(p.enable), downasis(p, context))
  onevent [C10] OnUpperData implies(!old(p.enable), untouched(context))
  ensures [C16] implies(old(p.enable) && ncalls() > 0 && evis(ncalls() - 1, OnUpperData), ncalls() - 1 == old(len(p.forwardFn)) && evrecv(ncalls() - 1) == old(p.lower) && eva0(ncalls() - 1) == context &&
     asked(p.forwardFn, context, ncalls() - 1, false) && forall(j, 0, ncalls() - 1, no(j)) && p.txCounter == old(p.txCounter) && p.rxCounter == old(p.rxCounter))
  ensures [C16] implies(old(p.enable) && !(ncalls() > 0 && evis(ncalls() - 1, OnUpperData)), ncalls() >= 1 && ncalls() <= old(len(p.forwardFn)) && asked(p.forwardFn, context, ncalls(), false) && forall(j, 0, ncalls() - 1, no(j)) && !no(ncalls() - 1) && p.txCounter == uint64(old(p.txCounter) + 1) && p.rxCounter == old(p.rxCounter))
unit (*Forwarder).OnLowerData(p, context)
  props C16 C10 C07
  include forward
  loopinv asked(p.forwardFn, context, ncalls(), true) && forall(j, 0, ncalls(), no(j))
  ensures [C10] implies(!old(p.enable), upasis(p, context))
  onevent [C10] OnLowerData implies(!old(p.enable), untouched(context))
  ensures [C16] implies(old(p.enable) && ncalls() > 0 && evis(ncalls() - 1, OnLowerData), ncalls() - 1 == old(len(p.forwardFn)) && evrecv(ncalls() - 1) == old(p.upper) && eva0(ncalls() - 1) == context &&
     asked(p.forwardFn, context, ncalls() - 1, true) && forall(j, 0, ncalls() - 1, no(j)) && p.txCounter == old(p.txCounter) && p.rxCounter == old(p.rxCounter))
  ensures [C16] implies(old(p.enable) && !(ncalls() > 0 && evis(ncalls() - 1, OnLowerData)), ncalls() >= 1 && ncalls() <= old(len(p.forwardFn)) && asked(p.forwardFn, context, ncalls(), true) && forall(j, 0, ncalls() - 1, no(j)) && !no(ncalls() - 1) && p.rxCounter == uint64(old(p.rxCounter) + 1) && p.txCounter == old(p.txCounter))
unit NewFilter(rules) (dp)
  props C16
  ensures typeis(dp, *Filter) && len(as(dp, *Filter).filterFn) == len(rules) && forall(i, 0, len(rules), ref(as(dp, *Filter).filterFn[i]) == ref(old(rules[i])))
  ensures as(dp, *Filter).txCounter == 0 && as(dp, *Filter).rxCounter == 0
unit NewForwarder(rules) (dp)
  props C16
  ensures typeis(dp, *Forwarder) && len(as(dp, *Forwarder).forwardFn) == len(rules) && forall(i, 0, len(rules), ref(as(dp, *Forwarder).forwardFn[i]) == ref(old(rules[i])))
  ensures as(dp, *Forwarder).txCounter == 0 && as(dp, *Forwarder).rxCounter == 0
