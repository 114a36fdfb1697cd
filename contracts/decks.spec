// Contracts of the two ends of the chain and of the processors' event handlers.

// ---------------------------------------------------------------- upper end: routing (C13)
def ep(x) = as(x, *DefaultEndPoint)
def msess(c) = ite(has(c.options, "session") && typeis(c.options["session"], int), as(c.options["session"], int), 0)
group routing
  requires p.endpoints != nil && context != nil && context.options != nil
  requires forallk(q, EndPoint, implies(has(p.endpoints, q), typeis(q, *DefaultEndPoint)))
def routed(p, context, g) = ncalls() == 1 && evis(0, send) && ref(evrecv(0)) == ep(g).rxChannel && evconn(0) == old(context.connection) && evmsg(0) == old(context.message)
unit (*UpperDeck).OnLowerData@one(p, context)
  props C13
  include routing
  ghost g EndPoint
  requires context.message != nil && has(p.endpoints, g) && ep(g).session == msess(context)
  requires forallk(q, EndPoint, implies(has(p.endpoints, q) && ep(q).session == msess(context), q == g))
  loopinv ncalls() == 0
  loopinv !visited(g)
  modifies nothing
  ensures routed(p, context, g)
unit (*UpperDeck).OnLowerData@several(p, context)
  props C13
  include routing
  ghost g EndPoint
  requires context.message != nil && has(p.endpoints, g) && ep(g).session == msess(context)
  loopinv ncalls() == 0
  loopinv !visited(g)
  ensures ncalls() == 1 && evis(0, send) && evconn(0) == old(context.connection) && evmsg(0) == old(context.message)
unit (*UpperDeck).OnLowerData@none(p, context)
  props C13
  include routing
  requires context.message == nil || forallk(q, EndPoint, implies(has(p.endpoints, q), ep(q).session != msess(context)))
  loopinv ncalls() == 0
  modifies nothing
  ensures ncalls() == 0
group epadd
  requires p.endpoints != nil && typeis(event.Data, *DefaultEndPoint) && p.lower != nil
  requires forallk(q, EndPoint, implies(has(p.endpoints, q), typeis(q, *DefaultEndPoint) && p.endpoints[q] != nil && !closed(p.endpoints[q])))
def epd(j) = as(evr0(j), *DefaultEndPointData)
def isepd(j) = evis(j, recv) && typeis(evr0(j), *DefaultEndPointData)
group forwarder13
  // the goroutine serving the endpoint: each datum taken from the endpoint goes down once
  iter implies(ncalls() >= 1 && isepd(0), ref(evrecv(0)) == atentry(ep(event.Data).txChannel) && ncalls() == 2 && evis(1, OnUpperData) && evrecv(1) == atentry(p.lower) && evconn(1) == old(epd(0).connection) && evmsg(1) == old(epd(0).data))
  iter implies(ncalls() >= 1 && isepd(0), evhassess(1) && typeis(evsess(1), int) && implies(old(epd(0).hasDestinationSession), as(evsess(1), int) == old(epd(0).destinationSession)))
  iter implies(ncalls() >= 1 && isepd(0) && !old(epd(0).hasDestinationSession), as(evsess(1), int) == atentry(ep(event.Data).session) || as(evsess(1), int) == ep(event.Data).session)
  iter implies(ncalls() >= 1 && !isepd(0), ncalls() == 1 && evis(0, recv))
  iter implies(segloop(), ncalls() >= 1)
  iter implies(segend(), ncalls() == 1 && evis(0, recv) && !isepd(0))
  // it listens on the channel kept for the endpoint, and what deletion puts there ends it
  iter implies(ncalls() >= 1 && !isepd(0) && atspawn(has(p.endpoints, event.Data)), ref(evrecv(0)) == atspawn(p.endpoints[event.Data]))
  iter implies(ncalls() >= 1 && !isepd(0) && (!typeis(evr0(0), bool) || as(evr0(0), bool)), segend())
unit (*UpperDeck).OnEvent@add(p, event)
  props C13
  include epadd
  include forwarder13
  ghost o EndPoint
  requires event.Type == UStackEventEndpointAdded
  requires forallk(q, EndPoint, implies(has(p.endpoints, q), q != event.Data && ep(q).session != ep(event.Data).session))
  ensures has(p.endpoints, event.Data) && ncalls() == 1 && evis(0, spawn)
  ensures implies(o != event.Data, has(p.endpoints, o) == old(has(p.endpoints, o)) && p.endpoints[o] == old(p.endpoints[o]))
unit (*UpperDeck).OnEvent@served(p, event)
  props C13
  include epadd
  ghost g EndPoint
  requires event.Type == UStackEventEndpointAdded
  requires has(p.endpoints, g) && (g == event.Data || ep(g).session == ep(event.Data).session)
  loopinv !visited(g)
  loopinv implies(visited(g), anybool)
  modifies nothing
  ensures ncalls() == 0
unit (*UpperDeck).OnEvent@delete(p, event)
  props C13
  include epadd
  ghost o EndPoint
  requires event.Type == UStackEventEndpointDeleted
  ensures !has(p.endpoints, event.Data)
  // the goroutine serving the endpoint is told to stop
  ensures implies(old(has(p.endpoints, event.Data)), ncalls() >= 1 && evis(0, send) && ref(evrecv(0)) == old(p.endpoints[event.Data]))
  onevent send implies(typeis(eva0(j), bool), as(eva0(j), bool))
  ensures implies(!old(has(p.endpoints, event.Data)), ncalls() == 0)
  ensures implies(o != event.Data, has(p.endpoints, o) == old(has(p.endpoints, o)) && p.endpoints[o] == old(p.endpoints[o]))
unit (*UpperDeck).OnEvent@other(p, event)
  props C13
  requires p.endpoints != nil
  requires (event.Type != UStackEventEndpointAdded && event.Type != UStackEventEndpointDeleted) || !typeis(event.Data, EndPoint)
  modifies nothing
  ensures ncalls() == 0
def stk(p) = as(p.ustack, *DefaultUStack)
def idx(q) = ufn(epidx, ref(q))
unit (*UpperDeck).Run(p) (r)
  props C13
  requires p.endpoints != nil && p.lower != nil && typeis(p.ustack, *DefaultUStack)
  requires forall(i, 0, len(stk(p).endpoints), typeis(stk(p).endpoints[i], *DefaultEndPoint) && idx(stk(p).endpoints[i]) == i)
  requires forall(i, 0, len(stk(p).endpoints), forall(j, 0, i, ep(stk(p).endpoints[i]).session != ep(stk(p).endpoints[j]).session))
  requires forallk(q, EndPoint, !has(p.endpoints, q))
  loopinv forall(i, 0, min(k(), len(stk(p).endpoints)), has(p.endpoints, stk(p).endpoints[i]))
  loopinv forallk(q, EndPoint, implies(has(p.endpoints, q), typeis(q, *DefaultEndPoint) && 0 <= idx(q) && idx(q) < k() && idx(q) < len(stk(p).endpoints) && stk(p).endpoints[idx(q)] == q))
  loopinv k() <= len(stk(p).endpoints)
  ensures forall(i, 0, len(stk(p).endpoints), has(p.endpoints, stk(p).endpoints[i]))
  ensures forallk(q, EndPoint, implies(has(p.endpoints, q), 0 <= idx(q) && idx(q) < len(stk(p).endpoints) && stk(p).endpoints[idx(q)] == q))

// ---------------------------------------------------------------- lower end: transports (C23)
def ldready(p) = p.upper != nil && p.ustack != nil && p.options != nil && stackok(p.ustack)
def closedown(c) = ncalls() == 3 && cnt(Close, c) == 1 && cnt(Publish, c) == 1
unit (*LowerDeck).OnUpperData(p, context)
  props C23
  requires ldready(p) && context != nil && context.options != nil && (context.ubuf == nil || wf(context.ubuf))
  ensures implies(old(context.connection) == nil, ncalls() == 0)
  ensures implies(old(context.connection) != nil && old(byref(context)), ncalls() >= 1 && evis(0, SetReference) && evrecv(0) == old(context.connection) && eva0(0) == old(context.message))
  ensures implies(old(context.connection) != nil && !old(byref(context)) && (old(context.ubuf) == nil || old(rl(context.ubuf)) == 0), ncalls() == 0)
  ensures implies(old(context.connection) != nil && !old(byref(context)) && old(context.ubuf) != nil && old(rl(context.ubuf)) > 0, ncalls() >= 1 && evis(0, Write) && evrecv(0) == old(context.connection) && evlen(0) == old(rl(context.ubuf)) && forall(i, 0, evlen(0), evbyte(0, i) == old(rb(context.ubuf, i))))
  ensures implies(ncalls() >= 1, ite(ite(evis(0, Write), evr1(0), evr0(0)) == nil, ncalls() == 1, closedown(old(context.connection))))
  onevent Publish as(eva0(j), int) == UStackEventConnectionClosed && evrecv(j) == p.ustack
unit (*LowerDeck).OnEvent@add(p, event)
  props C23
  requires ldready(p) && event.Type == UStackEventTransportAdded && typeis(event.Data, Transport)
  modifies nothing
  ensures cnt(Run, event.Data) == 1 && ncalls() == 2 && evis(1, spawn)
  // accepting
  iter implies(ncalls() >= 1 && evis(0, NextConnection) && evr0(0) == nil, ncalls() == 1 && segend())
  iter implies(ncalls() >= 1 && evis(0, NextConnection) && evr0(0) != nil, evrecv(0) == event.Data && !segend() && ncalls() == 3 && evis(1, Publish) && as(eva0(1), int) == UStackEventNewConnection && eva2(1) == evr0(0) && evis(2, spawn))
  // receiving
  iter implies(ncalls() >= 1 && evis(0, Read) && (evr1(0) != nil || evlen(0) == 0), segend() && cnt(Close, evrecv(0)) == 1 && cnt(Publish, evrecv(0)) == 1 && cnt(OnLowerData, p.upper) <= ite(evlen(0) == 0, 0, 1))
  iter implies(ncalls() >= 1 && evis(0, Read) && evr1(0) == nil && evlen(0) > 0, !segend() && ncalls() == 2 && evis(1, OnLowerData) && evrecv(1) == p.upper && evconn(1) == evrecv(0))
  iter implies(ncalls() >= 1 && evis(0, Read) && evr1(0) == nil && evlen(0) > 0, evlen(1) == evlen(0) && forall(i, 0, evlen(0), evbyte(1, i) == evbyte(0, i)))
  iter implies(ncalls() >= 1 && evis(0, GetReference) && (evr1(0) != nil || evr0(0) == nil), segend() && cnt(OnLowerData, p.upper) == 0 && closedown(evrecv(0)))
  iter implies(ncalls() >= 1 && evis(0, GetReference) && evr1(0) == nil && evr0(0) != nil, !segend() && ncalls() == 2 && evis(1, OnLowerData) && evrecv(1) == p.upper && evconn(1) == evrecv(0) && evmsg(1) == evr0(0))
  iter implies(ncalls() >= 1, evis(0, NextConnection) || evis(0, Read) || evis(0, GetReference))
  iter implies(segloop() || segend(), ncalls() >= 1)
  onevent Publish evrecv(j) == p.ustack && (as(eva0(j), int) == UStackEventConnectionClosed || as(eva0(j), int) == UStackEventNewConnection)
  onevent Read !pure(UseReference, as(evrecv(j), TransportConnection))
  onevent GetReference pure(UseReference, as(evrecv(j), TransportConnection))
unit (*LowerDeck).OnEvent@delete(p, event)
  props C23
  requires ldready(p) && event.Type == UStackEventTransportDeleted && typeis(event.Data, Transport)
  modifies nothing
  ensures cnt(Stop, event.Data) == 1 && ncalls() == 1
unit (*LowerDeck).OnEvent@other(p, event)
  props C23
  requires ldready(p)
  requires (event.Type != UStackEventTransportAdded && event.Type != UStackEventTransportDeleted) || !typeis(event.Data, Transport)
  modifies nothing
  ensures ncalls() == 0
unit (*LowerDeck).Run(p) (r)
  props C23
  requires ldready(p) && typeis(p.ustack, *DefaultUStack)
  requires forall(i, 0, len(stk(p).transports), stk(p).transports[i] != nil && forall(j, 0, i, stk(p).transports[i] != stk(p).transports[j]))
  loopinv forall(i, 0, len(stk(p).transports), cnt(Run, stk(p).transports[i]) == ite(i < k(), 1, 0))
  loopinv ncalls() == 2 * k()
  ensures forall(i, 0, len(stk(p).transports), cnt(Run, stk(p).transports[i]) == 1)
  ensures ncalls() == 2 * len(stk(p).transports)

// ---------------------------------------------------------------- heartbeat (C17)
// o: any connection. It is lost when whole seconds since its last heartbeat reached the timeout.
def wassec(p, o) = (now() - old(p.monitors[o])) / 1000000000
def waslost(p, o) = old(has(p.monitors, o)) && wassec(p, o) >= old(p.timeoutInSecond)
def saneold(p, o) = 0 <= old(p.monitors[o]) && old(p.monitors[o]) <= now() && old(p.timeoutInSecond) <= 2147483647 && old(p.timeoutInSecond) >= -2147483648
def lostat(p, o) = atloop(has(p.monitors, o)) && (now() - atloop(p.monitors[o])) / 1000000000 >= atloop(p.timeoutInSecond)
def saneat(p, o) = 0 <= atloop(p.monitors[o]) && atloop(p.monitors[o]) <= now() && atloop(p.timeoutInSecond) <= 2147483647 && atloop(p.timeoutInSecond) >= -2147483648
group hbtable
  seginv [C17] p.monitors != nil && !has(p.monitors, nil)
unit (*Heartbeat).Run(p) (r)
  props C17
  ghost o TransportConnection
  merge
  include hbtable
  requires ready(p)
  loopinv p.monitors != nil && !has(p.monitors, nil)
  loopinv p.monitors == atloop(p.monitors) && p.timeoutInSecond == atloop(p.timeoutInSecond) && p.closeOnLost == atloop(p.closeOnLost)
  loopinv implies(saneat(p, o) && visited(o) && lostat(p, o), !has(p.monitors, o) && cnt(Publish, o) == 1 && cnt(Close, o) == ite(p.closeOnLost, 1, 0))
  loopinv implies(saneat(p, o) && !(visited(o) && lostat(p, o)), has(p.monitors, o) == atloop(has(p.monitors, o)) && p.monitors[o] == atloop(p.monitors[o]) && cnt(Publish, o) == 0 && cnt(Close, o) == 0)
  ensures ncalls() == 1 && evis(0, spawn) && p.monitors == old(p.monitors)
  ensures has(p.monitors, o) == old(has(p.monitors, o)) && p.monitors[o] == old(p.monitors[o])
  iter implies(segloop() && saneold(p, o) && waslost(p, o), !has(p.monitors, o) && cnt(Publish, o) == 1 && cnt(Close, o) == ite(old(p.closeOnLost), 1, 0))
  iter implies(saneold(p, o) && !(segloop() && waslost(p, o)), has(p.monitors, o) == old(has(p.monitors, o)) && p.monitors[o] == old(p.monitors[o]) && cnt(Publish, o) == 0 && cnt(Close, o) == 0)
  iter !segend()
  onevent Publish as(eva0(j), int) == UStackEventHeartbeatLost && evrecv(j) == p.ustack
unit (*Heartbeat).OnEvent@new(p, event)
  props C17 C11
  ghost o TransportConnection
  include hbtable
  requires ready(p) && p.ustack.mtu > p.ustack.overhead
  requires event.Type == UStackEventNewConnection && typeis(event.Data, TransportConnection) && event.Data != nil
  ensures [C17] implies(pure(UseReference, as(event.Data, TransportConnection)), ncalls() == 0 && has(p.monitors, o) == old(has(p.monitors, o)) && p.monitors[o] == old(p.monitors[o]))
  ensures [C17] implies(!pure(UseReference, as(event.Data, TransportConnection)), ncalls() == 1 && evis(0, spawn) && has(p.monitors, event.Data) && p.monitors[event.Data] == now())
  ensures [C17] implies(o != event.Data, has(p.monitors, o) == old(has(p.monitors, o)) && p.monitors[o] == old(p.monitors[o]))
  iter [C17] implies(segloop(), ncalls() >= 1 && evis(0, Closed) && evrecv(0) == event.Data && typeis(evr0(0), bool) && !as(evr0(0), bool))
  iter [C17] implies(segend(), ncalls() == 1 && evis(0, Closed) && evrecv(0) == event.Data && typeis(evr0(0), bool) && as(evr0(0), bool) && !has(p.monitors, event.Data))
  iter [C17] implies(o != event.Data || !segend(), has(p.monitors, o) == old(has(p.monitors, o)) && p.monitors[o] == old(p.monitors[o]))
  iter [C17] implies(segloop(), ncalls() == 2 && evis(1, OnUpperData) && evrecv(1) == p.lower && evconn(1) == event.Data && evlen(1) == 1 && evbyte(1, 0) == HeartbeatSelfMessageTag)
  iter [C17] implies(!segloop() && !segend(), ncalls() == 0)
  iter [C11] implies(segloop(), ncalls() == 2 && evis(1, OnUpperData) && evhead(1) >= old(p.ustack.overhead))
  onevent [C17 C11] OnUpperData evconn(j) == event.Data
unit (*Heartbeat).OnEvent@other(p, event)
  props C17
  requires ready(p) && event.Type != UStackEventNewConnection
  modifies nothing
  ensures ncalls() == 0

// ---------------------------------------------------------------- statistics requests (C19)
unit (*StatCounter).OnEvent(p, event)
  props C19 C11
  requires ready(p) && p.ustack.mtu > p.ustack.overhead
  requires implies(event.Type == UStackEventNewConnection, typeis(event.Data, TransportConnection))
  modifies nothing
  ensures [C19] implies(event.Type != UStackEventNewConnection || old(p.intervalInSecond) <= 0 || pure(UseReference, as(event.Data, TransportConnection)), ncalls() == 0)
  ensures [C19] ncalls() <= 1 && implies(ncalls() == 1, evis(0, spawn))
  iter [C19] p.txCounter == old(p.txCounter) && p.rxCounter == old(p.rxCounter)
  iter [C19] implies(segloop(), ncalls() == 2 && evis(0, Closed) && evis(1, OnUpperData) && evrecv(1) == p.lower && evconn(1) == event.Data && evlen(1) == 1 && evbyte(1, 0) == StatCounterSelfMessageReqTag)
  iter [C19] implies(segend(), ncalls() == 1 && evis(0, Closed))
  iter [C11] implies(segloop(), ncalls() == 2 && evis(1, OnUpperData) && evhead(1) >= old(p.ustack.overhead))
