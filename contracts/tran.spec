// Contracts of the transports. Generated by tools/genspec_tran.py.
shared TCPTransport.next
shared UDSTransport.next
shared TCPTransport.listener
shared UDSTransport.listener
shared TCPTransport.maxRetryCount
shared UDSTransport.maxRetryCount
shared TCPTransport.retryIntervalInSecond
shared UDSTransport.retryIntervalInSecond

// ---------------------------------------------------------------- TCP connections
unit NewTCPTransportConnection@tran(name, conn) (r)
  props C20
  ensures typeis(r, *TCPTransportConnection) && ref(r) != 0
  ensures as(r, *TCPTransportConnection).name == name && as(r, *TCPTransportConnection).conn == conn && !as(r, *TCPTransportConnection).closed
  ensures ncalls() == 0
unit (*TCPTransportConnection).Read(c, p) (n, err)
  props C20
  requires c.conn != nil
  modifies elems(p)
  ensures implies(old(c.closed), ncalls() == 0 && n == 0 && forall(i, 0, len(p), p[i] == old(p[i])))
  ensures implies(!old(c.closed), ncalls() == 1 && evis(0, Read) && evrecv(0) == c.conn && evtail(0) == len(p))
  ensures implies(!old(c.closed), n == evlen(0) && err == evr1(0) && forall(i, 0, n, p[i] == evbyte(0, i)))
unit (*TCPTransportConnection).Write(c, p) (n, err)
  props C20
  requires c.conn != nil
  modifies nothing
  ensures implies(old(c.closed), ncalls() == 0 && n == 0)
  ensures implies(!old(c.closed), ncalls() == 1 && evis(0, Write) && evrecv(0) == c.conn && evlen(0) == len(p) && forall(i, 0, len(p), evbyte(0, i) == p[i]))
  ensures implies(!old(c.closed), typeis(evr0(0), int) && n == as(evr0(0), int) && err == evr1(0))
unit (*TCPTransportConnection).UseReference(c) (r)
  props C20
  modifies nothing
  ensures !r
unit (*TCPTransportConnection).GetReference(c) (p, err)
  props C20
  modifies nothing
  ensures p == nil && err != nil && ncalls() == 0
unit (*TCPTransportConnection).SetReference(c, p) (err)
  props C20
  modifies nothing
  ensures err != nil && ncalls() == 0
unit (*TCPTransportConnection).Close(c)
  props C20
  requires c.conn != nil
  modifies c.closed
  ensures c.closed && implies(!old(c.closed), cnt(Close, c.conn) >= 1) && ncalls() == cnt(Close, c.conn)
unit (*TCPTransportConnection).Closed(c) (r)
  props C20
  modifies nothing
  ensures r == c.closed && ncalls() == 0

// ---------------------------------------------------------------- TCP transport
def TCPwas(t) = old(t.isRunning) && old(t.next) == atspawn(t.next)
def TCPtc(x) = as(x, *TCPTransportConnection)
// handed over to NextConnection
def TCPqueued(t, c) = ncalls() == 2 && evis(1, send) && ref(evrecv(1)) == atspawn(t.next) && typeis(eva0(1), *TCPTransportConnection) && TCPtc(eva0(1)).conn == c && !TCPtc(eva0(1)).closed
def TCPdropped(c) = cnt(Close, c) >= 1 && cnt(Close, c) + 1 == ncalls()
// the run is over: no listener, no supply, no open connection
def TCPover(t) = !t.isRunning && closed(old(t.next)) && implies(old(t.listener) != nil, cnt(Close, old(t.listener)) >= 1) && forall(i, 0, old(len(t.connections)), cnt(Close, old(t.connections[i])) >= 1)
group TCPtable
  seginv [C21] implies(t.isRunning, t.next != nil && !closed(t.next)) && forall(i, 0, len(t.connections), t.connections[i] != nil)
group TCPdrain
  loopinv forall(j, 0, len(t.connections), cnt(Close, t.connections[j]) >= 0)
  loopinv forallk(q, TransportConnection, cnt(Close, q) >= atloop(cnt(Close, q)))
  loopinv forall(j, 0, min(k(), len(t.connections)), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, max(0, len(t.connections) - k()), len(t.connections), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, nloop(), ncalls(), evis(j, Close))
  loopinv implies(old(t.listener) != nil, cnt(Close, old(t.listener)) >= 1)
  loopinv closed(old(t.next))
unit NewTCPTransport@tran(name) (r)
  props C21
  ensures typeis(r, *TCPTransport) && ref(r) != 0 && !as(r, *TCPTransport).isRunning && as(r, *TCPTransport).forServer && as(r, *TCPTransport).options != nil && ncalls() == 0
unit (*TCPTransport).Run@running(t) (r)
  props C21
  include TCPtable
  requires t.isRunning && t.options != nil
  modifies nothing
  ensures typeis(r, *TCPTransport) && as(r, *TCPTransport) == t && ncalls() == 0
unit (*TCPTransport).Run@stopped(t) (r)
  props C21
  include TCPtable
  requires !t.isRunning && t.options != nil
  nospawn
  ensures typeis(r, *TCPTransport) && as(r, *TCPTransport) == t
  ensures t.isRunning && fresh(t.next) && !closed(t.next) && len(t.connections) == 0
  ensures ncalls() == 1 && evis(0, spawn)
  ensures t.maxRetryCount == ite(has(t.options, "MaxRetryCount") && typeis(t.options["MaxRetryCount"], int), as(t.options["MaxRetryCount"], int), 180)
  ensures t.retryIntervalInSecond == ite(has(t.options, "RetryIntervalInSecond") && typeis(t.options["RetryIntervalInSecond"], int), as(t.options["RetryIntervalInSecond"], int), 1)
unit (*TCPTransport).Run@thread(t) (r)
  props C21
  include TCPtable
  // the two options only set the retry parameters, which are arbitrary in the thread
  requires !t.isRunning && t.options != nil && !has(t.options, "MaxRetryCount") && !has(t.options, "RetryIntervalInSecond")
  loopinv forall(j, 0, len(t.connections), cnt(Close, t.connections[j]) >= 0)
  loopinv forallk(q, TransportConnection, cnt(Close, q) >= atloop(cnt(Close, q)))
  loopinv forall(j, 0, min(k(), len(t.connections)), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, max(0, len(t.connections) - k()), len(t.connections), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, nloop(), ncalls(), evis(j, Close))
  loopinv ncalls() == nloop()
  // accepting
  iter implies(ncalls() >= 1 && evis(0, Listen), atentry(t.forServer) && as(eva0(0), string) == "tcp" && as(eva1(0), string) == atentry(t.address))
  iter implies(ncalls() >= 1 && evis(0, Listen) && evr1(0) == nil, ite(TCPwas(t), ncalls() == 1 && !segend() && t.listener == evr0(0), segend() && TCPdropped(evr0(0)) && t.listener == old(t.listener)))
  iter implies(ncalls() >= 1 && evis(0, Accept), atentry(t.forServer))
  iter implies(ncalls() >= 1 && evis(0, Accept) && evr1(0) == nil, ite(TCPwas(t), segloop() && TCPqueued(t, evr0(0)), segend() && TCPdropped(evr0(0))))
  // dialling
  iter implies(ncalls() >= 1 && evis(0, Dial), !atentry(t.forServer) && as(eva0(0), string) == "tcp" && as(eva1(0), string) == atentry(t.address))
  iter implies(ncalls() >= 1 && evis(0, Dial) && evr1(0) == nil, segend() && ite(TCPwas(t), TCPqueued(t, evr0(0)), TCPdropped(evr0(0))))
  iter implies(ncalls() >= 1 && evis(0, Dial) && evr1(0) != nil, ncalls() == 1 && !(segend() && TCPwas(t)))
  // giving up
  iter implies(segend() && TCPwas(t) && !(ncalls() >= 1 && (evis(0, Listen) || evis(0, Dial) && evr1(0) == nil || evis(0, Accept) && evr1(0) == nil)), TCPover(t))
  iter implies(!TCPwas(t), t.isRunning == old(t.isRunning) && t.next == old(t.next) && closed(t.next) == old(closed(t.next)) && len(t.connections) == old(len(t.connections)))
unit (*TCPTransport).NextConnection(t) (r)
  props C21
  include TCPtable
  requires t.next != nil
  loopinv ncalls() == 1 && forall(i, 0, k(), t.connections[i] != evr0(0))
  loopinv ncalls() == 1
  ensures ncalls() >= 1 && evis(0, recv) && ref(evrecv(0)) == old(t.next)
  ensures t.isRunning == old(t.isRunning) && t.next == old(t.next)
  ensures implies(evr0(0) == nil || !old(t.isRunning), r == nil)
  ensures implies(evr0(0) != nil && !old(t.isRunning), cnt(Close, evr0(0)) >= 1)
  ensures implies(evr0(0) != nil && old(t.isRunning), r == evr0(0) && ncalls() == 1 && !forall(i, 0, len(t.connections), t.connections[i] != r))
  ensures len(t.connections) >= old(len(t.connections)) && forall(i, 0, old(len(t.connections)), t.connections[i] == old(t.connections[i]))
unit (*TCPTransport).Stop@running(t) (r)
  props C21
  include TCPtable
  include TCPdrain
  requires t.isRunning
  ensures typeis(r, *TCPTransport) && as(r, *TCPTransport) == t
  ensures TCPover(t)
unit (*TCPTransport).Stop@stopped(t) (r)
  props C21
  include TCPtable
  requires !t.isRunning
  modifies nothing
  ensures typeis(r, *TCPTransport) && as(r, *TCPTransport) == t && ncalls() == 0

// ---------------------------------------------------------------- UDS connections
unit NewUDSTransportConnection@tran(name, conn) (r)
  props C20
  ensures typeis(r, *UDSTransportConnection) && ref(r) != 0
  ensures as(r, *UDSTransportConnection).name == name && as(r, *UDSTransportConnection).conn == conn && !as(r, *UDSTransportConnection).closed
  ensures ncalls() == 0
unit (*UDSTransportConnection).Read(c, p) (n, err)
  props C20
  requires c.conn != nil
  modifies elems(p)
  ensures implies(old(c.closed), ncalls() == 0 && n == 0 && forall(i, 0, len(p), p[i] == old(p[i])))
  ensures implies(!old(c.closed), ncalls() == 1 && evis(0, Read) && evrecv(0) == c.conn && evtail(0) == len(p))
  ensures implies(!old(c.closed), n == evlen(0) && err == evr1(0) && forall(i, 0, n, p[i] == evbyte(0, i)))
unit (*UDSTransportConnection).Write(c, p) (n, err)
  props C20
  requires c.conn != nil
  modifies nothing
  ensures implies(old(c.closed), ncalls() == 0 && n == 0)
  ensures implies(!old(c.closed), ncalls() == 1 && evis(0, Write) && evrecv(0) == c.conn && evlen(0) == len(p) && forall(i, 0, len(p), evbyte(0, i) == p[i]))
  ensures implies(!old(c.closed), typeis(evr0(0), int) && n == as(evr0(0), int) && err == evr1(0))
unit (*UDSTransportConnection).UseReference(c) (r)
  props C20
  modifies nothing
  ensures !r
unit (*UDSTransportConnection).GetReference(c) (p, err)
  props C20
  modifies nothing
  ensures p == nil && err != nil && ncalls() == 0
unit (*UDSTransportConnection).SetReference(c, p) (err)
  props C20
  modifies nothing
  ensures err != nil && ncalls() == 0
unit (*UDSTransportConnection).Close(c)
  props C20
  requires c.conn != nil
  modifies c.closed
  ensures c.closed && implies(!old(c.closed), cnt(Close, c.conn) >= 1) && ncalls() == cnt(Close, c.conn)
unit (*UDSTransportConnection).Closed(c) (r)
  props C20
  modifies nothing
  ensures r == c.closed && ncalls() == 0

// ---------------------------------------------------------------- UDS transport
def UDSwas(t) = old(t.isRunning) && old(t.next) == atspawn(t.next)
def UDStc(x) = as(x, *UDSTransportConnection)
// handed over to NextConnection
def UDSqueued(t, c) = ncalls() == 2 && evis(1, send) && ref(evrecv(1)) == atspawn(t.next) && typeis(eva0(1), *UDSTransportConnection) && UDStc(eva0(1)).conn == c && !UDStc(eva0(1)).closed
def UDSdropped(c) = cnt(Close, c) >= 1 && cnt(Close, c) + 1 == ncalls()
// the run is over: no listener, no supply, no open connection
def UDSover(t) = !t.isRunning && closed(old(t.next)) && implies(old(t.listener) != nil, cnt(Close, old(t.listener)) >= 1) && forall(i, 0, old(len(t.connections)), cnt(Close, old(t.connections[i])) >= 1)
group UDStable
  seginv [C21] implies(t.isRunning, t.next != nil && !closed(t.next)) && forall(i, 0, len(t.connections), t.connections[i] != nil)
group UDSdrain
  loopinv forall(j, 0, len(t.connections), cnt(Close, t.connections[j]) >= 0)
  loopinv forallk(q, TransportConnection, cnt(Close, q) >= atloop(cnt(Close, q)))
  loopinv forall(j, 0, min(k(), len(t.connections)), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, max(0, len(t.connections) - k()), len(t.connections), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, nloop(), ncalls(), evis(j, Close))
  loopinv implies(old(t.listener) != nil, cnt(Close, old(t.listener)) >= 1)
  loopinv closed(old(t.next))
unit NewUDSTransport@tran(name) (r)
  props C21
  ensures typeis(r, *UDSTransport) && ref(r) != 0 && !as(r, *UDSTransport).isRunning && as(r, *UDSTransport).forServer && as(r, *UDSTransport).options != nil && ncalls() == 0
unit (*UDSTransport).Run@running(t) (r)
  props C21
  include UDStable
  requires t.isRunning && t.options != nil
  modifies nothing
  ensures typeis(r, *UDSTransport) && as(r, *UDSTransport) == t && ncalls() == 0
unit (*UDSTransport).Run@stopped(t) (r)
  props C21
  include UDStable
  requires !t.isRunning && t.options != nil
  nospawn
  ensures typeis(r, *UDSTransport) && as(r, *UDSTransport) == t
  ensures t.isRunning && fresh(t.next) && !closed(t.next) && len(t.connections) == 0
  ensures ncalls() == 1 && evis(0, spawn)
  ensures t.maxRetryCount == ite(has(t.options, "MaxRetryCount") && typeis(t.options["MaxRetryCount"], int), as(t.options["MaxRetryCount"], int), 180)
  ensures t.retryIntervalInSecond == ite(has(t.options, "RetryIntervalInSecond") && typeis(t.options["RetryIntervalInSecond"], int), as(t.options["RetryIntervalInSecond"], int), 1)
unit (*UDSTransport).Run@thread(t) (r)
  props C21
  include UDStable
  // the two options only set the retry parameters, which are arbitrary in the thread
  requires !t.isRunning && t.options != nil && !has(t.options, "MaxRetryCount") && !has(t.options, "RetryIntervalInSecond")
  loopinv forall(j, 0, len(t.connections), cnt(Close, t.connections[j]) >= 0)
  loopinv forallk(q, TransportConnection, cnt(Close, q) >= atloop(cnt(Close, q)))
  loopinv forall(j, 0, min(k(), len(t.connections)), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, max(0, len(t.connections) - k()), len(t.connections), cnt(Close, t.connections[j]) >= 1)
  loopinv forall(j, nloop(), ncalls(), evis(j, Close))
  loopinv ncalls() == nloop()
  // accepting
  iter implies(ncalls() >= 1 && evis(0, Listen), atentry(t.forServer) && as(eva0(0), string) == "unix" && as(eva1(0), string) == atentry(t.filename))
  iter implies(ncalls() >= 1 && evis(0, Listen) && evr1(0) == nil, ite(UDSwas(t), ncalls() == 1 && !segend() && t.listener == evr0(0), segend() && UDSdropped(evr0(0)) && t.listener == old(t.listener)))
  iter implies(ncalls() >= 1 && evis(0, Accept), atentry(t.forServer))
  iter implies(ncalls() >= 1 && evis(0, Accept) && evr1(0) == nil, ite(UDSwas(t), segloop() && UDSqueued(t, evr0(0)), segend() && UDSdropped(evr0(0))))
  // dialling
  iter implies(ncalls() >= 1 && evis(0, Dial), !atentry(t.forServer) && as(eva0(0), string) == "unix" && as(eva1(0), string) == atentry(t.filename))
  iter implies(ncalls() >= 1 && evis(0, Dial) && evr1(0) == nil, segend() && ite(UDSwas(t), UDSqueued(t, evr0(0)), UDSdropped(evr0(0))))
  iter implies(ncalls() >= 1 && evis(0, Dial) && evr1(0) != nil, ncalls() == 1 && !(segend() && UDSwas(t)))
  // giving up
  iter implies(segend() && UDSwas(t) && !(ncalls() >= 1 && (evis(0, Listen) || evis(0, Dial) && evr1(0) == nil || evis(0, Accept) && evr1(0) == nil)), UDSover(t))
  iter implies(!UDSwas(t), t.isRunning == old(t.isRunning) && t.next == old(t.next) && closed(t.next) == old(closed(t.next)) && len(t.connections) == old(len(t.connections)))
unit (*UDSTransport).NextConnection(t) (r)
  props C21
  include UDStable
  requires t.next != nil
  loopinv ncalls() == 1 && forall(i, 0, k(), t.connections[i] != evr0(0))
  loopinv ncalls() == 1
  ensures ncalls() >= 1 && evis(0, recv) && ref(evrecv(0)) == old(t.next)
  ensures t.isRunning == old(t.isRunning) && t.next == old(t.next)
  ensures implies(evr0(0) == nil || !old(t.isRunning), r == nil)
  ensures implies(evr0(0) != nil && !old(t.isRunning), cnt(Close, evr0(0)) >= 1)
  ensures implies(evr0(0) != nil && old(t.isRunning), r == evr0(0) && ncalls() == 1 && !forall(i, 0, len(t.connections), t.connections[i] != r))
  ensures len(t.connections) >= old(len(t.connections)) && forall(i, 0, old(len(t.connections)), t.connections[i] == old(t.connections[i]))
unit (*UDSTransport).Stop@running(t) (r)
  props C21
  include UDStable
  include UDSdrain
  requires t.isRunning
  ensures typeis(r, *UDSTransport) && as(r, *UDSTransport) == t
  ensures UDSover(t)
unit (*UDSTransport).Stop@stopped(t) (r)
  props C21
  include UDStable
  requires !t.isRunning
  modifies nothing
  ensures typeis(r, *UDSTransport) && as(r, *UDSTransport) == t && ncalls() == 0

// ---------------------------------------------------------------- reference connections
def RC(x) = as(x, *ReferenceTransportConnection)
unit NewReferenceTransportConnection@tran(name, forServer, channel) (r)
  props C20
  ensures typeis(r, *ReferenceTransportConnection) && ref(r) != 0
  ensures RC(r).name == name && RC(r).forServer == forServer && RC(r).channel == channel && !RC(r).closed && ncalls() == 0
unit (*ReferenceTransportConnection).Read(c, p) (n, err)
  props C20
  modifies nothing
  ensures n == 0 && err != nil && ncalls() == 0
unit (*ReferenceTransportConnection).Write(c, p) (n, err)
  props C20
  modifies nothing
  ensures n == 0 && err != nil && ncalls() == 0
unit (*ReferenceTransportConnection).UseReference(c) (r)
  props C20
  modifies nothing
  ensures r
unit (*ReferenceTransportConnection).GetReference(c) (p, err)
  props C20
  requires c.channel != nil && c.channel.serverRxClientTx != nil && c.channel.serverTxClientRx != nil
  modifies nothing
  ensures implies(old(c.closed), ncalls() == 0 && p == nil && err != nil)
  ensures implies(!old(c.closed), ncalls() == 1 && evis(0, recv) && ref(evrecv(0)) == ite(c.forServer, c.channel.serverRxClientTx, c.channel.serverTxClientRx))
  ensures implies(!old(c.closed), p == evr0(0) && implies(p != nil, err == nil))
unit (*ReferenceTransportConnection).SetReference(c, p) (err)
  props C20
  requires c.channel != nil && c.channel.serverRxClientTx != nil && c.channel.serverTxClientRx != nil
  modifies nothing
  ensures implies(old(c.closed) || p == nil, ncalls() == 0 && err != nil)
  ensures implies(!old(c.closed) && p != nil, ncalls() == 1 && evis(0, send) && ref(evrecv(0)) == ite(c.forServer, c.channel.serverTxClientRx, c.channel.serverRxClientTx) && eva0(0) == p && err == nil)
unit (*ReferenceTransportConnection).Close(c)
  props C20
  modifies c.closed
  ensures c.closed && ncalls() == 0
unit (*ReferenceTransportConnection).Closed(c) (r)
  props C20
  modifies nothing
  ensures r == c.closed && ncalls() == 0

// ---------------------------------------------------------------- reference transport
def pairopen(c) = c.serverRxClientTx != nil && c.serverTxClientRx != nil && !closed(c.serverRxClientTx) && !closed(c.serverTxClientRx) && c.serverRxClientTx != c.serverTxClientRx
group Rtable
  seginv [C21] implies(t.isRunning, t.next != nil && !closed(t.next))
  // o: any address
  ghost o string
  requires chans != nil
  requires implies(has(chans, o), chans[o] != nil && chans[o].refCount >= 1 && chans[o].refCount <= 1099511627776 && pairopen(chans[o]))
  requires implies(has(chans, t.address), chans[t.address] != nil && chans[t.address].refCount >= 1 && chans[t.address].refCount <= 1099511627776 && pairopen(chans[t.address]))
  // channel pairs are not shared between addresses
  requires implies(o != t.address && has(chans, o) && has(chans, t.address), chans[o] != chans[t.address] && chans[o].serverRxClientTx != chans[t.address].serverRxClientTx && chans[o].serverTxClientRx != chans[t.address].serverTxClientRx && chans[o].serverRxClientTx != chans[t.address].serverTxClientRx && chans[o].serverTxClientRx != chans[t.address].serverRxClientTx)
def Rkept(t, o) = has(chans, o) == old(has(chans, o)) && chans[o] == old(chans[o]) && implies(has(chans, o), chans[o].refCount == old(chans[o].refCount) && pairopen(chans[o]))
def mine(t) = chans[t.address]
unit NewReferenceTransport@tran(name) (r)
  props C21
  ensures typeis(r, *ReferenceTransport) && ref(r) != 0 && !as(r, *ReferenceTransport).isRunning && as(r, *ReferenceTransport).forServer && as(r, *ReferenceTransport).options != nil && ncalls() == 0
unit (*ReferenceTransport).Run@running(t) (r)
  props C21
  include Rtable
  requires t.isRunning && t.options != nil
  modifies nothing
  ensures typeis(r, *ReferenceTransport) && as(r, *ReferenceTransport) == t && ncalls() == 0
unit (*ReferenceTransport).Run@stopped(t) (r)
  props C21
  include Rtable
  requires !t.isRunning && t.options != nil
  requires implies(has(t.options, "MaxQueueSize") && typeis(t.options["MaxQueueSize"], int), as(t.options["MaxQueueSize"], int) >= 0)
  ensures typeis(r, *ReferenceTransport) && as(r, *ReferenceTransport) == t
  ensures t.isRunning && t.next != nil && !closed(t.next) && t.address == old(t.address)
  ensures has(chans, t.address) && pairopen(mine(t)) && mine(t).refCount == ite(old(has(chans, t.address)), old(mine(t).refCount), 0) + 1
  ensures implies(old(has(chans, t.address)), mine(t) == old(mine(t)) && mine(t).serverRxClientTx == old(mine(t).serverRxClientTx) && mine(t).serverTxClientRx == old(mine(t).serverTxClientRx))
  ensures implies(!old(has(chans, t.address)), fresh(mine(t)) && fresh(mine(t).serverRxClientTx) && fresh(mine(t).serverTxClientRx))
  ensures implies(o != t.address, Rkept(t, o))
  ensures ncalls() == 1 && evis(0, send) && ref(evrecv(0)) == t.next && typeis(eva0(0), *ReferenceTransportConnection)
  ensures RC(eva0(0)).channel == mine(t) && RC(eva0(0)).forServer == old(t.forServer) && !RC(eva0(0)).closed
unit (*ReferenceTransport).NextConnection(t) (r)
  props C21
  include Rtable
  requires t.next != nil
  modifies t.connection
  ensures ncalls() >= 1 && evis(0, recv) && ref(evrecv(0)) == old(t.next)
  ensures implies(evr0(0) == nil || !old(t.isRunning), r == nil)
  ensures implies(evr0(0) != nil && !old(t.isRunning), cnt(Close, evr0(0)) >= 1)
  ensures implies(evr0(0) != nil && old(t.isRunning), r == evr0(0) && ncalls() == 1 && t.connection == r)
unit (*ReferenceTransport).Stop@running(t) (r)
  props C21
  include Rtable
  requires t.isRunning && has(chans, t.address)
  // channels of different element types are different
  requires t.next != mine(t).serverRxClientTx && t.next != mine(t).serverTxClientRx && implies(has(chans, o), t.next != chans[o].serverRxClientTx && t.next != chans[o].serverTxClientRx)
  ensures typeis(r, *ReferenceTransport) && as(r, *ReferenceTransport) == t
  ensures !t.isRunning && closed(old(t.next)) && implies(old(t.connection) != nil, cnt(Close, old(t.connection)) >= 1)
  ensures implies(old(mine(t).refCount) == 1, !has(chans, t.address) && closed(old(mine(t).serverRxClientTx)) && closed(old(mine(t).serverTxClientRx)))
  ensures implies(old(mine(t).refCount) > 1, has(chans, t.address) && mine(t) == old(mine(t)) && mine(t).refCount == old(mine(t).refCount) - 1 && pairopen(mine(t)))
  ensures implies(o != t.address, Rkept(t, o))
unit (*ReferenceTransport).Stop@stopped(t) (r)
  props C21
  include Rtable
  requires !t.isRunning
  modifies nothing
  ensures typeis(r, *ReferenceTransport) && as(r, *ReferenceTransport) == t && ncalls() == 0
