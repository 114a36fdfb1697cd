// Contracts of the stack: chaining, events, registries.

// ---------------------------------------------------------------- starting
def below(u, i) = ite(i + 1 < len(u.processors), u.processors[i + 1], u.lowerDeck)
def above(u, i) = ite(i > 0, u.processors[i - 1], u.upperDeck)
def osum(i) = ufn(osum, i)
group startable
  merge
  opaque SetUpper SetLower SetUStack Run
  requires u.options != nil
  requires forall(i, 0, len(u.processors), u.processors[i] != nil && !typeis(u.processors[i], *UpperDeck) && !typeis(u.processors[i], *LowerDeck))
  requires forall(i, 0, len(u.features), u.features[i] != nil)
unit (*DefaultUStack).Run(u) (r)
  props C12
  include startable
  requires forall(i, 0, len(u.processors), forall(j, 0, i, u.processors[i] != u.processors[j]))
  requires forall(i, 0, len(u.features), forall(j, 0, i, u.features[i] != u.features[j]))
  requires forall(i, 0, len(u.features), forall(j, 0, len(u.processors), u.features[i] != u.processors[j]) && !typeis(u.features[i], *UpperDeck) && !typeis(u.features[i], *LowerDeck))
  // while linking
  loopinv forall(j, 0, min(k() + 1, len(u.processors)), wset(SetUpper, u.processors[j]) == above(u, j))
  loopinv forall(j, 0, min(k(), len(u.processors)), wset(SetUpper, u.processors[j]) == above(u, j))
  loopinv forall(j, 0, min(k(), len(u.processors) - 1), wset(SetLower, u.processors[j]) == below(u, j))
  loopinv forall(j, 0, min(k(), len(u.processors)), wset(SetLower, u.processors[j]) == below(u, j))
  loopinv forall(j, 0, min(k(), len(u.processors)), wset(SetUStack, u.processors[j]) == u)
  loopinv implies(k() >= 1, wset(SetLower, u.upperDeck) == below(u, 0 - 1))
  loopinv forall(j, 0, min(k() - 1, len(u.processors)), wset(SetLower, u.processors[j]) == below(u, j))
  loopinv implies(k() >= len(u.processors) + 1, wset(SetUpper, u.lowerDeck) == above(u, len(u.processors)))
  loopinv anyiface != nil && anyiface == above(u, k())
  // once linked
  loopinv forall(j, 0, len(u.processors), wset(SetUpper, u.processors[j]) == above(u, j))
  loopinv forall(j, 0, len(u.processors), wset(SetLower, u.processors[j]) == below(u, j))
  loopinv forall(j, 0, len(u.processors), wset(SetUStack, u.processors[j]) == u)
  loopinv wset(SetUStack, u.upperDeck) == u && wset(SetUStack, u.lowerDeck) == u
  loopinv wset(SetLower, u.upperDeck) == below(u, 0 - 1)
  loopinv wset(SetUpper, u.lowerDeck) == above(u, len(u.processors))
  loopinv u.upperDeck != u.lowerDeck && typeis(u.upperDeck, *UpperDeck) && typeis(u.lowerDeck, *LowerDeck)
  // while running
  loopinv cnt(Run, u.upperDeck) == 0
  loopinv cnt(Run, u.upperDeck) == 1
  loopinv cnt(Run, u.lowerDeck) == 0
  loopinv cnt(Run, u.lowerDeck) == 1
  loopinv forall(j, 0, len(u.processors), cnt(Run, u.processors[j]) == 0)
  loopinv forall(j, 0, len(u.processors), cnt(Run, u.processors[j]) == 1)
  loopinv forall(j, 0, len(u.processors), cnt(Run, u.processors[j]) == ite(j < k(), 1, 0))
  loopinv forall(j, 0, len(u.features), cnt(Run, u.features[j]) == 0)
  loopinv forall(j, 0, len(u.features), cnt(Run, u.features[j]) == 1)
  loopinv forall(j, 0, len(u.features), cnt(Run, u.features[j]) == ite(j < k(), 1, 0))
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures typeis(u.upperDeck, *UpperDeck) && typeis(u.lowerDeck, *LowerDeck)
  ensures len(u.processors) == old(len(u.processors)) && forall(j, 0, len(u.processors), u.processors[j] == old(u.processors[j]))
  ensures wset(SetLower, u.upperDeck) == below(u, 0 - 1) && wset(SetUpper, u.lowerDeck) == above(u, len(u.processors))
  ensures forall(j, 0, len(u.processors), wset(SetUpper, u.processors[j]) == above(u, j) && wset(SetLower, u.processors[j]) == below(u, j))
  ensures forall(j, 0, len(u.processors), wset(SetUStack, u.processors[j]) == u)
  ensures wset(SetUStack, u.upperDeck) == u && wset(SetUStack, u.lowerDeck) == u
  ensures cnt(Run, u.upperDeck) == 1 && cnt(Run, u.lowerDeck) == 1
  ensures forall(j, 0, len(u.processors), cnt(Run, u.processors[j]) == 1)
  ensures forall(j, 0, len(u.features), cnt(Run, u.features[j]) == 1)
unit (*DefaultUStack).Run@overhead(u) (r)
  props C11
  include startable
  // osum is the running sum of the announced overheads
  requires osum(0) == 0 && forall(i, 0, len(u.processors), osum(i + 1) == osum(i) + pure(GetOverhead, u.processors[i]))
  requires forall(i, 0, len(u.processors) + 1, 0 <= osum(i) && osum(i) <= 1099511627776)
  loopinv u.overhead == osum(len(u.processors))
  loopinv u.overhead == osum(k()) && k() <= len(u.processors)
  loopinv anyint == osum(k())
  loopinv anyint == osum(len(u.processors)) - osum(len(u.processors) - k())
  loopinv anyiface != nil
  loopinv forall(j, 0, len(u.processors), u.processors[j] == old(u.processors[j]))
  ensures u.overhead == osum(old(len(u.processors)))
  ensures u.mtu == ite(has(u.options, "MTU") && typeis(u.options["MTU"], int), as(u.options["MTU"], int), 2048)

// ---------------------------------------------------------------- events
def isev(j, e) = as(eva0(j), int) == e.Type && eva1(j) == e.Source && eva2(j) == e.Data
def nd(d) = ite(d != nil, 1, 0)
def evL(u, e, j) = evis(j, call) && ref(evrecv(j)) == ref(u.listeners[j]) && isev(j, e)
def evE(u, e, j) = evis(len(u.listeners) + j, OnEvent) && evrecv(len(u.listeners) + j) == u.endpoints[j] && isev(len(u.listeners) + j, e)
def atU(u) = len(u.listeners) + len(u.endpoints)
def evU(u, e) = implies(u.upperDeck != nil, evis(atU(u), OnEvent) && evrecv(atU(u)) == u.upperDeck && isev(atU(u), e))
def atP(u) = atU(u) + nd(u.upperDeck)
def evP(u, e, j) = evis(atP(u) + j, OnEvent) && evrecv(atP(u) + j) == u.processors[j] && isev(atP(u) + j, e)
def atD(u) = atP(u) + len(u.processors)
def evD(u, e) = implies(u.lowerDeck != nil, evis(atD(u), OnEvent) && evrecv(atD(u)) == u.lowerDeck && isev(atD(u), e))
unit (*DefaultUStack).PublishEvent(u, event) (r)
  props C14
  opaque OnEvent
  opaquefn (*DefaultEndPoint).OnEvent
  requires forall(i, 0, len(u.processors), u.processors[i] != nil) && forall(i, 0, len(u.endpoints), u.endpoints[i] != nil) && forall(i, 0, len(u.listeners), u.listeners[i] != nil)
  loopinv ncalls() == nloop() + k()
  loopinv nloop() == 0
  loopinv nloop() == len(u.listeners)
  loopinv nloop() == atP(u)
  loopinv k() <= len(u.listeners)
  loopinv k() <= len(u.endpoints)
  loopinv k() <= len(u.processors)
  loopinv forall(j, 0, min(ncalls(), len(u.listeners)), evL(u, event, j))
  loopinv forall(j, 0, min(ncalls() - len(u.listeners), len(u.endpoints)), evE(u, event, j))
  loopinv implies(ncalls() > atU(u), evU(u, event))
  loopinv forall(j, 0, min(ncalls() - atP(u), len(u.processors)), evP(u, event, j))
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures ncalls() == atD(u) + nd(u.lowerDeck)
  ensures forall(j, 0, len(u.listeners), evL(u, event, j))
  ensures forall(j, 0, len(u.endpoints), evE(u, event, j))
  ensures evU(u, event)
  ensures forall(j, 0, len(u.processors), evP(u, event, j))
  ensures evD(u, event)
unit (*DefaultEndPoint).OnEvent(p, event)
  props C14
  ensures ncalls() == ite(old(p.eventListener) != nil, 1, 0)
  ensures implies(old(p.eventListener) != nil, evis(0, call) && ref(evrecv(0)) == ref(old(p.eventListener)) && typeis(evmsg(0), *DefaultEndPoint) && as(evmsg(0), *DefaultEndPoint) == p && isev(0, event))

// ---------------------------------------------------------------- registries
def announced(u, t, x) = ncalls() == 1 && evis(0, Publish) && evrecv(0) == u && as(eva0(0), int) == t && eva2(0) == x
unit (*DefaultUStack).AddEndPoint@absent(u, x) (r)
  props C15 C22
  requires x != nil && forall(i, 0, len(u.endpoints), u.endpoints[i] != x)
  loopinv ncalls() == 0
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] announced(u, UStackEventEndpointAdded, x)
  ensures [C15] len(u.endpoints) == old(len(u.endpoints)) + 1 && u.endpoints[old(len(u.endpoints))] == x && forall(i, 0, old(len(u.endpoints)), u.endpoints[i] == old(u.endpoints[i]))
unit (*DefaultUStack).AddEndPoint@present(u, x) (r)
  props C15 C22
  ghost g int
  requires x != nil && 0 <= g && g < len(u.endpoints) && u.endpoints[g] == x
  loopinv ncalls() == 0 && k() <= g
  modifies nothing
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] ncalls() == 0
unit (*DefaultUStack).DeleteEndPoint@absent(u, x) (r)
  props C15 C22
  requires x != nil && forall(i, 0, len(u.endpoints), u.endpoints[i] != x)
  modifies nothing
  loopinv ncalls() == 0
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] ncalls() == 0
unit (*DefaultUStack).DeleteEndPoint@present(u, x) (r)
  props C15 C22
  ghost g int
  requires x != nil && 0 <= g && g < len(u.endpoints) && u.endpoints[g] == x && forall(i, 0, len(u.endpoints), implies(i != g, u.endpoints[i] != x))
  loopinv ncalls() == 0 && k() <= g
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] announced(u, UStackEventEndpointDeleted, x)
  ensures [C15] len(u.endpoints) == old(len(u.endpoints)) - 1 && forall(i, 0, g, u.endpoints[i] == old(u.endpoints[i])) && forall(i, g, len(u.endpoints), u.endpoints[i] == old(u.endpoints[i + 1]))
unit (*DefaultUStack).AddTransport@absent(u, x) (r)
  props C15 C22
  requires x != nil && forall(i, 0, len(u.transports), u.transports[i] != x)
  loopinv ncalls() == 0
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] announced(u, UStackEventTransportAdded, x)
  ensures [C15] len(u.transports) == old(len(u.transports)) + 1 && u.transports[old(len(u.transports))] == x && forall(i, 0, old(len(u.transports)), u.transports[i] == old(u.transports[i]))
unit (*DefaultUStack).AddTransport@present(u, x) (r)
  props C15 C22
  ghost g int
  requires x != nil && 0 <= g && g < len(u.transports) && u.transports[g] == x
  loopinv ncalls() == 0 && k() <= g
  modifies nothing
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] ncalls() == 0
unit (*DefaultUStack).DeleteTransport@absent(u, x) (r)
  props C15 C22
  requires x != nil && forall(i, 0, len(u.transports), u.transports[i] != x)
  modifies nothing
  loopinv ncalls() == 0
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] ncalls() == 0
unit (*DefaultUStack).DeleteTransport@present(u, x) (r)
  props C15 C22
  ghost g int
  requires x != nil && 0 <= g && g < len(u.transports) && u.transports[g] == x && forall(i, 0, len(u.transports), implies(i != g, u.transports[i] != x))
  loopinv ncalls() == 0 && k() <= g
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == u
  ensures [C15] announced(u, UStackEventTransportDeleted, x)
  ensures [C15] len(u.transports) == old(len(u.transports)) - 1 && forall(i, 0, g, u.transports[i] == old(u.transports[i])) && forall(i, g, len(u.transports), u.transports[i] == old(u.transports[i + 1]))
unit (*DefaultUStack).GetFeature@present(u, name) (r)
  props C15
  ghost g int
  requires forall(i, 0, len(u.features), u.features[i] != nil)
  requires 0 <= g && g < len(u.features) && pure(GetName, u.features[g]) == name && forall(i, 0, g, pure(GetName, u.features[i]) != name)
  modifies nothing
  loopinv k() <= g
  ensures r == u.features[g]
unit (*DefaultUStack).GetFeature@absent(u, name) (r)
  props C15
  requires forall(i, 0, len(u.features), u.features[i] != nil)
  requires forall(i, 0, len(u.features), pure(GetName, u.features[i]) != name)
  modifies nothing
  ensures r == nil
