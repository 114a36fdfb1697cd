#!/usr/bin/env python3
"""Generates contracts/cfg.spec (C22: setters, getters, options, constructors)."""
out=[]
def p(s): out.append(s)
p('''// Generated by tools/genspec_cfg.py. Configuration calls (C22).
def optof(m, n) = ite(has(m, n), m[n], nil)''')
procs=['Echo','Loopback','Discarder','FlowController','SessionResolver','LoadBalancer','Heartbeat','StatCounter','FrameDecoder','BytesCodec','StringCodec','JSONCodec','GOBCodec','GenericCodec','Filter','Forwarder','UpperDeck','LowerDeck','ProcBase']
args={'JSONCodec':'t','GOBCodec':'t','GenericCodec':'i, e, d','Filter':'f','Forwarder':'f'}
def setter(T, fn, arg, mod, post, self='self'):
    p(f'unit (*{T}).{fn}(p, {arg}) (r)\n  props C22')
    if self=='self':
        p(f'  requires typeis(p.where, *{T}) && as(p.where, *{T}) == p')
    if 'options' in mod: p('  requires p.options != nil')
    p(f'  modifies {mod}')
    p(f'  ensures typeis(r, *{T}) && as(r, *{T}) == p')
    p(f'  ensures {post}')
def getter(T, fn, ret, arg='', req=''):
    p(f'unit (*{T}).{fn}(p{", "+arg if arg else ""}) (r)\n  props C22')
    if req: p(f'  requires {req}')
    p(f'  modifies nothing')
    p(f'  ensures r == {ret}')
for T in procs:
    p(f'// ---- {T}')
    for fn,arg,f in [('SetName','name','name'),('SetEnable','enable','enable'),('ForServer','forServer','forServer'),('SetUStack','u','ustack'),('SetUpper','q','upper'),('SetLower','q','lower')]:
        setter(T,fn,arg,f'p.{f}',f'p.{f} == {arg}')
    setter(T,'SetOption','name, value','mapof(p.options, name)','has(p.options, name) && p.options[name] == value')
    getter(T,'GetName','p.name')
    getter(T,'GetOption','optof(p.options, name)','name')
    p(f'unit New{T}@cfg({args.get(T,"")}) (r)\n  props C22\n  ensures typeis(r, *{T}) && typeis(as(r, *{T}).where, *{T}) && as(as(r, *{T}).where, *{T}) == as(r, *{T})')
    p(f'  ensures as(r, *{T}).options != nil && forallk(q, string, !has(as(r, *{T}).options, q)) && as(r, *{T}).enable')
    p(f'  ensures fresh(as(r, *{T})) && fresh(as(r, *{T}).options)')
p('''// ---- base for user-defined processors and features
unit (*ProcBase).SetWhere(p, w) (r)
  props C22
  modifies p.where
  ensures p.where == w && r == w''')
for fn,arg,f in [('SetName','name','name'),('SetEnable','enable','enable'),('ForServer','forServer','forServer'),('SetUStack','u','ustack'),('SetUpper','q','upper'),('SetLower','q','lower')]:
    p(f'unit (*ProcBase).{fn}@where(p, {arg}) (r)\n  props C22\n  modifies p.{f}\n  ensures r == old(p.where) && p.{f} == {arg}')
p('''unit (*ProcBase).SetOption@where(p, name, value) (r)
  props C22
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures r == old(p.where) && has(p.options, name) && p.options[name] == value
unit (*ProcBase).GetOverhead(p) (n)
  props C11
  modifies nothing
  ensures n >= 0''')
T='FeatBase'
for fn,arg,f in [('SetName','name','name'),('SetUStack','u','ustack')]:
    setter(T,fn,arg,f'p.{f}',f'p.{f} == {arg}')
    p(f'unit (*FeatBase).{fn}@where(p, {arg}) (r)\n  props C22\n  modifies p.{f}\n  ensures r == old(p.where) && p.{f} == {arg}')
setter(T,'SetOption','name, value','mapof(p.options, name)','has(p.options, name) && p.options[name] == value')
getter(T,'GetName','p.name')
getter(T,'GetOption','optof(p.options, name)','name')
p(f'unit NewFeatBase() (r)\n  props C22\n  ensures typeis(r, *FeatBase) && typeis(as(r, *FeatBase).where, *FeatBase) && as(as(r, *FeatBase).where, *FeatBase) == as(r, *FeatBase)\n  ensures as(r, *FeatBase).options != nil && forallk(q, string, !has(as(r, *FeatBase).options, q))')
p('// ---- context')
T='DefaultUStackContext'
for n,f in [('Connection','connection'),('Buffer','ubuf'),('Message','message')]:
    setter(T,'Set'+n,'v',f'p.{f}',f'p.{f} == v',self='')
    getter(T,'Get'+n,f'p.{f}')
setter(T,'SetOption','name, value','mapof(p.options, name)','has(p.options, name) && p.options[name] == value',self='')
getter(T,'GetOption','optof(p.options, name)','name')
p('''unit NewUStackContext() (r)
  props C22
  ensures typeis(r, *DefaultUStackContext) && fresh(as(r, *DefaultUStackContext)) && as(r, *DefaultUStackContext).options != nil && forallk(q, string, !has(as(r, *DefaultUStackContext).options, q))
  ensures as(r, *DefaultUStackContext).connection == nil && as(r, *DefaultUStackContext).ubuf == nil && as(r, *DefaultUStackContext).message == nil''')
p('// ---- stack')
T='DefaultUStack'
setter(T,'SetName','name','p.name','p.name == name',self='')
setter(T,'SetOption','name, value','mapof(p.options, name)','has(p.options, name) && p.options[name] == value',self='')
getter(T,'GetName','p.name'); getter(T,'GetOption','optof(p.options, name)','name')
getter(T,'GetMTU','p.mtu'); getter(T,'GetOverhead','p.overhead')
for fn,f in [('AddFeature','features'),('AppendDataProcessor','processors'),('SetEventListener','listeners')]:
    p(f'''unit (*DefaultUStack).{fn}(p, v) (r)
  props C22{" C14" if f=="listeners" else " C12" if f=="processors" else " C15"}
  modifies p.{f}, elems(p.{f}, len(p.{f}), cap(p.{f}))
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == p
  ensures len(p.{f}) == old(len(p.{f})) + 1 && ref(p.{f}[old(len(p.{f}))]) == ref(v) && forall(i, 0, old(len(p.{f})), ref(p.{f}[i]) == old(ref(p.{f}[i])))''' if f=='listeners' else f'''unit (*DefaultUStack).{fn}(p, v) (r)
  props C22{" C12" if f=="processors" else " C15"}
  modifies p.{f}, elems(p.{f}, len(p.{f}), cap(p.{f}))
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == p
  ensures len(p.{f}) == old(len(p.{f})) + 1 && p.{f}[old(len(p.{f}))] == v && forall(i, 0, old(len(p.{f})), p.{f}[i] == old(p.{f}[i]))''')
for fn,f in [('GetFeatures','features'),('GetEndPoint','endpoints'),('GetTransport','transports')]:
    p(f'''unit (*DefaultUStack).{fn}(p) (r)
  props C22 C15
  modifies nothing
  ensures len(r) == len(p.{f}) && forall(i, 0, len(r), r[i] == p.{f}[i])''')
p('''unit NewUStack() (r)
  props C22
  ensures typeis(r, *DefaultUStack) && fresh(as(r, *DefaultUStack)) && as(r, *DefaultUStack).options != nil && forallk(q, string, !has(as(r, *DefaultUStack).options, q))
  ensures len(as(r, *DefaultUStack).features) == 0 && len(as(r, *DefaultUStack).endpoints) == 0 && len(as(r, *DefaultUStack).transports) == 0 && len(as(r, *DefaultUStack).processors) == 0 && len(as(r, *DefaultUStack).listeners) == 0''')
p('// ---- endpoint and endpoint data')
T='DefaultEndPoint'
setter(T,'SetName','name','p.name','p.name == name',self=''); getter(T,'GetName','p.name')
setter(T,'SetSession','v','p.session','p.session == v',self=''); getter(T,'GetSession','p.session')
getter(T,'GetTxChannel','p.txChannel'); getter(T,'GetRxChannel','p.rxChannel')
setter(T,'SetEventListener','v','p.eventListener','ref(p.eventListener) == ref(v)',self='')
p('''unit (*DefaultEndPoint).SetDataListener(p, v) (r)
  props C22
  modifies p.dataListener, p.inAutoReceive
  ensures typeis(r, *DefaultEndPoint) && as(r, *DefaultEndPoint) == p && ref(p.dataListener) == ref(v)
unit NewEndPoint(name, session) (r)
  props C22
  ensures typeis(r, *DefaultEndPoint) && fresh(as(r, *DefaultEndPoint)) && as(r, *DefaultEndPoint).name == name && as(r, *DefaultEndPoint).session == session
  ensures as(r, *DefaultEndPoint).txChannel != nil && as(r, *DefaultEndPoint).rxChannel != nil && as(r, *DefaultEndPoint).txChannel != as(r, *DefaultEndPoint).rxChannel''')
T='DefaultEndPointData'
setter(T,'SetConnection','v','p.connection','p.connection == v',self=''); getter(T,'GetConnection','p.connection')
setter(T,'SetData','v','p.data','p.data == v',self=''); getter(T,'GetData','p.data')
setter(T,'SetDestinationSession','v','p.destinationSession, p.hasDestinationSession','p.destinationSession == v && p.hasDestinationSession',self='')
getter(T,'GetDestinationSession','p.destinationSession'); getter(T,'HasDestinationSession','p.hasDestinationSession')
p('''unit (*DefaultEndPointData).ClearDestinationSession(p) (r)
  props C22
  modifies p.hasDestinationSession, p.destinationSession
  ensures typeis(r, *DefaultEndPointData) && as(r, *DefaultEndPointData) == p && !p.hasDestinationSession
unit NewEndPointData() (r)
  props C22
  ensures typeis(r, *DefaultEndPointData) && fresh(as(r, *DefaultEndPointData)) && as(r, *DefaultEndPointData).connection == nil && as(r, *DefaultEndPointData).data == nil && !as(r, *DefaultEndPointData).hasDestinationSession''')
p('// ---- transports')
for T,af in [('TCPTransport','address'),('UDSTransport','filename'),('ReferenceTransport','address')]:
    setter(T,'ForServer','v','p.forServer','p.forServer == v',self='')
    setter(T,'SetAddress','v',f'p.{af}',f'p.{af} == v',self=''); getter(T,'GetAddress',f'p.{af}')
    setter(T,'SetOption','name, value','mapof(p.options, name)','has(p.options, name) && p.options[name] == value',self='')
    getter(T,'GetOption','optof(p.options, name)','name'); getter(T,'GetName','p.name')
    p(f'''unit New{T}(name) (r)
  props C22 C21
  ensures typeis(r, *{T}) && fresh(as(r, *{T})) && as(r, *{T}).name == name && as(r, *{T}).options != nil && forallk(q, string, !has(as(r, *{T}).options, q))
  ensures !as(r, *{T}).isRunning''')
for K in ('TCP','UDS'):
    p(f'unit New{K}TransportConnection(name, conn) (r)\n  props C20\n  ensures typeis(r, *{K}TransportConnection) && as(r, *{K}TransportConnection).name == name && as(r, *{K}TransportConnection).conn == conn && !as(r, *{K}TransportConnection).closed')
    getter(K+'TransportConnection','GetName','p.name')
getter('ReferenceTransportConnection','GetName','p.name')
p('// ---- typed option lookup')
for K,t in [('Byte','byte'),('Int','int'),('Bool','bool')]:
    p(f'''unit OptionParse{K}(o, d) (v, ok)
  props C22
  modifies nothing
  ensures iff(ok, typeis(o, {t})) && implies(ok, v == as(o, {t})) && implies(!ok, v == d)''')
p('''unit OptionParseByteSlice(o) (v, ok)
  props C22
  modifies nothing
  ensures iff(ok, typeis(o, []byte)) && implies(ok, base(v) == base(as(o, []byte)) && off(v) == off(as(o, []byte)) && len(v) == len(as(o, []byte))) && implies(!ok, len(v) == 0)''')
open('/verif/contracts/cfg.spec','w').write('\n'.join(out)+'\n')
