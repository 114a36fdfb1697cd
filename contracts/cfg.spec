// Generated by tools/genspec_cfg.py. Configuration calls (C22).
def optof(m, n) = ite(has(m, n), m[n], nil)
// ---- Echo
unit (*Echo).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *Echo) && as(p.where, *Echo) == p
  modifies p.name
  ensures typeis(r, *Echo) && as(r, *Echo) == p
  ensures p.name == name
unit (*Echo).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *Echo) && as(p.where, *Echo) == p
  modifies p.enable
  ensures typeis(r, *Echo) && as(r, *Echo) == p
  ensures p.enable == enable
unit (*Echo).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *Echo) && as(p.where, *Echo) == p
  modifies p.forServer
  ensures typeis(r, *Echo) && as(r, *Echo) == p
  ensures p.forServer == forServer
unit (*Echo).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *Echo) && as(p.where, *Echo) == p
  modifies p.ustack
  ensures typeis(r, *Echo) && as(r, *Echo) == p
  ensures p.ustack == u
unit (*Echo).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *Echo) && as(p.where, *Echo) == p
  modifies p.upper
  ensures typeis(r, *Echo) && as(r, *Echo) == p
  ensures p.upper == q
unit (*Echo).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *Echo) && as(p.where, *Echo) == p
  modifies p.lower
  ensures typeis(r, *Echo) && as(r, *Echo) == p
  ensures p.lower == q
unit (*Echo).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *Echo) && as(p.where, *Echo) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *Echo) && as(r, *Echo) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*Echo).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*Echo).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewEcho@cfg() (r)
  props C22
  ensures typeis(r, *Echo) && typeis(as(r, *Echo).where, *Echo) && as(as(r, *Echo).where, *Echo) == as(r, *Echo)
  ensures as(r, *Echo).options != nil && forallk(q, string, !has(as(r, *Echo).options, q)) && as(r, *Echo).enable
  ensures fresh(as(r, *Echo)) && fresh(as(r, *Echo).options)
// ---- Loopback
unit (*Loopback).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *Loopback) && as(p.where, *Loopback) == p
  modifies p.name
  ensures typeis(r, *Loopback) && as(r, *Loopback) == p
  ensures p.name == name
unit (*Loopback).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *Loopback) && as(p.where, *Loopback) == p
  modifies p.enable
  ensures typeis(r, *Loopback) && as(r, *Loopback) == p
  ensures p.enable == enable
unit (*Loopback).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *Loopback) && as(p.where, *Loopback) == p
  modifies p.forServer
  ensures typeis(r, *Loopback) && as(r, *Loopback) == p
  ensures p.forServer == forServer
unit (*Loopback).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *Loopback) && as(p.where, *Loopback) == p
  modifies p.ustack
  ensures typeis(r, *Loopback) && as(r, *Loopback) == p
  ensures p.ustack == u
unit (*Loopback).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *Loopback) && as(p.where, *Loopback) == p
  modifies p.upper
  ensures typeis(r, *Loopback) && as(r, *Loopback) == p
  ensures p.upper == q
unit (*Loopback).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *Loopback) && as(p.where, *Loopback) == p
  modifies p.lower
  ensures typeis(r, *Loopback) && as(r, *Loopback) == p
  ensures p.lower == q
unit (*Loopback).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *Loopback) && as(p.where, *Loopback) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *Loopback) && as(r, *Loopback) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*Loopback).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*Loopback).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewLoopback@cfg() (r)
  props C22
  ensures typeis(r, *Loopback) && typeis(as(r, *Loopback).where, *Loopback) && as(as(r, *Loopback).where, *Loopback) == as(r, *Loopback)
  ensures as(r, *Loopback).options != nil && forallk(q, string, !has(as(r, *Loopback).options, q)) && as(r, *Loopback).enable
  ensures fresh(as(r, *Loopback)) && fresh(as(r, *Loopback).options)
// ---- Discarder
unit (*Discarder).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *Discarder) && as(p.where, *Discarder) == p
  modifies p.name
  ensures typeis(r, *Discarder) && as(r, *Discarder) == p
  ensures p.name == name
unit (*Discarder).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *Discarder) && as(p.where, *Discarder) == p
  modifies p.enable
  ensures typeis(r, *Discarder) && as(r, *Discarder) == p
  ensures p.enable == enable
unit (*Discarder).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *Discarder) && as(p.where, *Discarder) == p
  modifies p.forServer
  ensures typeis(r, *Discarder) && as(r, *Discarder) == p
  ensures p.forServer == forServer
unit (*Discarder).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *Discarder) && as(p.where, *Discarder) == p
  modifies p.ustack
  ensures typeis(r, *Discarder) && as(r, *Discarder) == p
  ensures p.ustack == u
unit (*Discarder).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *Discarder) && as(p.where, *Discarder) == p
  modifies p.upper
  ensures typeis(r, *Discarder) && as(r, *Discarder) == p
  ensures p.upper == q
unit (*Discarder).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *Discarder) && as(p.where, *Discarder) == p
  modifies p.lower
  ensures typeis(r, *Discarder) && as(r, *Discarder) == p
  ensures p.lower == q
unit (*Discarder).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *Discarder) && as(p.where, *Discarder) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *Discarder) && as(r, *Discarder) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*Discarder).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*Discarder).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewDiscarder@cfg() (r)
  props C22
  ensures typeis(r, *Discarder) && typeis(as(r, *Discarder).where, *Discarder) && as(as(r, *Discarder).where, *Discarder) == as(r, *Discarder)
  ensures as(r, *Discarder).options != nil && forallk(q, string, !has(as(r, *Discarder).options, q)) && as(r, *Discarder).enable
  ensures fresh(as(r, *Discarder)) && fresh(as(r, *Discarder).options)
// ---- FlowController
unit (*FlowController).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *FlowController) && as(p.where, *FlowController) == p
  modifies p.name
  ensures typeis(r, *FlowController) && as(r, *FlowController) == p
  ensures p.name == name
unit (*FlowController).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *FlowController) && as(p.where, *FlowController) == p
  modifies p.enable
  ensures typeis(r, *FlowController) && as(r, *FlowController) == p
  ensures p.enable == enable
unit (*FlowController).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *FlowController) && as(p.where, *FlowController) == p
  modifies p.forServer
  ensures typeis(r, *FlowController) && as(r, *FlowController) == p
  ensures p.forServer == forServer
unit (*FlowController).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *FlowController) && as(p.where, *FlowController) == p
  modifies p.ustack
  ensures typeis(r, *FlowController) && as(r, *FlowController) == p
  ensures p.ustack == u
unit (*FlowController).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *FlowController) && as(p.where, *FlowController) == p
  modifies p.upper
  ensures typeis(r, *FlowController) && as(r, *FlowController) == p
  ensures p.upper == q
unit (*FlowController).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *FlowController) && as(p.where, *FlowController) == p
  modifies p.lower
  ensures typeis(r, *FlowController) && as(r, *FlowController) == p
  ensures p.lower == q
unit (*FlowController).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *FlowController) && as(p.where, *FlowController) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *FlowController) && as(r, *FlowController) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*FlowController).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*FlowController).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewFlowController@cfg() (r)
  props C22
  ensures typeis(r, *FlowController) && typeis(as(r, *FlowController).where, *FlowController) && as(as(r, *FlowController).where, *FlowController) == as(r, *FlowController)
  ensures as(r, *FlowController).options != nil && forallk(q, string, !has(as(r, *FlowController).options, q)) && as(r, *FlowController).enable
  ensures fresh(as(r, *FlowController)) && fresh(as(r, *FlowController).options)
// ---- SessionResolver
unit (*SessionResolver).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *SessionResolver) && as(p.where, *SessionResolver) == p
  modifies p.name
  ensures typeis(r, *SessionResolver) && as(r, *SessionResolver) == p
  ensures p.name == name
unit (*SessionResolver).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *SessionResolver) && as(p.where, *SessionResolver) == p
  modifies p.enable
  ensures typeis(r, *SessionResolver) && as(r, *SessionResolver) == p
  ensures p.enable == enable
unit (*SessionResolver).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *SessionResolver) && as(p.where, *SessionResolver) == p
  modifies p.forServer
  ensures typeis(r, *SessionResolver) && as(r, *SessionResolver) == p
  ensures p.forServer == forServer
unit (*SessionResolver).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *SessionResolver) && as(p.where, *SessionResolver) == p
  modifies p.ustack
  ensures typeis(r, *SessionResolver) && as(r, *SessionResolver) == p
  ensures p.ustack == u
unit (*SessionResolver).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *SessionResolver) && as(p.where, *SessionResolver) == p
  modifies p.upper
  ensures typeis(r, *SessionResolver) && as(r, *SessionResolver) == p
  ensures p.upper == q
unit (*SessionResolver).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *SessionResolver) && as(p.where, *SessionResolver) == p
  modifies p.lower
  ensures typeis(r, *SessionResolver) && as(r, *SessionResolver) == p
  ensures p.lower == q
unit (*SessionResolver).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *SessionResolver) && as(p.where, *SessionResolver) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *SessionResolver) && as(r, *SessionResolver) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*SessionResolver).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*SessionResolver).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewSessionResolver@cfg() (r)
  props C22
  ensures typeis(r, *SessionResolver) && typeis(as(r, *SessionResolver).where, *SessionResolver) && as(as(r, *SessionResolver).where, *SessionResolver) == as(r, *SessionResolver)
  ensures as(r, *SessionResolver).options != nil && forallk(q, string, !has(as(r, *SessionResolver).options, q)) && as(r, *SessionResolver).enable
  ensures fresh(as(r, *SessionResolver)) && fresh(as(r, *SessionResolver).options)
// ---- LoadBalancer
unit (*LoadBalancer).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *LoadBalancer) && as(p.where, *LoadBalancer) == p
  modifies p.name
  ensures typeis(r, *LoadBalancer) && as(r, *LoadBalancer) == p
  ensures p.name == name
unit (*LoadBalancer).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *LoadBalancer) && as(p.where, *LoadBalancer) == p
  modifies p.enable
  ensures typeis(r, *LoadBalancer) && as(r, *LoadBalancer) == p
  ensures p.enable == enable
unit (*LoadBalancer).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *LoadBalancer) && as(p.where, *LoadBalancer) == p
  modifies p.forServer
  ensures typeis(r, *LoadBalancer) && as(r, *LoadBalancer) == p
  ensures p.forServer == forServer
unit (*LoadBalancer).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *LoadBalancer) && as(p.where, *LoadBalancer) == p
  modifies p.ustack
  ensures typeis(r, *LoadBalancer) && as(r, *LoadBalancer) == p
  ensures p.ustack == u
unit (*LoadBalancer).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *LoadBalancer) && as(p.where, *LoadBalancer) == p
  modifies p.upper
  ensures typeis(r, *LoadBalancer) && as(r, *LoadBalancer) == p
  ensures p.upper == q
unit (*LoadBalancer).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *LoadBalancer) && as(p.where, *LoadBalancer) == p
  modifies p.lower
  ensures typeis(r, *LoadBalancer) && as(r, *LoadBalancer) == p
  ensures p.lower == q
unit (*LoadBalancer).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *LoadBalancer) && as(p.where, *LoadBalancer) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *LoadBalancer) && as(r, *LoadBalancer) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*LoadBalancer).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*LoadBalancer).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewLoadBalancer@cfg() (r)
  props C22
  ensures typeis(r, *LoadBalancer) && typeis(as(r, *LoadBalancer).where, *LoadBalancer) && as(as(r, *LoadBalancer).where, *LoadBalancer) == as(r, *LoadBalancer)
  ensures as(r, *LoadBalancer).options != nil && forallk(q, string, !has(as(r, *LoadBalancer).options, q)) && as(r, *LoadBalancer).enable
  ensures fresh(as(r, *LoadBalancer)) && fresh(as(r, *LoadBalancer).options)
// ---- Heartbeat
unit (*Heartbeat).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *Heartbeat) && as(p.where, *Heartbeat) == p
  modifies p.name
  ensures typeis(r, *Heartbeat) && as(r, *Heartbeat) == p
  ensures p.name == name
unit (*Heartbeat).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *Heartbeat) && as(p.where, *Heartbeat) == p
  modifies p.enable
  ensures typeis(r, *Heartbeat) && as(r, *Heartbeat) == p
  ensures p.enable == enable
unit (*Heartbeat).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *Heartbeat) && as(p.where, *Heartbeat) == p
  modifies p.forServer
  ensures typeis(r, *Heartbeat) && as(r, *Heartbeat) == p
  ensures p.forServer == forServer
unit (*Heartbeat).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *Heartbeat) && as(p.where, *Heartbeat) == p
  modifies p.ustack
  ensures typeis(r, *Heartbeat) && as(r, *Heartbeat) == p
  ensures p.ustack == u
unit (*Heartbeat).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *Heartbeat) && as(p.where, *Heartbeat) == p
  modifies p.upper
  ensures typeis(r, *Heartbeat) && as(r, *Heartbeat) == p
  ensures p.upper == q
unit (*Heartbeat).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *Heartbeat) && as(p.where, *Heartbeat) == p
  modifies p.lower
  ensures typeis(r, *Heartbeat) && as(r, *Heartbeat) == p
  ensures p.lower == q
unit (*Heartbeat).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *Heartbeat) && as(p.where, *Heartbeat) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *Heartbeat) && as(r, *Heartbeat) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*Heartbeat).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*Heartbeat).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewHeartbeat@cfg() (r)
  props C22
  ensures typeis(r, *Heartbeat) && typeis(as(r, *Heartbeat).where, *Heartbeat) && as(as(r, *Heartbeat).where, *Heartbeat) == as(r, *Heartbeat)
  ensures as(r, *Heartbeat).options != nil && forallk(q, string, !has(as(r, *Heartbeat).options, q)) && as(r, *Heartbeat).enable
  ensures fresh(as(r, *Heartbeat)) && fresh(as(r, *Heartbeat).options)
// ---- StatCounter
unit (*StatCounter).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *StatCounter) && as(p.where, *StatCounter) == p
  modifies p.name
  ensures typeis(r, *StatCounter) && as(r, *StatCounter) == p
  ensures p.name == name
unit (*StatCounter).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *StatCounter) && as(p.where, *StatCounter) == p
  modifies p.enable
  ensures typeis(r, *StatCounter) && as(r, *StatCounter) == p
  ensures p.enable == enable
unit (*StatCounter).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *StatCounter) && as(p.where, *StatCounter) == p
  modifies p.forServer
  ensures typeis(r, *StatCounter) && as(r, *StatCounter) == p
  ensures p.forServer == forServer
unit (*StatCounter).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *StatCounter) && as(p.where, *StatCounter) == p
  modifies p.ustack
  ensures typeis(r, *StatCounter) && as(r, *StatCounter) == p
  ensures p.ustack == u
unit (*StatCounter).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *StatCounter) && as(p.where, *StatCounter) == p
  modifies p.upper
  ensures typeis(r, *StatCounter) && as(r, *StatCounter) == p
  ensures p.upper == q
unit (*StatCounter).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *StatCounter) && as(p.where, *StatCounter) == p
  modifies p.lower
  ensures typeis(r, *StatCounter) && as(r, *StatCounter) == p
  ensures p.lower == q
unit (*StatCounter).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *StatCounter) && as(p.where, *StatCounter) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *StatCounter) && as(r, *StatCounter) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*StatCounter).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*StatCounter).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewStatCounter@cfg() (r)
  props C22
  ensures typeis(r, *StatCounter) && typeis(as(r, *StatCounter).where, *StatCounter) && as(as(r, *StatCounter).where, *StatCounter) == as(r, *StatCounter)
  ensures as(r, *StatCounter).options != nil && forallk(q, string, !has(as(r, *StatCounter).options, q)) && as(r, *StatCounter).enable
  ensures fresh(as(r, *StatCounter)) && fresh(as(r, *StatCounter).options)
// ---- FrameDecoder
unit (*FrameDecoder).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *FrameDecoder) && as(p.where, *FrameDecoder) == p
  modifies p.name
  ensures typeis(r, *FrameDecoder) && as(r, *FrameDecoder) == p
  ensures p.name == name
unit (*FrameDecoder).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *FrameDecoder) && as(p.where, *FrameDecoder) == p
  modifies p.enable
  ensures typeis(r, *FrameDecoder) && as(r, *FrameDecoder) == p
  ensures p.enable == enable
unit (*FrameDecoder).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *FrameDecoder) && as(p.where, *FrameDecoder) == p
  modifies p.forServer
  ensures typeis(r, *FrameDecoder) && as(r, *FrameDecoder) == p
  ensures p.forServer == forServer
unit (*FrameDecoder).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *FrameDecoder) && as(p.where, *FrameDecoder) == p
  modifies p.ustack
  ensures typeis(r, *FrameDecoder) && as(r, *FrameDecoder) == p
  ensures p.ustack == u
unit (*FrameDecoder).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *FrameDecoder) && as(p.where, *FrameDecoder) == p
  modifies p.upper
  ensures typeis(r, *FrameDecoder) && as(r, *FrameDecoder) == p
  ensures p.upper == q
unit (*FrameDecoder).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *FrameDecoder) && as(p.where, *FrameDecoder) == p
  modifies p.lower
  ensures typeis(r, *FrameDecoder) && as(r, *FrameDecoder) == p
  ensures p.lower == q
unit (*FrameDecoder).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *FrameDecoder) && as(p.where, *FrameDecoder) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *FrameDecoder) && as(r, *FrameDecoder) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*FrameDecoder).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*FrameDecoder).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewFrameDecoder@cfg() (r)
  props C22
  ensures typeis(r, *FrameDecoder) && typeis(as(r, *FrameDecoder).where, *FrameDecoder) && as(as(r, *FrameDecoder).where, *FrameDecoder) == as(r, *FrameDecoder)
  ensures as(r, *FrameDecoder).options != nil && forallk(q, string, !has(as(r, *FrameDecoder).options, q)) && as(r, *FrameDecoder).enable
  ensures fresh(as(r, *FrameDecoder)) && fresh(as(r, *FrameDecoder).options)
// ---- BytesCodec
unit (*BytesCodec).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *BytesCodec) && as(p.where, *BytesCodec) == p
  modifies p.name
  ensures typeis(r, *BytesCodec) && as(r, *BytesCodec) == p
  ensures p.name == name
unit (*BytesCodec).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *BytesCodec) && as(p.where, *BytesCodec) == p
  modifies p.enable
  ensures typeis(r, *BytesCodec) && as(r, *BytesCodec) == p
  ensures p.enable == enable
unit (*BytesCodec).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *BytesCodec) && as(p.where, *BytesCodec) == p
  modifies p.forServer
  ensures typeis(r, *BytesCodec) && as(r, *BytesCodec) == p
  ensures p.forServer == forServer
unit (*BytesCodec).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *BytesCodec) && as(p.where, *BytesCodec) == p
  modifies p.ustack
  ensures typeis(r, *BytesCodec) && as(r, *BytesCodec) == p
  ensures p.ustack == u
unit (*BytesCodec).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *BytesCodec) && as(p.where, *BytesCodec) == p
  modifies p.upper
  ensures typeis(r, *BytesCodec) && as(r, *BytesCodec) == p
  ensures p.upper == q
unit (*BytesCodec).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *BytesCodec) && as(p.where, *BytesCodec) == p
  modifies p.lower
  ensures typeis(r, *BytesCodec) && as(r, *BytesCodec) == p
  ensures p.lower == q
unit (*BytesCodec).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *BytesCodec) && as(p.where, *BytesCodec) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *BytesCodec) && as(r, *BytesCodec) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*BytesCodec).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*BytesCodec).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewBytesCodec@cfg() (r)
  props C22
  ensures typeis(r, *BytesCodec) && typeis(as(r, *BytesCodec).where, *BytesCodec) && as(as(r, *BytesCodec).where, *BytesCodec) == as(r, *BytesCodec)
  ensures as(r, *BytesCodec).options != nil && forallk(q, string, !has(as(r, *BytesCodec).options, q)) && as(r, *BytesCodec).enable
  ensures fresh(as(r, *BytesCodec)) && fresh(as(r, *BytesCodec).options)
// ---- StringCodec
unit (*StringCodec).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *StringCodec) && as(p.where, *StringCodec) == p
  modifies p.name
  ensures typeis(r, *StringCodec) && as(r, *StringCodec) == p
  ensures p.name == name
unit (*StringCodec).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *StringCodec) && as(p.where, *StringCodec) == p
  modifies p.enable
  ensures typeis(r, *StringCodec) && as(r, *StringCodec) == p
  ensures p.enable == enable
unit (*StringCodec).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *StringCodec) && as(p.where, *StringCodec) == p
  modifies p.forServer
  ensures typeis(r, *StringCodec) && as(r, *StringCodec) == p
  ensures p.forServer == forServer
unit (*StringCodec).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *StringCodec) && as(p.where, *StringCodec) == p
  modifies p.ustack
  ensures typeis(r, *StringCodec) && as(r, *StringCodec) == p
  ensures p.ustack == u
unit (*StringCodec).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *StringCodec) && as(p.where, *StringCodec) == p
  modifies p.upper
  ensures typeis(r, *StringCodec) && as(r, *StringCodec) == p
  ensures p.upper == q
unit (*StringCodec).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *StringCodec) && as(p.where, *StringCodec) == p
  modifies p.lower
  ensures typeis(r, *StringCodec) && as(r, *StringCodec) == p
  ensures p.lower == q
unit (*StringCodec).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *StringCodec) && as(p.where, *StringCodec) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *StringCodec) && as(r, *StringCodec) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*StringCodec).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*StringCodec).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewStringCodec@cfg() (r)
  props C22
  ensures typeis(r, *StringCodec) && typeis(as(r, *StringCodec).where, *StringCodec) && as(as(r, *StringCodec).where, *StringCodec) == as(r, *StringCodec)
  ensures as(r, *StringCodec).options != nil && forallk(q, string, !has(as(r, *StringCodec).options, q)) && as(r, *StringCodec).enable
  ensures fresh(as(r, *StringCodec)) && fresh(as(r, *StringCodec).options)
// ---- JSONCodec
unit (*JSONCodec).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *JSONCodec) && as(p.where, *JSONCodec) == p
  modifies p.name
  ensures typeis(r, *JSONCodec) && as(r, *JSONCodec) == p
  ensures p.name == name
unit (*JSONCodec).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *JSONCodec) && as(p.where, *JSONCodec) == p
  modifies p.enable
  ensures typeis(r, *JSONCodec) && as(r, *JSONCodec) == p
  ensures p.enable == enable
unit (*JSONCodec).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *JSONCodec) && as(p.where, *JSONCodec) == p
  modifies p.forServer
  ensures typeis(r, *JSONCodec) && as(r, *JSONCodec) == p
  ensures p.forServer == forServer
unit (*JSONCodec).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *JSONCodec) && as(p.where, *JSONCodec) == p
  modifies p.ustack
  ensures typeis(r, *JSONCodec) && as(r, *JSONCodec) == p
  ensures p.ustack == u
unit (*JSONCodec).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *JSONCodec) && as(p.where, *JSONCodec) == p
  modifies p.upper
  ensures typeis(r, *JSONCodec) && as(r, *JSONCodec) == p
  ensures p.upper == q
unit (*JSONCodec).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *JSONCodec) && as(p.where, *JSONCodec) == p
  modifies p.lower
  ensures typeis(r, *JSONCodec) && as(r, *JSONCodec) == p
  ensures p.lower == q
unit (*JSONCodec).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *JSONCodec) && as(p.where, *JSONCodec) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *JSONCodec) && as(r, *JSONCodec) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*JSONCodec).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*JSONCodec).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewJSONCodec@cfg(t) (r)
  props C22
  ensures typeis(r, *JSONCodec) && typeis(as(r, *JSONCodec).where, *JSONCodec) && as(as(r, *JSONCodec).where, *JSONCodec) == as(r, *JSONCodec)
  ensures as(r, *JSONCodec).options != nil && forallk(q, string, !has(as(r, *JSONCodec).options, q)) && as(r, *JSONCodec).enable
  ensures fresh(as(r, *JSONCodec)) && fresh(as(r, *JSONCodec).options)
// ---- GOBCodec
unit (*GOBCodec).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *GOBCodec) && as(p.where, *GOBCodec) == p
  modifies p.name
  ensures typeis(r, *GOBCodec) && as(r, *GOBCodec) == p
  ensures p.name == name
unit (*GOBCodec).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *GOBCodec) && as(p.where, *GOBCodec) == p
  modifies p.enable
  ensures typeis(r, *GOBCodec) && as(r, *GOBCodec) == p
  ensures p.enable == enable
unit (*GOBCodec).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *GOBCodec) && as(p.where, *GOBCodec) == p
  modifies p.forServer
  ensures typeis(r, *GOBCodec) && as(r, *GOBCodec) == p
  ensures p.forServer == forServer
unit (*GOBCodec).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *GOBCodec) && as(p.where, *GOBCodec) == p
  modifies p.ustack
  ensures typeis(r, *GOBCodec) && as(r, *GOBCodec) == p
  ensures p.ustack == u
unit (*GOBCodec).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *GOBCodec) && as(p.where, *GOBCodec) == p
  modifies p.upper
  ensures typeis(r, *GOBCodec) && as(r, *GOBCodec) == p
  ensures p.upper == q
unit (*GOBCodec).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *GOBCodec) && as(p.where, *GOBCodec) == p
  modifies p.lower
  ensures typeis(r, *GOBCodec) && as(r, *GOBCodec) == p
  ensures p.lower == q
unit (*GOBCodec).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *GOBCodec) && as(p.where, *GOBCodec) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *GOBCodec) && as(r, *GOBCodec) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*GOBCodec).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*GOBCodec).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewGOBCodec@cfg(t) (r)
  props C22
  ensures typeis(r, *GOBCodec) && typeis(as(r, *GOBCodec).where, *GOBCodec) && as(as(r, *GOBCodec).where, *GOBCodec) == as(r, *GOBCodec)
  ensures as(r, *GOBCodec).options != nil && forallk(q, string, !has(as(r, *GOBCodec).options, q)) && as(r, *GOBCodec).enable
  ensures fresh(as(r, *GOBCodec)) && fresh(as(r, *GOBCodec).options)
// ---- GenericCodec
unit (*GenericCodec).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *GenericCodec) && as(p.where, *GenericCodec) == p
  modifies p.name
  ensures typeis(r, *GenericCodec) && as(r, *GenericCodec) == p
  ensures p.name == name
unit (*GenericCodec).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *GenericCodec) && as(p.where, *GenericCodec) == p
  modifies p.enable
  ensures typeis(r, *GenericCodec) && as(r, *GenericCodec) == p
  ensures p.enable == enable
unit (*GenericCodec).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *GenericCodec) && as(p.where, *GenericCodec) == p
  modifies p.forServer
  ensures typeis(r, *GenericCodec) && as(r, *GenericCodec) == p
  ensures p.forServer == forServer
unit (*GenericCodec).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *GenericCodec) && as(p.where, *GenericCodec) == p
  modifies p.ustack
  ensures typeis(r, *GenericCodec) && as(r, *GenericCodec) == p
  ensures p.ustack == u
unit (*GenericCodec).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *GenericCodec) && as(p.where, *GenericCodec) == p
  modifies p.upper
  ensures typeis(r, *GenericCodec) && as(r, *GenericCodec) == p
  ensures p.upper == q
unit (*GenericCodec).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *GenericCodec) && as(p.where, *GenericCodec) == p
  modifies p.lower
  ensures typeis(r, *GenericCodec) && as(r, *GenericCodec) == p
  ensures p.lower == q
unit (*GenericCodec).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *GenericCodec) && as(p.where, *GenericCodec) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *GenericCodec) && as(r, *GenericCodec) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*GenericCodec).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*GenericCodec).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewGenericCodec@cfg(i, e, d) (r)
  props C22
  ensures typeis(r, *GenericCodec) && typeis(as(r, *GenericCodec).where, *GenericCodec) && as(as(r, *GenericCodec).where, *GenericCodec) == as(r, *GenericCodec)
  ensures as(r, *GenericCodec).options != nil && forallk(q, string, !has(as(r, *GenericCodec).options, q)) && as(r, *GenericCodec).enable
  ensures fresh(as(r, *GenericCodec)) && fresh(as(r, *GenericCodec).options)
// ---- Filter
unit (*Filter).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *Filter) && as(p.where, *Filter) == p
  modifies p.name
  ensures typeis(r, *Filter) && as(r, *Filter) == p
  ensures p.name == name
unit (*Filter).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *Filter) && as(p.where, *Filter) == p
  modifies p.enable
  ensures typeis(r, *Filter) && as(r, *Filter) == p
  ensures p.enable == enable
unit (*Filter).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *Filter) && as(p.where, *Filter) == p
  modifies p.forServer
  ensures typeis(r, *Filter) && as(r, *Filter) == p
  ensures p.forServer == forServer
unit (*Filter).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *Filter) && as(p.where, *Filter) == p
  modifies p.ustack
  ensures typeis(r, *Filter) && as(r, *Filter) == p
  ensures p.ustack == u
unit (*Filter).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *Filter) && as(p.where, *Filter) == p
  modifies p.upper
  ensures typeis(r, *Filter) && as(r, *Filter) == p
  ensures p.upper == q
unit (*Filter).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *Filter) && as(p.where, *Filter) == p
  modifies p.lower
  ensures typeis(r, *Filter) && as(r, *Filter) == p
  ensures p.lower == q
unit (*Filter).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *Filter) && as(p.where, *Filter) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *Filter) && as(r, *Filter) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*Filter).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*Filter).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewFilter@cfg(f) (r)
  props C22
  ensures typeis(r, *Filter) && typeis(as(r, *Filter).where, *Filter) && as(as(r, *Filter).where, *Filter) == as(r, *Filter)
  ensures as(r, *Filter).options != nil && forallk(q, string, !has(as(r, *Filter).options, q)) && as(r, *Filter).enable
  ensures fresh(as(r, *Filter)) && fresh(as(r, *Filter).options)
// ---- Forwarder
unit (*Forwarder).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *Forwarder) && as(p.where, *Forwarder) == p
  modifies p.name
  ensures typeis(r, *Forwarder) && as(r, *Forwarder) == p
  ensures p.name == name
unit (*Forwarder).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *Forwarder) && as(p.where, *Forwarder) == p
  modifies p.enable
  ensures typeis(r, *Forwarder) && as(r, *Forwarder) == p
  ensures p.enable == enable
unit (*Forwarder).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *Forwarder) && as(p.where, *Forwarder) == p
  modifies p.forServer
  ensures typeis(r, *Forwarder) && as(r, *Forwarder) == p
  ensures p.forServer == forServer
unit (*Forwarder).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *Forwarder) && as(p.where, *Forwarder) == p
  modifies p.ustack
  ensures typeis(r, *Forwarder) && as(r, *Forwarder) == p
  ensures p.ustack == u
unit (*Forwarder).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *Forwarder) && as(p.where, *Forwarder) == p
  modifies p.upper
  ensures typeis(r, *Forwarder) && as(r, *Forwarder) == p
  ensures p.upper == q
unit (*Forwarder).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *Forwarder) && as(p.where, *Forwarder) == p
  modifies p.lower
  ensures typeis(r, *Forwarder) && as(r, *Forwarder) == p
  ensures p.lower == q
unit (*Forwarder).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *Forwarder) && as(p.where, *Forwarder) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *Forwarder) && as(r, *Forwarder) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*Forwarder).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*Forwarder).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewForwarder@cfg(f) (r)
  props C22
  ensures typeis(r, *Forwarder) && typeis(as(r, *Forwarder).where, *Forwarder) && as(as(r, *Forwarder).where, *Forwarder) == as(r, *Forwarder)
  ensures as(r, *Forwarder).options != nil && forallk(q, string, !has(as(r, *Forwarder).options, q)) && as(r, *Forwarder).enable
  ensures fresh(as(r, *Forwarder)) && fresh(as(r, *Forwarder).options)
// ---- UpperDeck
unit (*UpperDeck).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *UpperDeck) && as(p.where, *UpperDeck) == p
  modifies p.name
  ensures typeis(r, *UpperDeck) && as(r, *UpperDeck) == p
  ensures p.name == name
unit (*UpperDeck).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *UpperDeck) && as(p.where, *UpperDeck) == p
  modifies p.enable
  ensures typeis(r, *UpperDeck) && as(r, *UpperDeck) == p
  ensures p.enable == enable
unit (*UpperDeck).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *UpperDeck) && as(p.where, *UpperDeck) == p
  modifies p.forServer
  ensures typeis(r, *UpperDeck) && as(r, *UpperDeck) == p
  ensures p.forServer == forServer
unit (*UpperDeck).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *UpperDeck) && as(p.where, *UpperDeck) == p
  modifies p.ustack
  ensures typeis(r, *UpperDeck) && as(r, *UpperDeck) == p
  ensures p.ustack == u
unit (*UpperDeck).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *UpperDeck) && as(p.where, *UpperDeck) == p
  modifies p.upper
  ensures typeis(r, *UpperDeck) && as(r, *UpperDeck) == p
  ensures p.upper == q
unit (*UpperDeck).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *UpperDeck) && as(p.where, *UpperDeck) == p
  modifies p.lower
  ensures typeis(r, *UpperDeck) && as(r, *UpperDeck) == p
  ensures p.lower == q
unit (*UpperDeck).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *UpperDeck) && as(p.where, *UpperDeck) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *UpperDeck) && as(r, *UpperDeck) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*UpperDeck).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*UpperDeck).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewUpperDeck@cfg() (r)
  props C22
  ensures typeis(r, *UpperDeck) && typeis(as(r, *UpperDeck).where, *UpperDeck) && as(as(r, *UpperDeck).where, *UpperDeck) == as(r, *UpperDeck)
  ensures as(r, *UpperDeck).options != nil && forallk(q, string, !has(as(r, *UpperDeck).options, q)) && as(r, *UpperDeck).enable
  ensures fresh(as(r, *UpperDeck)) && fresh(as(r, *UpperDeck).options)
// ---- LowerDeck
unit (*LowerDeck).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *LowerDeck) && as(p.where, *LowerDeck) == p
  modifies p.name
  ensures typeis(r, *LowerDeck) && as(r, *LowerDeck) == p
  ensures p.name == name
unit (*LowerDeck).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *LowerDeck) && as(p.where, *LowerDeck) == p
  modifies p.enable
  ensures typeis(r, *LowerDeck) && as(r, *LowerDeck) == p
  ensures p.enable == enable
unit (*LowerDeck).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *LowerDeck) && as(p.where, *LowerDeck) == p
  modifies p.forServer
  ensures typeis(r, *LowerDeck) && as(r, *LowerDeck) == p
  ensures p.forServer == forServer
unit (*LowerDeck).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *LowerDeck) && as(p.where, *LowerDeck) == p
  modifies p.ustack
  ensures typeis(r, *LowerDeck) && as(r, *LowerDeck) == p
  ensures p.ustack == u
unit (*LowerDeck).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *LowerDeck) && as(p.where, *LowerDeck) == p
  modifies p.upper
  ensures typeis(r, *LowerDeck) && as(r, *LowerDeck) == p
  ensures p.upper == q
unit (*LowerDeck).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *LowerDeck) && as(p.where, *LowerDeck) == p
  modifies p.lower
  ensures typeis(r, *LowerDeck) && as(r, *LowerDeck) == p
  ensures p.lower == q
unit (*LowerDeck).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *LowerDeck) && as(p.where, *LowerDeck) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *LowerDeck) && as(r, *LowerDeck) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*LowerDeck).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*LowerDeck).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewLowerDeck@cfg() (r)
  props C22
  ensures typeis(r, *LowerDeck) && typeis(as(r, *LowerDeck).where, *LowerDeck) && as(as(r, *LowerDeck).where, *LowerDeck) == as(r, *LowerDeck)
  ensures as(r, *LowerDeck).options != nil && forallk(q, string, !has(as(r, *LowerDeck).options, q)) && as(r, *LowerDeck).enable
  ensures fresh(as(r, *LowerDeck)) && fresh(as(r, *LowerDeck).options)
// ---- ProcBase
unit (*ProcBase).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *ProcBase) && as(p.where, *ProcBase) == p
  modifies p.name
  ensures typeis(r, *ProcBase) && as(r, *ProcBase) == p
  ensures p.name == name
unit (*ProcBase).SetEnable(p, enable) (r)
  props C22
  requires typeis(p.where, *ProcBase) && as(p.where, *ProcBase) == p
  modifies p.enable
  ensures typeis(r, *ProcBase) && as(r, *ProcBase) == p
  ensures p.enable == enable
unit (*ProcBase).ForServer(p, forServer) (r)
  props C22
  requires typeis(p.where, *ProcBase) && as(p.where, *ProcBase) == p
  modifies p.forServer
  ensures typeis(r, *ProcBase) && as(r, *ProcBase) == p
  ensures p.forServer == forServer
unit (*ProcBase).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *ProcBase) && as(p.where, *ProcBase) == p
  modifies p.ustack
  ensures typeis(r, *ProcBase) && as(r, *ProcBase) == p
  ensures p.ustack == u
unit (*ProcBase).SetUpper(p, q) (r)
  props C22
  requires typeis(p.where, *ProcBase) && as(p.where, *ProcBase) == p
  modifies p.upper
  ensures typeis(r, *ProcBase) && as(r, *ProcBase) == p
  ensures p.upper == q
unit (*ProcBase).SetLower(p, q) (r)
  props C22
  requires typeis(p.where, *ProcBase) && as(p.where, *ProcBase) == p
  modifies p.lower
  ensures typeis(r, *ProcBase) && as(r, *ProcBase) == p
  ensures p.lower == q
unit (*ProcBase).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *ProcBase) && as(p.where, *ProcBase) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *ProcBase) && as(r, *ProcBase) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*ProcBase).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*ProcBase).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewProcBase@cfg() (r)
  props C22
  ensures typeis(r, *ProcBase) && typeis(as(r, *ProcBase).where, *ProcBase) && as(as(r, *ProcBase).where, *ProcBase) == as(r, *ProcBase)
  ensures as(r, *ProcBase).options != nil && forallk(q, string, !has(as(r, *ProcBase).options, q)) && as(r, *ProcBase).enable
  ensures fresh(as(r, *ProcBase)) && fresh(as(r, *ProcBase).options)
// ---- base for user-defined processors and features
unit (*ProcBase).SetWhere(p, w) (r)
  props C22
  modifies p.where
  ensures p.where == w && r == w
unit (*ProcBase).SetName@where(p, name) (r)
  props C22
  modifies p.name
  ensures r == old(p.where) && p.name == name
unit (*ProcBase).SetEnable@where(p, enable) (r)
  props C22
  modifies p.enable
  ensures r == old(p.where) && p.enable == enable
unit (*ProcBase).ForServer@where(p, forServer) (r)
  props C22
  modifies p.forServer
  ensures r == old(p.where) && p.forServer == forServer
unit (*ProcBase).SetUStack@where(p, u) (r)
  props C22
  modifies p.ustack
  ensures r == old(p.where) && p.ustack == u
unit (*ProcBase).SetUpper@where(p, q) (r)
  props C22
  modifies p.upper
  ensures r == old(p.where) && p.upper == q
unit (*ProcBase).SetLower@where(p, q) (r)
  props C22
  modifies p.lower
  ensures r == old(p.where) && p.lower == q
unit (*ProcBase).SetOption@where(p, name, value) (r)
  props C22
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures r == old(p.where) && has(p.options, name) && p.options[name] == value
unit (*ProcBase).GetOverhead(p) (n)
  props C11
  modifies nothing
  ensures n >= 0
unit (*FeatBase).SetName(p, name) (r)
  props C22
  requires typeis(p.where, *FeatBase) && as(p.where, *FeatBase) == p
  modifies p.name
  ensures typeis(r, *FeatBase) && as(r, *FeatBase) == p
  ensures p.name == name
unit (*FeatBase).SetName@where(p, name) (r)
  props C22
  modifies p.name
  ensures r == old(p.where) && p.name == name
unit (*FeatBase).SetUStack(p, u) (r)
  props C22
  requires typeis(p.where, *FeatBase) && as(p.where, *FeatBase) == p
  modifies p.ustack
  ensures typeis(r, *FeatBase) && as(r, *FeatBase) == p
  ensures p.ustack == u
unit (*FeatBase).SetUStack@where(p, u) (r)
  props C22
  modifies p.ustack
  ensures r == old(p.where) && p.ustack == u
unit (*FeatBase).SetOption(p, name, value) (r)
  props C22
  requires typeis(p.where, *FeatBase) && as(p.where, *FeatBase) == p
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *FeatBase) && as(r, *FeatBase) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*FeatBase).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*FeatBase).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewFeatBase() (r)
  props C22
  ensures typeis(r, *FeatBase) && typeis(as(r, *FeatBase).where, *FeatBase) && as(as(r, *FeatBase).where, *FeatBase) == as(r, *FeatBase)
  ensures as(r, *FeatBase).options != nil && forallk(q, string, !has(as(r, *FeatBase).options, q))
// ---- context
unit (*DefaultUStackContext).SetConnection(p, v) (r)
  props C22
  modifies p.connection
  ensures typeis(r, *DefaultUStackContext) && as(r, *DefaultUStackContext) == p
  ensures p.connection == v
unit (*DefaultUStackContext).GetConnection(p) (r)
  props C22
  modifies nothing
  ensures r == p.connection
unit (*DefaultUStackContext).SetBuffer(p, v) (r)
  props C22
  modifies p.ubuf
  ensures typeis(r, *DefaultUStackContext) && as(r, *DefaultUStackContext) == p
  ensures p.ubuf == v
unit (*DefaultUStackContext).GetBuffer(p) (r)
  props C22
  modifies nothing
  ensures r == p.ubuf
unit (*DefaultUStackContext).SetMessage(p, v) (r)
  props C22
  modifies p.message
  ensures typeis(r, *DefaultUStackContext) && as(r, *DefaultUStackContext) == p
  ensures p.message == v
unit (*DefaultUStackContext).GetMessage(p) (r)
  props C22
  modifies nothing
  ensures r == p.message
unit (*DefaultUStackContext).SetOption(p, name, value) (r)
  props C22
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *DefaultUStackContext) && as(r, *DefaultUStackContext) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*DefaultUStackContext).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit NewUStackContext() (r)
  props C22
  ensures typeis(r, *DefaultUStackContext) && fresh(as(r, *DefaultUStackContext)) && as(r, *DefaultUStackContext).options != nil && forallk(q, string, !has(as(r, *DefaultUStackContext).options, q))
  ensures as(r, *DefaultUStackContext).connection == nil && as(r, *DefaultUStackContext).ubuf == nil && as(r, *DefaultUStackContext).message == nil
// ---- stack
unit (*DefaultUStack).SetName(p, name) (r)
  props C22
  modifies p.name
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == p
  ensures p.name == name
unit (*DefaultUStack).SetOption(p, name, value) (r)
  props C22
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*DefaultUStack).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*DefaultUStack).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit (*DefaultUStack).GetMTU(p) (r)
  props C22
  modifies nothing
  ensures r == p.mtu
unit (*DefaultUStack).GetOverhead(p) (r)
  props C22
  modifies nothing
  ensures r == p.overhead
unit (*DefaultUStack).AddFeature(p, v) (r)
  props C22 C15
  modifies p.features, elems(p.features, len(p.features), cap(p.features))
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == p
  ensures len(p.features) == old(len(p.features)) + 1 && p.features[old(len(p.features))] == v && forall(i, 0, old(len(p.features)), p.features[i] == old(p.features[i]))
unit (*DefaultUStack).AppendDataProcessor(p, v) (r)
  props C22 C12
  modifies p.processors, elems(p.processors, len(p.processors), cap(p.processors))
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == p
  ensures len(p.processors) == old(len(p.processors)) + 1 && p.processors[old(len(p.processors))] == v && forall(i, 0, old(len(p.processors)), p.processors[i] == old(p.processors[i]))
unit (*DefaultUStack).SetEventListener(p, v) (r)
  props C22 C14
  modifies p.listeners, elems(p.listeners, len(p.listeners), cap(p.listeners))
  ensures typeis(r, *DefaultUStack) && as(r, *DefaultUStack) == p
  ensures len(p.listeners) == old(len(p.listeners)) + 1 && ref(p.listeners[old(len(p.listeners))]) == ref(v) && forall(i, 0, old(len(p.listeners)), ref(p.listeners[i]) == old(ref(p.listeners[i])))
unit (*DefaultUStack).GetFeatures(p) (r)
  props C22 C15
  modifies nothing
  ensures len(r) == len(p.features) && forall(i, 0, len(r), r[i] == p.features[i])
unit (*DefaultUStack).GetEndPoint(p) (r)
  props C22 C15
  modifies nothing
  ensures len(r) == len(p.endpoints) && forall(i, 0, len(r), r[i] == p.endpoints[i])
unit (*DefaultUStack).GetTransport(p) (r)
  props C22 C15
  modifies nothing
  ensures len(r) == len(p.transports) && forall(i, 0, len(r), r[i] == p.transports[i])
unit NewUStack() (r)
  props C22
  ensures typeis(r, *DefaultUStack) && fresh(as(r, *DefaultUStack)) && as(r, *DefaultUStack).options != nil && forallk(q, string, !has(as(r, *DefaultUStack).options, q))
  ensures len(as(r, *DefaultUStack).features) == 0 && len(as(r, *DefaultUStack).endpoints) == 0 && len(as(r, *DefaultUStack).transports) == 0 && len(as(r, *DefaultUStack).processors) == 0 && len(as(r, *DefaultUStack).listeners) == 0
// ---- endpoint and endpoint data
unit (*DefaultEndPoint).SetName(p, name) (r)
  props C22
  modifies p.name
  ensures typeis(r, *DefaultEndPoint) && as(r, *DefaultEndPoint) == p
  ensures p.name == name
unit (*DefaultEndPoint).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*DefaultEndPoint).SetSession(p, v) (r)
  props C22
  modifies p.session
  ensures typeis(r, *DefaultEndPoint) && as(r, *DefaultEndPoint) == p
  ensures p.session == v
unit (*DefaultEndPoint).GetSession(p) (r)
  props C22
  modifies nothing
  ensures r == p.session
unit (*DefaultEndPoint).GetTxChannel(p) (r)
  props C22
  modifies nothing
  ensures r == p.txChannel
unit (*DefaultEndPoint).GetRxChannel(p) (r)
  props C22
  modifies nothing
  ensures r == p.rxChannel
unit (*DefaultEndPoint).SetEventListener(p, v) (r)
  props C22
  modifies p.eventListener
  ensures typeis(r, *DefaultEndPoint) && as(r, *DefaultEndPoint) == p
  ensures ref(p.eventListener) == ref(v)
unit (*DefaultEndPoint).SetDataListener(p, v) (r)
  props C22
  modifies p.dataListener, p.inAutoReceive
  ensures typeis(r, *DefaultEndPoint) && as(r, *DefaultEndPoint) == p && ref(p.dataListener) == ref(v)
unit NewEndPoint(name, session) (r)
  props C22
  ensures typeis(r, *DefaultEndPoint) && fresh(as(r, *DefaultEndPoint)) && as(r, *DefaultEndPoint).name == name && as(r, *DefaultEndPoint).session == session
  ensures as(r, *DefaultEndPoint).txChannel != nil && as(r, *DefaultEndPoint).rxChannel != nil && as(r, *DefaultEndPoint).txChannel != as(r, *DefaultEndPoint).rxChannel
unit (*DefaultEndPointData).SetConnection(p, v) (r)
  props C22
  modifies p.connection
  ensures typeis(r, *DefaultEndPointData) && as(r, *DefaultEndPointData) == p
  ensures p.connection == v
unit (*DefaultEndPointData).GetConnection(p) (r)
  props C22
  modifies nothing
  ensures r == p.connection
unit (*DefaultEndPointData).SetData(p, v) (r)
  props C22
  modifies p.data
  ensures typeis(r, *DefaultEndPointData) && as(r, *DefaultEndPointData) == p
  ensures p.data == v
unit (*DefaultEndPointData).GetData(p) (r)
  props C22
  modifies nothing
  ensures r == p.data
unit (*DefaultEndPointData).SetDestinationSession(p, v) (r)
  props C22
  modifies p.destinationSession, p.hasDestinationSession
  ensures typeis(r, *DefaultEndPointData) && as(r, *DefaultEndPointData) == p
  ensures p.destinationSession == v && p.hasDestinationSession
unit (*DefaultEndPointData).GetDestinationSession(p) (r)
  props C22
  modifies nothing
  ensures r == p.destinationSession
unit (*DefaultEndPointData).HasDestinationSession(p) (r)
  props C22
  modifies nothing
  ensures r == p.hasDestinationSession
unit (*DefaultEndPointData).ClearDestinationSession(p) (r)
  props C22
  modifies p.hasDestinationSession, p.destinationSession
  ensures typeis(r, *DefaultEndPointData) && as(r, *DefaultEndPointData) == p && !p.hasDestinationSession
unit NewEndPointData() (r)
  props C22
  ensures typeis(r, *DefaultEndPointData) && fresh(as(r, *DefaultEndPointData)) && as(r, *DefaultEndPointData).connection == nil && as(r, *DefaultEndPointData).data == nil && !as(r, *DefaultEndPointData).hasDestinationSession
// ---- transports
unit (*TCPTransport).ForServer(p, v) (r)
  props C22
  modifies p.forServer
  ensures typeis(r, *TCPTransport) && as(r, *TCPTransport) == p
  ensures p.forServer == v
unit (*TCPTransport).SetAddress(p, v) (r)
  props C22
  modifies p.address
  ensures typeis(r, *TCPTransport) && as(r, *TCPTransport) == p
  ensures p.address == v
unit (*TCPTransport).GetAddress(p) (r)
  props C22
  modifies nothing
  ensures r == p.address
unit (*TCPTransport).SetOption(p, name, value) (r)
  props C22
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *TCPTransport) && as(r, *TCPTransport) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*TCPTransport).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit (*TCPTransport).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit NewTCPTransport(name) (r)
  props C22 C21
  ensures typeis(r, *TCPTransport) && fresh(as(r, *TCPTransport)) && as(r, *TCPTransport).name == name && as(r, *TCPTransport).options != nil && forallk(q, string, !has(as(r, *TCPTransport).options, q))
  ensures !as(r, *TCPTransport).isRunning
unit (*UDSTransport).ForServer(p, v) (r)
  props C22
  modifies p.forServer
  ensures typeis(r, *UDSTransport) && as(r, *UDSTransport) == p
  ensures p.forServer == v
unit (*UDSTransport).SetAddress(p, v) (r)
  props C22
  modifies p.filename
  ensures typeis(r, *UDSTransport) && as(r, *UDSTransport) == p
  ensures p.filename == v
unit (*UDSTransport).GetAddress(p) (r)
  props C22
  modifies nothing
  ensures r == p.filename
unit (*UDSTransport).SetOption(p, name, value) (r)
  props C22
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *UDSTransport) && as(r, *UDSTransport) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*UDSTransport).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit (*UDSTransport).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit NewUDSTransport(name) (r)
  props C22 C21
  ensures typeis(r, *UDSTransport) && fresh(as(r, *UDSTransport)) && as(r, *UDSTransport).name == name && as(r, *UDSTransport).options != nil && forallk(q, string, !has(as(r, *UDSTransport).options, q))
  ensures !as(r, *UDSTransport).isRunning
unit (*ReferenceTransport).ForServer(p, v) (r)
  props C22
  modifies p.forServer
  ensures typeis(r, *ReferenceTransport) && as(r, *ReferenceTransport) == p
  ensures p.forServer == v
unit (*ReferenceTransport).SetAddress(p, v) (r)
  props C22
  modifies p.address
  ensures typeis(r, *ReferenceTransport) && as(r, *ReferenceTransport) == p
  ensures p.address == v
unit (*ReferenceTransport).GetAddress(p) (r)
  props C22
  modifies nothing
  ensures r == p.address
unit (*ReferenceTransport).SetOption(p, name, value) (r)
  props C22
  requires p.options != nil
  modifies mapof(p.options, name)
  ensures typeis(r, *ReferenceTransport) && as(r, *ReferenceTransport) == p
  ensures has(p.options, name) && p.options[name] == value
unit (*ReferenceTransport).GetOption(p, name) (r)
  props C22
  modifies nothing
  ensures r == optof(p.options, name)
unit (*ReferenceTransport).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit NewReferenceTransport(name) (r)
  props C22 C21
  ensures typeis(r, *ReferenceTransport) && fresh(as(r, *ReferenceTransport)) && as(r, *ReferenceTransport).name == name && as(r, *ReferenceTransport).options != nil && forallk(q, string, !has(as(r, *ReferenceTransport).options, q))
  ensures !as(r, *ReferenceTransport).isRunning
unit NewTCPTransportConnection(name, conn) (r)
  props C20
  ensures typeis(r, *TCPTransportConnection) && as(r, *TCPTransportConnection).name == name && as(r, *TCPTransportConnection).conn == conn && !as(r, *TCPTransportConnection).closed
unit (*TCPTransportConnection).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit NewUDSTransportConnection(name, conn) (r)
  props C20
  ensures typeis(r, *UDSTransportConnection) && as(r, *UDSTransportConnection).name == name && as(r, *UDSTransportConnection).conn == conn && !as(r, *UDSTransportConnection).closed
unit (*UDSTransportConnection).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
unit (*ReferenceTransportConnection).GetName(p) (r)
  props C22
  modifies nothing
  ensures r == p.name
// ---- typed option lookup
unit OptionParseByte(o, d) (v, ok)
  props C22
  modifies nothing
  ensures iff(ok, typeis(o, byte)) && implies(ok, v == as(o, byte)) && implies(!ok, v == d)
unit OptionParseInt(o, d) (v, ok)
  props C22
  modifies nothing
  ensures iff(ok, typeis(o, int)) && implies(ok, v == as(o, int)) && implies(!ok, v == d)
unit OptionParseBool(o, d) (v, ok)
  props C22
  modifies nothing
  ensures iff(ok, typeis(o, bool)) && implies(ok, v == as(o, bool)) && implies(!ok, v == d)
unit OptionParseByteSlice(o) (v, ok)
  props C22
  modifies nothing
  ensures iff(ok, typeis(o, []byte)) && implies(ok, base(v) == base(as(o, []byte)) && off(v) == off(as(o, []byte)) && len(v) == len(as(o, []byte))) && implies(!ok, len(v) == 0)
