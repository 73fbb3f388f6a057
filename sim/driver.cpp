// The Buzz program the simulated robots run: it executes the operations which the plan schedules.
#include "vmhost.hpp"
const char* DRIVER = R"BZZ(#keep
S = {}
W = {}
N = {}
KEEP = {}
OPS = {}
POL = {}
function init() { simev("init") step() }
function reset() { }
function destroy() { }

function churn(n) {
  var i = 0
  while(i < n) {
    var t = {} t.x = string.concat("c", string.tostring(i)) t[i] = {.a = i}
    i = i + 1
  }
}
# ---- virtual stigmergy
OPS[1] = function() { S[simarg(1)] = stigmergy.create(simarg(1)) }
OPS[2] = function() { S[simarg(1)].put(simarg(2), simarg(3)) }
OPS[3] = function() { var v = S[simarg(1)].get(simarg(2))  simev("G", simarg(1), simarg(2), v) }
OPS[4] = function() { simev("Z", simarg(1), S[simarg(1)].size()) }
OPS[5] = function() {
  simev("F0", simarg(1))
  S[simarg(1)].foreach(function(k,v,r) { simev("F", simarg(1), k, v, r) })
  simev("F1", simarg(1))
}
function mkconf(s,p,tag) {
  return function(k,l,r) {
    simev("C", s, tag, k, l.data, l.timestamp, l.robot, r.data, r.timestamp, r.robot)
    if(p == 10) {
      # gives up its own references and makes garbage
      var res = POL[p](s,k,l,r)
      k = 1 l = 2 r = 3
      churn(25)
      return res
    }
    return POL[p](s,k,l,r)
  }
}
POL[0] = function(s,k,l,r) { return l }
POL[1] = function(s,k,l,r) { return r }
POL[2] = function(s,k,l,r) { if(l.robot < r.robot) { return l } else { return r } }
POL[3] = function(s,k,l,r) { if(l.robot > r.robot) { return l } else { return r } }
POL[4] = function(s,k,l,r) { return nil }
POL[5] = function(s,k,l,r) { return 7 }
POL[6] = function(s,k,l,r) { return {} }
POL[7] = function(s,k,l,r) { var t = {} t.robot = id t.data = l.robot + r.robot * 1000 t.timestamp = 1 return t }
POL[8] = function(s,k,l,r) { S[s].put("hk", l.robot) if(l.robot > r.robot) { return l } else { return r } }
POL[9] = function(s,k,l,r) { var i = 0 while(i < 12) { S[s].put(string.concat("hk", string.tostring(i)), i) i = i + 1 } var v = S[s].get(k) return r }
POL[10] = function(s,k,l,r) { var keep = r if(l.robot > r.robot) { keep = l } k = 1 l = 2 r = 3 s = 4 churn(25) return keep }
POL[11] = function(s,k,l,r) { churn(30) if(l.robot > r.robot) { return l } return r }
POL[12] = function(s,k,l,r) { S[s].put(k, l.robot + 100) if(l.robot > r.robot) { return l } return r }
POL[13] = function(s,k,l,r) { S[s].onconflict(mkconf(s, 3, -1)) churn(5) if(l.robot < r.robot) { return l } return r }
OPS[6] = function() { S[simarg(1)].onconflict(mkconf(simarg(1), simarg(2), simarg(3))) }
function mklost(s,p,tag) {
  return function(k,l) {
    simev("L", s, tag, k, l.data, l.timestamp, l.robot)
    if(p == 1) { S[s].put("lost", l.data) }
    if(p == 2) { var i = 0 while(i < 12) { S[s].put(1000 + i, i) i = i + 1 } }
    if(p == 3) { return 5 }
    if(p == 4) { k = 1 l = 2 churn(25) }
    if(p == 5) { S[s].put(k, l.data) }
    if(p == 6) { S[s].onconflictlost(mklost(s, 0, -1)) churn(5) simev("L6", k, l.data) }
  }
}
OPS[7] = function() { S[simarg(1)].onconflictlost(mklost(simarg(1), simarg(2), simarg(3))) }

OPS[19] = function() { var s = simarg(1) var k = simarg(2) var b = simarg(3) var n = simarg(4) var st = S[s] var i = 0 while(i < n) { st.put(k, b + i) i = i + 1 } }

# ---- broadcasts
OPS[8] = function() { neighbors.broadcast(simarg(1), simarg(2)) }
function mklisten(tag,p) {
  return function(t,v,r) {
    simev("B", tag, t, v, r)
    if(p == 1) { neighbors.broadcast("echo", v) }
    if(p == 2) { neighbors.ignore(t) }
    if(p == 3) { neighbors.listen(t, mklisten(tag + 1000, 0)) }
    if(p == 4) { return 3 }
    if(p == 5) { neighbors.broadcast("echo", 1) neighbors.listen("late", mklisten(tag + 2000, 0)) }
    if(p == 6) { if(simisfn(v)) { simev("FR", v(20)) } }
    if(p == 7) { t = 1 v = 2 r = 3 churn(25) }
    if(p == 8) { var i = 0 while(i < 25) { neighbors.listen(string.concat("x", string.tostring(i)), mklisten(tag + 3000 + i, 0)) i = i + 1 } }
    if(p == 9) { simev("TB", v) X() simev("TE") }
  }
}
FUNS = {}
FUNS[1] = function(x) { return x + 1 }
FUNS[2] = function(x) { simev("FC", x) return FUNS[1](x) * 2 }
FUNS[3] = function(x) { var t = {} t.a = x return t.a * 3 }
FUNS[4] = math.abs
function nest(y) { return function(x) { return x + y } }
OPS[14] = function() { neighbors.broadcast(simarg(1), FUNS[simarg(2)]) }
OPS[15] = function() { neighbors.broadcast(simarg(1), nest(3)) }
OPS[16] = function() { var t = {} t.f = FUNS[simarg(2)] t.n = 5 t.g = nest(1) neighbors.broadcast(simarg(1), t) }
OPS[17] = function() { var k = simarg(2) var t = {} var i = 0 while(i < k) { t[i] = i * i i = i + 1 } neighbors.broadcast(simarg(1), t) }
OPS[18] = function() { var k = simarg(2) var s = "ab" var i = 0 while(i < k) { s = string.concat(s, s) i = i + 1 } neighbors.broadcast(simarg(1), s) }
OPS[9] = function() { neighbors.listen(simarg(1), mklisten(simarg(2), simarg(3))) }
OPS[10] = function() { neighbors.ignore(simarg(1)) }
OPS[11] = function() { KEEP[simarg(1)] = simarg(2) }
OPS[12] = function() { neighbors.broadcast(simarg(1), KEEP[simarg(2)]) }
OPS[13] = function() { var t = KEEP[simarg(1)] t[simarg(2)] = simarg(3) }

# ---- swarms
OPS[20] = function() { W[simarg(1)] = swarm.create(simarg(1)) }
OPS[21] = function() { W[simarg(1)].join() }
OPS[22] = function() { W[simarg(1)].leave() }
OPS[23] = function() { W[simarg(1)].select(simarg(2)) }
OPS[24] = function() { W[simarg(1)] = swarm.union(simarg(1), W[simarg(2)], W[simarg(3)]) }
OPS[25] = function() { W[simarg(1)] = swarm.intersection(simarg(1), W[simarg(2)], W[simarg(3)]) }
OPS[26] = function() { W[simarg(1)] = swarm.difference(simarg(1), W[simarg(2)], W[simarg(3)]) }
OPS[27] = function() { W[simarg(1)] = W[simarg(2)].others(simarg(1)) }
OPS[64] = function() { W[simarg(1)].exec(function() { W[simarg(2)] = swarm.create(simarg(2)) }) }
OPS[65] = function() { W[simarg(1)].exec(function() { W[simarg(2)].select(simarg(3)) }) }
OPS[66] = function() {
  var k = simarg(1)
  var w = W[simarg(2)]
  var f = {.id = simarg(3), .join = w.join, .leave = w.leave, .in = w.in, .select = w.select, .exec = w.exec, .others = w.others}
  if(k == 0) { f.join() }
  if(k == 1) { f.leave() }
  if(k == 2) { f.select(simarg(4)) }
  if(k == 3) { f.in() }
  if(k == 4) { f.exec(function() { simev("Z") }) }
  if(k == 5) { f.others(simarg(2)) }
  if(k == 6) { swarm.union(simarg(2), f, w) }
  if(k == 7) { swarm.union(simarg(2), w, f) }
  if(k == 8) { swarm.intersection(simarg(2), f, w) }
  if(k == 9) { swarm.intersection(simarg(2), w, f) }
  if(k == 10) { swarm.difference(simarg(2), f, w) }
  if(k == 11) { swarm.difference(simarg(2), w, f) }
  simev("Y", k)
}
OPS[28] = function() { simev("I", simarg(1), W[simarg(1)].in()) }
function QK(s) {
  simev("K0", s, swarm.id())
  neighbors.kin().foreach(function(r,d) { simev("K", s, r) })
  neighbors.nonkin().foreach(function(r,d) { simev("NK", s, r) })
  simev("K1", s, neighbors.count())
}
OPS[29] = function() { W[simarg(1)].exec(function() { QK(simarg(1)) }) }
OPS[55] = function() { W[simarg(1)].exec(function() { W[simarg(2)].exec(function() { QK(simarg(2)) }) QK(simarg(1)) }) }

# ---- neighbours
OPS[30] = function() { simev("NC", neighbors.count()) }
OPS[31] = function() { simev("NF0") neighbors.foreach(function(r,d) { simev("NF", r, d.distance, d.azimuth, d.elevation) }) simev("NF1") }
OPS[32] = function() { var d = neighbors.get(simarg(1)) if(d) { simev("NG", simarg(1), 1, d.distance, d.azimuth, d.elevation) } else { simev("NG", simarg(1), 0) } }
OPS[33] = function() { var x = neighbors.reduce(function(r,d,a) { a.n = a.n + 1 a.s = a.s + r return a }, {.n=0,.s=0}) simev("NR", x.n, x.s) }
OPS[34] = function() { N[simarg(1)] = neighbors.map(function(r,d) { var t = {} t.distance = d.distance * 2.0 t.azimuth = r t.elevation = d.elevation return t }) }
OPS[35] = function() { N[simarg(1)] = neighbors.filter(function(r,d) { return d.distance < simarg(2) }) }
OPS[36] = function() { simev("DF0", simarg(1)) if(N[simarg(1)]) { simev("DC", N[simarg(1)].count()) N[simarg(1)].foreach(function(r,d) { simev("DF", r, d.distance, d.azimuth, d.elevation) }) } simev("DF1", simarg(1)) }
OPS[37] = function() { N[simarg(1)] = neighbors.kin() }
OPS[38] = function() { N[simarg(1)] = neighbors.nonkin() }
OPS[39] = function() { if(N[simarg(2)]) { N[simarg(1)] = N[simarg(2)].filter(function(r,d) { return r > simarg(3) }) } }

OPS[41] = function() { if(N[simarg(1)]) { var d = N[simarg(1)].get(simarg(2)) if(d) { simev("DG", simarg(1), simarg(2), 1, d.distance, d.azimuth, d.elevation) } else { simev("DG", simarg(1), simarg(2), 0) } } }
OPS[42] = function() { if(N[simarg(1)]) { var x = N[simarg(1)].reduce(function(r,d,a) { a.n = a.n + 1 a.s = a.s + r return a }, {.n=0,.s=0}) simev("DR", simarg(1), x.n, x.s) } }
OPS[43] = function() { if(N[simarg(2)]) { N[simarg(1)] = N[simarg(2)].map(function(r,d) { var t = {} t.distance = r t.azimuth = d.azimuth + 1.0 t.elevation = d.distance return t }) } }
OPS[44] = function() { N[simarg(1)] = neighbors.filter(function(r,d) { if(r > simarg(2)) { return nil } return simarg(3) }) }
OPS[45] = function() { if(N[simarg(2)]) { N[simarg(1)] = N[simarg(2)].kin() } }
OPS[46] = function() { neighbors.foreach(function(r,d) { neighbors.foreach(function(r2,d2) { if(r < r2) { simev("PF", r, r2) } }) }) simev("PF1") }
OPS[47] = function() { N[simarg(1)] = neighbors.map(function(r,d) { if(simarg(2) > 0) { churn(20) } return d }) }
OPS[48] = function() { W[simarg(2)].exec(function() { N[simarg(1)] = neighbors.kin() }) }
OPS[49] = function() { W[simarg(2)].exec(function() { N[simarg(1)] = neighbors.nonkin() }) }
OPS[56] = function() { W[simarg(2)].exec(function() { if(N[simarg(3)]) { N[simarg(1)] = N[simarg(3)].kin() } }) }
OPS[57] = function() { W[simarg(2)].exec(function() { if(N[simarg(3)]) { N[simarg(1)] = N[simarg(3)].nonkin() } }) }
OPS[58] = function() { if(N[simarg(2)]) { N[simarg(1)] = N[simarg(2)].nonkin() } }
OPS[61] = function() {
  var k = simarg(1)
  var m = neighbors.map(function(r,d) { if(r % 3 == k) { return nil } if(r % 3 == 1) { return 0 } return "v" })
  simev("MC", m.count())
  m.foreach(function(r,v) { simev("MF", r, v) })
  simev("MF1", k)
}
OPS[62] = function() {
  var m = neighbors.filter(function(r,d) { if(r % 5 == 0) { return nil } if(r % 5 == 1) { return "" } if(r % 5 == 2) { return {} } if(r % 5 == 3) { return 0 } return -1 })
  simev("MC", m.count())
  m.foreach(function(r,d) { simev("FF", r, d.distance) })
  simev("FF1")
}
OPS[63] = function() { simev("RN", neighbors.reduce(function(r,d,a) { if(a) { return a + 1 } return 1 }, nil)) }

# ---- nested swarm executions, driven by tokens
function F(n) { if(n == 0) { X() return 7 } else { var y = F(n - 1) if(simtok() == 1) { return y } X() return y + n } }
function G() { X() }
T = {.m = function(a,b) { X() return a * b }}
function X() {
  var t = simtok()
  while(t > 0) {
    if(t == 1) { simev("ID", swarm.id()) }
    if(t == 2) { var s = simtok() W[s].exec(function() { simev("E0", s, swarm.id()) X() simev("E1", s, swarm.id()) }) simev("E2", s, swarm.id()) }
    if(t == 3) { simev("F", F(simtok())) }
    if(t == 4) { return }
    if(t == 5) { var s = simtok() W[s].exec(function() { simev("R0", s) X() var q = simtok() if(q == 1) { simev("R1") return } if(q == 2) { simev("R1") return function(x) { return x } } if(q == 3) { simev("R1") return {.a = q} } if(q == 7) { simev("R1") return q } if(q == 12) { simev("R1") return "text" } if(q == 4) { simev("R1") return nil } X() simev("R2", swarm.id()) }) simev("R3", swarm.id()) }
    if(t == 6) { var n = simtok() simev("IN", n, swarm.id(n)) }
    if(t == 7) { foreach({.a=1}, function(k,v) { simev("FE", k, v) X() }) }
    if(t == 8) { W[simtok()].join() }
    if(t == 9) { W[simtok()].leave() }
    if(t == 10) { var s = simtok() simev("EX", 100 + T.m(2, 3) + F(1)) W[s].exec(G) simev("EY", swarm.id()) }
    if(t == 11) { W[simtok()].exec(simtick) }
    if(t == 12) { simev("M", map({.b=4}, function(k,v) { X() return v + 1 }).b) }
    if(t == 13) { var s = simtok() W[s].exec(function() { W[s].leave() X() simev("L", swarm.id()) }) }
    if(t == 14) { var s = simtok() var i = 0 while(i < 3) { W[s].exec(function() { simev("LP", i, swarm.id()) if(i == 1) { X() } }) i = i + 1 } }
    if(t == 15) { churn(8) }
    t = simtok()
  }
}
OPS[50] = function() { simev("X0") X() simev("X1", swarm.id()) }

# ---- transient strings, closures, library calls
C = 0
RING = {}
DICT = {}
OPS[51] = function() {
  var n = simarg(1) var i = 0
  while(i < n) {
    var s = string.concat("u", string.tostring(C))
    if(string.toint(string.sub(s, 1, string.length(s))) != C) { simev("STR", C, s) }
    RING[C % 16] = s
    DICT[s] = C
    DICT[string.concat("u", string.tostring(C - 20))] = nil
    C = C + 1
    i = i + 1
  }
  i = 0
  while(i < 16) {
    if(RING[i] != nil) {
      var x = string.toint(string.sub(RING[i], 1, string.length(RING[i])))
      if(x % 16 != i) { simev("STR", i, RING[i]) }
      if(C - x > 16) { simev("STR", i, RING[i]) }
      if(DICT[RING[i]] != x) { simev("STR", i, RING[i], DICT[RING[i]]) }
    }
    i = i + 1
  }
}
function mk(n) { var a = n return function(x) { var b = a + x return function(y) { return a + b + y } } }
function fib(n) { if(n < 2) { return n } return fib(n - 1) + fib(n - 2) }
OPS[52] = function() {
  var f = mk(3)
  var r = f(4)(5) + fib(simarg(1))
  var t = {}
  var i = 0
  while(i < 30) { t[i] = {.a = i, .f = mk(i)} i = i + 1 }
  t = map(t, function(k, v) { return v.a })
  t = filter(t, function(k, v) { return v % 2 == 0 })
  r = r + reduce(t, function(k, v, a) { return a + v }, 0)
  foreach(clone(t), function(k, v) { r = r + 1 })
  var s = string.concat("x", string.tostring(r), string.tostring(0.5))
  r = r + string.length(string.sub(s, 0, 2)) + math.abs(-2) + math.max(1, 2) + size(t)
  math.rng.setseed(3) math.rng.uniform(5) math.rng.gaussian(1.0, 0.0)
  simev("LB", r, s)
}
OPS[53] = function() {
  var h = io.fopen("/p", "w")
  if(h) { io.fwrite(h, "line one") io.fwrite(h, "line two") io.fclose(h) }
  h = io.fopen("/p", "r")
  if(h) { io.fforeach(h, function(l) { simev("IO", l) }) io.fclose(h) }
  h = io.fopen("/missing", "r")
  simev("IOE", io.errno)
}
# ---- strings that exist once, from every source
PAD = "pppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppppp"
CU = 0
OPS[54] = function() {
  var k = simarg(1)
  CU = CU + 1
  var s = string.concat("v", string.tostring(CU))
  if(k == 0) { s = string.tostring(float(CU) + 0.5) if(string.toint(s) != CU) { simev("STR", CU, s) } }
  if(k == 1) { s = string.sub(string.concat(s, "abc"), 1, string.length(s) + 1) }
  if(k == 2) { neighbors.broadcast("t0", s) }
  if(k == 3) { neighbors.broadcast("t0", {.a = string.concat(s, PAD, PAD, PAD), .b = s}) }
  if(k == 4) { neighbors.broadcast(string.concat("topic", s), CU) }
  if(k == 5) {
    var h = io.fopen("/u", "w")
    if(h) { io.fwrite(h, string.concat("line ", s)) io.fclose(h) }
    h = io.fopen("/u", "r")
    if(h) { io.fforeach(h, function(l) { if(l != string.concat("line ", s)) { simev("STR", l, s) } }) io.fclose(h) }
  }
  if(k == 6) { var h = io.fopen(string.concat("/no/", s), "r") s = io.error_message }
  if(k == 7) { neighbors.listen(s, function(v, x, r) { }) neighbors.ignore(s) }
  if(k == 8) { var t = {} t[s] = {} t[s][string.concat(s, "x")] = s t[s] = nil }
  if(k == 9) { var t = {.m = function(x) { return string.concat(x, s) }} if(t.m(s) != string.concat(s, s)) { simev("STR", s) } }
  if(k == 10) { S[1].put("once", string.concat(s, PAD, PAD, PAD)) }
  if(k == 11) { neighbors.broadcast("t1", function(x) { return s }) }
}
# ---- errors: the robot stops here
OPS[60] = function() {
  var k = simarg(1)
  var t = {.a = {.x = 1, .y = 2}}
  if(k == 0) { t.b = t + 1 }
  if(k == 1) { string.length() }
  if(k == 2) { nosuch(t, "x") }
  if(k == 3) { foreach(t, function(x, y) { foreach(y, function(a, b) { t.b = math.sqrt("no") }) }) }
  if(k == 4) { W[1].join() W[1].exec(function() { neighbors.foreach(3) }) }
  if(k == 5) { neighbors.listen("t0", function(v, x, r) { nosuch(x) }) neighbors.listen("t1", function(v, x, r) { nosuch(x) }) neighbors.listen("fail", function(v, x, r) { nosuch(x) }) }
  if(k == 6) { S[1].put(t, function() { return t }) S[1].foreach(3) }
}
OPS[59] = function() {
  var h = io.fopen(simarg(1), "w")
  simev("IOO", h != nil, io.errno)
  var n = simarg(2) var i = 0 var s = "x"
  while(i < n) { io.fwrite(h, s, i) s = string.concat(s, string.tostring(i)) if(i % 5 == 4) { s = string.concat("r", string.tostring(i)) } i = i + 1 }
  simev("IOS", io.fsize(h), io.errno)
  io.fclose(h)
  h = io.fopen(simarg(1), "r")
  i = 0
  io.fforeach(h, function(l) { i = i + 1 simev("IO", l, i) if(i % 3 == 0) { churn(2) } })
  simev("IOE", io.errno)
  io.fclose(h)
  h = io.fopen(string.concat(simarg(1), "/missing"), "r")
  simev("IOM", h, io.errno)
}

# ---- churn
OPS[40] = function() {
  var i = 0
  var acc = ""
  while(i < simarg(1)) {
    var t = {} t.x = string.concat("c", string.tostring(i)) t[i] = {.a = i}
    acc = string.concat("k", string.tostring(i))
    i = i + 1
  }
  simev("H", i, acc)
}
function step() {
  var o = simop()
  while(o > 0) {
    OPS[o]()
    o = simop()
  }
}
)BZZ";
