// Weights and the dates on which boosts run out, for arbitrary integers: three
// dates (in order, otherwise arbitrary), two participants, weight that is
// nobody's.  The pool removes what has run out when it is touched, participants
// when they are: in any order, early or late.  Apalache proves the invariants
// inductive (checks/core.py), as with core.qnt.
module weights {
  type B = { x: int, y: int, z: int }                       // a boost per date
  type M = { w: int, b: B, del: int }                       // own weight with boosts; delegated weight
  type S = { now: int, dx: int, dy: int, dz: int, pt: int, pb: B, m: M, n: M, lw: int, lb: B }
  var s: S
  // effective weights one step ago: nobody else's changes
  var was: { m: int, n: int, now: int }

  pure val none: B = { x: 0, y: 0, z: 0 }
  pure def plus(a: B, b: B): B = { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z }
  pure def neg(b: B): B = { x: -b.x, y: -b.y, z: -b.z }
  pure def at(i: int, n: int): B = { x: if (i == 0) n else 0, y: if (i == 1) n else 0, z: if (i == 2) n else 0 }
  pure def date(t: S, i: int): int = if (i == 0) t.dx else if (i == 1) t.dy else t.dz
  pure def boost(b: B, i: int): int = if (i == 0) b.x else if (i == 1) b.y else b.z
  // the boosts of `b` that have run out
  pure def gone(t: S, b: B): B = { x: if (t.dx <= t.now) b.x else 0, y: if (t.dy <= t.now) b.y else 0, z: if (t.dz <= t.now) b.z else 0 }
  pure def sum(b: B): int = b.x + b.y + b.z
  pure def eff(t: S, m: M): int = m.w - sum(gone(t, m.b))

  // ------------------------------------------------------------ invariants
  pure def whole(t: S, m: M): bool = and { 0 <= m.b.x, 0 <= m.b.y, 0 <= m.b.z, sum(m.b) <= m.w, 0 <= m.del }
  // C04: with what has run out removed, the pool is the sum of its participants
  pure def total(t: S): bool =
    t.pt - sum(gone(t, t.pb)) == eff(t, t.m) + t.m.del + eff(t, t.n) + t.n.del + (t.lw - sum(gone(t, t.lb)))
  // ... and knows every boost still running by its date
  pure def known(t: S): bool = and {
    t.dx > t.now implies t.pb.x == t.m.b.x + t.n.b.x + t.lb.x,
    t.dy > t.now implies t.pb.y == t.m.b.y + t.n.b.y + t.lb.y,
    t.dz > t.now implies t.pb.z == t.m.b.z + t.n.b.z + t.lb.z }
  pure def inv(t: S): bool = and {
    t.dx < t.dy, t.dy < t.dz, whole(t, t.m), whole(t, t.n), total(t), known(t),
    0 <= t.lb.x, 0 <= t.lb.y, 0 <= t.lb.z, sum(t.lb) <= t.lw, 0 <= t.pb.x, 0 <= t.pb.y, 0 <= t.pb.z }
  val Inv = inv(s)
  // never negative, at any later date, so nothing is ever refused for it
  val Positive = and { s.pt >= sum(s.pb), eff(s, s.m) >= 0, eff(s, s.n) >= 0 }
  // C15: every action below is about m; n is affected by the passing of time only
  val Others = s.now == was.now implies eff(s, s.n) == was.n

  // --------------------------------------------------------------- actions
  action becomes(t: S): bool = all { s' = t, was' = { m: eff(s, s.m), n: eff(s, s.n), now: s.now } }
  pure def settled(t: S, m: M): M = { ...m, w: eff(t, m), b: plus(m.b, neg(gone(t, m.b))) }
  pure def rolled(t: S): S = { ...t, pt: t.pt - sum(gone(t, t.pb)), pb: plus(t.pb, neg(gone(t, t.pb))),
                               lw: t.lw - sum(gone(t, t.lb)), lb: plus(t.lb, neg(gone(t, t.lb))) }
  pure val nobody: M = { w: 0, b: none, del: 0 }

  action init = {
    nondet i = Int.oneOf() nondet j = Int.oneOf() nondet k = Int.oneOf() nondet o = Int.oneOf()
    all { i < j, j < k, s' = { now: o, dx: i, dy: j, dz: k, pt: 0, pb: none, m: nobody, n: nobody, lw: 0, lb: none }, was' = { m: 0, n: 0, now: o } }
  }
  action anywhere = {
    nondet a = Int.oneOf() nondet b = Int.oneOf() nondet c = Int.oneOf() nondet d = Int.oneOf() nondet e = Int.oneOf()
    nondet f = Int.oneOf() nondet g = Int.oneOf() nondet h = Int.oneOf() nondet i = Int.oneOf() nondet j = Int.oneOf()
    nondet k = Int.oneOf() nondet l = Int.oneOf() nondet m = Int.oneOf() nondet n = Int.oneOf() nondet o = Int.oneOf()
    nondet p = Int.oneOf() nondet q = Int.oneOf() nondet r = Int.oneOf() nondet u = Int.oneOf() nondet v = Int.oneOf() nondet y = Int.oneOf() nondet z = Int.oneOf()
    val t = { now: a, dx: b, dy: c, dz: d, pt: e, pb: { x: f, y: g, z: h }, m: { w: i, b: { x: j, y: k, z: l }, del: m },
              n: { w: n, b: { x: o, y: p, z: q }, del: r }, lw: u, lb: { x: v, y: y, z: z } }
    all { inv(t), s' = t, was' = { m: eff(t, t.m), n: eff(t, t.n), now: a } }
  }
  action swap = all { s' = { ...s, m: s.n, n: s.m }, was' = { m: eff(s, s.n), n: eff(s, s.m), now: s.now } }
  action tick = { nondet d = Int.oneOf() all { d >= 0, becomes({ ...s, now: s.now + d }) } }
  // the pool is touched, or a participant: one without the other
  action roll = becomes(rolled(s))
  action touch = becomes({ ...s, m: settled(s, s.m) })
  // n, and k more until date i; delegated to the other participant or to nobody
  action deposit = {
    nondet n = Int.oneOf() nondet k = Int.oneOf() nondet i = Set(0, 1, 2).oneOf() nondet d = Bool.oneOf()
    val t = rolled(s)
    val m = settled(t, t.m)
    all { n >= 0, k >= 0, date(t, i) > t.now or k == 0,
      becomes({ ...t, m: { ...m, w: m.w + n + k, b: plus(m.b, at(i, k)) }, n: if (d) { ...t.n, del: t.n.del + n } else t.n,
                pt: t.pt + n + k + (if (d) n else 0), pb: plus(t.pb, at(i, k)) }) }
  }
  action withdraw = {
    nondet n = Int.oneOf() nondet d = Bool.oneOf()
    val t = rolled(s)
    val m = settled(t, t.m)
    all { 0 <= n, n <= m.w - sum(m.b), d implies n <= t.n.del,
      becomes({ ...t, m: { ...m, w: m.w - n }, n: if (d) { ...t.n, del: t.n.del - n } else t.n, pt: t.pt - n - (if (d) n else 0) }) }
  }
  // from date i (if it has not come yet) to date j, `more` added
  action extend = {
    nondet n = Int.oneOf() nondet more = Int.oneOf() nondet k = Int.oneOf() nondet k2 = Int.oneOf()
    nondet i = Set(0, 1, 2).oneOf() nondet j = Set(0, 1, 2).oneOf() nondet d = Bool.oneOf()
    val t = rolled(s)
    val m = settled(t, t.m)
    val old = if (date(t, i) > t.now) k else 0
    all { 0 <= n, 0 <= more, 0 <= k, 0 <= k2, old <= boost(m.b, i), n <= m.w - sum(m.b), date(t, j) > t.now or k2 == 0,
      becomes({ ...t, m: { ...m, w: m.w - old + more + k2, b: plus(plus(m.b, at(i, -old)), at(j, k2)) },
                n: if (d) { ...t.n, del: t.n.del + more } else t.n,
                pt: t.pt - old + more + k2 + (if (d) more else 0), pb: plus(plus(t.pb, at(i, -old)), at(j, k2)) }) }
  }
  action redelegate = {
    nondet n = Int.oneOf()
    all { 0 <= n, n <= s.n.del, becomes({ ...s, n: { ...s.n, del: s.n.del - n }, m: { ...s.m, del: s.m.del + n } }) }
  }
  action slash = {
    nondet n = Int.oneOf() nondet k = Int.oneOf() nondet i = Set(0, 1, 2).oneOf()
    val t = rolled(s)
    val m = settled(t, t.m)
    all { 0 <= n, 0 <= k, k <= boost(m.b, i), n <= m.w - sum(m.b),
      becomes({ ...t, m: { ...m, w: m.w - n - k, b: plus(m.b, at(i, -k)) }, pt: t.pt - n - k, pb: plus(t.pb, at(i, -k)) }) }
  }
  // latest boosts first, then the rest
  action penalty = {
    nondet n = Int.oneOf()
    val m = settled(s, s.m)
    val z = if (n < m.b.z) n else m.b.z
    val y = if (n - z < m.b.y) n - z else m.b.y
    val x = if (n - z - y < m.b.x) n - z - y else m.b.x
    val c = { x: x, y: y, z: z }
    all { 0 <= n, n <= m.w, becomes({ ...s, m: { ...m, w: m.w - n, b: plus(m.b, neg(c)) }, lw: s.lw + n, lb: plus(s.lb, c) }) }
  }
  action close = {
    val m = settled(s, s.m)
    all { m.del == 0, becomes({ ...s, m: nobody, lw: s.lw + m.w, lb: plus(s.lb, m.b) }) }
  }
  action step = any { swap, tick, roll, touch, deposit, withdraw, extend, redelegate, slash, penalty, close }

  // ------------------------------------------------- and what would be wrong
  // the pool does not record the date
  action badDeposit = { nondet k = Int.oneOf() all { k > 0, s.dx > s.now, becomes({ ...s, pt: s.pt + k, m: { ...s.m, w: s.m.w + k, b: plus(s.m.b, at(0, k)) } }) } }
  // the pool records it under another
  action badExtend = { nondet k = Int.oneOf() all { k > 0, s.dx > s.now, becomes({ ...s, pt: s.pt + k, pb: plus(s.pb, at(1, k)), m: { ...s.m, w: s.m.w + k, b: plus(s.m.b, at(0, k)) } }) } }
  // a slash before the pool and the participant have removed what has run out
  action badSlash = { nondet n = Int.oneOf() all { n > 0, n <= s.m.w, becomes({ ...s, pt: s.pt - n, m: { ...s.m, w: s.m.w - n } }) } }
  // the pool forgets a date with the first participant to pass it
  action badTouch = becomes({ ...s, m: settled(s, s.m), pb: plus(s.pb, neg(gone(s, s.m.b))) })
  action badPenalty = { nondet n = Int.oneOf() all { n > 0, n <= s.m.w, becomes({ ...s, pt: s.pt - n, m: { ...s.m, w: s.m.w - n } }) } }
}
