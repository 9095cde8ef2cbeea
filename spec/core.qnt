// The bookkeeping of rewards with everything else left out - and with it every
// bound: amounts, weights, indices and the number of steps are arbitrary
// integers.  Apalache proves that the invariants are inductive (checks/core.py):
// they hold initially and every action, from *any* state in which they hold,
// leads to a state in which they hold.  The same invariants are evaluated on
// the full specification's worlds by `iBacked` in ghost.qnt.
//
// Three participants; `swap` and `turn` make each of them any of the three, and
// `spare` is weight of the pool that is nobody's.
module core {
  pure val PREC = 1000000000000

  // w: weight (own and delegated); e: what is left of it when the boost runs out;
  // out: it has run out - at index `at` - but the account has not been settled
  // since.  last: index of the last settlement.  owed, paid: whole tokens.
  // earned: what the participant is entitled to, times PREC; pieces: how often a
  // credit has been rounded down.
  type M = { w: int, e: int, out: bool, at: int, last: int, owed: int, paid: int, earned: int, pieces: int }
  type Pool = { idx: int, avail: int, vault: int, total: int, filled: int, handed: int, out: int }
  type S = { p: Pool, a: M, b: M, c: M }
  var s: S
  // paid and claimable of each one step ago
  var had: { a: int, b: int, c: int }

  pure def eff(m: M): int = if (m.out) m.e else m.w
  // earned since the last settlement, times PREC
  pure def pending(m: M, i: int): int = if (m.out) (m.at - m.last) * m.w + (i - m.at) * m.e else (i - m.last) * m.w

  // ------------------------------------------------------------ invariants
  pure def sane(m: M, i: int): bool = and {
    0 <= m.e, m.e <= m.w, 0 <= m.last, m.last <= i, 0 <= m.owed, 0 <= m.paid, 0 <= m.pieces,
    m.out implies (m.last <= m.at and m.at <= i) }
  // C04
  pure def weighed(x: S): bool = eff(x.a) + eff(x.b) + eff(x.c) <= x.p.total
  // C01
  pure def backed(x: S): bool =
    PREC * (x.p.vault - x.p.avail - x.a.owed - x.b.owed - x.c.owed) >= pending(x.a, x.p.idx) + pending(x.b, x.p.idx) + pending(x.c, x.p.idx)
  pure def booked(x: S): bool = and {
    x.p.filled == x.p.handed + x.p.avail, x.p.vault == x.p.filled - x.p.out, 0 <= x.p.avail, 0 <= x.p.idx }
  // C02, C03
  pure def entitled(m: M, i: int): bool =
    val rest = m.earned - PREC * (m.owed + m.paid) - pending(m, i)
    and { 0 <= rest, rest <= (PREC - 1) * m.pieces }
  pure def inv(x: S): bool = and {
    sane(x.a, x.p.idx), sane(x.b, x.p.idx), sane(x.c, x.p.idx), weighed(x), backed(x), booked(x),
    entitled(x.a, x.p.idx), entitled(x.b, x.p.idx), entitled(x.c, x.p.idx) }
  val Inv = inv(s)

  // what follows from them: the vault covers what everybody could claim now
  pure def claimable(m: M, i: int): int = settle(m, i).owed
  val Solvent = s.p.vault >= s.p.avail + claimable(s.a, s.p.idx) + claimable(s.b, s.p.idx) + claimable(s.c, s.p.idx)

  pure def got(m: M, i: int): int = m.paid + claimable(m, i)
  pure def gots(x: S): { a: int, b: int, c: int } = { a: got(x.a, x.p.idx), b: got(x.b, x.p.idx), c: got(x.c, x.p.idx) }
  // C22: nobody's claim shrinks, but by being paid
  val Kept = and { gots(s).a >= had.a, gots(s).b >= had.b, gots(s).c >= had.c }

  // --------------------------------------------------------------- actions
  action becomes(y: S): bool = all { s' = y, had' = gots(s) }
  // every stretch of constant weight is rounded down on its own
  pure def settle(m: M, i: int): M =
    if (m.out) { ...m, w: m.e, out: false, at: 0, last: i, pieces: m.pieces + 2,
                 owed: m.owed + ((m.at - m.last) * m.w) / PREC + ((i - m.at) * m.e) / PREC }
    else { ...m, last: i, owed: m.owed + ((i - m.last) * m.w) / PREC, pieces: m.pieces + 1 }

  pure val nobody: M = { w: 0, e: 0, out: false, at: 0, last: 0, owed: 0, paid: 0, earned: 0, pieces: 0 }
  action init = all { had' = { a: 0, b: 0, c: 0 }, s' = { p: { idx: 0, avail: 0, vault: 0, total: 0, filled: 0, handed: 0, out: 0 }, a: nobody, b: nobody, c: nobody } }

  // any state in which the invariants hold
  action anywhere = {
    nondet i = Int.oneOf() nondet n = Int.oneOf() nondet v = Int.oneOf() nondet t = Int.oneOf() nondet f = Int.oneOf() nondet h = Int.oneOf() nondet o = Int.oneOf()
    nondet aw = Int.oneOf() nondet ae = Int.oneOf() nondet ax = Bool.oneOf() nondet aat = Int.oneOf() nondet al = Int.oneOf()
    nondet ao = Int.oneOf() nondet ap = Int.oneOf() nondet an = Int.oneOf() nondet ak = Int.oneOf()
    nondet bw = Int.oneOf() nondet be = Int.oneOf() nondet bx = Bool.oneOf() nondet bat = Int.oneOf() nondet bl = Int.oneOf()
    nondet bo = Int.oneOf() nondet bp = Int.oneOf() nondet bn = Int.oneOf() nondet bk = Int.oneOf()
    nondet cw = Int.oneOf() nondet ce = Int.oneOf() nondet cx = Bool.oneOf() nondet cat = Int.oneOf() nondet cl = Int.oneOf()
    nondet co = Int.oneOf() nondet cp = Int.oneOf() nondet cn = Int.oneOf() nondet ck = Int.oneOf()
    val x = { p: { idx: i, avail: n, vault: v, total: t, filled: f, handed: h, out: o },
              a: { w: aw, e: ae, out: ax, at: aat, last: al, owed: ao, paid: ap, earned: an, pieces: ak },
              b: { w: bw, e: be, out: bx, at: bat, last: bl, owed: bo, paid: bp, earned: bn, pieces: bk },
              c: { w: cw, e: ce, out: cx, at: cat, last: cl, owed: co, paid: cp, earned: cn, pieces: ck } }
    all { inv(x), s' = x, had' = gots(x) }
  }

  action swap = all { s' = { ...s, a: s.b, b: s.a }, had' = { a: gots(s).b, b: gots(s).a, c: gots(s).c } }
  action turn = all { s' = { ...s, a: s.b, b: s.c, c: s.a }, had' = { a: gots(s).b, b: gots(s).c, c: gots(s).a } }
  action fill = { nondet n = Int.oneOf() all { n > 0, becomes({ ...s, p: { ...s.p, vault: s.p.vault + n, avail: s.p.avail + n, filled: s.p.filled + n } }) } }
  // a distribution credits everybody by the weight they have now
  pure def credit(m: M, inc: int): M = { ...m, earned: m.earned + inc * eff(m) }
  action distribute = {
    nondet r = Int.oneOf()
    val inc = (PREC * r) / s.p.total
    all { 0 <= r, r <= s.p.avail, s.p.total > 0,
          becomes({ p: { ...s.p, idx: s.p.idx + inc, avail: s.p.avail - r, handed: s.p.handed + r },
                 a: credit(s.a, inc), b: credit(s.b, inc), c: credit(s.c, inc) }) }
  }
  // a boost runs out: the pool lowers its weight then, the account follows when it is settled
  action runOut = all { not(s.a.out), becomes({ ...s, p: { ...s.p, total: s.p.total - (s.a.w - s.a.e) }, a: { ...s.a, out: true, at: s.p.idx } }) }
  // deposits, withdrawals, extensions, slashes: settled first, then any other weight
  action change = {
    nondet w = Int.oneOf() nondet e = Int.oneOf()
    val m = settle(s.a, s.p.idx)
    all { 0 <= e, e <= w, becomes({ ...s, p: { ...s.p, total: s.p.total - m.w + w }, a: { ...m, w: w, e: e } }) }
  }
  // the delegate changes from b to c
  action redelegate = {
    nondet n = Int.oneOf()
    val x = settle(s.b, s.p.idx)
    val y = settle(s.c, s.p.idx)
    all { 0 <= n, n <= x.e, becomes({ ...s, a: settle(s.a, s.p.idx), b: { ...x, w: x.w - n, e: x.e - n }, c: { ...y, w: y.w + n, e: y.e + n } }) }
  }
  // a penalty, or an account closed: the pool's weight stays
  action forfeit = {
    nondet w = Int.oneOf() nondet e = Int.oneOf()
    val m = settle(s.a, s.p.idx)
    all { 0 <= e, e <= w, w <= m.w, e <= m.e, becomes({ ...s, a: { ...m, w: w, e: e } }) }
  }
  // ... whose weight runs out as well
  action runDown = { nondet n = Int.oneOf() all { 0 <= n, n <= s.p.total - eff(s.a) - eff(s.b) - eff(s.c), becomes({ ...s, p: { ...s.p, total: s.p.total - n } }) } }
  action claim = {
    val m = settle(s.a, s.p.idx)
    becomes({ ...s, p: { ...s.p, vault: s.p.vault - m.owed, out: s.p.out + m.owed }, a: { ...m, owed: 0, paid: m.paid + m.owed } })
  }
  action touch = becomes({ ...s, a: settle(s.a, s.p.idx) })
  action none = all { false, becomes(s) }
  action step = any { swap, turn, fill, distribute, runOut, change, redelegate, forfeit, runDown, claim, touch }

  // ------------------------------- and what goes wrong without settling first
  action badChange = {
    nondet w = Int.oneOf()
    all { s.a.e <= w, not(s.a.out), becomes({ ...s, p: { ...s.p, total: s.p.total - s.a.w + w }, a: { ...s.a, w: w } }) }
  }
  action badRedelegate = {
    nondet n = Int.oneOf()
    all { 0 <= n, n <= s.b.e, not(s.b.out), not(s.c.out),
          becomes({ ...s, b: { ...s.b, w: s.b.w - n, e: s.b.e - n }, c: { ...s.c, w: s.c.w + n, e: s.c.e + n } }) }
  }
  // the account forgets the boost at once, the pool does not know
  action badRunOut = all { not(s.a.out), becomes({ ...s, a: { ...s.a, out: true, at: s.p.idx }, p: { ...s.p, total: s.p.total - s.a.w } }) }
  // rounded up
  action badClaim = {
    val m = settle(s.a, s.p.idx)
    becomes({ ...s, p: { ...s.p, vault: s.p.vault - m.owed - 1, out: s.p.out + m.owed + 1 }, a: { ...m, owed: 0, paid: m.paid + m.owed + 1 } })
  }
  // the remainder of the division is handed out, too
  action badDistribute = {
    nondet r = Int.oneOf()
    val inc = (PREC * r + s.p.total - 1) / s.p.total
    all { 0 <= r, r <= s.p.avail, s.p.total > 0,
          becomes({ p: { ...s.p, idx: s.p.idx + inc, avail: s.p.avail - r, handed: s.p.handed + r },
                 a: credit(s.a, inc), b: credit(s.b, inc), c: credit(s.c, inc) }) }
  }
}
