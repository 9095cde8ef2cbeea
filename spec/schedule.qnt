// Fills, days and the history of the index, for arbitrary integers: when what is
// handed out, and which index a date `x` (any midnight) is given by those who look
// it up later.  With core.qnt, where a boost runs out at the index of the moment,
// this is why it does not matter when an account is settled: what the history
// gives for a date is the index there was then (`Frozen`, `Faithful`).  Apalache
// proves the invariants inductive (checks/core.py).
module schedule {
  pure val DAY = 86400

  // last: the latest day with an entry in the history (-1: none); ix: what the history
  // gives for the time before x; at: the index there really was when x came.
  // part: what the last distribution handed out, of `days` days; even: since `base` was
  // handed out there was one distribution for each day less, and no fill; low: the end
  // has not moved since the last distribution.
  type S = { now: int, ends: int, avail: int, filled: int, handed: int, idx: int, last: int, x: int, ix: int, at: int,
             part: int, days: int, base: int, even: bool, low: bool }
  var s: S
  var was: S

  pure def day(t: int): int = t - (t % DAY)
  pure def left(ends: int, now: int): int = if (ends > now) (ends - now) / DAY else 0

  // ------------------------------------------------------------ invariants
  pure def booked(t: S): bool = and { t.filled == t.handed + t.avail, 0 <= t.avail, 0 <= t.handed, 0 <= t.ends, t.ends % DAY == 0 }
  // C03: x is looked up as the index there was when it came; until then as the index there is
  pure def faithful(t: S): bool = and {
    0 <= t.now, t.x % DAY == 0, -1 <= t.last, t.last <= day(t.now), t.last == -1 or t.last % DAY == 0, 0 <= t.ix, t.ix <= t.idx,
    t.last < t.x implies t.ix == t.idx,
    t.now < t.x implies t.at == t.idx,
    t.ix == t.at }
  // C11: parts of one schedule differ by one token at most
  pure def spread(t: S): bool = and {
    0 <= t.part, 1 <= t.days,
    t.low implies t.avail >= t.part * (t.days - 1),
    t.even implies or { and { t.part == t.base, t.avail >= t.base * (t.days - 1), t.avail < t.base * (t.days - 1) + t.days },
                        and { t.part == t.base + 1, t.avail == t.part * (t.days - 1) } } }
  pure def inv(t: S): bool = booked(t) and faithful(t) and spread(t)
  val Inv = inv(s)

  // ------------------------------------------- what holds of every single step
  val distributed = s.last != was.last
  // nothing moves backwards
  val Forward = and { s.now >= was.now, s.idx >= was.idx, s.ends >= was.ends, s.filled >= was.filled, s.handed >= was.handed }
  // a date that has come keeps its index
  val Frozen = was.x <= was.now implies s.ix == was.ix
  // once a day
  val Once = was.last == day(was.now) and day(s.now) == day(was.now) implies s.handed == was.handed and s.idx == was.idx
  // the last day leaves nothing
  val Last = distributed and was.ends - was.now < 2 * DAY implies s.avail == 0
  // whoever waits is not given less
  val Waiting = and {
    distributed and was.low and s.days < was.days implies s.part >= was.part,
    distributed and was.even and s.days == was.days - 1 implies s.part == was.part or s.part == was.part + 1 }
  val Step = and { Forward, Frozen, Once, Last, Waiting }
  val Sound = Inv and Step

  // what follows: one day left is nothing left
  val Exhausted = s.even and s.days == 1 implies s.avail == 0 and s.handed == s.filled

  // --------------------------------------------------------------- actions
  action becomes(t: S): bool = all { s' = t, was' = s }
  action init = {
    nondet n = Int.oneOf() nondet x = Int.oneOf()
    val t = { now: n, ends: 0, avail: 0, filled: 0, handed: 0, idx: 0, last: -1, x: x * DAY, ix: 0, at: 0,
              part: 0, days: 1, base: 0, even: false, low: false }
    all { n >= 0, s' = t, was' = t }
  }
  action anywhere = {
    nondet a = Int.oneOf() nondet b = Int.oneOf() nondet c = Int.oneOf() nondet d = Int.oneOf() nondet e = Int.oneOf()
    nondet f = Int.oneOf() nondet g = Int.oneOf() nondet h = Int.oneOf() nondet i = Int.oneOf() nondet j = Int.oneOf()
    nondet k = Int.oneOf() nondet l = Int.oneOf() nondet m = Int.oneOf() nondet n = Bool.oneOf() nondet o = Bool.oneOf()
    val t = { now: a, ends: b, avail: c, filled: d, handed: e, idx: f, last: g, x: h, ix: i, at: j, part: k, days: l, base: m, even: n, low: o }
    all { inv(t), s' = t, was' = t }
  }
  action tick = { nondet n = Int.oneOf() all { n >= 0, becomes({ ...s, now: s.now + n }) } }
  action fill = {
    nondet n = Int.oneOf() nondet t = Int.oneOf()
    val e = day(t)
    all { n > 0, t >= 0, e >= day(s.now), e >= s.ends,
          becomes({ ...s, ends: e, avail: s.avail + n, filled: s.filled + n, even: false, low: s.low and e == s.ends }) }
  }
  // everything about a distribution but how much: part r, of d days, the index up by inc
  pure def hand(t: S, r: int, d: int, inc: int): S =
    val i = t.idx + inc
    { ...t, idx: i, avail: t.avail - r, handed: t.handed + r, last: day(t.now),
            ix: if (day(t.now) < t.x) i else t.ix, at: if (t.now < t.x) i else t.at,
            part: r, days: if (d == 0) 1 else d, low: true, even: true,
            base: if (t.even and d >= 1 and d == t.days - 1) t.base else r }
  // the growth of the index is core.qnt's business
  action distribute = {
    nondet inc = Int.oneOf()
    val d = left(s.ends, s.now)
    val r = if (d == 0) s.avail else s.avail / d
    all { inc >= 0, becomes(if (s.last == day(s.now)) s else hand(s, r, d, inc)) }
  }
  action step = any { tick, fill, distribute }

  // ------------------------------------------------- and what would be wrong
  // a second call the same day
  action badAgain = {
    nondet inc = Int.oneOf()
    val d = left(s.ends, s.now)
    val r = if (d == 0) s.avail else s.avail / d
    all { inc >= 0, becomes(hand(s, r, d, inc)) }
  }
  // a started day counts as a day
  action badDays = {
    nondet inc = Int.oneOf()
    val d = left(s.ends, s.now) + 1
    all { inc >= 0, s.last != day(s.now), becomes(hand(s, s.avail / d, d, inc)) }
  }
  action badRoundUp = {
    nondet inc = Int.oneOf()
    val d = left(s.ends, s.now)
    all { inc >= 0, s.last != day(s.now), d > 0, becomes(hand(s, (s.avail + d - 1) / d, d, inc)) }
  }
  // missed days are made up for
  action badMissed = {
    nondet inc = Int.oneOf()
    val d = left(s.ends, s.now)
    all { inc >= 0, s.last < day(s.now) - DAY, d >= 2, becomes(hand(s, 2 * (s.avail / d), d, inc)) }
  }
  // ... under the date of the day missed
  action badDate = {
    nondet inc = Int.oneOf()
    val i = s.idx + inc
    all { inc > 0, s.last < day(s.now) - DAY,
          becomes({ ...s, idx: i, last: day(s.now) - DAY, ix: if (day(s.now) - DAY < s.x) i else s.ix, at: if (s.now < s.x) i else s.at, even: false, low: false }) }
  }
  action badEnd = { nondet n = Int.oneOf() nondet t = Int.oneOf() all { n > 0, t >= 0, day(t) >= day(s.now), becomes({ ...s, ends: day(t), avail: s.avail + n, filled: s.filled + n, even: false, low: false }) } }
  // the date itself counts as before it
  action badLookup = {
    nondet inc = Int.oneOf()
    val d = left(s.ends, s.now)
    val r = if (d == 0) s.avail else s.avail / d
    val t = hand(s, r, d, inc)
    all { inc > 0, s.last != day(s.now), becomes({ ...t, ix: if (day(s.now) <= s.x) t.idx else s.ix }) }
  }
}
