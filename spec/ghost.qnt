// What the users are entitled to, kept independently of how the program keeps
// its books.
//
// For every participant the ghost holds the weight as it is *now* (expired
// boosts removed as soon as their date has come, not when somebody happens to
// touch the account) and credits every distribution *eagerly*, at the moment it
// is made, to everybody in proportion to the weights at that moment.  There is
// no settlement, no index history and no per-account index in here: agreement
// of the program's lazily computed figures with these is the property that
// rewards are neither retroactive nor dependent on when accounts are touched.
module ghost {
  import types.* from "./types"
  import params.* from "./params"
  import rewards.* from "./rewards"

  // `earned` is scaled by PREC; `pieces` bounds how often the program may have
  // rounded down when crediting this participant.  `odd`: the authority took more
  // from this participant than was there, so its weights mean nothing any more.
  type Member = { w: int, boosts: int -> int, del: int, earned: int, paid: int, pieces: int, odd: bool }
  // `lost` is weight that still counts in the pool but belongs to nobody any
  // more (penalties, closed accounts); it runs down like anybody's.
  type Purse = { filled: int, handed: int, paid: int, lostW: int, lostB: int -> int, last: int }
  type Ghost = { m: (str, str) -> Member, p: str -> Purse }

  pure val noMember: Member = { w: 0, boosts: Map(), del: 0, earned: 0, paid: 0, pieces: 0, odd: false }
  pure val noPurse: Purse = { filled: 0, handed: 0, paid: 0, lostW: 0, lostB: Map(), last: -1 }
  pure val gInit: Ghost = { m: Map(), p: Map() }

  pure def gone(b: int -> int, now: int): Set[int] = b.keys().filter(d => d <= dayStart(now))
  pure def add(b: int -> int, d: int, n: int): int -> int = b.put(d, getOr(b, d, 0) + n)

  // expired boosts go
  pure def gRoll(g: Ghost, p: str, now: int): Ghost =
    { m: g.m.keys().mapBy(k =>
          val x = g.m.get(k)
          val ds = gone(x.boosts, now)
          if (k._1 != p or ds == Set()) x
          else { ...x, w: x.w - sumOver(ds, d => x.boosts.get(d)), boosts: drop(x.boosts, ds), pieces: x.pieces + ds.size() }),
      p: if (has(g.p, p))
           g.p.setBy(p, q => { ...q, lostW: q.lostW - sumOver(gone(q.lostB, now), d => q.lostB.get(d)),
                                     lostB: drop(q.lostB, gone(q.lostB, now)) })
         else g.p }

  pure def gWeight(g: Ghost, p: str): int =
    g.p.get(p).lostW + sumOver(g.m.keys().filter(k => k._1 == p), k => g.m.get(k).w + g.m.get(k).del)

  pure def upd(g: Ghost, k: (str, str), f: (Member) => Member): Ghost = 
    val m = f(getOr(g.m, k, noMember))
    val upsideDown = m.del < 0 or m.w < sumOver(m.boosts.keys(), d => m.boosts.get(d)) or m.boosts.keys().exists(d => m.boosts.get(d) < 0)
    { ...g, m: g.m.put(k, { ...m, odd: m.odd or upsideDown }) }

  pure def gDeleg(g: Ghost, p: str, d: str, o: str, n: int): Ghost =
    if (d == o or d == "") g else upd(g, (p, d), x => { ...x, del: x.del + n })

  pure def gStake(g: Ghost, k: (str, str), n: int, lockup: str, now: int): Ghost =
    upd(g, k, x => { ...x, w: x.w + n * MULT.get(lockup),
                           boosts: if (n * (MULT.get(lockup) - 1) == 0) x.boosts
                                   else add(x.boosts, expiry(lockup, now), n * (MULT.get(lockup) - 1)) })

  pure def slot(t: { ix: Ix, metas: List[Meta] }, i: int): Acct = t.metas[i].a

  // The effect of an accepted transaction.  w is the world before, w2 after
  // (used only for the tokens handed out by a distribution and for payments).
  pure def gApply(g0: Ghost, w: World, w2: World, t: { ix: Ix, metas: List[Meta] }, ret: int): Ghost =
    val p = match t.ix {
      | Slash(_) => poolOf(slot(t, 1))
      | DecreaseRewards(_) => poolOf(slot(t, 1))
      | CloseMining => miningOf(slot(t, 0))._1
      | _ => poolOf(slot(t, 0))
    }
    val now = w.now
    val g1 = gRoll(g0, p, now)
    // any transaction may round once for anybody in the pool
    val g = { ...g1, m: g1.m.keys().mapBy(k => if (k._1 == p) { ...g1.m.get(k), pieces: g1.m.get(k).pieces + 2 } else g1.m.get(k)) }
    match t.ix {
      | InitializePool(x) => { ...g, p: g.p.put(p, getOr(g.p, p, noPurse)) }
      | InitializeMining(x) => { ...g, m: g.m.put((p, x.owner), noMember) }
      | FillVault(x) => { ...g, p: g.p.setBy(p, q => { ...q, filled: q.filled + x.rewards }) }
      | DepositMining(x) =>
          gDeleg(gStake(g, (p, x.owner), x.amount, x.lockup, now), p, miningOf(slot(t, 3))._2, x.owner, x.amount)
      | WithdrawMining(x) =>
          gDeleg(upd(g, (p, x.owner), m => { ...m, w: m.w - x.amount }), p, miningOf(slot(t, 3))._2, x.owner, -x.amount)
      | ExtendStake(x) =>
          val running = x.oldLockup != "Flex" and now < expiry(x.oldLockup, x.startTs)
          val boost = if (running) x.base * (MULT.get(x.oldLockup) - 1) else 0
          val ga = upd(g, (p, x.owner), m =>
            { ...m, w: m.w - x.base - boost,
                    boosts: if (boost == 0) m.boosts else add(m.boosts, expiry(x.oldLockup, x.startTs), -boost) })
          gDeleg(gStake(ga, (p, x.owner), x.base + x.add, x.newLockup, now), p, miningOf(slot(t, 3))._2, x.owner, x.add)
      | ChangeDelegate(x) =>
          val o = nameOf(slot(t, 3))
          gDeleg(gDeleg(g, p, miningOf(slot(t, 4))._2, o, -x.amount), p, miningOf(slot(t, 5))._2, o, x.amount)
      | Slash(x) =>
          upd(g, (p, x.owner), m =>
            { ...m, w: m.w - x.mult,
                    boosts: if (x.hasExp and x.mult > x.native) add(m.boosts, dayStart(x.exp), x.native - x.mult) else m.boosts })
      | DecreaseRewards(x) =>
          // eaten from the latest boost backwards
          val m = g.m.get((p, x.owner))
          val cuts = sorted(m.boosts.keys()).foldl([], (l, d) => [d].concat(l)).foldl({ left: x.n, c: Map() }, (a, d) =>
            val c = min2(a.left, m.boosts.get(d))
            { left: a.left - c, c: a.c.put(d, c) }).c
          val g2 = upd(g, (p, x.owner), y => { ...y, w: y.w - x.n,
                       boosts: y.boosts.keys().mapBy(d => y.boosts.get(d) - getOr(cuts, d, 0)) })
          { ...g2, p: g2.p.setBy(p, q => { ...q, lostW: q.lostW + x.n, lostB: cuts.keys().fold(q.lostB, (b, d) => add(b, d, cuts.get(d))) }) }
      | DistributeRewards =>
          val r = w.pools.get(p).avail - w2.pools.get(p).avail
          val day = dayStart(now)
          if (g.p.get(p).last == day) g
          else
            val inc = (PREC * r) / gWeight(g, p)
            { m: g.m.keys().mapBy(k => if (k._1 == p) { ...g.m.get(k), earned: g.m.get(k).earned + inc * (g.m.get(k).w + g.m.get(k).del) } else g.m.get(k)),
              p: g.p.setBy(p, q => { ...q, handed: q.handed + r, last: day }) }
      | Claim =>
          upd({ ...g, p: g.p.setBy(p, q => { ...q, paid: q.paid + ret }) }, miningOf(slot(t, 3)), m => { ...m, paid: m.paid + ret })
      | CloseMining =>
          val k = miningOf(slot(t, 0))
          val m = g.m.get(k)
          { m: drop(g.m, Set(k)),
            p: g.p.setBy(p, q => { ...q, lostW: q.lostW + m.w, lostB: m.boosts.keys().fold(q.lostB, (b, d) => add(b, d, m.boosts.get(d))) }) }
    }

  pure def gExec(g: Ghost, w: World, c: Cmd, o: Out): Ghost = match c {
    | Tx(t) => if (o.ok) gApply(g, w, o.w, t, o.ret) else g
    | Daily(t) => range(0, t.n).foldl({ g: g, w: w }, (a, i) =>
        val w1 = { ...a.w, now: a.w.now + DAY }
        val r = tx(w1, t.ix, merged(t.metas))
        { g: if (r.ok) gApply(a.g, w1, r.w, { ix: t.ix, metas: t.metas }, r.ret) else a.g, w: r.w }).g
    | Bundle(b) => if (not(o.ok)) g else b.ixs.foldl({ g: g, w: w }, (a, t) =>
        val r = one(a.w, t.ix, mergedIn(allMetas(b.ixs), t.metas))
        { g: gApply(a.g, a.w, r.w, t, r.ret), w: r.w }).g
    | _ => g
  }

  // ============================================================ invariants
  pure def nonzero(m: int -> int): int -> int = m.keys().filter(k => m.get(k) != 0).mapBy(k => m.get(k))
  pure def members(w: World, p: str): Set[(str, str)] = w.minings.keys().filter(k => k._1 == p)
  // what participant k could claim right now
  pure def claimable(w: World, k: (str, str)): int =
    settle(w.minings.get(k), w.pools.get(k._1), w.now).m.unclaimed
  pure def vaultOf(w: World, p: str): int = getOr(w.vaults, (p, w.pools.get(p).mint), { mint: "", owner: "", amount: 0 }).amount

  // C01: the vault always covers everything owed and everything still to be distributed.
  pure def iSolvent(w: World): bool = w.pools.keys().forall(p =>
    vaultOf(w, p) >= w.pools.get(p).avail + sumOver(members(w, p), k => claimable(w, k)))
  // ... even before rounding (the invariant that core.qnt shows to be inductive)
  type Stretch = { i: int, s: int, w: int }
  pure def stretch(q: PoolSt, a: Stretch, d: int): Stretch =
    val j = indexBefore(q, d)
    { i: j, s: a.s + (j - a.i) * a.w, w: a.w }
  pure def pendingOf(m: MiningSt, q: PoolSt, now: int): int =
    val x = sorted(m.sched.keys().filter(d => d <= dayStart(now))).foldl({ i: m.index, s: 0, w: m.share + m.others }, (a, d) =>
      val b = stretch(q, a, d)
      { ...b, w: b.w - m.sched.get(d) })
    stretch(q, x, now + 1).s
  pure def iBacked(w: World): bool = w.pools.keys().forall(p =>
    val q = w.pools.get(p)
    PREC * (vaultOf(w, p) - q.avail - sumOver(members(w, p), k => w.minings.get(k).unclaimed))
      >= sumOver(members(w, p).filter(k => settle(w.minings.get(k), q, w.now).ok), k => pendingOf(w.minings.get(k), q, w.now)))
  // ... and nothing leaves or enters it except fills and claims.
  pure def iVault(w: World, g: Ghost): bool = w.pools.keys().forall(p =>
    vaultOf(w, p) == g.p.get(p).filled - g.p.get(p).paid)
  // C11/C12: what was filled is either distributed or still available
  pure def iBooked(w: World, g: Ghost): bool = w.pools.keys().forall(p =>
    g.p.get(p).filled == g.p.get(p).handed + w.pools.get(p).avail)

  // C02/C03: paid + claimable is the exact entitlement up to rounding down.
  pure def iEntitled(w: World, g: Ghost): bool = w.minings.keys().forall(k =>
    (has(w.pools, k._1) and not(g.m.get(k).odd)) implies {
      val m = g.m.get(k)
      val got = PREC * (m.paid + claimable(w, k))
      and { got <= m.earned, m.earned < got + PREC * (m.pieces + 1) }
    })

  // C04/C05: recorded weights are the weights of the running lockups.
  pure def iWeights(w: World, g: Ghost): bool = w.minings.keys().forall(k =>
    has(w.pools, k._1) implies {
      val gm = gRoll(g, k._1, w.now).m.get(k)
      val r = settle(w.minings.get(k), w.pools.get(k._1), w.now)
      and { r.ok, r.m.share == gm.w, r.m.others == gm.del, nonzero(r.m.sched) == nonzero(gm.boosts) }
    })
  pure def poolNow(w: World, p: str): Frame = consumePool(frame(w, p))
  pure def iTotal(w: World, g: Ghost): bool = w.pools.keys().forall(p =>
    val f = poolNow(w, p)
    and { f.ok, f.p.total == gWeight(gRoll(g, p, w.now), p) })

  // C22: the index only grows, from one distribution to the next
  pure def iIndex(w: World): bool = w.pools.keys().forall(p =>
    val q = w.pools.get(p)
    and { q.cum.keys().forall(d => q.cum.get(d) <= q.index and d <= w.now),
          q.cum.keys().forall(d => q.cum.keys().forall(e => d < e implies q.cum.get(d) <= q.cum.get(e))) })

  // representable at all times
  pure def iBounds(w: World): bool = and {
    w.pools.keys().forall(p => val q = w.pools.get(p) and {
      0 <= q.total, q.total <= U64, 0 <= q.avail, q.avail <= U64, q.index <= U128, 0 <= q.endsAt, q.endsAt <= U64,
      q.sched.keys().size() <= CAP_P, q.cum.keys().size() <= CAP_H }),
    w.minings.keys().forall(k => val m = w.minings.get(k) and {
      0 <= m.share, m.share <= U64, 0 <= m.others, m.others <= U64, 0 <= m.unclaimed, m.unclaimed <= U64,
      m.sched.keys().size() <= CAP_M })
  }
}
