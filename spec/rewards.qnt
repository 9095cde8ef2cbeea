// -*- mode: Bluespec; -*-
// The mplx-rewards program as a state machine.
//
// `exec(w, cmd)` is the whole program at the level of the Solana runtime
// interface: one transaction (instruction data + account list with signer and
// writable flags) takes a world to a world, or is rejected and changes nothing.
// It is the single source of truth of this specification: the simulator, the
// TLC/Apalache instances, the generated behaviours and the trace validation all
// go through it.
//
// The constants come from the module params: params.qnt holds the program's own
// values; the model checker is run with scaled-down ones in its place.
module rewards {
  import types.* from "./types"

  import params.* from "./params"

  pure def legacy(s: str): bool = LEGACY.contains(s)
  pure def dayStart(t: int): int = t - (t % DAY)

  // ===================================================================
  //  1. Arithmetic of one pool
  // ===================================================================

  // A Frame is the part of the world one instruction works on: a pool and its
  // participants.  `ok` turns false at the first failing step and stays so.
  type Frame = { ok: bool, why: str, now: int, p: PoolSt, ms: str -> MiningSt }

  pure def fFail(f: Frame, why: str): Frame = { ...f, ok: false, why: why }
  pure def andThen(f: Frame, op: (Frame) => Frame): Frame = if (f.ok) op(f) else f
  pure def require(f: Frame, c: bool, why: str): Frame = if (f.ok and not(c)) fFail(f, why) else f

  // Value of the reward index after the last distribution strictly before d.
  pure def indexBefore(p: PoolSt, d: int): int =
    val ks = p.cum.keys().filter(k => k < d)
    if (ks == Set()) 0 else p.cum.get(maxOf(ks, 0))

  type Acc = { ok: bool, idx: int, unc: int, tot: int }

  // Credit `tot` units of weight with the index growth up to date d.
  pure def credit(p: PoolSt, a: Acc, d: int): Acc =
    val i = indexBefore(p, d)
    val dlt = i - a.idx
    val r = (dlt * a.tot) / PREC
    if (not(a.ok) or dlt < 0 or dlt * a.tot > U128 or r > U64 or a.unc + r > U64) { ...a, ok: false }
    else { ...a, idx: i, unc: a.unc + r }

  // Settlement of one participant at time `now`: walk through the expiry dates
  // that have passed, crediting each stretch with the weight held during it,
  // then up to now.
  pure def settle(m: MiningSt, p: PoolSt, now: int): { ok: bool, m: MiningSt } =
    val due = sorted(m.sched.keys().filter(d => d <= dayStart(now)))
    val a0 = { ok: m.share + m.others <= U64, idx: m.index, unc: m.unclaimed, tot: m.share + m.others }
    val a1 = due.foldl(a0, (a, d) =>
      val b = credit(p, a, d)
      { ...b, tot: b.tot - m.sched.get(d), ok: b.ok and b.tot >= m.sched.get(d) })
    // every distribution made so far counts, including one dated this very second
    val a2 = credit(p, a1, if (legacy("midnight")) now else now + 1)
    if (a2.ok and a2.tot >= m.others)
      { ok: true, m: { ...m, index: a2.idx, unclaimed: a2.unc, share: a2.tot - m.others,
                       sched: drop(m.sched, due.foldl(Set(), (s, d) => s.union(Set(d)))) } }
    else { ok: false, m: m }

  pure def fSettle(f: Frame, o: str): Frame = andThen(f, g =>
    val r = settle(g.ms.get(o), g.p, g.now)
    if (r.ok) { ...g, ms: g.ms.set(o, r.m) } else fFail(g, "Overflow"))

  // Drop the boosts that have expired from the pool's total.
  pure def consumePool(f: Frame): Frame = andThen(f, g =>
    val due = g.p.sched.keys().filter(d => d <= dayStart(g.now))
    val t = g.p.total - sumOver(due, d => g.p.sched.get(d))
    if (t < 0) fFail(g, "Overflow") else { ...g, p: { ...g.p, total: t, sched: drop(g.p.sched, due) } })

  pure def fTotal(f: Frame, n: int): Frame = andThen(f, g =>
    val t = g.p.total + n
    if (t < 0 or t > U64) fFail(g, "Overflow") else { ...g, p: { ...g.p, total: t } })

  pure def fShare(f: Frame, o: str, n: int): Frame = andThen(f, g =>
    val m = g.ms.get(o)
    if (m.share + n < 0 or m.share + n > U64) fFail(g, "Overflow")
    else { ...g, ms: g.ms.set(o, { ...m, share: m.share + n }) })

  pure def fOthers(f: Frame, o: str, n: int): Frame = andThen(f, g =>
    val m = g.ms.get(o)
    if (m.others + n < 0 or m.others + n > U64) fFail(g, "Overflow")
    else { ...g, ms: g.ms.set(o, { ...m, others: m.others + n }) })

  // Own weight and pool total move together.
  pure def fStake(f: Frame, o: str, n: int): Frame = fTotal(fShare(f, o, n), n)

  // Delegated weight: the delegate is settled first, so that the change of
  // weight only affects distributions still to come.
  pure def fDelegate(f: Frame, d: str, n: int): Frame =
    if (d == "") f
    else if (legacy("delegateOrder")) fSettle(fTotal(fOthers(f, d, n), n), d)
    else fTotal(fOthers(fSettle(f, d), d, n), n)

  // A new boost that ends at date e (recorded even when it is 0).
  pure def fBoost(f: Frame, o: str, e: int, n: int): Frame = andThen(f, g =>
    val m = g.ms.get(o)
    val pv = getOr(g.p.sched, e, 0) + n
    val mv = getOr(m.sched, e, 0) + n
    val pFull = not(has(g.p.sched, e)) and g.p.sched.keys().size() >= CAP_P
    val mFull = not(has(m.sched, e)) and m.sched.keys().size() >= CAP_M
    if (pv > U64 or mv > U64) fFail(g, "Overflow")
    else if ((pFull or mFull) and not(legacy("capacity"))) fFail(g, "Capacity")
    else { ...g, p: { ...g.p, sched: if (pFull) g.p.sched else g.p.sched.put(e, pv) },
                 ms: g.ms.set(o, { ...m, sched: if (mFull) m.sched else m.sched.put(e, mv) }) })

  // Part of a recorded boost is taken back before it ends.
  pure def fUnboostM(f: Frame, o: str, e: int, n: int): Frame = andThen(f, g =>
    val m = g.ms.get(o)
    if (not(has(m.sched, e))) fFail(g, "NoBoostAtDate")
    else if (m.sched.get(e) < n) fFail(g, "Overflow")
    else { ...g, ms: g.ms.set(o, { ...m, sched: m.sched.put(e, m.sched.get(e) - n) }) })
  pure def fUnboostP(f: Frame, e: int, n: int): Frame = andThen(f, g =>
    if (not(has(g.p.sched, e))) fFail(g, "NoBoostAtDate")
    else if (g.p.sched.get(e) < n) fFail(g, "Overflow")
    else { ...g, p: { ...g.p, sched: g.p.sched.put(e, g.p.sched.get(e) - n) } })

  pure def mult(lockup: str): int = getOr(MULT, lockup, 0)
  pure def expiry(lockup: str, start: int): int = dayStart(start) + getOr(DAYS, lockup, 0) * DAY

  // ------------------------------------------------------------- operations
  // `d` is the delegate's name, "" when the participant delegates to nobody
  // (i.e. to itself).
  pure def fDeposit(f: Frame, o: str, amount: int, lockup: str, d: str): Frame =
    fSettle(f, o)
      .require(has(DAYS, lockup), "InvalidLockup")
      .require(amount * mult(lockup) <= U64, "Overflow")
      .andThen(g0 => if (legacy("capacity")) g0 else consumePool(g0))
      .andThen(g =>
        val weight = amount * mult(lockup)
        g.fStake(o, weight)
         .fBoost(o, expiry(lockup, g.now), weight - amount)
         .fDelegate(d, amount))

  pure def fWithdraw(f: Frame, o: str, amount: int, d: str): Frame =
    fSettle(f, o).fStake(o, -amount).consumePool().fDelegate(d, -amount)

  pure def fExtend(f: Frame, o: str, old: str, new: str, start: int, base: int, add: int, d: str): Frame =
    fSettle(f, o)
      .require(has(DAYS, old), "InvalidLockup")
      .require(old == "Flex" or expiry(old, start) <= U64, "Overflow")
      .andThen(g =>
        if (old != "Flex" and g.now < expiry(old, start)) {
          // the running boost is given up on both sides
          val e = expiry(old, start)
          val w = base * mult(old)
          g.require(w <= U64, "Overflow")
           .fUnboostM(o, e, w - base)
           .andThen(h => if (legacy("extendPool")) h else h.fUnboostP(e, w - base))
           .fStake(o, -w)
        } else {
          g.fStake(o, -base)
        })
      .require(base + add <= U64, "Overflow")
      .fDelegate(d, -base)
      .fDeposit(o, base + add, new, d)

  pure def fChangeDelegate(f: Frame, o: str, old: str, new: str, n: int): Frame =
    fSettle(f, o).fDelegate(old, -n).fDelegate(new, n)

  pure def fSlash(f: Frame, o: str, native: int, mult: int, hasExp: bool, exp: int): Frame =
    fWithdraw(f, o, mult, "")
      .andThen(g =>
        if (not(hasExp)) g
        else g.require(mult >= native, "Overflow")
              .fUnboostM(o, dayStart(exp), mult - native)
              .fUnboostP(dayStart(exp), mult - native))

  // Penalty: own weight falls by n at once; the boosts recorded for the future
  // are eaten up from the latest one backwards.  The pool's total is not
  // touched: the penalised participant's part of later distributions stays in
  // the vault.
  pure def fDecrease(f: Frame, o: str, n: int): Frame =
    (if (legacy("decreaseNoSettle")) f else fSettle(f, o))
      .andThen(g =>
        val m = g.ms.get(o)
        if (n > m.share) fFail(g, "PenaltyTooBig")
        else
          val desc = sorted(m.sched.keys()).foldl([], (l, x) => [x].concat(l))
          val r = desc.foldl({ left: n, sched: m.sched }, (a, dt) =>
            val cut = min2(a.left, a.sched.get(dt))
            { left: a.left - cut, sched: a.sched.put(dt, a.sched.get(dt) - cut) })
          { ...g, ms: g.ms.set(o, { ...m, share: m.share - n, sched: r.sched }) })

  // Tokens due for distribution now: an equal part per whole day left, all of
  // them when less than a day is left.
  pure def dueNow(p: PoolSt, now: int): int =
    val days = if (p.endsAt > now) (p.endsAt - now) / DAY else 0
    if (days == 0) p.avail else p.avail / days

  pure def fDistribute(f: Frame): Frame =
    val day = dayStart(f.now)
    val r = dueNow(f.p, f.now)
    f.require(f.p.total > 0, "NoDeposits")
     .consumePool()
     .andThen(g =>
       if (has(g.p.cum, day)) g           // once per day: a second call changes nothing
       else if (g.p.total == 0) fFail(g, "Overflow")
       else
         val idx = g.p.index + (PREC * r) / g.p.total
         val full = g.p.cum.keys().size() >= CAP_H
         if (idx > U128 or g.p.avail < r) fFail(g, "Overflow")
         else if (full and not(legacy("capacity"))) fFail(g, "Capacity")
         else { ...g, p: { ...g.p, index: idx, avail: g.p.avail - r,
                           cum: if (full) g.p.cum else g.p.cum.put(day, idx) } })

  // ===================================================================
  //  2. The runtime interface
  // ===================================================================

  pure def ownerOf(w: World, a: Acct): str = match a {
    | APool(p)    => if (has(w.pools, p) or has(w.rawPools, p)) "rewards" else "system"
    | AMining(k)  => if (has(w.minings, k) or has(w.husks, k)) "rewards" else "system"
    | AVault(k)   => if (has(w.vaults, k)) "token" else "system"
    | ATok(t)     => if (has(w.toks, t)) "token" else "system"
    | AMint(m)    => if (w.mints.contains(m)) "token" else "system"
    | AWallet(_)  => "system"
    | AProg(_)    => "native"
    | AForeign(_) => "foreign"
  }

  pure def isTok(w: World, a: Acct): bool = match a {
    | ATok(t)   => has(w.toks, t)
    | AVault(k) => has(w.vaults, k)
    | _         => false
  }
  pure def tokOf(w: World, a: Acct): TokenSt = match a {
    | ATok(t)   => w.toks.get(t)
    | AVault(k) => w.vaults.get(k)
    | _         => { mint: "", owner: "", amount: 0 }
  }
  pure def setTok(w: World, a: Acct, t: TokenSt): World = match a {
    | ATok(x)   => { ...w, toks: w.toks.set(x, t) }
    | AVault(k) => { ...w, vaults: w.vaults.set(k, t) }
    | _         => w
  }
  pure def nameOf(a: Acct): str = match a { | AWallet(n) => n | _ => "?" }
  pure def poolOf(a: Acct): str = match a { | APool(p) => p | _ => "?" }
  pure def miningOf(a: Acct): (str, str) = match a { | AMining(k) => k | _ => ("?", "?") }
  pure def mintOf(a: Acct): str = match a { | AMint(m) => m | _ => "?" }

  pure def lamports(w: World, a: Acct, n: int): World = match a {
    | AWallet(x) => { ...w, wallets: w.wallets.put(x, getOr(w.wallets, x, 0) + n) }
    | AMining(k) => if (has(w.minings, k)) { ...w, minings: w.minings.setBy(k, m => { ...m, lamports: m.lamports + n }) }
                    else if (has(w.husks, k)) { ...w, husks: w.husks.setBy(k, l => l + n) }
                    else { ...w, parked: w.parked.put(a, getOr(w.parked, a, 0) + n) }
    | _          => { ...w, parked: w.parked.put(a, getOr(w.parked, a, 0) + n) }
  }

  // Nothing about account a differs between two worlds.
  pure def same(w1: World, w2: World, a: Acct): bool = match a {
    | APool(p)   => and { has(w1.pools, p) == has(w2.pools, p), has(w1.rawPools, p) == has(w2.rawPools, p),
                          has(w1.pools, p) implies w1.pools.get(p) == w2.pools.get(p) }
    | AMining(k) => and { has(w1.minings, k) == has(w2.minings, k), getOr(w1.husks, k, -1) == getOr(w2.husks, k, -1), getOr(w1.parked, a, 0) == getOr(w2.parked, a, 0),
                          has(w1.minings, k) implies w1.minings.get(k) == w2.minings.get(k) }
    | AVault(k)  => and { has(w1.vaults, k) == has(w2.vaults, k), getOr(w1.parked, a, 0) == getOr(w2.parked, a, 0),
                          has(w1.vaults, k) implies w1.vaults.get(k) == w2.vaults.get(k) }
    | ATok(t)    => has(w1.toks, t) implies w1.toks.get(t) == w2.toks.get(t)
    | AWallet(x) => getOr(w1.wallets, x, 0) == getOr(w2.wallets, x, 0)
    | _          => true
  }

  // Signer and writable flags are a property of the account, not of the slot.
  pure def merged(ms: List[Meta]): List[Meta] =
    ms.foldl([], (l, x) => l.append({ a: x.a, s: ms.select(y => y.a == x.a and y.s).length() > 0,
                                             w: ms.select(y => y.a == x.a and y.w).length() > 0 }))

  pure def rej(w: World, why: str): Out = { ok: false, why: why, ret: -1, w: w }
  pure def acc(w: World): Out = { ok: true, why: "", ret: -1, w: w }

  // Frame of a pool <-> world
  pure def frame(w: World, p: str): Frame =
    { ok: true, why: "", now: w.now, p: w.pools.get(p),
      ms: w.minings.keys().filter(k => k._1 == p).fold(Map(), (m, k) => m.put(k._2, w.minings.get(k))) }
  pure def unframe(w: World, p: str, f: Frame): Out =
    if (not(f.ok)) rej(w, f.why)
    else acc({ ...w, pools: w.pools.set(p, f.p),
                     minings: f.ms.keys().fold(w.minings, (m, o) => m.put((p, o), f.ms.get(o))) })

  // The checks common to every instruction by which the deposit authority acts
  // on a participant.  "" when they pass.
  pure def authProblem(w: World, pa: Meta, ma: Meta, da: Meta, owner: str): str =
    if (ownerOf(w, pa.a) != "rewards" or ownerOf(w, ma.a) != "rewards") "NotOurs"
    else if (not(da.s)) "MissingSigner"
    else if (not(has(w.pools, poolOf(pa.a)))) "NotAPool"
    else if (ma.a != AMining((poolOf(pa.a), owner)) or not(has(w.minings, miningOf(ma.a)))) "WrongMining"
    else if (da.a != AWallet(w.pools.get(poolOf(pa.a)).depAuth)) "WrongAuthority"
    else ""

  // The delegate named by an instruction: the slot must hold the delegate's
  // mining in the same pool, or the participant's own mining (= no delegate).
  pure def delegProblem(w: World, pa: Meta, ma: Meta, sa: Meta, deleg: str): str =
    if (ownerOf(w, sa.a) != "rewards") "NotOurs"
    else if (sa.a != ma.a and (sa.a != AMining((poolOf(pa.a), deleg)) or not(has(w.minings, miningOf(sa.a))))) "WrongDelegate"
    else ""
  pure def delegName(ma: Meta, sa: Meta): str = if (sa.a == ma.a) "" else miningOf(sa.a)._2

  pure val TOKEN = AProg("token")
  pure val SYSTEM = AProg("system")
  pure val RENT = AProg("rent")

  pure def moveTokens(w: World, src: Acct, dst: Acct, auth: Meta, n: int): Out =
    if (not(isTok(w, src)) or not(isTok(w, dst))) rej(w, "NotAToken")
    else if (tokOf(w, src).owner != nameOf(auth.a) or not(auth.s)) rej(w, "WrongAuthority")
    else if (tokOf(w, src).mint != tokOf(w, dst).mint) rej(w, "WrongMint")
    else if (tokOf(w, src).amount < n) rej(w, "Insufficient")
    else if (src == dst) acc(w)
    else if (tokOf(w, dst).amount + n > U64) rej(w, "Overflow")
    else
      val w1 = setTok(w, src, { ...tokOf(w, src), amount: tokOf(w, src).amount - n })
      acc(setTok(w1, dst, { ...tokOf(w1, dst), amount: tokOf(w1, dst).amount + n }))

  pure val emptyPool: PoolSt =
    { depAuth: "", distAuth: "", fillAuth: "", mint: "", index: 0, total: 0, endsAt: 0, avail: 0, sched: Map(), cum: Map() }

  // ----------------------------------------------------------- instructions
  pure def xInitPool(w: World, a: List[Meta], fillAuth: str, distAuth: str): Out =
    if (a.length() < 8) rej(w, "NotEnoughAccounts")
    else
      val p = poolOf(a[0].a)
      val m = mintOf(a[1].a)
      val v = AVault((p, m))
      if (ownerOf(w, a[0].a) != "rewards" or ownerOf(w, a[1].a) != "token") rej(w, "NotOurs")
      else if (not(a[3].s) or not(a[4].s)) rej(w, "MissingSigner")
      else if (a[5].a != RENT or a[6].a != TOKEN or a[7].a != SYSTEM) rej(w, "WrongProgram")
      else if (not(has(w.rawPools, p))) rej(w, "AlreadyInitialized")
      else if (w.rawPools.get(p) != POOL_LEN) rej(w, "WrongLength")
      else if (a[2].a != v) rej(w, "WrongVault")
      else if (not(w.mints.contains(m))) rej(w, "WrongMint")
      else if (has(w.vaults, (p, m)) or getOr(w.parked, v, 0) > 0) rej(w, "AddressInUse")
      else if (not(a[3].w) or nameOf(a[3].a) == "?" or getOr(w.wallets, nameOf(a[3].a), 0) < RENT_V) rej(w, "CannotPay")
      else if (not(a[2].w)) rej(w, "ReadOnly")
      else
        acc({ ...lamports(w, a[3].a, -RENT_V),
              rawPools: drop(w.rawPools, Set(p)),
              pools: w.pools.put(p, { ...emptyPool, depAuth: nameOf(a[4].a), distAuth: distAuth,
                                      fillAuth: fillAuth, mint: m }),
              vaults: w.vaults.put((p, m), { mint: m, owner: nameOf(a[4].a), amount: 0 }) })

  pure def xInitMining(w: World, a: List[Meta], owner: str): Out =
    if (a.length() < 4) rej(w, "NotEnoughAccounts")
    else
      val p = poolOf(a[0].a)
      val k = (p, owner)
      if (ownerOf(w, a[0].a) != "rewards") rej(w, "NotOurs")
      else if (not(a[2].s)) rej(w, "MissingSigner")
      else if (a[3].a != SYSTEM) rej(w, "WrongProgram")
      else if (p == "?") rej(w, "NotAPool")
      else if (a[1].a != AMining(k)) rej(w, "WrongMining")
      else if (has(w.minings, k) or has(w.husks, k) or getOr(w.parked, AMining(k), 0) > 0) rej(w, "AddressInUse")
      else if (not(a[2].w) or nameOf(a[2].a) == "?" or getOr(w.wallets, nameOf(a[2].a), 0) < RENT_M) rej(w, "CannotPay")
      else if (not(a[1].w)) rej(w, "ReadOnly")
      else
        acc({ ...lamports(w, a[2].a, -RENT_M),
              minings: w.minings.put(k, { index: 0, share: 0, unclaimed: 0, others: 0, sched: Map(), lamports: RENT_M }) })

  pure def xFill(w: World, a: List[Meta], rewards: int, endsAt: int): Out =
    if (a.length() < 6) rej(w, "NotEnoughAccounts")
    else
      val p = poolOf(a[0].a)
      if (ownerOf(w, a[0].a) != "rewards" or Set(1, 2, 4).exists(i => ownerOf(w, a[i].a) != "token")) rej(w, "NotOurs")
      else if (not(a[3].s)) rej(w, "MissingSigner")
      else if (a[5].a != TOKEN) rej(w, "WrongProgram")
      else if (not(has(w.pools, p))) rej(w, "NotAPool")
      else if (rewards == 0) rej(w, "ZeroRewards")
      else
        val pool = w.pools.get(p)
        val e = dayStart(endsAt)
        if (a[3].a != AWallet(pool.fillAuth)) rej(w, "WrongAuthority")
        else if (a[2].a != AVault((p, mintOf(a[1].a)))) rej(w, "WrongVault")
        else if (e < dayStart(w.now)) rej(w, "EndsInPast")
        else if (e < pool.endsAt) rej(w, "EndsEarlier")
        else if (pool.avail + rewards > U64) rej(w, "Overflow")
        else if (a[4].a == a[2].a and not(legacy("fillSelf"))) rej(w, "SelfFill")
        else if (not(a[2].w) or not(a[4].w)) rej(w, "ReadOnly")
        else
          val t = moveTokens(w, a[4].a, a[2].a, a[3], rewards)
          if (not(t.ok)) t
          else acc({ ...t.w, pools: w.pools.set(p, { ...pool, endsAt: e, avail: pool.avail + rewards }) })

  pure def xClaim(w: World, a: List[Meta]): Out =
    if (a.length() < 8) rej(w, "NotEnoughAccounts")
    else
      val p = poolOf(a[0].a)
      val k = miningOf(a[3].a)
      if (Set(0, 3).exists(i => ownerOf(w, a[i].a) != "rewards") or
          Set(1, 2, 6).exists(i => ownerOf(w, a[i].a) != "token")) rej(w, "NotOurs")
      else if (not(a[4].s) or not(a[5].s)) rej(w, "MissingSigner")
      else if (a[7].a != TOKEN) rej(w, "WrongProgram")
      else if (not(isTok(w, a[6].a))) rej(w, "NotAToken")
      else if (AWallet(tokOf(w, a[6].a).owner) != a[4].a) rej(w, "WrongDestination")
      else if (not(has(w.pools, p))) rej(w, "NotAPool")
      else if (not(has(w.minings, k)) or AWallet(k._2) != a[4].a or k._1 != p) rej(w, "WrongMining")
      else if (AWallet(w.pools.get(p).depAuth) != a[5].a) rej(w, "WrongAuthority")
      else if (a[2].a != AVault((p, mintOf(a[1].a)))) rej(w, "WrongVault")
      else
        val r = settle(w.minings.get(k), w.pools.get(p), w.now)
        val n = r.m.unclaimed
        val w1 = { ...w, minings: w.minings.set(k, { ...r.m, unclaimed: 0 }) }
        if (not(r.ok)) rej(w, "Overflow")
        else if (n == 0) { ...acc(w1), ret: 0 }
        else if (not(a[2].w) or not(a[6].w)) rej(w, "ReadOnly")
        else
          val t = moveTokens(w1, a[2].a, a[6].a, a[5], n)
          if (t.ok) { ...t, ret: n } else rej(w, t.why)

  pure def xDistribute(w: World, a: List[Meta]): Out =
    if (a.length() < 2) rej(w, "NotEnoughAccounts")
    else
      val p = poolOf(a[0].a)
      if (ownerOf(w, a[0].a) != "rewards") rej(w, "NotOurs")
      else if (not(a[1].s)) rej(w, "MissingSigner")
      else if (not(has(w.pools, p))) rej(w, "NotAPool")
      else if (a[1].a != AWallet(w.pools.get(p).distAuth)) rej(w, "WrongAuthority")
      else unframe(w, p, fDistribute(frame(w, p)))

  pure def xClose(w: World, a: List[Meta]): Out =
    if (a.length() < 5) rej(w, "NotEnoughAccounts")
    else
      val k = miningOf(a[0].a)
      val p = poolOf(a[4].a)
      if (ownerOf(w, a[0].a) != "rewards" or ownerOf(w, a[4].a) != "rewards" or ownerOf(w, a[2].a) != "system") rej(w, "NotOurs")
      else if (not(a[1].s) or not(a[3].s)) rej(w, "MissingSigner")
      else if (not(has(w.pools, p))) rej(w, "NotAPool")
      else if (not(has(w.minings, k)) or AWallet(k._2) != a[1].a) rej(w, "WrongMining")
      else if (k._1 != p and not(legacy("closePool"))) rej(w, "WrongPool")
      else if (AWallet(w.pools.get(p).depAuth) != a[3].a) rej(w, "WrongAuthority")
      else
        val r = settle(w.minings.get(k), w.pools.get(p), w.now)
        if (not(r.ok)) rej(w, "Overflow")
        else if (r.m.others > 0) rej(w, "StakeFromOthers")
        else if (r.m.unclaimed > 0) rej(w, "Unclaimed")
        else acc(lamports({ ...w, minings: drop(w.minings, Set(k)), husks: w.husks.put(k, 0) }, a[2].a, r.m.lamports))

  pure def xChangeDelegate(w: World, a: List[Meta], n: int, newDelegate: str): Out =
    if (a.length() < 6) rej(w, "NotEnoughAccounts")
    else
      val p = poolOf(a[0].a)
      val o = nameOf(a[3].a)
      val prob = authProblem(w, a[0], a[1], a[2], o)
      if (not(a[3].s)) rej(w, "MissingSigner")
      else if (prob != "") rej(w, prob)
      else if (ownerOf(w, a[4].a) != "rewards" or ownerOf(w, a[5].a) != "rewards") rej(w, "NotOurs")
      else if (a[4].a == a[5].a) rej(w, "SameDelegate")
      else if (delegProblem(w, a[0], a[1], a[5], newDelegate) != "") rej(w, "WrongDelegate")
      else if (not(has(w.minings, miningOf(a[4].a)))) rej(w, "WrongDelegate")
      else if (miningOf(a[4].a)._1 != p) rej(w, "WrongDelegate")
      else unframe(w, p, fChangeDelegate(frame(w, p), o, delegName(a[1], a[4]), delegName(a[1], a[5]), n))

  // instructions by which the deposit authority acts for a participant, account
  // order: pool, mining, deposit authority, delegate's mining
  pure def xStake(w: World, a: List[Meta], owner: str, deleg: str, op: (Frame, str) => Frame): Out =
    if (a.length() < 4) rej(w, "NotEnoughAccounts")
    else
      val prob = authProblem(w, a[0], a[1], a[2], owner)
      val prob2 = delegProblem(w, a[0], a[1], a[3], deleg)
      if (prob != "") rej(w, prob)
      else if (prob2 != "") rej(w, prob2)
      else unframe(w, poolOf(a[0].a), op(frame(w, poolOf(a[0].a)), delegName(a[1], a[3])))

  // account order: deposit authority, pool, mining
  pure def xPenalty(w: World, a: List[Meta], owner: str, op: (Frame) => Frame): Out =
    if (a.length() < 3) rej(w, "NotEnoughAccounts")
    else
      val prob = authProblem(w, a[1], a[2], a[0], owner)
      if (prob != "") rej(w, prob)
      else unframe(w, poolOf(a[1].a), op(frame(w, poolOf(a[1].a))))

  pure def xIx(w: World, ix: Ix, a: List[Meta]): Out = match ix {
    | InitializePool(x)   => xInitPool(w, a, x.fillAuth, x.distAuth)
    | FillVault(x)        => xFill(w, a, x.rewards, x.endsAt)
    | InitializeMining(x) => xInitMining(w, a, x.owner)
    | DepositMining(x)    => xStake(w, a, x.owner, x.delegate, (f, d) => fDeposit(f, x.owner, x.amount, x.lockup, d))
    | WithdrawMining(x)   => xStake(w, a, x.owner, x.delegate, (f, d) => fWithdraw(f, x.owner, x.amount, d))
    | Claim               => xClaim(w, a)
    | ExtendStake(x)      => xStake(w, a, x.owner, x.delegate, (f, d) =>
                               fExtend(f, x.owner, x.oldLockup, x.newLockup, x.startTs, x.base, x.add, d))
    | DistributeRewards   => xDistribute(w, a)
    | CloseMining         => xClose(w, a)
    | ChangeDelegate(x)   => xChangeDelegate(w, a, x.amount, x.newDelegate)
    | Slash(x)            => xPenalty(w, a, x.owner, f => fSlash(f, x.owner, x.native, x.mult, x.hasExp, x.exp))
    | DecreaseRewards(x)  => xPenalty(w, a, x.owner, f => fDecrease(f, x.owner, x.n))
  }

  // Transactions: the program runs on the accounts as given, instruction by
  // instruction, and the runtime undoes everything if one fails or an account that
  // was not passed as writable changed.  At the end accounts without lamports cease
  // to exist.
  pure def one(w: World, ix: Ix, a: List[Meta]): Out =
    val r = xIx(w, ix, a)
    if (not(r.ok)) rej(w, r.why)
    else if (a.select(m => not(m.w) and not(same(w, r.w, m.a))).length() > 0) rej(w, "ReadOnly")
    else r
  pure def purge(o: Out): Out =
    { ...o, w: { ...o.w, husks: drop(o.w.husks, o.w.husks.keys().filter(k => o.w.husks.get(k) == 0)) } }
  pure def tx(w: World, ix: Ix, a: List[Meta]): Out = purge(one(w, ix, a))
  // the flags of an account are those it has anywhere in the transaction
  pure def allMetas(l: List[{ ix: Ix, metas: List[Meta] }]): List[Meta] = l.foldl([], (a, t) => a.concat(t.metas))
  pure def mergedIn(every: List[Meta], ms: List[Meta]): List[Meta] = merged(ms.concat(every)).slice(0, ms.length())
  pure def bundle(w: World, l: List[{ ix: Ix, metas: List[Meta] }], dest: Acct, gift: int): Out =
    val every = allMetas(l)
    val r = l.foldl(acc(w), (o, t) => if (o.ok) one(o.w, t.ix, mergedIn(every, t.metas)) else o)
    if (r.ok) purge({ ...r, w: if (gift > 0) lamports(r.w, dest, gift) else r.w, ret: if (gift > 0) -1 else r.ret }) else rej(w, r.why)

  pure def exec(w: World, c: Cmd): Out = match c {
    | Tx(t) => tx(w, t.ix, merged(t.metas))
    | Garbled(_) => rej(w, "Malformed")
    | Daily(t)  => range(0, t.n).foldl(acc(w), (o, i) =>
        val r = tx({ ...o.w, now: o.w.now + DAY }, t.ix, merged(t.metas))
        { ...r, ok: o.ok and r.ok, why: if (o.ok) r.why else o.why })
    | Bundle(b) => bundle(w, b.ixs, b.dest, b.gift)
    | Tick(n)   => acc({ ...w, now: w.now + n })
    | Fund(x)   => acc({ ...w, toks: w.toks.setBy(x.tok, t => { ...t, amount: t.amount + x.amount }) })
    | Donate(x) => acc(lamports(w, x.to, x.amount))
    | Nop       => acc(w)
  }
}
