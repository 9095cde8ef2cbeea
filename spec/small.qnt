// A small instance, searched exhaustively: one pool, two participants, two stakes
// and scaled-down constants, and a ledger of the stakes as their owners see them.
// checks/mc.py swaps the constants, translates this module to TLA+ and runs TLC
// on it to a bounded depth.
module small {
  import types.* from "./types"
  import cmds.* from "./cmds"
  import params.* from "./params"
  import rewards.* from "./rewards"
  import ghost.* from "./ghost"

  type Stake = { o: str, n: int, lockup: str, start: int, d: str }
  type Try = { c: Cmd, led: int -> Stake, clean: bool, wf: bool }

  var sW: World
  var sG: Ghost
  var sLed: int -> Stake
  var sClean: bool      // no penalties so far
  var sLive: bool       // nothing a correct caller asked for was refused

  // what commands are tried (checks/mc.py also has a narrower choice, for longer histories)
  pure val AMOUNTS: Set[int] = Set(1, 2)
  pure val ADDED: Set[int] = Set(0, 1)
  pure val CHOSEN: Set[str] = Set("Flex", "ThreeMonths", "SixMonths")
  pure val STEPS: Set[int] = Set(1, 2, 4)
  pure val LATER: Set[int] = Set(0, 1)
  pure val CLOSING: bool = true
  pure val SLOTS = Set(0, 1)
  pure val WHO = Set("a", "b")

  pure val empty0: World = {
    now: 10, rawPools: Map(),
    pools: Map("p" -> { ...emptyPool, depAuth: "auth", distAuth: "dist", fillAuth: "auth", mint: "m", endsAt: 10 }),
    minings: WHO.map(o => ("p", o)).mapBy(k => { index: 0, share: 0, unclaimed: 0, others: 0, sched: Map(), lamports: RENT_M }),
    vaults: Map(("p", "m") -> { mint: "m", owner: "auth", amount: 0 }),
    toks: Map("f" -> { mint: "m", owner: "auth", amount: 100 }, "a" -> { mint: "m", owner: "a", amount: 0 }, "b" -> { mint: "m", owner: "b", amount: 0 }),
    mints: Set("m"), wallets: Map("auth" -> 9), parked: Map(), husks: Map() }

  // nothing filled yet, or a filling of two days
  pure val filled0: World = { ...empty0, pools: empty0.pools.setBy("p", x => { ...x, avail: 5, endsAt: 14 }), vaults: empty0.vaults.setBy(("p", "m"), x => { ...x, amount: 5 }) }

  action init = {
    nondet s = Set(empty0, filled0).oneOf()
    all {
      sW' = s, sLed' = Map(), sClean' = true, sLive' = true,
      sG' = { m: WHO.map(o => ("p", o)).mapBy(k => noMember), p: Map("p" -> { ...noPurse, filled: s.pools.get("p").avail }) }
    }
  }

  pure def isRunning(s: Stake, now: int): bool = s.lockup != "Flex" and now < expiry(s.lockup, s.start)
  pure def weightNow(s: Stake, now: int): int = if (isRunning(s, now)) s.n * MULT.get(s.lockup) else s.n
  pure def other(o: str): str = if (o == "a") "b" else "a"

  pure def tries(x: World, l: int -> Stake, cl: bool): Set[Try] =
    val free = SLOTS.exclude(l.keys())
    val ids = l.keys()
    Set(
      // deposits
      if (free == Set()) Set() else
        tuples(WHO, AMOUNTS, CHOSEN, Set(false, true)).map(t =>
          val d = if (t._4) other(t._1) else ""
          val i = free.fold(9, (m, y) => min2(m, y))
          { c: cDeposit("p", t._1, "auth", t._2, t._3, d), led: l.put(i, { o: t._1, n: t._2, lockup: t._3, start: x.now, d: d }), clean: true, wf: there(x, t._1, d) }),
      ids.filter(i => not(isRunning(l.get(i), x.now))).map(i => val s = l.get(i)
        { c: cWithdraw("p", s.o, "auth", s.n, s.d), led: drop(l, Set(i)), clean: true, wf: cl and there(x, s.o, s.d) }),
      tuples(ids, CHOSEN, ADDED).map(t => val s = l.get(t._1)
        { c: cExtend("p", s.o, "auth", s.lockup, t._2, s.start, s.n, t._3, s.d),
          led: l.put(t._1, { ...s, n: s.n + t._3, lockup: t._2, start: x.now }), clean: true, wf: cl and there(x, s.o, s.d) }),
      ids.map(i => val s = l.get(i)
        val d = if (s.d == "") other(s.o) else ""
        { c: cChangeDelegate("p", s.o, "auth", s.d, d, s.n), led: l.put(i, { ...s, d: d }), clean: true, wf: cl and there(x, s.o, s.d) and there(x, s.o, d) }),
      ids.map(i => val s = l.get(i)
        { c: cSlash("p", s.o, "auth", 1, if (isRunning(s, x.now)) MULT.get(s.lockup) else 1, isRunning(s, x.now), expiry(s.lockup, s.start)),
          led: if (s.n == 1) drop(l, Set(i)) else l.put(i, { ...s, n: s.n - 1 }), clean: s.d == "", wf: cl and there(x, s.o, s.d) }),
      WHO.map(o => { c: cDecrease("p", o, "auth", 1), led: l, clean: false, wf: false }),
      WHO.map(o => { c: cClaim("p", "m", o, "auth", ATok(o)), led: l, clean: true, wf: has(x.minings, ("p", o)) }),
      LATER.map(d => { c: cFill("p", "m", "auth", ATok("f"), 5, max2(x.now, x.pools.get("p").endsAt) + d * DAY), led: l, clean: true, wf: true }),
      // closing a mining and opening it again; a vault cannot fill itself
      WHO.filter(o => CLOSING).map(o => { c: cClose("p", o, "auth", AWallet(o)), led: l, clean: not(ids.exists(i => l.get(i).o == o)), wf: false }),
      WHO.filter(o => CLOSING).map(o => { c: cInitMining("p", o, "auth"), led: l, clean: true, wf: not(has(x.minings, ("p", o))) }),
      Set({ c: cFill("p", "m", "auth", AVault(("p", "m")), 5, x.pools.get("p").endsAt), led: l, clean: true, wf: false }),
      Set({ c: cDistribute("p", "dist"), led: l, clean: true, wf: x.pools.get("p").cum.keys().size() < CAP_H and weightOn(x, l) > 0 }),
      STEPS.map(d => { c: Tick(d), led: l, clean: true, wf: true })
    ).flatten()
  // what a correct caller may count on: the accounts named are there
  pure def there(x: World, o: str, d: str): bool = has(x.minings, ("p", o)) and (d == "" or has(x.minings, ("p", d)))
  pure def weightOn(x: World, l: int -> Stake): int = consumePool(frame(x, "p")).p.total

  action step = all {
    nondet t = tries(sW, sLed, sClean).oneOf()
    val o = exec(sW, t.c)
    all {
      sW' = o.w,
      sG' = gExec(sG, sW, t.c, o),
      sLed' = if (o.ok) t.led else sLed,
      sClean' = (sClean and (t.clean or not(o.ok))),
      sLive' = (not(t.wf) or o.ok or o.why == "Capacity")
    }
  }

  val ledgerAgrees = sClean implies WHO.filter(o => has(sW.minings, ("p", o))).forall(o =>
    val gm = gRoll(sG, "p", sW.now).m.get(("p", o))
    and { gm.w == sumOver(sLed.keys().filter(i => sLed.get(i).o == o), i => weightNow(sLed.get(i), sW.now)),
          gm.del == sumOver(sLed.keys().filter(i => sLed.get(i).o != o and sLed.get(i).d == o), i => sLed.get(i).n) })
  val inv = and { sLive, iSolvent(sW), iBacked(sW), iVault(sW, sG), iBooked(sW, sG), iEntitled(sW, sG), sClean implies iWeights(sW, sG), sClean implies iTotal(sW, sG), iIndex(sW), iBounds(sW), ledgerAgrees }
}
