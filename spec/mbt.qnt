// Behaviours of the specification with the program's real constants: random
// histories of a staking deployment (two pools, four participants, honest and
// dishonest callers), used three ways
//   - `quint run --invariant ...` checks every invariant on them,
//   - the traces are replayed on the real program (harness/),
//   - what the real program does instead is judged by validate.qnt.
module mbt {
  import types.* from "./types"
  import cmds.* from "./cmds"
  import params.* from "./params"
  import rewards.* from "./rewards"
  import ghost.* from "./ghost"

  // ------------------------------------------------------------------ genesis
  pure val LOCKUPS = ["Flex", "ThreeMonths", "SixMonths", "OneYear"]
  pure val USERS = ["a", "b", "c", "d"]

  // where each pool's roles lie; `same` = one deposit authority for both pools
  type Setup = { auth2: str, fill2: str, dist2: str, mint2: str }

  // `purse`: what the fillers start with
  pure def genesis(now: int, u: Setup, purse: int): World = {
    now: now,
    rawPools: Map("p1" -> POOL_LEN, "p2" -> POOL_LEN, "p3" -> 1776),
    pools: Map(), minings: Map(), vaults: Map(),
    toks: Map(
      "a1" -> { mint: "m1", owner: "a", amount: 500005 }, "b1" -> { mint: "m1", owner: "b", amount: 0 },
      "c1" -> { mint: "m1", owner: "c", amount: 0 }, "d1" -> { mint: "m1", owner: "d", amount: 0 },
      "a2" -> { mint: "m2", owner: "a", amount: 0 }, "b2" -> { mint: "m2", owner: "b", amount: 0 },
      "f1" -> { mint: "m1", owner: "fill", amount: purse },
      "f2" -> { mint: "m2", owner: "fill", amount: purse },
      "x1" -> { mint: "m1", owner: "auth", amount: 1000 },
      "y1" -> { mint: "m1", owner: "mallory", amount: purse / 10000000 }, "y2" -> { mint: "m2", owner: "mallory", amount: purse / 10000000 }),
    mints: Set("m1", "m2"),
    wallets: Map("payer" -> 1000000000000, "poor" -> 1000000, "a" -> 20000000, "b" -> 1000000, "auth" -> 1000000,
                 "mallory" -> 100000000),
    parked: Map(), husks: Map()
  }

  type Stake = { p: str, o: str, n: int, lockup: str, start: int, d: str }

  var w: World
  var cmd: Cmd
  var out: { ok: bool, why: str, ret: int }
  var g: Ghost
  var led: int -> Stake          // the stakes, as a staking contract in front of the program would know them
  var boot: List[Cmd]
  var wf: bool                   // the last command was one a correct caller may issue
  var clean: bool                // so far only such commands were accepted
  var pen: Set[(str, str)]       // participants who were penalised or slashed
  var setup: Setup
  var ctr: int                   // counts steps (see probe)

  pure def bootOf(u: Setup, full: bool): List[Cmd] =
    if (not(full)) []
    else [
      cInitPool("p1", "m1", "payer", "auth", "fill", "dist"),
      cInitMining("p1", "a", "payer"), cInitMining("p1", "b", "payer"), cInitMining("p1", "c", "payer"),
      cInitPool("p2", u.mint2, "payer", u.auth2, u.fill2, u.dist2),
      cInitMining("p2", "a", "payer"), cInitMining("p2", "b", "payer")
    ]

  action init = {
    // days of the past, of a leap year, and around the ends of 31- and 32-bit dates
    nondet t0 = Set(1700000000, 1700006400, 1700006399, 1709251199, 2147400000, 2139999999, 4294967295, 4290000000).oneOf()
    nondet u = Set({ auth2: "auth", fill2: "fill", dist2: "dist", mint2: "m1" },
                   { auth2: "auth", fill2: "fill", dist2: "dist", mint2: "m2" },
                   { auth2: "mallory", fill2: "mallory", dist2: "mallory", mint2: "m1" },
                   { auth2: "mallory", fill2: "fill", dist2: "dist", mint2: "m2" },
                   { auth2: "auth", fill2: "auth", dist2: "auth", mint2: "m1" },
                   // a participant who is also the authority
                   { auth2: "a", fill2: "a", dist2: "a", mint2: "m1" }, { auth2: "b", fill2: "a", dist2: "c", mint2: "m1" }).oneOf()
    initWith(t0, u, true, PURSE)
  }
  action initRaw = {
    nondet t0 = Set(1700000000, 1700006400).oneOf()
    nondet u = Set({ auth2: "auth", fill2: "fill", dist2: "dist", mint2: "m1" },
                   { auth2: "mallory", fill2: "mallory", dist2: "mallory", mint2: "m1" },
                   // roles given to nobody
                   { auth2: "auth", fill2: "", dist2: "dist", mint2: "m1" }, { auth2: "auth", fill2: "fill", dist2: "", mint2: "m2" },
                   { auth2: "a", fill2: "b", dist2: "c", mint2: "m1" }).oneOf()
    initWith(t0, u, false, PURSE)
  }
  // fillers with very much to give
  action initWide = {
    nondet t0 = Set(1700000000, 1700006399, 4294967295).oneOf()
    nondet u = Set({ auth2: "auth", fill2: "fill", dist2: "dist", mint2: "m2" },
                   { auth2: "mallory", fill2: "mallory", dist2: "mallory", mint2: "m1" }).oneOf()
    initWith(t0, u, true, 2^63)
  }
  pure val PURSE = 1000000000000000
  action initWith(t0: int, u: Setup, full: bool, purse: int): bool = all {
    w' = genesis(t0, u, purse), cmd' = Nop, out' = { ok: true, why: "", ret: -1 }, g' = gInit, led' = Map(),
    boot' = bootOf(u, full), wf' = true, clean' = true, pen' = Set(), setup' = u, ctr' = 0
  }

  // ------------------------------------------------------------ building blocks
  pure def authOf(x: World, p: str): str = if (has(x.pools, p)) x.pools.get(p).depAuth else "auth"
  pure def mintOfPool(x: World, p: str): str = if (has(x.pools, p)) x.pools.get(p).mint else "m1"
  pure def walletTok(o: str, m: str): Acct = ATok(if (m == "m1") (if (o == "fill") "f1" else if (o == "auth") "x1" else if (o == "mallory") "y1" else tok1(o))
                                           else (if (o == "fill") "f2" else if (o == "mallory") "y2" else if (o == "a") "a2" else "b2"))
  pure def tok1(o: str): str = if (o == "a") "a1" else if (o == "b") "b1" else if (o == "c") "c1" else "d1"

  pure def running(s: Stake, now: int): bool = s.lockup != "Flex" and now < expiry(s.lockup, s.start)
  pure def weightOf(s: Stake, now: int): int = if (running(s, now)) s.n * MULT.get(s.lockup) else s.n

  // A command together with what it means for the ledger of stakes if accepted,
  // whether a correct caller may issue it here, and whom it penalises.
  type Built = { c: Cmd, led: int -> Stake, wf: bool, pen: Set[(str, str)] }

  type Picks = { p: str, u: str, d: str, s: int, lockup: str, n: int, k: int, z: int }

  pure def newId(l: int -> Stake): int = maxOf(l.keys(), 0) + 1

  // does a participant's account exist, in an initialised pool
  pure def lives(x: World, p: str, o: str): bool = has(x.minings, (p, o)) and has(x.pools, p)

  pure def bDeposit(x: World, l: int -> Stake, k: Picks): Built =
    val d = if (k.d == k.u or not(lives(x, k.p, k.d))) "" else k.d
    { c: cDeposit(k.p, k.u, authOf(x, k.p), k.n, k.lockup, d),
      led: if (k.n == 0) l else l.put(newId(l), { p: k.p, o: k.u, n: k.n, lockup: k.lockup, start: x.now, d: d }),
      wf: lives(x, k.p, k.u) and x.pools.get(k.p).total + 8 * k.n < U64, pen: Set() }

  pure def bWithdraw(x: World, l: int -> Stake, k: Picks, pens: Set[(str, str)]): Built =
    val ready = l.keys().filter(i => not(running(l.get(i), x.now)))
    val id = if (ready == Set() or k.z % 5 == 4) k.s else sorted(ready)[k.k % ready.size()]
    val s = l.get(id)
    val n = if (k.z % 3 == 0) min2(k.n, s.n) else s.n
    { c: cWithdraw(s.p, s.o, authOf(x, s.p), n, s.d),
      led: if (n == s.n and k.z % 7 != 6) drop(l, Set(id)) else l.put(id, { ...s, n: s.n - n }),
      wf: lives(x, s.p, s.o) and not(running(s, x.now)) and not(pens.contains((s.p, s.o))), pen: Set() }

  pure def bExtend(x: World, l: int -> Stake, k: Picks, pens: Set[(str, str)]): Built =
    val s = l.get(k.s)
    val more = if (k.z % 2 == 0) 0 else k.n
    { c: cExtend(s.p, s.o, authOf(x, s.p), s.lockup, k.lockup, s.start, s.n, more, s.d),
      led: l.put(k.s, { ...s, n: s.n + more, lockup: k.lockup, start: x.now }),
      // (a stake of nothing need not have left an entry behind)
      wf: lives(x, s.p, s.o) and not(pens.contains((s.p, s.o))) and (s.n > 0 or not(running(s, x.now)))
          and x.pools.get(s.p).total + 8 * (s.n + more) < U64, pen: Set() }

  pure def bChange(x: World, l: int -> Stake, k: Picks): Built =
    val s = l.get(k.s)
    val d = if (k.d == s.o or not(lives(x, s.p, k.d))) "" else k.d
    { c: cChangeDelegate(s.p, s.o, authOf(x, s.p), s.d, d, s.n),
      led: l.put(k.s, { ...s, d: d }),
      wf: lives(x, s.p, s.o) and d != s.d and x.pools.get(s.p).total + s.n < U64, pen: Set() }

  pure def bSlash(x: World, l: int -> Stake, k: Picks, pens: Set[(str, str)]): Built =
    val s = l.get(k.s)
    val n = if (k.z % 2 == 0) s.n else min2(k.n, s.n)
    val locked = running(s, x.now)
    { c: cSlash(s.p, s.o, authOf(x, s.p), n, if (locked) min2(U64, n * MULT.get(s.lockup)) else n, locked,
                if (locked) expiry(s.lockup, s.start) + (if (k.z == 29) DAY - 1 else if (k.z < 3) k.z else (k.z * 2979) % DAY) else 0),
      led: if (n == s.n) drop(l, Set(k.s)) else l.put(k.s, { ...s, n: s.n - n }),
      wf: lives(x, s.p, s.o) and not(pens.contains((s.p, s.o))) and (s.n > 0 or not(locked)), pen: Set() }

  pure def bDecrease(x: World, l: int -> Stake, k: Picks): Built =
    val m = getOr(x.minings, (k.p, k.u), { index: 0, share: 0, unclaimed: 0, others: 0, sched: Map(), lamports: 0 })
    val live = m.sched.keys().filter(e => e > dayStart(x.now))
    val boosts = sumOver(live, e => m.sched.get(e))
    val n = if (k.z % 4 == 0) m.share else if (k.z % 4 == 1) min2(k.n, m.share) else min2(k.n, boosts)
    { c: cDecrease(k.p, k.u, authOf(x, k.p), n), led: l,
      wf: lives(x, k.p, k.u) and n <= m.share - sumOver(m.sched.keys().exclude(live), e => m.sched.get(e)), pen: if (n > 0) Set((k.p, k.u)) else Set() }

  pure def bClaim(x: World, l: int -> Stake, k: Picks): Built =
    val m = mintOfPool(x, k.p)
    { c: cClaim(k.p, m, k.u, authOf(x, k.p), if (m == "m2" and not(Set("a", "b").contains(k.u))) ATok("a2") else walletTok(k.u, m)),
      led: l, wf: lives(x, k.p, k.u) and (m == "m1" or Set("a", "b").contains(k.u)), pen: Set() }

  pure def bFill(x: World, l: int -> Stake, k: Picks): Built =
    val q = if (has(x.pools, k.p)) x.pools.get(k.p) else { ...emptyPool, fillAuth: "fill", mint: "m1" }
    val ends = min2(U64, [max2(x.now, q.endsAt) + k.z * DAY, max2(x.now, q.endsAt), x.now + (k.z % 4) * DAY + 7,
                max2(dayStart(x.now), q.endsAt) + 3600, max2(dayStart(x.now), q.endsAt) - 1, x.now + k.z * DAY][k.k % 6])
    val filler = if (q.fillAuth == "") "fill" else q.fillAuth
    val src = walletTok(filler, q.mint)
    val have = match src { | ATok(t) => getOr(x.toks, t, { mint: "", owner: "", amount: 0 }).amount | _ => 0 }
    { c: cFill(k.p, q.mint, filler, src, k.n, ends), led: l,
      wf: has(x.pools, k.p) and q.fillAuth != "" and k.n > 0 and k.n <= have and dayStart(ends) >= dayStart(x.now) and dayStart(ends) >= q.endsAt,
      pen: Set() }

  pure def bDistribute(x: World, l: int -> Stake, k: Picks): Built =
    { c: cDistribute(k.p, if (has(x.pools, k.p) and x.pools.get(k.p).distAuth != "") x.pools.get(k.p).distAuth else "dist"), led: l,
      wf: if (has(x.pools, k.p)) {
            val f = consumePool(frame(x, k.p))
            x.pools.get(k.p).distAuth != "" and f.ok and f.p.total > 0 and x.pools.get(k.p).cum.keys().size() < CAP_H
          } else false,
      pen: Set() }

  // a number of days in a row, one distribution each
  pure def bDaily(x: World, l: int -> Stake, k: Picks): Built =
    val n = 2 + (k.z * k.z) / 12
    { c: daily(n, bDistribute(x, l, k).c), led: l,
      wf: if (has(x.pools, k.p)) {
            val f = consumePool({ ...frame(x, k.p), now: x.now + n * DAY })
            x.pools.get(k.p).distAuth != "" and f.ok and f.p.total > 0 and x.pools.get(k.p).cum.keys().size() + n <= CAP_H
          } else false,
      pen: Set() }

  pure def bInitMining(x: World, l: int -> Stake, k: Picks): Built =
    { c: cInitMining(k.p, k.u, if (k.z % 5 == 0) "poor" else if (k.z % 5 == 1) "mallory" else "payer"), led: l,
      wf: false, pen: Set() }
  pure def bInitPool(x: World, l: int -> Stake, k: Picks, u: Setup): Built =
    { c: if (has(x.pools, k.p)) cInitPool(k.p, ["m1", "m2"][k.z % 2], "payer", if (k.z % 3 == 0) "mallory" else "auth", "mallory", "mallory")
         else if (k.p == "p1") cInitPool("p1", "m1", "payer", "auth", "fill", "dist")
         else cInitPool("p2", u.mint2, if (k.z % 5 == 0) "poor" else "payer", u.auth2, u.fill2, u.dist2), led: l,
      wf: has(x.rawPools, k.p) and k.z % 5 != 0, pen: Set() }

  pure def bClose(x: World, l: int -> Stake, k: Picks): Built =
    val mine = l.keys().filter(i => l.get(i).p == k.p and l.get(i).o == k.u)
    val m = getOr(x.minings, (k.p, k.u), { index: 0, share: 0, unclaimed: 0, others: 0, sched: Map(), lamports: 0 })
    { c: cClose(k.p, k.u, authOf(x, k.p), AWallet(k.u)),
      led: drop(l, mine),
      wf: lives(x, k.p, k.u) and m.others == 0 and { val r = settle(m, x.pools.get(k.p), x.now) r.ok and r.m.unclaimed == 0 }, pen: Set() }

  pure def bTick(x: World, l: int -> Stake, k: Picks): Built =
    val midnight = dayStart(x.now) + DAY
    val e = if (has(l, k.s) and running(l.get(k.s), x.now)) expiry(l.get(k.s).lockup, l.get(k.s).start) else midnight
    val t = [midnight, midnight, midnight - 1, x.now + 1, x.now + 3600, x.now + DAY, x.now + 5 * DAY, e, e - 1,
             x.now + 90 * DAY, e, x.now + k.z * 3571, x.now + 180 * DAY, x.now + 2 * DAY, e + 1, e + DAY,
             midnight + 43200, midnight + 1][k.k]
    { c: Tick(max2(0, t - x.now)), led: l, wf: true, pen: Set() }

  pure def build(kindName: str, x: World, l: int -> Stake, k: Picks, pens: Set[(str, str)], u: Setup): Built =
    val noStake = not(has(l, k.s))
    val kk = if (noStake and Set("withdraw", "extend", "change", "slash").contains(kindName)) "deposit"
             else if (kindName == "withdraw" and k.z % 5 != 4 and l.keys().forall(i => running(l.get(i), x.now))) "tick" else kindName
    if (kk == "deposit") bDeposit(x, l, k)
    else if (kk == "withdraw") bWithdraw(x, l, k, pens)
    else if (kk == "extend") bExtend(x, l, k, pens)
    else if (kk == "change") bChange(x, l, k)
    else if (kk == "slash") bSlash(x, l, k, pens)
    else if (kk == "decrease") bDecrease(x, l, k)
    else if (kk == "claim") bClaim(x, l, k)
    else if (kk == "fill") bFill(x, l, k)
    else if (kk == "distribute") bDistribute(x, l, k)
    else if (kk == "daily") bDaily(x, l, k)
    else if (kk == "initMining") bInitMining(x, l, k)
    else if (kk == "initPool") bInitPool(x, l, k, u)
    else if (kk == "close") bClose(x, l, k)
    else bTick(x, l, k)

  // commands by which stakes, and so weights, change
  pure val TOUCHING = Set("DepositMining", "WithdrawMining", "ExtendStake", "ChangeDelegate", "Slash", "DecreaseRewards", "CloseMining")
  pure def touches(c: Cmd): bool = match c {
    | Bundle(b) => b.ixs.select(t => TOUCHING.contains(kind(Tx(t)))).length() > 0
    | _ => TOUCHING.contains(kind(c))
  }

  // -------------------------------------------------------------------- steps
  action apply(b: Built, c: Cmd, honest: bool): bool = {
    val o = exec(w, c)
    all {
      w' = o.w, cmd' = c, out' = { ok: o.ok, why: o.why, ret: o.ret },
      g' = gExec(g, w, c, o),
      led' = if (o.ok and honest) b.led else led,
      boot' = boot,
      wf' = (honest and b.wf and clean),
      clean' = (clean and ((honest and (b.wf or not(touches(c)))) or not(o.ok))),
      pen' = if (o.ok) pen.union(b.pen) else pen,
      setup' = setup, ctr' = ctr + 1
    }
  }

  action bootStep = all {
    boot != [],
    val o = exec(w, boot.head())
    all {
      w' = o.w, cmd' = boot.head(), out' = { ok: o.ok, why: o.why, ret: o.ret }, g' = gExec(g, w, boot.head(), o),
      boot' = boot.tail(), wf' = true, clean' = clean, led' = led, pen' = pen, setup' = setup, ctr' = ctr
    }
  }

  pure val AMOUNTS = [1, 2, 3, 7, 10, 100, 1000, 12345, 1000007, 1000000009, 3000000000001]
  // around the limits of the number types
  pure val BIG = [1, 1000, 18446744073709551615, 18446744073709551614, 9223372036854775808, 9223372036854775807,
                  3074457345618258602, 3074457345618258603, 2635249153387078802, 4611686018427387904, 6148914691236517205,
                  1000000000000000000, 0]

  // every order of magnitude: powers of two and their neighbours
  pure def powers(lo: int, hi: int): List[int] = range(3 * lo, 3 * hi).foldl([], (l, i) => l.append(2^(i / 3) + i % 3 - 1))

  def pickStake(i: int): int =
    if (led.keys().size() == 0) -1 else sorted(led.keys())[i % led.keys().size()]

  // one honest command of a kind drawn from `kinds`
  action honest(kinds: List[str], amounts: List[int]): bool = all { boot == [], {
    nondet i = 0.to(kinds.length() - 1).oneOf()
    nondet p = Set("p1", "p1", "p2").oneOf()
    nondet u = Set("a", "b", "c").oneOf()
    nondet d = Set("a", "b", "c", "").oneOf()
    nondet s = 0.to(11).oneOf()
    nondet l = 0.to(3).oneOf()
    nondet n = 0.to(amounts.length() - 1).oneOf()
    nondet k = 0.to(17).oneOf()
    nondet z = 0.to(29).oneOf()
    val b = build(kinds[i], w, led, { p: p, u: u, d: d, s: pickStake(s), lockup: LOCKUPS[l], n: amounts[n], k: k, z: z }, pen, setup)
    apply(b, b.c, true)
  } }

  // --- dishonest commands: an honest one with one thing wrong
  def someAccts(x: World): List[Acct] =
    [APool("p1"), APool("p2"), APool("p3"), AMining(("p1", "a")), AMining(("p1", "b")), AMining(("p1", "c")), AMining(("p1", "d")),
     AMining(("p2", "a")), AMining(("p2", "b")), AMining(("p2", "c")), AVault(("p1", "m1")), AVault(("p2", "m1")), AVault(("p2", "m2")),
     AVault(("p1", "m2")), ATok("a1"), ATok("a2"), ATok("b1"), ATok("f1"), ATok("f2"), ATok("x1"), ATok("y1"), AMint("m1"), AMint("m2"),
     AWallet("a"), AWallet("b"), AWallet("auth"), AWallet("mallory"), AWallet("fill"), AWallet("dist"), AWallet("payer"),
     AProg("system"), AProg("token"), AProg("rent"), AForeign(("pool", "p1")), AForeign(("pool", "p2")), AForeign(("mining of p1", "a")),
     AForeign(("mining of p1", "b")), AForeign(("mining of p2", "a")), AForeign(("tok", "a1")), AForeign(("tok", "f1"))]
  pure val SIGNERS = ["a", "b", "c", "mallory", "auth", "fill", "dist", "payer"]

  // a wallet that replaces another may sign; nothing else can
  pure def replaceAcct(c: Cmd, i: int, a: Acct): Cmd = match a {
    | AWallet(_) => swapAcct(c, i, a)
    | _ => unsign(swapAcct(c, i, a), i)
  }

  action crooked(kinds: List[str], amounts: List[int]): bool = all { boot == [], {
    nondet i = 0.to(kinds.length() - 1).oneOf()
    nondet p = Set("p1", "p2").oneOf()
    nondet u = Set("a", "b", "c").oneOf()
    nondet d = Set("a", "b", "c", "").oneOf()
    nondet s = 0.to(11).oneOf()
    nondet l = 0.to(3).oneOf()
    nondet n = 0.to(amounts.length() - 1).oneOf()
    nondet k = 0.to(17).oneOf()
    nondet z = 0.to(29).oneOf()
    nondet how = 0.to(16).oneOf()
    nondet at = 0.to(7).oneOf()
    nondet at2 = 0.to(7).oneOf()
    nondet ai = 0.to(39).oneOf()
    nondet who = 0.to(7).oneOf()
    val b = build(kinds[i], w, led, { p: p, u: u, d: d, s: pickStake(s), lockup: LOCKUPS[l], n: amounts[n], k: k, z: z }, pen, setup)
    val sz = max2(1, nMetas(b.c))
    val x = someAccts(w)[ai]
    val c =
      if (how <= 1) unsign(b.c, at % sz)
      else if (how <= 5) replaceAcct(b.c, at % sz, x)
      else if (how <= 8) swapSigner(b.c, at % sz, SIGNERS[who])
      else if (how == 9) unwrite(b.c, at % sz)
      else if (how == 10) shorten(b.c, at % sz)
      else if (how == 11) exchange(b.c, at % sz, at2 % sz)
      else if (how == 12) retarget(b.c, SIGNERS[who])
      else if (how == 13) redelegate(b.c, SIGNERS[who])
      else if (how == 16) garble(b.c, z % 6)
      else if (how == 14) replaceAcct(swapSigner(b.c, at % sz, SIGNERS[who]), at2 % sz, x)
      else swapSigner(swapSigner(b.c, at % sz, SIGNERS[who]), at2 % sz, SIGNERS[s % 8])
    apply(b, c, false)
  } }

  // the first start whose lockup ends beyond the last date
  pure def expiryLimit(lockup: str): int = dayStart(U64) + DAY - getOr(DAYS, lockup, 0) * DAY

  // --- a trusted authority that makes mistakes: any argument, right accounts
  action sloppy(amounts: List[int]): bool = all { boot == [], {
    nondet i = 0.to(6).oneOf()
    nondet p = Set("p1", "p2").oneOf()
    nondet u = Set("a", "b", "c").oneOf()
    nondet d = Set("a", "b", "c", "").oneOf()
    nondet d2 = Set("a", "b", "c", "").oneOf()
    nondet l = Set("None", "Flex", "ThreeMonths", "SixMonths", "OneYear").oneOf()
    nondet l2 = Set("None", "Flex", "ThreeMonths", "SixMonths", "OneYear").oneOf()
    nondet n = 0.to(amounts.length() - 1).oneOf()
    nondet n2 = 0.to(amounts.length() - 1).oneOf()
    nondet z = 0.to(500).oneOf()
    nondet far = 0.to(47).oneOf()
    val a = authOf(w, p)
    // dates at the ends of time, and where the end of a lockup stops being a date
    val extreme = if (far < 6) [0, U64, U64 - z, U64 - z * DAY, min2(U64, expiryLimit(l) + z - 250), min2(U64, expiryLimit(l) - DAY + z - 250)][far] else 0
    val dd = if (d == u) "" else d
    val e = if (d2 == u) "" else d2
    val x = amounts[n]
    val y = amounts[n2]
    val start = if (far < 6) extreme else max2(0, w.now - z * DAY)
    val boosts = if (has(w.minings, (p, u))) sorted(w.minings.get((p, u)).sched.keys()) else []
    val exp = if (far < 6) extreme else if (boosts == [] or z % 4 == 0) w.now + (z - 250) * DAY else boosts[z % boosts.length()] + (if (z > 450) DAY - 1 else z * 190)
    val c =
      if (i == 0) cDeposit(p, u, a, x, l, dd)
      else if (i == 1) cWithdraw(p, u, a, x, dd)
      else if (i == 2) cExtend(p, u, a, l, l2, start, x, y, dd)
      else if (i == 3) cChangeDelegate(p, u, a, dd, e, x)
      else if (i == 4) cSlash(p, u, a, x, if (z % 3 == 0) y else min2(U64, x * (z % 7)), z % 5 != 0, exp)
      else if (i == 5) cDecrease(p, u, a, x)
      else cFill(p, mintOfPool(w, p), if (has(w.pools, p) and w.pools.get(p).fillAuth != "") w.pools.get(p).fillAuth else "fill",
                 if (z % 3 == 0) AVault((p, mintOfPool(w, p))) else walletTok("fill", mintOfPool(w, p)), x, if (far < 6) extreme else w.now + (z - 100) * DAY)
    apply({ c: c, led: led, wf: false, pen: Set((p, u)) }, c, false)
  } }

  // Several instructions in one transaction, lamports sent along.
  action together(kinds: List[str], kinds2: List[str], amounts: List[int]): bool = all { boot == [], {
    nondet i = 0.to(kinds.length() - 1).oneOf()
    nondet i2 = 0.to(kinds2.length() - 1).oneOf()
    nondet p = Set("p1", "p1", "p2").oneOf()
    nondet u = Set("a", "b", "c").oneOf()
    nondet u2 = Set("a", "b", "c").oneOf()
    nondet d = Set("a", "b", "c", "").oneOf()
    nondet s = 0.to(11).oneOf()
    nondet l = 0.to(3).oneOf()
    nondet n = 0.to(amounts.length() - 1).oneOf()
    nondet k = 0.to(17).oneOf()
    nondet z = 0.to(29).oneOf()
    nondet how = 0.to(11).oneOf()
    val x = { p: p, u: u, d: d, s: pickStake(s), lockup: LOCKUPS[l], n: amounts[n], k: k, z: z }
    val b1 = build(kinds[i], w, led, x, pen, setup)
    val o1 = exec(w, b1.c)
    val b2 = build(kinds2[i2], o1.w, if (o1.ok) b1.led else led, { ...x, u: if (how % 2 == 0) u else u2 }, pen.union(b1.pen), setup)
    val c1 = if (how == 9) unsign(b1.c, z % max2(1, nMetas(b1.c))) else if (how == 10) unwrite(b1.c, z % max2(1, nMetas(b1.c))) else b1.c
    val dest = if (how == 8) AWallet(u2) else AMining((p, u))
    val gift = if (how < 2 or how == 8) RENT_M + z else 0
    val c = bundled(c1, if (how == 0) Nop else b2.c, dest, gift)
    all {
      b1.c != Nop, kind(b1.c) != "Tick", kind(b1.c) != "Daily", lives(w, p, u),
      apply({ c: c, led: if (how == 0) b1.led else b2.led, wf: b1.wf and (how == 0 or b2.wf) and how < 9, pen: b1.pen.union(b2.pen) }, c, how < 9)
    }
  } }

  // money for the fillers, lamports sent to addresses
  action outside = all { boot == [], {
    nondet t = Set("f1", "f2", "y1", "a1").oneOf()
    nondet n = Set(1, 1000000, 5000000000000).oneOf()
    nondet z = 0.to(9).oneOf()
    nondet o = Set("c", "d").oneOf()
    val c = if (z < 8) Fund({ tok: t, amount: n }) else Donate({ to: AMining(("p2", o)), amount: n })
    all {
      match c { | Donate(x) => ownerOf(w, x.to) == "system" or has(w.minings, ("p2", o)) | _ => true },
      apply({ c: c, led: led, wf: true, pen: Set() }, c, true)
    }
  } }

  // ------------------------------------------------------------------ scripts
  // Fixed beginnings that put the system into states random walks rarely reach.
  pure def times(n: int, f: (int) => List[Cmd]): List[Cmd] = range(0, n).foldl([], (l, i) => l.concat(f(i)))

  pure def bootWith(u: Setup, l: List[Cmd]): List[Cmd] = bootOf(u, true).concat(l)
  action initScript(u: Setup, l: List[Cmd]): bool = all {
    w' = genesis(1700000000, u, PURSE), cmd' = Nop, out' = { ok: true, why: "", ret: -1 }, g' = gInit, led' = Map(),
    boot' = bootWith(u, l), wf' = false, clean' = false, pen' = Set(), setup' = u, ctr' = 0
  }
  pure val SIMPLE: Setup = { auth2: "auth", fill2: "fill", dist2: "dist", mint2: "m1" }
  pure val RIVAL: Setup = { auth2: "mallory", fill2: "mallory", dist2: "mallory", mint2: "m1" }
  pure def oneFill(p: str, n: int, days: int): Cmd = cFill(p, "m1", "fill", ATok("f1"), n, 1700000000 + days * DAY)

  // a participant's schedule fills up; it takes more only when something expires
  action initFullMining = initScript(SIMPLE,
    [oneFill("p1", 1000000, 400)].concat(times(50, i =>
      [Tick(DAY), cDeposit("p1", "a", "auth", 1000 + i, "ThreeMonths", if (i % 3 == 0) "b" else if (i % 3 == 1) "c" else ""), cDeposit("p1", "c", "auth", 10 + i, "ThreeMonths", "")]))
    // full: what needs no new date still goes
    .concat([cDeposit("p1", "a", "auth", 3, "ThreeMonths", "b"), cDeposit("p1", "a", "auth", 4, "ThreeMonths", ""),
             cExtend("p1", "a", "auth", "ThreeMonths", "ThreeMonths", 1700000000 + 40 * DAY, 1039, 2, "b"),
             cExtend("p1", "a", "auth", "ThreeMonths", "ThreeMonths", 1700000000 + 50 * DAY, 3, 2, "b"), Tick(DAY)])
    .concat(times(3, i => [cDeposit("p1", "a", "auth", 2000 + i, "ThreeMonths", ""), Tick(DAY)]))
    .concat([cDeposit("p1", "a", "auth", 5, "ThreeMonths", ""), cDeposit("p1", "a", "auth", 5, "SixMonths", "b"),
             cDeposit("p1", "a", "auth", 5, "Flex", ""), cDeposit("p1", "b", "auth", 5, "OneYear", ""),
             cExtend("p1", "a", "auth", "ThreeMonths", "OneYear", 1700000000 + 4 * DAY, 1003, 1, ""),
             cWithdraw("p1", "a", "auth", 1, ""), cDistribute("p1", "dist"), cClaim("p1", "m1", "a", "auth", ATok("a1")),
             Tick(38 * DAY), cDeposit("p1", "a", "auth", 5, "ThreeMonths", ""), cDeposit("p1", "a", "auth", 6, "SixMonths", ""),
             cDeposit("p1", "a", "auth", 7, "OneYear", ""), cWithdraw("p1", "a", "auth", 1000, "b"), cDistribute("p1", "dist"),
             cSlash("p1", "a", "auth", 1009, 2018, true, 1700000000 + 100 * DAY), cDecrease("p1", "a", "auth", 30000),
             // c's account is left alone while all its dates pass
             daily(60, cDistribute("p1", "dist")), Tick(140 * DAY), cDeposit("p1", "a", "auth", 1, "Flex", "c"), cClaim("p1", "m1", "c", "auth", ATok("c1")), cDeposit("p1", "c", "auth", 7, "OneYear", ""),
             cClaim("p1", "m1", "a", "auth", ATok("a1")), cDeposit("p1", "a", "auth", 7, "OneYear", "")]))

  // a pool's schedule fills up: every day of the year has something expiring
  pure def un(i: int): str = ["u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7"][i % 8]
  action initFullPool = initScript(SIMPLE,
    times(8, i => [cInitMining("p1", un(i), "payer")])
    .concat([oneFill("p1", 1000000000, 700)])
    .concat(times(365, i => [Tick(DAY), cDeposit("p1", un(i), "auth", 1000 + i, "OneYear", "")]))
    // full: what needs no new date still goes
    .concat([cDeposit("p1", "a", "auth", 3, "OneYear", "b"), cDeposit("p1", "b", "auth", 4, "SixMonths", ""), cDeposit("p1", "b", "auth", 4, "Flex", ""),
             cExtend("p1", "a", "auth", "OneYear", "ThreeMonths", 1700000000 + 365 * DAY, 3, 2, "b"), Tick(DAY)])
    .concat(times(2, i => [cDeposit("p1", un(i), "auth", 3000 + i, "OneYear", ""), Tick(DAY)]))
    .concat([cDistribute("p1", "dist"), cDeposit("p1", "a", "auth", 77, "SixMonths", ""), cDeposit("p1", "a", "auth", 77, "ThreeMonths", ""),
             Tick(100 * DAY), cDistribute("p1", "dist"), cWithdraw("p1", "u0", "auth", 1000, ""), Tick(266 * DAY), cDistribute("p1", "dist")])
    // the accounts with their 45 dates are brought up to date
    .concat(times(8, i => [cWithdraw("p1", un(i), "auth", 1, "")])))

  // a pool's history fills up
  action initFullHistory = initScript(SIMPLE,
    [cDeposit("p1", "a", "auth", 1000, "OneYear", ""), cDeposit("p1", "b", "auth", 3000, "SixMonths", "a"), oneFill("p1", 5000000, 1200),
     daily(90, cDistribute("p1", "dist")), cClaim("p1", "m1", "a", "auth", ATok("a1")),
     daily(1000, cDistribute("p1", "dist")), daily(3, cDistribute("p1", "dist")), Tick(DAY), cDistribute("p1", "dist"), Tick(DAY),
     cDistribute("p1", "dist"), cDistribute("p1", "dist"), cClaim("p1", "m1", "b", "auth", ATok("b1")), Tick(DAY),
     cDistribute("p1", "dist"), daily(2, cDistribute("p1", "dist")), cDeposit("p1", "c", "auth", 10, "Flex", ""),
     cWithdraw("p1", "a", "auth", 1000, ""), cClaim("p1", "m1", "a", "auth", ATok("a1")), Tick(5 * DAY), cClaim("p1", "m1", "b", "auth", ATok("b1"))])

  // a filling run down over its whole life, with participants who never touch their accounts until the end
  action initLongRun = initScript(SIMPLE,
    [cDeposit("p1", "a", "auth", 1000, "OneYear", "b"), cDeposit("p1", "b", "auth", 3000, "ThreeMonths", ""), cDeposit("p1", "c", "auth", 77, "Flex", ""),
     oneFill("p1", 1000003, 500), daily(89, cDistribute("p1", "dist")), daily(1, cDistribute("p1", "dist")), daily(1, cDistribute("p1", "dist")),
     oneFill("p1", 999, 500), daily(200, cDistribute("p1", "dist")), cClaim("p1", "m1", "c", "auth", ATok("c1")),
     daily(74, cDistribute("p1", "dist")), daily(2, cDistribute("p1", "dist")), cExtend("p1", "a", "auth", "OneYear", "SixMonths", 1700000000, 1000, 50, "b"),
     daily(132, cDistribute("p1", "dist")), daily(3, cDistribute("p1", "dist")), cClaim("p1", "m1", "a", "auth", ATok("a1")),
     cClaim("p1", "m1", "b", "auth", ATok("b1")), cClaim("p1", "m1", "c", "auth", ATok("c1")), oneFill("p1", 10, 1000), daily(40, cDistribute("p1", "dist")),
     cClaim("p1", "m1", "b", "auth", ATok("b1"))])
  action stepScript = bootStep

  // -------------------------------------------------------------------- probe
  // Systematic rather than random dishonesty: from a rich state, every kind of
  // command with each slot in turn unsigned, made read-only or filled with every
  // other account, and with every subset of its slots moved to another pool or
  // to another participant.  Probes the specification accepts are skipped, so
  // that the state stays as it is; the program must refuse all the others.
  pure val RICH: List[Cmd] = [
    cDeposit("p1", "a", "auth", 1000, "OneYear", "b"), cDeposit("p1", "a", "auth", 500, "Flex", ""), cDeposit("p1", "a", "auth", 50, "Flex", "b"),
    cDeposit("p1", "b", "auth", 700, "ThreeMonths", ""), cDeposit("p1", "c", "auth", 10, "Flex", "a"), cInitMining("p1", "d", "payer"),
    cFill("p1", "m1", "fill", ATok("f1"), 1000000, 1700000000 + 10 * DAY), Fund({ tok: "y1", amount: 1000000 }),
    Tick(DAY), cDistribute("p1", "dist"), Tick(DAY)]
  pure def rival(u: Setup): List[Cmd] = [
    cDeposit("p2", "a", u.auth2, 1000, "OneYear", "b"), cDeposit("p2", "a", u.auth2, 500, "Flex", ""), cDeposit("p2", "a", u.auth2, 50, "Flex", "b"),
    cDeposit("p2", "b", u.auth2, 700, "ThreeMonths", ""),
    cFill("p2", "m1", u.fill2, if (u.fill2 == "fill") ATok("f1") else ATok("y1"), 50000, 1700000000 + 20 * DAY),
    cDistribute("p2", u.dist2), Tick(DAY)]
  pure val S0 = 1700000000
  pure val BASES: List[Cmd] = [
    cDeposit("p1", "a", "auth", 100, "ThreeMonths", "b"), cDeposit("p1", "a", "auth", 100, "Flex", ""),
    cWithdraw("p1", "a", "auth", 20, "b"), cWithdraw("p1", "a", "auth", 20, ""),
    cExtend("p1", "a", "auth", "OneYear", "SixMonths", S0, 1000, 5, "b"), cExtend("p1", "a", "auth", "Flex", "OneYear", S0, 500, 0, ""),
    cChangeDelegate("p1", "a", "auth", "b", "c", 50), cChangeDelegate("p1", "a", "auth", "", "b", 500), cChangeDelegate("p1", "a", "auth", "b", "", 50),
    cClaim("p1", "m1", "a", "auth", ATok("a1")), cDistribute("p1", "dist"), cFill("p1", "m1", "fill", ATok("f1"), 1000, S0 + 30 * DAY),
    cSlash("p1", "a", "auth", 100, 600, true, S0 + 365 * DAY), cSlash("p1", "a", "auth", 100, 100, false, 0), cDecrease("p1", "a", "auth", 33),
    cClose("p1", "d", "auth", AWallet("d")), cInitMining("p1", "e", "payer"), cInitPool("p1", "m1", "payer", "mallory", "mallory", "mallory"),
    cInitPool("p1", "m2", "payer", "mallory", "mallory", "mallory"), cInitMining("p1", "a", "payer"),
    cInitPool("p3", "m1", "payer", "auth", "fill", "dist"), cClose("p1", "a", "auth", AWallet("a"))]

  // the same account in the other pool / of another participant
  pure def inPool2(u: Setup, a: Acct): Acct = match a {
    | APool(_) => APool("p2") | AMining(k) => AMining(("p2", k._2)) | AVault(k) => AVault(("p2", k._2))
    | AWallet(n) => AWallet(if (n == "auth") u.auth2 else if (n == "fill") u.fill2 else if (n == "dist") u.dist2 else n)
    | ATok(t) => if (u.fill2 != "fill" and t == "f1") ATok("y1") else a
    | _ => a
  }
  pure def asOther(a: Acct): Acct = match a {
    | AMining(k) => AMining((k._1, if (k._2 == "a") "b" else "a")) | ATok(t) => ATok(if (t == "a1") "b1" else if (t == "f1") "y1" else t)
    | AWallet(n) => AWallet(if (n == "a") "b" else "mallory")
    | _ => a
  }
  pure def bit(x: int, i: int): bool = (x / (2^i)) % 2 == 1
  pure def moved(c: Cmd, mask: int, f: (Acct) => Acct): Cmd = tamper(c, l =>
    l.indices().fold(l, (m, i) => if (bit(mask, i)) m.replaceAt(i, { ...l[i], a: f(l[i].a) }) else m))

  pure val NPROBE = 1008
  def probe(i: int): Cmd =
    val c = BASES[i / NPROBE]
    val j = i % NPROBE
    val n = nMetas(c)
    if (j < 8) unsign(c, j)
    else if (j < 16) unwrite(c, j - 8)
    else if (j < 16 + 320) { val k = j - 16 replaceAcct(c, k / 40, someAccts(w)[k % 40]) }
    else if (j < 336 + 64) { val k = j - 336 swapSigner(c, k / 8, SIGNERS[k % 8]) }
    else if (j < 400 + 64) { val k = j - 400 exchange(c, k / 8, k % 8) }
    else if (j < 464 + 8) shorten(c, j - 464)
    else if (j < 472 + 8) retarget(c, SIGNERS[j - 472])
    else if (j < 480 + 8) redelegate(c, SIGNERS[j - 480])
    else if (j < 488 + 8) garble(c, j - 488)
    else if (j < 496 + 256) moved(c, j - 496, a => inPool2(setup, a))
    else if (j < 752 + 256) moved(c, j - 752, a => asOther(a))
    else c
  action initProbe(part: int, u: Setup): bool = all {
    w' = genesis(S0, u, PURSE), cmd' = Nop, out' = { ok: true, why: "", ret: -1 }, g' = gInit, led' = Map(),
    boot' = bootWith(u, RICH.concat(rival(u))), wf' = false, clean' = false, pen' = Set(), setup' = u, ctr' = part
  }
  action probeStep(parts: int): bool = all {
    boot == [],
    ctr < BASES.length() * NPROBE,
    val c = probe(ctr)
    val d = if (exec(w, c).ok) Nop else c
    val o = exec(w, d)
    all {
      w' = o.w, cmd' = d, out' = { ok: o.ok, why: o.why, ret: o.ret }, g' = g, boot' = boot, wf' = false, clean' = false,
      led' = led, pen' = pen, setup' = setup, ctr' = ctr + parts
    }
  }

  // ----------------------------------------------------------------- profiles
  pure val ECONOMY = ["deposit", "deposit", "withdraw", "withdraw", "extend", "claim", "claim", "claim", "fill", "fill", "distribute", "distribute",
                      "distribute", "distribute", "change", "tick", "tick", "tick", "tick", "tick", "tick"]
  action stepEconomy = any { bootStep, honest(ECONOMY, AMOUNTS) }

  pure val LOCK = ["deposit", "deposit", "deposit", "withdraw", "extend", "extend", "extend", "claim", "fill", "distribute", "distribute",
                   "tick", "tick", "tick", "tick", "tick"]
  action stepLock = any { bootStep, honest(LOCK, AMOUNTS) }

  pure val DELEG = ["deposit", "deposit", "deposit", "withdraw", "extend", "extend", "change", "change", "change", "change", "claim", "fill", "fill",
                    "distribute", "distribute", "distribute", "tick", "tick", "tick", "tick", "close"]
  action stepDeleg = any { bootStep, honest(DELEG, AMOUNTS) }

  pure val PENAL = ["deposit", "deposit", "deposit", "slash", "slash", "slash", "decrease", "decrease", "decrease", "withdraw", "extend", "claim",
                    "fill", "distribute", "distribute", "tick", "tick", "tick", "change"]
  action stepPenal = any { bootStep, honest(PENAL, AMOUNTS) }

  pure val SCHEDULE = ["deposit", "deposit", "withdraw", "daily", "fill", "fill", "fill", "fill", "distribute", "distribute", "distribute", "distribute",
                       "distribute", "claim", "tick", "tick", "tick", "tick"]
  action stepSchedule = any { bootStep, honest(SCHEDULE, AMOUNTS) }

  pure val LIFE = ["initPool", "initMining", "initMining", "initMining", "close", "close", "close", "close", "claim", "claim", "claim", "deposit",
                   "deposit", "withdraw", "withdraw", "withdraw", "change", "fill", "distribute", "distribute", "tick", "tick"]
  action stepLife = any { bootStep, honest(LIFE, AMOUNTS), honest(LIFE, AMOUNTS), honest(LIFE, AMOUNTS), outside, crooked(["initPool", "initMining", "close"], AMOUNTS),
                          together(["close", "close", "claim", "withdraw"], ["close", "close", "initMining", "claim", "deposit", "change"], AMOUNTS) }

  pure val ALLKINDS = ["initPool", "initMining", "fill", "fill", "deposit", "deposit", "withdraw", "claim", "claim", "extend", "distribute", "distribute",
                       "close", "change", "change", "slash", "decrease"]
  action stepCrooked = any { bootStep, honest(ECONOMY, AMOUNTS), crooked(ALLKINDS, AMOUNTS), crooked(ALLKINDS, AMOUNTS) }

  action stepSloppy = any { bootStep, honest(ECONOMY, AMOUNTS), sloppy(AMOUNTS), sloppy([0, 1, 2, 3, 5, 7, 10, 15, 20, 100]) }

  action stepBig = any { bootStep, honest(ECONOMY, BIG), sloppy(BIG), honest(["claim", "distribute", "tick", "fill"], BIG), outside }

  pure val W_STAKE = powers(1, 56)
  pure val W_FILL = powers(30, 63)
  pure val W_REST = ["withdraw", "claim", "distribute", "distribute", "change", "tick", "tick", "tick", "slash", "daily"]
  action stepWide = any { bootStep, honest(["deposit", "deposit", "extend", "withdraw", "decrease"], W_STAKE), honest(["fill", "fill", "distribute", "tick"], W_FILL),
                          honest(W_REST, W_STAKE), honest(W_REST, W_STAKE) }

  action stepAll = any { bootStep, honest(ECONOMY, AMOUNTS), honest(PENAL, AMOUNTS), honest(LIFE, AMOUNTS), outside, together(ECONOMY, PENAL, AMOUNTS) }

  // --------------------------------------------------------------- invariants
  val solvent = iSolvent(w) and iVault(w, g)
  val backed = iBacked(w)
  val booked = iBooked(w, g)
  val entitled = iEntitled(w, g)
  val weights = clean implies iWeights(w, g)
  val total = clean implies iTotal(w, g)
  val index = iIndex(w)
  val bounds = iBounds(w)
  // what correct callers ask for is never refused
  val live = wf implies out.ok
  // the weights are those of the stakes as the staking contract knows them
  val ledgerAgrees = (clean and pen == Set()) implies w.minings.keys().forall(k =>
    has(w.pools, k._1) implies {
      val gm = gRoll(g, k._1, w.now).m.get(k)
      gm.w == sumOver(led.keys().filter(i => led.get(i).p == k._1 and led.get(i).o == k._2), i => weightOf(led.get(i), w.now))
    })
  val inv = and { solvent, backed, booked, entitled, weights, total, index, bounds, live, ledgerAgrees }
}
