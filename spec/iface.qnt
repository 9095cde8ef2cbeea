// The program's interface to the world outside: how every instruction is
// encoded, which accounts it takes under which names, how the accounts are laid
// out, and the error codes.  The behaviours of this module are instructions with
// arguments of all sizes; the repository's builders, its Rust and JavaScript
// clients and its published interface description must all produce for each of
// them what is said here (C20), and so must the harness that the other checks
// drive the program with.
module iface {
  import types.* from "./types"
  import params.* from "./params"
  import cmds.* from "./cmds"

  // what the bytes are made of
  type Atom =
    | B1(int)          // one byte
    | B8(int)          // eight, little endian
    | B16(int)
    | Key(Acct)        // 32 bytes

  pure val LOCK: str -> int = LOCKUPS.indices().map(i => (LOCKUPS[i], i)).setToMap()
  pure def who(n: str): Atom = Key(AWallet(n))

  // An instruction: its number and, by name, its arguments.
  type Arg = { n: str, ty: str, v: List[Atom] }
  pure def num(n: str, x: int): Arg = { n: n, ty: "u64", v: [B8(x)] }
  pure def key(n: str, x: str): Arg = { n: n, ty: "publicKey", v: [who(x)] }
  pure def lock(n: str, x: str): Arg = { n: n, ty: "LockupPeriod", v: [B1(LOCK.get(x))] }

  pure def encoded(ix: Ix): { tag: int, name: str, args: List[Arg], slots: List[str] } = match ix {
    | InitializePool(x) => { tag: 0, name: "InitializePool",
        args: [key("fillAuthority", x.fillAuth), key("distributeAuthority", x.distAuth)],
        slots: ["rewardPool", "rewardMint", "vault", "payer", "depositAuthority", "rent", "tokenProgram", "systemProgram"] }
    | FillVault(x) => { tag: 1, name: "FillVault",
        args: [num("rewards", x.rewards), num("distributionEndsAt", x.endsAt)],
        slots: ["rewardPool", "rewardMint", "vault", "fillAuthority", "sourceTokenAccount", "tokenProgram"] }
    | InitializeMining(x) => { tag: 2, name: "InitializeMining",
        args: [key("miningOwner", x.owner)],
        slots: ["rewardPool", "mining", "payer", "systemProgram"] }
    | DepositMining(x) => { tag: 3, name: "DepositMining",
        args: [num("amount", x.amount), lock("lockupPeriod", x.lockup), key("miningOwner", x.owner), key("delegate", x.delegate)],
        slots: ["rewardPool", "mining", "depositAuthority", "delegateMining"] }
    | WithdrawMining(x) => { tag: 4, name: "WithdrawMining",
        args: [num("amount", x.amount), key("miningOwner", x.owner), key("delegate", x.delegate)],
        slots: ["rewardPool", "mining", "depositAuthority", "delegateMining"] }
    | Claim => { tag: 5, name: "Claim", args: [],
        slots: ["rewardPool", "rewardMint", "vault", "mining", "miningOwner", "depositAuthority", "miningOwnerRewardTokenAccount", "tokenProgram"] }
    | ExtendStake(x) => { tag: 6, name: "ExtendStake",
        args: [lock("oldLockupPeriod", x.oldLockup), lock("newLockupPeriod", x.newLockup), num("depositStartTs", x.startTs),
               num("baseAmount", x.base), num("additionalAmount", x.add), key("miningOwner", x.owner), key("delegate", x.delegate)],
        slots: ["rewardPool", "mining", "depositAuthority", "delegateMining"] }
    | DistributeRewards => { tag: 7, name: "DistributeRewards", args: [], slots: ["rewardPool", "distributeAuthority"] }
    | CloseMining => { tag: 8, name: "CloseMining", args: [],
        slots: ["mining", "miningOwner", "targetAccount", "depositAuthority", "rewardPool"] }
    | ChangeDelegate(x) => { tag: 9, name: "ChangeDelegate",
        args: [num("stakedAmount", x.amount), key("newDelegate", x.newDelegate)],
        slots: ["rewardPool", "mining", "depositAuthority", "miningOwner", "oldDelegateMining", "newDelegateMining"] }
    | Slash(x) => { tag: 10, name: "Slash",
        args: [key("miningOwner", x.owner), num("slashAmountInNative", x.native), num("slashAmountMultipliedByPeriod", x.mult),
               { n: "stakeExpirationDate", ty: "option<u64>", v: if (x.hasExp) [B1(1), B8(x.exp)] else [B1(0)] }],
        slots: ["depositAuthority", "rewardPool", "mining"] }
    | DecreaseRewards(x) => { tag: 11, name: "DecreaseRewards",
        args: [key("miningOwner", x.owner), num("decreasedWeightedStakeNumber", x.n)],
        slots: ["depositAuthority", "rewardPool", "mining"] }
  }

  // The heads of the two kinds of accounts (the tables of end dates and of the
  // index history follow).  `bump` is whatever leads to the derived address,
  // which is for the reader of the account to say.
  type Field = { n: str, v: List[Atom] }
  pure def poolHead(q: PoolSt): List[Field] = [
    { n: "depositAuthority", v: [who(q.depAuth)] }, { n: "distributeAuthority", v: [who(q.distAuth)] },
    { n: "fillAuthority", v: [who(q.fillAuth)] }, { n: "rewardMint", v: [Key(AMint(q.mint))] },
    { n: "indexWithPrecision", v: [B16(q.index)] }, { n: "totalShare", v: [B8(q.total)] },
    { n: "distributionEndsAt", v: [B8(q.endsAt)] }, { n: "tokensAvailableForDistribution", v: [B8(q.avail)] },
    { n: "tokenAccountBump", v: [] }, { n: "data", v: [B1(1), B1(0), B1(0), B1(0), B1(0), B1(0), B1(0)] }]
  pure def miningHead(k: (str, str), m: MiningSt): List[Field] = [
    { n: "rewardPool", v: [Key(APool(k._1))] }, { n: "owner", v: [who(k._2)] },
    { n: "rewardMint", v: [B16(0), B16(0)] },     // never set by the program
    { n: "indexWithPrecision", v: [B16(m.index)] }, { n: "share", v: [B8(m.share)] },
    { n: "unclaimedRewards", v: [B8(m.unclaimed)] }, { n: "stakeFromOthers", v: [B8(m.others)] },
    { n: "bump", v: [] }, { n: "data", v: [B1(2), B1(0), B1(0), B1(0), B1(0), B1(0), B1(0)] }]

  // error codes: position in this list
  pure val ERRORS = ["InvalidAccountOwner", "MathOverflow", "RewardsNoDeposits", "InvalidLockupPeriod", "DistributionInThePast",
    "InvalidPrimitiveTypesConversion", "RewardsMustBeClaimed", "RewardsMustBeGreaterThanZero", "StakeFromOthersMustBeZero",
    "NoWeightedStakeModifiersAtADate", "DelegatesAreTheSame", "RetreivingZeroCopyAccountFailire", "AlreadyInitialized", "InvalidMining",
    "DerivationError", "DecreaseRewardsTooBig"]

  // the variants of the two enumerations, by their numbers
  pure val LOCKUPS = ["None", "Flex", "ThreeMonths", "SixMonths", "OneYear"]
  pure val ACCOUNTTYPES = ["Uninitialized", "RewardPool", "Mining"]

  // ------------------------------------------------------------- behaviours
  type Shown = { tag: int, name: str, args: List[Arg], slots: List[str] }
  var cmd: Cmd
  var shown: Shown
  var facts: { errors: List[str], lockups: List[str], accountTypes: List[str] }
  var heads: Set[{ what: str, fields: List[Field] }]      // accounts made up to be decoded

  pure val PEOPLE = Set("a", "b", "c", "mallory", "auth")
  pure val AMOUNTS = Set(0, 1, 2, 255, 256, 65535, 16909060, 72623859790382856, 4294967295, 4294967296, 1000000000, 9223372036854775807, 9223372036854775808, U64 - 1, U64)

  type P = { p: str, o: str, d: str, e: str, f: str, n: int, m: int, k: int, l1: str, l2: str, b: bool }
  pure def build(i: int, x: P): Cmd =
    if (i == 0) cInitPool(x.p, "m1", "payer", x.e, x.f, if (x.b) "" else x.d)
    else if (i == 1) cFill(x.p, "m1", x.o, ATok("a1"), x.n, x.m)
    else if (i == 2) cInitMining(x.p, x.o, "payer")
    else if (i == 3) cDeposit(x.p, x.o, x.e, x.n, x.l1, x.d)
    else if (i == 4) cWithdraw(x.p, x.o, x.e, x.n, x.d)
    else if (i == 5) cClaim(x.p, "m2", x.o, x.e, ATok("b1"))
    else if (i == 6) cExtend(x.p, x.o, x.e, x.l1, x.l2, x.k, x.n, x.m, x.d)
    else if (i == 7) cDistribute(x.p, x.e)
    else if (i == 8) cClose(x.p, x.o, x.e, AWallet(x.d))
    else if (i == 9) cChangeDelegate(x.p, x.o, x.e, x.f, x.d, x.n)
    else if (i == 10) cSlash(x.p, x.o, x.e, x.n, x.m, x.b, x.k)
    else cDecrease(x.p, x.o, x.e, x.n)

  pure def shownOf(c: Cmd): Shown = match c {
    | Tx(t) => encoded(t.ix)
    | _ => { tag: -1, name: "", args: [], slots: [] }
  }

  action init = all { cmd' = Nop, shown' = { tag: -1, name: "", args: [], slots: [] }, heads' = Set(),
                      facts' = { errors: ERRORS, lockups: LOCKUPS, accountTypes: ACCOUNTTYPES } }
  action step = {
    nondet i = 0.to(11).oneOf()
    nondet p = Set("p1", "p2").oneOf()
    nondet o = PEOPLE.oneOf()
    nondet d = PEOPLE.oneOf()
    nondet e = PEOPLE.oneOf()
    nondet f = PEOPLE.union(Set("")).oneOf()
    nondet n = AMOUNTS.oneOf()
    nondet m = AMOUNTS.oneOf()
    nondet k = AMOUNTS.oneOf()
    nondet l1 = LOCK.keys().oneOf()
    nondet l2 = LOCK.keys().oneOf()
    nondet b = Set(true, false).oneOf()
    val c = build(i, { p: p, o: o, d: d, e: e, f: f, n: n, m: m, k: k, l1: l1, l2: l2, b: b })
    all {
      cmd' = c, shown' = shownOf(c), facts' = facts,
      heads' = Set(
        { what: "RewardPool", fields: poolHead({ depAuth: o, distAuth: d, fillAuth: e, mint: "m1", index: n * m, total: m, endsAt: k, avail: n,
                                                 sched: Map(), cum: Map() }) },
        { what: "Mining", fields: miningHead((p, o), { index: n * k, share: m, unclaimed: n, others: k, sched: Map(), lamports: 0 }) })
    }
  }

  // every slot has a name and no two arguments share one
  val wellFormed = match cmd {
    | Tx(t) => and { shown.slots.length() == t.metas.length(),
                     shown.args.foldl(Set(), (s, a) => s.union(Set(a.n))).size() == shown.args.length() }
    | _ => true
  }
}
