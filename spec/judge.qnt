// What an observed step of the real program means for the properties.
//
// `tags` compares one observed step with what the specification says about the
// same command in the same (observed) world, at the level of what users can
// rely on; `blame` says which properties a discrepancy breaks.  Differences
// that break nothing (an empty schedule entry more or less, the order in which
// a rejected command's faults are found) get no tag.
module judge {
  import types.* from "./types"
  import cmds.* from "./cmds"
  import params.* from "./params"
  import rewards.* from "./rewards"
  import ghost.* from "./ghost"

  // `honest` commands come from a correct caller; `wf` ones he may expect to be
  // accepted; `clean`: so far only such commands.
  type Obs = { c: Cmd, honest: bool, wf: bool, clean: bool, ok: bool, ret: int, panic: bool, broken: bool, w: World }

  // kind: of the command; what: the discrepancy; more: qualifies it
  type Tag = { kind: str, what: str, more: str }
  pure def tag(k: str, wh: str, mo: str): Set[Tag] = Set({ kind: k, what: wh, more: mo })
  pure def when(c: bool, s: Set[Tag]): Set[Tag] = if (c) s else Set()
  // how two figures differ
  pure def dir(expected: int, observed: int): str = if (observed > expected) "up" else "down"

  pure def poolTags(k: str, involved: bool, e: PoolSt, o: PoolSt): Set[Tag] =
    val who = if (involved) "" else "other"
    Set(
      when(e.depAuth != o.depAuth or e.distAuth != o.distAuth or e.fillAuth != o.fillAuth or e.mint != o.mint, tag(k, "pool roles", who)),
      when(e.index != o.index, tag(k, "pool index", if (involved) dir(e.index, o.index) else who)),
      when(e.total != o.total, tag(k, "pool total", if (involved) dir(e.total, o.total) else who)),
      when(e.endsAt != o.endsAt, tag(k, "pool end", who)),
      when(e.avail != o.avail, tag(k, "pool left", if (involved) dir(e.avail, o.avail) else who)),
      when(nonzero(e.sched) != nonzero(o.sched), tag(k, "pool expiries", who)),
      when(e.cum != o.cum, tag(k, "pool history", who))
    ).flatten()

  pure def miningTags(k: str, who: str, e: MiningSt, o: MiningSt): Set[Tag] =
    Set(
      when(e.index != o.index, tag(k, "mining index", who)),
      when(e.share != o.share, tag(k, "mining share", who)),
      when(e.unclaimed != o.unclaimed, tag(k, if (o.unclaimed > e.unclaimed) "mining owed up" else "mining owed down", who)),
      when(e.others != o.others, tag(k, "mining delegated", who)),
      when(nonzero(e.sched) != nonzero(o.sched), tag(k, "mining expiries", who)),
      when(e.lamports != o.lamports, tag(k, "lamports", who))
    ).flatten()

  pure def tokTags(k: str, isVault: bool, involved: bool, e: TokenSt, o: TokenSt): Set[Tag] =
    Set(
      when(e.mint != o.mint or e.owner != o.owner, tag(k, "token roles", if (not(involved)) "other" else if (isVault) "vault" else "")),
      when(e.amount != o.amount, tag(k, if (isVault) "vault balance" else "token balance", if (involved) dir(e.amount, o.amount) else "other"))
    ).flatten()

  pure def kinds(c: Cmd): Set[str] = match c {
    | Bundle(b) => b.ixs.foldl(Set(kind(c)), (s, t) => s.union(Set(kind(Tx(t)))))
    | _ => Set(kind(c))
  }
  // the slots that name the participant acted on, and the pool
  pure def subject(c: Cmd): (str, str) = match c {
    | Tx(t) =>
        val i = match t.ix { | Claim => 3 | CloseMining => 0 | Slash(_) => 2 | DecreaseRewards(_) => 2 | _ => 1 }
        if (i < t.metas.length()) miningOf(t.metas[i].a) else ("?", "?")
    | _ => ("?", "?")
  }
  pure def named(c: Cmd, a: Acct): bool = match c {
    | Tx(t) => t.metas.select(m => m.a == a).length() > 0
    | Daily(t) => t.metas.select(m => m.a == a).length() > 0
    | Bundle(b) => b.dest == a or allMetas(b.ixs).select(m => m.a == a).length() > 0
    | _ => false
  }

  pure def keysDiffer(k: str, e: Set[a], o: Set[a], what: str): Set[Tag] =
    Set(when(not(e.subseteq(o)), tag(k, what, "missing")), when(not(o.subseteq(e)), tag(k, what, "appeared"))).flatten()

  pure def funded(m: a -> int): a -> int = m.keys().filter(k => m.get(k) > 0).mapBy(k => m.get(k))

  // A figure of more than 31 bits (an index of more than 53) is not what it should be.
  pure def bigDiff(e: int, o: int, bits: int): bool = e != o and (e >= 2 ^ bits or o >= 2 ^ bits)
  pure def bigTags(k: str, e: World, o: World): Set[Tag] =
    when(or {
      e.pools.keys().intersect(o.pools.keys()).exists(p =>
        val x = e.pools.get(p)
        val y = o.pools.get(p)
        or { bigDiff(x.total, y.total, 31), bigDiff(x.avail, y.avail, 31), bigDiff(x.endsAt, y.endsAt, 31), bigDiff(x.index, y.index, 53),
             bigDiff(maxOf(x.sched.keys().map(d => x.sched.get(d)), 0), maxOf(y.sched.keys().map(d => y.sched.get(d)), 0), 31) }),
      e.minings.keys().intersect(o.minings.keys()).exists(m =>
        val x = e.minings.get(m)
        val y = o.minings.get(m)
        or { bigDiff(x.share, y.share, 31), bigDiff(x.unclaimed, y.unclaimed, 31), bigDiff(x.others, y.others, 31), bigDiff(x.index, y.index, 53),
             bigDiff(maxOf(x.sched.keys().map(d => x.sched.get(d)), 0), maxOf(y.sched.keys().map(d => y.sched.get(d)), 0), 31) }),
      e.vaults.keys().intersect(o.vaults.keys()).exists(v => bigDiff(e.vaults.get(v).amount, o.vaults.get(v).amount, 31)),
      e.toks.keys().intersect(o.toks.keys()).exists(v => bigDiff(e.toks.get(v).amount, o.toks.get(v).amount, 31))
    }, tag(k, "large figure", ""))

  // differences between the world the specification predicts and the observed one
  pure def worldTags(k: str, c: Cmd, e: World, o: World): Set[Tag] =
    Set(
      bigTags(k, e, o),
      when(e.now != o.now, tag(k, "clock", "")),
      when(e.rawPools != o.rawPools, tag(k, "raw pools", "")),
      when(e.mints != o.mints, tag(k, "mints", "")),
      when(e.husks != o.husks, tag(k, "closed accounts", "")),
      keysDiffer(k, e.pools.keys(), o.pools.keys(), "pools"),
      keysDiffer(k, e.minings.keys(), o.minings.keys(), "minings"),
      keysDiffer(k, e.vaults.keys(), o.vaults.keys(), "vaults"),
      keysDiffer(k, e.toks.keys(), o.toks.keys(), "token accounts"),
      when(funded(e.wallets) != funded(o.wallets) or funded(e.parked) != funded(o.parked), tag(k, "lamports", "wallet")),
      e.pools.keys().intersect(o.pools.keys()).map(p => poolTags(k, named(c, APool(p)), e.pools.get(p), o.pools.get(p))).flatten(),
      e.minings.keys().intersect(o.minings.keys()).map(m =>
        miningTags(k, if (m == subject(c)) "self" else if (named(c, AMining(m))) "delegate" else "other", e.minings.get(m), o.minings.get(m))).flatten(),
      e.vaults.keys().intersect(o.vaults.keys()).map(v => tokTags(k, true, named(c, AVault(v)), e.vaults.get(v), o.vaults.get(v))).flatten(),
      e.toks.keys().intersect(o.toks.keys()).map(t => tokTags(k, false, named(c, ATok(t)), e.toks.get(t), o.toks.get(t))).flatten()
    ).flatten()

  // So close to the largest number that adding first and subtracting afterwards,
  // or the other way round, decides whether a figure fits on the way.
  pure def tight(w: World, c: Cmd): bool =
    val ts = match c { | Tx(t) => [{ ix: t.ix, metas: t.metas }] | Bundle(b) => b.ixs | _ => [] }
    val totals = maxOf(w.pools.keys().map(p => w.pools.get(p).total), 0)
    ts.select(t => match t.ix {
      | ChangeDelegate(x) => totals + x.amount > U64
      | DepositMining(x) => totals + x.amount * (getOr(MULT, x.lockup, 1) + 1) > U64
      | ExtendStake(x) => totals + (x.base + x.add) * getOr(MULT, x.newLockup, 1) + x.add > U64
      | _ => false
    }).length() > 0

  // The authority's mistakes have left a pool with a total below what is about
  // to be taken off it: adding to it first hides that.
  pure def short(w: World, c: Cmd): bool =
    val need = match c {
      | Tx(t) => match t.ix { | ChangeDelegate(x) => x.amount | DepositMining(_) => 0 | _ => -1 }
      | _ => -1
    }
    need >= 0 and w.pools.keys().exists(p =>
      val q = w.pools.get(p)
      val due = q.sched.keys().filter(d => d <= dayStart(w.now))
      named(c, APool(p)) and q.total < maxOf(Set(need, sumOver(due, d => q.sched.get(d))), 0))

  // Refusals of the wrong accounts.  Only then may the program abort instead of
  // returning an error: what it was given is no account it could read.
  pure val MISADDRESSED = Set("NotOurs", "WrongMining", "WrongPool", "WrongDelegate", "NotAPool", "NotAToken", "WrongVault", "WrongMint",
    "WrongProgram", "WrongDestination", "SameDelegate", "NotEnoughAccounts", "ReadOnly", "MissingSigner", "WrongAuthority", "AddressInUse", "CannotPay", "WrongLength")

  // One observed step from world w against the specification.
  pure def stepTags(w: World, b: Obs): Set[Tag] =
    val x = exec(w, b.c)
    kinds(b.c).map(k => stepTagsAs(k, w, b, x)).flatten()

  // The tables of an account named in the command are nearly full.
  pure def crowded(w: World, c: Cmd): bool = or {
    w.pools.keys().exists(p => named(c, APool(p)) and (w.pools.get(p).sched.keys().size() > CAP_P / 2 or w.pools.get(p).cum.keys().size() > CAP_H / 2)),
    w.minings.keys().exists(m => named(c, AMining(m)) and w.minings.get(m).sched.keys().size() > CAP_M / 2)
  }

  pure def stepTagsAs(k: str, w: World, b: Obs, x: Out): Set[Tag] =
    if (b.broken) tag(k, "broken", "")
    else if (b.panic and not(MISADDRESSED.contains(x.why))) tag(k, "panics", x.why)
    else if (x.ok and not(b.ok)) when(not(tight(w, b.c)), tag(k, "refused", if (crowded(w, b.c)) "crowded" else if (b.wf) "wf" else if (b.honest) "honest" else ""))
    else if (not(x.ok) and b.ok) when(not(x.why == "Overflow" and short(w, b.c)), tag(k, "accepted", x.why))
    else if (not(x.ok)) Set()
    else Set(when(x.ret != b.ret, tag(k, "return value", if (bigDiff(x.ret, b.ret, 31)) "large" else "")), worldTags(k, b.c, x.w, b.w)).flatten()

  pure def claimedBy(c: Cmd, m: (str, str)): bool = match c {
    | Bundle(b) => b.ixs.select(t => t.ix == Claim and t.metas.length() > 3 and t.metas[3].a == AMining(m)).length() > 0
    | _ => m == subject(c) and kind(c) == "Claim"
  }
  // What everybody is owed, before and after: only one's own claim (or closing
  // one's account) may bring it down.
  pure def owedTags(w: World, b: Obs): Set[Tag] =
    val dropped = w.minings.keys().intersect(b.w.minings.keys()).filter(m =>
      and { has(w.pools, m._1), has(b.w.pools, m._1),
            not(claimedBy(b.c, m) and b.ok),
            settle(w.minings.get(m), w.pools.get(m._1), w.now).ok,
            claimable(b.w, m) < claimable(w, m) })
    when(dropped != Set(), tag(kind(b.c), "owed shrank", ""))

  // The invariants on the observed world; those about its history only if the
  // history could be `followed`.
  pure def histTags(k: str, w: World, g: Ghost, clean: bool, followed: bool): Set[Tag] =
    val now = Set(
      when(not(iSolvent(w)), tag(k, "insolvent", "")),
      when(not(iIndex(w)), tag(k, "index history", "")),
      when(not(iBounds(w)), tag(k, "bounds", ""))).flatten()
    val known = followed and w.pools.keys().forall(p => has(g.p, p)) and w.minings.keys().forall(m => has(g.m, m))
    if (not(known)) now
    else now.union(Set(
      when(not(iVault(w, g)), tag(k, "vault leak", "")),
      when(not(iBooked(w, g)), tag(k, "books", "")),
      when(not(iEntitled(w, g)), tag(k, "entitlement", "")),
      when(clean and not(iWeights(w, g)), tag(k, "weights", "")),
      when(clean and not(iTotal(w, g)), tag(k, "total", ""))
    ).flatten())

  // ---------------------------------------------------------------- properties
  pure def own(k: str): Set[str] =
    if (k == "DepositMining") Set("C05")
    else if (k == "WithdrawMining") Set("C07")
    else if (k == "ExtendStake") Set("C06")
    else if (k == "ChangeDelegate") Set("C08")
    else if (k == "Slash") Set("C09")
    else if (k == "DecreaseRewards") Set("C10")
    else if (k == "DistributeRewards" or k == "Daily") Set("C11")
    else if (k == "FillVault") Set("C12")
    else if (k == "Claim") Set("C13")
    else if (k == "CloseMining" or k == "Closing bundle") Set("C16")
    else if (k == "InitializePool" or k == "InitializeMining") Set("C17")
    else Set()

  pure def among(s: Set[str], t: str): bool = s.contains(t)

  pure def blame(t: Tag): Set[str] =
    val o = own(t.kind)
    val stray = if (t.more == "other") Set("C15") else Set()
    val deleg = if (t.more == "delegate") Set("C08") else Set()
    val gen = o.union(stray).union(deleg)
    if (t.what == "refused") o.union(if (t.more != "") Set("C18") else Set()).union(if (t.more == "crowded") Set("C21") else Set()).union(if (t.kind == "Daily") Set("C18", "C21") else Set())
    else if (t.what == "accepted")
      o.union(
        if (among(Set("MissingSigner", "WrongAuthority"), t.more)) Set("C14")
        else if (among(Set("NotOurs", "WrongMining", "WrongPool", "WrongDelegate", "NotAPool", "NotAToken", "WrongVault", "WrongMint",
                        "WrongProgram", "WrongDestination", "SameDelegate", "NotEnoughAccounts", "ReadOnly"), t.more)) Set("C14", "C15")
        else if (t.more == "Overflow") Set("C19")
        else if (t.more == "Insufficient") Set("C01", "C12")
        else if (t.more == "Capacity") Set("C21", "C04")
        else if (among(Set("AlreadyInitialized", "AddressInUse", "WrongLength", "CannotPay"), t.more)) Set("C17")
        else if (among(Set("Malformed"), t.more)) Set("C14")
        else if (among(Set("StakeFromOthers", "Unclaimed"), t.more)) Set("C16", "C04")
        else Set())
    else if (t.what == "panics") o.union(Set("C19")).union(if (t.more == "") Set("C18") else if (t.more == "Capacity") Set("C21") else if (t.more == "Malformed") Set("C14") else Set())
    else if (t.what == "broken") o.union(Set("C19", "C21"))
    else if (t.what == "return value") o.union(Set("C13")).union(if (t.more == "large") Set("C19") else Set())
    else if (t.what == "large figure") o.union(Set("C19"))
    else if (t.what == "pool roles") gen.union(Set("C14", "C17"))
    else if (t.what == "pool index") gen.union(Set("C02", "C11")).union(if (t.more == "up") Set("C01") else Set())
    else if (t.what == "pool history") gen.union(Set("C02", "C03", "C11"))
    else if (t.what == "pool total") gen.union(Set("C02", "C04"))
    else if (t.what == "pool expiries") gen.union(Set("C04", "C05"))
    else if (t.what == "pool end") gen.union(Set("C11", "C12"))
    else if (t.what == "pool left") gen.union(Set("C11", "C12")).union(if (t.more == "up") Set("C01") else Set())
    else if (t.what == "mining index") gen.union(Set("C02", "C03"))
    else if (t.what == "mining share") gen.union(Set("C02", "C04"))
    else if (t.what == "mining owed up") gen.union(Set("C01", "C02", "C03"))
    else if (t.what == "mining owed down") gen.union(Set("C02", "C03", "C22"))
    else if (t.what == "mining delegated") gen.union(Set("C04", "C08"))
    else if (t.what == "mining expiries") gen.union(Set("C04", "C05"))
    else if (t.what == "lamports") gen.union(Set("C16", "C17"))
    else if (t.what == "vault balance") gen.union(Set("C01", "C12"))
    else if (t.what == "token balance") gen.union(Set("C12", "C13"))
    else if (t.what == "token roles") gen.union(Set("C17", "C14"))
    else if (t.what == "closed accounts") gen.union(Set("C16"))
    else if (among(Set("raw pools", "mints", "pools", "minings", "vaults", "token accounts"), t.what)) gen.union(Set("C17"))
    else if (t.what == "owed shrank") Set("C22", "C02")
    else if (t.what == "insolvent") Set("C01").union(o)
    else if (t.what == "vault leak") Set("C01").union(o)
    else if (t.what == "books") Set("C11", "C12")
    else if (t.what == "entitlement") Set("C02", "C03").union(o)
    else if (t.what == "weights") Set("C05", "C02").union(o)
    else if (t.what == "total") Set("C04").union(o)
    else if (t.what == "index history") Set("C11")
    else if (t.what == "bounds") Set("C19")
    else o
}
