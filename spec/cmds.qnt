// The instructions as their callers are meant to build them: account order,
// signers, writable accounts.  (C20 compares the repository's clients with these.)
module cmds {
  import types.* from "./types"

  pure def rw(a: Acct): Meta = { a: a, s: false, w: true }
  pure def ro(a: Acct): Meta = { a: a, s: false, w: false }
  pure def sg(n: str): Meta = { a: AWallet(n), s: true, w: false }
  pure def sgw(n: str): Meta = { a: AWallet(n), s: true, w: true }

  // the account in the delegate slot: the participant's own mining = no delegate
  pure def dslot(p: str, o: str, d: str): Acct = AMining((p, if (d == "") o else d))
  pure def dname(o: str, d: str): str = if (d == "") o else d

  pure def cInitPool(p: str, mint: str, payer: str, auth: str, fill: str, dist: str): Cmd =
    Tx({ ix: InitializePool({ fillAuth: fill, distAuth: dist }),
         metas: [rw(APool(p)), ro(AMint(mint)), rw(AVault((p, mint))), sgw(payer), sg(auth),
                 ro(AProg("rent")), ro(AProg("token")), ro(AProg("system"))] })
  pure def cFill(p: str, mint: str, fill: str, src: Acct, n: int, endsAt: int): Cmd =
    Tx({ ix: FillVault({ rewards: n, endsAt: endsAt }),
         metas: [rw(APool(p)), ro(AMint(mint)), rw(AVault((p, mint))), sg(fill), rw(src), ro(AProg("token"))] })
  pure def cInitMining(p: str, o: str, payer: str): Cmd =
    Tx({ ix: InitializeMining({ owner: o }),
         metas: [rw(APool(p)), rw(AMining((p, o))), sgw(payer), ro(AProg("system"))] })
  pure def stakeMetas(p: str, o: str, auth: str, d: str): List[Meta] =
    [rw(APool(p)), rw(AMining((p, o))), sg(auth), rw(dslot(p, o, d))]
  pure def cDeposit(p: str, o: str, auth: str, n: int, lockup: str, d: str): Cmd =
    Tx({ ix: DepositMining({ amount: n, lockup: lockup, owner: o, delegate: dname(o, d) }), metas: stakeMetas(p, o, auth, d) })
  pure def cWithdraw(p: str, o: str, auth: str, n: int, d: str): Cmd =
    Tx({ ix: WithdrawMining({ amount: n, owner: o, delegate: dname(o, d) }), metas: stakeMetas(p, o, auth, d) })
  pure def cExtend(p: str, o: str, auth: str, old: str, new: str, start: int, base: int, add: int, d: str): Cmd =
    Tx({ ix: ExtendStake({ oldLockup: old, newLockup: new, startTs: start, base: base, add: add,
                           owner: o, delegate: dname(o, d) }), metas: stakeMetas(p, o, auth, d) })
  pure def cClaim(p: str, mint: str, o: str, auth: str, dest: Acct): Cmd =
    Tx({ ix: Claim, metas: [ro(APool(p)), ro(AMint(mint)), rw(AVault((p, mint))), rw(AMining((p, o))),
                            sg(o), sg(auth), rw(dest), ro(AProg("token"))] })
  pure def cDistribute(p: str, dist: str): Cmd =
    Tx({ ix: DistributeRewards, metas: [rw(APool(p)), sg(dist)] })
  pure def cClose(p: str, o: str, auth: str, target: Acct): Cmd =
    Tx({ ix: CloseMining, metas: [rw(AMining((p, o))), sg(o), rw(target), sg(auth), ro(APool(p))] })
  pure def cChangeDelegate(p: str, o: str, auth: str, old: str, new: str, n: int): Cmd =
    Tx({ ix: ChangeDelegate({ amount: n, newDelegate: dname(o, new) }),
         metas: [rw(APool(p)), rw(AMining((p, o))), sg(auth), sg(o), rw(dslot(p, o, old)), rw(dslot(p, o, new))] })
  pure def penMetas(p: str, o: str, auth: str): List[Meta] = [sg(auth), rw(APool(p)), rw(AMining((p, o)))]
  pure def cSlash(p: str, o: str, auth: str, native: int, mult: int, hasExp: bool, exp: int): Cmd =
    Tx({ ix: Slash({ owner: o, native: native, mult: mult, hasExp: hasExp, exp: exp }), metas: penMetas(p, o, auth) })
  pure def cDecrease(p: str, o: str, auth: str, n: int): Cmd =
    Tx({ ix: DecreaseRewards({ owner: o, n: n }), metas: penMetas(p, o, auth) })

  // the kind of an instruction
  pure def kind(c: Cmd): str = match c {
    | Tx(t) => match t.ix {
        | InitializePool(_)   => "InitializePool"
        | FillVault(_)        => "FillVault"
        | InitializeMining(_) => "InitializeMining"
        | DepositMining(_)    => "DepositMining"
        | WithdrawMining(_)   => "WithdrawMining"
        | Claim               => "Claim"
        | ExtendStake(_)      => "ExtendStake"
        | DistributeRewards   => "DistributeRewards"
        | CloseMining         => "CloseMining"
        | ChangeDelegate(_)   => "ChangeDelegate"
        | Slash(_)            => "Slash"
        | DecreaseRewards(_)  => "DecreaseRewards"
      }
    | Garbled(_) => "Garbled"
    | Daily(_)  => "Daily"
    | Bundle(b) => if (b.ixs.select(t => t.ix == CloseMining).length() > 0) "Closing bundle" else "Bundle"
    | Tick(_)   => "Tick"
    | Fund(_)   => "Fund"
    | Donate(_) => "Donate"
    | Nop       => "Nop"
  }

  pure def daily(n: int, c: Cmd): Cmd = match c { | Tx(t) => Daily({ n: n, ix: t.ix, metas: t.metas }) | _ => c }
  pure def garble(c: Cmd, how: int): Cmd = match c { | Tx(t) => Garbled({ ix: t.ix, metas: t.metas, how: how }) | _ => c }

  // both in one transaction, and a gift
  pure def bundled(c1: Cmd, c2: Cmd, dest: Acct, gift: int): Cmd = match c1 {
    | Tx(t1) => match c2 {
        | Tx(t2) => Bundle({ ixs: [t1, t2], dest: dest, gift: gift })
        | _ => Bundle({ ixs: [t1], dest: dest, gift: gift })
      }
    | _ => c1
  }

  // ------------------------------------------------------- adversarial changes
  pure def tamper(c: Cmd, f: (List[Meta]) => List[Meta]): Cmd = match c {
    | Tx(t) => Tx({ ...t, metas: f(t.metas) })
    | _     => c
  }
  pure def nMetas(c: Cmd): int = match c { | Tx(t) => t.metas.length() | _ => 0 }
  pure def unsign(c: Cmd, i: int): Cmd = tamper(c, l => if (i < l.length()) l.replaceAt(i, { ...l[i], s: false }) else l)
  pure def unwrite(c: Cmd, i: int): Cmd = tamper(c, l => if (i < l.length()) l.replaceAt(i, { ...l[i], w: false }) else l)
  pure def swapAcct(c: Cmd, i: int, a: Acct): Cmd = tamper(c, l => if (i < l.length()) l.replaceAt(i, { ...l[i], a: a }) else l)
  // replaced by somebody who does sign
  pure def swapSigner(c: Cmd, i: int, n: str): Cmd = tamper(c, l => if (i < l.length()) l.replaceAt(i, { a: AWallet(n), s: true, w: l[i].w }) else l)
  pure def shorten(c: Cmd, n: int): Cmd = tamper(c, l => if (n < l.length()) l.slice(0, n) else l)
  pure def exchange(c: Cmd, i: int, j: int): Cmd = tamper(c, l =>
    if (i < l.length() and j < l.length()) l.replaceAt(i, { ...l[i], a: l[j].a }).replaceAt(j, { ...l[j], a: l[i].a }) else l)
  pure def extra(c: Cmd, m: Meta): Cmd = tamper(c, l => l.append(m))
  // the same with other arguments
  pure def retarget(c: Cmd, who: str): Cmd = match c {
    | Tx(t) => match t.ix {
        | InitializeMining(x) => Tx({ ...t, ix: InitializeMining({ owner: who }) })
        | DepositMining(x)    => Tx({ ...t, ix: DepositMining({ ...x, owner: who }) })
        | WithdrawMining(x)   => Tx({ ...t, ix: WithdrawMining({ ...x, owner: who }) })
        | ExtendStake(x)      => Tx({ ...t, ix: ExtendStake({ ...x, owner: who }) })
        | Slash(x)            => Tx({ ...t, ix: Slash({ ...x, owner: who }) })
        | DecreaseRewards(x)  => Tx({ ...t, ix: DecreaseRewards({ ...x, owner: who }) })
        | ChangeDelegate(x)   => Tx({ ...t, ix: ChangeDelegate({ ...x, newDelegate: who }) })
        | _ => c
      }
    | _ => c
  }
  pure def redelegate(c: Cmd, who: str): Cmd = match c {
    | Tx(t) => match t.ix {
        | DepositMining(x)    => Tx({ ...t, ix: DepositMining({ ...x, delegate: who }) })
        | WithdrawMining(x)   => Tx({ ...t, ix: WithdrawMining({ ...x, delegate: who }) })
        | ExtendStake(x)      => Tx({ ...t, ix: ExtendStake({ ...x, delegate: who }) })
        | ChangeDelegate(x)   => Tx({ ...t, ix: ChangeDelegate({ ...x, newDelegate: who }) })
        | _ => c
      }
    | _ => c
  }
}
