// Types shared by every module of the mplx-rewards specification.
module types {

  // ---------------------------------------------------------------- addresses
  // The address space is symbolic.  Program derived addresses are injective
  // terms: AMining((p,o)) is "the mining address of owner o in pool p",
  // AVault((p,m)) is "the vault address of pool p for mint m".
  type Acct =
    | APool(str)             // reward pool account (a plain keypair address)
    | AMining((str, str))    // (pool, owner)
    | AVault((str, str))     // (pool, mint)
    | ATok(str)              // an ordinary SPL token account
    | AMint(str)             // an SPL mint
    | AWallet(str)           // a system account (may be unfunded); can sign
    | AProg(str)             // "system" | "token" | "rent" | "rewards"
    | AForeign((str, str))   // an account owned by an unrelated program whose bytes are a copy of
                             // ("pool", p) | ("mining of p", o) | ("tok", t): a forged look-alike

  type Meta = { a: Acct, s: bool, w: bool }

  // ------------------------------------------------------------ instructions
  type Ix =
    | InitializePool({ fillAuth: str, distAuth: str })
    | FillVault({ rewards: int, endsAt: int })
    | InitializeMining({ owner: str })
    | DepositMining({ amount: int, lockup: str, owner: str, delegate: str })
    | WithdrawMining({ amount: int, owner: str, delegate: str })
    | Claim
    | ExtendStake({ oldLockup: str, newLockup: str, startTs: int, base: int, add: int,
                    owner: str, delegate: str })
    | DistributeRewards
    | CloseMining
    | ChangeDelegate({ amount: int, newDelegate: str })
    | Slash({ owner: str, native: int, mult: int, hasExp: bool, exp: int })
    | DecreaseRewards({ owner: str, n: int })

  // A command is one transaction (mostly of one instruction of the program) or one
  // step of the environment.
  type Cmd =
    | Tx({ ix: Ix, metas: List[Meta] })
    | Garbled({ ix: Ix, metas: List[Meta], how: int })     // the transaction with its data damaged in one of the ways 0..5
    | Daily({ n: int, ix: Ix, metas: List[Meta] })         // n times: a day passes, then the transaction
    | Bundle({ ixs: List[{ ix: Ix, metas: List[Meta] }], dest: Acct, gift: int })
                                                 // one transaction of several instructions, the last of which sends
                                                 // `gift` lamports to `to`
    | Tick(int)                                  // the clock advances by n >= 0 seconds
    | Fund({ tok: str, amount: int })            // somebody mints reward tokens into a token account
    | Donate({ to: Acct, amount: int })          // somebody sends lamports to an address
    | Nop

  // ------------------------------------------------------------------- state
  type PoolSt = {
    depAuth: str, distAuth: str, fillAuth: str, mint: str,
    index: int,            // accumulated reward per unit of weight, scaled by PREC
    total: int,            // total weight
    endsAt: int, avail: int,
    sched: int -> int,     // date -> weight that vanishes at that date
    cum: int -> int        // day of distribution -> index after it
  }
  type MiningSt = {
    index: int,            // pool index up to which this mining is settled
    share: int,            // own weight
    unclaimed: int,
    others: int,           // weight delegated by others
    sched: int -> int,
    lamports: int
  }
  type TokenSt = { mint: str, owner: str, amount: int }
  type World = {
    now: int,
    rawPools: str -> int,             // zeroed, program-owned accounts that are no pool yet: name -> length
    pools: str -> PoolSt,
    minings: (str, str) -> MiningSt,
    vaults: (str, str) -> TokenSt,
    toks: str -> TokenSt,
    mints: Set[str],
    wallets: str -> int,              // lamports
    parked: Acct -> int,              // lamports sitting on program addresses that hold no account
    husks: (str, str) -> int          // closed mining accounts not gone yet: emptied, still the program's, with that many lamports
  }

  // Outcome of a command: `why` names the first reason for a rejection ("" if
  // accepted), `ret` is the value returned to the caller (-1: none).
  type Out = { ok: bool, why: str, ret: int, w: World }

  // ------------------------------------------------------- generic utilities
  pure def has(m: a -> b, k: a): bool = m.keys().contains(k)
  pure def getOr(m: a -> b, k: a, d: b): b = if (m.keys().contains(k)) m.get(k) else d
  pure def drop(m: a -> b, ks: Set[a]): a -> b = m.keys().exclude(ks).mapBy(k => m.get(k))
  pure def maxOf(s: Set[int], d: int): int = s.fold(d, (x, y) => if (x > y) x else y)
  pure def min2(x: int, y: int): int = if (x < y) x else y
  pure def max2(x: int, y: int): int = if (x > y) x else y
  pure def sumVals(m: a -> int): int = m.keys().fold(0, (x, k) => x + m.get(k))
  pure def sumOver(s: Set[a], f: (a) => int): int = s.fold(0, (x, k) => x + f(k))
  // ascending list of a finite set of integers
  pure def sorted(s: Set[int]): List[int] =
    s.fold([], (l, x) => l.select(y => y < x).append(x).concat(l.select(y => y > x)))
}
