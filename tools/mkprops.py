"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = 'programs/rewards/src/'
I = P + 'instructions/'
MI, RP, UT, IX, AS = P + 'state/mining.rs', P + 'state/reward_pool.rs', P + 'utils.rs', P + 'instruction.rs', P + 'asserts.rs'
ST = {
 'index': {'name': 'reward index of the pool', 'meaning': 'reward per unit of weight distributed so far, scaled by 1e16', 'where': RP + ' PoolHeader.index'},
 'cum': {'name': 'index history', 'meaning': 'day of distribution -> index after it', 'where': RP + ' cumulative_index'},
 'total': {'name': 'pool weight', 'meaning': 'sum of the weights of all participants', 'where': RP + ' PoolHeader.total_share'},
 'psched': {'name': 'pool expiries', 'meaning': 'date -> weight that vanishes from the pool then', 'where': RP + ' weighted_stake_diffs'},
 'share': {'name': 'own weight', 'meaning': "a participant's own weight", 'where': MI + ' Mining.share'},
 'others': {'name': 'delegated weight', 'meaning': 'stake delegated to a participant by others', 'where': MI + ' Mining.stake_from_others'},
 'msched': {'name': 'expiries', 'meaning': "date -> weight that vanishes from a participant's stake then", 'where': MI + ' weighted_stake_diffs'},
 'unclaimed': {'name': 'unclaimed rewards', 'meaning': 'rewards credited and not yet paid', 'where': MI + ' Mining.unclaimed_rewards'},
 'avail': {'name': 'tokens available', 'meaning': 'tokens filled and not yet distributed', 'where': RP + ' tokens_available_for_distribution'},
 'endsAt': {'name': 'end of distribution', 'meaning': 'date until which what is available is spread', 'where': RP + ' distribution_ends_at'},
 'vault': {'name': 'vault', 'meaning': 'token account of the pool for its reward mint', 'where': UT + ' find_vault_program_address'},
}
M = lambda n, w: {'name': n, 'where': w}
rows = []
def prop(id, title, statement, over, text, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    rows.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                 'anchors': {'files': files, 'state': [ST[s] for s in state], 'mechanism': mech, 'observe_at': observe, 'hook_needed': None}})
OBS = ['accounts and token balances after every transaction', 'result and return data of every transaction']

prop('C01', 'The vault always covers everything owed and everything still to distribute',
 'At every moment the reward vault of a pool holds at least the sum of what all its participants could claim right now plus what was filled and has not been distributed yet. Tokens enter the vault only by fills and leave it only as claims, each by exactly the amount announced. Hence no claim is ever refused for lack of tokens.',
 ['histories', 'inputs'], 'all histories of pools, participants, fills, distributions, stakes, penalties, delegations, claims and closings, with any amounts and dates',
 'the tests check a vault balance after a handful of scripted claims with round numbers; none sums what everybody is owed after an arbitrary history, where rounding, double settlement or an index that runs ahead only shows as an aggregate',
 [RP, MI, I + 'fill_vault.rs', I + 'claim.rs', I + 'distribute_rewards.rs'], ['vault', 'avail', 'index', 'unclaimed', 'total'],
 [M('distribution divides what is due by the current weight, rounding down', RP + ' distribute'), M('credit rounds down', MI + ' update_index'), M('token transfers', UT + ' spl_transfer')], OBS)
prop('C02', 'Every distribution is shared in proportion to the weights held at that moment',
 'A distribution credits each participant with its amount times the weight (own, boosted, plus delegated to it) held at the moment of the distribution, over the weight of the whole pool, up to rounding down. Nothing done later (deposits, withdrawals, extensions, delegations, penalties) changes what an earlier distribution credited, and nothing done earlier than joining earns anything. Equal histories earn equal rewards.',
 ['histories', 'inputs', 'schedules'], 'all histories, in particular all orders of stake changes, expiries, delegations and distributions, and all touch patterns of the participants',
 'the integration tests fix a few schedules with two or three users and equal stakes; settlement is lazy, so an error shows only for particular orders of touching and distributing (e.g. delegation between two distributions, an expiry on the day of a distribution)',
 [MI, RP, I + 'deposit_mining.rs', I + 'change_delegate.rs', I + 'extend_stake.rs', I + 'withdraw_mining.rs'], ['index', 'cum', 'share', 'others', 'msched', 'unclaimed', 'total'],
 [M('settle before weight changes', MI + ' refresh_rewards'), M('walk through expired boosts', MI + ' consume_old_modifiers'), M('index growth', RP + ' distribute')], OBS)
prop('C03', 'What a participant earns does not depend on when the account is touched',
 'However often and whenever a participant claims or is otherwise settled - every day, once at the end, before or after a boost runs out, in the second of a distribution or at midnight - the total paid plus claimable is the same up to rounding. Settling twice at the same moment changes nothing.',
 ['histories', 'schedules'], 'all interleavings of claims and other settlements with distributions, expiries and the passing of days, over hundreds of distributions',
 'tests claim at a few chosen days; the lazily evaluated result depends on the index history and the calendar, whose edge cases (midnight, several boosts ending between two touches, long absences) cannot be enumerated by scripted days',
 [MI, P + 'state/mod.rs', I + 'claim.rs'], ['cum', 'msched', 'unclaimed'],
 [M('index in force at a date', P + 'state/mod.rs find_max_value_limited_by_key'), M('settlement', MI + ' consume_old_modifiers / update_index')], OBS)
prop('C04', 'The weight of the pool is the sum of the weights of its participants',
 "After every transaction and at every later date, the pool's total weight, with boosts that have run out removed, equals the sum of all participants' own and delegated weights computed the same way, plus only the weight forfeited by penalties or left behind by closed accounts until it runs out. Every boost a participant has is therefore known to the pool with the same end date, and vice versa.",
 ['histories', 'inputs'], 'all histories and all dates at which the two sides are compared',
 'the two records are updated by different code and compared by no test except in single steps; a drift in one date entry appears months later',
 [RP, MI], ['total', 'psched', 'share', 'others', 'msched'],
 [M('both sides change together', RP + ' deposit / withdraw / extend / slash'), M('expiry', RP + ' consume_old_modifiers')], OBS)
prop('C05', 'A deposit weighs its lockup multiple until the lockup ends, then its amount',
 'Depositing an amount under a lockup adds amount times the multiplier of that lockup (flexible 1, three months 2, six months 4, one year 6) to the own weight at once; at the start of the day the lockup ends (90, 180, 365 days after the start of the day of the deposit) it drops to the amount, neither a day earlier nor later. Deposits ending on the same date add up, and a deposit without lockup or with one that cannot be represented is refused.',
 ['inputs', 'histories'], 'all amounts, lockups, times of day, and combinations with earlier deposits ending on the same or other dates',
 'tests deposit at one start time with one or two lockups; multiplier, calendar and accumulation form a product space, and the drop happens months after the deposit',
 [RP, UT, MI, I + 'deposit_mining.rs'], ['share', 'msched', 'psched', 'total'],
 [M('multiplier and end date', UT + ' LockupPeriod'), M('boost recorded', RP + ' deposit'), M('boost removed', MI + ' consume_old_modifiers')], OBS)
prop('C06', 'Extending a stake equals ending it and depositing the new amount',
 'Extending a stake (new lockup, optionally more tokens) settles rewards, removes the old weight including the rest of a still running boost both from the participant and from the pool, and adds the new amount under the new lockup starting today. A stake whose lockup has already ended gives up just its amount. The delegate gains exactly the added amount.',
 ['inputs', 'histories'], 'all old and new lockups, start dates before, on and after the end, base and additional amounts, delegates, and stakes sharing dates',
 'the existing tests extend once per lockup pair at fixed moments and look at few fields; the old boost left in the pool was missed by them',
 [RP, I + 'extend_stake.rs'], ['share', 'msched', 'psched', 'total', 'others'],
 [M('extend', RP + ' extend')], OBS)
prop('C07', 'A withdrawal removes exactly the withdrawn weight, after settling rewards',
 "Withdrawing settles what was earned so far, then lowers the own weight and the pool's weight by exactly the amount, and the delegate's weight by the same amount, and nothing else. More than the weight there is cannot be withdrawn, and a withdrawal never costs rewards already earned.",
 ['inputs', 'histories'], 'all amounts, all moments relative to distributions and expiries, with and without delegate',
 'two tests withdraw once; whether earned rewards survive depends on what happened since the last settlement',
 [RP, I + 'withdraw_mining.rs'], ['share', 'total', 'others', 'unclaimed'], [M('withdraw', RP + ' withdraw')], OBS)
prop('C08', 'Delegation moves the bare amount between delegates, from now on only',
 'A stake delegated to someone adds its amount, unboosted, to that delegate\'s weight, and delegating to oneself adds nothing. Changing the delegate takes the amount from the old one and gives it to the new one, both settled first, so that neither gains or loses anything from earlier distributions. Only accounts of participants of the same pool can be named as delegates.',
 ['histories', 'inputs'], 'all networks of delegations, orders of changes and distributions, and named accounts',
 'the tests delegate to one account and change once; whether a delegate earns retroactively depends on distributions between its last settlement and the change',
 [RP, I + 'change_delegate.rs', UT, I + 'deposit_mining.rs', I + 'withdraw_mining.rs', I + 'extend_stake.rs'], ['others', 'total', 'unclaimed'],
 [M('change of delegate', RP + ' change_delegate'), M('delegate resolution', UT + ' get_delegate_mining / verify_delegate_mining_address')], OBS)
prop('C09', 'Slashing removes exactly the slashed weight and the matching boost',
 "Slashing settles rewards, then lowers own weight and pool weight by the weighted amount; for a locked stake the boost recorded for its end date falls, for the participant and for the pool, by weighted minus native amount, so that the weight left after that date is right. What was earned before stays, and nobody else's weight changes.",
 ['inputs', 'histories'], 'all native and weighted amounts, end dates (given or not, any time of day), several stakes on one date',
 'the tests slash at round numbers and one date each',
 [RP, I + 'penalties/slash.rs'], ['share', 'msched', 'psched', 'total'], [M('slash', RP + ' slash')], OBS)
prop('C10', 'A penalty takes the stated weight, latest boosts first, and no earned reward',
 'Decreasing rewards settles what was earned first, then lowers the own weight by the stated number, eating up the recorded boosts from the latest end date backwards, never below zero; a number above the own weight is refused. The forfeited share of later distributions goes to nobody else: the weight of the pool stays until those boosts run out.',
 ['inputs', 'histories'], 'all numbers relative to the boosts present, any set of end dates, any moment relative to distributions',
 'three unit tests call the function on one fixed account; they do not see the settlement before it nor what the pool does later',
 [MI, I + 'penalties/decrease_rewards.rs'], ['share', 'msched', 'unclaimed'], [M('penalty', MI + ' decrease_rewards')], OBS)
prop('C11', 'Each day hands out an equal part of what is left, once a day, until the end',
 'A distribution hands out what is available divided by the whole days left until the end (all of it when less than a day is left), rounded down, and divides it by the weight of the pool after removing boosts that have run out. At most one distribution per day has an effect; what was handed out plus what is available always equals what was filled, and a pool without weight distributes nothing. The recorded index never falls.',
 ['histories', 'schedules', 'inputs'], 'all sequences of fills, end dates, days with and without distribution, and times of day',
 'tests distribute daily from a fixed start; skipped days, repeated calls, refills with a new end and remainders combine without limit',
 [RP, I + 'distribute_rewards.rs'], ['avail', 'endsAt', 'index', 'cum', 'total'],
 [M('amount due', RP + ' rewards_to_distribute'), M('once a day', RP + ' distribute')], OBS)
prop('C12', 'A fill moves exactly its amount into the vault and never shortens the schedule',
 "Filling takes exactly the stated positive amount from the filler's token account into the pool's own vault, adds it to what is available for distribution and sets the end to the start of the given day. An end in the past or before the current one is refused, as is a fill that brings no tokens from outside the vault; a refused fill changes nothing.",
 ['inputs', 'histories', 'fault_sequences'], 'all amounts, dates, source and destination accounts, and balances',
 'tests fill with enough tokens from the expected account; the interesting inputs (the vault as its own source, another mint, dates on the edge) are not among them',
 [I + 'fill_vault.rs'], ['avail', 'endsAt', 'vault'], [M('fill', I + 'fill_vault.rs process_fill_vault')], OBS)
prop('C13', 'A claim pays the owner exactly what is owed, once, and reports it',
 "A claim settles the participant, pays everything credited from the pool's vault into a token account that belongs to the owner, resets what is owed to zero and returns the paid amount to the caller (zero when nothing is owed). A second claim at the same moment pays nothing, and a claim changes neither weights nor anybody else's account.",
 ['histories', 'inputs'], 'all histories before the claim and all accounts named in it',
 'tests claim after scripted histories and rarely twice, and do not look at the returned value or at other accounts',
 [I + 'claim.rs', MI], ['unclaimed', 'vault'], [M('claim', I + 'claim.rs'), M('reset', MI + ' claim')], OBS + ['return data'])
prop('C14', 'Only the proper authorities can act, and only on well-formed requests',
 "Stakes, delegations, penalties, claims and closings need the signature of the pool's deposit authority; claims, closings and changes of delegate also that of the participant; distributions and fills those of the authorities fixed for them at creation. Any other caller, missing signature, forged or foreign account, or damaged instruction data is refused and changes nothing.",
 ['inputs', 'fault_sequences'], 'all instructions with any account in any slot, any signer and writable flags, and truncated or damaged data',
 'the tests call every instruction with the right accounts; a dropped check on any of some sixty account slots is invisible to them',
 [UT, AS, I + 'mod.rs'] + [I + x for x in ('claim.rs', 'close_mining.rs', 'change_delegate.rs', 'fill_vault.rs', 'distribute_rewards.rs')], [],
 [M('account checks', UT + ' AccountLoader'), M('authority checks', AS), M('decoding', I + 'mod.rs process_instruction')], OBS)
prop('C15', 'Nobody is affected by transactions about someone else or about another pool',
 'A transaction changes only the pool it names, the participant it acts on, the delegates it names and the token accounts it moves tokens between; every other participant, pool, vault and balance stays exactly as it was. Accounts of one pool cannot be used with another, even under the same authorities.',
 ['histories', 'inputs', 'configurations'], 'all combinations of two pools (same or different authorities and mints) and several participants, and all substitutions of one account by another',
 'every test uses a single pool and looks at the accounts it touches',
 [UT, AS, I + 'close_mining.rs', I + 'change_delegate.rs', I + 'claim.rs', RP], [],
 [M('mining bound to pool and owner by its address', UT + ' find_mining_program_address'), M('pool of the mining compared', AS)], OBS)
prop('C16', 'An account closes only empty of claims and delegations, and its rent is refunded',
 'A mining account can be closed only by its owner together with the authority of its own pool, when after settling nothing is owed and nobody delegates to it; then it disappears and all its lamports go to the chosen recipient. In every other case it stays as it was.',
 ['histories', 'inputs'], 'all states of the account at closing, including rewards credited but never settled, delegations given and taken back, and reopening',
 'the tests close an account in three states',
 [I + 'close_mining.rs'], ['unclaimed', 'others'], [M('close', I + 'close_mining.rs')], OBS)
prop('C17', 'Pools and mining accounts are created once, empty, with the given roles',
 "Creating a pool stores the given authorities and mint, creates the vault at its fixed address owned by the pool, and starts with no weight, history or funds; creating a mining account makes it at its fixed address for the given owner and pool, empty, at the payer's expense. Neither can be done twice or on an account already in use, and failures leave nothing behind.",
 ['inputs', 'histories', 'fault_sequences'], 'all orders of creation, closing and re-creation, payers with too little, accounts of the wrong size or already used',
 'the tests create each account once with everything in place',
 [I + 'initialize_pool.rs', I + 'initialize_mining.rs', UT], ['vault'],
 [M('initialisation', RP + ' initialize'), M('account creation', UT + ' create_account / create_mining_address')], OBS)
prop('C18', 'Requests in good order are always accepted',
 'As long as a deployment is used as intended (stakes withdrawn, extended, delegated or slashed as they were made, daily distributions, fills with increasing end dates), every such request is accepted: nobody\'s stake or reward gets stuck because of an earlier legitimate action of anyone. In particular one can always claim, and withdraw a stake whose lockup has ended.',
 ['histories', 'inputs'], 'all histories made of well-formed requests only',
 'a refusal needs a history in which two records have drifted apart or overflow, and shows at a later, different operation',
 [RP, MI] + [I + x for x in ('claim.rs', 'withdraw_mining.rs', 'extend_stake.rs', 'distribute_rewards.rs')], ['share', 'total', 'msched', 'psched'],
 [M('checked arithmetic that must not fail on consistent records', UT + ' SafeArithmeticOperations')], OBS)
prop('C19', 'Amounts that do not fit are refused whole; nothing wraps, and nothing crashes',
 'With arguments of any size the program either performs the operation exactly or refuses it and changes nothing: no figure ever wraps around, is cut off or saturates, no field is partly updated, and the program neither panics nor hangs.',
 ['inputs', 'histories'], 'all argument values up to the largest representable, and all states reachable with them',
 'tests use small amounts; the boundaries of 64- and 128-bit figures lie in products of amounts, multipliers, weights and indices',
 [UT, RP, MI], ['share', 'others', 'total', 'index', 'unclaimed', 'avail'],
 [M('checked operations', UT + ' SafeArithmeticOperations')], OBS)
prop('C20', 'Builders, published interface and client libraries agree with the program',
 'For every instruction and all arguments, the builder functions of the program crate, the Rust and JavaScript clients and the published interface description produce the data and the account list (order, signer and writable flags) that the program understands as that very instruction with those arguments. What clients decode from accounts, and the error codes they know, are what the program wrote and returned.',
 ['inputs', 'programs'], 'all instructions, all argument values, all account layouts and error codes',
 'the generated clients have no test beyond one account creation, and the builders are only used by the tests with accounts that happen to be writable anyway',
 [IX, 'idls/mplx_rewards.json', 'clients/rust/src/generated/instructions/mod.rs', 'clients/js/src/generated/instructions/index.ts', P + 'error.rs'], [],
 [M('instruction set and its annotations', IX), M('error codes', P + 'error.rs'), M('generated code', 'clients/rust/src/generated')], ['serialized instructions', 'decoded accounts', 'error codes'])
prop('C21', 'What no longer fits into an account is refused, never silently lost',
 'When an account has no room for one more end date or one more day of distribution, the operation that needs it is refused and changes nothing; entries already recorded are never dropped or overwritten. Up to that limit (50 end dates per participant, 365 per pool, 1095 days of distribution) everything is accepted, and room taken by end dates that have passed is used again.',
 ['histories', 'inputs'], 'histories long enough to fill every table, and what is done at the brink',
 'filling a table takes dozens to more than a thousand transactions on different days; no test does it',
 [RP, MI, P + 'state/mod.rs'], ['msched', 'psched', 'cum'],
 [M('bounded tables', 'sokoban trees in ' + RP + ' and ' + MI)], OBS)
prop('C22', 'What a participant is owed never shrinks except by being paid out to them',
 "No transaction of anybody - deposit, withdrawal, extension, delegation, penalty, slashing, distribution, another participant's claim - and no passing of time lowers the amount a participant could claim. Only the participant's own claim does, by the amount paid.",
 ['histories', 'inputs'], 'all histories; compared before and after every single transaction for every participant',
 'tests check the final payout of scripted histories; a loss that is masked by later rewards, or hits a bystander, is not seen',
 [MI, RP, I + 'penalties/decrease_rewards.rs'], ['unclaimed', 'index', 'cum', 'msched'],
 [M('settlement before every change of weight', MI + ' refresh_rewards')], OBS)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in rows:
        assert r['statement'].count('. ') <= 2, (r['id'], r['statement'].count('. '))
        f.write(json.dumps(r) + '\n')
