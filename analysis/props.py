"""The properties, what each quantifies over, where it is anchored, and what decides it.

`python3 analysis/props.py` writes /verif/properties.jsonl and /verif/MANIFEST.json from this table."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ["lockup", "lockup-factory", "whitelist", "staking-pool", "staking-pool-factory", "multisig", "multisig2",
       "multisig-factory", "voting", "w-near"]
P = {}


def prop(pid, title, statement, crates, over, text, why, files, mech, state=(), floor=1, cross=None):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(id=pid, title=title, statement=statement, crates=crates, over=over, text=text, why=why, files=files,
                  mech=mech, state=list(state), floor=floor, cross=cross)


def st(name, meaning, where):
    return {"name": name, "meaning": meaning, "where": where}


LK = ["lockup/src/lib.rs", "lockup/src/owner.rs", "lockup/src/owner_callbacks.rs", "lockup/src/foundation.rs",
      "lockup/src/foundation_callbacks.rs", "lockup/src/getters.rs", "lockup/src/internal.rs", "lockup/src/types.rs"]
S_LOCK = st("lockup information", "amount locked, schedule, transfers poll", "lockup/src/types.rs")
S_STAKE = st("staking information", "selected pool, operation status, known deposit", "lockup/src/types.rs")
S_VEST = st("vesting information", "schedule, hash or termination record", "lockup/src/types.rs")

# ------------------------------------------------------------------------------------------------ lockup
prop("L01", "Lockup: owner methods only for the owner, foundation methods only for it",
     "Every method of a lockup contract that moves tokens, changes staking or requests keys takes effect only when called by the lockup's owner; every method that terminates vesting takes effect only when called by the foundation account fixed at creation. No other caller, in any contract state, can change the contract or make it act.",
     ["lockup"], ["inputs", "histories"], "every exported method, caller, argument and contract state",
     "Tests call a handful of methods from one wrong account each; the claim is over every exported method and every caller in every state, including methods added later.",
     LK, [("owner check at the start of owner methods", "lockup/src/internal.rs assert_owner"),
          ("foundation check", "lockup/src/internal.rs assert_called_by_foundation")], [S_LOCK, S_STAKE, S_VEST])
prop("L02", "Lockup: owner can transfer out at most the liquid unlocked balance",
     "The owner can transfer tokens out only while transfers are enabled, no vesting termination and no staking operation is in progress, to a valid account, and at most the smaller of the account's spendable balance (all but the storage reserve) and the owner's unlocked balance. The balance views report exactly those quantities.",
     ["lockup"], ["inputs", "histories"], "every amount, block time, balance, staking and vesting state",
     "Boundary amounts depend jointly on time, schedule, staked deposit and storage reserve; tests sample a few points of that product.",
     LK, [("guards of the owner transfer", "lockup/src/owner.rs transfer"),
          ("liquid balance computation", "lockup/src/getters.rs get_liquid_owners_balance")], [S_LOCK, S_STAKE])
prop("L03", "Lockup: locked amount follows lockup, release and vesting schedules",
     "At any time the locked amount is the initial amount less foundation withdrawals until transfers are enabled and the lockup (relative duration from transfers, or absolute timestamp, whichever is later) has passed; afterwards it is the larger of what linear release has not yet released (less foundation withdrawals) and what is not vested, where nothing vests before the cliff and everything has vested at the end.",
     ["lockup"], ["inputs", "histories"], "every block time, amount, schedule, release duration and termination state",
     "The tests evaluate the formula at a few timestamps of a few schedules; the claim is equality of the code's result with the documented formula for all of them.",
     LK, [("locked amount", "lockup/src/getters.rs get_locked_amount"), ("unvested amount", "lockup/src/getters.rs get_unvested_amount")],
     [S_LOCK, S_VEST])
prop("L04", "Lockup: full access key only once nothing is locked or in progress",
     "A full access key for a lockup account is created only at the owner's request, when transfers are enabled, no vesting termination is in progress, no staking pool operation is in flight, and the locked amount is zero. No other action ever adds a key.",
     ["lockup"], ["inputs", "histories"], "every state and time at which a key can be requested",
     "A single early key gives up every guarantee of the contract; tests try two states.",
     LK, [("guards of the key request", "lockup/src/owner.rs add_full_access_key")], [S_LOCK, S_STAKE, S_VEST])
prop("L05", "Lockup: at most one staking pool operation is in flight at a time",
     "An operation towards the staking pool starts only when a pool is selected and no other operation is in flight, and starting one marks it in flight in the same call that sends it. Transfers, pool changes, key requests and termination withdrawals likewise wait until nothing is in flight.",
     ["lockup"], ["schedules", "histories"], "every interleaving of owner and foundation calls with pending callbacks",
     "Interleavings of pending cross-contract calls are not expressible in the unit tests, which run one call at a time.",
     LK, [("idle check", "lockup/src/internal.rs assert_staking_pool_is_idle"), ("status update", "lockup/src/internal.rs set_staking_pool_status")],
     [S_STAKE])
prop("L06", "Lockup: every started pool operation ends idle, on success and on failure",
     "Every call sent to the staking pool is followed by a callback to the lockup itself, and that callback, whether the pool call succeeded or failed, returns the contract to the idle state or starts the next step with its own callback. A lockup therefore never stays busy.",
     ["lockup"], ["fault_sequences", "schedules"], "success and failure of every remote call in every operation",
     "Failure of the remote call is sampled for some callbacks only; the claim covers every callback and both outcomes.",
     LK, [("callbacks chained to every pool call", "lockup/src/owner.rs"), ("status reset in callbacks", "lockup/src/owner_callbacks.rs, lockup/src/foundation_callbacks.rs")],
     [S_STAKE])
prop("L07", "Lockup: known deposit tracks exactly what went to and came from the pool",
     "The deposit the lockup believes to hold in the pool grows by exactly the amount of a deposit when that deposit succeeds, shrinks (never below zero) by exactly the amount of a withdrawal when that withdrawal succeeds, is set to the pool's answer on a refresh, and otherwise never changes.",
     ["lockup"], ["fault_sequences", "histories"], "every amount and outcome of every pool operation",
     "Histories of deposits, rewards, failures and refreshes are unbounded; tests follow two.",
     LK, [("deposit accounting in callbacks", "lockup/src/owner_callbacks.rs"), ("termination withdrawal accounting", "lockup/src/foundation_callbacks.rs")],
     [S_STAKE])
prop("L08", "Lockup: funds are staked only with a whitelisted, selected pool",
     "A staking pool becomes selected only after the whitelist contract fixed at creation answered that it is whitelisted, only when none is selected, and stays selected until it is released with a zero known deposit and no operation in flight. Staking deposits, and all staking calls, go to the selected pool and to no other account, and deposits never exceed the account's spendable balance.",
     ["lockup"], ["inputs", "histories", "fault_sequences"], "every pool account, whitelist answer and history",
     "Tests whitelist one pool; the claim is that no path exists around the whitelist answer.",
     LK, [("selection", "lockup/src/owner.rs select_staking_pool"), ("whitelist answer", "lockup/src/owner_callbacks.rs on_whitelist_is_whitelisted")],
     [S_STAKE])
prop("L09", "Lockup: vesting termination moves only through its documented steps",
     "A termination starts only from a vesting state, advances through its statuses (deficit to unstake, unstaking, unstaked, withdrawing from the pool, ready, withdrawing) only in order and only on the outcome of the corresponding step, returns to the previous status when a step fails, and ends by removing the vesting when the unvested amount is withdrawn. While it is in progress the owner cannot transfer, change pools or obtain keys.",
     ["lockup"], ["histories", "fault_sequences", "schedules"], "every sequence of steps and outcomes",
     "The state machine has failure edges at each remote call; tests walk the success path.",
     LK, [("status changes", "lockup/src/foundation.rs, lockup/src/foundation_callbacks.rs"), ("owner guards", "lockup/src/internal.rs assert_no_termination")],
     [S_VEST])
prop("L10", "Lockup: foundation withdraws at most the unvested, liquid amount, once",
     "After a termination is ready the foundation receives at most the smaller of the remaining unvested amount and the account's spendable balance. When that transfer succeeds the withdrawn amount is recorded so that it reduces the locked amount and the remaining unvested amount by the same value, and when it fails nothing is recorded.",
     ["lockup"], ["inputs", "fault_sequences"], "every amount, balance and transfer outcome",
     "Partial withdrawals and failing transfers combine; tests cover one full withdrawal.",
     LK, [("withdrawal", "lockup/src/foundation.rs termination_withdraw"), ("accounting", "lockup/src/foundation_callbacks.rs on_withdraw_unvested_amount")],
     [S_VEST, S_LOCK])
prop("L11", "Lockup: transfers become enabled only by the poll, once and for good",
     "While transfers are disabled they become enabled only when the transfer poll fixed at creation answers with a timestamp, and with exactly that timestamp; once enabled the setting never changes again.",
     ["lockup"], ["inputs", "histories", "fault_sequences"], "every poll answer and later history",
     "The tests feed one answer; the claim is about every answer and every later call.",
     LK, [("poll query", "lockup/src/owner.rs check_transfers_vote"), ("poll answer", "lockup/src/owner_callbacks.rs on_get_result_from_transfer_poll")],
     [S_LOCK])
prop("L12", "Lockup: vesting is terminated only under the agreed schedule",
     "When the vesting schedule is private, termination requires a schedule and salt whose hash equals the hash fixed at creation, and the unvested amount is computed from that schedule at the time of termination; a public schedule is used as it is and needs no argument. A lockup without vesting, with nothing unvested, or already terminating cannot be terminated.",
     ["lockup"], ["inputs"], "every schedule, salt, hash and time",
     "Tests try one matching and a few non-matching arguments.",
     LK, [("hash comparison and amount", "lockup/src/foundation.rs terminate_vesting, lockup/src/internal.rs assert_vesting")], [S_VEST])
prop("L13", "Lockup: only a consistent lockup can be created",
     "A lockup is created at most once, with valid accounts for the owner, the whitelist and the transfers poll, a foundation account exactly when there is vesting, and an explicit vesting schedule whose start, cliff and end are in order with a positive duration. Its locked amount is the account balance at creation and every other creation argument is stored unchanged.",
     ["lockup"], ["inputs"], "every combination of creation arguments",
     "Argument combinations (optional schedule, hash, poll, foundation) are sampled by the tests.",
     LK, [("initialiser", "lockup/src/lib.rs new"), ("schedule validation", "lockup/src/types.rs assert_valid")], [S_LOCK, S_VEST])
prop("L15", "Lockup: queries report exactly the contract's state and derived amounts",
     "Every query of a lockup answers, in every state and at every time, exactly the quantity it is named after: owner, selected pool, known deposit, termination status and amounts, vesting information, locked, unvested, vested-but-locked, owner's, liquid and total balance, and whether transfers are enabled. None of them fails in a state in which the quantity is defined.",
     ["lockup"], ["inputs", "histories"], "every query, contract state, block time and balance",
     "Wallets and the foundation act on these answers; tests compare them in the few states they construct.",
     LK, [("queries", "lockup/src/getters.rs")], [S_LOCK, S_STAKE, S_VEST], floor=20)
prop("L16", "Lockup: a staking operation sends the pool exactly the request it stands for",
     "Each staking operation of the owner, and each step of a termination, calls the selected pool, and nobody else, with the method it stands for, with exactly the amount asked for (attached as the deposit when depositing, as an argument otherwise, or the balance the pool itself reported), and its callback is given the same amount.",
     ["lockup"], ["inputs", "fault_sequences"], "every operation, amount, pool and reported balance",
     "Unit tests look at local state after the call; what is sent to the pool is checked only in a few simulations.",
     LK, [("owner operations", "lockup/src/owner.rs"), ("second steps", "lockup/src/owner_callbacks.rs"),
          ("termination steps", "lockup/src/foundation.rs and foundation_callbacks.rs")], [S_STAKE], floor=20)

# ------------------------------------------------------------------------------------------------ staking pool
SP = ["staking-pool/src/lib.rs", "staking-pool/src/internal.rs"]
S_TOT = st("totals", "total staked balance, total shares, last total balance, last epoch", "staking-pool/src/lib.rs")
S_ACC = st("accounts", "per-account shares, unstaked balance and release epoch", "staking-pool/src/lib.rs")
prop("P01", "Staking pool: the price of a stake share never decreases",
     "No operation lowers the staked balance per share: staking issues shares rounded down for an amount charged rounded up to their price, unstaking burns shares rounded up for an amount, and rewards and fees only add balance at the current price. Every operation keeps the contract's guarantee fund, and stakes or unstakes only positive amounts.",
     ["staking-pool"], ["inputs", "histories"], "every amount, price and sequence of operations",
     "Rounding direction matters only for particular ratios; tests use round numbers and a few random walks.",
     SP, [("rounding of shares and amounts", "staking-pool/src/internal.rs *_from_*_rounded_*"), ("staking and unstaking", "staking-pool/src/internal.rs internal_stake, inner_unstake")], [S_TOT])
prop("P02", "Staking pool: shares and balances are conserved across accounts and totals",
     "Every operation changes the caller's shares, staked total and unstaked balance by matching amounts: shares issued or burned for an account are added to or removed from the total shares, and balance moved between the staked total and the account's unstaked balance follows the share price, with rounding kept by the pool. No other account's record changes, except the owner's when it is paid the reward fee.",
     ["staking-pool"], ["inputs", "histories"], "every amount, account and state",
     "Conservation must hold for each field of each record in each operation; tests compare a few totals.",
     SP, [("bookkeeping", "staking-pool/src/internal.rs")], [S_TOT, S_ACC])
prop("P03", "Staking pool: withdrawals need released, sufficient, own unstaked balance",
     "A withdrawal pays exactly the requested positive amount to the caller, only from the caller's unstaked balance, only if that balance suffices and its release epoch has been reached, and debits exactly that amount. No other method of the pool pays tokens out to anyone.",
     ["staking-pool"], ["inputs", "histories"], "every amount, caller, epoch and state",
     "Epoch and amount boundaries combine with every history; tests cover a few.",
     SP, [("withdrawal guards", "staking-pool/src/internal.rs internal_withdraw")], [S_ACC])
prop("P04", "Staking pool: unstaked funds are released only four epochs later",
     "Whenever an account unstakes, its whole unstaked balance becomes available exactly four epochs after the current one, and no other operation changes the release epoch.",
     ["staking-pool"], ["inputs", "histories"], "every epoch and sequence of stake and unstake operations",
     "Tests step epochs by hand in one scenario.",
     SP, [("release epoch", "staking-pool/src/internal.rs inner_unstake")], [S_ACC])
prop("P05", "Staking pool: accounts act on themselves only; settings only by the owner",
     "An ordinary caller's operation affects only the caller's own account record. The staking key, reward fee, pausing and resuming, and votes with the pool's stake can be changed or cast only by the owner fixed at creation.",
     ["staking-pool"], ["inputs"], "every exported method and caller",
     "The tests exercise owner methods mostly as the owner.",
     SP, [("owner check", "staking-pool/src/internal.rs assert_owner"), ("caller's account", "staking-pool/src/internal.rs internal_get_account")], [S_ACC])
prop("P06", "Staking pool: rewards are distributed once per epoch, at the configured fee",
     "The first call in a new epoch, and no other, distributes as reward exactly the growth of the contract's total balance since it was last recorded, not counting the deposit attached to that call; the owner receives newly issued shares for the configured fraction of it and the remainder raises the value of all shares. Every state-changing method distributes before it acts.",
     ["staking-pool"], ["inputs", "histories", "schedules"], "every epoch change, balance and order of calls",
     "Which call is first in an epoch, and with which deposit, is a schedule; tests fix it.",
     SP, [("reward distribution", "staking-pool/src/internal.rs internal_ping")], [S_TOT])
prop("P07", "Staking pool: the pool restakes its whole stake, and nothing while paused",
     "Whenever the staked total or staking key may have changed, the contract requests a validator stake equal to the whole staked total under the configured key, chained to its failure handler. While staking is paused it requests none, and only pausing (which unstakes everything) and resuming change that; each is refused when already in effect.",
     ["staking-pool"], ["inputs", "histories"], "every operation and pause state",
     "Tests cannot observe emitted stake actions in the simulator's unit mode for all operations.",
     SP, [("restaking", "staking-pool/src/internal.rs internal_restake"), ("pausing", "staking-pool/src/lib.rs pause_staking, resume_staking")], [S_TOT])
prop("P08", "Staking pool: a failed stake action unstakes, and nothing else does so",
     "The handler of a stake action can be called only by the contract itself; when the action failed and some balance is still locked it requests a zero stake with the configured key, and otherwise it changes nothing.",
     ["staking-pool"], ["fault_sequences"], "both outcomes of every stake action",
     "The failing outcome is never exercised by the unit tests.",
     SP, [("failure handler", "staking-pool/src/lib.rs on_stake_action")], [S_TOT])
prop("P09", "Staking pool: deposits are credited exactly and never mistaken for rewards",
     "A deposit credits exactly the attached amount to the caller's unstaked balance (and, when staking with it, stakes exactly that amount), and the recorded total balance moves by exactly the amounts deposited and withdrawn, so that no deposit or withdrawal ever appears as reward or loss.",
     ["staking-pool"], ["inputs", "histories"], "every deposit, withdrawal and order of calls",
     "An accounting drift shows only over later epochs.",
     SP, [("deposit", "staking-pool/src/internal.rs internal_deposit"), ("withdrawal", "staking-pool/src/internal.rs internal_withdraw")], [S_TOT])
prop("P10", "Staking pool: creation and fee changes keep a valid configuration",
     "A pool is created once, with a valid owner, a reward fee of at most one with a non-zero denominator, and a balance covering its guarantee fund; it then stakes everything but that fund, with shares issued one for one. Every later reward fee is also at most one with a non-zero denominator.",
     ["staking-pool", "staking-pool-factory"], ["inputs"], "every creation argument and balance",
     "Fraction boundaries and small balances are not covered.",
     SP + ["staking-pool-factory/src/lib.rs"], [("initialiser", "staking-pool/src/lib.rs new"), ("fraction validation", "staking-pool/src/lib.rs assert_valid")], [S_TOT])
prop("P11", "Staking pool: views report exactly the bookkeeping",
     "Each query returns exactly the stored quantity it names: staked balances are the account's shares at the current price rounded down, totals are staked plus unstaked, availability is whether the release epoch has been reached, and paged account lists show each account in the requested range with those same values.",
     ["staking-pool"], ["inputs"], "every account and state",
     "Views are compared in tests for single values.",
     SP, [("views", "staking-pool/src/lib.rs")], [S_ACC, S_TOT])

# ------------------------------------------------------------------------------------------------ whitelist
WL = ["whitelist/src/lib.rs"]
S_WL = st("whitelists", "whitelisted pools and factories", "whitelist/src/lib.rs")
prop("W01", "Whitelist: only the foundation, or a whitelisted factory, changes it",
     "Pools are added only by the foundation account or by an account that is whitelisted as a factory at that moment; pools are removed, and factories added or removed, only by the foundation account, which is fixed at creation and valid.",
     ["whitelist"], ["inputs", "histories"], "every method, caller and whitelist content",
     "Tests try one foreign caller; the claim is over every caller and whitelist history.",
     WL, [("authorisation", "whitelist/src/lib.rs assert_called_by_foundation, add_staking_pool")], [S_WL])
prop("W02", "Whitelist: queries agree with the additions and removals made",
     "An account is reported as whitelisted (as pool, or as factory) exactly when its last change on that list was an addition, each change affects only the named account on the named list, and the change reports whether it had an effect. Only valid account ids are accepted.",
     ["whitelist"], ["inputs", "histories"], "every account and sequence of changes",
     "Sequences over several accounts and both lists are sampled.",
     WL, [("sets", "whitelist/src/lib.rs")], [S_WL])

# ------------------------------------------------------------------------------------------------ factories
SPF = ["staking-pool-factory/src/lib.rs", "staking-pool-factory/src/utils.rs"]
LF = ["lockup-factory/src/lib.rs", "lockup-factory/src/utils.rs"]
S_POOLS = st("created pools", "pool accounts created or being created", "staking-pool-factory/src/lib.rs")
prop("F01", "Pool factory: creates a valid, unique pool with the caller's parameters",
     "A pool is created only with at least the minimum deposit, a name without a dot that yields a valid new sub-account, a valid owner, and a fee of at most one with a non-zero denominator, and only if that pool was not created before. The new account receives the whole deposit and the staking pool code, and is initialised with exactly the caller's owner, key and fee.",
     ["staking-pool-factory"], ["inputs", "histories"], "every name, owner, fee, deposit and creation history",
     "Names and fractions at the boundaries, and repeated creations, are sampled.",
     SPF, [("creation guards and promise", "staking-pool-factory/src/lib.rs create_staking_pool")], [S_POOLS])
prop("F02", "Pool factory: whitelists on success only; on failure refunds and forgets",
     "After a creation the factory's own callback, which nobody else can call, requests whitelisting of exactly that pool when creation succeeded; when it failed, it forgets the pool so it can be created again, returns the whole deposit to the caller, and whitelists nothing.",
     ["staking-pool-factory"], ["fault_sequences"], "both outcomes of every creation",
     "The failing outcome needs a simulated failure that the unit tests do not have.",
     SPF, [("creation callback", "staking-pool-factory/src/lib.rs on_staking_pool_create")], [S_POOLS])
prop("F03", "Lockup factory: creates the lockup the parameters describe, at its own address",
     "A lockup is created only with at least the minimum deposit, at an address that depends on nothing but the owner's account and the factory, with the whole deposit, the lockup code, transfers enabled since their historic start, the caller's lockup, release and vesting parameters, the given or default whitelist, and the foundation account exactly when there is vesting. The factory's settings are valid and never change.",
     ["lockup-factory"], ["inputs"], "every combination of parameters",
     "Optional parameters combine; tests sample several.",
     LF, [("creation", "lockup-factory/src/lib.rs create")])
prop("F04", "Lockup factory: a failed creation refunds the whole deposit to the caller",
     "After a creation the factory's own callback, which nobody else can call, returns the whole deposit to the caller exactly when the creation failed, and reports the outcome.",
     ["lockup-factory"], ["fault_sequences"], "both outcomes of every creation",
     "The failing outcome is not exercised end to end.",
     LF, [("creation callback", "lockup-factory/src/lib.rs on_lockup_create")])
prop("F05", "Multisig factory: forwards everything to the multisig, or refunds it",
     "Creating a multisig creates exactly the named sub-account with the multisig code and the whole deposit, initialised with exactly the given members and number of confirmations. When the creation fails, the caller gets the deposit back.",
     ["multisig-factory"], ["inputs", "fault_sequences"], "every argument and both outcomes",
     "There are no unit tests of this contract.",
     ["multisig-factory/src/lib.rs"], [("creation", "multisig-factory/src/lib.rs create")])
prop("F06", "Factories: queries report the settings and creations they are named after",
     "The pool factory reports the minimum deposit it really requires and the number of pools whose creation has not failed; the lockup factory reports the foundation account it passes on, its own account as the parent of all lockups, and the minimum deposit it really requires.",
     ["staking-pool-factory", "lockup-factory"], ["inputs", "histories"], "every query and creation history",
     "Users size their deposits by these answers; the tests compare one value each.",
     ["staking-pool-factory/src/lib.rs", "lockup-factory/src/lib.rs"], [("queries", "view methods of both factories")], floor=5)

# ------------------------------------------------------------------------------------------------ multisig
MS = ["multisig/src/lib.rs", "multisig2/src/lib.rs"]
S_REQ = st("requests and confirmations", "pending requests and who confirmed them", "multisig/src/lib.rs, multisig2/src/lib.rs")
MC = ["multisig", "multisig2"]
prop("M01", "Multisig: nothing executes with fewer than the required confirmations",
     "A request is executed by the very confirmation that brings the number of distinct members that confirmed it to at least the required number, and by no earlier one: before that a confirmation is only recorded.",
     MC, ["inputs", "histories"], "every request, member, order of confirmations and threshold",
     "Tests use thresholds of one to three and fixed orders.",
     MS, [("threshold", "multisig/src/lib.rs confirm, multisig2/src/lib.rs confirm")], [S_REQ])
prop("M02", "Multisig: only members act, and each confirms a request at most once",
     "Requests are added, confirmed and deleted only by members: a key of the multisig account, or (in the account-based version) a listed member key or account. Each member's confirmation of a request counts once, under the identity it acted with, and a new request starts unconfirmed.",
     MC, ["inputs", "histories"], "every caller, key and member set",
     "Identities (key through own account, foreign account) are sampled.",
     MS, [("authentication", "multisig/src/lib.rs assert_valid_request, multisig2/src/lib.rs current_member")], [S_REQ])
prop("M03", "Multisig: a request has a fresh id and executes at most once",
     "Each new request gets an id never used before and is stored unchanged. When it is executed or deleted, it and its confirmations are removed in the same call and before its actions are sent, so it can never execute again; operations on unknown ids are refused.",
     MC, ["histories", "schedules"], "every history of requests",
     "Replays after execution and deletion are sampled.",
     MS, [("removal before execution", "multisig/src/lib.rs confirm, remove_request")], [S_REQ])
prop("M04", "Multisig: exactly the confirmed actions execute, in order, on the receiver",
     "Executing a request sends to its receiver exactly its actions, in order, with their amounts, methods, arguments, deposits, gas, keys and permissions unchanged, and nothing else.",
     MC, ["inputs"], "every sequence of actions",
     "Tests execute single actions; the claim covers any sequence and every field.",
     MS, [("execution", "multisig/src/lib.rs execute_request, multisig2/src/lib.rs execute_request")], [S_REQ])
prop("M05", "Multisig: keys, members and settings change only by its own requests",
     "Keys and members are added or removed only by an executed request addressed to the multisig itself, and the number of confirmations or the request limit change only by such a request consisting of that single change; each then takes exactly the requested value.",
     MC, ["inputs", "histories"], "every request and receiver",
     "Foreign receivers and mixed action lists are barely covered.",
     MS, [("self-request and single-action checks", "multisig/src/lib.rs assert_self_request, assert_one_action_only")], [S_REQ])
prop("M06", "Multisig: members' open requests are limited and deletable after 15 minutes",
     "A member never has more open requests than the active limit; each request added counts and each one executed or deleted is given back to the member who added it. A request can be deleted only after fifteen minutes have passed since it was added.",
     MC, ["inputs", "histories"], "every history of requests of every member",
     "Counter drift appears only over long histories.",
     MS, [("request counter", "multisig/src/lib.rs add_request, remove_request"), ("cooldown", "multisig/src/lib.rs delete_request")], [S_REQ])
prop("M07", "Multisig: a removed member leaves nothing behind",
     "When a key or member is removed, every open request it added disappears with its confirmations and its request count, and its confirmations of other open requests no longer count, while all other requests stay as they are.",
     MC, ["histories"], "every set of open requests and confirmations",
     "Tests remove a key with one open request of its own.",
     MS, [("removal", "multisig/src/lib.rs DeleteKey, multisig2/src/lib.rs delete_member")], [S_REQ])
prop("M08", "Multisig: there are always at least as many members as confirmations needed",
     "In the member-list multisig, creation, every change of the number of confirmations and every removal of a member leave at least as many distinct members as confirmations required; members that are keys get exactly a limited key for the multisig's own methods.",
     ["multisig2"], ["inputs", "histories"], "every member list and sequence of changes",
     "Duplicates in the list and raised thresholds are not covered.",
     ["multisig2/src/lib.rs"], [("member count checks", "multisig2/src/lib.rs new, delete_member, execute_request")], [S_REQ])
prop("M09", "Multisig: queries report exactly the pending requests, confirmations and members",
     "In both multisigs the stored request, the list of request ids, the confirmations of a request, the required number, the next request id and a member's number of open requests are reported exactly as stored, for every pending request and only for those; multisig2 also reports exactly its members.",
     ["multisig", "multisig2"], ["inputs", "histories"], "every query, id and history of requests",
     "Members decide what to confirm by these answers; tests query one or two requests.",
     ["multisig/src/lib.rs", "multisig2/src/lib.rs"], [("queries", "view methods of both contracts")], floor=12)

# ------------------------------------------------------------------------------------------------ voting
VT = ["voting/src/lib.rs"]
S_V = st("votes", "stake voted per validator, total, epoch and result", "voting/src/lib.rs")
prop("V01", "Voting: decided exactly when more than two thirds of stake voted, once",
     "The poll is decided by the first call after which the voted stake exceeds two thirds of the total validator stake, with that block's timestamp; it is never decided otherwise, and once decided neither result nor votes change and further votes are refused.",
     VT and ["voting"], ["inputs", "histories"], "every stake distribution and sequence of votes",
     "The threshold depends on changing stakes; tests use fixed ones.",
     VT, [("threshold", "voting/src/lib.rs check_result")], [S_V])
prop("V02", "Voting: each validator counts with its current stake, and the total agrees",
     "Only a validator with positive stake can vote; its vote counts its current stake, voting again replaces it, withdrawing it removes it, and the voted total is always the sum of the recorded votes. The views report exactly these records.",
     ["voting"], ["inputs", "histories"], "every validator, stake and sequence of votes",
     "Sequences of revoting and withdrawing across epochs are sampled.",
     VT, [("vote bookkeeping", "voting/src/lib.rs vote")], [S_V])
prop("V03", "Voting: all votes are refreshed to current stakes in each new epoch",
     "The first call in a new epoch re-reads the stake of every voter, drops those without stake, and recomputes the total before anything else is decided; within the same epoch nothing is re-read.",
     ["voting"], ["inputs", "histories"], "every set of voters and stake changes",
     "Stake changes between epochs are covered by one test.",
     VT, [("refresh", "voting/src/lib.rs ping")], [S_V])
prop("V05", "Voting: queries report exactly the recorded votes, totals and result",
     "The result query answers when the poll was decided, and nothing before that; the total query answers the recorded voted stake and the current stake of all validators; the votes query answers every recorded vote with its stake.",
     ["voting"], ["inputs", "histories"], "every query and voting history",
     "Lockup contracts enable transfers by this answer; tests query a few histories.",
     VT, [("queries", "voting/src/lib.rs get_result, get_total_voted_stake, get_votes")], floor=3)

# ------------------------------------------------------------------------------------------------ w-near
WN = ["w-near/src/lib.rs", "w-near/src/w_near.rs", "w-near/src/legacy_storage.rs"]
S_FT = st("token ledger", "fungible token balances and supply", "w-near/src/lib.rs")
prop("N01", "Wrapped NEAR: minted amount is the deposit less one storage registration",
     "A deposit mints to the caller exactly the attached amount, less the storage registration price if and only if the caller was not registered, in which case the caller is registered; a deposit that cannot cover this is refused.",
     ["w-near"], ["inputs", "histories"], "every deposit and registration state",
     "Deposits at the registration boundary are not tested.",
     WN, [("wrapping", "w-near/src/w_near.rs near_deposit")], [S_FT])
prop("N02", "Wrapped NEAR: unwrapping burns first and pays out exactly that amount",
     "Unwrapping requires exactly one attached yocto, burns exactly the requested amount from the caller, who must own it, and sends exactly that amount plus the attached yocto back to the caller.",
     ["w-near"], ["inputs"], "every amount and balance",
     "One amount is tested.",
     WN, [("unwrapping", "w-near/src/w_near.rs near_withdraw")], [S_FT])
prop("N03", "Wrapped NEAR: nothing else mints, burns or moves NEAR",
     "Apart from wrapping and unwrapping, every method passes the caller's arguments unchanged to the standard token or storage operation of the same name and returns its answer, and neither mints nor pays out NEAR on its own; the transfer resolution callback can be called only by the contract itself. The token's metadata and storage price are the documented ones.",
     ["w-near"], ["inputs", "histories"], "every exported method and argument",
     "Tests call a subset of the standard's methods.",
     WN, [("delegation to the standard implementation", "w-near/src/lib.rs")], [S_FT])
prop("N04", "Wrapped NEAR: queries report the token's bookkeeping and its constants",
     "Total supply, an account's balance and storage balance are reported as the token's bookkeeping holds them; the storage bounds and the minimum equal the registration price really charged; and the metadata describes a token with NEAR's 24 decimals, so amounts are shown at par.",
     ["w-near"], ["inputs", "histories"], "every query and account",
     "Wallets and exchanges rely on the answers; tests query two accounts.",
     ["w-near/src/lib.rs", "w-near/src/legacy_storage.rs"], [("queries", "w-near exported views")], floor=6)

# ------------------------------------------------------------------------------------------------ state manipulation
SM = ["state-manipulation/src/lib.rs", "state-manipulation/Cargo.toml"]
prop("S01", "State manipulation: writes or removes exactly the given keys",
     "Replacing writes exactly the given key and value pairs, each decoded from base64, and cleaning removes exactly the given keys, each decoded from base64; every entry is handled, in order, nothing else in storage is touched, and malformed input aborts the whole call.",
     ["state-manipulation"], ["inputs"], "every list of entries",
     "Only a sandbox integration test exists, which cannot run offline.",
     SM, [("entry loops", "state-manipulation/src/lib.rs replace, clean")])
prop("S02", "State manipulation: a build exports only the operations it was built for",
     "The clean-only build exports only cleaning, the replace-only build only replacing, and the default build both, and no build exports anything else.",
     ["state-manipulation"], ["configurations"], "every feature combination",
     "Tests build one configuration.",
     SM, [("feature gates", "state-manipulation/src/lib.rs")])

# ------------------------------------------------------------------------------------------------ cross-cutting
prop("X01", "Contracts agree on the interfaces through which they call each other",
     "Every call one of these contracts sends to another, or to itself as a callback, names a method the receiver exports, sends exactly the arguments that method decodes, in the same wire types, and every callback decodes the type that the preceding call returns.",
     ALL, ["programs", "inputs"], "every cross-contract call site and callback",
     "Each contract's tests mock the others; a disagreement shows only in deployment.",
     ["lockup/src/lib.rs", "lockup/src/owner.rs", "lockup/src/foundation.rs", "lockup-factory/src/lib.rs", "staking-pool/src/lib.rs",
      "staking-pool-factory/src/lib.rs", "whitelist/src/lib.rs", "voting/src/lib.rs", "multisig-factory/src/lib.rs", "multisig2/src/lib.rs"],
     [("interface declarations", "lockup/src/lib.rs ext_contract traits and their counterparts")], floor=20, cross="X01")
prop("X02", "Every call carries enough gas for what its receiver sends on",
     "The gas attached to every call and callback exceeds, by a safety margin, the gas that the receiving method itself attaches to its own calls in its most demanding execution, and no method attaches more in total than one transaction can carry.",
     ALL, ["programs"], "every cross-contract call site and every execution of its receiver",
     "Unit tests do not meter gas across contracts.",
     ["lockup/src/gas.rs", "lockup/src/owner.rs", "lockup/src/foundation.rs", "staking-pool/src/lib.rs", "staking-pool/src/internal.rs",
      "staking-pool-factory/src/lib.rs", "lockup-factory/src/lib.rs"], [("gas constants", "lockup/src/gas.rs and gas constants of the other contracts")],
     floor=20, cross="X02")
prop("X03", "Deposits are accepted only by payable methods; queries change nothing",
     "A deposit attached to a method that is not documented as payable makes the call fail, so no tokens are absorbed by accident, and every method documented as payable accepts one. Query methods never change state or make calls.",
     ALL, ["inputs", "programs"], "every exported method and deposit",
     "Tests attach deposits only where expected.",
     ["lockup/src", "staking-pool/src/lib.rs", "whitelist/src/lib.rs", "voting/src/lib.rs", "multisig/src/lib.rs", "multisig2/src/lib.rs", "w-near/src"],
     [("payable annotations", "all contracts' exported methods")], floor=200, cross="X03")
prop("X04", "Callbacks can be called only by the contract itself",
     "Every method that acts on the result of an earlier call, or finishes an operation the contract started, has effect only when called by the contract itself.",
     ["lockup", "lockup-factory", "staking-pool", "staking-pool-factory", "w-near"], ["inputs", "programs"],
     "every exported method and caller, including callbacks added later",
     "Tests call callbacks directly as the contract; foreign callers are tried for few.",
     ["lockup/src/owner_callbacks.rs", "lockup/src/foundation_callbacks.rs", "staking-pool/src/lib.rs", "staking-pool-factory/src/lib.rs",
      "lockup-factory/src/lib.rs"], [("private-call checks", "assert_self in each contract")], floor=20, cross="X04")
prop("X05", "A contract is initialised exactly once and does nothing before",
     "Only the initialiser creates a contract's state, and only while there is none, so existing state is never replaced; every other method requires existing state.",
     [c for c in ALL if c != "multisig-factory"], ["histories", "inputs"], "every exported method before and after initialisation",
     "Reinitialisation is tested for some contracts only.",
     ["lockup/src/lib.rs", "lockup-factory/src/lib.rs", "whitelist/src/lib.rs", "staking-pool/src/lib.rs", "staking-pool-factory/src/lib.rs",
      "multisig/src/lib.rs", "multisig2/src/lib.rs", "voting/src/lib.rs", "w-near/src/lib.rs"],
     [("initialisers", "new in each contract")], floor=200, cross="X05")
prop("X06", "Integer arithmetic aborts instead of wrapping or losing high bits",
     "In the released build of every contract an arithmetic overflow aborts the call, and no value that reaches contract state, a payment, a decision or an answer was narrowed or wrapped in a way that can lose its high bits.",
     ALL, ["inputs", "configurations"], "every arithmetic operation and conversion on every path",
     "Tests run the debug profile, where overflow checks are always on.",
     [c + "/Cargo.toml" for c in ALL], [("overflow checks", "release profile of each contract"), ("wide intermediate arithmetic", "lockup/src/getters.rs, staking-pool/src/internal.rs")],
     floor=200, cross="X06")
prop("X07", "Stored collections never share storage keys",
     "Within each contract every stored collection uses a constant key prefix fixed at creation, no prefix is a prefix of another or of the state's own key, so writing one collection never changes another or the state.",
     [c for c in ALL if c not in ("multisig-factory",)], ["programs", "histories"], "every pair of collections of every contract",
     "Collisions show only for particular keys.",
     ["whitelist/src/lib.rs", "staking-pool/src/lib.rs", "staking-pool-factory/src/lib.rs", "multisig/src/lib.rs", "multisig2/src/lib.rs",
      "w-near/src/lib.rs", "voting/src/lib.rs"], [("collection prefixes", "new in each contract")], floor=8, cross="X07")

prop("X09", "Records survive storage and the wire with every field intact",
     "Whatever a contract stores is read back equal: for each of its record types, decoding an encoded value gives the same variant with the same value in every field. In calls, arguments and answers every field and variant is written and read under its own name, a required field that is missing is refused rather than replaced by a default, and copies and comparisons of records take every field into account.",
     [c for c in ALL if c != "state-manipulation"], ["inputs", "histories"], "every record type, variant and field value",
     "Unit tests keep the contract in memory between calls, so what storing and reloading does to a field is never exercised.",
     ["lockup/src/types.rs", "lockup/src/lib.rs", "lockup-factory/src/types.rs", "staking-pool/src/lib.rs", "multisig/src/lib.rs",
      "multisig2/src/lib.rs", "voting/src/lib.rs", "whitelist/src/lib.rs", "w-near/src/lib.rs", "staking-pool-factory/src/lib.rs",
      "multisig-factory/src/lib.rs"],
     [("encodings", "Borsh and Serde implementations of each contract's types")], floor=200, cross="X09")
prop("X10", "An account does nothing but its contract's documented operations",
     "Each contract makes its account transfer tokens, pay along with a call, stake, create accounts, deploy code, or add or delete keys only in the operations documented to do that; and unless the caller pays for it himself, only for a caller that the contract's own state names. No other method, in any state, makes the account act, and none bypasses the SDK to change storage or schedule actions.",
     ALL, ["inputs", "programs", "histories"], "every exported method, including ones added later, every caller and state",
     "An account's keys and balance are all it has; tests check what the operations do, not that nothing else does it.",
     [c + "/src/lib.rs" for c in ALL] + ["lockup/src/owner.rs", "lockup/src/foundation.rs", "staking-pool/src/internal.rs"],
     [("promise call sites", "every Promise built in the contracts")], floor=130, cross="X10")
prop("X11", "Calls are refused only for the documented reasons",
     "A call that meets a method's documented conditions - right caller, permitted deposit, valid arguments, the balance, status and time the method asks for - is carried out and never aborted for another reason, apart from arithmetic overflow and the limits of the network. Funds, requests and operations in progress therefore never get stuck behind a spurious refusal.",
     ALL + ["state-manipulation"], ["inputs", "histories", "fault_sequences"], "every rejecting path of every documented operation, callback and query",
     "A test sees that a valid call succeeds in the states it constructs; a refusal in one more state shows only there.",
     [c + "/src/lib.rs" for c in ALL] + ["lockup/src/internal.rs", "lockup/src/owner_callbacks.rs", "staking-pool/src/internal.rs"],
     [("assertions, unwraps and panics", "every contract")], floor=300)

# ------------------------------------------------------------------------------------------------ not claimed
NA = {}


def na(pid, title, statement, crates, over, text, why, files, mech, reason):
    prop(pid, title, statement, crates, over, text, why, files, mech)
    NA[pid] = reason


na("P12", "Staking pool: enough balance is always unlocked to pay released withdrawals",
   "When an account's unstaked balance has been released, the pool's account holds enough unlocked tokens to pay it, for every account at the same time.",
   ["staking-pool"], ["histories", "schedules"], "every history of stakes, unstakes, rewards and validator set changes",
   "It depends on when the protocol unlocks validator stake.",
   SP, [("four epoch delay", "staking-pool/src/lib.rs NUM_EPOCHS_TO_UNLOCK")],
   "Quantifies over the protocol's run-time unlocking of validator stake and the sum over all accounts; no bound on those is visible in the source.")
na("V04", "Voting: the epoch refresh fits in one transaction for any number of voters",
   "However many validators have voted, re-reading all of their stakes fits into the gas of one transaction, so the poll can always be decided.",
   ["voting"], ["histories"], "every number of voters",
   "It depends on the gas price of host calls and the number of validators.",
   VT, [("refresh loop", "voting/src/lib.rs ping")],
   "A run-time resource bound: the loop is linear in a map whose size is bounded only by the protocol's validator count and host gas costs, neither of which is in the source.")
na("X08", "Deployed contract binaries correspond to the sources",
   "Each precompiled contract binary kept in the repository behaves as the source next to it.",
   ALL, ["configurations"], "every precompiled contract",
   "No test rebuilds the binaries.",
   ["lockup/res", "staking-pool/res", "multisig2/res"], [("build scripts", "build.sh in each contract")],
   "Needs a reproducible build with the historic compiler and dependencies, which are not available here; comparing behaviour of binaries is not source analysis.")
na("L14", "Lockup: every operation eventually completes",
   "Every cross-contract operation a lockup starts eventually completes and its callback runs.",
   ["lockup"], ["schedules"], "every schedule of the network",
   "Progress of the network is outside the contracts.",
   LK, [("callbacks", "lockup/src/owner_callbacks.rs")],
   "A liveness property of the network's scheduler; the source only shows that a callback is chained, which L06 decides.")

TECH = {
    None: "interprocedural disjunctive dataflow (abstract interpretation) over MIR, decided against per-entry-point clauses",
    "X01": "whole-program call-site enumeration over MIR with resolved interface and type agreement",
    "X02": "interprocedural gas-demand summary over all call sites (MIR)",
    "X03": "effect analysis over all exported entry points (MIR dataflow)",
    "X04": "dominating-guard analysis over all exported entry points (MIR dataflow)",
    "X05": "typestate analysis of the stored state over all exported entry points (MIR dataflow)",
    "X06": "value-range and narrowing analysis over all paths (MIR dataflow) plus build profile rule",
    "X07": "constant propagation of storage prefixes (MIR dataflow) and prefix-freedom rule",
    "X09": "abstract interpretation of the encoders and decoders over MIR (round trip per variant) plus name rules",
    "X10": "effect analysis: who may reach which account action, over all exported entry points (MIR dataflow)",
}
NOTE = ("Decides the clauses for every path of the listed entry points of the current source, lowered to MIR for the deployed "
        "target; nothing is executed and no solver is used. Trusts rustc's MIR, the models of near-sdk/std operations "
        "(analysis/models.py), the clause sets (analysis/specs) and, for loops, the generic-iteration summary.")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P.values():
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "hook_needed": None}}
            if p["state"]:
                o["anchors"]["state"] = p["state"]
            f.write(json.dumps(o) + "\n")
    checks = []
    for p in P.values():
        if p["id"] in NA:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                       "technique": TECH[p["cross"]], "level": "other", "level_note": NOTE})
    man = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "See DESIGN.md. Known findings and repaired defects: known-findings.txt. No hooks are needed in /repo."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
