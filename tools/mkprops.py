#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays uniform)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
HSF=["histories","schedules","fault_sequences"]
p("C01","Lending pool reserves stay solvent",
 "For every reserve of every lending pool, the tokens the pool holds plus everything borrowers owe it always cover everything suppliers can withdraw plus the interest credited to the backstop, up to sub-unit rounding that is always in the pool's favour. No operation by anyone lowers that surplus: it can only be lowered by bad debt that is explicitly written off once the backstop is exhausted, and then by exactly the amount written off. Interest accrual adds to suppliers and backstop together no more than it adds to what borrowers owe.",
 HSF+["inputs"],"all interleavings of users' submissions, liquidations, auctions, bad debt handling, interest accrual at any time gap, oracle moves and failed dependencies, over any amounts and token decimals",
 "Unit tests assert a few hand-computed balances; solvency is a sum over all users after arbitrary histories with rounding at each step.",
 ["pool/src/pool/reserve.rs","pool/src/pool/actions.rs","pool/src/pool/user.rs","pool/src/pool/submit.rs","pool/src/auctions/bad_debt_auction.rs","pool/src/auctions/backstop_interest_auction.rs"],
 [("rounding direction of share conversions","pool/src/pool/reserve.rs"),("interest split between suppliers and backstop","pool/src/pool/reserve.rs Reserve::load"),("token netting","pool/src/pool/submit.rs execute_submit")],
 [("ReserveData","rates, share totals and backstop credit of a reserve","pool/src/storage.rs")],["token balances and persistent storage of the pool after each transaction"])
p("C02","Per-user shares always add up to the totals",
 "In each lending pool, for each reserve, the sum of all users' supplied plus collateralised shares equals the recorded total supply shares and the sum of all users' debt shares (including debt held by the backstop) equals the recorded total debt shares. No balance is ever negative, and a position that reaches zero is no longer counted as a position. Transferring debt or filling an auction moves shares between accounts without creating or destroying any, except debt that is written off.",
 HSF,"all histories of supply, withdraw, borrow, repay, liquidation, bad debt transfer, auction fills (full or partial), in batches of any mix and order",
 "Tests check single users after single actions; the equality is between a sum over every account and a total, after every step of every history.",
 ["pool/src/pool/user.rs","pool/src/pool/bad_debt.rs","pool/src/auctions/user_liquidation_auction.rs","pool/src/auctions/bad_debt_auction.rs","pool/src/pool/pool.rs"],
 [("paired update of user balance and reserve supply","pool/src/pool/user.rs"),("reserve cache written once per transaction","pool/src/pool/pool.rs store_cached_reserves")],
 [("Positions","a user's debt, collateral and supply shares by reserve","pool/src/pool/user.rs")],["persistent storage of the pool after each transaction"])
p("C03","Supply, withdraw, borrow and repay exchange exactly the right amounts",
 "Each request in a submission converts its token amount to shares at the reserve's up-to-date rate, rounding in the pool's favour; supply never credits, and withdraw or repay never settle, more than the tokens moved are worth. A withdrawal is capped at the user's own balance of that kind, and a repayment beyond the debt is refunded so the user pays exactly the debt rounded up. All tokens owed to the pool are taken from the paying account, all tokens owed by the pool go to the receiving account, the position belongs to the named user, a request too small to change any share is rejected, and an amount below zero is rejected.",
 ["inputs","histories","schedules"],"all request lists (any types, amounts, order, repeated assets), payer/receiver/owner combinations, rates and time gaps",
 "Tests use a handful of amounts at round rates; the conversion must be right for every amount at every accrued rate and for batches that touch the same reserve several times.",
 ["pool/src/pool/actions.rs","pool/src/pool/submit.rs","pool/src/pool/reserve.rs","pool/src/pool/user.rs"],
 [("request handling","pool/src/pool/actions.rs build_actions_from_request"),("transfers","pool/src/pool/submit.rs execute_submit")],
 (),["token transfers, returned positions and stored positions of each submission"])
p("C04","Interest accrues by the published rate curve, to everyone, once per interval",
 "Whenever a reserve is used, interest for exactly the time elapsed since its last accrual is applied before anything else: borrowers' debt grows at the three-segment utilisation rate scaled by the reserve's rate modifier, the configured share of the growth goes to the backstop credit and the rest raises suppliers' value. The rate modifier moves with elapsed time and the gap between actual and target utilisation, within 0.1x to 10x. Debt and supply values per share never decrease through accrual, accrual twice at the same time changes nothing, and the accrued values are saved when the reserve changes.",
 ["histories","schedules","configurations"],"all utilisations, rate configurations, elapsed times (zero to years, stalls and jumps) and interleavings of operations between accruals",
 "Tests check the formula at a few utilisations; here it must hold at every accrual along arbitrary histories, in particular that no interval is skipped or counted twice.",
 ["pool/src/pool/interest.rs","pool/src/pool/reserve.rs","pool/src/pool/pool.rs"],
 [("calc_accrual","pool/src/pool/interest.rs"),("Reserve::load accrual","pool/src/pool/reserve.rs")],
 [("last_time","time of the last accrual","pool/src/storage.rs ReserveData")],["stored reserve data after each transaction"])
p("C05","No account can make itself under-collateralised",
 "After any submission that borrows, withdraws collateral, takes over debt in a liquidation or bad debt auction, or cancels an account's own liquidation, the acting account's collateral value weighted by collateral factors is at least 1.00001 times its debt weighted by liability factors, using current accrued balances and current prices, or the whole submission is rejected. The check covers the final state of the whole batch and every reserve the account holds, and valuations round against the account.",
 ["histories","inputs","schedules","fault_sequences"],"all batches, positions across any number of reserves, price moves, interest gaps, decimals and oracle precisions",
 "Tests place single users near the limit with fixed prices; the guarantee is for all batches and histories that reach the limit.",
 ["pool/src/pool/submit.rs","pool/src/pool/health_factor.rs","pool/src/pool/actions.rs"],
 [("health check gate","pool/src/pool/submit.rs execute_submit"),("valuation","pool/src/pool/health_factor.rs calculate_from_positions")],
 (),["result of each submission against positions, prices and factors before and after"])
p("C06","Borrowing respects utilisation caps and position limits",
 "A borrow succeeds only if the reserve's utilisation after it, including accrued interest, is at or below that reserve's configured maximum. An account's number of positions (debts plus collateral, each reserve counted once per kind) never grows past the pool's configured maximum through a submission. Repaying, withdrawing and supplying without collateral are never blocked by these limits.",
 ["histories","inputs","configurations"],"all batches, reserve configurations, and limit changes made while positions are open",
 "Tests probe each limit with one user and one config; limits interact with accrual, batch order and admin changes.",
 ["pool/src/pool/reserve.rs","pool/src/pool/pool.rs","pool/src/pool/actions.rs"],
 [("require_utilization_below_max","pool/src/pool/reserve.rs"),("require_under_max","pool/src/pool/pool.rs")])
p("C07","Pool status follows the backstop and gates operations",
 "When a pool is on-ice or frozen (or still in setup), nobody can borrow or cancel a liquidation; when frozen or in setup, nobody can supply; withdrawals, repayments and auctions are never blocked by status. Anyone can move a pool's status to the value dictated by its backstop deposit size and share queued for withdrawal (thresholds 30/50/60/75 percent), but cannot override an admin freeze or leave setup. The admin can only activate a pool that meets the deposit minimum with under 50 percent queued, can only put it on-ice below 75 percent queued, and can always freeze it.",
 ["histories","schedules"],"all orders of backstop deposits, queueing, draws, LP value changes, status updates by anyone and by the admin, and user operations around them",
 "Tests fix the backstop data by mocks for each branch; the real backstop's data changes with other parties' actions in any order.",
 ["pool/src/pool/status.rs","pool/src/pool/pool.rs","backstop/src/backstop/pool.rs"],
 [("status state machine","pool/src/pool/status.rs"),("require_action_allowed","pool/src/pool/pool.rs"),("pool data summary","backstop/src/backstop/pool.rs load_pool_backstop_data")])
p("C08","Stale or missing prices never back a risk decision",
 "Every operation that values positions or auctions (health-checked submissions, liquidation, bad debt and interest auction creation) uses the latest oracle price of every asset involved and fails without any effect if a needed price is absent, the oracle fails, or the price is older than 24 hours. A price exactly 24 hours old is accepted. Operations that need no valuation still work while the oracle is down.",
 ["fault_sequences","histories","schedules"],"oracle outages, gaps, stale and delayed updates and clock jumps placed around every operation",
 "Tests use a always-fresh mock oracle except for one stale-price case.",
 ["pool/src/pool/pool.rs","pool/src/pool/health_factor.rs","pool/src/auctions/bad_debt_auction.rs","pool/src/auctions/backstop_interest_auction.rs"],
 [("load_price","pool/src/pool/pool.rs")])
p("C09","Only underwater accounts are liquidated, by a bounded amount",
 "A liquidation of an account can be created only if its weighted debt is at least its weighted collateral at current prices and accrued balances, only one can be open per account, never against the pool or the backstop, and only for 1 to 100 percent of its debt. A partial liquidation must leave the account's health between 1.03 and 1.15; a full one is allowed only when the collateral is insufficient to cover debt plus incentive. The auction offers that percentage of every debt against the incentive-adjusted share of every collateral, never more than the account has, and starts on the next ledger.",
 ["histories","inputs","schedules"],"all positions, price and interest paths, percentages and interleavings with the account's own operations and other fills",
 "Tests cover specific portfolios; eligibility and sizing must hold for any portfolio and history.",
 ["pool/src/auctions/user_liquidation_auction.rs","pool/src/auctions/auction.rs"],
 [("create_user_liq_auction_data","pool/src/auctions/user_liquidation_auction.rs"),("create_liquidation","pool/src/auctions/auction.rs")])
p("C10","Auction fills follow the Dutch schedule and settle exactly",
 "At each ledger after an auction's start, the offered lot grows 0.5 percent per ledger to 100 percent at 200 ledgers, then the required bid shrinks 0.5 percent per ledger to nothing at 400. Filling a percentage takes exactly that share (bid rounded up, lot rounded down) scaled by the schedule and leaves exactly the rest open with the same start; a filled-out auction disappears. A liquidation fill moves that debt and collateral from the liquidated account to the filler and nothing else, no one can fill their own auction or before it starts, and a fill of less than 1 or more than 100 percent is rejected.",
 ["histories","schedules","inputs"],"all fill times, percentages, sequences of partial fills, batches mixing fills with other requests, and concurrent changes to the account being liquidated",
 "Tests sample a few blocks and percentages; sequences of partial fills at arbitrary ledgers are not covered.",
 ["pool/src/auctions/auction.rs","pool/src/auctions/user_liquidation_auction.rs","pool/src/auctions/bad_debt_auction.rs","pool/src/auctions/backstop_interest_auction.rs"],
 [("scale_auction","pool/src/auctions/auction.rs"),("fill","pool/src/auctions/auction.rs")],
 [("AuctionData","bid, lot and start ledger","pool/src/auctions/auction.rs")])
p("C11","Bad debt goes to the backstop and is only written off when it is exhausted",
 "Only an account with debt and no collateral can have its debt moved, whole and unchanged, to the backstop; the backstop's own debt cannot be moved. A bad debt auction can be created only when none is open and the backstop holds debt of that pool, sells exactly that debt for backstop tokens worth 140 percent of it, at most all the pool has, and a fill draws those tokens from that pool's backstop to the filler. Remaining backstop debt is written off only after such a fill while the pool's backstop is below the critical threshold (about 5 percent of the minimum deposit), and then completely.",
 ["histories","schedules"],"all histories leading to bad debt, auction fills at any ledger and percentage, with deposits, withdrawals and LP value changes in between",
 "Tests walk through one scripted scenario with mocked backstop balances.",
 ["pool/src/pool/bad_debt.rs","pool/src/auctions/bad_debt_auction.rs","backstop/src/backstop/fund_management.rs"],
 [("transfer_bad_debt_to_backstop","pool/src/pool/bad_debt.rs"),("fill_bad_debt_auction","pool/src/auctions/bad_debt_auction.rs"),("execute_draw","backstop/src/backstop/fund_management.rs")])
p("C12","Interest auctions sell only the backstop's accrued credit, and pay the backstop",
 "An interest auction can be created only when none is open and the accrued backstop credit of the listed reserves, each counted once, is worth more than 200 units of the base asset; it sells exactly that credit for backstop tokens worth 140 percent of it. Filling takes the bid in backstop tokens from the filler into that pool's backstop as a donation to its depositors, pays the filled lot from the pool to the filler, and reduces the recorded credit by exactly the lot paid. The credit is never paid out in any other way, never goes negative, and an open auction can be filled at any ledger after its start, including when the required bid has reached zero.",
 ["histories","schedules","inputs"],"all accrual histories, asset lists (including repeated entries), fill times from start to long after the end, and partial fills",
 "Tests use single fills at chosen blocks; late fills and repeated assets are not exercised.",
 ["pool/src/auctions/backstop_interest_auction.rs","pool/src/auctions/auction.rs","backstop/src/backstop/fund_management.rs"],
 [("create_interest_auction_data / fill_interest_auction","pool/src/auctions/backstop_interest_auction.rs"),("execute_donate","backstop/src/backstop/fund_management.rs")])
p("C13","No one can touch another party's funds, positions or settings without consent",
 "An operation that takes tokens from an account, changes its positions for its own action, moves its backstop deposits or claims its emissions succeeds only with that account's authorisation; admin settings need the current admin, and a change of admin needs both old and new admin. Only a pool itself can draw from or accept donations to its backstop balance or collect its emissions, and only the emitter's current backstop can trigger its drop. The only changes an unauthorised party can cause to another account are those of a liquidation or bad debt procedure that the account qualifies for.",
 ["histories","schedules","inputs"],"every operation with any subset of required authorisations missing or replaced by another party's, in every reachable state",
 "Tests run with all authorisations mocked as granted and inspect a few of them.",
 ["pool/src/contract.rs","backstop/src/contract.rs","emitter/src/emitter.rs","pool-factory/src/pool_factory.rs"],
 [("require_auth calls","pool/src/contract.rs, backstop/src/contract.rs, emitter/src/emitter.rs, pool-factory/src/pool_factory.rs")])
p("C14","Reserve and pool settings change only validly and after the timelock",
 "A reserve's parameters change only by an admin-queued change that passed validation (decimals at most 18, factors and utilisation within bounds, ordered rates, bounded reactivity), executed no earlier than 7 days after queueing unless the pool was still in setup when queued. A queued change can be cancelled by the admin, cannot be overwritten while queued, and is applied exactly as queued, once. Adding a reserve appends it with fresh rates and at most 32 reserves exist; updating one or changing the backstop take rate first accrues interest at the old settings; updating one keeps its position in the list, its decimals and all balances, and resets its rate modifier exactly when a rate parameter changes; the backstop take rate is always below 100 percent.",
 ["histories","schedules","inputs"],"all orders of queue, cancel, execute, status changes and user activity, at all times around the unlock, and all parameter values",
 "Tests exercise each call in isolation at fixed times.",
 ["pool/src/pool/config.rs","pool/src/storage.rs"],
 [("queue / cancel / set reserve","pool/src/pool/config.rs"),("metadata validation","pool/src/pool/config.rs require_valid_reserve_metadata")])
p("C15","Pool emissions are shared by balance and time, and never over-paid",
 "BLND assigned to a pool streams over seven days to the configured reserve sides; unstreamed remainders roll into the next stream, and the configured shares sum to at most 100 percent and refer to existing reserves. Each holder accrues in proportion to balance and time held, is credited before any balance change (including by liquidation or debt transfer), and a claim pays exactly what accrued, once, to the chosen recipient; what streams while nobody holds a side is shared by whoever holds it next. All claims and claimable amounts of a pool together never exceed the BLND the pool was assigned.",
 ["histories","schedules"],"all interleavings of balance changes, liquidations, emission cycles, config changes and claims over long periods",
 "Tests compute one or two accrual intervals; exactness across arbitrary balance changes and emission cycles needs histories.",
 ["pool/src/emissions/distributor.rs","pool/src/emissions/manager.rs","pool/src/pool/user.rs"],
 [("update_emissions before balance changes","pool/src/pool/user.rs"),("gulp_emissions","pool/src/emissions/manager.rs"),("execute_claim","pool/src/emissions/distributor.rs")])
p("C16","Every operation is all-or-nothing when anything it depends on fails",
 "If a token transfer, the oracle, the backstop, the liquidity pool token or any other dependency fails, or resources run out, anywhere inside an operation, the whole operation fails and no balance, position, auction, configuration or emission record of any contract changes. No operation reports success when a transfer it depends on failed. An attempt by a token to call back into the contracts during a transfer changes nothing.",
 ["fault_sequences","crash_points","histories"],"a failure injected at every call to a dependency and at arbitrary points of execution, in every kind of operation, in arbitrary states; re-entry attempts at every token call",
 "Tests never make a token or a dependency fail in the middle of an operation.",
 ["pool/src/pool/submit.rs","pool/src/auctions/bad_debt_auction.rs","pool/src/auctions/backstop_interest_auction.rs","backstop/src/backstop/deposit.rs","backstop/src/backstop/withdrawal.rs","backstop/src/emissions/claim.rs"],
 [("panicking clients, no swallowed errors","all contracts"),("host rollback","soroban host")])
p("C17","Backstop shares are backed, add up, and are priced fairly",
 "For each pool, the sum of all depositors' shares, queued or not, equals the pool's recorded total shares and the sum of queued shares equals its recorded queued total; the backstop holds at least the sum of all pools' recorded tokens. A deposit mints shares at the current token-per-share value rounded down (one-to-one when the pool has no shares) and a withdrawal pays at that value rounded down, and neither dilutes other depositors or touches any other pool. Donations raise and draws lower the value of all shares of that pool alike, a draw never exceeds the pool's tokens, and a deposit or withdrawal worth nothing is rejected.",
 HSF,"all histories of deposits, queueing, withdrawals, donations, draws, emissions compounding and direct token transfers, over several pools and users",
 "Tests check single operations; sums over depositors and pools after arbitrary histories are not checked.",
 ["backstop/src/backstop/pool.rs","backstop/src/backstop/deposit.rs","backstop/src/backstop/withdrawal.rs","backstop/src/backstop/fund_management.rs","backstop/src/backstop/user.rs","backstop/src/emissions/claim.rs"],
 [("share conversion","backstop/src/backstop/pool.rs"),("user shares and queue","backstop/src/backstop/user.rs")],
 [("PoolBalance / UserBalance","share and token totals, user shares and queue","backstop/src/backstop")])
p("C18","Backstop withdrawals always wait out the 21-day queue",
 "A depositor can withdraw only shares that were queued at least 21 days earlier and not dequeued since; each queueing starts its own 21-day wait. Queued entries are consumed oldest first by both withdrawal and dequeueing, partially if needed, an account has at most 21 entries per pool and can never queue, dequeue or withdraw more than it has. Dequeued shares become ordinary deposits again, and queueing or dequeueing changes neither the account's total shares nor any tokens.",
 ["histories","schedules","inputs"],"all sequences of queue, dequeue and withdraw over several entries, at all times around each unlock, including clock stalls and jumps",
 "Tests check two or three entries at fixed times.",
 ["backstop/src/backstop/user.rs","backstop/src/backstop/withdrawal.rs","backstop/src/constants.rs"],
 [("queue management","backstop/src/backstop/user.rs"),("execute_withdraw","backstop/src/backstop/withdrawal.rs")])
p("C19","Backstop depositors earn emissions fairly, and claims compound exactly",
 "Each pool's backstop emissions stream over seven days to its depositors in proportion to shares not queued for withdrawal and time held, and are credited before every change of those shares; queued shares earn nothing, and what streams while a pool has no earning shares is shared by those who next have some. A claim pays each listed pool's accrued amount once: the claimed BLND is deposited into the liquidity pool and the resulting backstop tokens are credited as a deposit to the recipient in the same pools in proportion, with no account gaining emissions it did not hold shares for. Claims plus claimable amounts never exceed what was distributed, and a pool whose shares are all queued never blocks deposits, queueing, claims or distribution.",
 HSF,"all interleavings of deposits, queueing, dequeueing, withdrawals, claims (any pool lists and recipients) and distributions over several pools",
 "Tests check one or two users and intervals; all-queued pools, repeated pools in one claim and third-party recipients are not covered.",
 ["backstop/src/emissions/distributor.rs","backstop/src/emissions/claim.rs","backstop/src/emissions/manager.rs","backstop/src/backstop/deposit.rs","backstop/src/backstop/withdrawal.rs"],
 [("update_emissions","backstop/src/emissions/distributor.rs"),("execute_claim","backstop/src/emissions/claim.rs")])
p("C20","Emissions reach only reward zone pools, split 70/30 by backstop size",
 "Each distribution assigns exactly the BLND emitted since the previous one, 70 percent to backstop depositors and 30 percent to pools, among reward zone pools in proportion to their non-queued backstop tokens, never more in total than was emitted, and requires over an hour of new emissions. A pool enters the reward zone only if its backstop meets the minimum deposit and it is not already in, within a size of 10 growing by one about every 97 days; when full it can only replace a pool with strictly fewer backstop tokens and only within a day of the last distribution. A pool collects its assigned emissions once.",
 ["histories","schedules"],"all orders of distributions, deposits, queueing, reward zone changes and pool collections over months of simulated time with any number of pools",
 "Tests script one or two cycles with fixed balances.",
 ["backstop/src/emissions/manager.rs","backstop/src/backstop/pool.rs"],
 [("gulp_emissions / add_to_reward_zone / gulp_pool_emissions","backstop/src/emissions/manager.rs")])
p("C21","The emitter mints one BLND per second, once, only to the backstop",
 "Every distribution mints exactly one BLND per second elapsed since the previous one, to the current backstop, so that total distributions equal total elapsed time however often and by whomever it is called. The initial drop is possible once per backstop, only for that backstop and for at most 50 million BLND in total, to exactly the listed recipients. There is no other way to mint BLND.",
 ["histories","schedules","fault_sequences"],"all call times and orders by any callers, clock stalls and jumps, repeated and failed attempts, across backstop changes",
 "Tests check a few fixed intervals.",
 ["emitter/src/emitter.rs","emitter/src/contract.rs","emitter/src/storage.rs"],
 [("execute_distribute / execute_drop","emitter/src/emitter.rs")])
p("C22","The backstop is replaced only by a larger one after a 31-day wait",
 "A replacement can be queued only if none is queued and the candidate holds strictly more backstop tokens than the current backstop, and executes exactly as queued no earlier than 31 days later and only if the candidate still holds strictly more. Anyone can cancel it only while the candidate does not hold more. On replacement the old backstop first receives all emissions due to it and the new one earns from that moment on, with no second counted twice or lost.",
 ["histories","schedules"],"all orders of queue, cancel, execute and token movements between candidates, at all times around the unlock",
 "Tests script single swaps with fixed balances.",
 ["emitter/src/backstop_manager.rs","emitter/src/emitter.rs"],
 [("queue / cancel / swap","emitter/src/backstop_manager.rs")])
p("C23","Contracts initialise once and only genuine pools are trusted",
 "Each contract can be initialised exactly once. The factory records as pools exactly those it deployed, each deployed with the requested admin, oracle, a take rate below 100 percent and a limit of at least two positions, wired to the true backstop and BLND token, starting in setup with no reserves; a different deployer can never obtain or block someone else's pool address. The backstop accepts deposits and donations only for pools the factory deployed.",
 ["histories","schedules","inputs"],"all sequences of deployments (equal and different salts and deployers), re-initialisation attempts and operations naming arbitrary addresses as pools",
 "Tests check a couple of deployments and one re-initialisation.",
 ["pool-factory/src/pool_factory.rs","pool-factory/src/storage.rs","pool/src/pool/config.rs","backstop/src/backstop/pool.rs","backstop/src/contract.rs","emitter/src/contract.rs"],
 [("deploy","pool-factory/src/pool_factory.rs"),("require_is_from_pool_factory","backstop/src/backstop/pool.rs"),("init guards","all contracts")])
p("C24","Valid operations succeed: no one's funds get stuck",
 "Whenever dependencies work and its stated preconditions hold, every operation succeeds in every reachable state: suppliers can withdraw available liquidity, borrowers can repay, expired queue entries can be withdrawn, accrued emissions can be claimed, qualifying auctions can be created and filled, and periodic updates can run. After any sequence of outages, missing prices, failed transfers and clock jumps ends, operations succeed again at once, with no residue from the failed attempts. No participant can put a pool, the backstop or the emission schedule into a state where others' valid operations fail.",
 HSF,"all reachable states, with faults stopped at any moment",
 "Tests only try operations in states they set up by hand; liveness quantifies over all reachable states.",
 ["pool/src/pool/actions.rs","pool/src/pool/submit.rs","pool/src/auctions/auction.rs","backstop/src/backstop/withdrawal.rs","backstop/src/emissions/distributor.rs","backstop/src/emissions/manager.rs"],
 [("absence of panics on valid paths","all contracts")])
p("C25","State survives the passage of time and ledger expiry",
 "No position, deposit, queue entry, reserve, emission accrual, configuration or queued backstop replacement is lost or altered by the passage of time alone, however long a party stays inactive. Records with a limited purpose (open auctions, queued reserve changes) stay available for at least the time in which they are meant to be used: auctions for over 45 days, queued reserve changes for over 100 days of ledgers. A record that has expired is treated as absent, and everything else behaves as if no time had passed except for interest and emissions.",
 ["histories","schedules","crash_points"],"arbitrary idle periods up to years, at any point of any history, with ledger counts running ahead of or behind the clock",
 "Tests run with minimum lifetimes far above the network's, so nothing ever expires in them.",
 ["pool/src/storage.rs","backstop/src/storage.rs","emitter/src/storage.rs","pool-factory/src/storage.rs"],
 [("durability class and lifetime extension of each record","*/src/storage.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
