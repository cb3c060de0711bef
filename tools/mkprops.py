#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source for property texts)."""
import json,sys,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
I="inputs";H="histories";S="schedules";C="configurations"
# ---------------- team
p("T01","Team vesting schedule: bounded, monotone, complete",
 "For every team vesting account and every point in time, the reported vested amount is zero before one year of service, never decreases over time, never exceeds the allocation (or the clawback-capped maximum), and equals that maximum once three years have passed or the clawback lies behind; the unlocked amount never decreases, never exceeds the vested amount, is zero before the lock-up date, and reaches the full maximum at the end of the plan. Currently claimable tokens equal unlocked minus already claimed, and remaining amounts never become negative or wrap.",
 [I],"every allocation, commencement, clawback date, claimed amount and pair of query times",
 "Tests check a handful of dates with one allocation; the claim is about all integer time/amount combinations including rounding and wrap-around.",
 ["x/team/keeper/logic_team.go"],[("vesting/unlock arithmetic","x/team/keeper/logic_team.go GetVestingStatus, GetVestingPlan")],
 [("TeamVestingAccount","allocation, commencement, clawback, claimed","x/team/types")],["GetVestingStatus","GetVestingPlan"])
p("T02","Team claims pay exactly what is owed, once, to authorised callers",
 "A successful claim of unlocked team tokens or of team rewards pays the recipient exactly the requested amount, raises the claimed counter by exactly that amount, never lets total claimed exceed what is unlocked (or what was rewarded), and is accepted only from the foundation or core-team authority as appropriate. A clawback is accepted only from those authorities, never predates commencement or the last claim, and never makes the unlocked amount fall below what was already claimed.",
 [I,H],"every account state, block time, amount and caller; one claim or clawback from an arbitrary valid state",
 "Tests use fixed accounts and amounts; over-claim needs particular combinations of time, clawback and earlier claims.",
 ["x/team/keeper/msg_server_claim_unlocked.go","x/team/keeper/msg_server_claim_account_rewards.go","x/team/keeper/msg_server_claim_authority_rewards.go","x/team/keeper/msg_server_clawback.go"],
 [("claim checks","x/team/keeper/msg_server_claim_*.go"),("clawback checks","x/team/keeper/msg_server_clawback.go")],(),["bank ledger","team vesting account","authority record"])
p("T03","Issued team allocations never exceed the fixed team allocation",
 "Whatever vesting accounts exist, a new team vesting account is only created by an authorised creator, with a non-zero allocation and commencement, and never such that the sum of the maximum amounts of all accounts (allocations, less what was clawed back) exceeds the fixed team allocation. A rejected creation leaves no account behind.",
 [I],"every existing set of accounts (up to the bound), every 64-bit allocation and commencement",
 "The interesting inputs are 64-bit amounts near overflow and clawback-capped accounts; tests use small round numbers.",
 ["x/team/keeper/msg_server_create_team_vesting_account.go","x/team/keeper/logic_team.go"],[("allocation check","x/team/keeper/msg_server_create_team_vesting_account.go")],(),["GetTeamVestingAccounts"])
p("T04","Team inflation is fully and fairly attributed",
 "In every block the team's share of inflation is credited completely: the sum of rewards credited to vesting accounts and to the authority equals the block's team provision, each account is credited at most its allocation-proportional share, and no negative or wrapped credit occurs. What leaves the fee collector is exactly what is credited, and stored rewards never exceed the module's funds.",
 [I],"every provision, set of accounts and allocations within the bound","Rounding remainders over arbitrary allocations cannot be covered by fixed examples.",
 ["x/team/abci.go","x/team/keeper/logic_team.go"],[("per-account share truncation, remainder to authority","x/team/abci.go DistributeTeamInflation")],(),["TeamVestingAccount.total_rewards","Authority.total_rewards"])
# ---------------- bundles
p("B01","Bundle verdict follows the stake-weighted majority of current pool members",
 "For every pool membership, stake assignment and set of cast votes, a bundle is judged valid exactly if validators holding more than half of the pool's total stake voted valid, invalid exactly if at least half voted invalid, and otherwise has no quorum; votes of validators that are no longer in the pool count nothing, and reported valid, invalid, abstain and total powers are the exact stake sums. Valid and invalid can never hold at once.",
 [I],"all stakes, vote assignments and leavers for pools up to the stated size","Tests enumerate a few equal-stake pools; boundaries (exact half, odd totals, departed voters) need all stake values.",
 ["x/bundles/keeper/logic_bundles.go"],[("vote tally","x/bundles/keeper/logic_bundles.go GetVoteDistribution")],[("BundleProposal","voter lists","x/bundles/types")],["GetVoteDistribution","finalized/dropped status"])
p("B02","Only authorised validators vote, once, on the current bundle",
 "A vote is accepted only if it comes from the registered account of a validator in that pool, targets the bundle currently open in a runnable pool (a bundle is open until it is concluded), and the validator is not barred by an earlier final vote (only abstain may be changed to valid or invalid). An accepted vote puts the validator in exactly the list it chose and in no other, leaves every other validator's vote untouched, and resets the validator's inactivity points; a rejected vote changes nothing.",
 [I,H],"every proposal state, voter, staker, storage id and vote value","Combinations of prior votes, wrong accounts and pool states exceed the sampled cases.",
 ["x/bundles/keeper/msg_server_vote_bundle_proposal.go","x/bundles/keeper/logic_bundles.go"],[("vote authorisation","x/bundles/keeper/logic_bundles.go AssertCanVote"),("vote recording","msg_server_vote_bundle_proposal.go")],(),["BundleProposal voter lists","valaccount points"])
p("B03","Only the designated uploader submits, in time, matching the pool's position",
 "A bundle submission is accepted only from the registered account of the designated next uploader in a runnable pool after the upload interval has elapsed, starting exactly where the archive plus the pending bundle ends, with its first key and size consistent, and within the pool's maximum bundle size. The accepted submission becomes the open bundle with exactly the submitted content, with the submitter counted as its only valid voter and a registered pool member as next uploader. If the submission concludes an invalid bundle, that bundle is dropped and the submission, whose position would no longer follow the archive, is not used.",
 [I],"every submission content, proposal, pool and time state within the bound","Tests exercise single wrong fields; all joint field values, time boundaries and stake situations are out of reach.",
 ["x/bundles/keeper/msg_server_submit_bundle_proposal.go","x/bundles/keeper/logic_bundles.go"],[("submission validation","logic_bundles.go AssertCanPropose, validateSubmitBundleArgs"),("registration","logic_bundles.go registerBundleProposalFromUploader")],(),["stored BundleProposal"])
p("B04","The archive is a gap-free append-only chain of finalized bundles",
 "Whenever a bundle is finalized, it gets the next sequential id, starts at the index where the archive ended, ends size items later, and the pool's height, key, summary, index and bundle count advance to exactly that bundle's end; earlier finalized bundles never change and a bundle that is not valid is never archived. Looking up any archived index returns the one bundle whose range contains it, and paging through the archive in either direction lists every bundle once, in order.",
 [I,H],"every pool position, bundle content and verdict; one finalization from an arbitrary state, any lookup index","Tests finalize short fixed sequences; contiguity for all positions and sizes needs symbolic state.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/getters_bundles.go","x/pool/keeper/logic_pool.go"],[("finalization","logic_bundles.go finalizeCurrentBundleProposal"),("pool advance","x/pool/keeper/logic_pool.go IncrementBundleInformation"),("index","getters_bundles.go SetFinalizedBundleIndexes, GetFinalizedBundleByIndex")],(),["FinalizedBundle","Pool"])
p("B05","Every bundle reward coin is accounted for exactly once",
 "For every payout of a finalized bundle, treasury, uploader commission, uploader storage-cost and delegator shares are non-negative and together equal exactly the coins charged from funders plus the inflation payout; the treasury share follows the network fee, storage cost never exceeds what remains, and commission follows the uploader's rate. Coins actually moved in the bank match these amounts, and the modules paying them are never left short.",
 [I],"every payout amount, fee, storage cost, price, commission, and presence or absence of delegators","Rounding and clamping paths depend on exact amounts; tests use a few round values.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/msg_server_submit_bundle_proposal.go"],[("reward split","logic_bundles.go calculatePayouts, tallyBundleProposal")],(),["bank ledger","commission rewards","delegation rewards"])
p("B06","Slashing hits exactly the validators on the losing side",
 "When a bundle is judged valid, exactly those who voted invalid are slashed and removed from the pool; when judged invalid, exactly the uploader and those who voted valid are; with no quorum nobody is slashed for voting. Abstainers and non-voters are never slashed by a verdict, honest voters keep their stake unchanged, losing voters are slashed even if they left the pool meanwhile, and no reward is paid for an invalid or undecided bundle.",
 [I],"all vote assignments and stakes for pools up to the stated size","The set of vote/stake combinations is exponential; tests sample a few.",
 ["x/bundles/keeper/logic_bundles.go"],[("verdict handling","logic_bundles.go tallyBundleProposal, slashDelegatorsAndRemoveStaker")],(),["delegation amounts","pool membership","community pool"])
p("B07","Inactivity points: one per missed bundle, penalty exactly at the limit",
 "Each validator in the pool that cast no vote on the open bundle gains exactly one point whenever a round of that bundle ends (next submission, skipped uploader role or upload timeout), nobody gains such a point while no bundle is open, and no validator that voted gains any; when the points reach the configured maximum the validator is slashed for timeout, removed from the pool and its points are cleared, and never before. Only members of that pool are affected.",
 [I],"every membership, vote set, point count and limit within the bound","Needs all point counts and limits, including limits lowered by governance below current counts.",
 ["x/bundles/keeper/logic_bundles.go","x/stakers/keeper/getters_valaccount.go"],[("points","logic_bundles.go addPoint, handleNonVoters")],(),["valaccount points","pool membership"])
p("B08","An uploader that misses its slot is penalised and replaced, in time only",
 "At the end of a block, a runnable pool whose designated uploader exceeded upload interval plus upload timeout gives that uploader exactly one inactivity point (with the penalty at the limit) and picks a new uploader among the pool's members; before the deadline nothing changes. A pool that cannot run never penalises anyone, a pool without validators has no uploader, and other pools are unaffected.",
 [I,S],"every block time, interval, timeout, pool state and membership within the bound","Deadline arithmetic over all times and the interplay of pool states are only sampled by tests.",
 ["x/bundles/keeper/logic_end_block_handle_upload_timeout.go"],[("timeout handler","HandleUploadTimeout")],(),["BundleProposal.next_uploader","valaccount points"])
p("B09","Uploader selection is fair and always picks an eligible pool member",
 "The next uploader is always a current member of the pool with positive stake that is not excluded (the exclusion is waived if it leaves nobody), or none if no such member exists; repeated selection gives every validator turns in proportion to its stake up to a deviation of at most two turns, and the bookkeeping never drifts. Removing, adding or re-weighting validators cannot starve a member with positive stake.",
 [I,H],"all stakes, progress values and membership changes for up to the stated number of validators and rounds","Fairness is a statement over all stake ratios and histories; tests check a few distributions.",
 ["x/bundles/keeper/logic_round_robin.go"],[("weighted round-robin","logic_round_robin.go NextProposer, normalize")],[("RoundRobinProgress","per-validator progress","x/bundles/types")],["next uploader"])
p("B10","Block execution is deterministic regardless of map iteration order",
 "Concluding a bundle, handling timeouts and charging funders give bit-identical state, payouts and removals on every node: the result never depends on the iteration order of in-memory hash maps.",
 [S],"every iteration order of every map ranged over, for every state in the bound","Go randomises map order per run; a test sees one order at a time and cannot compare all.",
 ["x/bundles/keeper/logic_bundles.go","x/bundles/keeper/logic_round_robin.go","x/funders/keeper/logic_funders.go"],[("sorted iteration over maps","x/bundles/keeper/*.go")],(),["whole module state"])
p("B11","A pool runs only while every operating condition holds",
 "Bundles can be voted on or submitted only while the pool exists, is not disabled, is not upgrading, has not reached its end key, has at least its minimum stake, and no validator exceeds the maximum voting power; whenever all of these hold, participation is not refused on these grounds. The pool status shown to users is active only if the pool can run.",
 [I,C],"every pool configuration, time, stake distribution and voting-power limit within the bound","Conditions interact with arbitrary 64-bit stakes and times; tests flip single conditions.",
 ["x/bundles/keeper/logic_bundles.go","x/query/keeper/helper.go"],[("run conditions","logic_bundles.go AssertPoolCanRun"),("status","x/query/keeper/helper.go GetPoolStatus")],(),["error of vote/submit","pool status query"])
p("B12","The uploader role is claimed and skipped only by eligible validators",
 "The uploader role can be claimed only when nobody holds it, in a runnable pool, by a registered pool member; it can be skipped only by its current holder after the upload interval, and then passes to another pool member if there is one. Neither action changes the open bundle's content or anyone's stake.",
 [I],"every proposal and pool state, caller and time within the bound","All combinations of holder, caller, state and time are not sampled.",
 ["x/bundles/keeper/msg_server_claim_uploader_role.go","x/bundles/keeper/msg_server_skip_uploader_role.go"],[("role checks","msg_server_claim_uploader_role.go, msg_server_skip_uploader_role.go")],(),["BundleProposal.next_uploader"])
# ---------------- delegation
p("D01","Delegation totals always equal the sum of their parts",
 "After every sequence of delegating, undelegating, redelegating, rewards, withdrawals and slashes, a validator's reported total stake and delegator count match the individual delegations (totals are never below the sum of the parts and exceed it only by bounded rounding dust), and the delegation account holds enough tokens to return every delegation. Operating on one validator never changes another validator's delegations.",
 [H,I],"all operation sequences up to the stated length with arbitrary amounts and slash fractions","Rounding interactions between slashes and partial undelegations need arbitrary amounts and orders.",
 ["x/delegation/keeper/logic_delegation.go","x/delegation/keeper/logic_f1distribution.go"],[("F1 bookkeeping","logic_f1distribution.go"),("delegate/undelegate","logic_delegation.go")],[("DelegationData","total, count, period index","x/delegation/types")],["GetDelegationAmount","GetDelegationAmountOfDelegator","bank ledger"])
p("D02","Delegation rewards are solvent, proportional and paid once",
 "Rewards paid for a validator are shared among its delegators in proportion to their stake at payout time, truncated in the chain's favour; the sum of everything claimable and claimed never exceeds everything paid in, a second withdrawal right after the first pays nothing, and one delegator's actions never change another's claimable amount. Later delegators get no share of earlier rewards.",
 [H,I],"all interleavings up to the stated length of payouts, (un)delegations, withdrawals and slashes with arbitrary amounts","Insolvency would come from rare rounding directions over arbitrary stakes and rewards.",
 ["x/delegation/keeper/logic_f1distribution.go","x/delegation/keeper/exported_functions.go","x/delegation/keeper/msg_server_withdraw_rewards.go"],[("F1 reward index","logic_f1distribution.go f1StartNewPeriod, f1WithdrawRewards")],(),["GetOutstandingRewards","bank ledger"])
p("D03","A slash burns exactly the configured fraction, for all delegators alike",
 "Slashing a validator reduces each of its delegators by exactly the configured fraction for that offence up to rounding, reduces the validator's total accordingly, moves exactly the slashed tokens to the community treasury, and leaves other validators, their delegators and already accrued rewards untouched. Fractions of zero change nothing and no balance becomes negative.",
 [I],"every stake distribution and fraction within the bound, any number of prior slashes within the bound","Truncation and ordering effects need arbitrary stakes and fractions.",
 ["x/delegation/keeper/exported_functions.go","x/delegation/keeper/logic_f1distribution.go"],[("slash","exported_functions.go SlashDelegators; logic_f1distribution.go f1Slash")],(),["delegation amounts","community pool"])
p("D04","Unbonding pays out after the full waiting time, once, never more than owned",
 "Undelegating keeps the stake bonded and slashable until the unbonding time has fully passed; then the delegator is paid the requested amount or whatever is left of the delegation if less, exactly once, and entries are served strictly in order of request. No request is paid early, lost, paid twice or paid to someone else.",
 [H,I],"every queue content within the bound, block times, unbonding times and amounts, with slashes in between","Queue boundaries with arbitrary times and parameter changes are not sampled.",
 ["x/delegation/keeper/logic_unbonding.go","x/delegation/keeper/msg_server_undelegate.go","x/delegation/keeper/getters_undelegation.go"],[("unbonding queue","logic_unbonding.go")],[("QueueState","low/high index","x/delegation/types")],["bank ledger","delegations"])
p("D05","Redelegation is instant but rate-limited and conserves stake",
 "Redelegation moves exactly the requested amount (never more than owned) from one validator to another active one without any token leaving the delegation account, and a delegator can redelegate at most the configured number of times within any cooldown window. Expired uses are freed exactly when the cooldown has passed, and a rejected redelegation consumes nothing.",
 [H,I],"every set of past uses, time, limit and amount within the bound","Sliding-window behaviour for all times and limits needs symbolic time.",
 ["x/delegation/keeper/logic_redelegation.go","x/delegation/keeper/msg_server_redelegate.go"],[("spell accounting","logic_redelegation.go consumeRedelegationSpell")],(),["delegation amounts","redelegation cooldown entries"])
# ---------------- stakers
p("S01","Pool membership records, counters and indexes always agree",
 "After any join, leave, kick or removal, the number of validators reported for a pool equals the number of its membership entries, a validator counts as active exactly while it belongs to at least one pool, lookups by pool and by validator return the same memberships, and points and registration of other memberships are unchanged.",
 [H,I],"all operation sequences up to the stated length over several validators and pools","Index drift appears only after particular multi-step sequences.",
 ["x/stakers/keeper/getters_valaccount.go","x/stakers/keeper/getters_staker.go","x/stakers/keeper/exported_functions.go"],[("membership updates","getters_staker.go AddValaccountToPool, RemoveValaccountFromPool")],(),["GetAllValaccountsOfPool","GetStakerCountOfPool","GetActiveStakers"])
p("S02","A full pool admits a newcomer only by displacing a weaker validator",
 "A pool never has more members than its slot limit; when full, joining succeeds only if the newcomer has strictly more stake than the weakest member, and then exactly a weakest member is removed and everyone else stays. Below the limit nobody is removed.",
 [I],"every stake assignment for a full and non-full pool","The limit is 50 and ties matter; tests build a single pattern.",
 ["x/stakers/keeper/logic_stakers.go","x/stakers/keeper/msg_server_join_pool.go"],[("slot check","logic_stakers.go ensureFreeSlot, getLowestStaker")],(),["pool members"])
p("S03","Pool account registration: one worker account per validator and pool",
 "A validator can join a pool only if registered, the pool exists and is enabled, it is not already a member, and the worker account is neither the validator itself nor already used by another validator in that pool or by itself in another pool. Authorised bundle actions are possible exactly with that registered account, and a successful join pays exactly the stated amount to the worker account.",
 [I],"every existing membership situation and every caller/account combination in the bound","All alias combinations among stakers, pools and accounts are not enumerated by tests.",
 ["x/stakers/keeper/msg_server_join_pool.go","x/stakers/keeper/exported_functions.go"],[("join checks","msg_server_join_pool.go"),("authorisation","exported_functions.go AssertValaccountAuthorized")],(),["memberships","bank ledger"])
p("S04","Commission changes take effect only after the full notice period",
 "A requested commission change becomes effective in the first block after its notice period has fully passed and never earlier, to exactly the last requested value; a newer request replaces the pending one and restarts the notice, and requests of other validators are unaffected. Commission always stays between 0 and 100 percent.",
 [H,I],"every queue content within the bound, block times, notice times and requested values","Queue skipping, replacing and time boundaries need all schedules.",
 ["x/stakers/keeper/logic_commission.go","x/stakers/keeper/logic_queue.go","x/stakers/keeper/msg_server_update_commission.go"],[("commission queue","logic_commission.go, logic_queue.go")],(),["validator commission"])
p("S05","Leaving a pool takes effect only after the full notice period, exactly once",
 "A validator that announced leaving stays a full member until its notice period has passed, then leaves exactly that pool and no other; the announcement is honoured once, cannot be duplicated, and an announcement made during an earlier membership never removes the validator from a later one.",
 [H,I],"every queue content within the bound, times, kicks and rejoins in between","Stale-entry situations need kick/rejoin histories that tests do not build.",
 ["x/stakers/keeper/logic_leave.go","x/stakers/keeper/logic_queue.go","x/stakers/keeper/msg_server_leave_pool.go"],[("leave queue","logic_leave.go, logic_queue.go")],(),["pool members"])
p("S06","Commission rewards are credited and claimed without loss or gain",
 "Crediting commission moves exactly the credited coins to the staking module, and claiming pays the validator exactly the requested coins, never more than accrued, reducing the accrued amount by exactly that; the module always holds the sum of all accrued commissions. Only the validator itself can claim.",
 [I,H],"every accrued balance and claimed coin set within the bound","Partial multi-coin claims over arbitrary amounts are not sampled.",
 ["x/stakers/keeper/logic_stakers.go","x/stakers/keeper/msg_server_claim_commission_rewards.go"],[("claim","msg_server_claim_commission_rewards.go")],(),["bank ledger","accrued commission"])
p("S07","Governance voting power equals active delegated stake",
 "The total voting power of protocol validators equals the stake delegated to validators active in at least one pool, counted once each, and a delegator's per-validator voting amounts equal its current delegations to active validators and sum to no more than that total.",
 [I],"every set of validators, delegations and memberships in the bound","Requires all stake/membership combinations including slashed delegations.",
 ["x/stakers/keeper/exported_functions.go"],[("gov hooks","exported_functions.go TotalBondedTokens, GetActiveValidators, GetDelegations")],(),["TotalBondedTokens","GetDelegations"])
# ---------------- funders
p("F01","Funders are charged exactly their per-bundle amounts and never beyond balance",
 "Charging a pool takes from every active funder, per coin, the smaller of its per-bundle amount and its remaining amount, coins outside the whitelist are not taken, the sum of what was taken equals what is returned and what leaves the funding account, and no balance goes negative. A funder that can no longer pay becomes inactive and inactive funders are never charged.",
 [I],"every funding amount, per-bundle amount and whitelist for up to the stated number of funders and coins","Partial payments in several coins at once for arbitrary amounts are not sampled.",
 ["x/funders/keeper/logic_funders.go","x/funders/types/funders.go"],[("charge","logic_funders.go ChargeFundersOfPool; types ChargeOneBundle")],[("Funding","amounts, per bundle, total funded","x/funders/types")],["bank ledger","fundings"])
p("F02","Funding and defunding conserve tokens exactly",
 "Funding a pool moves exactly the stated coins from the funder into the funding account and adds exactly them to that funder's record; defunding returns exactly the requested coins, capped at what is recorded; no other record changes. The funding account always holds exactly the sum of all recorded amounts.",
 [I,H],"every record, coin set and caller in the bound","Multi-coin partial operations over arbitrary amounts are not sampled.",
 ["x/funders/keeper/msg_server_fund_pool.go","x/funders/keeper/msg_server_defund_pool.go"],[("fund/defund","msg_server_fund_pool.go, msg_server_defund_pool.go")],(),["bank ledger","fundings"])
p("F03","Funding slots and minimums are enforced and only the weakest is displaced",
 "A funding is active only if registered funder and pool exist and it meets, per coin, the configured minimum amount, minimum per-bundle amount and minimum multiple, all in whitelisted coins; a pool never has more active funders than the limit, a newcomer to a full pool displaces only a funder with the lowest value and never with a lower value of its own, and a funder that already holds a slot displaces nobody. A displaced funder gets all its tokens back.",
 [I],"every parameter set, funding value and full or non-full slot situation in the bound","Score comparisons across coins with arbitrary weights and amounts are not sampled.",
 ["x/funders/keeper/logic_funders.go","x/funders/types/funders.go"],[("parameter check","logic_funders.go ensureParamsCompatibility"),("slots","logic_funders.go ensureFreeSlot")],(),["active funders list"])
p("F04","Funder profiles are created once, changed only by their owner, and needed to fund",
 "A funder profile comes into being only by its owner creating it, once, and changes only by its owner updating it, to exactly what was given; no other profile, funding or balance changes. A pool is funded only by a funder with a profile, for an existing pool, and with coins the funder has; only who has funded a pool gets coins back from it.",
 [I,H],"every order of two requests by two addresses, every amount","Tests create and update a profile in fixed order.",
 ["x/funders/keeper/msg_server_create_funder.go","x/funders/keeper/msg_server_update_funder.go","x/funders/keeper/msg_server_fund_pool.go","x/funders/keeper/msg_server_defund_pool.go","x/funders/keeper/getters_funder.go"],[("profiles","x/funders/keeper/msg_server_create_funder.go, msg_server_update_funder.go"),("checks","msg_server_fund_pool.go, msg_server_defund_pool.go")],(),["funder records","fundings","bank ledger"])
# ---------------- pool
p("P01","Block inflation is split without creating, losing or misdirecting tokens",
 "In every block the protocol's share of inflation, after the team's part, goes entirely to pools that can run, divided by inflation weight; only rounding dust may stay with the chain or go to one of them. Pools that cannot run receive nothing, and if no pool can run the tokens stay with chain validators. The total taken equals the total distributed.",
 [I,C],"every minted amount, share, set of pools and weights in the bound","Rounding remainder and pool-state combinations for arbitrary weights are not sampled.",
 ["x/bundles/abci.go"],[("inflation split","x/bundles/abci.go SplitInflation")],(),["bank ledger"])
p("P02","A pool's inflation payout is the configured share of its own balance",
 "Each finalized bundle draws from its pool's own inflation account exactly the configured payout share of the balance, rounded down, never more than the balance, from no other pool, and hands exactly that amount to the payer.",
 [I],"every balance and payout share","Rounding for arbitrary balances and shares is not sampled.",
 ["x/pool/keeper/logic_pool.go"],[("inflation charge","logic_pool.go ChargeInflationPool")],(),["bank ledger"])
p("P03","Runtime upgrades apply at their time, once, and pause the pool until done",
 "A scheduled runtime upgrade changes a pool's runtime version exactly once its scheduled time is reached, keeps the pool paused until its duration has passed, then clears the plan; cancelling before the start leaves the pool unchanged and other pools are never touched. A plan scheduled in the past starts in the current block; a plan without version or binaries is rejected, and no second plan replaces a pending one.",
 [I,S],"every schedule, duration, block time and set of pools in the bound","Time boundaries and repeated block ends need all schedules.",
 ["x/pool/keeper/logic_end_block_handle_pool_upgrades.go","x/pool/keeper/msg_server_schedule_runtime_upgrade.go","x/pool/keeper/msg_server_cancel_runtime_upgrade.go"],[("upgrade handler","HandlePoolUpgrades")],(),["Pool.protocol","Pool.upgrade_plan"])
p("P04","Pool administration changes exactly what was asked, by governance only",
 "Creating, updating, enabling and disabling pools and scheduling or cancelling upgrades succeed only for the governance authority; a created pool starts empty with the given configuration and the next free id, an update changes only the supplied fields, and archive position, bundle count and other pools are never altered by administration. Disabling removes all validators from that pool only.",
 [I,H],"every request, caller and existing pool state in the bound","Field-by-field frame conditions over arbitrary payloads are not sampled.",
 ["x/pool/keeper/msg_server_create_pool.go","x/pool/keeper/msg_server_update_pool.go","x/pool/keeper/msg_server_disable_pool.go","x/pool/keeper/msg_server_enable_pool.go"],[("authority check","x/pool/keeper/msg_server_*.go")],(),["Pool records"])
# ---------------- global
p("G01","No transaction executes below the minimum gas price or the gas surcharge",
 "Outside genesis a transaction passes the fee check only if its offered fee is at least gas limit times the governance-set minimum gas price, rounded up, and messages with a configured gas surcharge consume at least that extra gas. A sufficient fee is never rejected on this ground.",
 [I],"every fee, gas limit, price and surcharge table in the bound","Rounding at arbitrary prices and limits is not sampled.",
 ["x/global/utils.go","x/global/ante.go"],[("fee checker","utils.go BuildTxFeeChecker"),("gas adjustment","ante.go GasAdjustmentDecorator")],(),["ante handler result","gas meter"])
p("G02","Fee refunds and burns never exceed the fees paid",
 "A refunded transaction gets back at most the fee it paid, to the account that paid it, only when it consists of exactly one refundable message; a granted fee uses the granter's allowance exactly once, and refunding never makes a transaction fail that would have succeeded; at block end the burned part of collected fees is exactly the configured ratio rounded down and never more than collected.",
 [I],"every fee, refund fraction, burn ratio and collected amount","Rounding for arbitrary fractions is not sampled.",
 ["x/global/post.go","x/global/abci.go"],[("refund","post.go"),("burn","abci.go EndBlocker")],(),["bank ledger"])
# ---------------- cross cutting
p("X01","Governance parameters change only by authority and always stay valid",
 "Module parameters change only through a message from the governance authority; whatever subset of fields it carries, the stored result keeps all unmentioned fields, every stored fraction stays within its valid range, and the native coin stays on the funding whitelist. A rejected update changes nothing.",
 [I],"every caller and every subset and value of updated fields","All partial updates with arbitrary values are not sampled.",
 ["x/bundles/keeper/msg_server_update_params.go","x/delegation/keeper/msg_server_update_params.go","x/stakers/keeper/msg_server_update_params.go","x/pool/keeper/msg_server_update_params.go","x/funders/keeper/msg_server_update_params.go","x/global/keeper/msg_server_update_params.go"],[("authority check and validation","x/*/keeper/msg_server_update_params.go, x/*/types/params.go")],(),["module params"])
p("X02","Exporting and re-importing state loses nothing",
 "For every reachable state of every module, the exported genesis passes validation and importing it into an empty chain reproduces the same stored state, including queue positions, indexes, counters and reward history; in-memory indexes are rebuilt by the next block. A genesis with two records for the same thing is refused.",
 [H,I],"every state in the bound of each module","Existing round-trip checks run only on states the tests happen to reach.",
 ["x/bundles/genesis.go","x/delegation/genesis.go","x/stakers/genesis.go","x/funders/genesis.go","x/pool/genesis.go","x/team/genesis.go","x/global/genesis.go"],[("genesis","x/*/genesis.go, x/*/types/genesis.go")],(),["module stores"])
p("X03","Eligibility queries agree with what transactions actually do",
 "For every state and caller, the queries that tell validators whether they can propose, vote or validate answer yes exactly when the corresponding transaction would not be refused on eligibility grounds, and the answered reason identifies the right validator. (Votes still missing for an open proposal do not count as lacking eligibility.)",
 [I],"every pool, proposal, membership and time state in the bound","Agreement over all states is relational and not sampled.",
 ["x/query/keeper/grpc_query_can_propose.go","x/query/keeper/grpc_query_can_vote.go","x/query/keeper/grpc_query_can_validate.go","x/bundles/keeper/logic_bundles.go"],[("shared assertions","x/query/keeper/grpc_query_can_*.go")],(),["query answers","transaction outcome"])
p("X04","Storage keys of different records never collide",
 "Records identified by different pools, ids, validators, delegators or times are stored under different keys and enumerations return exactly the records of the requested owner in increasing order of their numeric index, for all values of the identifiers and for addresses of ordinary (20 byte) and long (32 byte) accounts.",
 [I],"every 64-bit id and time, all pairs of records","Collisions and ordering faults need particular 64-bit values.",
 ["util/logic.go","x/bundles/types/keys.go","x/delegation/types/keys.go","x/stakers/types/keys.go","x/funders/types/keys.go"],[("key builder","util GetByteKey, x/*/types/keys.go")],(),["getters and iterators"])
p("X07","The figures queries report are the ones transactions honour",
 "What the queries report as rewards, stake, unbonding amounts, free redelegation slots, vote distribution, pool status, members, balances, fundings, vesting, the team's totals and archived bundles equals the stored state: the reported rewards, undelegations, funds and vested tokens are paid out in full when asked for and not a token more can be taken, a redelegation is accepted exactly if a slot is reported free, exactly the team allocation reported as available can still be issued, and a bundle is decided by exactly the reported distribution of votes.",
 [I,H],"every amount, time, stake and vote in the bound","Tests compare queries with a handful of fixed states.",
 ["x/query/keeper/grpc_account_assets.go","x/query/keeper/grpc_account_redelegation.go","x/query/keeper/grpc_delegation_delegators_by_staker.go","x/query/keeper/grpc_delegation_stakers_by_delegator.go","x/query/keeper/grpc_query_pool.go","x/query/keeper/grpc_query_staker.go","x/query/keeper/grpc_query_funders.go","x/query/keeper/grpc_current_vote_status.go","x/query/keeper/helper.go","x/team/keeper/grpc_team_vesting_status.go","x/team/keeper/logic_team.go","x/query/keeper/grpc_query_finalized_bundles.go"],[("query handlers","x/query/keeper/*.go, x/team/keeper/grpc_team_*.go"),("the transactions they describe","x/*/keeper/msg_server_*.go")],(),["query responses compared with the effect of the transactions"])
p("X08","Listings show every matching record exactly once, in order, on any page size",
 "Walking through the pages of any list query with any page size, by offset or by key, yields every record matching the filters exactly once, in the documented order, with no page longer than asked for, for every number of records and every combination of filters, and never fails.",
 [I,H],"every stake, filter, page size and offset in the bound","Tests read one page of the default size.",
 ["x/query/keeper/grpc_query_pool.go","x/query/keeper/grpc_query_staker.go","x/query/keeper/grpc_query_stakers_by_pool_count.go","x/query/keeper/grpc_query_fundings.go","x/query/keeper/grpc_query_funders.go","x/delegation/keeper/getters_index_stakers.go","x/pool/keeper/getters_pool.go","x/funders/keeper/getters_funding.go"],[("paginated getters","x/*/keeper/getters_*.go"),("list queries","x/query/keeper/grpc_*.go")],(),["query responses"])
p("X09","Malformed messages are rejected before execution, well-formed ones are not",
 "A message of any KYVE module passes the stateless check exactly if its sender (and the validator or account it names for delegating, undelegating, withdrawing and joining) is a valid address, its coins are a proper coin set (asked back and claimed coins not empty; one of the two lists of a funding may be), commissions are between zero and one (the first one ten percent if left out), upload interval and bundle size of a new or updated pool are positive and its weight is not negative, funders have a name, identities are empty or 64 bits in hex and texts at most 255 long; only the sender is asked to sign.",
 [I],"every amount, share, weight, list of up to three coins and kind of text","Tests send well-formed messages past the stateless checks.",
 ["x/bundles/types","x/delegation/types","x/funders/types","x/pool/types/msgs.go","x/stakers/types","x/team/types","util/validate.go"],[("stateless checks","x/*/types/message_*.go, x/*/types/msgs.go ValidateBasic"),("signers","GetSigners")],(),["ValidateBasic","GetSigners"])
p("X10","Events report exactly what took effect",
 "Every successful message and block action announces each of its effects exactly once, with the true parties, coins, verdicts, points, times and new values, and nothing that did not happen; messages that fail announce nothing. (A withdrawal of rewards may be announced although none were left.)",
 [I],"every amount, share, stake, time and vote outcome within the bounds of the harness","Tests hardly look at events, while indexers and explorers rebuild the history of the chain from them.",
 ["x/bundles/keeper","x/delegation/keeper","x/funders/keeper","x/pool/keeper","x/stakers/keeper","x/team/keeper"],[("events","x/*/keeper EmitTypedEvent"),("displacement","x/funders/keeper/logic_funders.go"),("round","x/bundles/keeper/logic_bundles.go")],(),["EmitTypedEvent"])
p("G03","Only fully checked transactions are admitted, and admitted ones cannot be replayed",
 "A transaction reaches execution exactly if its signature verifies, its sequence is its account's next one, its fee reaches the minimum price and is paid, its own gas limit covers all surcharges and respects the block's limit, its timeout height is not over, its memo is within bounds, it is statelessly valid and carries no unknown extension; the sequence has then moved on. Simulations count the surcharges as well, and after execution the payer has paid the fee less its refund.",
 [I],"every gas limit, surcharge, fee, balance, sequence, height, timeout, block limit, refund fraction","Tests call the fee and gas steps one by one; none runs the chain of steps the app installs with adverse values.",
 ["app/ante.go","x/global/ante.go","x/global/post.go"],[("chain of admission steps","app/ante.go NewAnteHandler"),("settlement","app/ante.go NewPostHandler"),("surcharges","x/global/ante.go GasAdjustmentDecorator")],(),["NewAnteHandler","NewPostHandler"])
p("X05","Archived bundle data and reward index survive 100 nodes of real network use",
 "placeholder",[I],"placeholder","placeholder",["x"],[("placeholder","x")])
P=[q for q in P if q["id"]!="X05"]
p("X05","Consensus store commits and crash recovery preserve application state",
 "After a crash at any point, restarting a node replays to exactly the last committed block's state, for every module of the chain.",
 ["crash_points"],"every crash point during block execution and commit",
 "Tests run in memory without crashes.",
 ["app/app.go"],[("IAVL multistore commit (dependency)","cosmossdk.io/store")],(),["application hash"])
p("X06","Software upgrade migrates every stored record without loss",
 "Running the v1.5 upgrade on any state of the previous release keeps every funding, delegation, validator, membership, pool, bundle and governance proposal record and every parameter, converts single-coin amounts into the equal multi-coin amounts (amounts below 2^63, equal pool weights stay equal), schedules the new protocol version only for pools of the named runtimes without another scheduled upgrade, and moves no tokens.",
 [I,H],"every previous-release state in the bound","No test covers the migration on arbitrary states.",
 ["app/upgrades/v1_5/upgrade.go","app/upgrades/v1_5/store.go"],[("migration","app/upgrades/v1_5/upgrade.go")],(),["module stores"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
