#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one JSON object per line). Run: python3 tools/gen_props.py"""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

CORE="contracts/dao-dao-core/src/contract.rs"
PS="contracts/proposal/dao-proposal-single/src/contract.rs"
PSP="contracts/proposal/dao-proposal-single/src/proposal.rs"
PM="contracts/proposal/dao-proposal-multiple/src/contract.rs"
PMP="contracts/proposal/dao-proposal-multiple/src/proposal.rs"
DV="packages/dao-voting/src/"
PPB="packages/dao-pre-propose-base/src/execute.rs"

p("C01","DAO treasury and settings obey only governance or the designated admin",
 "A DAO executes arbitrary messages only when they come from one of its currently enabled proposal modules or from its current admin, and changes its own configuration, modules, items, token lists, sub-DAOs or pause state only on messages from itself (un-pausing and nominating a new admin being the admin's own powers, and a token that announces a transfer being tracked when automatic tracking is on). While a DAO is paused and the pause has not expired it executes nothing except for itself or its admin, and un-pausing or expiry restores normal operation exactly. Admin rights move only by nomination by the current admin followed by acceptance by that nominee, or fall to the DAO itself when no admin was named; a refused call changes nothing.",
 ["histories","inputs"],"every sequence (to the depth bound) of DAO messages by outsider, enabled/disabled/former proposal module, admin, nominee, former admin and the DAO itself, interleaved with block advances across the pause expiry",
 "unit tests call each entry point once from one or two senders in a fresh DAO; they do not reach stale authority (disabled modules, former admins, withdrawn nominees, expired pauses) through arbitrary histories",
 [CORE,"contracts/dao-dao-core/src/state.rs"],[("sender checks per execute branch",CORE),("pause gate at top of execute",CORE)],
 [("admin / nominated admin","who may act for the DAO","contracts/dao-dao-core/src/state.rs"),("pause expiration","until when the DAO is paused","contracts/dao-dao-core/src/state.rs")],
 ["dao-dao-core execute results, emitted messages and queries"])
p("C02","DAO registries stay consistent and at least one proposal module stays active",
 "After any sequence of accepted updates the DAO's queries agree with each other and with a plain record of those updates: module counts equal the listed modules by status, active listings are exactly the enabled ones, every module keeps the unique prefix and status it was given, and items, tracked token lists and sub-DAOs are exactly what was last set, complete under every pagination. An update that would leave no active proposal module, names an unknown module, or disables a module twice is refused and changes nothing.",
 ["histories","inputs"],"every sequence (to the depth bound) of module add/disable, item, token-list and sub-DAO updates over small colliding key sets, each followed by every paginated query",
 "tests check one update at a time and a couple of page sizes; counts and listings only drift apart after particular combinations of add and disable in one or several messages",
 [CORE,"packages/cw-paginate-storage/src/lib.rs"],[("module count bookkeeping and prefixes",CORE),("paginated map queries","packages/cw-paginate-storage/src/lib.rs")],
 [("proposal modules","address, prefix and status","contracts/dao-dao-core/src/state.rs")],["dao-dao-core queries"])
p("P01","A yes/no proposal passes or fails exactly by its threshold and quorum rule",
 "For every tally of yes, no and abstain power and every configured threshold (absolute count, absolute percentage, or threshold plus quorum, majority or percent), an expired yes/no proposal passes exactly when the documented rule says so and is otherwise rejected: abstentions count toward quorum only, percentages must be met (a majority exceeded), and a vote that only abstains never passes. Before expiry a proposal is reported passed (rejected) only if no way of casting the remaining voting power could make it fail (pass), never when ballots may be changed, and never passed before the minimum voting period is over. It can be executed exactly when it passed.",
 ["inputs","configurations"],"all tallies (yes,no,abstain) of a small total power, all threshold kinds over a grid including every boundary ratio of that total, revoting on/off, expired/unexpired; plus every completion of each partial tally",
 "tests sample a few dozen hand-picked tallies; rounding and boundary errors at a specific ratio, or an early decision contradicted by a later vote order, are outside them",
 [PSP,DV+"voting.rs",DV+"threshold.rs"],[("is_passed / is_rejected",PSP),("compare_vote_count, does_vote_count_pass",DV+"voting.rs")],
 [("votes","tally by option",PSP),("threshold","passing rule",DV+"threshold.rs")],["proposal status query of dao-proposal-single driven through propose/vote"])
p("P02","A multiple-choice proposal is won only by an unbeatable plurality meeting quorum",
 "An expired multiple-choice proposal passes exactly when turnout meets its quorum and a single choice other than the none-of-the-above choice has strictly more power than every other choice; otherwise it is rejected. Before expiry it is reported passed (or rejected) only if no way of casting the remaining power could change that verdict or the winner, never when ballots may be changed, and never passed before the minimum voting period is over. On execution only the winning choice's messages run.",
 ["inputs","configurations"],"all tallies over 2-3 choices plus none-of-the-above of a small total power, all quorum kinds over a boundary grid, revoting on/off, expired/unexpired; plus every completion of each partial tally",
 "tests sample fixed tallies; ties, exact-quorum and unbeatable-lead boundaries depend on combinations of counts they do not list",
 [PMP,PM,DV+"multiple_choice.rs"],[("calculate_vote_result, is_choice_winner unbeatable",PMP)],
 [("votes","weight per choice",DV+"multiple_choice.rs")],["proposal status query and execute effects of dao-proposal-multiple"])
p("P03","Proposals follow their life cycle and their messages run at most once",
 "In both yes/no and multiple-choice modules a proposal's messages reach the DAO at most once, only after the proposal passed under its rule and any veto window ended, and only at the request of someone allowed to execute (any member when restricted to members, otherwise anyone); a proposal can be closed only when it was rejected. Executed, closed, vetoed and execution-failed are final, and a passed or rejected outcome does not flip unless ballots may be changed. If its messages fail, the DAO's state is exactly as before and the proposal becomes execution-failed when so configured or otherwise stays executable.",
 ["histories","fault_sequences"],"every sequence (to the depth bound) of propose, vote, execute, close, veto, config change, block advance across expirations and veto windows, by members and outsiders, with succeeding and failing proposal messages",
 "tests follow a few scripted life cycles; double execution, late execution and flips after finality need unusual orders of vote, expiry, execute, close and config change",
 [PS,PM,PSP,PMP,DV+"status.rs"],[("execute_execute / execute_close / reply",PS),("current_status and update_status",PSP)],
 [("proposal status","lifecycle state",DV+"status.rs")],["dao-proposal-single and dao-proposal-multiple queries; effects in the DAO"])
p("P04","Vetoes act only by the vetoer inside the veto window",
 "When a proposal was created with a veto configuration, only the configured vetoer can veto it, either while its timelock runs after passing or, if so configured, while voting is open; a vetoed proposal never executes. During the timelock nobody executes the proposal except the vetoer when early execution is allowed, and once the timelock ends the veto power is gone and normal execution rules apply. The veto settings in force are those recorded when the proposal was created.",
 ["histories","configurations"],"every sequence (to the depth bound) of propose, vote, veto, execute, close, config change by vetoer, member and outsider with block advances to every phase, over all veto flag combinations and no veto configuration",
 "tests check each veto rule in one scripted phase; windows interact with early passing, revoting, closing and configuration changes in ways a scripted test does not combine",
 [PS,PM,DV+"veto.rs",PSP,PMP],[("execute_veto and timelock status",PS),("VetoConfig checks",DV+"veto.rs")],
 [("veto config","vetoer, timelock, flags",DV+"veto.rs")],["dao-proposal-single / dao-proposal-multiple execute results and status"])
p("P05","Every ballot counts once, with the voter's power when the proposal was created",
 "A proposal's tally always equals the sum over its recorded ballots of each voter's voting power at the proposal's start, whatever happens to stakes or memberships afterwards, and total power is fixed at creation too. A voter has at most one ballot, replaceable only by a different choice when changing ballots is allowed and otherwise final; only addresses with power at the start can vote, and nobody can vote after expiration. Per-voter and listed ballots agree with the tally.",
 ["histories","configurations"],"every sequence (to the depth bound) of propose, vote, re-vote, vote-after-decision, membership change, rationale change and block advance by several members and outsiders, with revoting on and off, for yes/no, multiple-choice and ranked modules",
 "tests vote once per voter in a fixed order with constant membership; double counting appears only through particular change-of-ballot and membership-change histories",
 [PS,PM,"contracts/proposal/dao-proposal-condorcet/src/contract.rs"],[("ballot update and tally add/remove",PS),("power at proposal start height",DV+"voting.rs")],
 [("ballots","one per voter per proposal",PS)],["vote, list_votes and proposal queries"])
p("P06","A failing subscriber never blocks governance and only it is dropped",
 "When contracts subscribed to a proposal module's proposal or vote notifications fail, the triggering propose, vote, execute, close or veto still takes full effect, the failing subscriber is removed, and every other subscriber stays subscribed and receives the notification. A failing pre-propose contract likewise never blocks a proposal from reaching its final state; it is dropped and proposing opens to everyone rather than becoming impossible. Subscriptions change otherwise only by the DAO's own request, without duplicates.",
 ["fault_sequences","histories"],"every assignment of fail/succeed to up to three subscribers of each kind plus the pre-propose module, across every lifecycle step, in both proposal modules, with add/remove of subscribers interleaved",
 "tests make a single subscriber fail once; the removal is position-based, so wrong-subscriber removal or a blocked transaction needs two failures in one transaction or interleaved removal",
 [PS,PM,"packages/cw-hooks/src/lib.rs","packages/dao-hooks/src/proposal.rs","packages/dao-hooks/src/vote.rs",DV+"reply.rs",DV+"pre_propose.rs"],
 [("reply_on_error submessages and index-tagged replies",DV+"reply.rs"),("Hooks::remove_hook_by_index","packages/cw-hooks/src/lib.rs")],
 [("subscriber lists","ordered receivers","packages/cw-hooks/src/lib.rs")],["subscriber listing queries, received notifications"])
p("P07","Ranked-choice proposals pass exactly for a Condorcet winner meeting quorum",
 "An expired ranked-choice proposal passes exactly when quorum is met and one choice (none-of-the-above included) is preferred to every other choice by strictly more voting power than the reverse; otherwise it is rejected. A verdict reported before expiry can never be overturned by the remaining votes and passing never precedes the minimum voting period. Each member votes at most once, with a complete ranking and the power held when the proposal was created; only the winning choice's messages run, at most once, at a member's request, and the settings recorded at creation govern throughout.",
 ["inputs","histories"],"all multisets and orders of ballots (all permutations of 2-3 choices) by a small set of weighted voters, every quorum in a boundary grid, every interleaving with expiry, execute and close",
 "tests use a few hand-built elections; wrong early verdicts need a specific partial matrix and remaining power",
 ["contracts/proposal/dao-proposal-condorcet/src/tally.rs","contracts/proposal/dao-proposal-condorcet/src/m.rs","contracts/proposal/dao-proposal-condorcet/src/proposal.rs","contracts/proposal/dao-proposal-condorcet/src/contract.rs"],
 [("pairwise matrix and winner","contracts/proposal/dao-proposal-condorcet/src/tally.rs")],[("tally","pairwise margins and remaining power","contracts/proposal/dao-proposal-condorcet/src/tally.rs")],["dao-proposal-condorcet proposal query and execution effects"])
p("D01","Every proposal deposit is settled exactly once as its refund policy says",
 "A deposit is taken in exactly the configured amount and token when a proposal is submitted, and the terms recorded then govern it whatever the configuration becomes. When the proposal reaches its end the deposit is paid out exactly once: to the proposer or to the DAO as the refund policy and the outcome dictate (provided the pre-propose contract is still in use and the DAO has not itself withdrawn the funds); until then the pre-propose contract holds it. The contract's balance always equals unsettled deposits plus deliberate donations, and withdrawal of stray funds is possible only for the DAO.",
 ["histories","configurations"],"every sequence (to the depth bound) of submit (right, wrong and missing deposit), vote, execute, fail, close, veto, config change, withdraw, over native and cw20 deposits and all refund policies, for single and multiple choice and the approval flow",
 "tests settle one deposit per scenario with constant configuration; double refunds or lost deposits need configuration changes and several open proposals",
 [PPB,DV+"deposit.rs","packages/dao-pre-propose-base/src/state.rs"],[("deposit snapshot per proposal",PPB),("proposal completed hook refund",PPB)],
 [("deposits","terms and proposer per proposal","packages/dao-pre-propose-base/src/state.rs")],["token balances and deposit queries"])
p("D02","Only permitted addresses may submit proposals, through the pre-propose contract",
 "When a proposal module uses a pre-propose contract, proposals can be created only through it, and it accepts a submitter exactly when allowed: never if on the deny list, always if on the allow list, and otherwise only if anyone may propose or if they are a DAO member with power and members may propose. The proposal, and a ballot cast along with it, is recorded under the real submitter's name. Only the DAO changes these permissions, and an accepted permission state is never contradictory or empty.",
 ["inputs","histories"],"every permission configuration over allow/deny sets and the member switch, every policy update sequence to the depth bound, and every kind of submitter, in single and multiple choice",
 "tests cover a few update sequences; contradictory or stale permission sets arise from combinations of set/add/remove requests",
 [DV+"pre_propose.rs",PPB],[("submission policy check and updates",PPB)],[("submission policy","who may propose",DV+"pre_propose.rs")],["submission results and policy queries"])
p("D03","Approval-gated proposals are created only on approval and end consistently",
 "With an approval-gated pre-propose contract a submission becomes a proposal only when the designated approver approves it, exactly once, with the submitted content and submitter; a rejected submission never becomes a proposal and its deposit follows the refund policy. Every submission is at any time in exactly one of pending, approved or rejected, moves only from pending to a final state, and only the approver moves it. With an approving DAO (while both contracts stay installed), its approval vote's final outcome decides each submission: executed approves it and any other end rejects it, never leaving it pending forever.",
 ["histories"],"every sequence (to the depth bound) of submit, approve, reject, update approver, and the approving DAO's own vote/execute/close/veto with block advances, by approver, former approver, members and outsiders",
 "tests approve or reject a single submission; stuck or doubly resolved submissions need resubmission, approver changes and unusual endings in the approving DAO",
 ["contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs","contracts/pre-propose/dao-pre-propose-approver/src/contract.rs"],
 [("pending / completed maps","contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs"),("proposal completed handling","contracts/pre-propose/dao-pre-propose-approver/src/contract.rs")],
 [("pending and completed submissions","approval state","contracts/pre-propose/dao-pre-propose-approval-single/src/state.rs")],["pending/completed queries of both contracts, proposal listing"])
p("V01","Voting power at a past height never changes and always sums to the total",
 "For every staking or membership based voting module, the power reported for an address at a height depends only on stakes and memberships changed in earlier blocks, never on changes in that block or later, so repeating a query about a past height always gives the same answer. At every height the total power equals the sum of all members' powers, and each member's power equals what they had staked (or their membership weight) at that time.",
 ["histories"],"every sequence (to the depth bound) of stake, unstake, claim, membership change and block advance by several members, several operations per block, with power re-queried at every past height after every step, for all voting modules",
 "tests query a handful of heights after a fixed script; a retroactive change shows only with several operations in one block and a later re-query of an earlier height",
 ["contracts/voting/dao-voting-token-staked/src/contract.rs","contracts/voting/dao-voting-cw20-staked/src/contract.rs","contracts/voting/dao-voting-cw721-staked/src/contract.rs","contracts/voting/dao-voting-onft-staked/src/contract.rs","contracts/voting/dao-voting-cw4/src/contract.rs","contracts/voting/dao-voting-cw721-roles/src/contract.rs","contracts/staking/cw20-stake/src/contract.rs"],
 [("snapshot maps","contracts/voting/dao-voting-token-staked/src/state.rs")],[("staked balances","snapshotted per height","contracts/voting/dao-voting-token-staked/src/state.rs")],["voting power and total power at height queries"])
p("V02","Staked tokens and NFTs are always fully backed and returned to their stakers",
 "A voting module holds at all times exactly the tokens (or NFTs) that members have staked, plus those waiting to be claimed and any sent to it outside staking (or being prepared for it); nobody can withdraw more than, or other than, what they staked and have not withdrawn (the DAO's documented power to return on-chain NFTs aside). Unstaking immediately removes voting power and returns the assets right away when there is no unstaking period, or otherwise creates a claim that pays exactly once, to its owner, only after the period set at the time of unstaking has passed. A refused operation changes nothing.",
 ["histories","configurations"],"every sequence (to the depth bound) of stake, unstake (duplicate, foreign, excessive included), claim, foreign-asset deposit, direct donation, unstaking-period change and block advance by several stakers, with and without unstaking period, for native token, NFT and on-chain NFT staking",
 "tests do one stake/unstake/claim cycle; loss or double payment needs duplicates, interleaved stakers and period changes",
 ["contracts/voting/dao-voting-token-staked/src/contract.rs","contracts/voting/dao-voting-cw721-staked/src/contract.rs","contracts/voting/dao-voting-onft-staked/src/contract.rs","packages/cw721-controllers/src/nft_claim.rs"],
 [("stake registration and claims","contracts/voting/dao-voting-cw721-staked/src/contract.rs"),("NftClaims","packages/cw721-controllers/src/nft_claim.rs")],
 [("claims","assets and release times","packages/cw721-controllers/src/nft_claim.rs")],["asset balances/owners versus staked and claim queries"])
p("V03","An active threshold blocks proposing exactly while too little is staked",
 "When a voting module has an active threshold it reports the DAO active exactly when the staked total reaches the absolute count, or the given percentage of the token's supply rounded up (within a block in which stakes change, the total at its start may decide), and a DAO with no threshold is always active. Proposals can be created only while the DAO is active; voting and executing existing proposals are unaffected. Only the DAO can change the threshold, and impossible thresholds are refused.",
 ["inputs","histories"],"all thresholds over a grid of counts and percentages at and around every reachable stake, every stake/unstake/mint/burn history to the depth bound, for every module that has thresholds",
 "tests check single stakes well above or below; rounding at the boundary and supply changes are not enumerated",
 ["contracts/voting/dao-voting-token-staked/src/contract.rs","contracts/voting/dao-voting-cw20-staked/src/contract.rs","contracts/voting/dao-voting-cw721-staked/src/contract.rs","contracts/voting/dao-voting-onft-staked/src/contract.rs",DV+"threshold.rs",PS],
 [("is_active query","contracts/voting/dao-voting-token-staked/src/contract.rs"),("active check on propose",PS)],[("active threshold","minimum stake",DV+"threshold.rs")],["is-active query and propose results"])
p("V04","Stake-change subscribers always mirror the true stake",
 "Whenever a member's stake, membership or weight changes, every subscribed contract is told in the same transaction and with the exact change, so a subscriber that only adds up what it is told always agrees with what the staking or voting contract reports, for each member and in total. If a subscriber cannot be told the change does not happen, operations that do not change stake announce no change, and only the controlling DAO or owner can add or remove subscribers, never twice.",
 ["histories"],"every sequence (to the depth bound) of stake, unstake, claim, fund, membership and weight change, subscriber add/remove, over all modules that notify, with a recording subscriber compared after every step",
 "tests check one notification of one operation; a wrong amount or missing notification on a rare path (auto-removal, burn, partial unstake, several members in one update) is not observed",
 ["contracts/staking/cw20-stake/src/contract.rs","contracts/voting/dao-voting-token-staked/src/contract.rs","contracts/voting/dao-voting-cw721-staked/src/contract.rs","contracts/voting/dao-voting-onft-staked/src/contract.rs","contracts/external/cw721-roles/src/contract.rs","packages/dao-hooks/src/stake.rs","packages/dao-hooks/src/nft_stake.rs"],
 [("stake hook messages","packages/dao-hooks/src/stake.rs")],[("subscribers","hook receivers","packages/cw-hooks/src/lib.rs")],["messages received by a recording subscriber"])
p("S01","cw20 staking never pays out more than a staker's share and stays solvent",
 "The staking contract's reported total value equals stakers' deposits plus added rewards minus withdrawals, and its token balance equals that total plus all pending claims. A staker's reported value is their proportional share; while others stake, stake followed by unstake never returns more than was put in (what was added while nobody staked goes to the next staker), no action of one staker lowers another's value, and rewards added while people stake raise everyone's value in proportion up to rounding. Unstaking pays or schedules exactly the share redeemed, each claim pays once after its period, and refused operations change nothing.",
 ["histories","inputs"],"every sequence (to the depth bound) of stake, unstake, reward funding, donation, claim, period change and block advance by several stakers with adversarial amounts (1, primes, very small and large)",
 "tests use round numbers and one staker order; share-price manipulation and rounding in a staker's favour need adversarial amounts and orders",
 ["contracts/staking/cw20-stake/src/contract.rs","contracts/staking/cw20-stake/src/math.rs"],[("share arithmetic","contracts/staking/cw20-stake/src/math.rs"),("claims","contracts/staking/cw20-stake/src/contract.rs")],
 [("shares and balance","staked shares, total tokens","contracts/staking/cw20-stake/src/state.rs")],["value, total, claims queries and cw20 balances"])
p("R01","External staking rewards are solvent, time-proportional and stake-proportional",
 "In the external rewards contract each staker accrues, in every block of a reward period, the reward rate times their fraction of stake during that block, up to rounding down; the amounts paid plus pending never exceed what was funded, and pending rewards never decrease except by the owner's claim. Claiming pays exactly the pending amount once; staking, unstaking, claiming or transferring ownership by anyone never changes what others have accrued. Only the owner funds and configures, and a running period's rate cannot be changed.",
 ["histories","inputs"],"every sequence (to the depth bound) of stake, unstake, claim, fund, block advance before, within, across and after the period, several stakers and awkward amounts, native and cw20 rewards",
 "tests compute a few schedules; over-accrual or loss shows on particular interleavings of stake changes, claims, period end and refunding",
 ["contracts/staking/cw20-stake-external-rewards/src/contract.rs"],[("reward per token accumulator","contracts/staking/cw20-stake-external-rewards/src/contract.rs")],
 [("reward config and accumulators","rate, finish block, per-user index","contracts/staking/cw20-stake-external-rewards/src/state.rs")],["pending rewards and info queries, balances"])
p("R02","DAO reward distributions never overpay and pay members pro rata to voting power",
 "For every distribution, the rewards paid to members plus those pending plus any amount withdrawn by the owner never exceed the amount funded, so every pending reward is always payable. Each member accrues for each completed emission period (or each immediate funding or backfill) exactly the emitted amount times their share of voting power when it completes (or is given out), up to rounding down, and later changes of anyone's power, of the emission rate or of other distributions never alter what is already accrued. Only authorised parties create, configure, fund when closed, or withdraw undistributed funds, and claims pay exactly the accrued amount once.",
 ["histories","inputs","configurations"],"every sequence (to the depth bound) of fund, stake change, claim, rate change (pause, immediate, linear, continuous or not), withdraw and block/time advance by several members over one and two distributions, native and cw20, height and time based",
 "tests are scripted schedules; insolvency or retroactive accrual needs combinations of rate changes, late funding, zero total power and stake changes",
 ["contracts/distribution/dao-rewards-distributor/src/rewards.rs","contracts/distribution/dao-rewards-distributor/src/contract.rs","contracts/distribution/dao-rewards-distributor/src/state.rs","contracts/distribution/dao-rewards-distributor/src/hooks.rs"],
 [("epoch accounting","contracts/distribution/dao-rewards-distributor/src/state.rs"),("accrual","contracts/distribution/dao-rewards-distributor/src/rewards.rs")],
 [("distribution epochs and user reward state","accrued per power unit","contracts/distribution/dao-rewards-distributor/src/state.rs")],["pending rewards, distribution queries, balances"])
p("R03","Fund distribution pays each member once, by voting power, and never runs dry",
 "After the funding period ends each member can claim, of every funded token, exactly their share of voting power at the distribution height, rounded down, at most once per distribution, whoever triggers the claim; nothing can be claimed before and nothing funded after. The sum of all entitlements never exceeds what was funded, so the last claimant is always paid. Redistribution of what remains gives members shares of the remainder by power at its new height under the same guarantee.",
 ["histories","inputs"],"every sequence (to the depth bound) of native and cw20 funding, partial and full claims by several members, membership changes before and after the distribution height, redistribution, and block advances",
 "tests use one membership snapshot; overpayment appears when power changes between the distribution height and instantiation or redistribution",
 ["contracts/distribution/cw-fund-distributor/src/contract.rs"],[("relative share computation","contracts/distribution/cw-fund-distributor/src/contract.rs")],
 [("total power, balances and claims","per token and member","contracts/distribution/cw-fund-distributor/src/state.rs")],["claim transfers, entitlement queries, balances"])
p("R04","Staking reward distributor pays out its configured rate and nothing more",
 "Each distribution transfers to the staking contract exactly the elapsed blocks since the previous distribution or configuration change times the configured rate, capped by the available balance, as added reward; distributing twice in one block pays once, and anyone may trigger it without affecting the amount due. Only the owner can change the rate, target, token or withdraw the remainder, and a rate change never applies to blocks before it.",
 ["histories"],"every sequence (to the depth bound) of distribute, fund, config update, withdraw, ownership transfer and block advance by owner, former owner and outsiders with small balances",
 "tests distribute a few times at constant rate; retroactive or lost payments need rate changes between distributions and an exhausted balance",
 ["contracts/staking/cw20-stake-reward-distributor/src/contract.rs"],[("last payment block accounting","contracts/staking/cw20-stake-reward-distributor/src/contract.rs")],
 [("last payment block","start of the next accrual","contracts/staking/cw20-stake-reward-distributor/src/state.rs")],["cw20 balances, staking total value, info query"])
p("F01","Vesting releases exactly the schedule and conserves every token",
 "A vesting contract never pays its recipient more than has vested by its schedule at that time, and distributing everything available pays exactly the vested amount not yet paid; anyone may trigger it but funds go only to the recipient. Cancellation is possible only once and only by the owner: the recipient keeps exactly what had vested, the owner receives exactly the rest, and vesting stops there. Tokens paid to recipient and owner plus tokens still held, staked or slashed always equal the amount funded, and at completion everything has been paid.",
 ["histories","inputs"],"every sequence (to the depth bound) of distribute (all amounts), cancel, withdraw, ownership change and time advance to every schedule point by owner, recipient and outsider over linear and piecewise schedules, native and cw20",
 "tests probe fixed times; off-by-one releases and double payment after cancellation need interleavings of partial distributions and cancellation",
 ["contracts/external/cw-vesting/src/vesting.rs","contracts/external/cw-vesting/src/contract.rs"],[("vested minus claimed","contracts/external/cw-vesting/src/vesting.rs")],
 [("vest","schedule, claimed, slashed, status","contracts/external/cw-vesting/src/vesting.rs")],["distributable, vested, info queries, balances"])
p("F02","Staked vesting funds keep the schedule under delegation and slashing",
 "While vesting funds are delegated, redelegated, undelegated or slashed, the contract's own record of staked, unbonding and slashed tokens equals the actual staking position whenever the slash has been registered, for every point in time queried. Staking never lets the recipient extract unvested principal: total paid never exceeds vested minus the slashes charged to them, only the recipient stakes, only the owner registers slashes, and staking rewards go only to the withdraw address the recipient (before cancellation) or owner (after) is entitled to set. Slashing registered during unbonding or staking reduces the right party's funds exactly once.",
 ["histories","fault_sequences"],"every sequence (to the depth bound) of delegate, redelegate, undelegate, validator slash and its registration, distribute, cancel, withdraw and time advance across unbonding completion, two validators",
 "tests follow fixed scripts; inconsistent stake records depend on slash timing relative to unbonding and redelegation",
 ["contracts/external/cw-vesting/src/contract.rs","contracts/external/cw-vesting/src/vesting.rs","packages/cw-stake-tracker/src/lib.rs","packages/cw-wormhole/src/lib.rs"],
 [("StakeTracker","packages/cw-stake-tracker/src/lib.rs"),("Wormhole time map","packages/cw-wormhole/src/lib.rs")],
 [("total staked / cardinality history","by time","packages/cw-stake-tracker/src/lib.rs")],["stake queries versus the staking module's delegations and balances"])
p("F03","A token swap completes for both parties at once or not at all",
 "Each side's funds enter the escrow only in exactly the promised token and amount, once, and from that party; the moment both are in, both are paid to the opposite party in the same transaction. Before that either party can take back exactly what it put in and nothing else, after completion nobody can withdraw or pay again, and outsiders can never take anything. The escrow's balance always equals what has been provided and not withdrawn or swapped.",
 ["histories","configurations"],"every sequence (to the depth bound) of fund (right, wrong, doubled), withdraw by both parties and outsiders, over native-native, native-cw20, cw20-cw20 and same-token swaps",
 "tests script fund-fund and fund-withdraw; a bad flag shows in repeated fund/withdraw/fund orders",
 ["contracts/external/cw-token-swap/src/contract.rs"],[("provided flags and swap","contracts/external/cw-token-swap/src/contract.rs")],
 [("counterparties","promise and provided flag","contracts/external/cw-token-swap/src/state.rs")],["status query and balances"])
p("F04","Token issuer powers stay within granted allowances and freeze and list rules",
 "Tokens are minted or burned only by holders of an allowance, each use consuming exactly that much of it, so the supply changes by exactly the used allowance and never beyond it. Only the owner grants allowances, freezes, edits lists, forces transfers or burns, or hands over the denom's admin; while frozen or when either party is denied a token movement is blocked unless the parties are exempt by the allow list as documented, and the issuer's own balance-adjusting powers still work. Freeze and list settings can be changed only while the chain's transfer hook points at the issuer.",
 ["histories","inputs"],"every sequence (to the depth bound) of allowance changes, mint, burn, force transfer, freeze, deny, allow, ownership and admin change by owner, minters, burners and outsiders with every transfer attempt checked after each step",
 "tests check each setting alone; combined freeze, deny, allow and allowance states are not enumerated",
 ["contracts/external/cw-tokenfactory-issuer/src/execute.rs","contracts/external/cw-tokenfactory-issuer/src/hooks.rs","contracts/external/cw-tokenfactory-issuer/src/helpers.rs"],
 [("allowance deduction and before-send checks","contracts/external/cw-tokenfactory-issuer/src/execute.rs")],[("allowances, freeze and lists","issuer state","contracts/external/cw-tokenfactory-issuer/src/state.rs")],["emitted mint/burn/transfer messages, transfer-hook verdicts, queries"])
p("F05","NFT role weights always match the roles held",
 "A role NFT collection's member weights equal, for each address, the sum of the weights of the role tokens it holds, and the total equals their sum, after any sequence of minting, burning, weight change and transfer, with past-height queries unchanged. Only the collection's controller can mint, burn, transfer or edit roles, each accepted change takes full effect, and control passes to whoever the controller names once they accept.",
 ["histories"],"every sequence (to the depth bound) of mint, burn, transfer, send, weight, role and URI update by controller, holders and outsiders, over weighted and unweighted tokens and several per holder",
 "tests mint and burn one token per member; drift appears with several tokens per member, transfers and zero weights",
 ["contracts/external/cw721-roles/src/contract.rs"],[("member and total weight maintenance","contracts/external/cw721-roles/src/contract.rs")],
 [("members and total","snapshotted weights","contracts/external/cw721-roles/src/state.rs")],["member, total weight and owner queries"])
p("F06","Factories create exactly what was asked and record it truthfully",
 "The payroll factory lets only its owner (if it has one) create vesting contracts, forwards the exact funds, and lists each contract it really created exactly once under the right creator and recipient in every listing and page; failures leave no trace. The admin factory creates contracts that are their own admin, only for the designated caller when one is set, and predictable-address creation yields exactly the announced address or fails. The token factory creates the token, its initial balances and its authority handover to the DAO exactly as requested.",
 ["histories","inputs"],"every sequence (to the depth bound) of creation requests (valid, invalid, wrongly funded) by owner and outsiders, native and cw20, and code or owner changes, with all listings and pages compared after each step",
 "tests create one contract and look at the first page; stale creation data, cross-listing and failed-creation residue need sequences",
 ["contracts/external/cw-payroll-factory/src/contract.rs","contracts/external/cw-admin-factory/src/contract.rs","contracts/external/btsg-ft-factory/src/contract.rs"],
 [("instantiate reply bookkeeping","contracts/external/cw-payroll-factory/src/contract.rs")],[("vesting contract index","instantiator, recipient","contracts/external/cw-payroll-factory/src/state.rs")],["list queries, contract admin info, balances"])
p("F07","Historical maps, claims and lists answer as a plain table would",
 "The time-indexed map used for staking records answers every point-in-time query with the value implied by the set of updates made, in whatever order and at whatever past or future times they were made; the token-claim and NFT-claim lists release exactly matured entries, each once; and subscriber lists and paginated listings neither lose, duplicate nor reorder entries under any page size and cursor.",
 ["inputs","histories"],"all sequences (to the depth bound) of updates at all points of a small time/key grid with every query compared to a plain table after each step; all page sizes and cursors over all small key sets",
 "tests check a few update orders; out-of-order time updates and cursor boundaries need exhaustive small enumeration",
 ["packages/cw-wormhole/src/lib.rs","packages/cw-stake-tracker/src/lib.rs","packages/cw721-controllers/src/nft_claim.rs","packages/cw-paginate-storage/src/lib.rs","packages/cw-hooks/src/lib.rs"],
 [("Wormhole increment/decrement/update","packages/cw-wormhole/src/lib.rs")],[],["library API results"])
p("M01","Upgrading from an earlier release loses nothing and changes nothing else",
 "Upgrading a deployed contract to this release from a supported earlier one (v1 core, yes/no proposal, cw20 staking, external rewards and reward distributor contracts; v2.4.1 core, proposal, pre-propose and cw4 voting contracts) leaves every stake, claim, reward, ballot, deposit, setting, list, proposal and status as it was, the settings the upgrade itself names excepted. Afterwards what was open can be voted on, executed or closed with the same outcome, what was owed is paid exactly once, and the same owner or DAO (a v1 manager excluded) stays in control. An upgrade that cannot be done faithfully (a pre-propose or v1 contract already on this release, proposals with outstanding v1 deposits, or invalid new settings) is refused and changes nothing.",
 ["histories","schedules"],"the real earlier release and the upgraded contract run side by side through every sequence (to the depth bound) of operations with the upgrade inserted at every point, every query and balance compared after each step",
 "tests upgrade one hand-made state and look at a few fields; state written by the earlier release at any point of any history, and its later use by the new code, needs exploration",
 ["contracts/staking/cw20-stake/src/contract.rs","contracts/staking/cw20-stake-external-rewards/src/contract.rs","contracts/staking/cw20-stake-reward-distributor/src/contract.rs","contracts/dao-dao-core/src/contract.rs","contracts/proposal/dao-proposal-single/src/contract.rs","contracts/proposal/dao-proposal-multiple/src/contract.rs","packages/dao-pre-propose-base/src/execute.rs"],
 [("migrate","contracts/proposal/dao-proposal-single/src/contract.rs"),("migrate","packages/dao-pre-propose-base/src/execute.rs")],[("proposals","id to proposal","contracts/proposal/dao-proposal-single/src/state.rs")],["all queries, balances and operation outcomes before and after the upgrade"])
p("P08","Proposal modules accept only workable settings, and proposals keep theirs",
 "A proposal module accepts only workable settings, both when created and when changed: passing thresholds above zero and at most 100% (absolute counts above zero), quorums at most 100%, a minimum voting period no longer than and in the same unit as the maximum, and a veto window in that unit with a valid vetoer; anything else is refused without effect. Only the DAO can change the settings or who may create proposals, and an accepted change is reported exactly as requested. Proposals already created keep the rules, period and veto recorded at their creation, and every proposal created afterwards records the new ones.",
 ["configurations","histories"],"the full product of thresholds, quorums, periods, vetoes and DAO addresses around every limit, given at creation and as a change, for yes/no, multiple-choice and ranked modules; and every sequence (to the depth bound) of changes by every kind of caller, creation policies, proposals, votes and block advances",
 "tests try a few bad settings at creation; the same limits on the update path, their combinations, and settings that reach back to existing proposals are not enumerated",
 [PS,PM,"contracts/proposal/dao-proposal-condorcet/src/contract.rs",DV+"threshold.rs",DV+"veto.rs",DV+"multiple_choice.rs"],[("execute_update_config and instantiate validation",PS),("execute_update_config",PM),("validation of thresholds",DV+"threshold.rs")],
 [("config","settings for new proposals","contracts/proposal/dao-proposal-single/src/state.rs")],["config, proposal and creation-policy queries"])
p("P09","Proposals, ballots and rationales are recorded and listed as submitted",
 "A yes/no or multiple-choice proposal records exactly the title, description, messages in order and, for multiple choice, the two to twenty options in order followed by one none-of-the-above option without messages, under the name of whoever submitted it; one with another number of options, larger than 30000 bytes as stored, or under a name the submitter may not give is refused without effect. A ballot keeps the rationale given with it until its voter changes the ballot or replaces the rationale, which nobody else can do. Every query and listing of proposals (in either direction) and of ballots shows each exactly once, in order and as recorded, whatever the cursor and page size, and on execution exactly the recorded messages of the winner run, in the recorded order.",
 ["histories"],"every sequence (to the depth bound) of proposals of every content (texts, repeated and paying messages, 0 to 21 options, sizes around the limit), direct or through a contract and under own, foreign or invalid names, ballots, changed ballots, rationales, execution, closing and block advances; every query under every cursor and limit in every state",
 "tests look at one or two proposals with plain texts; order, duplicates, limits, later changes of ballots and pages that meet in one history are not sampled",
 [PS,PM,DV+"multiple_choice.rs","contracts/proposal/dao-proposal-single/src/query.rs","contracts/proposal/dao-proposal-multiple/src/query.rs"],[("execute_propose, execute_vote, execute_update_rationale and queries",PS),("execute_propose and queries",PM),("into_checked",DV+"multiple_choice.rs")],
 [("proposals and ballots","id to proposal, (id, voter) to ballot","contracts/proposal/dao-proposal-single/src/state.rs")],["proposal, list_proposals, reverse_proposals, get_vote, list_votes, proposal_count; messages received"])
p("C03","A DAO is created exactly as requested or not at all",
 "Creating a DAO installs exactly the requested details, administrator (itself when none is named), items, one voting module and proposal modules, each module with the requested code, message, funds and upgrade administrator and proposal modules prefixed A, B, C and so on in order; the whole creation fails and leaves nothing when there is no proposal module, an item key is repeated, an address is invalid or any module cannot be created. Set-up messages a new module hands back run exactly once, with the DAO's authority, in the same transaction. Modules added or replaced later are created in the same way or the change does not happen.",
 ["configurations","histories"],"the product of administrators, items, details, funds, voting modules and proposal module lists (working, refusing, missing code, every upgrade administrator and set-up callback) at creation, then every sequence (to the depth bound) of added, disabled and replaced modules",
 "tests create a handful of well-formed DAOs; partial failures, callbacks and module replacement after creation are combinations they do not reach",
 [CORE,"packages/dao-interface/src/state.rs","packages/dao-interface/src/helpers.rs"] if os.path.exists("/repo/packages/dao-interface/src/helpers.rs") else [CORE,"packages/dao-interface/src/state.rs"],[("instantiate, reply and module creation",CORE),("ModuleInstantiateInfo into_wasm_msg","packages/dao-interface/src/state.rs")],
 [("modules, config and items","what was installed","contracts/dao-dao-core/src/state.rs")],["dao-dao-core queries, contract info of created modules, balances"])
p("V05","Creating a voting module sets up exactly what was asked",
 "A voting module created with a DAO or in place of another serves exactly the token, collection, group or staking contract it was given, or creates that contract with exactly the requested holders, members, roles, balances, metadata and DAO balance, upgradeable, owned and mintable by the DAO alone, so that holders can stake and vote at once. Creation is refused without any effect when nobody outside the DAO would have anything to vote with, members, holders or roles are repeated or invalid, the unstaking period is zero, the activation threshold is zero or cannot be reached, the staking contract serves another token, or a factory's answer is missing or unusable (the size of a factory-made collection excepted). Set-up messages from a factory run once with the DAO's authority.",
 ["configurations"],"for each of the six voting modules and every way to set it up, the product of member, balance and token lists, DAO balances, metadata, factory answers, unstaking durations and activation thresholds around every limit, with a new DAO and in place of another module",
 "tests create each module once or twice with round numbers; boundary thresholds, odd lists and factory answers, and creation in an existing DAO are not combined",
 ["contracts/voting/dao-voting-token-staked/src/contract.rs","contracts/voting/dao-voting-cw20-staked/src/contract.rs","contracts/voting/dao-voting-cw721-staked/src/contract.rs","contracts/voting/dao-voting-cw721-roles/src/contract.rs","contracts/voting/dao-voting-onft-staked/src/contract.rs","contracts/voting/dao-voting-cw4/src/contract.rs"],
 [("instantiate and reply","contracts/voting/dao-voting-token-staked/src/contract.rs"),("instantiate and reply","contracts/voting/dao-voting-cw721-staked/src/contract.rs"),("instantiate and reply","contracts/voting/dao-voting-cw20-staked/src/contract.rs")],
 [("denom and issuer","what gives voting power","contracts/voting/dao-voting-token-staked/src/state.rs")],["queries of the module and of every contract it created, contract info, balances"])
p("S02","Staking, reward, vesting and swap contracts start only on workable terms",
 "A cw20 staking, staking-reward, reward-distribution, fund-distribution, vesting or swap contract (and each distribution of a rewards distributor) is created, or a distribution changed, only on workable terms; otherwise it is refused without effect. Workable means valid addresses; a token, staking or voting contract that answers as one where it must be asked; periods, emissions and promises above zero (a zero funding period or payout rate excepted); a distribution height not in the future and with power; two different parties to a swap; and a vesting of a positive amount, by a schedule that never decreases from nothing to that amount, not already over, fully paid when in coins. What was accepted is reported exactly as requested, under the requested owner, holds exactly what was paid in, and vests or stays open to funding exactly as asked.",
 ["configurations","inputs"],"for each of these contracts the product of owners, parties, token, staking and voting addresses (fitting, of another kind, no contract, no address), durations, rates, totals, schedules, heights and coins around every limit",
 "tests create each contract with one or two good settings and a few bad ones; boundary durations, schedules, heights and payments are not combined",
 ["contracts/staking/cw20-stake/src/contract.rs","contracts/staking/cw20-stake-external-rewards/src/contract.rs","contracts/staking/cw20-stake-reward-distributor/src/contract.rs","contracts/distribution/cw-fund-distributor/src/contract.rs","contracts/distribution/dao-rewards-distributor/src/contract.rs","contracts/external/cw-vesting/src/contract.rs","contracts/external/cw-vesting/src/vesting.rs","contracts/external/cw-token-swap/src/state.rs"],
 [("instantiate","contracts/external/cw-vesting/src/contract.rs"),("execute_create and execute_update","contracts/distribution/dao-rewards-distributor/src/contract.rs"),("into_checked","contracts/external/cw-token-swap/src/state.rs")],
 [("distribution","terms of a reward distribution","contracts/distribution/dao-rewards-distributor/src/state.rs"),("vest","terms of a vesting","contracts/external/cw-vesting/src/vesting.rs")],["creation results, configuration, ownership and balance queries of each contract"])
if __name__=="__main__":
    here=os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    try:
        import jsonschema
        s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for x in P: jsonschema.validate(x,s)
    except ImportError: pass
    for x in P:
        for a in x["anchors"]["files"]:
            assert os.path.exists("/repo/"+a),(x["id"],a)
        for m in x["anchors"]["mechanism"]+x["anchors"]["state"]:
            w=m.get("where"); assert os.path.exists("/repo/"+w),(x["id"],w)
        assert x["statement"].count(". ")<=2,(x["id"],x["statement"].count(". "))
    print(len(P),"properties")
