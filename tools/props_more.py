D = 'pallets/democracy/src/lib.rs'
E = 'pallets/elections-phragmen/src/lib.rs'
S = 'pallets/on-slash-vesting/src/lib.rs'
L = 'pallets/linear-release/src/lib.rs'
LI = 'pallets/linear-release/src/impls.rs'
LT = 'pallets/linear-release/src/types.rs'
X = 'pallets/proxy-bonding/src/lib.rs'
XF = 'pallets/proxy-bonding/src/functions.rs'
STUB = 'The crate is compiled from its own sources against interface stubs of the dependencies missing here (shim/), none of which it runs. '
FP = 'pallets/funding/src/functions/'
FUND = ('The funding pallet is compiled from its own sources against interface stubs of the dependencies missing here (shim/), none of which it runs; '
        'balances, contribution tokens, funding tokens, prices, credentials and messages are ghost implementations of their interfaces. '
        'Sub-accounts are given by a one-to-one numbering instead of a hash. ')
MODULAR = 'Fixed-point multiplication, reciprocal, the price in the decimals of an asset and the proxy-bonding fee enter as functions of their arguments (the fee is P01). '
NOT_APPLICABLE = [
    ('K05', 'not reached by the contracts built here: shares are Perbill and FixedU128 quotients of quotients, which the back ends do not decide for all values, and payouts drain a storage prefix across blocks; the settings and stakes that enter it are under contract (K01 to K04)'),
    ('O01', 'the worker runs off-chain, over HTTP requests, timestamps and JSON parsing of the host: there is no body of those to put under contract, and assuming their results leaves only an average of assumed values'),
]


def more(prop, where):
    prop('D08', 'Each launch block starts at most one referendum, in turn, from the best backed',
         'On a block that is a multiple of the launch period, the waiting external proposal (after a public one) or the queued public proposal with the highest total backing (otherwise) becomes '
         'a new referendum with its own threshold, the configured voting period and enactment delay, an empty tally and its metadata; it leaves the slot or queue, and the other side gets the next turn. '
         'Every depositor of a launched public proposal gets back one deposit per signature, no other deposit moves, and the rest of the queue stays. '
         'On any other block, or with nothing waiting, nothing is launched.',
         ['inputs', 'histories', 'configurations'],
         'every block number, launch period, queue of any length with any depositors and deposits, any external proposal, any accounts',
         'Tests have queues of two or three proposals with one depositor each; ties, repeated depositors, the position of the best proposal and the alternation flag at arbitrary states are not sampled.',
         [D], where(D, 'on_initialize', 'begin_block', 'launch_next', 'launch_external', 'launch_public', 'backing_for', 'inject_referendum', 'transfer_metadata'),
         'Contracts on launching assume no referendum is waiting to be tallied in the same block (that combination is in D09), queued proposals have recorded deposits, and, for which proposal is launched, a unique highest backing; '
         'with ties, only that no lower-backed one is launched. ')
    prop('D09', 'A referendum is tallied exactly at its end, and enacted iff approved',
         'At the block where voting on an ongoing referendum ends, and at no other, its outcome is decided by its own threshold against the current electorate and recorded with that block. '
         'If approved its proposal is scheduled once, with root origin, after its enactment delay (at least one block later); if not, nothing is scheduled. '
         'No ongoing referendum is ever skipped by later blocks, whatever else is finished or cancelled around it.',
         ['inputs', 'histories', 'schedules', 'configurations'],
         'every block, every range of referenda in any state, any tally, threshold, delay and issuance',
         'Tests run at most three referenda to their end, in order; ends out of order, gaps left by cancelled referenda and launches in the same block are combinations they do not reach.',
         [D], where(D, 'on_initialize', 'begin_block', 'bake_referendum', 'maturing_referenda_at_inner', 'LowestUnbaked'),
         'Which tallies pass is D04: its contract replaces the body of the threshold comparison here. The scheduler is assumed to accept the task and the issuance to be positive. ')
    prop('E01', 'An election vote freezes exactly its stake and cannot be escaped while locked',
         'A signed account may vote for one up to the allowed number of candidates, never more than there are candidates, members and runners-up, with a stake above the minimum and, while its earlier vote is locked, not below the earlier stake. '
         'Its vote then records exactly the given choices, a stake of the given value capped by its total balance with exactly that frozen, and a fresh lock period; no one else\'s vote or freeze changes. '
         'It can withdraw exactly when the lock period has passed, which removes the vote and the whole freeze.',
         ['inputs', 'histories', 'configurations'],
         'every origin, list of choices, value, earlier vote, balance, block and configured limit',
         'Tests use two lock states and a fixed configuration; raising, lowering and repeating votes around the lock boundary with arbitrary earlier votes is not covered.',
         [E], where(E, 'vote', 'remove_voter', 'do_remove_voter'), '')
    prop('E02', 'Candidacy costs exactly the bond and gives back exactly the recorded deposit',
         'An account that is not a candidate, member or runner-up can run while there is room and it can pay: exactly the bond moves from its free to its held balance and is recorded with it, the candidates staying ordered without repetition. '
         'A candidate or runner-up can always withdraw: exactly the deposit recorded for it is released, it alone leaves, and the others keep their order and deposits. '
         'Only signed accounts do either, for themselves, in the role they actually have.',
         ['inputs', 'histories', 'configurations'],
         'every account, list of candidates, members and runners-up of any length, any recorded deposits (also from former bond settings), any witness count',
         'Tests keep the bond constant and the lists at two or three entries, so that a mixed-up index or the current bond used for the recorded deposit goes unnoticed.',
         [E], where(E, 'submit_candidacy', 'renounce_candidacy', 'is_candidate', 'is_member', 'is_runner_up'),
         'Recorded deposits are assumed to be held. ')
    prop('E03', 'A leaving member is replaced by exactly the best runner-up',
         'When a member renounces or is removed by root, it alone leaves, and the best-ranked runner-up, if any, takes a seat with its own stake and deposit while the other members and runners-up stay as they are, members ordered by account. '
         'A renouncing or unslashed member gets exactly its recorded deposit back, a slashed one loses exactly it to the slash handler. '
         'The announced membership equals the stored one, and the prime stays unless it is the one leaving.',
         ['inputs', 'histories', 'configurations'],
         'every member set and list of runners-up of any length, every position of the leaving member and of the replacement, any deposits and balances',
         'Tests remove one member out of two; positions of the replacement in the order, several runners-up, and the prime are not sampled.',
         [E], where(E, 'remove_member', 'renounce_candidacy', 'remove_and_replace_member'),
         'Members and runners-up are assumed to be disjoint and ordered, which is proved to be kept. Removal with a new election (rerun) is not covered here. ')
    prop('E04', 'Only defunct voters are cleaned up, and their stake is freed',
         'Root can clean up defunct voters: a voter is removed only if none of its choices is a candidate, member or runner-up any more, and its whole freeze is lifted with it. '
         'Every voter still backing someone, and every account that does not vote, keeps vote and freeze; with unlimited counts every defunct voter goes.',
         ['inputs', 'histories'],
         'every set of voters with any choices and stakes, any member, runner-up and candidate lists, any counts',
         'Tests clean up a fixed handful of voters; voters with a mix of dead and live choices, or live only as runner-up, are what a mistake would hit.',
         [E], where(E, 'clean_defunct_voters', 'is_defunct_voter', 'do_remove_voter'), '')
    prop('S01', 'A slash shortens what vesting locks, never when it unlocks',
         'When an account is slashed, every vesting schedule loses exactly the slashed amount from what it still locks, and what is left is spread evenly over the blocks left: no schedule starts or ends earlier, or vests faster, than before. '
         'The vesting lock afterwards is exactly what the remaining schedules lock, and other accounts, and accounts without schedules, are not affected. '
         'Slashing never fails, whatever the state of the schedules (not started, under way or fully vested), and each of several slash handlers is told exactly once.',
         ['inputs', 'histories'],
         'every block, slashed amount and vesting schedule (amounts up to the token supply, blocks up to 2^41): one schedule of any shape is proved; lists of schedules up to length two',
         'Tests slash two fixed sets of schedules at block three; fully vested schedules not yet cleaned up, schedules that have not started, and slashes near what is left are not sampled.',
         [S], where(S, '<pallet_vesting::Pallet as OnSlash>::on_slash', 'OnSlash for tuples'),
         'The bodies of pallet-vesting (vest, locked_at, ...) are verified with it; currency locks are a ghost map. '
         'Lists of several schedules are a bounded stand-in (at most two), labelled so in the evidence. Division by a symbolic number of blocks is abstracted by its quotient and remainder. ')
    prop('L01', 'Release schedules free what has vested, linearly, and nothing more',
         'A schedule locks its full amount until its start, falls by its rate every block after it (by at least one), never grows, and locks nothing from its end on. '
         'Whoever asks, releasing frees exactly what the schedules of that account and reason no longer lock: what stays held is the sum of what they lock (or all there is), finished schedules are dropped and the others kept as they are. '
         'No other account, reason or balance changes, and an account without schedules gets an error.',
         ['inputs', 'histories'],
         'every schedule, block, account, hold reason, held and free balance (up to 2^120), list of schedules up to the configured maximum',
         'Tests release two or three schedules with round numbers at a few blocks; saturation, rates that do not divide the amount, and held balances below what is scheduled are not sampled.',
         [LI, LT, L], where(LI, 'do_vest', 'report_schedule_updates', 'exec_action', 'write_release', 'write_vesting_schedule', 'ReleaseSchedule::vest') +
         where(LT, 'VestingInfo::locked_at', 'VestingInfo::releaseble_at', 'VestingInfo::ending_block_as_balance') + where(L, 'vest', 'vest_other'), STUB + 'Lists of schedules have any length up to the maximum (proved, not unrolled). Stored schedules lock and release at least one unit (kept by L02 and L03). Releasing for all reasons at once (vest_all) is not covered. ')
    prop('L02', 'A new release schedule is valid, fits, and is paid for in full',
         'A schedule is added only if it locks something and releases something every block and the account has room for it; asking first gives the same answer as adding. '
         'A vested transfer takes exactly the scheduled amount, at least the minimum, from the source and holds it for the target; only root can force one from another account. '
         'What other schedules have vested is released on the way as in a plain release, and nothing else changes.',
         ['inputs', 'histories', 'configurations'],
         'every origin, source, target, schedule, list of schedules up to the maximum, block, balance',
         'Tests add schedules to accounts with fixed schedules at fixed blocks; additions that coincide with the end of other schedules or with a full list are single samples.',
         [LI, L], where(LI, 'do_vested_transfer', 'add_release_schedule', 'set_release_schedule', 'can_add_release_schedule') + where(L, 'vested_transfer', 'force_vested_transfer'), STUB)
    prop('L03', 'Merging two release schedules keeps what is locked and does not end early',
         'Merging two schedules of an account replaces them by one that locks what both lock now, starts at the latest of now and their starts, and runs to their later end; if only one still runs it is kept unchanged, if none, neither. '
         'Everything already vested is released, the other schedules are kept, and merging a schedule with itself or with one that does not exist changes nothing.',
         ['inputs', 'histories'],
         'every pair of schedules and indices, every block, balance and list of schedules up to the maximum',
         'Tests merge hand-picked pairs; the position of the two in the list, schedules that both have not started, and ends that are not a multiple of the rate are not sampled.',
         [L, LI], where(L, 'merge_schedules') + where(LI, 'merge_vesting_info', 'exec_action', 'report_schedule_updates'), STUB)
    prop('L04', 'Vested and scheduled amounts are reported and dropped exactly',
         'The amount reported as vested is exactly what the schedules of the account and reason no longer lock, the scheduled amount the sum of their amounts, and there is none without schedules. '
         'Dropping one schedule frees exactly what no other schedule locks and keeps the others, dropping all frees everything held for the reason, and neither touches another account or reason.',
         ['inputs', 'histories'],
         'every list of schedules up to the maximum, every index, block and balance',
         'Tests ask for one or two schedules before and after their end; long ended schedules with large rates and mixes of ended and running ones are not sampled.',
         [LI, LT], where(LI, 'vesting_balance', 'total_scheduled_amount', 'remove_vesting_schedule', 'remove_all_vesting_schedules') + where(LT, 'VestingInfo::releaseble_at'), STUB)
    prop('P01', 'Bonding on behalf of a user moves exactly the bond and the fee',
         'When the treasury bonds for a user, exactly the bond moves from the treasury into a hold on the sub-account, which also gets the existential deposit if it lacks it, and the user pays exactly the fee into the sub-account while keeping the minimum balance. '
         'The fee is the configured share of the value of the bond at the current prices, in the fee asset; without both prices nothing happens. '
         'A refund returns exactly the fee to the user, and no other account, hold or asset changes.',
         ['inputs', 'histories', 'configurations'],
         'every user, sub-account, amount (up to 2^100), fee asset with up to 18 decimals, prices up to 2^86 in 10^-18 units, fee share, balances up to 2^120',
         'Tests use one price and one percentage; the rounding of three chained fixed-point conversions, missing deposits and other sub-accounts are not sampled.',
         [XF, X], where(XF, 'bond_on_behalf_of', 'calculate_fee', 'refund_fee', 'get_bonding_account'), STUB + 'Sub-accounts are given by a one-to-one numbering instead of a hash. ')
    prop('P02', 'Bonds and fees leave a sub-account only as its release says',
         'Bonds go back to the treasury only once a release is recorded for the sub-account and reason, and, if it is locked until a block, not before that block; from then on any signed account can send them back, all of them and only those. '
         'Fees go to the fee recipient only when the bonds are kept for a time, never when they are to be refunded, and then all of them. '
         'Recording a release changes that sub-account and reason alone.',
         ['inputs', 'histories'],
         'every sub-account, reason, recorded release, block, origin, fee asset and balances up to 2^120',
         'Tests release one sub-account at one block; the boundary block, other reasons and refunded releases after a locked one are not sampled.',
         [X, XF], where(X, 'transfer_bonds_back_to_treasury', 'transfer_fees_to_recipient') + where(XF, 'set_release_type'), STUB)
    prop('F01', 'Every person has one project at a time, described within the limits',
         'An institutional user with a credential and no other active project, and nobody else, creates a project with a valid description; it starts with all its tokens to sell, a target of what they cost, and an auction at the lowest price with a tenth more for each further tenth. '
         'Until its evaluation starts the issuer, and nobody else, changes its description or removes it, which lets exactly its issuer create another. '
         'A valid description keeps prices, ticket sizes, token amounts, decimals and targets within the documented limits.',
         ['inputs', 'histories'],
         'every origin, credential, description, project state and issuer',
         'Tests create projects from a few descriptions and remove them by the person who created them; the edges of the limits, issuers with a second credential and other projects are not sampled.',
         [FP + '1_application.rs', 'pallets/funding/src/types.rs'],
         where(FP + '1_application.rs', 'do_create_project', 'project_validation', 'do_edit_project', 'do_remove_project') + where('pallets/funding/src/types.rs', 'is_valid', 'new'), FUND)
    prop('F02', 'A project is evaluated in its own time, by bonds worth what they claim',
         'Only the institutional issuer of a complete, unfrozen project in application starts its evaluation, which freezes it for exactly the configured time, and which anyone ends after it: into an auction when a tenth of the target was evaluated, as failed (freeing the issuer for another project) otherwise. '
         'During that time, and only then, a user with a credential and the policy of the project, other than its issuer, evaluates it with at least the minimum, holding exactly the bonding tokens worth it; early evaluations are those up to a tenth of the target. '
         'No other project, evaluation or balance changes.',
         ['inputs', 'histories', 'configurations'],
         'every origin, credential, project, evaluation, amount, price, block and configured time and limit',
         'Tests evaluate a few projects with fixed prices and round lengths; the boundary blocks, amounts across the threshold of a tenth and unusual prices are not sampled.',
         [FP + '2_evaluation.rs', FP + 'misc.rs'],
         where(FP + '2_evaluation.rs', 'do_start_evaluation', 'do_end_evaluation', 'do_evaluate') + where(FP + 'misc.rs', 'project_validation', 'try_plmc_evaluation_lock', 'calculate_plmc_bond'), FUND)
    prop('F03', 'A bid takes tokens of the auction at the price of the bucket it falls into',
         'During the auction of a project, and only then, a professional or institutional user with a credential and its policy, other than its issuer, bids for tokens within the limits of ticket size, multiplier, count and auction size. '
         'The bid is kept undecided at the price of the current bucket, or split when it reaches into the next one; each used up bucket is followed by one a step dearer. '
         'Exactly the funding tokens and the bond it is worth leave the bidder, the bond from the treasury for the fee where that is chosen, and no other project, bid or balance changes.',
         ['inputs', 'histories', 'configurations'],
         'every origin, credential, project and bucket state, amount, asset, mode, price, balances up to 2^120',
         'Tests bid with fixed prices and round amounts; bids that use up a bucket exactly, limits across several bids and roundings are sampled a few times only.',
         [FP + '3_auction.rs', FP + 'misc.rs'],
         where(FP + '3_auction.rs', 'do_bid', 'do_perform_bid') + where(FP + 'misc.rs', 'bond_plmc_with_mode', 'try_plmc_participation_lock', 'try_funding_asset_hold', 'calculate_plmc_bond', 'calculate_funding_asset_amount') + where('pallets/funding/src/types.rs', 'update'),
         FUND + MODULAR + 'Bounded: a bid reaches into the next bucket at most, and bidders have no evaluation of the project (their bonds are covered by F05). ')
    prop('F04', 'An auction is won by the dearest, then earliest bids, up to its tokens',
         'Anyone ends an auction once, when its time is over. '
         'Bids win in order of price, then of arrival, until the auctioned tokens run out, the last of them in part, and no more is won than is auctioned; winners are on record, what they won leaves the sale and counts as raised at their price or the weighted average, whichever is lower. '
         'The community round then starts for its configured time, and no other bid or project changes.',
         ['inputs', 'histories', 'configurations'],
         'every origin, project, bucket, price, amount and block, for up to two bids',
         'Tests end a few auctions of generated bids; equal prices, exact fits, a share that runs out and the boundary block are not sampled.',
         [FP + '3_auction.rs', FP + 'misc.rs', 'pallets/funding/src/types.rs'],
         where(FP + '3_auction.rs', 'do_end_auction') + where(FP + 'misc.rs', 'decide_winning_bids', 'transition_project') + where('pallets/funding/src/types.rs', 'calculate_wap', 'cmp'),
         FUND + 'Bounded: projects with at most two bids. The weighted average is a contract of its own, proved for auctions that stay in their first bucket and otherwise a function of the bucket and the share. ')
    prop('F05', 'A contribution buys what is left at the auction price, for what it is worth',
         'In the community round of a project a user with a credential and its policy, other than its issuer and, before the remainder, not a winner of its auction, buys up to what is left within the limits of ticket size, multiplier and count; exactly that leaves the sale and is recorded. '
         'Exactly the funding tokens worth it go to the project, and exactly the bond its multiplier asks for is held: from free balance, from the bonds of the user\'s evaluations down to the part that may be slashed, or from the treasury for the fee. '
         'No other project, contribution or balance changes.',
         ['inputs', 'histories', 'configurations'],
         'every origin, credential, project state, amount, asset, mode, price, balances up to 2^120',
         'Tests contribute with fixed prices and round amounts; partial fills, last tokens, limits across several contributions and roundings are sampled a few times only.',
         [FP + '4_contribution.rs', FP + 'misc.rs'],
         where(FP + '4_contribution.rs', 'do_contribute', 'do_perform_contribution') + where(FP + 'misc.rs', 'bond_plmc_with_mode', 'try_plmc_participation_lock', 'try_funding_asset_hold', 'calculate_plmc_bond', 'calculate_funding_asset_amount', 'calculate_buyable_amount'),
         FUND + MODULAR + 'The use of evaluation bonds is bounded: accounts with at most two evaluations of the project. ')
    prop('F06', 'The sale of a project ends once, and succeeds with a third of its target',
         'A signed account ends the sale of a project in its last round, and of no other, once its time is over or everything is sold. '
         'The project succeeds exactly when a third (33%) of the target was raised; otherwise it fails and its evaluators are marked to be slashed. '
         'Its issuer may then start another project, and settlement may start at once.',
         ['inputs', 'histories'],
         'every origin, project state, target and amount raised, block',
         'Tests end rounds at a few percentages of the target; the exact threshold and calls in other rounds, for sold out projects too, are not sampled.',
         [FP + '5_funding_end.rs'], where(FP + '5_funding_end.rs', 'do_end_funding', 'generate_evaluator_rewards_info'), FUND)
    prop('F07', 'Every participation is settled once, for exactly what the outcome gives',
         'Once the outcome of a project is known its settlement starts, creating its token for a success, and ends when no participation is left. '
         'In between each evaluation, bid and contribution is settled once: its tokens are minted and queued for migration and its funding tokens paid to the project after a success, and returned otherwise. '
         'Bonds are slashed by a fifth, freed, or released over the time of their multiplier, as the outcome says, and no other account, participation or project changes.',
         ['inputs', 'histories'],
         'every origin, project, participation of any mode and asset with a multiplier up to 25 and a bond up to 2^120, price, block',
         'Tests settle a few participations per outcome right after the sale; late settlements, partial acceptances below the auction price and roundings are not sampled.',
         [FP + '6_settlement.rs', FP + 'misc.rs'],
         where(FP + '6_settlement.rs', 'do_start_settlement', 'do_settle_evaluation', 'do_settle_bid', 'do_settle_contribution', 'do_mark_project_as_settled', 'release_participation_bond_for', 'set_plmc_bond_release_with_mode', 'set_release_schedule_for', 'slash_evaluator', 'reward_evaluator') + where(FP + 'misc.rs', 'add_migration', 'create_bucket_from_metadata', 'calculate_fee_allocation'),
         FUND + MODULAR + 'Stored participations are assumed under their own keys, with a multiplier from 1 to 25, and participants without other release schedules (L02 covers those). ')
    prop('F08', 'Tokens migrate once per participant, as the project or its chain confirms',
         'Only the issuer of a settled successful project starts its migration, off chain or to a chain. '
         'Off chain the issuer confirms each participant once; to a ready chain a participant is sent once or again after a failure, and only the answer of that chain to that message confirms it or marks it failed. '
         'The migration is over exactly when nobody is left to wait for, and no other participant or project changes.',
         ['inputs', 'histories', 'schedules'],
         'every origin, credential, project, participant, query, response, queue and counter',
         'Tests confirm every participant once in order; repeated confirmations, answers to old queries and other chains are not sampled.',
         [FP + '7_ct_migration.rs'],
         where(FP + '7_ct_migration.rs', 'do_start_pallet_migration', 'do_start_offchain_migration', 'do_confirm_offchain_migration', 'do_send_pallet_migration_for', 'do_confirm_pallet_migrations', 'do_mark_project_ct_migration_as_finished'),
         FUND + 'The text of the migration message is a function of its arguments. ')
    C = 'polimec-common/common/src/credentials/mod.rs'
    DP = 'pallets/dispenser/src/lib.rs'
    DE = 'pallets/dispenser/src/extensions.rs'
    prop('C01', 'A credential counts only while it is valid, and only for its own account',
         'An extrinsic that needs a credential accepts one exactly when the origin is signed, the verifier accepts the token for the given key, the token was issued to the signer and it has an expiry that has not passed. '
         'What it then says of the person (identity, kind of investor, policy) is exactly what was issued.',
         ['inputs'],
         'every origin, token content, time and expiry (before 1970 too)',
         'Tests use fresh tokens for the right account; other subjects, missing, past and negative expiries are not sampled together.',
         [C], where(C, 'try_origin', 'ensure_origin', 'verify_token'),
         STUB + 'The signature check of the token library (not available here) is assumed: its result is a function of the key and the token. ')
    prop('G01', 'Everyone with a credential of the policy is dispensed tokens exactly once',
         'A signed origin with a credential of the accepted policy whose identity was not served before is dispensed exactly the configured amount from the account of the dispenser, and nobody else is. '
         'All but the free part of it is vested in equal parts over the vesting period, starting after the lock period. '
         'Only the administrator changes the amount, to one above the free part, and nothing else changes.',
         ['inputs', 'histories', 'configurations'],
         'every origin, credential, amount, balance, block and configured period',
         'Tests dispense one fixed amount to one account; second accounts of one person, empty dispensers and other periods are not sampled.',
         [DP], where(DP, 'dispense', 'set_dispense_amount'),
         STUB + 'The vesting pallet enters with its contract: it refuses the schedule, or adds it as given. ')
    prop('G02', 'A signed transaction runs at most once, in order',
         'A transaction with a number is run exactly when it is the next number of its account, and the account exists or the transaction asks the dispenser for tokens; the number then goes up by one. '
         'A number that was used is not valid again, one that is too high waits for those before it, and no other account changes.',
         ['inputs', 'histories'],
         'every account, call, number and account state (numbers below 2^32 - 1)',
         'Tests check a handful of numbers for a fresh and an existing account.',
         [DE], where(DE, 'validate', 'pre_dispatch'), STUB)
    PK, PT = 'pallets/parachain-staking/src/lib.rs', 'pallets/parachain-staking/src/types.rs'
    prop('K01', 'Staking settings are valid and set only by whom they are entrusted to',
         'Inflation, expected stake and the parachain reserve are set by monetary governance; the length of rounds, the number of collators and their commission by root; nobody else sets them, and setting one leaves the others alone. '
         'Ranges are ordered, rounds are longer than the number of collators and than the configured minimum, and the inflation of a round always follows from that of a year and the length of rounds.',
         ['inputs'],
         'every origin, setting and value',
         'Tests set a few values from a few origins, and compare rates of rounds for one length.',
         [PK, 'pallets/parachain-staking/src/inflation.rs'], where(PK, 'set_staking_expectations', 'set_inflation', 'set_blocks_per_round', 'set_total_selected', 'set_collator_commission', 'set_parachain_bond_account'),
         STUB + 'The rate of a round is a function of the yearly one and of the rounds per year; its floating point is not looked into. ')
    prop('K02', 'A collator has exactly its bond on hold, and is in the pool exactly while online',
         'Joining, bonding more and an executed request to bond less put or release exactly that amount on hold, and change bond, counted stake and total by it; requests wait for the configured rounds, keep the minimum bond and are executed once. '
         'The candidate pool stays ordered, holds each online collator once with its counted stake, loses who goes offline or leaves, and no step of one collator touches another.',
         ['inputs', 'histories'],
         'every pool, collator, caller and amount (held and free balances up to 2^120)',
         'Tests follow pools of a few collators through fixed steps; orders of accounts in larger pools, and pools other than those they build, are not reached.',
         [PK, PT, 'pallets/parachain-staking/src/set.rs'], where(PK, 'join_candidates', 'go_offline', 'candidate_bond_more', 'execute_candidate_bond_less') + where(PT, 'schedule_bond_less', 'bond_more'),
         STUB + 'The pool is assumed ordered before each step, as the contracts show each step leaves it. The hold and release of funds enter with the contract of fungible holds. ')
    DR = 'pallets/parachain-staking/src/delegation_requests.rs'
    prop('K03', 'Requests to delegate less or nothing wait their rounds, one at a time',
         'A delegator asks at most once per collator to revoke its delegation or make it smaller, with the result keeping its minima; the request names the delegator, the amount and the round in which its own kind of request becomes due. '
         'What is pending is remembered, the delegator alone cancels it before, and no delegation, amount on hold or request of anyone else changes by asking or cancelling.',
         ['inputs', 'histories'],
         'every list of requests, delegator, collator, amount and round',
         'Tests ask once with runtime settings under which the waiting times of both kinds are the same.',
         [PK, DR], where(DR, 'delegation_schedule_revoke', 'delegation_schedule_bond_decrease', 'delegation_cancel_request'),
         STUB + 'A delegator is assumed to remember each collator once, in order. ')
    prop('K04', 'The largest delegations to a collator count, and totals are sums',
         'Through new, larger, smaller, replaced and revoked delegations, the largest ones up to the limit are counted and the rest wait in order, and the totals, the least and largest kept amounts and the pool follow from the lists. '
         'Exactly the named delegation changes by exactly the amount, the delegator remembers it, and what it delegates in total is on hold; a request is executed only when due.',
         ['inputs', 'histories'],
         'at most two counted and two other delegations per collator, every amount up to 2^120, order and account (a bounded stand-in: closures of the code write what they capture, which the verifier follows only for lists of known length)',
         'Tests push a few delegations of fixed amounts; equal amounts, moves between the lists with other totals, and most histories are not sampled.',
         [PK, PT], where(PT, 'add_delegation', 'increase_delegation', 'decrease_delegation', 'rm_delegation_if_exists') + where(DR, 'delegation_execute_scheduled_request'),
         STUB + 'Bounded, not proved: lists of at most two counted and two other delegations and one delegation of each delegator (two when one is revoked). ')
    prop('K05', 'Each round pays its authors and their delegators exactly the issued reward',
         'What is issued for a round is shared by points among the collators that authored blocks in it, and by counted stake between each collator and its delegators, and no more is paid than was issued. '
         'A collator or delegator is paid once per round.',
         ['inputs', 'histories'], 'every round, set of authors and points', 'Tests pay fixed rounds.', [PK], where(PK, 'pay_one_collator_reward', 'prepare_staking_payouts'), '')
    OC, RC, FF = 'pallets/oracle-ocw/src/lib.rs', 'pallets/polimec-receiver/src/lib.rs', 'pallets/funding/src/functions/6_settlement.rs'
    prop('O01', 'Prices offered to the oracle are the averages of what exchanges answered',
         'The off-chain worker of a feeder submits, signed, the volume weighted average of the candles it fetched for each asset, and nothing for an asset that no exchange answered. ',
         ['inputs', 'environment'], 'every answer of the exchanges', 'Tests mock a few fixed answers.', [OC], where(OC, 'fetch_prices'), '')
    prop('R01', 'A migration is executed on the receiving chain once, as sent',
         'Only messages of the Polimec chain execute migrations, each for an account of this chain and at most once, whether it comes again in the same message or in a later one. '
         'Executing it moves exactly its amount from the account of Polimec to the named account, never below the minimum, and starts one vesting schedule of that amount; no one else is paid and no other migration is recorded.',
         ['inputs', 'histories'],
         'every origin, migration, amount, time and balance up to 2^120, for messages of one migration (proved) and of two (bounded)',
         'There are no tests of the receiving pallet.',
         [RC], where(RC, 'execute_migrations'),
         STUB + 'Messages of more than two migrations are not covered. The number of the Polimec chain is fixed to 3344; currency and vesting enter with their contracts. ')
