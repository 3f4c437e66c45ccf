#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'pallets/democracy/src/lib.rs'
P = []


def prop(id, title, statement, over, q, why, files, mech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, state=state))


def where(f, *names):
    return [{'name': n, 'where': f} for n in names]


COMMON = ('Assumes the documented contracts of the balance traits (hold, freeze, release), of FRAME storage and of the '
          'scheduler/preimage traits, given as executable ghost implementations in harness/src/ghost.rs, and the '
          'roll-back of a failing extrinsic; the generic pallet is verified at one instantiation whose constants and '
          'origins are symbolic. Hash functions are uninterpreted. ')

prop('D01', 'A vote counts once, at its conviction weight, and is backed by a freeze',
     'When a direct voter casts or replaces a vote on an ongoing referendum, the tally of that referendum changes by exactly the new vote\'s weight '
     '(its conviction-weighted balance plus votes delegated to the voter, on its side) minus the weight of the voter\'s previous vote on it, turnout likewise. '
     'The vote is recorded, is never larger than the voter\'s total balance, and at least that balance is frozen afterwards, without lowering an existing freeze. '
     'Nothing else changes: no other referendum, account, vote, delegation or prior lock.',
     ['inputs', 'histories', 'configurations'],
     'every voter, referendum, vote (standard with any conviction, split), any reachable vote list up to the configured bound, any tally, delegations and balances below 2^120',
     'Tests use a handful of voters with small balances; replacement of a vote in the middle of a long vote list, split votes with delegations, and frame conditions over other accounts are never sampled.',
     [D, 'pallets/democracy/src/types.rs', 'pallets/democracy/src/vote.rs', 'pallets/democracy/src/conviction.rs'],
     where(D, 'vote', 'try_vote') + where('pallets/democracy/src/types.rs', 'Tally::add', 'Tally::remove', 'Tally::increase', 'Tally::reduce'),
     'The sortedness and boundedness of vote lists is assumed before and proved after. ')
prop('D02', 'Removing a vote takes back exactly its weight and keeps the lock it earned',
     'Removing a vote removes exactly that vote: on an ongoing referendum the tally falls by exactly its weight and no lock arises; on a finished referendum the outcome stays, '
     'and only a winning standard vote whose conviction period has not passed leaves a lock on its balance until that time. '
     'On an ongoing referendum only the owner can remove the vote, and can always do so; others can remove a vote only once it locks nothing.',
     ['inputs', 'histories', 'configurations'],
     'every account, target and referendum in any state (ongoing, finished, cancelled), every vote and conviction, every current block',
     'Unit tests pick one conviction and block per scenario; the lock condition depends on end + period * conviction against the current block for each of seven convictions and on the prior lock.',
     [D, 'pallets/democracy/src/vote.rs', 'pallets/democracy/src/types.rs'],
     where(D, 'remove_vote', 'remove_other_vote', 'try_remove_vote') + where('pallets/democracy/src/vote.rs', 'PriorLock::accumulate', 'AccountVote::locked_if'),
     'The tally is assumed to contain the vote being removed. ')
prop('D03', 'Conviction multiplies votes and lock time as documented; vote bytes round-trip',
     'A vote without conviction counts a tenth of its capital and locks nothing; conviction k (1 to 6) counts k times its capital (saturating) and locks the winning side for 2^(k-1) enactment periods; '
     'losing and split votes are never locked. '
     'A standard vote encodes into one byte whose top bit is the side and whose low bits are the conviction; decoding inverts it and rejects every other byte.',
     ['inputs'], 'all seven convictions, all 2^128 capitals, all 256 bytes',
     'Tests check a few capitals and never the decode rejection or saturation for all bytes and amounts.',
     ['pallets/democracy/src/conviction.rs', 'pallets/democracy/src/vote.rs'],
     where('pallets/democracy/src/conviction.rs', 'Conviction::votes', 'Conviction::lock_periods') + where('pallets/democracy/src/vote.rs', 'AccountVote::locked_if', 'Vote::encode_to', 'Vote::decode'), '')
prop('D04', 'A referendum passes exactly when its turnout-biased threshold is met',
     'Super-majority-approve passes iff nays/sqrt(turnout) < ayes/sqrt(electorate), super-majority-against iff nays/sqrt(electorate) < ayes/sqrt(turnout), simple majority iff ayes > nays, '
     'where square roots are integer square roots and the fractions are compared exactly; with no turnout nothing passes.',
     ['inputs'], 'all ayes, nays, turnout and electorate below 2^120',
     'The comparison is Euclid\'s algorithm on 128-bit fractions; tests try a few dozen numbers.',
     ['pallets/democracy/src/vote_threshold.rs'], where('pallets/democracy/src/vote_threshold.rs', 'compare_rationals', 'Approved::approved'),
     'The loop of the fraction comparison is proved with an inductive invariant. Integer square root is specified by r*r <= x < (r+1)*(r+1). ')
prop('D05', 'Delegated votes follow the delegate and are taken back in full',
     'Delegating adds exactly the conviction-weighted balance to the delegate and, on every ongoing referendum on which the delegate has a standard vote, to that side of the tally; '
     'changing or ending a delegation takes exactly the former amount back from the former delegate and those tallies, and leaves a lock on the formerly delegated balance for its conviction period. '
     'Nobody delegates to themselves, an account with votes cannot delegate, the delegated balance is backed and frozen, and no other vote, delegation, lock or referendum changes.',
     ['inputs', 'histories', 'configurations'],
     'every delegator, delegate, conviction and balance; every vote list of old and new delegate; every referendum in any state',
     'The effect on tallies is a loop over the delegate\'s whole vote list; tests use one or two votes.',
     [D, 'pallets/democracy/src/types.rs', 'pallets/democracy/src/vote.rs'],
     where(D, 'delegate', 'undelegate', 'try_delegate', 'try_undelegate', 'increase_upstream_delegation', 'reduce_upstream_delegation'),
     'The loops over the delegate\'s votes are summarised exactly for vote lists of any length. The delegate\'s stored delegations and tallies are assumed to contain the amount being taken back. ')
prop('D06', 'Unlocking frees exactly what no vote, delegation or unexpired lock still needs',
     'After unlocking, an account\'s freeze equals the largest of its standing votes\' balances (or its delegated balance) and its unexpired prior lock, and a prior lock lapses exactly from its end block on; '
     'anyone may trigger it, votes and delegations are not touched, and no other account is affected.',
     ['inputs', 'histories'], 'every caller, target, vote list of any length, prior lock and block',
     'The freeze is a maximum over the whole vote list; tests have at most a few votes and probe a few blocks.',
     [D, 'pallets/democracy/src/vote.rs'], where(D, 'unlock', 'update_lock') + where('pallets/democracy/src/vote.rs', 'Voting::rejig', 'Voting::locked_balance', 'PriorLock::rejig'), '')
prop('D07', 'Proposing and seconding hold exactly the deposit and keep the queue intact',
     'A proposal by the submit origin is accepted iff the deposit is at least the minimum and covered by free balance, the queue has room and the proposal is not blacklisted; it is queued behind the others under a fresh index with its proposer as first depositor. '
     'Seconding by a signed account is accepted iff the proposal exists, the seconder can pay the same deposit and the depositor list has room, and appends the seconder. '
     'Either moves exactly the deposit of the caller from free to held and changes nothing else.',
     ['inputs', 'histories', 'configurations'], 'every origin, call, value, queue and depositor list up to the configured bounds',
     'Tests run with fixed bounds and small queues, and never look at other entries.',
     [D], where(D, 'propose', 'second', 'len_of_deposit_of', 'decode_compact_u32_at'), 'At most 2^32-1 proposals are ever made. ')
prop('D10', 'External proposals come only from their origin and can be vetoed once per member',
     'Each external-proposal call is accepted exactly from its own origin and fixes the threshold of that origin; the plain one additionally needs an empty slot and a proposal that is not (or no longer) blacklisted. '
     'A veto succeeds iff the vetoer has not vetoed that proposal before, the proposal is the waiting one and the list of vetoers has room; it empties the slot, drops its metadata and blacklists the proposal for the cool-off period, remembering all vetoers in order. '
     'Nothing else changes.',
     ['inputs', 'histories', 'configurations'], 'every origin, proposal, blacklist entry and vetoer list',
     'Tests use two vetoers and one cool-off period.',
     [D], where(D, 'external_propose', 'external_propose_majority', 'external_propose_default', 'veto_external'), '')
prop('D11', 'Fast-tracking starts the waiting external proposal only when entitled',
     'Fast-tracking succeeds iff the waiting external proposal has the given hash and is not super-majority-approve, the voting period is positive, and the origin is either the fast-track origin with a period no shorter than the minimum or the instant origin when instant voting is allowed. '
     'It then starts exactly one referendum under the next index, on that proposal, with its threshold, the given delay, an empty tally and an end exactly the voting period from now, moves the metadata along and empties the slot.',
     ['inputs', 'histories', 'configurations'], 'every origin, hash, period, delay and external proposal',
     'Tests fix two origins and one minimum period.', [D], where(D, 'fast_track', 'inject_referendum', 'transfer_metadata'), 'At most 2^32-1 referenda are ever started. ')
prop('D12', 'Cancelling and blacklisting remove only their target and slash its deposits',
     'Cancelling a proposal or blacklisting it removes that proposal from the queue with its deposits and metadata, and every depositor loses one deposit per signature from what is held, all of which goes to the slash handler. '
     'Cancelling a referendum removes only it (an emergency cancellation at most once per proposal); blacklisting bans the proposal for good, withdraws it from the external slot, and cancels the named ongoing referendum only if it is on that proposal; clearing the queue empties it. '
     'Each works only for its own origin and touches no other proposal, deposit, referendum or metadata.',
     ['inputs', 'histories', 'configurations'], 'every origin, index and hash; every queue; every depositor list with repeated depositors',
     'Slashing is a loop over depositors, blacklisting searches the queue; tests have one or two entries of each.',
     [D], where(D, 'cancel_referendum', 'emergency_cancel', 'cancel_proposal', 'blacklist', 'clear_public_proposals', 'internal_cancel_referendum'),
     'The fungible slash is the real default implementation over the ghost holds. Queued proposals are assumed to have distinct indices (proved to be kept by proposing). ')
prop('D13', 'Voting, delegating, seconding and unlocking need a signed origin',
     'Seconding, voting, removing votes, delegating, undelegating and unlocking are refused for every origin that is not a signed account.',
     ['inputs'], 'every unsigned origin and every argument', 'Tests only call with signed origins.', [D],
     where(D, 'second', 'vote', 'remove_vote', 'remove_other_vote', 'unlock', 'delegate', 'undelegate'), '')
prop('D14', 'Metadata is set or cleared only by those entitled to it',
     'Metadata of the external proposal is set or cleared only by the external origin matching its threshold, of a queued proposal only by its proposer, of an ongoing referendum only by root; metadata of a finished or unknown referendum may be cleared by anyone signed. '
     'A hash may be set only if its preimage is stored, and nothing but that metadata entry changes.',
     ['inputs', 'histories'], 'every origin, owner and hash, every queue of proposals', 'The proposer is found by searching the queue; tests have one entry.',
     [D], where(D, 'set_metadata', 'proposal', 'ensure_external_origin'), '')

from props_more import more
more(prop, where)

NA = []
TECH = 'contract-based deductive verification of the crate\'s MIR (generated verification conditions, z3/cvc5)'
LEVEL = ('Every obligation generated from the current MIR of the real functions is discharged by the SMT solver for all inputs '
         'and all loop iterations. ')


def main():
    with open(V + '/properties.jsonl', 'w') as o:
        for p in P:
            a = {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}
            if p['state']:
                a['state'] = p['state']
            o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
            assert len(p['title']) <= 80, p['id']
    from props_more import NOT_APPLICABLE
    na = {x for x, _ in NOT_APPLICABLE}
    m = {'version': 1, 'setup_cmd': 'tools/setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['id'] in na:
            continue
        m['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check %s --thorough' % p['id'],
                            'technique': TECH, 'level': 'proof', 'level_note': LEVEL + p['note'] + COMMON})
    for x, r in NOT_APPLICABLE:
        m['not_applicable'].append({'property': x, 'reason': r})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')


def design():
    import glob, re
    from props_more import NOT_APPLICABLE
    na = {x for x, _ in NOT_APPLICABLE}
    s = open(V + '/DESIGN.md').read()

    def put(s, tag, lines):
        a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
        return s[:s.index(a) + len(a)] + '\n' + '\n'.join(lines) + '\n' + s[s.index(b):]
    rows = []
    tab = re.findall(r'"(\w+)::(vc_(\w+?)_\w+)"', open(V + '/harness/src/table.rs').read())
    for p in P:
        if p['id'] in na:
            continue
        c = ', '.join('`%s`' % n for m, n, i in tab if i == p['id'].lower())
        rows.append('| %s | %s | %s. Anchored at %s. %s |' % (p['id'], c, p['title'], ', '.join('`%s`' % m['name'] for m in p['mech']), p['note']))
    s = put(s, 'props', rows)
    bugs = []
    if os.path.exists(V + '/tools/bugs.tsv'):
        bugs = ['| %s | %s | %s |' % tuple(l.rstrip('\n').split('\t')) for l in open(V + '/tools/bugs.tsv')]
    s = put(s, 'bugs', bugs)
    s = put(s, 'na', ['* %s: %s' % x for x in NOT_APPLICABLE])
    s = s.replace('|----|-----------|----------------|\n<!-- props -->', '|----|-----------|----------------|\n<!-- props -->')
    open(V + '/DESIGN.md', 'w').write(s)


main()
design()
