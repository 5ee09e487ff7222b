#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the data below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
T = 'contract-based deductive verification (SMT-discharged contracts on the real code)'
TF = 'contract-based deductive verification (Taylor-model and SMT-discharged contracts on the real code)'
C = 'contracts/'
TOK = [C + 'irc_token/irc_token.py', C + 'flexible_token/flexible_token.py', C + 'icx_token/icx_token.py']
OWN = [C + 'utility/owned.py', C + 'utility/managed.py']
CV = [C + 'converter/converter.py']
FTC = C + 'utility/flexible_token_controller.py'
NW = [C + 'network/network.py']
FM = [C + 'formula/fixed_map_formula.py']


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=(), tech=T):
    assert len(title) <= 80, id
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           **({'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]} if state else {}),
                           **({'observe_at': list(observe)} if observe else {})}, _note=note, _tech=tech))


BASE = ('Every obligation is discharged for all inputs and all stored states, by executing the real source on symbolic values '
        'against assumed contracts of the ICON platform; other SCOREs enter by contract or as arbitrary. Solvers, CPython and '
        'the platform contracts are trusted; the latter are cross-checked against the real iconservice on every run.')

prop('C01', 'Token supply always equals the sum of all balances',
     'For every token of the DEX (plain, flexible and ICX-backed), the total supply equals the sum of all balances and no balance is '
     'ever negative, from deployment on and after every operation, whether it succeeds or fails. This also holds at every moment '
     'another contract is called. The deployer of a plain or flexible token starts with exactly initial supply x 10^decimals.',
     ['inputs', 'histories'], 'all operations, senders, amounts, stored balances and re-entrant callees; by induction all histories',
     'tests check a handful of transfers between two or three accounts; conservation is a statement over every operation, alias of '
     'parties and re-entrant callee', TOK,
     [('balance and supply updates in transfer, issue, destroy, deposit, withdraw', C + 'irc_token/irc_token.py:_transfer')],
     BASE, [('_balances / _total_supply', 'ledger', C + 'irc_token/irc_token.py')], ['totalSupply', 'balanceOf'])
prop('C02', 'A transfer moves exactly the amount asked, from the caller only',
     'A token transfer succeeds only for a non-negative amount the caller holds, moves exactly that amount from the caller to the '
     'recipient, changes no other balance and announces it. A recipient contract is told the true sender, amount and data, exactly once, after '
     'the balances are final, and its refusal undoes everything; a transfer to an ordinary account calls nothing.',
     ['inputs', 'histories'], 'all senders, recipients (including self and contracts), amounts, data and stored balances',
     'tests transfer a few fixed amounts between distinct mocked accounts; self-transfers, re-entrant or refusing recipients and '
     'extreme amounts are not covered', TOK, [('transfer', C + 'irc_token/irc_token.py:_transfer')], BASE,
     observe=['transfer', 'balanceOf', 'Transfer event', 'tokenFallback'])
prop('C03', 'Only the owner mints flexible tokens; only owner or holder burns them',
     'Flexible tokens are created only by their owner, a positive amount at a time, credited in full to the named account. They are destroyed only by '
     'the owner, or by a holder from the holder\'s own balance, never below zero. No other operation of a plain or flexible token changes the supply.',
     ['inputs', 'histories'], 'all callers, targets, amounts, stored states, and every external operation',
     'tests call issue and destroy with one owner and one stranger; "no other operation" ranges over the whole interface',
     [C + 'flexible_token/flexible_token.py'], [('issue', C + 'flexible_token/flexible_token.py:issue'),
                                               ('destroy', C + 'flexible_token/flexible_token.py:destroy')], BASE)
prop('C04', 'While a flexible token is locked nobody can transfer it',
     'The owner, and only the owner, can lock and unlock transfers of a flexible token. While locked, every transfer is refused '
     'whoever asks; issuing and destroying keep working. A new token is transferable.',
     ['inputs', 'histories'], 'all callers, transfers, lock histories and other operations',
     'tests toggle the flag once and try one transfer; no test shows that no other operation changes or bypasses the lock',
     [C + 'flexible_token/flexible_token.py'], [('transfer lock', C + 'flexible_token/flexible_token.py:require_transfer_allowed')], BASE)
prop('C05', 'The ICX token is always fully backed by the ICX it holds',
     'The supply of the ICX token always equals the ICX it holds. Paying ICX in mints exactly that amount for the payer; withdrawing pays out exactly '
     'the amount burned from the caller, to the account asked for, or does nothing at all. No other operation moves ICX or supply.',
     ['inputs', 'histories', 'fault_sequences'], 'all callers, amounts, recipients (self, contracts that re-enter or refuse), operations',
     'tests use mocked ICX transfers and a few amounts; re-entrancy during payout and failing payouts are not reached',
     [C + 'icx_token/icx_token.py'], [('deposit/withdraw', C + 'icx_token/icx_token.py:withdrawTo')], BASE,
     observe=['icx balance', 'totalSupply'])
prop('C06', 'Ownership changes only by nomination and acceptance',
     'The owner of each contract changes only when the owner has nominated an account and that very account accepts; the nomination is then used up. Nobody else can '
     'nominate or accept, nominating oneself is refused, and no other operation changes owner or nominee. The deployer is the first owner.',
     ['inputs', 'histories'], 'all contracts, callers, nominees, and operation histories',
     'tests walk one hand-over on one contract; the claim quantifies over every external operation of every contract',
     [OWN[0]], [('transferOwnerShip / acceptOwnerShip', OWN[0])], BASE)
prop('C07', 'Management changes only by nomination and acceptance',
     'The manager of a converter changes only when the owner or the manager has nominated an account and that very account accepts; the nomination is then used up. '
     'Nobody else can nominate or accept and no other operation changes manager or nominee. The deployer is the first manager.',
     ['inputs', 'histories'], 'all callers, nominees, and operation histories',
     'tests walk one hand-over on an isolated mixin; its wiring into the converter (installation included) is not tested',
     [OWN[1]] + CV, [('transferManagement / acceptManagement', OWN[1])], BASE)
prop('C08', 'Privileged operations refuse everyone but the role they are reserved for',
     'Every operation that changes a setting, a role, a registration or held funds is accepted only from the owner (or, where so documented, the manager) of '
     'the contract called. An account holding none of the roles cannot change any setting of any contract by any operation.',
     ['inputs', 'histories'], 'all contracts, all external operations, all callers and arguments, all stored states',
     'tests try one stranger per operation with fixed arguments; the second sentence quantifies over the whole interface',
     OWN + CV + NW + [FTC, C + 'score_registry/score_registry.py'], [('require_owner_only', OWN[0]), ('require_owner_or_manager_only', OWN[1])], BASE)
prop('C09', 'Held tokens leave only by the owner\'s withdrawal, to the named recipient',
     'Tokens held by a contract can be withdrawn only by its owner, in exactly the amount and to exactly the recipient named, and the recipient is neither the contract itself '
     'nor nobody. While a converter is active its connector tokens cannot be withdrawn this way. Withdrawing from the token a controller owns obeys the same rule.',
     ['inputs', 'histories'], 'all callers, tokens, recipients, amounts and stored states',
     'tests check one withdrawal with mocks; aliasing of recipient, token and contract is not covered',
     [C + 'utility/token_holder.py', FTC] + CV, [('withdrawTokens', C + 'utility/token_holder.py:withdrawTokens'),
                                                 ('withdrawFromToken', FTC + ':withdrawFromToken')], BASE)
prop('C10', 'The registry answers exactly what its owner registered',
     'Looking up a name returns the contract address its owner last registered for it and nothing once it is unregistered, and never fails. Only the owner registers or '
     'unregisters, only contract addresses under listed names; changing one name leaves all others alone. A new registry lists only itself.',
     ['inputs', 'histories'], 'all names, addresses, callers and registration histories',
     'tests register two names; independence between names and look-up of unknown names are universal claims',
     [C + 'score_registry/score_registry.py'], [('registerAddress', C + 'score_registry/score_registry.py')], BASE)
prop('C11', 'A converter follows a new registry only via its current one',
     'A converter starts on the registry given at deployment, which must be a proper one, and changes it only to the one its current registry names, or back to the previous one at the request of its owner or manager; it never moves to nowhere. While updates are '
     'switched off, as they are after going back, nobody but the owner can trigger one. Update then restore leads back to the same registry.',
     ['inputs', 'histories'], 'all callers, registry answers (arbitrary), switch settings and histories',
     'tests use one mocked registry answer; hostile or empty answers and interleavings with the switch are not covered',
     CV, [('updateRegistry / restoreRegistry', CV[0])], BASE)
prop('C12', 'Connector weights stay positive and never sum above 100%',
     'Every connector of a converter has a weight between 1 and 1,000,000 ppm and all weights together never exceed 1,000,000. Each connector is a distinct contract other than the '
     'converter and its token, keeps its place forever, and is defined (while the converter is inactive) or changed only by the owner.',
     ['inputs', 'histories'], 'all connectors, weights, operations and configuration histories',
     'tests add one or two connectors; the sum bound is an invariant over histories of adds and updates',
     CV, [('addConnector / updateConnector', CV[0])], BASE + ' The histories-from-installation specification is bounded to three connectors; the invariant itself is proved inductively.')
prop('C13', 'The conversion fee never exceeds the maximum fixed at deployment',
     'The conversion fee of a converter is always between zero and the maximum fixed at deployment, which is itself at most 100% and never changes. Only the owner or the manager '
     'changes the fee, and the change is announced with the old and new fee.', ['inputs', 'histories'],
     'all callers, fees, deployment parameters and histories', 'tests set two fees; that no other operation moves fee or maximum is universal',
     CV, [('setConversionFee', CV[0])], BASE)
prop('C14', 'The fee taken is exactly the documented fraction, never more',
     'What is left after fees is floor(amount x ((1,000,000 - fee) / 1,000,000)^n), with n = 1 for buying or selling and n = 2 between two connectors; it is never negative and '
     'never above the amount. Quotes report exactly this amount, and the difference as the fee, and are given wherever a price is defined.', ['inputs'],
     'all amounts, all fees, both magnitudes', 'tests compare a few values', CV, [('getFinalAmount', CV[0] + ':getFinalAmount')], BASE)
TR = ('Tokens, the network and the pricing formula enter by their contracts, which are discharged on their real code under this same property '
      '(the link obligations); other SCOREs are arbitrary.')
prop('C15', 'Buying mints exactly the priced amount to the buyer',
     'A purchase of the flexible token prices the deposit on the reserve before it arrived, takes the fee, and mints exactly the result to the requester. '
     'It adds the deposit to the virtual reserve exactly when one is in use, touches no other connector, setting or balance, and reports the amounts truthfully.',
     ['inputs', 'histories'], 'all amounts, supplies, reserves, fees, weights, virtual or actual balances, other connectors',
     'tests fix all numbers and mock the formula and the tokens', CV, [('_buy', CV[0] + ':_buy')], BASE + ' ' + TR)
prop('C16', 'Selling burns exactly what is sold and pays exactly the priced amount',
     'A sale of the flexible token burns exactly the tokens sent and pays exactly the priced amount less fee, in the connector asked for, to the requester. '
     'It lowers the virtual reserve by the amount paid exactly when one is in use, touches nothing else, and reports the amounts truthfully.',
     ['inputs', 'histories'], 'all amounts, supplies, reserves, fees, weights, virtual or actual balances', 'tests fix all numbers and mock the formula and the tokens',
     CV, [('_sell', CV[0] + ':_sell')], BASE + ' ' + TR)
prop('C17', 'Converting between connectors pays exactly the priced amount',
     'A conversion between two connectors prices the deposit on the source reserve before it arrived, takes the fee twice, and pays exactly the result to the requester in the target token. '
     'Virtual reserves in use move by exactly the amounts in and out; supply and everything else stay.', ['inputs', 'histories'],
     'all amounts, reserves, fees, weights, virtual or actual balances on either side', 'tests fix all numbers and mock the formula and the tokens',
     CV, [('_convert_cross_connector', CV[0])], BASE + ' ' + TR)
prop('C18', 'A converter never pays less than the minimum asked',
     'A conversion pays at least the minimum return requested or fails entirely, and requests whose minimum is not positive are refused. This includes minimums that are not whole numbers.',
     ['inputs'], 'all requests, prices and fees, all three kinds of conversion', 'tests try one minimum too high per kind',
     CV, [('minimum check', CV[0] + ':_convert')], BASE + ' ' + TR)
prop('C19', 'A conversion pays exactly what was quoted for the same state',
     'For any state and amount, the conversion executed right after a quote returns exactly the quoted amount and reports the quoted fee, for all three kinds of conversion and for virtual as well as '
     'actual reserves. Where the quote is refused the conversion is too; a proper request whose minimum the quote meets goes through, unless conversions are off, '
     'a cross conversion would take half of a virtual or all of an actual reserve, the converter does not hold the amount, or the payment is refused.', ['inputs', 'histories'], 'all states, amounts and kinds of connector',
     'no test compares a quote with its execution', CV, [('get_*_return', CV[0])], BASE + ' ' + TR)
prop('C20', 'No trade empties a reserve unless the whole supply is sold',
     'Whatever price the formula gives, a conversion never pays out the whole of the reserve it is priced on (the virtual one where one is in use, else the actual one), except when the entire supply of the flexible token is sold; no trade ever makes a reserve negative.',
     ['inputs', 'histories'], 'all trades and states', 'tests never approach depletion', CV, [('connector balance condition', CV[0] + ':_sell')], BASE + ' ' + TR)
prop('C21', 'A converter accepts tokens only from the network, or as funding while inactive',
     'Tokens sent to a converter are accepted only as a well-formed conversion request passed on by the registered network, or as funding: connector tokens from the owner or manager while the converter is inactive. '
     'Everything else is refused, so the sender keeps the tokens; funding converts nothing and changes no state; no other operation trades.', ['inputs', 'histories'],
     'all senders, tokens, amounts, data and states', 'tests try a few malformed requests', CV, [('tokenFallback', CV[0] + ':tokenFallback')], BASE + ' ' + TR)
BF = ('Kernels (logarithm, exponential, precision search) are proved by exact Taylor-model / interval evaluation of the real code over their whole domain; power and the '
      'three returns over these contracts with z3; the real-analysis steps between them are Lean theorems, checked on every run. Trusted: the evaluator, z3, Lean, CPython, and the '
      'matching of theorem hypotheses to obligations (DESIGN.md).')
prop('C22', 'Pricing is total on valid inputs and refuses invalid ones',
     'The three pricing functions give a whole number for every valid input and refuse a supply, reserve or weight outside its range and sales above the supply. Results are never negative, a sale returns less '
     'than the reserve unless the whole supply is sold, when it returns all of it, and a cross conversion returns less than the target reserve; a zero amount returns zero.',
     ['inputs'], 'all supplies, reserves, weights and non-negative amounts (deposit plus reserve, or supply, below 2^129)', 'tests evaluate sample points',
     FM, [('calculate_*_return', FM[0])], BF, tech=TF)
prop('C23', 'Pricing never pays more than the exact formula',
     'For every valid input, the purchase, sale and cross-connector returns are never above the exact real-number formula by more than 2^-100 of the reserve involved (for purchases: of the supply after the purchase), and with equal weights or full weight never above it at all.',
     ['inputs'], 'all supplies, reserves, weights and amounts in range', 'tests compare against recorded outputs of the same implementation',
     FM, [('_optimal_log, _general_log, _optimal_exp, _general_exp, _power', FM[0])], BF, tech=TF)
prop('C24', 'Pricing is accurate',
     'While the exact power in the formula is at most 8,885,000 (just below e^16), every return is below the exact real-number value by less than one unit plus 2^-90 of the reserve involved (for purchases: of the exact supply '
     'after the purchase). For larger powers a sale or cross conversion still pays out all but one unit and 1/8,880,000 of the reserve, and a purchase still multiplies the supply by at least 8,880,000, less one unit. '
     'Returns priced without a power (full or equal weight) are exact, rounded down.',
     ['inputs'], 'all supplies, reserves, weights and amounts in range', 'tests compare against recorded outputs of the same implementation',
     FM, [('_optimal_log, _general_log, _optimal_exp, _general_exp, _power', FM[0])], BF, tech=TF)
prop('C25', 'No profit from an immediate round trip',
     'Buying with a deposit and at once selling everything bought, on the resulting supply and reserve, never returns more than the deposit plus 2^-100 of the reserve after the deposit; with full weight never more than the deposit. The same holds for converting '
     'one connector into another and back, exactly so with equal weights.',
     ['inputs', 'histories'], 'all supplies, reserves, weights and amounts in range', 'no test performs a round trip; the claim is over all inputs',
     FM, [('calculate_*_return', FM[0])], BF, tech=TF)
TN = ('Tokens and converters of the DEX enter by contract (discharged as link obligations where the property rests on them), or arbitrarily where stated; '
      'paths of every admissible length (3 to 21) are covered, longer ones symbolically.')
prop('C26', 'The network converts exactly valid paths',
     'Conversions and quotes are accepted only for paths of odd length between 3 and 21 made of valid addresses that use no converter twice; everything else is refused. A valid request is refused only if a token, a converter or the payee refuses or the result is too small.',
     ['inputs'], 'all paths and request encodings', 'tests try one path per length class', NW, [('_require_valid_path', NW[0] + ':_require_valid_path')], BASE + ' ' + TN)
prop('C27', 'The network passes amounts through exactly and keeps nothing',
     'A conversion sends exactly the amount received to the first converter, exactly each result to the next, and exactly the last result to the beneficiary, in the order of the path, wrapping and unwrapping ICX where '
     'the path starts or ends with an ICX token. The network keeps nothing of it, and tells the caller the amount paid.', ['inputs', 'histories'],
     'all paths, amounts, converter answers and beneficiaries', 'tests run mocked two-hop paths', NW, [('_convert_by_path', NW[0] + ':_convert_by_path')], BASE + ' ' + TN)
prop('C28', 'The network starts a conversion only for tokens just received',
     'Tokens sent to the network start a conversion of exactly the amount and token received when the data is a conversion request, are taken silently when they are a conversion result, and are refused otherwise. '
     'The beneficiary is the one named in the request, else the sender.', ['inputs'], 'all senders, tokens, amounts and data',
     'tests try one request of each kind', NW, [('tokenFallback', NW[0] + ':tokenFallback')], BASE + ' ' + TN)
prop('C29', 'The trader gets at least the minimum asked, whatever converters do',
     'A conversion through the network that succeeds pays the beneficiary at least the requested minimum of the target token, even if the converters on the path misbehave; otherwise it fails entirely.',
     ['inputs', 'fault_sequences'], 'all paths, minimums and arbitrary converter behaviour', 'tests use obedient mocks', NW, [('minimum check', NW[0] + ':_convert_for_internal')], BASE + ' ' + TN)
prop('C30', 'The expected return of a path composes the quotes of its hops',
     'The expected return of a path is the quote of the last converter for the quote of the one before it, and so on down to the amount given, each for the right pair of tokens; it is obtained without changing anything.',
     ['inputs'], 'all paths, amounts and quotes', 'tests use mocked two-hop paths', NW, [('getExpectedReturnByPath', NW[0])], BASE + ' ' + TN)
prop('C31', 'ICX enters only through registered ICX tokens',
     'Only the owner registers or unregisters ICX tokens, other registrations stay, and no other operation changes them. ICX is accepted only for a path that starts with a registered ICX token and is wrapped in full; '
     'unpaid requests are refused.', ['inputs', 'histories'], 'all callers, tokens, amounts, paths and histories', 'tests register one token',
     NW, [('registerIcxToken, convertFor', NW[0])], BASE + ' ' + TN)
prop('C32', 'Interface proxies forward every call faithfully',
     'A proxy made from an interface calls the method named, at the address given, with exactly the arguments given, and returns its answer, whatever proxies were made before. Each interface of the DEX matches the '
     'contract behind it in method names, argument names and types.', ['inputs', 'programs', 'histories'], 'all interfaces of the DEX, all their methods and arguments, orders of creation',
     'tests create one proxy', [C + 'utility/proxy_score.py', C + 'interfaces'], [('ProxyScore', C + 'utility/proxy_score.py')],
     BASE + ' Interfaces other than those of the DEX: bounded to five inheritance shapes.')
prop('C33', 'Stored fields read back what was written and do not interfere',
     'A declared storage field reads back exactly the value last written, also through another storage object over the same database, and reading or writing one field changes no other, whatever the order of declaration. Containers are the '
     'live containers, and unwritten fields are empty.', ['inputs', 'histories'], 'all values and pairs of fields', 'tests write one value per type',
     [C + 'utility/storage.py'], [('Storage', C + 'utility/storage.py')], BASE + ' Field declarations: one of each kind of container and type.')
prop('C34', 'Built packages are complete and self-contained',
     'For every choice of contracts, in any order, as files or archive, from wherever the sources lie and the builder is run, it produces exactly the requested packages, each with its own unmodified sources, everything they import, and a '
     'description naming an existing main class; no tests or caches. Building into a directory, whatever it holds, leaves nothing of older builds in the packages built and leaves everything else alone; unpacking an archive leaves just what the archive holds.',
     ['configurations', 'histories'],
     'every list of contracts, both writers, any state of the output directory', 'tests build one configuration', ['contract_generator/builder.py', 'contract_generator/config.py', 'contract_generator/writer.py'],
     [('Builder', 'contract_generator/builder.py'), ('FileWriter.write, ZipWriter', 'contract_generator/writer.py')],
     'Loops over contracts are proved by the loop rule (every variable changed by earlier iterations havocked), the writers on a ghost file system with arbitrary prior content observed at an arbitrary path; '
     'what a package holds is evaluated per configuration entry. File system and zip library trusted; eight kinds of source location.')
prop('C35', 'A converter quotes only while active and for connectors open to purchase',
     'A converter is active exactly while it owns its flexible token. It quotes only while active and for its own connectors, and refuses to issue tokens for, or exchange another connector into, one closed for purchases. Only '
     'the owner opens and closes connectors, locks the token or hands it over.', ['inputs', 'histories'], 'all states, callers and connectors',
     'tests toggle one connector', CV + [FTC], [('isActive, disableConnectorPurchases', CV[0])], BASE)
prop('C36', 'Nothing converts while conversions are disabled',
     'The owner or manager, and nobody else, switches conversions off and on; the change is announced only when there is one. While off no conversion of any kind takes place and no reserve or supply moves; a new converter converts.',
     ['inputs', 'histories'], 'all requests, callers and switch histories', 'tests toggle once', CV, [('disableConversions', CV[0])], BASE + ' ' + TR)

PENDING = {}

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q dv check.py',
         'checks': [{'property': p['id'], 'quick_cmd': f'VERIF_TIER=quick python3-vt check.py {p["id"]}',
                     'thorough_cmd': f'VERIF_TIER=thorough python3-vt check.py {p["id"]}',
                     'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['_tech'], 'level': 'proof',
                     'level_note': p['_note']} for p in P if p['id'] not in PENDING],
         'not_applicable': [{'property': k, 'reason': v} for k, v in PENDING.items()],
         'notes': 'no hooks; see DESIGN.md and known-findings'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    seeded = os.path.join(HERE, 'seeded')
    if os.path.isdir(seeded):
        rows = ['| bug | property | caught by | needs |', '|---|---|---|---|']
        metas = []
        for b in os.listdir(seeded):
            with open(os.path.join(seeded, b, 'meta.json')) as f:
                metas.append((json.load(f), b))
        for m, b in sorted(metas, key=lambda x: (x[0]['property'], x[1])):
            rows.append(f'| {b} | {m["property"]} | {m["property"]} | {m["needs"]} |')
        p = os.path.join(HERE, 'DESIGN.md')
        with open(p) as f:
            s = f.read()
        a, z = '<!-- bugs -->\n', '<!-- /bugs -->'
        s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(z):]
        with open(p, 'w') as f:
            f.write(s)
