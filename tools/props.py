#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed
NA = []         # (dict, reason)


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, level='proof'):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    assert len(title) <= 80, title
    if na:
        NA.append((d, na))
    else:
        P.append((d, note, level))


ENG = 'fbpcf/engine/SecretShareEngine.cpp'
prop('E01', 'Locally computed gates act on shares as the plaintext operation does',
     'For any number of parties and any sharing of the operands, XOR, NOT, AND with a public value, addition, negation and multiplication by a public value, computed by every party on its own share (singly or on batches), leave shares that reconstruct to the plaintext operation on the operands (integers modulo 2^64). Batches of unequal sizes are rejected.',
     ['inputs', 'configurations'], 'every number of parties, every party id, every share value, every batch size',
     'the tests run two to four parties on a few random vectors; share values, party ids and batch sizes are unbounded',
     [ENG, 'fbpcf/engine/SecretShareEngine.h'], [('local gates, only party 0 applies public operands', ENG)],
     'proved for any batch size and share values, symbolic party ids; relational over n parties through per-party contracts; z3 back end of the VC generator in /verif/vc')
prop('E02', 'Scheduled boolean products reconstruct to the plaintext AND of their operands',
     'After all parties schedule the same mix of single, batch, composite and batch-composite ANDs and execute, every result read back by its index reconstructs to the AND of that gate\'s operands, in order and with the right sizes, whatever the mix, the sizes and the tuple type. Results of one execution are never mixed with those of another, and batches of unequal sizes are rejected.',
     ['inputs', 'histories', 'configurations'], 'every mix and size of scheduled gates, every share and tuple value, composite and normal tuples, successive executions',
     'tests try a handful of mixes; indexing and masking mistakes show only for particular mixes of gate kinds and sizes',
     [ENG, 'fbpcf/engine/SecretShareEngine.h'], [('Beaver masking, opening and unmasking of all scheduled gates in one round', ENG + ': computeAllScheduledOperations')],
     'nine gate-kind tasks proved for any sizes, mixed-kind tasks bounded and labelled so; tuple generator and communication agent through ghost contracts')
prop('E03', 'Scheduled integer products reconstruct to the plaintext product modulo 2^64',
     'After all parties schedule the same integer multiplications, single or in batches, possibly mixed with boolean gates, and execute, every result read back by its index reconstructs to the product of that gate\'s operands modulo 2^64. Batches of unequal sizes are rejected.',
     ['inputs', 'histories', 'configurations'], 'every mix and size of scheduled products, every share and tuple value',
     'tests try a handful of small operands and mixes',
     [ENG], [('integer Beaver masking and unmasking', ENG + ': computeAllScheduledOperations')],
     'six tasks proved for any sizes, mixed tasks bounded and labelled so; ring reasoning modulo 2^64 discharged by normalisation in /verif/vc/ring.py plus z3')
prop('E04', 'Private inputs are shared correctly and reveal opens exactly the shared value',
     'The shares all parties derive from one party\'s private boolean or integer input, singly or in batches, reconstruct to that input for any owner and any sequence of inputs; the owner must supply a value. Opening shares to a party gives that party the reconstructed value, in order and for any batch size, and gives the other parties only a dummy of the same size.',
     ['inputs', 'histories', 'configurations'], 'two and three parties, every owner, every value, batch size and history of earlier inputs (pairwise generators stay in lockstep)',
     'tests share a few inputs from a fresh state; lockstep of the pairwise generators over every history is out of their reach',
     [ENG], [('pairwise pseudo-random masks per ordered pair of parties', ENG + ': setInput/setBatchInput'), ('reveal through the communication agent', ENG + ': revealToParty')],
     'proved for 2 and 3 parties, any batch size, with an inductive lockstep invariant over the pairwise generators; generator and communication agent through ghost contracts')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d in [x[0] for x in P] + [x[0] for x in NA]:
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3-vt check.py --setup',
             checks=[dict(property=d['id'], quick_cmd='python3-vt check.py %s --tier quick' % d['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % d['id'],
                          technique='contract-based deductive verification of the real code (verification conditions from its syntax tree, discharged by z3), counterexamples replayed on the compiled code',
                          level=lv, level_note=note) for d, note, lv in P],
             not_applicable=[dict(property=d['id'], reason=r) for d, r in NA])
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


import glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_*.py'))):
    exec(open(f).read())
if __name__ == '__main__':
    main()
