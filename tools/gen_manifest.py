import json
import sys
sys.path.insert(0, '/verif/engine')
import rules
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {
 'C32': 'A liveness/reachability statement (existence of a succeeding sequence from every reachable state); a static over-approximation of what may happen cannot establish that something must be able to happen. The part that is a statement about single instructions (no payout due is refused) is C34.',
}
TECH = {'C39': 'static analysis: comparison of compiler-computed type layouts, discriminants and argument encodings with the recorded format'}
NOTES = getattr(rules, 'NOTES', {})
checks, na = [], []
for p in props:
    i = p['id']
    if hasattr(rules, i.lower()):
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH.get(i, 'static analysis: gated value-flow abstract interpretation of monomorphised MIR, entailment by decision diagrams and polyhedra emptiness'),
                           level='other',
                           level_note='Holds for all inputs, accounts, clock values and stored states, per instruction, under the assumptions in the evidence file; fails closed on anything the analysis cannot follow. Trusts rustc MIR, the analyser and its models of library functions, and the Solana runtime. ' + NOTES.get(i, '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo. Known findings and fixes: known-findings.txt.'), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
