import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NOTE = json.load(open(R + '/tools/levelnotes.json')) if os.path.exists(R + '/tools/levelnotes.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/specs/%s.py' % (R, i.lower())):
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s --tier quick' % i, thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % i,
            technique='contract-based deductive verification of the real functions: LLVM IR of the current sources is executed symbolically against pre/postconditions, exceptional conditions, frames and loop closed forms; obligations discharged by normal forms, sequence extensionality and z3 (a failed obligation is replayed by a seeded search on the real code)',
            level='proof', level_note=NOTE.get(i, NOTE.get('default', 'All obligations generated from the current tree are discharged for all inputs, under the assumptions listed in the evidence (reals for doubles, mathematical integers, trusted library contracts).'))))
    else: na.append(dict(property=i, reason='check under construction: contracts for this property are not written yet'))
json.dump(dict(version=1, setup_cmd='python3-vt /verif/engine/build.py', checks=checks, not_applicable=na), open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
