"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_C = 'function contracts on the C sources (goto-cc), every obligation discharged by CBMC/cvc5'
T_C3 = 'function contracts on the C3 sources (compiled to IR by the tree\'s own c3c, mechanically translated), obligations discharged by CBMC'
T_GEN = 'contracts on the code the tree\'s c3c emits for template programs, obligations discharged by CBMC for all run-time inputs'
P = []


def prop(id, title, statement, over, q, why, files, mech, state=(), claim=None, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, state=state, claim=claim, na=na, observe=observe))


def m(*xs):
    return [dict(zip(('name', 'where'), x.split(' @ '))) for x in xs]


exec(open(os.path.join(V, 'tools', 'props_list.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': m(*p['mech']), 'observe_at': list(p['observe'])}}) + '\n')
checks, na = [], []
for p in P:
    if p['claim'] and os.path.isdir(V + '/units/' + p['id']):
        level, technique, note = p['claim']
        checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s --tier quick' % p['id'], 'thorough_cmd': 'bin/check %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': technique, 'level': level, 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'contracts for this property are not built yet'})
man = {'version': 1, 'setup_cmd': 'bin/setup', 'hooks': {'guard': 'C3_VERIFY', 'enable': 'goto-cc -DC3_VERIFY (units with defs=C3_VERIFY) turns VERIFY_LOOP into a call of the harness\'s loop-invariant hook; without the define it expands to nothing',
       'source_commits': HOOKS}, 'checks': checks, 'not_applicable': na,
       'notes': 'Run in /verif. VERIF_SEED seeds the native counterexample search, the only random choice. See DESIGN.md.'}
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'claimed', len(na), 'not claimed')
