"""regenerates MANIFEST.json from props.py and properties.jsonl"""
import json
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt check.py setup', checks=[], not_applicable=[],
         notes='One runner (check.py) for all properties; contracts in contracts/, verifier in cxv/ and frontend/, harnesses in replay/.')
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append(dict(
            property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {i}',
            technique=p.get('technique', 'bounded stand-in: randomised round trips of the real code against an oracle (not counted as proved)' if not p['roots'] and not p.get('effects') else 'contract-based deductive verification of the C++ sources (symbolic execution to '
                            'verification conditions, z3/cvc5), counterexamples replayed on the real code'),
            level=p['level'], level_note=p.get('note', 'Every obligation generated from the current sources of the functions '
            'listed in the evidence is accepted by z3 or cvc5, for all inputs and iterations. Assumes: real arithmetic for '
            'double, std contracts in cxv/stdlib.py, soundness of clang AST export, cxv and the solvers.')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE[i]))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
