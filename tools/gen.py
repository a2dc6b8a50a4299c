"""write properties.jsonl and MANIFEST.json from the check modules present"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from properties import PROPS   # noqa

NA = {}
TECH = 'bounded symbolic execution of the Python source with SMT (z3) discharge and concrete replay'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        mod = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
        if not os.path.exists(mod):
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
            continue
        m = importlib.import_module('checks.' + p['id'].lower())
        checks.append(dict(
            property=p['id'],
            quick_cmd='./check.py %s --tier quick' % p['id'],
            thorough_cmd='./check.py %s --tier thorough' % p['id'],
            technique=getattr(m, 'TECHNIQUE', TECH),
            level='model_checking',
            level_note='Bounded: %s. Real arithmetic stands for float64; optimisers, quadrature nodes, random draws and '
                       'matrix decompositions are stubs returning arbitrary values of their contract. Counterexamples are '
                       'replayed on the real code before being reported; what the solver could not decide is listed as '
                       'not_decided in the evidence.' % getattr(m, 'BOUNDS', 'see DESIGN.md')))
    man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='See DESIGN.md. No hooks in /repo are needed: the checks read the source of the working tree.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
