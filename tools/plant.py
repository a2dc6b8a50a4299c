"""create and confirm planted bugs (development tool; no check uses it)

plant.py make FILE      FILE defines SEEDS = [dict(id, property, edits=[(path, old, new)], demo, needs, breaks)]
plant.py confirm [ID..] tests pass with the patch, the demonstration separates, which checks catch it
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
FINDER = '/opt/venv/lib/python3.12/site-packages/__editable___girth_0_8_0_finder.py'
PY = '/opt/venv/bin/python'


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='plant')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    os.mkdir(d + '/site')
    s = open(FINDER).read().replace("'/repo/", "'%s/repo/" % d)
    open(d + '/site/' + os.path.basename(FINDER), 'w').write(s)
    return d


def env(d):
    e = dict(os.environ, PYTHONPATH=d + '/site', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell',
             NPY_DISABLE_CPU_FEATURES='AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL')
    return e


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for s in ns['SEEDS']:
        d = scratch()
        try:
            for f, old, new in s['edits']:
                p = os.path.join(d, 'repo', f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'OLD TEXT occurs', t.count(old), 'times in', f)
                    break
                open(p, 'w').write(t.replace(old, new))
            else:
                diff = sh(['git', '-C', d + '/repo', 'diff']).stdout
                out = os.path.join(SEED, s['id'])
                os.makedirs(out, exist_ok=True)
                open(out + '/patch.diff', 'w').write(diff)
                open(out + '/demo.py', 'w').write(s['demo'].strip() + '\n')
                open(out + '/demo.sh', 'w').write('#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
                os.chmod(out + '/demo.sh', 0o755)
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def confirm(i, tests=True, checks=None):
    d = scratch()
    try:
        r = [i]
        meta = json.load(open(os.path.join(SEED, i, 'meta.json')))
        demo = os.path.join(SEED, i, 'demo.sh')
        a = sh(['bash', demo], cwd=d + '/repo', env=env(d))
        r.append('clean-demo=%d' % a.returncode)
        p = sh(['git', '-C', d + '/repo', 'apply', os.path.join(SEED, i, 'patch.diff')])
        if p.returncode:
            return r + ['DOES NOT APPLY ' + p.stdout[-200:]]
        b = sh(['bash', demo], cwd=d + '/repo', env=env(d))
        r.append('patched-demo=%d' % b.returncode)
        if a.returncode or not b.returncode:
            r.append('BAD DEMO ' + a.stdout[-300:] + b.stdout[-300:])
        if tests:
            sh([PY, '-m', 'pytest', '-q', '-n', '3', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2',
                '--junitxml=' + d + '/j.xml'], cwd=d + '/repo', env=env(d))
            sh(['python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/j.xml'])
            ok = set(json.load(open(d + '/o.json'))['passed'])
            bad = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
            r.append('tests ok' if not bad else 'TESTS FAIL %s' % bad[:3])
        for c in checks if checks is not None else [meta['property']]:
            o = sh([sys.executable if 0 else HERE + '/check.py', c], cwd=HERE, env=dict(os.environ, SYMX_REPO=d + '/repo', SYMX_NOEVIDENCE='1'))
            m = re.search(r'  %s \[([^\]]*)\] (.*)' % c, o.stdout)
            r.append('%s=%s %s' % (c, {0: 'MISSED', 1: 'caught'}.get(o.returncode, 'rc%d' % o.returncode), (m.group(1) + ': ' + m.group(2)[:70]) if m else ''))
        return r
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        tests = '--no-tests' not in sys.argv
        ids = [a for a in sys.argv[2:] if not a.startswith('-')] or sorted(os.listdir(SEED))
        for i in ids:
            print(' | '.join(confirm(i, tests)), flush=True)
