#!/usr/bin/env python3
"""Sensitivity self test of the analysers (development aid, not a check).

Each entry of mutants/*.txt is
    == PROP  path/under/mmrazor
    <<<
    old text
    >>>
    new text
    ---
An entry whose header ends with 'quiet' is a behaviour preserving edit: the
check must stay quiet.  Works on a scratch copy selected with SA_REPO."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load(only):
    out = []
    d = os.path.join(HERE, 'mutants')
    for f in sorted(os.listdir(d)):
        txt = open(os.path.join(d, f)).read()
        for m in re.finditer(r'^== (\S+) +(\S+)( quiet)?\n<<<\n(.*?)\n>>>\n'
                             r'(.*?)\n?---$', txt, re.S | re.M):
            if only and m.group(1) not in only:
                continue
            out.append(m.groups())
    return out


def edits(old, new):
    """an entry may hold several edits separated by +++"""
    o, n = old, new
    out = []
    while '\n+++\n<<<\n' in n:
        n, rest = n.split('\n+++\n<<<\n', 1)
        out.append((o, n))
        o, n = rest.split('\n>>>\n', 1)
    out.append((o, n))
    return out


def main():
    only = set(sys.argv[1:])
    muts = load(only)
    tmp = tempfile.mkdtemp(prefix='samut')
    bad = 0
    from concurrent.futures import ThreadPoolExecutor

    def one(i_m):
        i, (prop, path, quiet, old, new) = i_m
        d = os.path.join(tmp, str(i))
        shutil.copytree('/repo/mmrazor', d + '/mmrazor', symlinks=True,
                        ignore=shutil.ignore_patterns('.mim', '__pycache__'))
        p = os.path.join(d, 'mmrazor', path)
        s = open(p).read()
        for old, new in edits(old, new):
            if s.count(old) == 0:
                return i, 'NOMATCH', old
            s = s.replace(old, new, 1)
        open(p, 'w').write(s)
        try:
            compile(s, p, 'exec')
        except SyntaxError as e:
            return i, 'SYNTAX', str(e)
        v = os.path.join(d, 'verif')
        os.makedirs(v)
        shutil.copytree(VERIF + '/sa', v + '/sa',
                        ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copy(VERIF + '/check.py', v)
        if os.path.exists(VERIF + '/known_findings.txt'):
            shutil.copy(VERIF + '/known_findings.txt', v)
        r = subprocess.run([sys.executable, v + '/check.py', prop],
                           env=dict(os.environ, SA_REPO=d),
                           capture_output=True, text=True)
        shutil.rmtree(d)
        return i, r.returncode, r.stdout + r.stderr[-1500:]
    with ThreadPoolExecutor(8) as ex:
        for i, rc, out in ex.map(one, enumerate(muts)):
            prop, path, quiet, old, new = muts[i]
            want = 0 if quiet else 1
            ok = rc == want
            bad += not ok
            line = (new.strip().splitlines() or ['<deleted>'])[0][:70]
            print('%s %s %s %s | %s' % ('ok  ' if ok else 'BAD ', prop,
                                        'quiet' if quiet else 'bug',
                                        path.split('/')[-1], line))
            if not ok:
                print('     rc=%s old: %s' % (rc, old.strip()[:70]))
                if rc not in (0,):
                    print(out[-1500:])
    shutil.rmtree(tmp)
    print('%d entries, %d not as expected' % (len(muts), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
