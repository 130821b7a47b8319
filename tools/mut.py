#!/usr/bin/env python3
"""Development aid: textual mutants of one header, run one check against each.
usage: mut.py PID file  < mutants   (lines: OLD ==> NEW [#occurrence])"""
import sys, os, subprocess, shutil, tempfile
BASE = os.environ.get('MUT_BASE', '/repo')
pid, rel = sys.argv[1], sys.argv[2]
only = sys.argv[3:] 
src = open(BASE + '/' + rel).read()
for line in sys.stdin:
    line = line.rstrip('\n')
    if '==>' not in line or line.startswith('#'): continue
    a, b = line.split('==>'); a = a.strip().replace('\\n', '\n'); b = b.strip().replace('\\n', '\n')
    occ = None
    if b.rsplit('#', 1)[-1].isdigit() and '#' in b: b, o = b.rsplit('#', 1); b = b.strip(); occ = int(o)
    n = src.count(a)
    if n == 0: print('NOTFOUND', a); continue
    for k in ([occ] if occ is not None else range(min(n, 4))):
        i = -1
        for _ in range(k + 1): i = src.index(a, i + 1)
        t = tempfile.mkdtemp(prefix='mut')
        shutil.copytree(BASE + '/rpp', t + '/rpp')
        open(t + '/' + rel, 'w').write(src[:i] + b + src[i + len(a):])
        ln = src[:i].count('\n') + 1
        env = dict(os.environ, VERIF_REPO=t)
        if 'replay' not in only: env['VERIF_NOREPLAY'] = '1'
        p = subprocess.run(['python3-vt', '/verif/run.py', pid], capture_output=True, text=True, env=env)
        out = p.stdout.strip().split('\n')
        first = next((l for l in out if l.startswith(('FAILED', 'UNDECIDED', 'ERROR'))), '')
        tag = {0: 'SURVIVED', 1: 'caught'}.get(p.returncode, 'ERROR')
        if p.returncode == 1 and not any(l.startswith('FAILED') for l in out): tag = 'undecided'
        if 'replay' in only and p.returncode == 1: tag += '+replay' if not out[-1].endswith('found') else '-noinput'
        print(f"{tag:16} {rel}:{ln} [{a[:40]!r} -> {b[:40]!r}] {first[:150]}", flush=True)
        if p.returncode not in (0, 1): print(out[-3:], p.stderr[-500:])
        shutil.rmtree(t)
