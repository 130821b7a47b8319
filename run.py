#!/usr/bin/env python3-vt
"""Check runner: compiles the harnesses against /repo, discharges every obligation of a property's contracts,
replays failures on the real code, writes evidence."""
import sys, os, time, json, traceback, tempfile, subprocess, importlib, multiprocessing as mp, re, signal, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/vc'); sys.path.insert(0, HERE + '/contracts')
sys.setrecursionlimit(20000)
import build
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def work(job):
    """one contract, in its own process"""
    i, bc, modname, tier, budget = job
    import z3, llvmir, contract, terms
    z3.set_param('smt.random_seed', SEED)
    mod = importlib.import_module(modname)
    entry = mod.CONTRACTS[i]; name, f, a = entry[0], entry[1], entry[2:]
    nm = name + ''.join('.' + str(x) for x in a if isinstance(x, (str, int)))
    t0 = time.time()
    M = llvmir.Module(bc)
    h = (mod.HCLSOF(entry) if hasattr(mod, "HCLSOF") else getattr(mod, "HCLS", contract.H))(M, nm, timeout=30000 if tier == "thorough" else getattr(mod, "TIMEOUT", 10000))
    h.tier = tier
    h.ex.deadline = t0 + budget
    err = None
    try: f(h, *a)
    except (contract.Unsupported,) as e: err = ('unsupported', str(e) + ' | ' + traceback.format_exc()[-900:])
    except MemoryError: err = ('unsupported', 'out of memory')
    except Exception as e: err = ('internal', traceback.format_exc()[-1500:])
    ex = h.ex
    ob = [(o.kind, o.name, o.loc, o.status, o.detail, round(o.time, 3)) for o in ex.obls]
    return dict(contract=nm, ob=ob, err=err, wall=time.time() - t0, solver=ex.p.time, by=dict(ex.p.by), nq=ex.p.nq,
                fns=sorted(ex.functions), ext=sorted(ex.used_contracts), post=h.post, notes=getattr(h, 'notes', []))

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return p.stdout.strip().split('\n')

def known():
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) contract=(\S+) match=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

def replay(pid, outdir, tmp, hints, budget):
    """search for a concrete failing input on the real code; returns (found, path)"""
    src = f'{HERE}/replay/{pid}.cpp'
    os.makedirs(outdir, exist_ok=True)
    path = f'{outdir}/{pid}.txt'
    text = hints
    found = False
    if os.path.exists(src):
        exe = f'{tmp}/replay_{pid}'
        extra = []
        first = open(src).readline()
        m = re.match(r'// FLAGS: (.*)', first)
        if m: extra = m.group(1).split()
        san = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,function,nonnull-attribute,pointer-overflow', '-fno-sanitize-recover=all'] if '-nosan' not in extra else []
        extra = [x for x in extra if x != '-nosan']
        cmd = ['clang++-18', *[f for f in build.FLAGS if 'harness' not in f], '-I' + HERE + '/replay', '-w', '-g', '-O1', *san, src, build.REPO + '/rpp/impl/unify.cpp', build.REPO + '/rpp/pos/unify.cpp', '-o', exe, '-lpthread', *extra]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: text += '\n[replay driver did not build]\n' + p.stderr[-2000:]
        else:
            t0 = time.time(); seed = SEED
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
            scratch = tempfile.mkdtemp(dir=tmp)
            while time.time() - t0 < budget:
                left = budget - (time.time() - t0)
                try:
                    q = subprocess.run([exe, str(seed)], capture_output=True, text=True, errors='replace', timeout=max(5, min(60, left)), env=env, cwd=scratch)
                    rc, o = q.returncode, (q.stdout[-3000:] + '\n' + q.stderr[-3000:])
                except subprocess.TimeoutExpired as e:
                    rc, o = -1, f'does not terminate (killed)\n' + ((e.stdout or b'').decode(errors='replace')[-2000:])
                if rc != 0:
                    found = True
                    text += f'\n==== replay on the real code: {os.path.basename(src)} seed {seed}: exit {rc}\n{o}\n'
                    break
                seed += 1000003
                if seed > SEED + 40 * 1000003: break
            if not found: text += f'\n[replay on the real code found no failing input in {time.time()-t0:.0f} s]\n'
    else: text += '\n[no replay driver for this property]\n'
    open(path, 'w').write(text)
    return found, path

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-' + pid + '-')
    rc = 2
    try: rc = check(pid, tier, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rc

def check(pid, tier, tmp, t0):
    mod = importlib.import_module(pid)
    srcs = mod.SRC if isinstance(mod.SRC, dict) else {'': mod.SRC}
    bcs = {}; builderr = None
    def comp(k, s):
        flags = []
        if isinstance(s, tuple): s, flags = s[0], s[1:]
        o = f'{tmp}/{k or "main"}.bc'
        try: bcs[k] = build.compile_ir(HERE + '/harness/' + s, o, flags); return None
        except build.BuildError as e: return str(e)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as tp:
        for r in tp.map(lambda kv: comp(*kv), srcs.items()): builderr = builderr or r
    outdir = HERE + '/evidence/replay'
    if builderr:
        print(f'UNDECIDED property={pid}: the harness does not compile against the current tree, so no obligation can be generated\n{builderr[-1500:]}')
        found, path = (False, '-') if os.environ.get('VERIF_NOREPLAY') else replay(pid, outdir, tmp, 'harness does not compile:\n' + builderr, 200)
        evidence(pid, tier, mod, [], t0, 1)
        print(f'VIOLATION property={pid} replay={path}' + ('' if found else ' no-failing-input-found')); return 1
    keyof = getattr(mod, 'BCKEY', lambda e: '')
    budget = getattr(mod, 'BUDGET', 200) * (3 if tier == 'thorough' else 1)
    jobs = []
    for i, e in enumerate(mod.CONTRACTS):
        if tier == 'quick' and e[0].startswith('thorough_'): continue
        jobs.append((i, bcs[keyof(e)], pid, tier, budget))
    hard = time.time() + (780 if tier == 'quick' else 3000)
    res = []
    pool = mp.Pool(min(8, os.cpu_count() or 8), maxtasksperchild=1)
    its = [(j, pool.apply_async(work, (j,))) for j in jobs]
    todo = list(its); got = {}
    while todo and time.time() < hard:
        rest = []
        for j, it in todo:
            if not it.ready(): rest.append((j, it)); continue
            try: got[j[0]] = it.get()
            except Exception as e:
                got[j[0]] = dict(contract=mod.CONTRACTS[j[0]][0], ob=[], err=('internal', repr(e)), wall=0, solver=0, by={}, nq=0, fns=[], ext=[], post=0, notes=[])
            # a failed obligation decides the check; the rest gets a short while to say what else fails
            if any(o[3] != 'discharged' for o in got[j[0]]['ob']): hard = min(hard, time.time() + 120)
        if len(rest) == len(todo): time.sleep(0.02)
        todo = rest
    for j, _ in its:
        res.append(got.get(j[0]) or dict(contract=mod.CONTRACTS[j[0]][0], ob=[], err=('unsupported', 'time budget of the check exhausted'), wall=0, solver=0, by={}, nq=0, fns=[], ext=[], post=0, notes=[]))
    pool.terminate(); pool.join()
    if os.environ.get('VERIF_TIMES'): print(*[(r['contract'], round(r['wall'])) for r in sorted(res, key=lambda r: -r['wall'])[:25]])
    kn = [k for k in known() if k[0] == pid]
    seen_known = set(); bad = []; errs = []
    total = disch = 0
    for r in res:
        if r['err']: errs.append(r)
        if not r['ob'] and not r['err']: 
            errs.append(dict(r, err=('vacuous', 'no obligations were generated')))
        for o in r['ob']:
            total += 1
            if o[3] == 'discharged': disch += 1; continue
            hit = None
            for k in kn:
                if re.fullmatch(k[1], r['contract']) and re.search(k[2], f'{o[0]}:{o[1]}:{o[2]}'.replace(' ', '_')): hit = k
            if hit: seen_known.add(hit); total -= 1
            else: bad.append((r['contract'], o))
    for k in sorted(seen_known): print(f'KNOWN-FINDING: property={pid} {k[3]}')
    viol = 0
    internal = [r for r in errs if r['err'][0] == 'internal']
    rc = 0
    if bad or errs:
        txt = f'property {pid}: {len(bad)} obligation(s) not discharged, {len(errs)} contract(s) not decided\n'
        for c, o in bad[:40]:
            txt += f'\n-- {c}: {o[0]}: {o[1]}  at {o[2]}  [{o[3]}]\n{o[4][:1800]}\n'
        for r in errs[:20]: txt += f'\n-- {r["contract"]}: {r["err"][0]}: {r["err"][1]}\n'
        for c, o in bad[:6]: print(f'FAILED {c}: {o[0]}: {o[1]} at {o[2]} [{o[3]}]')
        for r in errs[:6]: print(f'UNDECIDED {r["contract"]}: {r["err"][0]}: {r["err"][1].splitlines()[0] if r["err"][0] != "internal" else r["err"][1][-300:]}')
        if os.environ.get('VERIF_NOREPLAY'): found, path = False, '-'
        else:
            left = (850 if tier == 'quick' else 3400) - (time.time() - t0)
            found, path = replay(pid, outdir, tmp, txt, max(10, min(150, left)))
        viol = 1
        if found: print(f'VIOLATION property={pid} replay={path}'); rc = 1
        else:
            rc = 1
            print(f'VIOLATION property={pid} replay={path} no-failing-input-found')
    evidence(pid, tier, mod, res, t0, viol, total, disch)
    if not rc: print(f'OK property={pid} obligations={total} discharged={disch} contracts={len(res)} wall={time.time()-t0:.1f}s')
    return rc

def evidence(pid, tier, mod, res, t0, viol, total=0, disch=0):
    by = {}; fns = set(); ext = set(); solver = 0; nq = 0; kinds = {}
    for r in res:
        for k, v in r['by'].items(): by[k] = by.get(k, 0) + v
        fns |= set(r['fns']); ext |= set(r['ext']); solver += r['solver']; nq += r['nq']
        for o in r['ob']: kinds[o[0]] = kinds.get(o[0], 0) + 1
    dm = [d for d in demangle(sorted(fns))] if fns else []
    real = [d for d in dm if 'rpp::' in d or d.startswith('rpp')]
    ext_d = demangle(sorted(ext)) if ext else []
    bounded = getattr(mod, 'BOUNDED', [])
    lvl = getattr(mod, 'LEVEL', 'proof')
    cov = dict(obligations=total, discharged=disch, checker_cmd=f'python3-vt run.py {pid} {tier}  (z3 {z3v()}, cvc5 1.1.2 as second back end)',
               trusted_base=['clang 18 front end and its semantics-preserving clean-up passes (sroa, simplifycfg, instsimplify, loop-simplify)',
                             'vc/*.py: LLVM-IR symbolic executor and verification-condition generator', 'z3 / cvc5',
                             'contracts of external functions: ' + ', '.join(ext_d)] + getattr(mod, 'TRUSTED', []),
               contracts=len(res), contract_list=[r['contract'] for r in res], real_functions_executed=len(real), functions=real[:400], obligations_by_kind=kinds,
               decided_by=by, solver_queries=nq, solver_time_s=round(solver, 2), bounded=bounded)
    d = dict(property=pid, tier=tier, seed=SEED, level=lvl, coverage=cov,
             assumptions=getattr(mod, 'ASSUMPTIONS', []) + ['memory allocation succeeds (the code asserts it)', 'fewer than 2^40 elements per container',
                 'termination is not claimed beyond loops whose trip count the summaries bound', 'type-based aliasing and data races are not modelled'],
             wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(d, open(f'{HERE}/evidence/{pid}.json', 'w'), indent=1)
def z3v():
    import z3; return z3.get_version_string()

if __name__ == '__main__':
    sys.exit(main())
