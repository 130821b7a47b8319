#!/usr/bin/env python3-vt
"""Development aid. usage: one.py PID CONTRACT[.ARGS] [seconds]: runs one contract and prints its obligations; dumps the stack after the given time."""
import sys, os, time, faulthandler
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H + '/vc', H + '/contracts']; sys.setrecursionlimit(20000)
import importlib, build, llvmir, contract
mod = importlib.import_module(sys.argv[1]); srcs = mod.SRC if isinstance(mod.SRC, dict) else {'': mod.SRC}
for i, e in enumerate(mod.CONTRACTS):
    nm = e[0] + ''.join('.' + str(x) for x in e[2:] if isinstance(x, (str, int)))
    if nm != sys.argv[2]: continue
    k = getattr(mod, 'BCKEY', lambda e: '')(e); s = srcs[k]; s, fl = (s[0], s[1:]) if isinstance(s, tuple) else (s, [])
    bc = build.compile_ir(H + '/harness/' + s, f'/tmp/t/one{os.getpid()}.bc', fl)
    h = (mod.HCLSOF(e) if hasattr(mod, 'HCLSOF') else getattr(mod, 'HCLS', contract.H))(llvmir.Module(bc), nm, timeout=10000); h.tier = 'quick'; h.ex.trace_inv = True
    t = float(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3] != '-v' else 200
    h.ex.deadline = time.time() + t; faulthandler.dump_traceback_later(t * 0.8)
    t0 = time.time()
    try: e[1](h, *e[2:])
    except Exception as x: import traceback; traceback.print_exc()
    faulthandler.cancel_dump_traceback_later()
    from collections import Counter
    for o, c in Counter((o.kind, o.name, o.loc, o.status) for o in h.ex.obls if '-v' in sys.argv or o.status != 'discharged').most_common(60): print(c, *o)
    print(len(h.ex.obls), 'obligations', round(time.time() - t0, 1), 's', len(h.ex.functions), 'functions')
