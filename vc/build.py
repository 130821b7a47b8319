"""Compiles a harness against /repo's current sources to LLVM IR."""
import subprocess, os, hashlib
REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=c++20', '-fno-exceptions', '-fno-rtti', '-DRPP_RELWITHDEBINFO_BUILD', '-I' + REPO, '-I/verif/harness']
class BuildError(Exception): pass
def compile_ir(src, out, extra=()):
    a = out + '.a.bc'; passes = 'sroa,loop-simplify' if 'NOSPEC' in extra else 'sroa,simplifycfg,instsimplify,loop-simplify'
    extra = [x for x in extra if x != 'NOSPEC']   # NOSPEC: keep control flow as written (no speculation of arithmetic)
    p = subprocess.run(['clang++-18', *FLAGS, *extra, '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-c', '-emit-llvm', src, '-o', a], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    p = subprocess.run(['opt-18', f'-passes=function({passes})', a, '-o', out], capture_output=True, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])
    os.unlink(a)
    return out
