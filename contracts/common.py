import sys, os
sys.path.insert(0, '/verif/vc')
from contract import *
ELS = ['u64', 'TC', 'TK']
def tracked(S): return S != 'u64'

def elem_arg(h, st, S, name='x', ro=False):
    """a caller-owned element; returns (ptr, value)"""
    rid = h.sreg(st, name, 8, ro=ro)
    v = h.int(name)
    h.put(st, rid, 0, 8, v)
    if tracked(S): st.reg(rid).cells[('L', 0)] = Cell(0, 'g', LIVE)
    return Ptr(rid, 0, 0), v
def alive(h, st, p):
    return Eq(zi(h.ex.gget(st, p)), LIVE)
