"""Objects that hold elements in place: helpers for Opt, Variant, Box, Rc, Tuple, Pair, Function"""
from common import *

def hold(h, st, S, rid, off, val, live=True):
    """an element of type S at offset off, alive iff live"""
    h.put(st, rid, off, 8, val)
    if tracked(S): st.wreg(rid).cells[('L', off)] = Cell(0, 'g', LIVE if live is True else RAW if live is False else Ite(live, LIVE, RAW))
def heldval(h, st, rid, off): return h.ex.norm(st, zi(h.get(st, rid, off)), 64) if not isinstance(h.get(st, rid, off), int) else h.get(st, rid, off)
def held(h, st, S, rid, off, val, what, live=True):
    """the element at off is alive iff live, and then has value val"""
    v = h.get(st, rid, off)
    h.prove(st, f'{what}: the value', Implies(live, Eq(h.ex.norm(st, v, 64), val)))
    if tracked(S): isalive(h, st, rid, off, live, what)
def isalive(h, st, rid, off, live, what):
    g = h.ex.gget(st, Ptr(rid, 0, off))
    h.prove(st, f'{what}: alive exactly when it should be', zb(Eq(zi(g), LIVE)) == zb(live))
def shell(h, st, S, rid, off, what):
    """not alive (empty or moved-from)"""
    if tracked(S): h.prove(st, f'{what}: no element is left alive', Ne(zi(h.ex.gget(st, Ptr(rid, 0, off))), LIVE))
