"""C07: lifetimes. The operations of every container, optional, variant, array and owner, checked only for what happens to
elements and storage: elements are constructed into free storage, moved, read and destroyed only while alive (obligations at
every such event), afterwards exactly the elements the object says it holds are alive, and every block is released or owned."""
import re, contract
from common import *
import C01, C02, C03, C04, C05, C08, C09, C10
MODS = dict(vec=C01, stack=C02, array=C03, queue=C04, heap=C05, opt=C08, variant=C09, box=C10)
SRC = {k: m.SRC for k, m in MODS.items()}
BCKEY = lambda e: e[0].split('_')[0]
KEEP = re.compile(r'alive|leak|storage|released|allocation|destructor|moved from|destructible|truth value|length <= capacity|: empty|destroyed|reference count|refers|separate object|not the last|end position')
class HL(contract.H):
    life = True
    def prove(s, st, name, goal):
        return contract.H.prove(s, st, name, goal) if KEEP.search(name) else True
    def must_return(s, outs): return s.returns(outs)
    def never_returns(s, outs): pass
HCLS = HL
SKIP = {'lemma', 'observers', 'index', 'ends', 'iter', 'iterate', 'pop_empty', 'top', 'read', 'match', 'atomic', 'array_index', 'array_views', 'box_index', 'dup'}
CONTRACTS = []
for key, m in MODS.items():
    for e in m.CONTRACTS:
        if e[0] in SKIP or e[0].startswith('slice_') or 'V255' in e[2:] or (key == 'box' and 'box' not in e[2:] and e[0] != 'box'): continue
        if 'VT' in e[2:] or (key, e[0]) + tuple(e[2:]) == ('variant', 'ctor', 'V3', 0): continue   # alternatives without a destructor
        CONTRACTS.append((key + '_' + e[0],) + tuple(e[1:]))
ASSUMPTIONS = C10.ASSUMPTIONS
