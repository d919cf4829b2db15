"""CBOR reading: every input of the item machine into dynamic values."""
from cborlib import *


def builds():
    return [('c++20', '20', ['VH_PATHS=265']), ('c++11', '11', ['VH_PATHS=52'])]


def run(rep, tier):
    th = tier == 'thorough'
    bs = build_many([dict(source='cnode', std=s, defs=d, opt='-O1') for _, s, d in builds()])
    bins = [(l, b) for (l, _, _), b in zip(builds(), bs)]
    written = {}

    def one(name):
        pre, toks, q, t = CALPH[name]
        creplay(rep, cgen(rep, STDC, pre, toks, t if th else q), bins, name, written=None)
    parallel([lambda n=n: one(n) for n in CALPH], 4)
