"""JSON reading accepts exactly the grammar and yields the denoted value: dynamic values."""
from jsonlib import *


def corpora(rng, n):
    """documents for the run of the machine over a corpus: random structured documents and mutations of them"""
    from docs import random_json, mutate
    out = []
    for _ in range(n):
        d = random_json(rng)
        out.append(d)
        for _ in range(2):
            out.append(mutate(rng, d))
    return out


def run(rep, tier):
    th = tier == 'thorough'
    bins = list(zip(('c++20', 'c++11'), build_many([dict(source='jnode', std='20'), dict(source='jnode', std='11')])))
    exps = gen(rep, STD, MODES, ALLBYTES, 1)
    replay_node(rep, exps, bins, 'every byte after every mode')
    for name, (pre, toks, q, t) in ALPH.items():
        exps = gen(rep, STD, pre, toks, t if th else q)
        replay_node(rep, exps, bins, name)
    rng = random.Random(SEED)
    docs = corpora(rng, 4000 if th else 500)
    exps = dict(zip(docs, run_machine(rep, STD, docs)))
    replay_node(rep, exps, bins, 'random documents')
    from docs import suite_files
    docs = suite_files(4096)
    exps = dict(zip(docs, run_machine(rep, STD, docs)))
    replay_node(rep, exps, bins, 'documents found in the repository')
    rep.assumptions += ['real numbers are compared after correctly rounded conversion of their text (Python), not inside TLC',
                        'documents with duplicate keys are compared for order-preserving dynamic values only']
