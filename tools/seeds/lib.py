"""Definitions of planted changes: each becomes /verif/seeded/<id>/ (see make.py)."""
SEEDS = {}

def seed(id, prop, edits, needs, breaks, deps, main, *, profile="dev", gen=None, features=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, deps=deps.split(), main=main,
                     profile=profile, gen=gen, features=features or {})
