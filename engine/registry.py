"""Registry of contracts (callee specifications) and harnesses (obligation generators)."""
CONTRACTS = {}
HARNESSES = {}


class Contract:
    def __init__(self, name, target, spec, harness):
        self.name, self.target, self.spec, self.harness = name, target, spec, harness


class Harness:
    def __init__(self, name, fn, props, variants, contracts, budget, runs, target, mode, fresh, bounded, generic=False):
        self.generic = generic      # sequences of symbolic length (seq.py)
        self.name, self.fn, self.props, self.variants = name, fn, props, variants
        self.contracts, self.budget, self.runs, self.target = contracts, budget, runs, target
        self.mode = mode      # 'both' | 'concrete' | 'sym'
        self.fresh = fresh
        self.bounded = bounded


def contract(name, target, spec, harness):
    """callee contract: `spec(k, *args)` is what callers may assume of `target`; it is only assumed in a run in
    which the harness named here has discharged all its obligations"""
    CONTRACTS[name] = Contract(name, target, spec, harness)


def harness(*props, variants=None, contracts=(), budget=60.0, runs=30, target="", mode="both", fresh=False, name=None, bounded="", generic=False):
    def deco(fn):
        n = name or fn.__name__
        assert n not in HARNESSES, n
        HARNESSES[n] = Harness(n, fn, props, variants or [{}], list(contracts), budget, runs, target, mode, fresh, bounded, generic)
        return fn
    return deco
