"""Contract registry."""
from __future__ import annotations

CONTRACTS: list["Contract"] = []


class Contract:
    def __init__(self, name, prop, fn, kind, targets, trials, sizes, budget_s, timeout_ms, max_paths, note, tier, mutates=False, shards=1):
        self.name, self.prop, self.fn, self.kind = name, prop, fn, kind
        self.targets, self.trials, self.sizes = targets, trials, sizes
        self.budget_s, self.timeout_ms, self.max_paths = budget_s, timeout_ms, max_paths
        self.note, self.tier, self.mutates = note, tier, mutates
        self.shards, self.shard = shards, 0
        self.doc = (fn.__doc__ or "").strip()


def contract(prop, targets=(), trials=40, sizes=None, budget_s=90, timeout_ms=20000, max_paths=600, name=None,
             note="", tier="quick", mutates=False):
    """A contract proved for all inputs, and also run concretely."""

    def deco(fn):
        CONTRACTS.append(Contract(name or fn.__name__, prop, fn, "proof", list(targets), trials,
                                  sizes if sizes is not None else [{}], budget_s, timeout_ms, max_paths, note, tier, mutates))
        return fn

    return deco


def bounded(prop, targets=(), trials=1, name=None, note="", tier="quick", budget_s=200, shards=1):
    """A bounded check on the real code: fn(b: Bounded) run for `trials` seeds."""

    def deco(fn):
        CONTRACTS.append(Contract(name or fn.__name__, prop, fn, "bounded", list(targets), trials, [], budget_s, 0, 0,
                                  note, tier, shards=shards))
        return fn

    return deco


def of(prop):
    return [c for c in CONTRACTS if c.prop == prop]
