"""Shared helpers for contracts on the math layer."""
from __future__ import annotations

import functools

from dv import arr, core
from dv.arr import Cell, c_ite, c_notnull, const_cell
from dv.core import And, Iff, Implies, Not, Or


def mods():
    from calliope.backend import eval_attrs, expression_parser, helper_functions, parsing, where_parser

    return [eval_attrs, expression_parser, helper_functions, parsing, where_parser]


MATH = {
    "dimensions": {
        "nodes": {"dtype": "string", "iterator": "node"},
        "techs": {"dtype": "string", "iterator": "tech"},
        "carriers": {"dtype": "string", "iterator": "carrier"},
        "costs": {"dtype": "string", "iterator": "cost"},
        "timesteps": {"dtype": "datetime", "iterator": "timestep", "ordered": True},
        "groups": {"dtype": "string", "iterator": "group"},
    },
    "parameters": {
        "p_nt": {"default": 1.5},
        "p_t": {"default": 0},
        "p_nan": {},
        "p_inf": {"default": float("inf")},
        "p_ts": {"default": 2},
        "p_scalar": {"default": 0},
        "p_undef": {"default": 3},
    },
    "lookups": {
        "l_str": {"dtype": "string", "default": "foo"},
        "l_strnan": {"dtype": "string"},
        "l_bool": {"dtype": "bool", "default": False},
        "l_undef": {"dtype": "string"},
        "definition_matrix": {"dtype": "bool", "default": False},
        "carrier_in": {"dtype": "bool", "default": False},
        "carrier_out": {"dtype": "bool", "default": False},
    },
    "variables": {
        "v_nt": {"foreach": ["nodes", "techs"], "bounds": {"min": 0, "max": 10}, "default": 0},
        "v_nts": {"foreach": ["nodes", "techs", "timesteps"], "bounds": {"min": 0, "max": 10}, "default": 0},
        "v_ntcs": {"foreach": ["nodes", "techs", "carriers", "timesteps"], "bounds": {"min": 0, "max": 10}, "default": 0},
    },
    "global_expressions": {
        "e_nt": {"foreach": ["nodes", "techs"], "equations": [{"expression": "v_nt"}]},
    },
}


@functools.lru_cache
def math_cached():
    from calliope.schemas.math_schema import CalliopeBuildMath

    return CalliopeBuildMath.model_validate(MATH)


def mkmath():
    return math_cached()


def build_config(**kw):
    from calliope.schemas import config_schema

    return config_schema.Build.model_validate(kw)


def names():
    m = mkmath()
    return {
        "dimensions": set(m.dimensions.root), "inputs": set(m.parameters.root) | set(m.lookups.root),
        "results": set(m.variables.root) | set(m.global_expressions.root),
    }


class World:
    """A generic dataset over which math strings are evaluated."""

    def __init__(self, h, which=None, inf=True, labels=None, mint=1):
        self.h = h
        lb = labels or {}
        self.d = {
            "nodes": h.dim("nodes", labels=lb.get("nodes")), "techs": h.dim("techs", labels=lb.get("techs")),
            "carriers": h.dim("carriers", labels=lb.get("carriers")),
            "timesteps": h.dim("timesteps", kind="M", min=mint),
        }
        d = self.d
        mk = {
            "p_nt": lambda: h.array("p_nt", [d["nodes"], d["techs"]], "f", inf=inf),
            "p_t": lambda: h.array("p_t", [d["techs"]], "f", inf=inf),
            "p_nan": lambda: h.array("p_nan", [d["nodes"]], "f", inf=inf),
            "p_inf": lambda: h.array("p_inf", [d["techs"]], "f", inf=inf),
            "p_ts": lambda: h.array("p_ts", [d["timesteps"]], "f", inf=inf),
            "p_scalar": lambda: h.array("p_scalar", [], "f", inf=inf),
            "l_str": lambda: h.array("l_str", [d["techs"]], "S", values=["foo", "bar", "a_b"]),
            "l_strnan": lambda: h.array("l_strnan", [d["nodes"], d["techs"]], "S", values=["foo", "bar", "a_b"]),
            "l_bool": lambda: h.array("l_bool", [d["techs"]], "b"),
            "definition_matrix": lambda: h.array("definition_matrix", [d["nodes"], d["techs"], d["carriers"]], "b"),
            "carrier_in": lambda: h.array("carrier_in", [d["nodes"], d["techs"], d["carriers"]], "b"),
            "carrier_out": lambda: h.array("carrier_out", [d["nodes"], d["techs"], d["carriers"]], "b"),
        }
        rk = {
            "v_nt": lambda: h.array("v_nt", [d["nodes"], d["techs"]], "O", attrs={"obj_type": "variables"}),
            "v_nts": lambda: h.array("v_nts", [d["nodes"], d["techs"], d["timesteps"]], "O", attrs={"obj_type": "variables"}),
            "v_ntcs": lambda: h.array("v_ntcs", [d["nodes"], d["techs"], d["carriers"], d["timesteps"]], "O", attrs={"obj_type": "variables"}),
            "e_nt": lambda: h.array("e_nt", [d["nodes"], d["techs"]], "O", attrs={"obj_type": "global_expressions"}),
        }
        use = which if which is not None else [*mk, *rk]
        self.inputs = {k: f() for k, f in mk.items() if k in use}
        self.results = {k: f() for k, f in rk.items() if k in use}
        self.all = {**self.inputs, **self.results}
        self.input_ds = h.dataset(list(self.inputs.values()), list(d.values()))
        self.backend_ds = h.dataset(list(self.all.values()), list(d.values()))
        if h.mode == "concrete":
            self.snap = {k: v.copy(deep=True) for k, v in self.all.items()}

    def attrs(self, where=None, helpers="where", **kw):
        from calliope.backend import helper_functions
        from calliope.backend.eval_attrs import EvalAttrs

        a = dict(input_data=self.input_ds, backend_data=self.backend_ds, math=mkmath(), equation_name="eq",
                 helper_functions=helper_functions._registry[helpers],
                 build_config=kw.pop("build_config", None) or build_config())
        if where is not None:
            a["where_array"] = where
        a.update(kw)
        return EvalAttrs(**a)

    def unmodified(self):
        """Obligation: evaluation did not alter the data it read."""
        if self.h.mode == "concrete":
            ok = True
            for k, v in self.all.items():
                src = self.input_ds if k in self.inputs else self.backend_ds
                ok = ok and v.identical(self.snap[k]) and src[k].equals(self.snap[k])
            return ok
        # symbolic arrays are immutable values; only bindings could change
        return all(self.input_ds._arrays.get(k) is not None for k in self.inputs) and \
            set(self.input_ds._arrays) == set(self.inputs) and set(self.backend_ds._arrays) == set(self.all)

    def dim_list(self, names):
        return [self.d[n] for n in names]


class StubEval:
    """An operand that has already been evaluated: any value its contract allows.

    Stands for an arbitrary sub-tree of a parsed string (induction hypothesis)."""

    def __init__(self, value, name="stub"):
        self.value, self.name, self.seen = value, name, []

    def eval(self, return_type, eval_attrs):
        self.seen.append(eval_attrs)
        return self.value(eval_attrs) if callable(self.value) and not hasattr(self.value, "dims") else self.value

    def __repr__(self):
        return self.name


def default_of(name):
    m = {**MATH["parameters"], **MATH["lookups"]}[name]
    return m.get("default", float("nan"))


def filled(cell, default):
    """Value, or the declared default where missing."""
    import z3

    d = const_cell(default)
    if z3.is_true(z3.simplify(cell.null)) and not z3.is_true(z3.simplify(d.null)):
        return d
    if d.kind in "US" and cell.kind not in "US":
        return cell
    if z3.is_true(z3.simplify(d.null)):
        return cell
    return c_ite(cell.null, d, cell)


def defined(cell):
    """A bare input name: the value is there and finite."""
    if cell.kind == "b":
        return cell.val
    if cell.kind in "fiO":
        return And(Not(cell.null), Not(cell.pinf), Not(cell.ninf))
    return Not(cell.null)


def parr(dims, fn, kind):
    """Specification array: a function of the indices."""
    return arr.PArr([d.name for d in dims], fn, kind, None, {}, {d.name: d for d in dims})


def sub(a, env):
    return {d: env[d] for d in a.dims if d in env}


def at(h, a, env):
    """Value of array `a` at the index env (extra dimensions ignored)."""
    return h.cell(a, sub(a, env))


class Only:
    """A stand-in with just the attributes given: anything else the code asks for leaves the contract undecided."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, n):
        from dv.core import Unsupported

        raise Unsupported(f"attribute {n} of a stand-in")


def has(cls, *names):
    """The callees that are replaced by their contracts exist under these names; otherwise undecided."""
    from dv.core import Unsupported

    for n in names:
        if n not in vars(cls):
            raise Unsupported(f"{cls.__name__}.{n} not found")


def attempt(h, fn, *a, **k):
    """As h.call, but an error of the stand-ins (not of the code) leaves the contract undecided."""
    from dv.core import Unsupported
    from dv.harness import Raised

    r = h.call(fn, *a, **k)
    if isinstance(r, Raised) and isinstance(r.exc, (AttributeError, TypeError, NameError)):
        raise Unsupported(repr(r.exc))
    return r
