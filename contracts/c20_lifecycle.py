"""C20: building and solving: gates, status flags, failures, force."""
import copy

import numpy as np

from dv.registry import bounded

from . import mini
from . import trees as T

TARGETS = ["model.Model.build", "model.Model.solve", "model.Model._build_backend", "model.Model.run", "model.Model.__init__", "model.Model._prepare_operate_mode_inputs", "model.Model._solve_operate", "model.Model._solve_spores"]


def definition(rng, mode):
    r = lambda lo, hi: round(rng.uniform(lo, hi), 3)
    over = {"techs": {"gas": {"cost_source_use": mini.cost(r(0.2, 1))}, "battery": {"cyclic_storage": False, "storage_initial": r(0, 0.5), "cost_flow_out": mini.cost(0.01)}},
            "config": {"init": {"mode": mode}}, "nodes": {"a": {"techs": {k: None for k in ("demand", "gas", "chp", "boiler", "heat_demand", "battery")}}}}
    if mode == "operate":
        caps = {"demand": 1e3, "heat_demand": 1e3, "gas": 80, "pv": r(5, 12), "battery": r(3, 8), "boiler": 15, "chp": 20, "line": 10}
        for k, v in caps.items():
            over["techs"].setdefault(k, {})["flow_cap"] = v
        over["techs"]["battery"]["storage_cap"] = r(5, 15)
        over["techs"]["pv"]["source_cap"] = over["techs"]["gas"]["source_cap"] = 1e3
        over["config"]["build"] = {"operate": {"window": "2h", "horizon": "4h"}}
    if mode == "spores":
        over["data_definitions"] = {"spores_slack": 0.2}
        over["techs"]["pv"] = {"spores_tracker": True}
        over["techs"]["chp"] = {"spores_tracker": True}
        over["config"]["solve"] = {"spores": {"number": 2, "tracking_parameter": "spores_tracker"}}
        for k in ("pv", "chp", "battery"):
            over["techs"].setdefault(k, {})["cost_flow_cap"] = mini.cost(r(0.5, 2))
    return over


MATH = {"lookups": {"spores_tracker": {"dtype": "bool", "default": False}}}


def state(m):
    """Everything an operation that is refused must leave alone."""
    return {"config": copy.deepcopy(m.config.model_dump()), "inputs": m.inputs.copy(deep=True), "results": m.results.copy(deep=True), "backend": getattr(m, "backend", None), "built": m.is_built, "solved": m.is_solved,
            "size": None if not hasattr(m, "backend") else {k: sorted(getattr(m.backend, k)) for k in ("variables", "constraints", "objectives")},
            "runtime": {k: v for k, v in m.runtime.model_dump().items() if k != "timings"}, "math": m.math.model_dump()}


def unchanged(b, m, s, detail):
    n = state(m)
    b.check("a refused operation leaves the inputs", n["inputs"].identical(s["inputs"]), detail)
    b.check("a refused operation leaves the results", n["results"].identical(s["results"]), detail)
    b.check("a refused operation leaves the configuration", T.same(T.plain(n["config"]), T.plain(s["config"])), detail)
    b.check("a refused operation leaves the problem", n["backend"] is s["backend"] and n["size"] == s["size"] and n["math"] == s["math"], detail)
    b.check("a refused operation leaves the status", (n["built"], n["solved"]) == (s["built"], s["solved"]) and str(n["runtime"]) == str(s["runtime"]), detail)


class Stop(Exception):
    pass


def same_results(a, c):
    """(names that differ) of two results with unique or equivalent optima: the costs and the indices."""
    bad = sorted(map(str, set(a.data_vars) ^ set(c.data_vars)))
    for v in a.data_vars:
        if v not in c.data_vars:
            continue
        x, y = a[v], c[v].transpose(*a[v].dims)
        if x.shape != y.shape or not np.array_equal(x.isnull().values, y.isnull().values):
            bad.append(f"{v}: indices")
        elif x.dtype.kind == "f" and not np.allclose(x.fillna(0).values, y.fillna(0).values, rtol=1e-5, atol=1e-5):
            bad.append(f"{v}: {float(abs(x - y).max())}")
    return bad


def fresh(over, cfg):
    o = mini.merge(over, {"config": {k: v for k, v in cfg.items() if k in ("build", "solve")}})
    m = mini.model(o, nt=6, math=MATH)
    m.build()
    m.solve()
    return m


@bounded("C20", targets=TARGETS, trials=6, shards=4, budget_s=250)
def random_histories(b):
    """Random sequences of building, solving and forcing with new configuration, wrong configuration and failures inside, in base, operate and spores mode."""
    import pydantic

    from calliope import backend as bk
    from calliope.backend.pyomo_backend_model import PyomoBackendModel as P
    from calliope.exceptions import BackendError, ModelError

    rng = b.rng
    mode = rng.choice(["base", "operate", "spores"])
    over = definition(rng, mode)
    m = mini.model(over, nt=6, math=MATH)
    built = has = False
    cfg = {"build": {}, "solve": {}}
    log = []
    b.check("a new model is neither built nor solved", not m.is_built and not m.is_solved and not m.results.data_vars, None)
    seen = None  # configuration of the problem that is built
    for _ in range(rng.randint(4, 8)):
        op = rng.choice(["build", "build", "solve", "solve", "solve", "bad build", "bad solve", "fail build", "fail solve"])
        force = rng.random() < 0.55
        detail = {"mode": mode, "operations": [*log, (op, force)]}
        log.append((op, force))
        s = state(m)
        if op in ("build", "bad build", "fail build"):
            kw = {}
            if rng.random() < 0.5 and op != "bad build":
                kw = {"operate": {"window": rng.choice(["2h", "3h"]), "horizon": rng.choice(["3h", "4h", "6h"])}} if mode == "operate" else {"ensure_feasibility": rng.random() < 0.8}
            if op == "bad build":
                kw = {"backend": "none such"}
            old = P.add_objective
            if op == "fail build":
                P.add_objective = lambda *a, **k: (_ for _ in ()).throw(Stop())
            try:
                m.build(force=force, **kw)
                err = None
            except (ModelError, pydantic.ValidationError, Stop) as e:
                err = e
            finally:
                P.add_objective = old
            if built and not force:
                b.check("building again needs force", isinstance(err, ModelError), {**detail, "error": repr(err)[:200]})
                unchanged(b, m, s, detail)
            elif op == "bad build":
                b.check("wrong configuration is refused", isinstance(err, pydantic.ValidationError), {**detail, "error": repr(err)[:200]})
                unchanged(b, m, s, detail)
            elif op == "fail build":
                b.check("a failing build raises", isinstance(err, Stop), {**detail, "error": repr(err)[:200]})
                cfg["build"] = mini.merge(cfg["build"], kw)
                built = m.is_built
                b.check("after a failing build either there is no problem or the old one", not built or (m.backend is s["backend"] and seen is not None), detail)
                b.check("a failing build leaves the results", m.results.identical(s["results"]) and m.is_solved == s["solved"], detail)
            else:
                b.check("building works", err is None, {**detail, "error": repr(err)[:300]})
                if err is not None:
                    return
                cfg["build"] = mini.merge(cfg["build"], kw)
                built = True
                b.check("the new problem replaces the old one, results stay until a new solve", m.backend is not s["backend"] and m.results.identical(s["results"]), detail)
                b.check("configuration given when building is remembered", all(same_cfg(v, m.config.build.model_dump()[k]) for k, v in cfg["build"].items()), detail)
                seen = copy.deepcopy(cfg["build"])
        else:
            kw = {}
            if rng.random() < 0.5 and op != "bad solve":
                kw = rng.choice([{"zero_threshold": rng.choice([0, 1e-10, 1e-3])}, {"shadow_prices": ["system_balance"]}, {"solver_options": {"threads": 1}}])
                if mode == "spores" and rng.random() < 0.5:
                    kw = {"spores": {"number": rng.choice([1, 2])}}
            if op == "bad solve":
                kw = {"zero_threshold": "text"} if rng.random() < 0.5 else {"solver_io": 5}
            old = P._solve
            n = rng.randint(0, 2 if mode != "base" else 0)
            count = [0]

            def stop(self, *a, **k):
                count[0] += 1
                if count[0] > n:
                    raise Stop()
                return old(self, *a, **k)

            if op == "fail solve":
                P._solve = stop
            try:
                m.solve(force=force, **kw)
                err = None
            except (ModelError, pydantic.ValidationError, Stop, BackendError) as e:
                err = e
            finally:
                P._solve = old
            if not built or (has and not force):
                b.check("solving needs a problem, solving again needs force", isinstance(err, ModelError), {**detail, "built": built, "results": has, "error": repr(err)[:200]})
                unchanged(b, m, s, detail)
            elif op == "bad solve":
                b.check("wrong configuration is refused", isinstance(err, pydantic.ValidationError), {**detail, "error": repr(err)[:200]})
                unchanged(b, m, s, detail)
            elif isinstance(err, Stop):
                cfg["solve"] = mini.merge(cfg["solve"], kw)
                b.check("a failing solve leaves the results of before", m.results.identical(s["results"]) and m.is_solved == has, detail)
            else:
                b.check("solving works", err is None, {**detail, "error": repr(err)[:300]})
                if err is not None:
                    return
                cfg["solve"] = mini.merge(cfg["solve"], kw)
                has = bool(m.results.data_vars)
                b.check("configuration given when solving is remembered", all(same_cfg(v, m.config.solve.model_dump()[k]) for k, v in cfg["solve"].items()), {**detail, "given": cfg["solve"], "config": str(m.config.solve)[:400]})
                f = fresh(over, {"build": seen, "solve": cfg["solve"]})
                b.check("the termination condition is that of a fresh model", m.runtime.termination_condition == f.runtime.termination_condition, detail)
                bad = same_results(f.results, m.results)
                b.check("the results are those of a fresh model", not bad, {**detail, "differ": bad[:6], "configuration": str(cfg)})
                if bad:
                    return
        b.check("the status says whether there is a problem", m.is_built == built, {**detail, "is_built": m.is_built})
        b.check("the status says whether there are results", m.is_solved == has == bool(m.results.data_vars), {**detail, "is_solved": m.is_solved, "results": bool(m.results.data_vars)})
    b.case((mode, str(log)))


def same_cfg(given, got):
    if isinstance(given, dict) and isinstance(got, dict):
        return all(k in got and same_cfg(v, got[k]) for k, v in given.items())
    return str(given) == str(got) or given == got


@bounded("C20", targets=TARGETS[:2] + ["model.Model.__init__", "model.read_netcdf"], trials=3, shards=2, budget_s=100)
def infeasible_and_loaded(b):
    """Status after a problem without a solution, and of models loaded from file before and after solving."""
    import calliope

    rng = b.rng
    over = definition(rng, "base")
    over["config"]["build"] = {"ensure_feasibility": False}
    over["techs"]["gas"]["flow_cap_max"] = rng.choice([0.01, 60])
    m = mini.model(over, nt=3, math=MATH)
    stage = rng.choice(["new", "built", "solved"])
    b.case((stage, str(over)))
    if stage != "new":
        m.build()
    if stage == "solved":
        m.solve()
        feasible = m.runtime.termination_condition == "optimal"
        b.check("the status says whether there are results", m.is_solved == feasible == bool(m.results.data_vars), {"termination": m.runtime.termination_condition, "is_solved": m.is_solved})
    b.check("the status says whether there is a problem", m.is_built == (stage != "new"), {"stage": stage})
    m.to_netcdf(b.scratch / "l.nc")
    n = calliope.read_netcdf(b.scratch / "l.nc")
    b.check("a loaded model has results exactly if it was saved with results, and no problem", n.is_solved == m.is_solved == bool(n.results.data_vars) and not n.is_built, {"stage": stage, "is_solved": n.is_solved})
    held = n.results.copy(deep=True)
    try:
        n.solve(force=True)
        b.check("a loaded model has to be built before solving", False, {"stage": stage})
    except calliope.exceptions.ModelError:
        pass
    n.build()
    if m.is_solved:
        try:
            n.solve()
            b.check("results of a loaded model need force to be replaced", False, {"stage": stage})
        except calliope.exceptions.ModelError:
            b.check("a refused operation leaves the results", n.results.identical(held) and n.is_solved, {"stage": stage})
    n.solve(force=m.is_solved)
    if stage == "solved":
        b.check("the loaded model solves as the saved one", n.runtime.termination_condition == m.runtime.termination_condition and not same_results(m.results, n.results), {"stage": stage, "differ": same_results(m.results, n.results)[:5]})


# ---------------------------------------------------------------- proofs: one step from an arbitrary state
#
# State of a model: (problem built?, results there?, configuration, problem, results, inputs).  The history invariant is
# "is_built exactly if there is a complete problem, is_solved exactly if there are results".  The contracts prove for an
# arbitrary state satisfying it that one call keeps it, so it holds after every sequence of calls.
from dv.core import And, Iff, Implies, Not, Or  # noqa: E402
from dv.harness import Raised  # noqa: E402
from dv.registry import contract  # noqa: E402

from .common import Only, attempt, has  # noqa: E402


class Wrong(Exception):
    """A failure of a callee (configuration refused, solver failed...)."""


class Config(Only):
    def update(self, over):
        if self.refuses:
            raise Wrong("configuration")
        self.made.append(over)
        return Config(init=self.init, build=self.build, solve=self.solve, refuses=False, made=self.made, of=self)


def arbitrary(h, mod):
    """A model in an arbitrary state that satisfies the invariant."""
    M = mod.Model
    m = M.__new__(M)
    built, full, refuses = h.bool("built"), h.bool("results"), h.choose("configuration", [False, True])
    mode = h.choose("mode", ["base", "operate", "spores"])
    m._is_built, m._is_solved, m._start_window_idx = built, full, 0
    m.config = Config(init=Only(mode=mode), build=Only(operate=Only()), solve=Only(shadow_prices=[], zero_threshold=0), refuses=refuses, made=[])
    m.inputs = Only()
    m.results = Only(data_vars=full, attrs={})
    m.runtime = Only(timings={})
    m.runtime.update = lambda d: Only(timings=m.runtime.timings, update=m.runtime.update, given=d)
    m.math = Only(build=Only())
    m.math.update = lambda d: Only(build=d["build"], update=m.math.update)
    m.definition = Only()
    m.backend = Only(complete=True, of=m.inputs, shadow_prices=Only(track_constraints=lambda x: None), math=Only(model_dump=lambda: Only()))
    return m, built, full, refuses, mode


def frame(m):
    return {k: getattr(m, k) for k in ("config", "inputs", "results", "runtime", "math", "backend", "definition")}


def kept(m, f, names=None):
    return all(getattr(m, k) is f[k] for k in (names or f))


@contract("C20", targets=["calliope.model.Model.build", "calliope.model.Model._build_backend"], max_paths=4000)
def build_step(h):
    """build from any state: refused without force (nothing changes), otherwise a complete problem from the new configuration or a clear failure."""
    import calliope.model as mod
    from calliope.exceptions import ModelError

    has(mod.Model, "_prepare_operate_mode_inputs")
    if not hasattr(mod, "backend") or not hasattr(mod.backend, "get_model_backend"):
        from dv.core import Unsupported

        raise Unsupported("backend.get_model_backend")
    m, built, full, refuses, mode = arbitrary(h, mod)
    force = h.bool("force")
    fate = h.choose("building", ["works", "inputs fail", "no backend", "components fail"])
    if fate == "inputs fail" and mode != "operate":
        fate = "works"
    window = Only()
    made = []

    def prepare(self, cfg):
        if fate == "inputs fail":
            raise Wrong("inputs")
        return window

    def get(cfg, data, math):
        if fate == "no backend":
            raise Wrong("backend")

        def add():
            if fate == "components fail":
                raise Wrong("components")
            be.complete = True

        be = Only(complete=False, add_optimisation_components=add, data=data, cfg=cfg, math=math)
        made.append(be)
        return be

    f, old = frame(m), m.backend
    kw = {"operate": 1}
    with h.stub((mod.Model, "_prepare_operate_mode_inputs", prepare), (mod.backend, "get_model_backend", get)):
        r = attempt(h, m.build, force=force, **kw)
    refused = And(built, Not(force))
    solved = Iff(m._is_solved, full)
    h.prove("building never changes results or their status", And(m.results is f["results"], solved))
    if isinstance(r, Raised) and r.isa(ModelError):
        h.prove("building is refused only when a problem exists and force is not given", refused)
        h.prove("a refused build changes nothing", And(kept(m, f), Iff(m._is_built, built)))
        return
    h.prove("building again without force is refused", Not(refused))
    if isinstance(r, Raised) and refuses:
        h.prove("a configuration that is refused changes nothing", And(kept(m, f), Iff(m._is_built, built)))
        return
    h.prove("the configuration given is remembered", m.config.of is f["config"] and f["config"].made == [{"build": kw}])
    if isinstance(r, Raised):
        h.prove("a failure comes from building", fate != "works")
        h.prove("after a failing build the status does not claim a problem, or it is complete", Or(Not(m._is_built), m.backend.complete))
        return
    h.prove("building succeeds only with a complete problem", fate == "works" and m.backend.complete and m.backend is not old and len(made) == 1)
    h.prove("the status says that there is a problem", m._is_built)
    h.prove("the problem is built from the data of the mode", m.backend.data is (window if mode == "operate" else f["inputs"]) and m.backend.math is f["math"].build)


@contract("C20", targets=["calliope.model.Model.solve"], max_paths=8000)
def solve_step(h):
    """solve from any state: refused without a problem, or with results and without force (nothing changes); otherwise the results of the mode's solver, or a failure that leaves the old results."""
    import calliope.model as mod
    from calliope.exceptions import ModelError

    has(mod.Model, "_solve_operate", "_solve_spores", "_apply_zero_threshold")
    m, built, full, refuses, mode = arbitrary(h, mod)
    force, warm = h.bool("force"), h.bool("warmstart")
    fate = h.choose("solving", ["works", "fails"])
    term = h.choose("termination", ["optimal", "feasible", "infeasible", "unknown"])
    some = h.bool("solution")
    used = []

    def result(how):
        def fn(*a, **k):
            used.append(how)
            if fate == "fails":
                raise Wrong("solver")
            return Only(data_vars=some, attrs={"termination_condition": term}, cut=False)
        return fn

    m.backend._solve = result("base")
    thr = lambda res, t: Only(data_vars=res.data_vars, attrs=res.attrs, cut=True)
    f = frame(m)
    kw = {"zero_threshold": 1}
    with h.stub((mod.Model, "_solve_operate", result("operate")), (mod.Model, "_solve_spores", result("spores")), (mod.Model, "_apply_zero_threshold", staticmethod(thr))):
        r = attempt(h, m.solve, force=force, warmstart=warm, **kw)
    refused = Or(Not(built), And(full, Not(force)))
    h.prove("solving never changes the problem or its status, nor the inputs", And(m.backend is f["backend"], m.inputs is f["inputs"], Iff(m._is_built, built)))
    if isinstance(r, Raised) and r.isa(ModelError):
        h.prove("solving is refused only without a problem, or with results and without force", refused)
        h.prove("a refused solve changes nothing", And(kept(m, f), Iff(m._is_solved, full), not used))
        return
    h.prove("solving without a problem, or again without force, is refused", Not(refused))
    if isinstance(r, Raised):
        h.prove("a failing solve leaves the results and their status", And(m.results is f["results"], Iff(m._is_solved, full)))
        h.prove("a failure comes from the configuration or the solver", refuses or fate == "fails")
        if refuses:
            h.prove("a configuration that is refused changes nothing", And(kept(m, f), not used))
        return
    h.prove("the configuration given is remembered", m.config.of is f["config"] and f["config"].made == [{"solve": kw}])
    h.prove("the solver of the mode is used, once", used == [mode])
    h.prove("the results are those of the solver", m.results is not f["results"] and m.results.data_vars is some)
    h.prove("small values are removed exactly from solutions", m.results.cut == (term in ("optimal", "feasible")))
    h.prove("the status says whether there are results", Iff(m._is_solved, some))
    h.prove("the termination condition moves to the runtime attributes", m.runtime.given == {"termination_condition": term} and "termination_condition" not in m.results.attrs)


@contract("C20", targets=["calliope.model.Model.is_built", "calliope.model.Model.is_solved"])
def flags(h):
    """The public status is the internal one."""
    import calliope.model as mod

    m, built, full, _, _ = arbitrary(h, mod)
    h.prove("is_built", Iff(m.is_built, built))
    h.prove("is_solved", Iff(m.is_solved, full))
