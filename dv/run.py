"""Check runner: python -m dv.run C07 [--tier quick|thorough] [--replay FILE] [--only NAME]"""
from __future__ import annotations

import argparse
import copy
import importlib
import json
import logging
import multiprocessing as mp
import os
import pathlib
import random
import signal
import sys
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT))
SRC = os.environ.get("DV_SRC", "/repo/src")
if SRC not in sys.path:
    sys.path.insert(0, SRC)
warnings.simplefilter("ignore")
logging.disable(logging.WARNING)
sys.setrecursionlimit(5000)

import dv  # noqa: E402
from dv import core, harness, registry  # noqa: E402


def known_findings(prop):
    out = []
    p = ROOT / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append(line)
    return out


# --------------------------------------------------------------------------- workers


class Bounded:
    """Context of a bounded check on the real code."""

    def __init__(self, seed, tier, scratch):
        self.rng = random.Random(seed)
        self.seed = seed
        self.tier = tier
        self.scratch = scratch
        self.evaluations = 0
        self.nontrivial = set()
        self.fails = []
        self.samples = []
        self.known = []

    def check(self, label, ok, detail=None):
        self.evaluations += 1
        if not bool(ok):
            if len(self.fails) < 20:
                self.fails.append({"label": label, "detail": detail() if callable(detail) else detail})
            return False
        return True

    def case(self, key, sample=None):
        self.nontrivial.add(str(key))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)


def _proof_job(c, tier, seed):
    res = {"contract": c.name, "kind": "proof", "targets": c.targets, "doc": c.doc.split("\n")[0]}
    t0 = time.time()
    mult = 3 if tier == "thorough" else 1
    eng = harness.run_symbolic(c, "proof", budget_s=c.budget_s * mult, timeout_ms=c.timeout_ms * mult, max_paths=c.max_paths)
    obs = eng.obligations
    res.update(
        obligations=len(obs), discharged=sum(o.status == "discharged" for o in obs),
        paths=eng.paths, completed_paths=eng.completed_paths, solver_s=round(eng.solver_s, 2), queries=eng.queries,
        problems=eng.problems[:10], assumptions=sorted(eng.assumptions), covered="end" in eng.covers,
        undischarged=[{"label": o.label, "status": o.status, "detail": o.detail[:1500]} for o in obs if o.status != "discharged"][:10],
        labels=sorted({o.label for o in obs}),
    )
    res["proved"] = bool(obs) and res["discharged"] == res["obligations"] and not eng.problems and res["covered"]
    res["definite"] = any(o.status == "refuted" and not o.abstract for o in obs)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def _concrete_job(c, tier, seed):
    """Run-time check of a proof contract on real inputs, random."""
    n = c.trials * (8 if tier == "thorough" else 1)
    rng = random.Random(f"{seed}:{c.name}")
    ok = skip = 0
    evals = 0
    errs, sample, distinct = {}, None, set()
    fail = None
    t0 = time.time()
    for i in range(n):
        if time.time() - t0 > c.budget_s:
            break
        st, info, h, k = harness.run_concrete(c, rng=random.Random(rng.random()))
        evals += k
        if st == "ok":
            ok += 1
            key = json.dumps(h.log, default=str, sort_keys=True)
            distinct.add(hash(key))
            if sample is None or (ok == 7):
                sample = json.loads(key)
        elif st == "skip":
            skip += 1
        elif st == "fail":
            fail = {"fails": info, "assignment": json.loads(json.dumps(h.log, default=str))}
            break
        else:
            errs[str(info)] = errs.get(str(info), 0) + 1
    return {"contract": c.name, "kind": "concrete", "ok": ok, "skip": skip, "evals": evals, "errors": errs, "fail": fail,
            "distinct": len(distinct), "sample": sample, "wall_s": round(time.time() - t0, 2)}


def _search_job(c, tier, seed):
    """Counter-model search for a contract that was not proved; confirm on real code."""
    out = {"contract": c.name, "kind": "search", "models": 0, "confirmed": None, "problems": []}
    for sizes in (c.sizes or [{}]):
        eng = harness.run_symbolic(c, "search", sizes=sizes, budget_s=60, timeout_ms=8000, max_paths=c.max_paths)
        out["problems"] += eng.problems[:3]
        for o in eng.obligations:
            if o.status == "refuted" and isinstance(o.model, dict):
                out["models"] += 1
                st, info, h, _ = harness.run_concrete(c, assignment=o.model)
                if st == "fail":
                    out["confirmed"] = {"fails": info, "obligation": o.label, "assignment": json.loads(json.dumps(h.log, default=str))}
                    return out
    return out


def _bounded_job(c, tier, seed):
    import tempfile
    import shutil

    scratch = pathlib.Path(tempfile.mkdtemp(prefix="dv_"))
    res = {"contract": c.name, "kind": "bounded", "targets": c.targets, "doc": c.doc.split("\n")[0], "evals": 0, "fail": None,
           "errors": {}, "distinct": 0, "samples": [], "known": []}
    t0 = time.time()
    n = c.trials * (6 if tier == "thorough" else 1)
    distinct = set()
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        for i in range(c.shard, n, c.shards):
            if time.time() - t0 > c.budget_s * (3 if tier == "thorough" else 1):
                res["truncated"] = f"{i} of {n} trials"
                break
            b = Bounded(f"{seed}:{c.name}:{i}", tier, scratch)
            try:
                c.fn(b)
            except Exception as e:  # noqa: BLE001
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-5:])
                inrepo = any(f.filename.startswith(SRC.rstrip("/") + "/") for f in tb)
                if inrepo:
                    b.fails.append({"label": "unexpected exception", "detail": f"{type(e).__name__}: {str(e)[:500]} [{where}]"})
                else:
                    k = f"{type(e).__name__}: {str(e)[:300]} [{where}]"
                    res["errors"][k] = res["errors"].get(k, 0) + 1
            res["evals"] += b.evaluations
            distinct |= b.nontrivial
            res["known"] += b.known
            if len(res["samples"]) < 3:
                res["samples"] += b.samples
            if b.fails:
                res["fail"] = {"fails": b.fails, "seed": b.seed, "trial": i}
                break
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    res["distinct"] = len(distinct)
    res["wall_s"] = round(time.time() - t0, 2)
    return res


JOBS = {"proof": _proof_job, "concrete": _concrete_job, "search": _search_job, "bounded": _bounded_job}


def _worker(conn, job, c, tier, seed):
    os.setpgrp()
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        r = JOBS[job](c, tier, seed)
    except BaseException as e:  # noqa: BLE001
        r = {"contract": c.name, "kind": job, "crash": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"}
    try:
        conn.send(r)
    finally:
        conn.close()


def run_jobs(jobs, tier, seed, limit_s, workers=8):
    """jobs: list of (jobname, contract, timeout)."""
    ctx = mp.get_context("fork")
    pending = list(jobs)
    live = []
    out = []
    t_end = time.time() + limit_s
    while pending or live:
        while pending and len(live) < workers:
            job, c, to = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_worker, args=(b, job, c, tier, seed))
            p.start()
            b.close()
            live.append((p, a, job, c, min(time.time() + to, t_end)))
        time.sleep(0.01)
        nxt = []
        for p, a, job, c, tl in live:
            done = None
            try:
                if a.poll(0):
                    done = a.recv()
            except EOFError:
                done = {"contract": c.name, "kind": job, "crash": "worker died"}
            if done is None and time.time() > tl:
                done = {"contract": c.name, "kind": job, "crash": "time limit"}
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            if done is not None:
                p.join(5)
                if p.is_alive():
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                out.append(done)
            else:
                nxt.append((p, a, job, c, tl))
        live = nxt
    return out


def merge_shards(rs):
    out = {}
    for r in rs:
        o = out.get(r["contract"])
        if o is None:
            out[r["contract"]] = r
            continue
        for k in ("evals", "distinct"):
            o[k] = o.get(k, 0) + r.get(k, 0)
        o["wall_s"] = max(o.get("wall_s", 0), r.get("wall_s", 0))
        o["fail"] = o.get("fail") or r.get("fail")
        for k, v in r.get("errors", {}).items():
            o.setdefault("errors", {})[k] = o.get("errors", {}).get(k, 0) + v
        o["samples"] = (o.get("samples", []) + r.get("samples", []))[:3]
        o["known"] = o.get("known", []) + r.get("known", [])
        for k in ("crash", "truncated"):
            if r.get(k) and not o.get(k):
                o[k] = r[k]
    return out


# --------------------------------------------------------------------------- main


def load(prop):
    for f in sorted((ROOT / "contracts").glob(f"{prop.lower()}*.py")):
        importlib.import_module(f"contracts.{f.stem}")
    return registry.of(prop)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(a.seed) if str(a.seed).isdigit() else 1
    t0 = time.time()
    cs = load(a.prop)
    cs = [c for c in cs if c.tier == "quick" or tier == "thorough"]
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    byname = {c.name: c for c in cs}
    if a.replay:
        return replay(a.replay, byname)
    if not cs:
        print(f"no contracts for {a.prop}")
        return 2
    k3 = 3 if tier == "thorough" else 1
    jobs = []
    for c in cs:
        for k in range(c.shards if c.kind == "bounded" else 0):
            ck = copy.copy(c)
            ck.shard = k
            jobs.append(("bounded", ck, c.budget_s * k3 + 120))
    jobs += [("concrete", c, c.budget_s + 120) for c in cs if c.kind == "proof" and c.trials]
    jobs += [("proof", c, c.budget_s * k3 + 60) for c in sorted(cs, key=lambda c: -c.budget_s) if c.kind == "proof"]
    limit = 540 if tier == "quick" else 6000
    res = run_jobs(jobs, tier, seed, limit)
    proofs = {r["contract"]: r for r in res if r["kind"] == "proof"}
    conc = {r["contract"]: r for r in res if r["kind"] == "concrete"}
    bnd = merge_shards([r for r in res if r["kind"] == "bounded"])
    todo = [byname[n] for n, r in proofs.items() if not r.get("proved") and not (conc.get(n) or {}).get("fail")]
    srch = {}
    if todo:
        left = min(100, max(60, 700 - (time.time() - t0))) if tier == "quick" else 2000
        srch = {r["contract"]: r for r in run_jobs([("search", c, min(200, left)) for c in todo], tier, seed, left)}

    violations = []
    repdir = ROOT / "evidence" / "replays"
    repdir.mkdir(parents=True, exist_ok=True)
    for f in repdir.glob(f"{a.prop}-*.json"):
        f.unlink()

    def viol(name, payload, confirmed):
        p = repdir / f"{a.prop}-{name}.json"
        p.write_text(json.dumps({"property": a.prop, "contract": name, "confirmed_on_real_code": confirmed, **payload,
                                 "replay_cmd": f"cd /verif && /opt/venv/bin/python -m dv.run {a.prop} --replay {p}"}, indent=1, default=str))
        violations.append((name, str(p), confirmed))

    for n, r in bnd.items():
        if r.get("fail"):
            viol(n, {"kind": "bounded", **r["fail"], "tier": tier}, True)
    for n, r in conc.items():
        if r.get("fail"):
            viol(n, {"kind": "concrete", "failed_obligations": r["fail"]["fails"], "assignment": r["fail"]["assignment"],
                     "proof": proofs.get(n)}, True)
    undecided = []
    for n, r in proofs.items():
        if r.get("proved") or (conc.get(n) or {}).get("fail"):
            continue
        s = srch.get(n, {})
        if s.get("confirmed"):
            viol(n, {"kind": "countermodel", "failed_obligations": s["confirmed"]["fails"],
                     "assignment": s["confirmed"]["assignment"], "proof": r}, True)
        elif r.get("definite") and not r.get("problems"):
            viol(n, {"kind": "proof-only", "failed_obligations": r.get("undischarged"), "proof": r}, False)
        else:
            undecided.append(n)

    # ------------------------------------------------------------- evidence
    obligations = sum(r.get("obligations", 0) for r in proofs.values())
    discharged = sum(r.get("discharged", 0) for r in proofs.values())
    nproved = [n for n, r in proofs.items() if r.get("proved")]
    ev_conc = sum(r.get("evals", 0) for r in conc.values())
    ev_bnd = sum(r.get("evals", 0) for r in bnd.values())
    distinct = sum(r.get("distinct", 0) for r in conc.values()) + sum(r.get("distinct", 0) for r in bnd.values())
    samples = [x for x in [r.get("sample") for r in conc.values()] if x][:2] + [y for r in bnd.values() for y in r.get("samples", [])][:3]
    from dv.trust import TRUSTED

    level = level_of(a.prop)
    assumptions = sorted({x for r in proofs.values() for x in r.get("assumptions", [])} | set(TRUSTED["engine"]))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"cd /verif && /opt/venv/bin/python -m dv.run {a.prop}",
        "trusted_base": TRUSTED["base"],
        "evaluations": ev_conc + ev_bnd, "distinct_nontrivial": distinct,
        "rule": "contract inputs drawn by a seeded generator (dimension sizes 1-4, missing/infinite entries, small dyadic numbers) "
                "and bounded scenario generators; a case counts when its inputs are distinct and its preconditions hold",
        "samples": samples or ["(no concrete sample in this run)"],
        "explanation": "Contracts on the real functions, discharged by z3 on verification conditions generated by symbolic "
                       "execution of the function objects in /repo; bounded checks of the same contracts on the real "
                       "code with real libraries, labelled bounded, are not counted as proved.",
        "contracts_proved": len(nproved), "contracts_total": len(proofs),
        "functions_under_contract": sorted({t for r in proofs.values() for t in r.get("targets", [])}),
        "functions_proved": sorted({t for n in nproved for t in proofs[n].get("targets", [])}),
        "functions_bounded_only": sorted({t for r in bnd.values() for t in r.get("targets", [])} - {t for n in nproved for t in proofs[n].get("targets", [])}),
        "solver": "z3 (python bindings)", "solver_s": round(sum(r.get("solver_s", 0) for r in proofs.values()), 2),
        "solver_queries": sum(r.get("queries", 0) for r in proofs.values()),
        "paths": sum(r.get("paths", 0) for r in proofs.values()),
        "per_contract": list(proofs.values()), "runtime_checks": list(conc.values()), "bounded_checks": list(bnd.values()),
        "search": list(srch.values()), "undecided": undecided,
    }
    for r in cov["runtime_checks"]:
        r.pop("sample", None)
    evid = {"property": a.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
            "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    (ROOT / "evidence").mkdir(exist_ok=True)
    if not a.only:
        (ROOT / "evidence" / f"{a.prop}.json").write_text(json.dumps(evid, indent=1, default=str))

    # ------------------------------------------------------------- report
    for n, r in sorted(proofs.items()):
        tag = "proved" if r.get("proved") else "NOT PROVED"
        print(f"[{tag}] {n}: {r.get('discharged')}/{r.get('obligations')} obligations, {r.get('paths')} paths, {r.get('solver_s')}s solver")
        if not r.get("proved"):
            for u in r.get("undischarged", [])[:4]:
                print("    undischarged:", u["label"], u["status"], u["detail"][:300].replace("\n", " ") if a.v else "")
            for pb in list(dict.fromkeys(str(x)[:400].replace("\n", " ") for x in (r.get("problems") or [])))[:3]:
                print("    problem:", pb)
            if r.get("crash"):
                print("    crash:", r["crash"][:1500])
            if not r.get("covered", True):
                print("    end not covered")
    for n, r in sorted(conc.items()):
        print(f"[runtime] {n}: {r.get('ok')} ok, {r.get('skip')} skipped, {r.get('evals')} evaluations, {r.get('wall_s')}s"
              + (f" errors={str(r['errors'])[:700]}" if r.get("errors") else "") + (f" crash={r['crash']}" if r.get("crash") else ""))
    for n, r in sorted(bnd.items()):
        print(f"[bounded] {n}: {r.get('evals')} evaluations, {r.get('distinct')} distinct, {r.get('wall_s')}s"
              + (f" errors={str(r['errors'])[:700]}" if r.get("errors") else "") + (f" crash={r['crash']}" if r.get("crash") else "")
              + (f" truncated={r['truncated']}" if r.get("truncated") else ""))
    if undecided:
        print("undecided (bounded stand-in used):", ", ".join(undecided))
    kn = set()
    for r in bnd.values():
        kn.update(r.get("known", []))
    for line in known_findings(a.prop):
        key = line.split("key=")[1].split()[0] if "key=" in line else ""
        if key in kn or not key:
            print("KNOWN-FINDING:", line.split("finding:", 1)[1].strip())
    kn_listed = {ln.split("key=")[1].split()[0] for ln in known_findings(a.prop) if "key=" in ln}
    for key in kn - kn_listed:
        viol("unlisted-" + key, {"kind": "finding not listed in known_findings.txt", "key": key}, True)
    print(f"{a.prop} {tier}: {discharged}/{obligations} obligations discharged, {len(nproved)}/{len(proofs)} contracts proved, "
          f"{ev_conc + ev_bnd} bounded evaluations, {time.time() - t0:.1f}s")
    for n, p, confirmed in violations:
        d = json.loads(pathlib.Path(p).read_text())
        print(f"  {n}: {json.dumps(d.get('failed_obligations') or d.get('fails'), default=str)[:600]}")
    if violations:
        conf = [v for v in violations if v[2]]
        for n, p, confirmed in (conf or violations):
            print(f"VIOLATION property={a.prop} replay={p}" + ("" if confirmed else " no-failing-input-found"))
        return 1
    ran = sum(1 for r in list(proofs.values()) + list(bnd.values()) + list(conc.values()) if not r.get("crash"))
    ok_any = obligations + ev_conc + ev_bnd
    if not ran or not ok_any:
        print("nothing could be checked")
        return 3
    return 0


def level_of(prop):
    try:
        m = json.loads((ROOT / "MANIFEST.json").read_text())
        for c in m["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:  # noqa: BLE001
        pass
    return "proof"


def replay(path, byname):
    d = json.loads(pathlib.Path(path).read_text())
    c = byname[d["contract"]]
    if d["kind"] == "bounded":
        b = Bounded(d["seed"], d.get("tier", "quick"), pathlib.Path("."))
        import tempfile
        b.scratch = pathlib.Path(tempfile.mkdtemp(prefix="dv_"))
        os.chdir(b.scratch)
        try:
            c.fn(b)
        except Exception:
            traceback.print_exc()
            return 1
        print(json.dumps(b.fails, indent=1, default=str))
        return 1 if b.fails else 0
    if d["kind"] == "proof-only":
        print(json.dumps(d["failed_obligations"], indent=1))
        return 1
    st, info, h, n = harness.run_concrete(c, assignment=d["assignment"])
    print(st, info)
    return 1 if st == "fail" else 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"  # reproducible set order
        os.execv(sys.executable, [sys.executable, "-m", "dv.run", *sys.argv[1:]])
    sys.exit(main())
