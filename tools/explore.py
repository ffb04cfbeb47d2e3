"""Run a bounded check over many seeds without stopping: explore.py C12 NAME FROM TO  (development aid)."""
import collections, json, pathlib, sys, tempfile, os, traceback, shutil
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parents[1]))
import dv  # noqa
from dv import registry, run as _run
import importlib, multiprocessing as mp
prop, name, lo, hi = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
for f in (pathlib.Path(__file__).resolve().parents[1] / "contracts").glob(prop.lower() + "*.py"):
    mod = importlib.import_module("contracts." + f.stem)
fn = getattr(mod, name)
fn = getattr(fn, "fn", fn)
from dv.run import Bounded
def one(i):
    d = pathlib.Path(tempfile.mkdtemp(prefix="dvx_")); os.chdir(d)
    so = os.dup(1); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1)
    b = Bounded(f"1:{name}:{i}", "quick", d)
    try:
        fn(b)
    except Exception as e:
        b.fails.append({"label": "EXC " + repr(e)[:200], "detail": traceback.format_exc()[-900:]})
    os.dup2(so, 1); os.chdir("/"); shutil.rmtree(d, ignore_errors=True)
    return i, b.fails, b.evaluations
if __name__ == "__main__":
    c = collections.Counter(); ex = {}; ev = 0
    with mp.Pool(8, maxtasksperchild=4) as p:
        for i, f, n in p.imap_unordered(one, range(lo, hi)):
            ev += n
            for x in {x["label"]: x for x in f}.values():
                c[x["label"]] += 1
                ex.setdefault(x["label"], (i, x["detail"]))
    print(ev, "evaluations")
    for k, n in c.most_common(25):
        print(n, k, "| seed", ex[k][0], "|", str(ex[k][1])[:1200])
