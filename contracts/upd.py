"""Random updates of inputs and their expected effect (dictionary-based, independent of the code's array handling)."""
import itertools
import math

import numpy as np
import xarray as xr

from . import refmath as R


def isnull(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def as_dict(da):
    """{(labels): value} of every cell, nulls as None."""
    out = {}
    labels = [[x for x in da[d].values] for d in da.dims]
    for ix in np.ndindex(*da.shape):
        v = da.values[ix]
        v = v.item() if hasattr(v, "item") and not isinstance(v, str) else v
        out[tuple(labels[k][j] for k, j in enumerate(ix))] = None if isnull(v) else v
    return out


def merged(inputs, name, new, old=None):
    """Expected input after the update: at every index the new value where the user gave one, else the old value.

    `new` is (dims, {labels: value}); dims it lacks are broadcast."""
    dims, vals = new
    if name in inputs:
        old = inputs[name]
    if old is None:
        old = xr.DataArray(np.nan)
    od = as_dict(old)
    alld = list(old.dims) + [d for d in dims if d not in old.dims]
    shape = [inputs.sizes[d] for d in alld]
    kind = old.dtype if old.dtype.kind in "bU" else object
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        env = {d: inputs[d].values[i] for d, i in zip(alld, ix)}
        v = vals.get(tuple(env[d] for d in dims))
        if v is None:
            v = od.get(tuple(env[d] for d in old.dims))
        out[ix] = np.nan if v is None else v
    if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in out.flat):
        out = out.astype(float)
    elif kind is not object and not any(isnull(x) for x in out.flat):
        out = out.astype(kind)
    return xr.DataArray(out, dims=alld, coords={d: inputs[d] for d in alld}, attrs=old.attrs)


def random_update(rng, inputs, name, dims, value, allow_new_dims=True):
    """(what to pass to update_input, (dims, {labels: value}) meaning, description)."""
    lab = {d: list(inputs[d].values) for d in inputs.dims}
    k = rng.choice(["full", "partial", "labels", "scalar", "fewer", "one", "shuffled"])
    if not dims and k not in ("scalar",):
        k = "scalar"
    if k == "scalar":
        v = value()
        return rng.choice([v, xr.DataArray(v)]), ((), {(): v}), "scalar"
    use = list(dims)
    if k == "fewer" and len(use) > 1:
        use = rng.sample(use, rng.randint(1, len(use) - 1))
    if k == "shuffled":
        rng.shuffle(use)
    sub = {d: list(lab[d]) for d in use}
    if k in ("labels", "one", "shuffled"):
        for d in use:
            n = 1 if k == "one" else rng.randint(1, len(lab[d]))
            sub[d] = rng.sample(lab[d], n)
    if k == "point":
        pt = {d: rng.choice(lab[d]) for d in use}
        v = value()
        return xr.DataArray(v, coords=pt), (tuple(use), {tuple(pt[d] for d in use): v}), f"scalar coordinates {pt}"
    vals = {}
    arr = np.empty([len(sub[d]) for d in use], dtype=object)
    for ix in np.ndindex(*arr.shape):
        key = tuple(sub[d][i] for d, i in zip(use, ix))
        v = None if (k in ("partial", "labels", "fewer", "shuffled") and rng.random() < 0.35) else value()
        arr[ix] = np.nan if v is None else v
        if v is not None:
            vals[key] = v
    flat = list(arr.flat)
    if all(isinstance(x, bool) for x in flat):
        arr = arr.astype(bool)
    elif all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in flat):
        arr = arr.astype(float)
    return xr.DataArray(arr, dims=use, coords={d: sub[d] for d in use}), (tuple(use), vals), f"{k} over {use}"
