"""The public helper functions on missing data."""
import math

from . import scenario


def _view(a, view):
    if view == "T":
        return a.T
    if view == "reverse":
        return a[::-1]
    if view == "every other":
        return a[::2]
    return a


def _flat(v):
    return [y for x in v for y in _flat(x)] if isinstance(v, (list, tuple)) else [v]


@scenario
def nan_all(env, shape, dtype="f8", view=None):
    """True exactly when every element is NaN, for every pattern of NaNs and
    every value of the others; the argument is left alone."""
    a = _view(env.real("a", shape, dtype=dtype, nan=None if dtype != "f8" else "each"), view)
    before = env.vals(a)
    want = env.all_nan(_flat(before))
    got = env.kit.utils.is_nan_all(a)
    env.true("a single truth value", getattr(got, "ndim", 0) == 0 and got is not None)
    if env.cond(got):
        env.true("true only when all are NaN", want, "got true for not all NaN")
    else:
        env.true("true when all are NaN", ~want if env.symbolic else not want, "got false for all NaN")
    env.eq("argument unchanged", a, before)


@scenario
def nan_all_inf(env, size):
    """Infinities are values, not NaNs."""
    kinds = [env.choice(f"kind{i}", 4) for i in range(size)]
    pool = [env.nan(), math.inf, -math.inf]
    reals = env.vals(env.real("a", (size,)))
    a = env.array([pool[k] if k < 3 else reals[i] for i, k in enumerate(kinds)])
    want = all(k == 0 for k in kinds)
    got = env.kit.utils.is_nan_all(a)
    env.true("true exactly when all are NaN", env.cond(got) == want, f"kinds {kinds}")
    env.eq("value", reals, reals)


@scenario
def placeholder(env, shape, dtype="f8", nan=None):
    """None becomes an all-NaN float array of the given shape."""
    ref = env.real("ref", shape, dtype=dtype, nan=nan)
    before = env.vals(ref)
    out = env.kit.utils.check_none_and_broadcast(None, ref)
    env.true("shape", tuple(out.shape) == tuple(shape), f"shape {tuple(out.shape)}, expected {tuple(shape)}")
    env.true("floating point", out.dtype.kind == "f", f"dtype {out.dtype}")
    for i, v in enumerate(_flat(env.vals(out))):
        env.true(f"element {i} is NaN", env.isnan(v))
    env.true("recognised as absent", env.cond(env.kit.utils.is_nan_all(out)))
    if out.flags.writeable:
        out[...] = 7.0
    env.eq("reference array unchanged", ref, before)


@scenario
def passed_through(env, shape, ref_shape, dtype="f8", ref_dtype="f8", keyword=False):
    """An array that is given comes back with its shape and values, whatever
    they are, NaNs included."""
    a = env.real("a", shape, dtype=dtype, nan=None if dtype != "f8" else "each")
    ref = env.real("ref", ref_shape, dtype=ref_dtype)
    before, rbefore = env.vals(a), env.vals(ref)
    f = env.kit.utils.check_none_and_broadcast
    out = f(arr=a, broad_to=ref) if keyword else f(a, ref)
    env.true("shape", tuple(out.shape) == tuple(shape), f"shape {tuple(out.shape)}, expected {tuple(shape)}")
    env.eq("values", out, before)
    env.eq("argument unchanged", a, before)
    env.eq("reference unchanged", ref, rbefore)
