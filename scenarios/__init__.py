"""Scenario registry: name -> function(env, **params)."""
REG = {}


def scenario(f):
    REG[f.__name__] = f
    return f


from . import standard, extended, props2, props3, bayes, helpers, props4  # noqa: E402,F401
