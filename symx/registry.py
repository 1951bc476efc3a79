"""Harness registry.  A harness is a function (ctx, case); it is run symbolically (ctx: SymCtx, code under
test rewritten and executed on symbolic values) and concretely (ctx: ConCtx, the real code under the
repository's own interpreter) from the same source."""
HARNESSES = []


class Harness(object):
    def __init__(self, prop, fn, cases, bounds, opts):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.cases = cases
        self.bounds = bounds
        self.opts = opts


def harness(prop, cases=None, bounds='', **opts):
    """cases: list, or function(tier) -> list of JSON-able cases."""
    def deco(fn):
        HARNESSES.append(Harness(prop, fn, cases, bounds, opts))
        return fn
    return deco


def cases_of(h, tier):
    c = h.cases
    if callable(c):
        c = c(tier)
    return list(c) if c is not None else [None]


def load(prop):
    """Import the harness module of a property; returns its harnesses."""
    import importlib
    del HARNESSES[:]
    name = 'harness.%s' % prop.lower()
    importlib.import_module(name)
    return [h for h in HARNESSES if h.prop == prop]
