"""Registry of harnesses.  Loaded both rewritten (symbolic) and plain (replay)."""
REG = []


class H:
    def __init__(self, fn, prop, cases, bounds, tier, budget, finding):
        self.fn = fn
        self.prop = prop
        self.cases = cases
        self.bounds = bounds
        self.tier = tier
        self.budget = budget
        self.name = fn.__module__.split('.')[-1] + '.' + fn.__name__
        self.finding = finding


def harness(prop, cases=(None,), bounds='', tier='quick', budget=None, thorough_cases=None, finding=None):
    """tier 'quick': run in both tiers; 'thorough': only in the thorough tier.
    thorough_cases: additional cases of the thorough tier"""
    def deco(fn):
        REG.append(H(fn, prop, list(cases), bounds, tier, budget, finding))
        if thorough_cases:
            h = H(fn, prop, list(thorough_cases), bounds + ' (deeper cases)', 'thorough', budget, finding)
            REG.append(h)
        return fn
    return deco
