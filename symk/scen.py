"""Scenario registry (no solver import)."""


class Registry:
    def __init__(self):
        self.items = []

    def add(self, fn=None, tiers=('quick', 'thorough'), variants=None, budget=None, wits=None, max_paths=None):
        """Register fn, once per variant (a list of keyword dicts, or tier -> list)."""
        def deco(f):
            self.items.append((f, tiers, variants, budget, wits, max_paths))
            return f
        return deco(fn) if fn is not None else deco

    def jobs(self, tier):
        out = []
        # the small ones first, whatever becomes of the large ones
        first = ('magnitudes', 'exact_values', 'tails')
        for f, tiers, variants, budget, wits, mp in sorted(self.items, key=lambda it: it[0].__name__ not in first):
            if tier not in tiers:
                continue
            vs = variants(tier) if callable(variants) else (variants or [{}])
            for v in vs:
                nm = f.__name__ + ('[' + ','.join('%s=%s' % kv for kv in v.items()) + ']' if v else '')
                b = budget.get(tier) if isinstance(budget, dict) else budget
                out.append((nm, f, v, b, wits, mp))
        return out

    def lookup(self, name, tier):
        for nm, f, v, *_ in self.jobs(tier):
            if nm == name:
                return f, v
        raise KeyError(name)
