"""Shared pieces of the checks."""
import itertools

import gen
from bind import BACKENDS, VERB, build, infoset, see, use
from model import diff, expected, match, norm
from spec import SPEC

NAMES = list(SPEC)
BACK = list(BACKENDS)


def groups_by_class(tier):
    return NAMES


def object_space(cname, tier):
    """All deviations from the baselines within the bounds of the tier."""
    seen = set()
    from explore import dumps

    def once(it):
        for a in it:
            k = dumps(a)
            if k not in seen and (cname != "Schema" or (a.get("id") or "").strip()):
                seen.add(k)
                yield a

    yield from once(gen.baselines(cname))
    yield from once(gen.deviate1(cname))
    yield from once(gen.deviate2(cname))
    yield from once(gen.subsets(cname, 12 if tier == "thorough" else 8))
    if tier == "thorough":
        yield from once(gen.deviate2(cname, (gen.full(cname, deep=0),)))
        yield from once(deviate3(cname))


def deviate3(cname):
    c = SPEC[cname]
    base = gen.mini(cname)
    for fs in itertools.combinations(c.fields, 3):
        for vs in itertools.product(*[[None] + gen.small(cname, f)[-1:] for f in fs]):
            a = base
            for f, v in zip(fs, vs):
                a = gen.put(a, f.attr, v)
            yield a


__all__ = ["BACK", "NAMES", "SPEC", "VERB", "build", "diff", "expected", "gen", "groups_by_class", "infoset",
           "match", "norm", "object_space", "see", "use"]
