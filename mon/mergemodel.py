"""Reference model of merging: what the source has set replaces the target's, the rest of the target stays."""
import copy
from . import gen, schema as S


def r15(v):
    return float('%.15g' % v)


def fields(src, dst):
    """Simple fields, attributes and text."""
    for fl in S.CLASSES[src.cls].fields:
        v = src.f.get(fl.acc)
        if fl.kind == 'P':
            dst.f.pop(fl.acc, None)
        if v is None or fl.kind in 'CA':
            continue
        if fl.kind == 'd':
            dst.f[fl.acc] = r15(v)
        elif fl.kind == 'T':
            if v:
                dst.f[fl.acc] = v
        elif fl.kind == 'S':
            dst.f[fl.acc] = dst.f.get(fl.acc, []) + list(v)
        elif fl.kind == 'V':
            dst.f[fl.acc] = dst.f.get(fl.acc, []) + [tuple(r15(y) if y is not None else 0.0 for y in x) for x in v]
        else:
            dst.f[fl.acc] = copy.deepcopy(v)
    for a, v in src.uattrs.items():
        dst.uattrs[a] = v


def clone(n):
    c = gen.Node(n.cls)
    elements(n, c)
    c.unknown = list(n.unknown)
    return c


def elements(src, dst):
    """Raises Ambiguous where a repeated element of the source meets one of the target."""
    tk = [(fl, k) for fl, k in dst.kids()]
    for fl, k in list(src.kids()):
        same = [t for _, t in tk if t.cls == k.cls]
        if same and fl.kind == 'A':
            raise Ambiguous(fl.name)
        if same:
            elements(k, same[0])
        elif fl.kind == 'A':
            dst.f.setdefault(fl.acc, []).append(clone(k))
        else:
            dst.f[fl.acc] = clone(k)
    fields(src, dst)


class Ambiguous(Exception):
    pass


def disambiguate(rng, src, dst):
    """Drops from src the repeated elements whose class dst has already."""
    tk = [k for _, k in dst.kids()]
    for fl in S.CLASSES[src.cls].fields:
        v = src.f.get(fl.acc)
        if fl.kind == 'A' and v:
            keep = [k for k in v if not any(t.cls == k.cls for t in tk)]
            if keep:
                src.f[fl.acc] = keep
            else:
                del src.f[fl.acc]
        elif fl.kind == 'C' and v is not None:
            for t in tk:
                if t.cls == v.cls:
                    disambiguate(rng, v, t)
                    break
