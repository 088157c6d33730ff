"""Abstract values of the MIR value-flow analysis."""
from terms import *
import terms as TT

D = [canon_idx(f"@{k}") for k in range(4)]     # index variables of array bodies
SQ = canon_idx("%0")                            # position variable of sequences


class Val:
    pass


class Arr(Val):
    __slots__ = ("shape", "body")

    def __init__(self, shape, body):
        self.shape, self.body = tuple(shape), body

    def at(self, *ix):
        assert len(ix) == len(self.shape)
        m = {D[k]: x for k, x in enumerate(ix) if x is not D[k]}
        return vsubst(self.body, m) if m else self.body

    def __repr__(self):
        return f"Arr{list(map(show, self.shape))}{{{self.body}}}"


class Struct(Val):
    __slots__ = ("key", "name", "fields")

    def __init__(self, key, name, fields):
        self.key, self.name, self.fields = key, name, tuple(fields)

    def __repr__(self):
        return f"{self.name}{list(self.fields)}"


class Enum(Val):
    """guarded union of variants: {variant: (guard, fields)}; guards partition the current path condition"""
    __slots__ = ("key", "name", "alts")

    def __init__(self, key, name, alts):
        self.key, self.name = key, name
        self.alts = {v: a for v, a in alts.items() if a[0] is not FALSE}

    def __repr__(self):
        return f"{self.name}{{{', '.join(f'{v}[{bshow(c)}]: {list(f)}' for v, (c, f) in self.alts.items())}}}"


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"{self.items}"


UNIT = Tup(())


class Clo(Val):
    __slots__ = ("key", "caps", "env")

    def __init__(self, key, caps, env):
        self.key, self.caps, self.env = key, tuple(caps), env

    def __repr__(self):
        return f"Clo({self.key})"


class FnV(Val):
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return f"FnV({self.fn['key']})"


class Gate(Val):
    """guarded union of values of different kinds / shapes"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return f"Gate({self.alts})"


class Ref(Val):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def __repr__(self):
        return f"Ref({self.cell}{self.path})"


class MutView(Val):
    """writable view into the array behind `base`; ix maps view index variables to base indices"""
    __slots__ = ("base", "shape", "ix")

    def __init__(self, base, shape, ix):
        self.base, self.shape, self.ix = base, tuple(shape), tuple(ix)


class Seq(Val):
    """a sequence / iterator: element at position SQ for SQ < size"""
    __slots__ = ("size", "elem", "pos", "tag")

    def __init__(self, size, elem, pos=ZERO, tag=None):
        self.size, self.elem, self.pos, self.tag = size, elem, pos, tag

    def at(self, k):
        return vsubst(self.elem, {SQ: k})

    def __repr__(self):
        return f"Seq[{show(self.size)}@{show(self.pos)}]({self.elem})"


class Str(Val):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)


class OrdV(Val):
    """result of comparing x with y"""
    __slots__ = ("x", "y", "total")

    def __init__(self, x, y, total):
        self.x, self.y, self.total = x, y, total


class Opq(Val):
    __slots__ = ("desc",)

    def __init__(self, desc):
        self.desc = desc

    def __repr__(self):
        return f"Opq({self.desc})"


def vsubst(v, m):
    if isinstance(v, (T, B)):
        return subst(v, m)
    if isinstance(v, Arr):
        mm = m
        # D variables of an array body are bound
        if any(d in m for d in D[:len(v.shape)]):
            mm = {k: x for k, x in m.items() if k not in D[:len(v.shape)]}
        if isinstance(v.body, (T, B)) and any((x.fv & set(D[:len(v.shape)])) for x in mm.values()):
            raise CaptureError()      # would capture an index variable
        return Arr([subst(s, m) for s in v.shape], vsubst(v.body, mm) if mm else v.body)
    if isinstance(v, Struct):
        return Struct(v.key, v.name, [vsubst(x, m) for x in v.fields])
    if isinstance(v, Enum):
        return Enum(v.key, v.name, {k: (subst(c, m), tuple(vsubst(x, m) for x in f)) for k, (c, f) in v.alts.items()})
    if isinstance(v, Tup):
        return Tup([vsubst(x, m) for x in v.items])
    if isinstance(v, Clo):
        return Clo(v.key, [vsubst(x, m) for x in v.caps], v.env)
    if isinstance(v, Gate):
        return Gate([(subst(c, m), vsubst(x, m)) for c, x in v.alts])
    if isinstance(v, Seq):
        mm = {k: x for k, x in m.items() if k is not SQ}
        return Seq(subst(v.size, m), vsubst(v.elem, mm), subst(v.pos, m), v.tag)
    if isinstance(v, MutView):
        return MutView(v.base, [subst(s, m) for s in v.shape], [subst(x, {k: y for k, y in m.items() if k not in D[:len(v.shape)]}) for x in v.ix])
    if isinstance(v, Ref):
        return Ref(v.cell, tuple(("i", tuple(subst(t, m) for t in p[1])) if p[0] == "i" else p for p in v.path))
    return v


class CaptureError(Exception):
    pass


def vfv(v):
    if isinstance(v, T):
        return v.fv
    if isinstance(v, B):
        return v.fv()
    if isinstance(v, Arr):
        r = set(vfv(v.body)) - set(D[:len(v.shape)])
        for s in v.shape:
            r |= s.fv
        return r
    if isinstance(v, Struct):
        return set().union(*[vfv(x) for x in v.fields]) if v.fields else set()
    if isinstance(v, Tup):
        return set().union(*[vfv(x) for x in v.items]) if v.items else set()
    if isinstance(v, Clo):
        return set().union(*[vfv(x) for x in v.caps]) if v.caps else set()
    if isinstance(v, Enum):
        r = set()
        for c, f in v.alts.values():
            r |= c.fv()
            for x in f:
                r |= vfv(x)
        return r
    if isinstance(v, Gate):
        r = set()
        for c, x in v.alts:
            r |= c.fv() | vfv(x)
        return r
    if isinstance(v, Seq):
        return (set(vfv(v.elem)) - {SQ}) | v.size.fv | v.pos.fv
    return set()


def same(a, b):
    """structural identity of abstract values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (T, B)):
        return a is b
    if isinstance(a, Arr):
        return len(a.shape) == len(b.shape) and all(x is y for x, y in zip(a.shape, b.shape)) and same(a.body, b.body)
    if isinstance(a, Struct):
        return a.key == b.key and len(a.fields) == len(b.fields) and all(same(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Enum):
        return a.key == b.key and a.alts.keys() == b.alts.keys() and all(a.alts[v][0] is b.alts[v][0] and len(a.alts[v][1]) == len(b.alts[v][1]) and all(same(x, y) for x, y in zip(a.alts[v][1], b.alts[v][1])) for v in a.alts)
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Clo):
        return a.key == b.key and all(same(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, Seq):
        return a.size is b.size and a.pos is b.pos and a.tag == b.tag and same(a.elem, b.elem)
    if isinstance(a, MutView):
        return same(a.base, b.base) and a.shape == b.shape and a.ix == b.ix
    if isinstance(a, Gate):
        return len(a.alts) == len(b.alts) and all(c is c2 and same(x, y) for (c, x), (c2, y) in zip(a.alts, b.alts))
    if isinstance(a, FnV):
        return a.fn == b.fn
    if isinstance(a, Str):
        return a.s == b.s
    return False


def dim_eq(a, b):
    return a is b or eq(a, b) is TRUE


def merge(c, a, b):
    """value that is a when c holds and b otherwise"""
    if c is TRUE or same(a, b):
        return a
    if c is FALSE:
        return b
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return b_ite(c, a, b)
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and all(dim_eq(x, y) for x, y in zip(a.shape, b.shape)) \
            and not (c.fv() & set(D[:len(a.shape)])):
        return Arr(a.shape, merge(c, a.body, b.body))
    if isinstance(a, Struct) and isinstance(b, Struct) and a.key == b.key:
        return Struct(a.key, a.name, [merge(c, x, y) for x, y in zip(a.fields, b.fields)])
    if isinstance(a, Enum) and isinstance(b, Enum) and a.key == b.key:
        alts = {}
        for v in set(a.alts) | set(b.alts):
            ca, fa = a.alts.get(v, (FALSE, None))
            cb, fb = b.alts.get(v, (FALSE, None))
            g = b_ite(c, ca, cb)
            if fa is None:
                f = fb
            elif fb is None:
                f = fa
            else:
                f = tuple(merge(c, x, y) for x, y in zip(fa, fb))
            alts[v] = (g, f)
        return Enum(a.key, a.name, dict(sorted(alts.items())))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Clo) and isinstance(b, Clo) and a.key == b.key:
        return Clo(a.key, [merge(c, x, y) for x, y in zip(a.caps, b.caps)], a.env)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.tag == b.tag and not (c.fv() & {SQ}):
        if a.size is b.size:
            return Seq(a.size, merge(c, a.elem, b.elem), ite(c, a.pos, b.pos), a.tag)
    if isinstance(a, (Opq,)) and isinstance(b, Opq):
        return a
    al = []
    for g, v in ((c, a), (~c, b)):
        if isinstance(v, Gate):
            al += [(g & c2, x) for c2, x in v.alts]
        else:
            al.append((g, v))
    out = []
    for g, v in al:
        if g is FALSE:
            continue
        for k, (g2, v2) in enumerate(out):
            if same(v, v2):
                out[k] = (g2 | g, v2)
                break
        else:
            out.append((g, v))
    return out[0][1] if len(out) == 1 else Gate(out)
