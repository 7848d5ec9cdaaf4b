"""Abstract values, locations and states of the value-graph interpreter."""
from terms import *


class Unsupported(Exception):
    """construct outside the analysed fragment: the obligation becomes undecided, never an alarm"""


class Ambiguous(Unsupported):
    """the construct is only outside the fragment because of an undecided condition: analyse by cases"""

    def __init__(self, msg, cond):
        Unsupported.__init__(self, msg)
        self.cond = cond


def unsup(msg, v):
    return Ambiguous(msg, v.c) if isinstance(v, Gate) else Unsupported(msg)


class Dead(Exception):
    """no normal continuation from here"""


class Loc:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __add__(self, p):
        return Loc(self.cell, self.path + (p,))

    def __eq__(self, o):
        return isinstance(o, Loc) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return 'Loc(%s%s)' % (self.cell, ''.join('.%s' % (p,) for p in self.path))


class Ptr:
    """pointer / iterator: element `off` of the sequence at `base`, or the object at base (off None)"""
    __slots__ = ('base', 'off')

    def __init__(self, base, off=None):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off is o.off

    def __hash__(self):
        return hash((self.base, self.off))

    def __repr__(self):
        return 'NULL' if self.base is None else 'Ptr(%r,%r)' % (self.base, self.off)


NULL = Ptr(None)


class Gate:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Gate) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return 'Gate(%r,%r,%r)' % (self.c, self.a, self.b)


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def with_(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Struct(self.cls, g)

    def __eq__(self, o):
        return isinstance(o, Struct) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return '%s%r' % (self.cls, self.f)


class Vec:
    __slots__ = ('n', 'd', 'et')

    def __init__(self, n, d, et='?'):
        self.n, self.d, self.et = n, d, et

    def __eq__(self, o):
        return isinstance(o, Vec) and self.n is o.n and (self.d is o.d or (isinstance(self.d, (tuple, Gen)) and self.d == o.d))

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Vec[%r]%r' % (self.n, self.d)


class Joined:
    """a value modelled by the property with its own rule for joining paths: join(c, other)"""


class Slots:
    """content of a sequence modelled by the property: get(off) and put(I, st, off, value, line) -> content"""


class Gen:
    """content of a sequence of objects: element k is elem"""
    __slots__ = ('k', 'elem')

    def __init__(self, k, elem):
        self.k, self.elem = k, elem

    def __eq__(self, o):
        return isinstance(o, Gen) and self.k is o.k and self.elem == o.elem

    def __hash__(self):
        return 11


class MapV:
    """map with concrete keys; each entry carries its presence condition"""
    # gen: (n, k, key, value) n further entries, the k-th of which is key -> value (key a term in k)
    # lazy: key term -> (presence, value) for entries of an unknown map
    __slots__ = ('e', 'vt', 'kt', 'gen', 'lazy')

    def __init__(self, e=None, vt=None, kt=None, like=None):
        self.e = e or {}
        self.vt, self.kt = vt, kt
        self.gen = like.gen if like is not None else None
        self.lazy = like.lazy if like is not None else None

    def __eq__(self, o):
        return isinstance(o, MapV) and self.e == o.e and self.gen == o.gen and self.lazy == o.lazy

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'Map%r' % (self.e,)


class AnyV:
    __slots__ = ('t', 'v')

    def __init__(self, t=None, v=None):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, AnyV) and self.t == o.t and self.v == o.v

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'Any<%s>(%r)' % (self.t, self.v)


class OptV:
    __slots__ = ('p', 'v')

    def __init__(self, p=FALSE, v=None):
        self.p, self.v = p, v

    def __eq__(self, o):
        return isinstance(o, OptV) and self.p is o.p and self.v == o.v

    def __hash__(self):
        return hash(self.p)


class Lam:
    """closure"""
    __slots__ = ('node', 'tu', 'env', 'this')

    def __init__(self, node, tu, env, this):
        self.node, self.tu, self.env, self.this = node, tu, env, this


class FnRef:
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, FnRef) and o.node.get('id') == self.node.get('id')

    def __hash__(self):
        return hash(self.node.get('id'))


class MapIter:
    __slots__ = ('loc', 'key')

    def __init__(self, loc, key):
        self.loc, self.key = loc, key

    def __eq__(self, o):
        return isinstance(o, MapIter) and self.loc == o.loc and self.key == o.key

    def __hash__(self):
        return hash(self.key)


class Opq:
    __slots__ = ('k', 'd')

    def __init__(self, k, d=None):
        self.k, self.d = k, d

    def __eq__(self, o):
        return isinstance(o, Opq) and self.k == o.k and self.d == o.d

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'Opq(%s,%r)' % (self.k, self.d)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


def vec(items, et='?'):
    items = tuple(items)
    return Vec(const(len(items)), items, et)


# ---------------------------------------------------------------- merging
def merge_vals(c, a, b):
    if a is b:
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        return ite(c, a, b)
    if a == b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        f = {}
        for k in a.f:
            if k in b.f:
                f[k] = merge_vals(c, a.f[k], b.f[k])
            else:
                f[k] = a.f[k]
        for k in b.f:
            if k not in f:
                f[k] = b.f[k]
        return Struct(a.cls, f)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and a.base is not None \
            and (a.off is None) == (b.off is None):
        return Ptr(a.base, ite(c, a.off, b.off) if a.off is not None else None)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.n is b.n and isinstance(a.d, tuple) and isinstance(b.d, tuple):
            return Vec(a.n, tuple(merge_vals(c, x, y) for x, y in zip(a.d, b.d)), a.et)
        if a.n is b.n and isinstance(a.d, Joined) and isinstance(b.d, Joined):
            r = a.d.join(c, b.d)
            if r is not None:
                return Vec(a.n, r, a.et)
        a2, b2 = as_array(a), as_array(b)
        if a2 is not None and b2 is not None:
            return Vec(ite(c, a.n, b.n), ite(c, a2, b2), a.et)
    if isinstance(a, MapV) and isinstance(b, MapV) and a.gen == b.gen and a.lazy == b.lazy:
        e = {}
        for k in list(a.e) + [k for k in b.e if k not in a.e]:
            pa, va = a.e.get(k, (FALSE, UNDEF))
            pb, vb = b.e.get(k, (FALSE, UNDEF))
            e[k] = (ite(c, pa, pb), merge_vals(c, va, vb))
        return MapV(e, a.vt or b.vt, a.kt or b.kt, like=a)
    if isinstance(a, OptV) and isinstance(b, OptV):
        return OptV(ite(c, a.p, b.p), merge_vals(c, a.v, b.v) if a.v is not None and b.v is not None else (a.v if a.v is not None else b.v))
    if isinstance(a, AnyV) and isinstance(b, AnyV) and a.t == b.t:
        return AnyV(a.t, merge_vals(c, a.v, b.v))
    if isinstance(a, Joined) and isinstance(b, Joined):
        r = a.join(c, b)
        if r is not None:
            return r
    return Gate(c, a, b)


_emptyctr = itertools.count()


def as_array(v):
    """array-term content of a Vec of scalars (or None)"""
    if isinstance(v.d, Term):
        return v.d
    if isinstance(v.d, Gen):
        return None
    if isinstance(v.d, (Gen, Slots)):
        return None
    if not all(isinstance(x, Term) and x.sort in 'nb' for x in v.d):
        if v.d and all(x is UNDEF or isinstance(x, Term) for x in v.d):
            pass
        else:
            return None if v.d else afill(ZERO)
    a = afill(ZERO)
    for i, x in enumerate(v.d):
        if x is UNDEF:
            x = uf('undef%d' % next(_emptyctr), ())
        a = upd(a, [], const(i), tonum(x))
    return a


# ---------------------------------------------------------------- state
class St:
    __slots__ = ('store', 'pc', 'facts')

    def __init__(self, store=None, pc=(), facts=None):
        self.store = store if store is not None else {}
        self.pc = pc
        self.facts = facts if facts is not None else {}

    def copy(self):
        return St(dict(self.store), self.pc, self.facts)

    def assume(self, c):
        """in place"""
        if c is TRUE:
            return
        lits = c.args if c.op == 'and' else (c,)
        self.pc = self.pc + tuple(lits)
        f = dict(self.facts)
        for l in lits:
            f[l] = TRUE
            f[not_(l)] = FALSE
        self.facts = f

    def fork(self, c):
        s = self.copy()
        s.assume(c)
        return s

    def take(self, o):
        self.store, self.pc, self.facts = o.store, o.pc, o.facts

    def decide(self, c):
        """simplify a condition under the path condition"""
        if c.op == 'bconst':
            return c
        f = self.facts.get(c)
        if f is not None:
            return f
        if self.facts:
            c = simplify_under(c, self.facts)
        return c


def merge_states(c, s1, s2):
    """join of two states that were forked on c / not c (either may be None)"""
    if s1 is None:
        return s2
    if s2 is None:
        return s1
    n = 0
    for a, b in zip(s1.pc, s2.pc):
        if a is not b:
            break
        n += 1
    r1, r2 = s1.pc[n:], s2.pc[n:]
    pc = s1.pc[:n]
    out = St({}, (), {})
    for x in pc:
        out.assume(x)
    ra, rb = and_(*r1), and_(*r2)
    both = or_(ra, rb)
    if both is not TRUE and ra is not not_(rb):
        # keep only what is common knowledge (the disjunction)
        if len(r1) + len(r2) <= 40:
            out.assume(both)
    store = {}
    a, b = s1.store, s2.store
    for k, v in a.items():
        w = b.get(k, v)
        store[k] = v if v is w else merge_vals(c, v, w)
    for k, v in b.items():
        if k not in store:
            store[k] = v
    out.store = store
    return out


def rel_cond(base_pc, st):
    """conjunction of what st assumes beyond base_pc"""
    n = 0
    for a, b in zip(base_pc, st.pc):
        if a is not b:
            break
        n += 1
    return and_(*st.pc[n:])


def merge_many(base_pc, items):
    """items: list of (St, value). Gate each on its condition relative to the common prefix."""
    items = [x for x in items if x[0] is not None]
    if not items:
        return None, None
    st, val = items[-1]
    for s, v in reversed(items[:-1]):
        n = 0
        for a, b in zip(s.pc, st.pc):
            if a is not b:
                break
            n += 1
        # prefer the first differing literal when it is exactly complementary
        c = None
        if n < len(s.pc) and n < len(st.pc) and st.pc[n] is not_(s.pc[n]):
            c = s.pc[n]
        else:
            c = and_(*s.pc[n:])
        val = merge_vals(c, v, val) if (v is not None and val is not None) else (v if v is not None else val)
        st = merge_states(c, s, st)
    return st, val
