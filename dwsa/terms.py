"""Hash-consed value-graph terms with canonical (Laurent-polynomial) arithmetic.

Integers are mathematical integers, floating point values are reals.  Loops
appear as binders (sum/max/argmax/any/bulk array update) or as recurrence
nodes (fold / mu).  Terms are immutable and unique: equality is identity.
"""
from fractions import Fraction
from math import gcd
import itertools

_tab = {}
_ctr = itertools.count(1)


class Term:
    __slots__ = ('op', 'args', 'sort', 'isint', 'fv', 'lv', 'id', 'lb', '_w')

    def __repr__(self):
        return show(self)


EMPTY = frozenset()


def _fvs(ts):
    r = EMPTY
    for t in ts:
        if t.fv:
            r = r | t.fv if r else t.fv
    return r


def _mk(op, args, sort, isint=False, fv=EMPTY, lv=0, lb=None):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.isint, t.lv, t.lb = op, args, sort, isint, lv, lb
        t.id = next(_ctr)
        t.fv = frozenset((t,)) if fv is None else fv
        t._w = None
        _tab[key] = t
    return t


# ---------------------------------------------------------------- leaves
def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return fn('lit', (), str(v))
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return _mk('const', (v,), 'n', isinstance(v, int))


def var(name, isint=False, lb=None, sort='n'):
    return _mk('var', (name, isint), sort, isint, lb=lb)


def bvar(name):
    return _mk('var', (name, False), 'b')


def svar(name):
    return _mk('var', (name, False), 's')


def string(s):
    return _mk('str', (s,), 's')


def avar(name, length, isint=False):
    return _mk('avar', (name, length, isint), 'a', isint, length.fv, length.lv)


def tv(hint='k', sort='n', isint=True, length=None):
    """fresh temporary (binder / phi) variable"""
    return _mk('tv', (next(_ctr), hint), sort, isint, None)


def bv(level, slot, sort, isint):
    return _mk('bv', (level, slot, isint), sort, isint, None)


TRUE = _mk('bconst', (True,), 'b')
FALSE = _mk('bconst', (False,), 'b')
ZERO = const(0)
ONE = const(1)


def isconst(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
def monos(t):
    """dict monomial -> coef"""
    if t.op == 'const':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args}
    return {((t, 1),): 1}


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def from_monos(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda x: tuple((a.id, e) for a, e in x[0]))
    args = tuple((_norm(c), m) for m, c in items)
    isint = True
    atoms = []
    for c, m in args:
        if not isinstance(c, int):
            isint = False
        for a, e in m:
            atoms.append(a)
            if e < 0 or not a.isint:
                isint = False
    return _mk('poly', args, 'n', isint, _fvs(atoms), max([a.lv for a in atoms] + [0]))


def add(*ts):
    if len(ts) == 2:
        if ts[0] is ZERO:
            return ts[1]
        if ts[1] is ZERO:
            return ts[0]
    d = {}
    for t in ts:
        for m, c in monos(t).items():
            d[m] = d.get(m, 0) + c
    return from_monos(d)


def scale(t, c):
    if c == 1:
        return t
    return from_monos({m: v * c for m, v in monos(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].id))


MAXTERMS = 400


def mul(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = _mul2(r, t)
    return r


def _mul2(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    # push scalar products through ite for canonical form when one side is const
    ma, mb = monos(a), monos(b)
    if len(ma) * len(mb) > MAXTERMS:
        # keep the larger one atomic
        if len(ma) > 1:
            ma = {((a, 1),): 1}
        if len(mb) > 1 and len(ma) * len(mb) > MAXTERMS:
            mb = {((b, 1),): 1}
    d = {}
    for m1, c1 in ma.items():
        for m2, c2 in mb.items():
            m = _mulmono(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_monos(d)


def inv(t):
    """real reciprocal"""
    if t.op == 'const':
        if t.args[0] == 0:
            return fn('lit', (), 'inf')
        return const(Fraction(1) / t.args[0])
    if t.op == 'poly':
        if len(t.args) == 1:
            c, m = t.args[0]
            return from_monos({tuple((a, -e) for a, e in m): Fraction(1) / c})
        # factor the leading coefficient
        c0 = t.args[0][0]
        p = scale(t, Fraction(1) / c0)
        return from_monos({((p, -1),): Fraction(1) / c0})
    return from_monos({((t, -1),): 1})


def div(a, b):
    if b is ONE:
        return a
    return mul(a, inv(b))


def idiv(a, b):
    """C++ truncating division"""
    if isconst(a) and isconst(b) and cval(b) != 0:
        q = abs(cval(a)) // abs(cval(b))
        return const(q if (cval(a) >= 0) == (cval(b) >= 0) else -q)
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if a is b and nonneg(sub(a, ONE)):
        return ONE
    # exact monomial division: (sum c_i m_i) / (c m) when every quotient is integral
    if nonneg(a) and nonneg(sub(b, ONE)):
        mb = monos(b)
        if len(mb) == 1:
            (m, c), = mb.items()
            q = {}
            for ma, ca in monos(a).items():
                r = _mulmono(ma, tuple((x, -e) for x, e in m))
                if any(e < 0 for _, e in r) or ca % c != 0:
                    break
                q[r] = ca // c
            else:
                return from_monos(q)
    return _mk('idiv', (a, b), 'n', True, a.fv | b.fv, max(a.lv, b.lv))


def imod(a, b):
    if isconst(a) and isconst(b) and cval(b) != 0:
        q = abs(cval(a)) % abs(cval(b))
        return const(q if cval(a) >= 0 else -q)
    q = idiv(a, b)
    if q.op != 'idiv':
        return sub(a, mul(q, b))
    return _mk('imod', (a, b), 'n', True, a.fv | b.fv, max(a.lv, b.lv))


def trunc(a):
    if a.isint:
        return a
    if isconst(a):
        v = cval(a)
        q = abs(v.numerator) // v.denominator
        return const(q if v >= 0 else -q)
    if a.op == 'ite':
        return ite(a.args[0], trunc(a.args[1]), trunc(a.args[2]))
    return _mk('trunc', (a,), 'n', True, a.fv, a.lv)


def fn(name, args, extra=None):
    args = tuple(args)
    if name == 'exp' and args[0] is ZERO:
        return ONE
    if name == 'log' and args[0] is ONE:
        return ZERO
    if name == 'sqrt' and isconst(args[0]) and cval(args[0]) in (0, 1):
        return args[0]
    if name == 'abs' and isconst(args[0]):
        return const(abs(cval(args[0])))
    if name == 'abs' and nonneg(args[0]):
        return args[0]
    if name == 'pow':
        if isconst(args[1]):
            e = cval(args[1])
            if isinstance(e, int) and 0 <= e <= 8:
                r = ONE
                for _ in range(e):
                    r = mul(r, args[0])
                return r
            if isinstance(e, int) and -4 <= e < 0:
                return inv(fn('pow', (args[0], const(-e))))
            if e == Fraction(1, 2):
                return fn('sqrt', (args[0],))
        if args[0] is ONE:
            return ONE
    isint = name in ('abs', 'max', 'min') and all(a.isint for a in args)
    if name in ('max', 'min'):
        if args[0] is args[1]:
            return args[0]
        if all(isconst(a) for a in args):
            return const((max if name == 'max' else min)(cval(a) for a in args))
        d = sub(args[0], args[1])
        if nonneg(d):
            return args[0] if name == 'max' else args[1]
        if nonneg(neg(d)):
            return args[1] if name == 'max' else args[0]
        args = tuple(sorted(args, key=lambda t: t.id))
    if name == 'floor' and args[0].isint or name == 'ceil' and args[0].isint or name == 'round' and args[0].isint:
        return args[0]
    if name in ('floor', 'ceil', 'round'):
        isint = True
    return _mk('fn', (name, args, extra), 'n', isint, _fvs(args), max([a.lv for a in args] + [0]))


def uf(name, args, sort='n', isint=False):
    """uninterpreted function (deterministic in its arguments)"""
    args = tuple(args)
    return _mk('uf', (name, args, isint), sort, isint, _fvs(args), max([a.lv for a in args] + [0]))


# ---------------------------------------------------------------- sign reasoning
_nn = {}


def lbound(t):
    if t.op == 'const':
        return cval(t)
    if t.lb is not None:
        return t.lb
    if t.op in ('tv', 'bv') and t.sort == 'n' and t.isint:
        return _tvlb.get(t, None)
    if t.op == 'fn' and t.args[0] in ('exp', 'sqrt', 'abs'):
        return 0
    if t.op == 'fn' and t.args[0] == 'max':
        l = [lbound(a) for a in t.args[1]]
        l = [x for x in l if x is not None]
        return max(l) if l else None
    if t.op == 'idiv' and nonneg(t.args[0]) and nonneg(t.args[1]):
        return 0
    if t.op == 'imod' and nonneg(t.args[0]):
        return 0
    if t.op == 'ite':
        a, b = lbound(t.args[1]), lbound(t.args[2])
        if a is not None and b is not None:
            return min(a, b)
    if t.op == 'trunc' and nonneg(t.args[0]):
        return 0
    if t.op == 'max0':
        return 0
    return None


_tvlb = {}


def index_var(hint='k'):
    """fresh loop index: a non-negative integer"""
    t = tv(hint, 'n', True)
    _tvlb[t] = 0
    return t


def nonneg(p):
    r = _nn.get(p)
    if r is None:
        r = _nonneg(p)
        if not r and p.op == 'poly':
            for a in ASSUMED:
                if len(p.args) <= 12 and any(m in a_keys(a) for _, m in p.args if m) and _nonneg(sub(p, a)):
                    r = True
                    break
        _nn[p] = r
    return r


ASSUMED = []


def a_keys(a):
    return {m for _, m in a.args} if a.op == 'poly' else {((a, 1),)}


def assume_nonneg(*ts):
    """standing preconditions of an analysis: each term is >= 0"""
    ASSUMED[:] = list(ts)
    _nn.clear()
    _ge0m.clear()
    _notm.clear()


def _nonneg(p):
    if p.op == 'const':
        return cval(p) >= 0
    if p.sort != 'n':
        return False
    if p.op != 'poly':
        l = lbound(p)
        return l is not None and l >= 0
    # shift every atom by its lower bound and look for all-non-negative coefficients
    if len(p.args) > 40:
        return False
    d = {(): Fraction(0)}
    for c, m in p.args:
        cur = {(): c}
        for a, e in m:
            if e < 0:
                # a^-k with a>0 unknown; accept only nonneg atom
                l = lbound(a)
                if l is None or l < 0:
                    if e % 2:
                        return False
                cur = {_mulmono(k, ((a, e),)): v for k, v in cur.items()}
                continue
            l = lbound(a)
            if l is None:
                if e % 2:
                    return False
                cur = {_mulmono(k, ((a, e),)): v for k, v in cur.items()}
                continue
            for _ in range(e):
                n = {}
                for k, v in cur.items():
                    k2 = _mulmono(k, ((a, 1),))
                    n[k2] = n.get(k2, 0) + v
                    if l:
                        n[k] = n.get(k, 0) + v * l
                cur = n
        for k, v in cur.items():
            d[k] = d.get(k, 0) + v
    return all(v >= 0 for v in d.values())


# ---------------------------------------------------------------- booleans
_ge0m = {}
_notm = {}


def ge0(p):
    r = _ge0m.get(p)
    if r is None:
        r = _ge0m[p] = _ge0(p)
    return r


def _ge0(p):
    if isconst(p):
        return TRUE if cval(p) >= 0 else FALSE
    if nonneg(p):
        return TRUE
    if p.isint:
        if nonneg(sub(neg(p), ONE)):
            return FALSE
        m = monos(p)
        g = 0
        for k, c in m.items():
            if k != ():
                g = gcd(g, abs(c))
        if g > 1:
            d = {k: c // g for k, c in m.items()}  # floor division is exact for non-const, floors const
            p = from_monos(d)
    else:
        p = _normscale(p, False)
    if p.op == 'ite':
        return ite(p.args[0], ge0(p.args[1]), ge0(p.args[2]))
    return _mk('ge0', (p,), 'b', False, p.fv, p.lv)


def _normscale(p, sign):
    m = monos(p)
    items = sorted(m.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))
    c = None
    for k, v in items:
        if k != ():
            c = v
            break
    if c is None:
        return p
    s = Fraction(1) / abs(c) if not sign else Fraction(1) / c
    return scale(p, s)


def gt0(p):
    if p.isint:
        return ge0(sub(p, ONE))
    if isconst(p):
        return TRUE if cval(p) > 0 else FALSE
    if p.op == 'ite':
        return ite(p.args[0], gt0(p.args[1]), gt0(p.args[2]))
    p = _normscale(p, False)
    return _mk('gt0', (p,), 'b', False, p.fv, p.lv)


def eq0(p):
    if isconst(p):
        return TRUE if cval(p) == 0 else FALSE
    if p.isint:
        if nonneg(sub(p, ONE)) or nonneg(sub(neg(p), ONE)):
            return FALSE
    p = _normscale(p, True)
    if p.op == 'ite' and (isconst(p.args[1]) or isconst(p.args[2])):
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    return _mk('eq0', (p,), 'b', False, p.fv, p.lv)


def ge(a, b): return ge0(sub(a, b))
def gt(a, b): return gt0(sub(a, b))
def le(a, b): return ge0(sub(b, a))
def lt(a, b): return gt0(sub(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 's' or b.sort == 's':
        if a.op == 'str' and b.op == 'str':
            return FALSE
        x, y = sorted((a, b), key=lambda t: t.id)
        return _mk('seq', (x, y), 'b', False, x.fv | y.fv, max(x.lv, y.lv))
    if a.sort == 'b' or b.sort == 'b':
        a, b = tobool(a), tobool(b)
        if a.op == 'bconst':
            return b if a is TRUE else not_(b)
        if b.op == 'bconst':
            return a if b is TRUE else not_(a)
        return ite(a, b, not_(b))
    return eq0(sub(a, b))


def ne(a, b): return not_(eq(a, b))


def not_(c):
    r = _notm.get(c)
    if r is None:
        r = _notm[c] = _not(c)
        _notm.setdefault(r, c)
    return r


def _not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ge0':
        return gt0(neg(c.args[0]))
    if c.op == 'gt0':
        return ge0(neg(c.args[0]))
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args])
    return _mk('not', (c,), 'b', False, c.fv, c.lv)


def and_(*cs):
    s = []
    seen = set()
    for c in cs:
        for x in (c.args if c.op == 'and' else (c,)):
            if x is FALSE:
                return FALSE
            if x is TRUE or x in seen:
                continue
            seen.add(x)
            s.append(x)
    for x in s:
        if not_(x) in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    # absorption: x and (x or y) = x
    s2 = [x for x in s if not (x.op == 'or' and any(y in seen for y in x.args))]
    s = sorted(s2, key=lambda t: t.id)
    if len(s) == 1:
        return s[0]
    return _mk('and', tuple(s), 'b', False, _fvs(s), max(x.lv for x in s))


def or_(*cs):
    s = []
    seen = set()
    for c in cs:
        for x in (c.args if c.op == 'or' else (c,)):
            if x is TRUE:
                return TRUE
            if x is FALSE or x in seen:
                continue
            seen.add(x)
            s.append(x)
    for x in s:
        if _rawnot(x) in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s2 = [x for x in s if not (x.op == 'and' and any(y in seen for y in x.args))]
    # (x and r) or (not x and r) = r   (common after state merges)
    if len(s2) == 2:
        a = set(s2[0].args) if s2[0].op == 'and' else {s2[0]}
        b = set(s2[1].args) if s2[1].op == 'and' else {s2[1]}
        da, db = a - b, b - a
        if len(da) == 1 and len(db) == 1 and _rawnot(next(iter(da))) is next(iter(db)):
            return and_(*(a & b))
        # x or (not x and r) = x or r
        if len(a) == 1 and _rawnot(next(iter(a))) in b:
            return or_(s2[0], and_(*(b - {_rawnot(next(iter(a)))})))
        if len(b) == 1 and _rawnot(next(iter(b))) in a:
            return or_(s2[1], and_(*(a - {_rawnot(next(iter(b)))})))
    s = sorted(s2, key=lambda t: t.id)
    if len(s) == 1:
        return s[0]
    return _mk('or', tuple(s), 'b', False, _fvs(s), max(x.lv for x in s))


def _rawnot(c):
    if c.op in ('and', 'or'):
        # avoid deep rebuild loops
        return _mk('not', (c,), 'b', False, c.fv, c.lv)
    return not_(c)


def tobool(t):
    if t.sort == 'b':
        return t
    return not_(eq0(t))


def tonum(t):
    if t.sort == 'b':
        return ite(t, ONE, ZERO)
    return t


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 'b' and b.sort == 'b':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is FALSE:
            return and_(c, a)
        if b is TRUE:
            return or_(not_(c), a)
    elif a.sort != b.sort:
        if a.sort in 'nb' and b.sort in 'nb':
            a, b = tonum(a), tonum(b)
        else:
            return uf('badmerge', (c, a, b) if a.sort != 'a' and b.sort != 'a' else (c,))
    # canonical orientation: prefer the smaller-id polarity of an ordering test
    nc = not_(c)
    if nc.id < c.id and nc.op in ('ge0', 'gt0', 'eq0'):
        c, a, b = nc, b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.sort == 'a':
        m = _merge_arrays(c, a, b)
        if m is not None:
            return m
    if c.op == 'eq0' and a.sort == 'n':
        # x==y ? x : y  -> y   handled by poly equality only in trivial shapes
        p = c.args[0]
        if sub(a, b) is p or sub(b, a) is p:
            return b
    return _mk('ite', (c, a, b), a.sort, a.isint and b.isint, c.fv | a.fv | b.fv, max(c.lv, a.lv, b.lv))


# ---------------------------------------------------------------- arrays
def afill(v):
    return _mk('afill', (v,), 'a', v.isint, v.fv, v.lv)


def _chain(a):
    """list of update nodes from newest to oldest, plus the base"""
    out = []
    while a.op == 'upd':
        out.append(a)
        a = a.args[0]
    return out, a


def _merge_arrays(c, a, b):
    """ite(c, U1..(B), U2..(B)) -> conditional writes on the common base"""
    ca, ba = _chain(a)
    cb, bb = _chain(b)
    anc = {x: i for i, x in enumerate(ca + [ba])}
    common = None
    for j, y in enumerate(cb + [bb]):
        if y in anc:
            common = y
            break
    if common is None:
        return None
    ua = ca[:anc[common]]
    ub = cb[:j]
    nc = not_(c)
    # fuse pairwise identical update shapes
    r = common
    if len(ua) == 1 and len(ub) == 1:
        x, y = ua[0], ub[0]
        if x.args[1] == y.args[1] and x.args[2] is y.args[2] and x.args[5] == y.args[5]:
            f1, f2 = _open(x), None
            ks, (ns, off, val, cond) = f1
            f2 = _open(y, ks)[1]
            return upd(common, list(zip(ks, ns)), off, ite(c, val, f2[2]),
                       or_(and_(c, cond), and_(nc, f2[3])), x.args[5])
    # sequential guarded writes are only valid when values do not read the other branch: they read
    # terms, not the running array, so guarding is always sound.
    for u in reversed(ua):
        ks, (ns, off, val, cond) = _open(u)
        r = upd(r, list(zip(ks, ns)), off, val, and_(c, cond), u.args[5])
    for u in reversed(ub):
        ks, (ns, off, val, cond) = _open(u)
        r = upd(r, list(zip(ks, ns)), off, val, and_(nc, cond), u.args[5])
    return r


def _open(u, ks=None):
    """open the binders of an update: returns (ks, (ns, off, val, cond))"""
    base, ns, off, val, cond, mode, lev = u.args
    if not ns:
        return (ks if ks is not None else []), (ns, off, val, cond)
    if ks is None:
        ks = [index_var('u') for _ in ns]
    m = {bv(lev, i, 'n', True): k for i, k in enumerate(ks)}
    ns = tuple(subst(n, m) for n in ns)
    for k, n in zip(ks, ns):
        RANGES.setdefault(k, n)
    return ks, (ns, subst(off, m), subst(val, m), subst(cond, m))


def upd(base, binders, off, val, cond=TRUE, mode='set'):
    """for binders: if cond: base[off] (=|+=) val   -- val/cond never read the running array"""
    if cond is FALSE:
        return base
    if mode == 'add' and val is ZERO:
        return base
    # drop trivial binders (n==1) and detect empty ones
    ks, ns = [], []
    m = {}
    for k, n in binders:
        if m:
            n = subst(n, m)
        if n is ZERO:
            return base
        if n is ONE:
            m[k] = ZERO
        else:
            ks.append(k)
            ns.append(n)
    if m:
        off, val, cond = subst(off, m), subst(val, m), subst(cond, m)
    if mode == 'set' and not ks:
        # x[o] = x[o] + v  -> add mode ; x[o] = x[o] -> no-op
        s = sel(base, off)
        if val is s:
            return base
        d = monos(val) if val.sort == 'n' else None
        if d is not None and s.op == 'sel' and d.get(((s, 1),)) == 1:
            rest = sub(val, s)
            if not _contains(rest, s):
                return upd(base, [], off, rest, cond, 'add')
        # overwrite of an identical previous location
        if base.op == 'upd' and not base.args[1] and base.args[2] is off and cond is TRUE and base.args[4] is TRUE:
            return upd(base.args[0], [], off, val, cond, mode)
    if mode == 'add' and not ks and base.op == 'upd' and not base.args[1] and base.args[2] is off \
            and cond is TRUE and base.args[4] is TRUE:
        return upd(base.args[0], [], off, add(base.args[3], val), TRUE, base.args[5])
    # fold the condition's value gating: keep as is
    lev = 0
    if ks:
        lev = 1 + max([off.lv, val.lv, cond.lv] + [n.lv for n in ns])
        mm = {k: bv(lev, i, 'n', True) for i, k in enumerate(ks)}
        ns = [subst(n, mm) for n in ns]
        off, val, cond = subst(off, mm), subst(val, mm), subst(cond, mm)
    bset = frozenset(bv(lev, i, 'n', True) for i in range(len(ks)))
    fv = (_fvs([off, val, cond] + list(ns)) - bset) | base.fv
    return _mk('upd', (base, tuple(ns), off, val, cond, mode, lev), 'a', base.isint and val.isint,
               fv, max(lev, base.lv, off.lv, val.lv, cond.lv))


def _contains(t, x):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        st.extend(children(y))
    return False


def contains(t, x):
    return _contains(t, x)


def contains_any(t, xs):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in xs:
            return True
        if y.id in seen:
            continue
        seen.add(y.id)
        st.extend(children(y))
    return False


def disjoint(o1, o2):
    d = sub(o1, o2)
    if isconst(d):
        return cval(d) != 0
    if d.isint and (nonneg(sub(d, ONE)) or nonneg(sub(neg(d), ONE))):
        return True
    return False


def sel(arr, off):
    acc = []
    a = arr
    while True:
        if a.op == 'afill':
            r = a.args[0]
            return add(r, *acc) if acc else r
        if a.op == 'upd':
            base, ns, o, v, c, mode, lev = a.args
            if not ns:
                if o is off:
                    if c is TRUE:
                        if mode == 'set':
                            return add(v, *acc) if acc else v
                        acc.append(v)
                        a = base
                        continue
                    if c is not TRUE and mode == 'set':
                        r = ite(c, v, sel(base, off))
                        return add(r, *acc) if acc else r
                    if mode == 'add':
                        acc.append(ite(c, v, ZERO))
                        a = base
                        continue
                elif disjoint(o, off):
                    a = base
                    continue
            else:
                r = _sel_bulk(a, off)
                if r is not None:
                    hit, val = r
                    if hit is TRUE and mode == 'set':
                        return add(val, *acc) if acc else val
                    if mode == 'set':
                        q = ite(hit, val, sel(base, off))
                        return add(q, *acc) if acc else q
                    acc.append(ite(hit, val, ZERO))
                    a = base
                    continue
            break
        if a.op == 'ite':
            break
        break
    if a.op == 'ite':
        r = ite(a.args[0], sel(a.args[1], off), sel(a.args[2], off))
    else:
        r = _mk('sel', (a, off), 'n', a.isint, a.fv | off.fv, max(a.lv, off.lv))
    return add(r, *acc) if acc else r


RANGES = {}          # index tv -> trip count (for range reasoning)


def in_range(t, lo, hi):
    """prove lo <= t < hi using trip counts of index variables"""
    return nonneg(sub(lower(t), lo)) and nonneg(sub(sub(hi, ONE), upper(t)))


def upper(t, depth=0):
    """replace index variables by their maximum in a monotone way (best effort)"""
    for _ in range(8):
        ks = [k for k in t.fv if k in RANGES]
        if not ks:
            return t
        k = max(ks, key=lambda x: x.id)
        co = coeff(t, k)
        if co is None:
            return t
        a, b = co
        if nonneg(a):
            t = add(b, mul(a, sub(RANGES[k], ONE)))
        elif nonneg(neg(a)):
            t = b
        else:
            return t
    return t


def lower(t):
    return neg(upper(neg(t)))


def coeff(t, k):
    """t = a*k + b with a,b free of k, or None"""
    if k not in t.fv:
        return ZERO, t
    a, b = {}, {}
    for m, c in monos(t).items():
        e = [x for x in m if x[0] is k]
        if not e:
            if any(k in x[0].fv for x in m):
                return None
            b[m] = c
        else:
            if e[0][1] != 1:
                return None
            r = tuple(x for x in m if x[0] is not k)
            if any(k in x[0].fv for x in r):
                return None
            a[r] = a.get(r, 0) + c
    return from_monos(a), from_monos(b)


def _sel_bulk(u, off):
    """try to invert  off(ks) == off  for a bulk update; returns (hit condition, value) or None"""
    base, ns, o, v, c, mode, lev = u.args
    if len(ns) > 6:
        return None
    bvs = [bv(lev, i, 'n', True) for i in range(len(ns))]
    ks = [index_var('u') for _ in ns]
    om = dict(zip(bvs, ks))
    ns = tuple(subst(n, om) for n in ns)
    for k, n in zip(ks, ns):
        RANGES.setdefault(k, n)
    o = subst(o, om)
    strides = []
    rest = o
    for k in ks:
        cf = coeff(rest, k)
        if cf is None:
            return None
        strides.append(cf[0])
        rest = cf[1]
    if any(set(ks) & s.fv for s in strides):
        return None
    if any(set(ks) & n.fv for n in ns):
        return None
    # order by stride: need a mixed radix chain  s_i == s_{i+1} * n_{i+1}, last stride 1 (or any single)
    order = _radix_order(ks, ns, strides)
    if order is None:
        return None
    x = sub(off, rest)
    m = {}
    hits = []
    # direct matching first: coefficients of off may contain matching index structure
    rem = x
    for idx, (k, n, s) in enumerate(order):
        if idx == len(order) - 1:
            q = rem if s is ONE else None
            if q is None:
                if s.op == 'const' and cval(s) == 1:
                    q = rem
                else:
                    qd = _exact_div(rem, s)
                    if qd is None:
                        return None
                    q = qd
        else:
            q = _radix_digit(rem, s)
            if q is None:
                return None
        m[k] = q
        rem = sub(rem, mul(q, s))
    if rem is not ZERO:
        return None
    for (k, n, s) in order:
        hits.append(ge0(m[k]) if not in_lo(m[k]) else TRUE)
        hits.append(TRUE if nonneg(sub(sub(n, ONE), upper(m[k]))) else gt(n, m[k]))
    m = {b: m[k] for b, k in zip(bvs, ks)}
    hit = and_(*hits, subst(c, m))
    return hit, subst(v, m)


def in_lo(t):
    return nonneg(t) or nonneg(lower(t))


def _exact_div(p, s):
    ms = monos(s)
    if len(ms) != 1:
        return None
    (m, c), = ms.items()
    q = {}
    for ma, ca in monos(p).items():
        r = _mulmono(ma, tuple((x, -e) for x, e in m))
        if any(e < 0 for _, e in r):
            return None
        f = Fraction(ca) / c
        if f.denominator != 1:
            return None
        q[r] = int(f)
    return from_monos(q)


def _radix_digit(p, s):
    """leading digit q and remainder r with p = q*s + r, 0<=r<s provable; returns q"""
    ms = monos(s)
    if len(ms) != 1:
        return None
    (m, c), = ms.items()
    q, r = {}, {}
    for ma, ca in monos(p).items():
        d = _mulmono(ma, tuple((x, -e) for x, e in m))
        if any(e < 0 for _, e in d) or ca % c:
            r[ma] = ca
        else:
            q[d] = ca // c
    rt = from_monos(r)
    if in_range(rt, ZERO, s):
        return from_monos(q)
    return None


def _radix_order(ks, ns, strides):
    items = list(zip(ks, ns, strides))
    # find permutation greedily: start from stride-minimal item
    left = items[:]
    chain = []
    # smallest: one whose stride is 1 or that every other is divisible into chain
    cur = None
    cand = [it for it in left if it[2] is ONE]
    if not cand:
        if len(left) == 1:
            return left
        return None
    cur = cand[0]
    left.remove(cur)
    chain.append(cur)
    while left:
        want = mul(cur[2], cur[1])
        nx = [it for it in left if it[2] is want]
        if not nx:
            nx = [it for it in left if nonneg(sub(it[2], want))]
            if len(nx) != 1 and len(left) > 1:
                return None
            if not nx:
                return None
        cur = nx[0]
        left.remove(cur)
        chain.append(cur)
    chain.reverse()
    return chain


# ---------------------------------------------------------------- binders
def _close(k, parts):
    lev = 1 + max([p.lv for p in parts])
    b = bv(lev, 0, k.sort, k.isint)
    return lev, b, [subst(p, {k: b}) for p in parts]


def _bind(op, k, n, body, sort, isint):
    lev, b, (body2,) = _close(k, [body])
    fv = (body2.fv - {b}) | n.fv
    return _mk(op, (n, body2, lev), sort, isint, fv, max(lev, n.lv))


def open_binder(t, k=None):
    n, body, lev = t.args
    k = k or index_var('o')
    return k, n, subst(body, {bv(lev, 0, 'n', True): k})


def max0(n):
    if nonneg(n):
        return n
    if isconst(n):
        return ZERO if cval(n) < 0 else n
    return fn('max', (n, ZERO))


def sum_(k, n, body):
    if body is ZERO or n is ZERO:
        return ZERO
    if isconst(n) and cval(n) <= 4:
        return add(ZERO, *[subst(body, {k: const(i)}) for i in range(max(0, cval(n)))])
    out = {}
    res = []
    for m, c in monos(body).items():
        ins, outs = [], []
        for a, e in m:
            (ins if k in a.fv else outs).append((a, e))
        inner = from_monos({tuple(ins): 1})
        outer = from_monos({tuple(outs): c})
        if not ins:
            res.append(mul(outer, n))
            continue
        if inner is k:
            res.append(mul(outer, const(Fraction(1, 2)), n, sub(n, ONE)))
            continue
        if len(ins) == 1 and ins[0][1] == 1 and ins[0][0].op == 'ite':
            cnd, x, y = ins[0][0].args
            if y is ZERO or x is ZERO:
                pt = _point(cnd if y is ZERO else not_(cnd), k)
                if pt is not None:
                    p, rest = pt
                    w = x if y is ZERO else y
                    if p.isint:
                        mm = {k: p}
                        g = and_(TRUE if in_lo(p) else ge0(p),
                                 TRUE if nonneg(sub(sub(n, ONE), upper(p))) else gt(n, p), subst(rest, mm))
                        res.append(mul(outer, ite(g, subst(w, mm), ZERO)))
                        continue
            if k not in cnd.fv:
                res.append(mul(outer, ite(cnd, sum_(k, n, x), sum_(k, n, y))))
                continue
        RANGES.setdefault(k, n)
        res.append(mul(outer, _bind('sum', k, n, inner, 'n', inner.isint)))
    return add(ZERO, *res)


def _point(c, k):
    """c == (k == p) and rest"""
    cs = c.args if c.op == 'and' else (c,)
    for x in cs:
        if x.op == 'eq0':
            cf = coeff(x.args[0], k)
            if cf and isconst(cf[0]) and abs(cval(cf[0])) == 1:
                p = scale(cf[1], -1 / Fraction(cval(cf[0])))
                return p, and_(*[y for y in cs if y is not x])
    return None


def prod_(k, n, body):
    if isconst(n) and cval(n) <= 8:
        return mul(ONE, *[subst(body, {k: const(i)}) for i in range(max(0, cval(n)))])
    return _bind('prod', k, n, body, 'n', body.isint)


def maxr(k, n, body, which='maxr'):
    if isconst(n) and cval(n) == 1:
        return subst(body, {k: ZERO})
    return _bind(which, k, n, body, 'n', body.isint)


def argmax(k, n, body, which='argmax'):
    return _bind(which, k, n, body, 'n', True)


def any_(k, n, body):
    if body is FALSE or n is ZERO:
        return FALSE
    if k not in body.fv:
        return and_(gt0(n), body)
    if isconst(n) and cval(n) <= 8:
        return or_(*[subst(body, {k: const(i)}) for i in range(cval(n))])
    return _bind('any', k, n, body, 'b', False)


def first(k, n, body):
    """least k<n with body, else n"""
    return _bind('first', k, n, body, 'n', True)


def fold(k, n, vars_, inits, bodies, cond=None):
    """n iterations (or while cond if n is None) of vars := bodies(k, vars)"""
    parts = list(bodies) + ([cond] if cond is not None else [])
    lev = 1 + max([p.lv for p in parts])
    m = {k: bv(lev, 0, 'n', True)}
    for i, v in enumerate(vars_):
        m[v] = bv(lev, i + 1, v.sort, v.isint)
    parts = [subst(p, m) for p in parts]
    bs = frozenset(m.values())
    fv = _fvs(parts) - bs
    fv |= _fvs(inits)
    if n is not None:
        fv |= n.fv
    args = (n, tuple(inits), tuple(parts[:len(bodies)]), parts[-1] if cond is not None else None, lev,
            tuple(m[v] for v in vars_))
    return _mk('fold', args, 'x', False, fv,
               max([lev] + [i.lv for i in inits] + ([n.lv] if n is not None else [])))


def proj(f, i):
    init = f.args[1][i]
    if f.args[0] is ZERO:
        return init
    b = f.args[2][i]
    return _mk('proj', (f, i), init.sort, init.isint and b.isint, f.fv, f.lv)


# ---------------------------------------------------------------- traversal / substitution
def children(t):
    op = t.op
    if op in ('const', 'var', 'bv', 'tv', 'bconst', 'str'):
        return ()
    if op == 'poly':
        return [a for c, m in t.args for a, e in m]
    if op == 'avar':
        return (t.args[1],)
    if op in ('fn', 'uf'):
        return t.args[1]
    if op == 'upd':
        b, ns, o, v, c, mode, lev = t.args
        return (b, o, v, c) + ns
    if op in ('sum', 'prod', 'maxr', 'minr', 'argmax', 'argmin', 'any', 'first'):
        return t.args[:2]
    if op == 'fold':
        n, inits, bodies, cond, lev = t.args[:5]
        return inits + bodies + ((n,) if n is not None else ()) + ((cond,) if cond is not None else ())
    if op == 'proj':
        return (t.args[0],)
    return [a for a in t.args if isinstance(a, Term)]


def subst(t, m, memo=None):
    """capture-free substitution of tv/bv leaves"""
    if not m or not t.fv:
        return t
    if memo is None:
        memo = {}
        m = {k: v for k, v in m.items() if k is not v}
        if not m:
            return t
    memo[None] = _fvs(m.values())
    return _subst(t, m, frozenset(m), memo)


_opened = {}


def _copen(t, memo):
    """opening with remembered fresh variables (unless they could be captured)"""
    r = _opened.get(t)
    if r is None:
        if t.op == 'upd':
            r = _open(t)
            r = (tuple(r[0]), r[1])
        else:
            r = open_binder(t)
            r = ((r[0],), r[1:])
        _opened[t] = r
    mf = memo[None]
    if mf and any(k in mf for k in r[0]):
        if t.op == 'upd':
            return _open(t)
        r = open_binder(t)
        return (r[0],), r[1:]
    return r


def _subst(t, m, keys, memo):
    if t.fv.isdisjoint(keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    S = lambda x: _subst(x, m, keys, memo)
    if op in ('tv', 'bv'):
        r = m.get(t, t)
    elif op == 'poly':
        parts = []
        for c, mm in t.args:
            p = const(c)
            for a, e in mm:
                x = S(a)
                if e > 0:
                    for _ in range(e):
                        p = mul(p, x)
                else:
                    ix = inv(x)
                    for _ in range(-e):
                        p = mul(p, ix)
            parts.append(p)
        r = add(ZERO, *parts)
    elif op == 'avar':
        r = avar(t.args[0], S(t.args[1]), t.args[2])
    elif op == 'fn':
        r = fn(t.args[0], [S(a) for a in t.args[1]], t.args[2])
    elif op == 'uf':
        r = uf(t.args[0], [S(a) for a in t.args[1]], t.sort, t.args[2])
    elif op == 'upd':
        b = S(t.args[0])
        if t.fv.isdisjoint(keys) or _fvs(t.args[2:5] + t.args[1]).isdisjoint(keys):
            # only the base changes
            r = _mk('upd', (b,) + t.args[1:], 'a', b.isint and t.args[3].isint,
                    (t.fv - t.args[0].fv) | b.fv | (_fvs(t.args[2:5] + t.args[1]) & t.fv), max(t.lv, b.lv)) if t.args[1] else \
                upd(b, [], t.args[2], t.args[3], t.args[4], t.args[5])
        else:
            ks, (ns, o, v, c) = _copen(t, memo)
            r = upd(b, [(k, _subst(n, m, keys, memo)) for k, n in zip(ks, ns)],
                    _subst(o, m, keys, memo), _subst(v, m, keys, memo), _subst(c, m, keys, memo), t.args[5])
    elif op in ('sum', 'prod', 'maxr', 'minr', 'argmax', 'argmin', 'any', 'first'):
        (k,), (n, body) = _copen(t, memo)
        n2 = S(n)
        RANGES.setdefault(k, n2)
        body2 = _subst(body, m, keys, memo)
        r = rebind(op, k, n2, body2)
    elif op == 'fold':
        n, inits, bodies, cond, lev, slots = t.args
        k = index_var('f')
        om = {bv(lev, 0, 'n', True): k}
        vs = []
        for x in slots:
            v = tv('s', x.sort, x.isint)
            om[x] = v
            vs.append(v)
        b2 = [_subst(subst(b, om), m, keys, memo) for b in bodies]
        c2 = _subst(subst(cond, om), m, keys, memo) if cond is not None else None
        r = fold(k, S(n) if n is not None else None, vs, [S(a) for a in inits], b2, c2)
    elif op == 'proj':
        r = proj(S(t.args[0]), t.args[1])
    elif op == 'ite':
        r = ite(S(t.args[0]), S(t.args[1]), S(t.args[2]))
    elif op == 'sel':
        r = sel(S(t.args[0]), S(t.args[1]))
    elif op == 'afill':
        r = afill(S(t.args[0]))
    elif op == 'idiv':
        r = idiv(S(t.args[0]), S(t.args[1]))
    elif op == 'imod':
        r = imod(S(t.args[0]), S(t.args[1]))
    elif op == 'trunc':
        r = trunc(S(t.args[0]))
    elif op == 'ge0':
        r = ge0(S(t.args[0]))
    elif op == 'gt0':
        r = gt0(S(t.args[0]))
    elif op == 'eq0':
        r = eq0(S(t.args[0]))
    elif op == 'seq':
        r = eq(S(t.args[0]), S(t.args[1]))
    elif op == 'not':
        r = not_(S(t.args[0]))
    elif op == 'and':
        r = and_(*[S(a) for a in t.args])
    elif op == 'or':
        r = or_(*[S(a) for a in t.args])
    else:
        raise Exception('subst: ' + op)
    memo[t] = r
    return r


def rebind(op, k, n, body):
    if op == 'sum':
        return sum_(k, n, body)
    if op == 'prod':
        return prod_(k, n, body)
    if op in ('maxr', 'minr'):
        return maxr(k, n, body, op)
    if op in ('argmax', 'argmin'):
        return argmax(k, n, body, op)
    if op == 'any':
        return any_(k, n, body)
    if op == 'first':
        return first(k, n, body)
    raise Exception(op)


def simplify_under(t, facts):
    """replace literals known true/false (facts: dict term->TRUE/FALSE) at boolean positions"""
    if not facts:
        return t
    memo = {}

    def go(x):
        if x.sort == 'b':
            f = facts.get(x)
            if f is not None:
                return f
        if x in memo:
            return memo[x]
        op = x.op
        if op == 'ite':
            c = go(x.args[0])
            if c is TRUE:
                r = go(x.args[1])
            elif c is FALSE:
                r = go(x.args[2])
            else:
                r = ite(c, go(x.args[1]), go(x.args[2]))
        elif op == 'and':
            r = and_(*[go(a) for a in x.args])
        elif op == 'or':
            r = or_(*[go(a) for a in x.args])
        elif op == 'not':
            r = not_(go(x.args[0]))
        elif op == 'poly' and any(a.op == 'ite' for c, m in x.args for a, e in m):
            ps = []
            for c, m in x.args:
                p = const(c)
                for a, e in m:
                    y = go(a)
                    for _ in range(abs(e)):
                        p = mul(p, y if e > 0 else inv(y))
                ps.append(p)
            r = add(ZERO, *ps)
        else:
            r = x
        memo[x] = r
        return r
    return go(t)


def show(t, depth=0):
    op = t.op
    if depth > 12:
        return '…'
    s = lambda x: show(x, depth + 1)
    if op == 'const':
        return str(t.args[0]) if isinstance(t.args[0], int) else '%.6g' % float(t.args[0])
    if op == 'bconst':
        return str(t.args[0])
    if op == 'str':
        return repr(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'avar':
        return t.args[0]
    if op == 'tv':
        return '%s%d' % (t.args[1], t.args[0])
    if op == 'bv':
        return '#%d.%d' % (t.args[0], t.args[1])
    if op == 'poly':
        out = []
        for c, m in t.args:
            f = []
            if c != 1 or not m:
                f.append(str(c) if isinstance(c, int) else '%.6g' % float(c))
            for a, e in m:
                x = s(a)
                if a.op in ('poly',):
                    x = '(' + x + ')'
                f.append(x if e == 1 else '%s^%d' % (x, e))
            out.append('*'.join(f))
        return ' + '.join(out)
    if op == 'fn':
        return '%s(%s)' % (t.args[0] if t.args[2] is None else t.args[2], ', '.join(map(s, t.args[1])))
    if op == 'uf':
        return '%s<%s>' % (t.args[0], ', '.join(map(s, t.args[1])))
    if op == 'ge0':
        return '(%s >= 0)' % s(t.args[0])
    if op == 'gt0':
        return '(%s > 0)' % s(t.args[0])
    if op == 'eq0':
        return '(%s == 0)' % s(t.args[0])
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(map(s, t.args))
    if op == 'sel':
        return '%s[%s]' % (s(t.args[0]), s(t.args[1]))
    if op == 'upd':
        b, ns, o, v, c, mode, lev = t.args
        return '%s{%s%s[%s] %s %s%s}' % (s(b), 'for#%d<' % lev + ','.join(map(s, ns)) + ': ' if ns else '', '',
                                        s(o), '=' if mode == 'set' else '+=', s(v), '' if c is TRUE else ' if ' + s(c))
    if op in ('sum', 'prod', 'maxr', 'minr', 'argmax', 'argmin', 'any', 'first'):
        return '%s#%d<%s(%s)' % (op, t.args[2], s(t.args[0]), s(t.args[1]))
    if op == 'fold':
        n, inits, bodies, cond, lev = t.args[:5]
        return 'fold#%d<%s[%s; %s]%s' % (lev, s(n) if n is not None else '?', ', '.join(map(s, inits)),
                                         ', '.join(map(s, bodies)), '' if cond is None else ' while ' + s(cond))
    if op == 'proj':
        return '%s.%d' % (s(t.args[0]), t.args[1])
    return '%s(%s)' % (op, ', '.join(s(a) if isinstance(a, Term) else str(a) for a in t.args))
