"""Copies of terms, values and stores with every input symbol renamed: the state an earlier, unrelated call left behind."""
import terms as T
from terms import *
from terms import _copen, _mk
from values import *

SFX = '~w'
_NOFV = {None: frozenset()}


def rename(t, memo):
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    S = lambda x: rename(x, memo)
    if op in ('tv', 'bv', 'const', 'bconst', 'str'):
        return t
    if op == 'var':
        r = _mk('var', (t.args[0] + SFX, t.args[1]), t.sort, t.isint, lb=t.lb)
    elif op == 'avar':
        r = avar(t.args[0] + SFX, S(t.args[1]), t.args[2])
    elif op == 'poly':
        parts = []
        for c, mm in t.args:
            p = const(c)
            for a, e in mm:
                x = S(a)
                y = x if e > 0 else inv(x)
                for _ in range(abs(e)):
                    p = mul(p, y)
            parts.append(p)
        r = add(ZERO, *parts)
    elif op == 'fn':
        r = fn(t.args[0], [S(a) for a in t.args[1]], t.args[2])
    elif op == 'uf':
        r = uf(t.args[0], [S(a) for a in t.args[1]], t.sort, t.args[2])
    elif op == 'upd':
        ks, (ns, o, v, c) = _copen(t, _NOFV)
        r = upd(S(t.args[0]), [(k, S(n)) for k, n in zip(ks, ns)], S(o), S(v), S(c), t.args[5])
    elif op in ('sum', 'prod', 'maxr', 'minr', 'argmax', 'argmin', 'any', 'first'):
        (k,), (n, body) = _copen(t, _NOFV)
        n2 = S(n)
        T.RANGES.setdefault(k, n2)
        r = T.rebind(op, k, n2, S(body))
    elif op == 'fold':
        n, inits, bodies, cond, lev, slots = t.args
        k = index_var('f')
        om = {bv(lev, 0, 'n', True): k}
        vs = []
        for x in slots:
            v = tv('s', x.sort, x.isint)
            om[x] = v
            vs.append(v)
        r = fold(k, S(n) if n is not None else None, vs, [S(a) for a in inits], [S(subst(b, om)) for b in bodies],
                 S(subst(cond, om)) if cond is not None else None)
    elif op == 'proj':
        r = proj(S(t.args[0]), t.args[1])
    elif op == 'ite':
        r = ite(S(t.args[0]), S(t.args[1]), S(t.args[2]))
    elif op in ('sel', 'idiv', 'imod'):
        r = getattr(T, op)(S(t.args[0]), S(t.args[1]))
    elif op in ('afill', 'trunc', 'ge0', 'gt0', 'eq0'):
        r = getattr(T, op)(S(t.args[0]))
    elif op == 'seq':
        r = T.eq(S(t.args[0]), S(t.args[1]))
    elif op == 'not':
        r = not_(S(t.args[0]))
    elif op in ('and', 'or'):
        r = (and_ if op == 'and' else or_)(*[S(a) for a in t.args])
    else:
        raise Unsupported('rename ' + op)
    memo[t] = r
    return r


class Carry:
    """moves the static objects of one analysed run (and everything reachable from them) into another"""

    def __init__(self, d, to):
        self.a, self.b = d, to
        self.cells, self.memo = {}, {}

    def loc(self, l):
        c = self.cells.get(l.cell)
        if c is None:
            c = self.cells[l.cell] = next(self.b.I.gcells)
            I = self.a.I
            self.b.I.cellinfo[c] = I.cellinfo.get(l.cell, '?')
            if l.cell in I.celltype:
                self.b.I.celltype[c] = I.celltype[l.cell]
            if l.cell in self.a.st.store:
                self.b.st.store[c] = UNDEF
                self.b.st.store[c] = self.val(self.a.st.store[l.cell])
        return Loc(c, tuple(self.val(p) if isinstance(p, Term) else p for p in l.path))

    def val(self, v):
        R = self.val
        if v is None or v is UNDEF or isinstance(v, (str, int, float, bool, FnRef, dict)):
            return v
        if isinstance(v, Term):
            return rename(v, self.memo)
        if isinstance(v, Loc):
            return self.loc(v)
        if isinstance(v, Ptr):
            return Ptr(R(v.base), R(v.off))
        if isinstance(v, Gate):
            return Gate(R(v.c), R(v.a), R(v.b))
        if isinstance(v, Struct):
            return Struct(v.cls, {k: R(x) for k, x in v.f.items()})
        if isinstance(v, Vec):
            return Vec(R(v.n), R(v.d), v.et)
        if isinstance(v, tuple):
            return tuple(R(x) for x in v)
        if isinstance(v, list):
            return [R(x) for x in v]
        if isinstance(v, Gen):
            return Gen(v.k, R(v.elem))
        if isinstance(v, MapV):
            if v.gen is not None or v.lazy is not None:
                raise Unsupported('generic map in a static object')
            return MapV({k: (R(p), R(x)) for k, (p, x) in v.e.items()}, v.vt, v.kt)
        if isinstance(v, AnyV):
            return AnyV(v.t, R(v.v))
        if isinstance(v, OptV):
            return OptV(R(v.p), R(v.v))
        if isinstance(v, MapIter):
            return MapIter(R(v.loc), v.key)
        if isinstance(v, Lam):
            return Lam(v.node, v.tu, {k: R(x) for k, x in v.env.items()}, R(v.this))
        if isinstance(v, Opq):
            return Opq(v.k, R(v.d)) if isinstance(v.d, (Term, Loc, Ptr, tuple)) else v
        raise Unsupported('value in a static object: ' + type(v).__name__)


def closed(v):
    """the same in every run"""
    if isinstance(v, Term):
        seen, st = set(), [v]
        while st:
            x = st.pop()
            if x.op in ('var', 'avar', 'uf'):
                return False
            if x in seen:
                continue
            seen.add(x)
            q = [x.args]
            while q:
                for a in q.pop():
                    if isinstance(a, Term):
                        st.append(a)
                    elif isinstance(a, tuple):
                        q.append(a)
        return True
    if isinstance(v, Struct):
        return all(closed(x) for x in v.f.values())
    if isinstance(v, Vec):
        return closed(v.n) and closed(v.d)
    if isinstance(v, tuple):
        return all(closed(x) for x in v)
    return v is None or isinstance(v, (str, FnRef)) or isinstance(v, Opq) and not isinstance(v.d, (Term, Loc, Ptr, tuple))


def statics(d):
    """static objects of the run that may differ from one run to another"""
    out = []
    for k, l in d.I.globals.items():
        if k == '$draws' or l.cell not in d.st.store or closed(d.st.store[l.cell]):
            continue
        out.append((k, l))
    return out


def carry(d, to):
    """returns the conditions of the earlier run"""
    c = Carry(d, to)
    new = {k: c.loc(l) for k, l in statics(d)}
    to.I.globals.update(new)
    return [rename(x, c.memo) for x in d.st.pc]
