"""Random interpretation of value-graph terms (not of the program): assigns values to the
free variables of a term and computes its value, so two summary terms can be told apart."""
import math
import random
from terms import *

NAN = float('nan')
ITER_CAP = 20000
WHILE_CAP = 200


class EvalLimit(Exception):
    pass


class Sampler:
    """values for free variables, drawn on demand; `fixed` overrides by name"""

    def __init__(self, seed, fixed=None, gens=None, arrgens=None):
        self.r = random.Random(seed)
        self.fixed = dict(fixed or {})
        self.gens = gens or {}
        self.arrgens = arrgens or []
        self.vals = {}
        self.arrs = {}
        self.arrfix = {}
        self.fillp = .6

    def num(self, t):
        name, isint = t.args
        if name in self.fixed:
            return self.fixed[name]
        if name in self.vals:
            return self.vals[name]
        base = name.split('~')[0]
        if base != name and base in self.fixed:
            return self.fixed[base]
        g = self.gens.get(base)
        if g is not None:
            v = g(self.r)
        elif t.sort == 'b':
            v = self.r.random() < .5
        elif t.sort == 's':
            v = 'str:' + name
        elif isint:
            lo = t.lb if t.lb is not None else 0
            v = int(lo) + self.r.randint(0, 3)
        else:
            v = self.real()
        self.vals[name] = v
        return v

    def real(self):
        x = self.r.random()
        if x < .12:
            return float(self.r.randint(-2, 2))
        return self.r.uniform(-2, 2)

    def arr(self, t, n):
        name, _, isint = t.args
        key = name
        if n > 300000:
            raise EvalLimit()
        a = self.arrs.get(key)
        if a is None:
            a = self.arrs[key] = []
        if len(a) < n:
            gen = None
            for pat, g in (x[:2] for x in self.arrgens):
                if name.split('~')[0] == pat or (pat.endswith('*') and name.startswith(pat[:-1])):
                    gen = g
                    break
            r = random.Random(hash((self.r.getrandbits(1), name)) if False else name + str(self.seedkey()))
            r2 = random.Random(str(self.seedkey()) + name)
            full = []
            # some whole arrays hold small integers only: sums that cancel, ties and zeros are reached
            coarse = random.Random(str(self.seedkey()) + name + 'c').random() < .15
            for i in range(n):
                if gen:
                    full.append(gen(r2, i))
                elif isint:
                    full.append(r2.randint(0, 5))
                elif name.startswith('uninit'):
                    full.append(r2.uniform(50, 90) * (1 if r2.random() < .5 else -1))
                elif coarse:
                    full.append(float(r2.randint(-1, 1)))
                else:
                    x = r2.random()
                    full.append(float(r2.randint(-2, 2)) if x < .12 else r2.uniform(-2, 2))
            if name in self.arrfix:
                z = self.arrfix[name]
                full = [z[1]] * n if isinstance(z, tuple) else [z if r2.random() < self.fillp else v for v in full]
            a[:] = full
        return a[:n]

    def seedkey(self):
        if not hasattr(self, '_sk'):
            self._sk = self.r.getrandbits(48)
        return self._sk


def sfloat(f, *a):
    try:
        return f(*a)
    except OverflowError:
        return math.inf
    except (ValueError, ZeroDivisionError):
        return NAN


def cdiv(a, b):
    if b == 0:
        return None
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def exp32(x):
    # the analysed code computes in single precision, where exp overflows early
    return math.inf if x > 88.7228 else sfloat(math.exp, x)


WRAPS = {'wrap8': (0, 255), 'wrap16': (0, 65535), 'swrap8': (-128, 127), 'swrap16': (-32768, 32767)}
FN = {
    'exp': exp32,
    'log': lambda x: -math.inf if x == 0 else sfloat(math.log, x),
    'log2': lambda x: -math.inf if x == 0 else sfloat(math.log2, x),
    'log10': lambda x: -math.inf if x == 0 else sfloat(math.log10, x),
    'log1p': lambda x: sfloat(math.log1p, x),
    'expm1': lambda x: sfloat(math.expm1, x),
    'sqrt': lambda x: sfloat(math.sqrt, x),
    'tanh': math.tanh, 'sin': math.sin, 'cos': math.cos,
    'abs': abs, 'max': max, 'min': min,
    'pow': lambda x, y: sfloat(math.pow, x, y),
    'floor': lambda x: math.floor(x), 'ceil': lambda x: math.ceil(x),
    'round': lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1),
    'erf': math.erf,
    'wrap8': lambda x: int(x) & 255, 'wrap16': lambda x: int(x) & 65535,
    'swrap8': lambda x: ((int(x) + 128) & 255) - 128, 'swrap16': lambda x: ((int(x) + 32768) & 65535) - 32768,
}


class Ev:
    cov = None
    max = 3000000

    def __init__(self, sampler):
        self.s = sampler
        self.bind = {}
        self.memos = [{}]
        self.faults = []
        self.steps = 0

    def __call__(self, t):
        return self.ev(t)

    def ev(self, t):
        op = t.op
        if op == 'const':
            v = t.args[0]
            return v if isinstance(v, int) else float(v)
        if op == 'bconst':
            return t.args[0]
        if op in ('bv', 'tv'):
            try:
                return self.bind[t][1]
            except KeyError:
                raise Exception('unbound %r' % t)
        d = 0
        if t.fv:
            b = self.bind
            for x in t.fv:
                y = b[x][0]
                if y > d:
                    d = y
        memo = self.memos[d]
        r = memo.get(t)
        if r is None:
            self.steps += 1
            if self.steps > self.max:
                raise EvalLimit()
            r = getattr(self, 'e_' + op)(t)
            # the memo may have been replaced while evaluating
            self.memos[d][t] = r
        return r

    # -- scoping
    def enter(self, pairs):
        d = len(self.memos)
        self.memos.append({})
        saved = [(k, self.bind.get(k)) for k, _ in pairs]
        for k, v in pairs:
            self.bind[k] = (d, v)
        return d, saved

    def rebind(self, d, pairs):
        self.memos[d] = {}
        for k, v in pairs:
            self.bind[k] = (d, v)

    def leave(self, d, saved):
        del self.memos[d:]
        for k, v in saved:
            if v is None:
                del self.bind[k]
            else:
                self.bind[k] = v

    # -- leaves
    def e_var(self, t):
        return self.s.num(t)

    def e_str(self, t):
        return t.args[0]

    def e_avar(self, t):
        n = self.ev(t.args[1])
        if n > 200000:
            raise EvalLimit()
        return self.s.arr(t, max(0, n))

    def e_poly(self, t):
        r = 0
        for c, m in t.args:
            x = c if isinstance(c, int) else float(c)
            for a, e in m:
                v = self.ev(a)
                if e == 1:
                    x = x * v
                elif e > 0:
                    x = sfloat(lambda: x * v ** e)
                else:
                    if v == 0:
                        if x == 0:
                            x = NAN
                        else:
                            x = math.inf if x > 0 else -math.inf
                    else:
                        try:
                            x = x / (v ** -e)
                        except OverflowError:
                            x = 0.0
            r = r + x
        if t.isint and isinstance(r, float) and r == r and abs(r) < 1e15:
            r = int(round(r))
        return r

    def e_fn(self, t):
        name, args, extra = t.args
        if name == 'lit':
            return float(extra)
        a = [self.ev(x) for x in args]
        if any(isinstance(x, float) and x != x for x in a):
            return NAN
        if name in ('floor', 'ceil', 'round') and any(abs(x) == math.inf for x in a):
            return a[0]
        if self.cov is not None and name in ('max', 'min') and len(a) == 2:
            self.cov[t] = self.cov.get(t, 0) | (2 if a[0] > a[1] else 1 if a[0] < a[1] else 0)
        if self.cov is not None and name in WRAPS:
            self.cov[t] = self.cov.get(t, 0) | (2 if WRAPS[name][0] <= a[0] <= WRAPS[name][1] else 1)
        return FN[name](*a)

    def e_uf(self, t):
        name, args, isint = t.args
        a = tuple(_key(self.ev(x)) for x in args)
        r = random.Random(str((name, a, self.s.seedkey())))
        if t.sort == 'b':
            return r.random() < .5
        if t.sort == 's':
            return 'uf:%s%s' % (name, a)
        if isint:
            return r.randint(0, 7)
        return r.uniform(-2, 2)

    def e_idiv(self, t):
        b = self.ev(t.args[1])
        r = cdiv(self.ev(t.args[0]), b)
        if r is None:
            self.faults.append(('div0', t))
            return 0
        return r

    def e_imod(self, t):
        a, b = self.ev(t.args[0]), self.ev(t.args[1])
        q = cdiv(a, b)
        if q is None:
            self.faults.append(('div0', t))
            return 0
        if self.cov is not None:
            self.cov[t] = self.cov.get(t, 0) | (2 if a < b else 1)
        return a - q * b

    def e_trunc(self, t):
        v = self.ev(t.args[0])
        if v != v or abs(v) == math.inf:
            return 0
        return int(v)

    def e_ge0(self, t):
        r = self.ev(t.args[0]) >= 0
        if self.cov is not None:
            self.cov[t] = self.cov.get(t, 0) | (2 if r else 1)
        return r

    def e_gt0(self, t):
        r = self.ev(t.args[0]) > 0
        if self.cov is not None:
            self.cov[t] = self.cov.get(t, 0) | (2 if r else 1)
        return r

    def e_eq0(self, t):
        r = self.ev(t.args[0]) == 0
        if self.cov is not None:
            self.cov[t] = self.cov.get(t, 0) | (2 if r else 1)
        return r

    def e_seq(self, t):
        return self.ev(t.args[0]) == self.ev(t.args[1])

    def e_not(self, t):
        return not self.ev(t.args[0])

    def e_and(self, t):
        r = all(self.ev(a) for a in t.args)
        if self.cov is not None:
            self.cov[t] = self.cov.get(t, 0) | (2 if r else 1)
        return r

    def e_or(self, t):
        r = any(self.ev(a) for a in t.args)
        if self.cov is not None:
            self.cov[t] = self.cov.get(t, 0) | (2 if r else 1)
        return r

    def e_ite(self, t):
        c, a, b = t.args
        return self.ev(a) if self.ev(c) else self.ev(b)

    # -- arrays
    def e_sel(self, t):
        a = self.ev(t.args[0])
        o = self.ev(t.args[1])
        if isinstance(a, Fill):
            return a.v
        if not isinstance(o, int) or o < 0 or o >= len(a):
            self.faults.append(('oob', t, o, len(a)))
            return NAN
        return a[o]

    def e_afill(self, t):
        return Fill(self.ev(t.args[0]))

    def e_upd(self, t):
        base, ns, off, val, cond, mode, lev = t.args
        a = self.ev(base)
        a = a.copy() if not isinstance(a, Fill) else GrowList(a.v)
        if not ns:
            if self.ev(cond):
                self._w(a, self.ev(off), self.ev(val), mode, t)
            return a
        ks = [bv(lev, i, 'n', True) for i in range(len(ns))]

        def rec(i):
            n = self.ev(ns[i])
            if n > ITER_CAP:
                raise EvalLimit()
            if n <= 0:
                return
            d, sv = self.enter([(ks[i], 0)])
            for x in range(n):
                if x:
                    self.rebind(d, [(ks[i], x)])
                    del self.memos[d + 1:]
                if i + 1 < len(ns):
                    rec(i + 1)
                elif self.ev(cond):
                    self._w(a, self.ev(off), self.ev(val), mode, t)
            self.leave(d, sv)
        rec(0)
        return a

    def _w(self, a, o, v, mode, t):
        if isinstance(a, GrowList):
            a.put(o, v, mode)
            return
        if not isinstance(o, int) or o < 0 or o >= len(a):
            self.faults.append(('oobw', t, o, len(a)))
            return
        a[o] = v if mode == 'set' else a[o] + v

    # -- binders
    def _iter(self, t):
        n, body, lev = t.args
        n = self.ev(n)
        if n > ITER_CAP:
            raise EvalLimit()
        k = bv(lev, 0, 'n', True)
        if n <= 0:
            return
        d, sv = self.enter([(k, 0)])
        try:
            for x in range(n):
                if x:
                    self.rebind(d, [(k, x)])
                yield x, self.ev(body)
        finally:
            self.leave(d, sv)

    def e_sum(self, t):
        r = 0
        for _, v in self._iter(t):
            r += v
        return r

    def e_prod(self, t):
        r = 1
        for _, v in self._iter(t):
            r *= v
        return r

    def e_maxr(self, t):
        l = [v for _, v in self._iter(t)]
        return max(l) if l else -math.inf

    def e_minr(self, t):
        l = [v for _, v in self._iter(t)]
        return min(l) if l else math.inf

    def e_argmax(self, t):
        l = [v for _, v in self._iter(t)]
        return l.index(max(l)) if l and all(x == x for x in l) else 0

    def e_argmin(self, t):
        l = [v for _, v in self._iter(t)]
        return l.index(min(l)) if l and all(x == x for x in l) else 0

    def e_any(self, t):
        r = False
        for _, v in self._iter(t):
            if v:
                r = True
                break
        if self.cov is not None:
            self.cov[t] = self.cov.get(t, 0) | (2 if r else 1)
        return r

    def e_first(self, t):
        n = self.ev(t.args[0])
        for x, v in self._iter(t):
            if v:
                return x
        return max(0, n)

    def e_fold(self, t):
        n, inits, bodies, cond, lev, slots = t.args
        st = [self.ev(i) for i in inits]
        if n is not None:
            cnt = self.ev(n)
            if cnt > ITER_CAP:
                raise EvalLimit()
        else:
            cnt = WHILE_CAP
        k = bv(lev, 0, 'n', True)
        keys = [k] + list(slots)
        d, sv = self.enter(list(zip(keys, [0] + st)))
        try:
            x = 0
            while x < cnt:
                if x:
                    self.rebind(d, list(zip(keys, [x] + st)))
                if cond is not None and not self.ev(cond):
                    break
                st = [self.ev(b) for b in bodies]
                x += 1
            else:
                if n is None:
                    raise EvalLimit()
        finally:
            self.leave(d, sv)
        return tuple(st)

    def e_proj(self, t):
        return self.ev(t.args[0])[t.args[1]]


class Fill:
    def __init__(self, v):
        self.v = v

    def __len__(self):
        return 1 << 30


class GrowList(list):
    """array with a default value and no fixed length"""

    def __init__(self, d, it=()):
        list.__init__(self, it)
        self.d = d

    def copy(self):
        return GrowList(self.d, self)

    def __len__(self):
        return 1 << 30

    def put(self, o, v, mode):
        if o < 0:
            return
        n = list.__len__(self)
        while n <= o:
            list.append(self, self.d)
            n += 1
        list.__setitem__(self, o, v if mode == 'set' else list.__getitem__(self, o) + v)

    def __getitem__(self, o):
        return list.__getitem__(self, o) if o < list.__len__(self) else self.d


def _key(v):
    if isinstance(v, float):
        return round(v, 9)
    if isinstance(v, list):
        return tuple(_key(x) for x in v)
    return v


def close(a, b, tol=2e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if abs(a) == math.inf or abs(b) == math.inf:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
