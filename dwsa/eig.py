"""Eigen expressions as lazy element functions over the analysed store."""
import re
from terms import *
import terms as T
from values import *
import values as V


def lt_(a, b):
    return gt0(sub(b, a))


class EX:
    """expression: r x c elements, f(I, st, fr, line, i, j) -> Term; w = (loc, off(i, j)) for lvalues"""
    __slots__ = ('r', 'c', 'rv', 'cv', 'kind', 'f', 'w', 'ptr', 'wrap', 'rm', 'isint')

    def __init__(self, r, c, rv, cv, kind, f, w=None, ptr=None, isint=False):
        self.r, self.c, self.rv, self.cv, self.kind, self.f, self.w, self.ptr = r, c, rv, cv, kind, f, w, ptr
        self.wrap = None
        self.rm = True
        self.isint = isint

    def at(self, I, st, fr, line, i, j):
        return self.f(I, st, fr, line, i, j)

    def scalar(self, I, st, fr, line):
        return self.f(I, st, fr, line, ZERO, ZERO)

    def as_kind(self, k):
        e = EX(self.r, self.c, self.rv, self.cv, k, self.f, self.w, self.ptr, self.isint)
        e.wrap, e.rm = self.wrap, self.rm
        return e


class VW:
    """colwise() / rowwise() proxy"""
    __slots__ = ('e', 'd')

    def __init__(self, e, d):
        self.e, self.d = e, d


class Idx:
    """index list (std::vector / array / all) in an indexed view"""


def is_eigen(t):
    return t.startswith('Eigen::')


def ctdims(t):
    """compile-time rows/cols/order of a (map of) plain object type"""
    m = re.search(r'Eigen::(Matrix|Array)<([\w ]+), (-?\d+), (-?\d+)(?:, (-?\d+))?', t)
    if not m:
        return None
    opt = int(m.group(5) or 0)
    return dict(kind='matrix' if m.group(1) == 'Matrix' else 'array', et=m.group(2), r=int(m.group(3)),
                c=int(m.group(4)), rm=bool(opt & 1))


def load_elem(I, st, fr, line, loc, off):
    v = I.load(st, loc + ('i', off), fr, line)
    return tonum(I.term(st, v))


def map_ex(I, st, m):
    """EX for a Struct value of Eigen::Map"""
    d = ctdims(m.cls)
    r, c, p = m.f['r'], m.f['c'], m.f['p']
    os, is_ = m.f.get('os'), m.f.get('is')
    if isinstance(p, Gate):
        p = I.resolve(st, p)
    if not isinstance(p, Ptr) or p.base is None:
        raise unsup('map of unknown pointer', p)
    base, o0 = p.base, p.off
    if o0 is None:
        raise Unsupported('map of a scalar')
    inner = is_ if is_ is not None else ONE
    if I.log_access and os is None and is_ is None:
        v = I.load(st, base)
        if isinstance(v, Vec):
            top = I.stack[-1] if I.stack else None
            I.event('map', st, top, top.line if top else 0, (base, o0, mul(r, c), v.n))
    if d['rm']:
        outer = os if os is not None else c
    else:
        outer = os if os is not None else r

    def off(i, j):
        if d['rm']:
            return add(o0, mul(i, outer), mul(j, inner))
        return add(o0, mul(j, outer), mul(i, inner))

    def f(I2, s2, fr, line, i, j):
        return load_elem(I2, s2, fr, line, base, off(i, j))
    e = EX(r, c, d['r'] == 1, d['c'] == 1, d['kind'], f, (base, off), p, d['et'] in ('int', 'long', 'unsigned char'))
    e.rm = d['rm']
    return e


def mat_ex(I, st, loc, m):
    """EX for an owning matrix stored at loc (Struct cls Eigen::Matrix..)"""
    d = ctdims(m.cls)
    r, c = m.f['r'], m.f['c']
    base = loc + 'd'

    def off(i, j):
        return add(mul(i, c), j) if d['rm'] else add(mul(j, r), i)

    def f(I2, s2, fr, line, i, j):
        return load_elem(I2, s2, fr, line, base, off(i, j))
    e = EX(r, c, d['r'] == 1, d['c'] == 1, d['kind'], f, (base, off), Ptr(base, ZERO), d['et'] in ('int', 'long'))
    e.rm = d['rm']
    return e


def toE(I, st, x):
    """evaluation result -> EX / VW / None when it is a scalar"""
    loc = x if isinstance(x, Loc) else None
    v = I.val(st, x)
    if isinstance(v, (EX, VW)):
        return v
    if isinstance(v, Struct) and v.cls.startswith('Eigen::Map'):
        return map_ex(I, st, v)
    if isinstance(v, Struct) and v.cls.startswith('Eigen::'):
        if loc is None:
            loc = I.as_loc(st, v)
        e = mat_ex(I, st, loc, v)
        e.wrap = loc
        return e
    return None


def default_for(I, t, st, fr, zero):
    if t.startswith('Eigen::Matrix<') or t.startswith('Eigen::Array<'):
        d = ctdims(t)
        r = const(max(d['r'], 0))
        c = const(max(d['c'], 0))
        n = mul(r, c)
        return Struct(t, {'r': r, 'c': c, 'd': I.fresh_seq(st, fr, n, d['et'], False)})
    return None


def new_plain(I, st, fr, t, r, c, zero=False):
    d = ctdims(t)
    n = mul(r, c)
    dd = I.fresh_seq(st, fr, n, d['et'], zero) if not (isconst(n) and cval(n) <= 64 and False) else None
    return Struct(t, {'r': r, 'c': c, 'd': dd})


def construct(I, e, st, fr):
    t = re.sub(r'^const ', '', e['t'])
    cls = e.get('cls', '')
    args = [I.ev(a, st, fr) for a in e['args']]
    if cls in ('Eigen::Stride', 'Eigen::OuterStride', 'Eigen::InnerStride'):
        vs = [I.num(st, a) for a in args]
        ta = re.findall(r'-?\d+', t)
        o, i = None, None
        if cls == 'Eigen::OuterStride' and vs:
            o = vs[0]
        elif cls == 'Eigen::InnerStride' and vs:
            i = vs[0]
        elif len(vs) == 2:
            o, i = vs
        return Opq('stride', (o, i))
    if cls == 'Eigen::Map':
        if e.get('ck') in ('copy', 'move'):
            return I.val(st, args[0])
        p = I.val(st, args[0])
        if isinstance(p, Gate):
            p = I.resolve(st, p)
        if isinstance(p, Ptr) and p.base is not None and p.off is None:
            p = Ptr(p.base, ZERO)
        d = ctdims(t)
        f = {'p': p}
        dims = []
        for a in args[1:]:
            v = I.val(st, a)
            if isinstance(v, Opq) and v.k == 'stride':
                if v.d[0] is not None:
                    f['os'] = v.d[0]
                if v.d[1] is not None:
                    f['is'] = v.d[1]
            else:
                dims.append(I.num(st, v))
        if len(dims) == 1:
            f['r'], f['c'] = (ONE, dims[0]) if d['r'] == 1 else (dims[0], ONE)
        elif len(dims) == 2:
            f['r'], f['c'] = dims
        else:
            f['r'], f['c'] = const(d['r']), const(d['c'])
        return Struct(t, f)
    if cls in ('Eigen::Matrix', 'Eigen::Array'):
        d = ctdims(t)
        if not args:
            return default_for(I, t, st, fr, False)
        es = [toE(I, st, a) for a in args]
        if len(args) == 1 and es[0] is not None:
            return evaluate(I, st, fr, e['l'], es[0], t)
        dims = [I.num(st, a) for a in args]
        if len(dims) == 1:
            r, c = (ONE, dims[0]) if d['r'] == 1 else (dims[0], ONE)
        else:
            r, c = dims[:2]
        return new_plain(I, st, fr, t, r, c)
    if len(args) == 1:
        return I.val(st, args[0])
    raise Unsupported('Eigen constructor ' + e['t'][:60])


def evaluate(I, st, fr, line, ex, t):
    """materialise an expression in an owning matrix of type t"""
    d = ctdims(t)
    r, c = ex.r, ex.c
    tr = (d['r'] == 1 and ex.cv and not ex.rv) or (d['c'] == 1 and ex.rv and not ex.cv)
    if tr:
        r, c = c, r
    m = Struct(t, {'r': r, 'c': c, 'd': I.fresh_seq(st, fr, mul(r, c), d['et'], True)})
    loc = I.new_cell(st, m, 'eigen temporary')
    dst = mat_ex(I, st, loc, m)
    assign(I, st, fr, line, dst, ex, '=', log=False)
    return I.load(st, loc)


def idx2(e, pre='e'):
    ks = []
    if e.rv or e.r is ONE:
        i = ZERO
    else:
        i = index_var(pre)
        RANGES[i] = e.r
        ks.append((i, e.r))
    if e.cv or e.c is ONE:
        j = ZERO
    else:
        j = index_var(pre)
        RANGES[j] = e.c
        ks.append((j, e.c))
    return ks, i, j


class Binders:
    def __init__(self, I, ks):
        self.I, self.ks = I, ks

    def __enter__(self):
        self.n = len(self.I.binders)
        self.I.binders.extend(self.ks)

    def __exit__(self, *a):
        del self.I.binders[self.n:]


def assign(I, st, fr, line, dst, src, op, log=True):
    if dst.w is None:
        raise Unsupported('assignment to an Eigen rvalue')
    loc, off = dst.w
    ks, i, j = idx2(dst)
    with Binders(I, ks):
        if isinstance(src, EX):
            tr = (dst.rv and src.cv and not src.rv) or (dst.cv and src.rv and not src.cv)
            if tr:
                v = src.at(I, st, fr, line, j, i)
            else:
                v = src.at(I, st, fr, line, i, j)
        else:
            v = src
        if op in ('*=', '/='):
            old = dst.at(I, st, fr, line, i, j)
            v = mul(old, v) if op == '*=' else div(old, v)
    v = tonum(v)
    if dst.isint and not v.isint:
        v = trunc(v)
    mode = 'set'
    if op == '-=':
        v = neg(v)
    if op in ('+=', '-='):
        mode = 'add'
    o = off(i, j)
    if not ks:
        if mode == 'add':
            v = add(dst.at(I, st, fr, line, i, j), v)
        I.store(st, loc + ('i', o), v, fr, line)
        return
    I.bulk(st, loc, ks, o, v, fr, line, TRUE, mode)


def resize_assign(I, st, fr, line, lhs_loc, dst, src):
    """owning matrices take the shape of what is assigned"""
    m = I.val(st, lhs_loc)
    new = evaluate(I, st, fr, line, src, m.cls)
    I.store(st, lhs_loc, new)


UN = {'exp': lambda x: T.fn('exp', (x,)), 'log': lambda x: T.fn('log', (x,)), 'sqrt': lambda x: T.fn('sqrt', (x,)),
      'cwiseSqrt': lambda x: T.fn('sqrt', (x,)), 'abs': lambda x: T.fn('abs', (x,)),
      'cwiseAbs': lambda x: T.fn('abs', (x,)), 'square': lambda x: mul(x, x), 'cwiseAbs2': lambda x: mul(x, x),
      'abs2': lambda x: mul(x, x), 'cube': lambda x: mul(x, x, x), 'inverse': lambda x: inv(x),
      'cwiseInverse': lambda x: inv(x), 'tanh': lambda x: T.fn('tanh', (x,)), 'log1p': lambda x: T.fn('log1p', (x,)),
      'expm1': lambda x: sub(T.fn('exp', (x,)), ONE), 'floor': lambda x: T.fn('floor', (x,)),
      'ceil': lambda x: T.fn('ceil', (x,)), 'round': lambda x: T.fn('round', (x,)),
      'rsqrt': lambda x: inv(T.fn('sqrt', (x,))), 'operator!': lambda x: not_(tobool(x)),
      'logistic': lambda x: inv(add(ONE, T.fn('exp', (neg(x),)))),
      'sign': lambda x: ite(gt0(x), ONE, ite(gt0(neg(x)), const(-1), ZERO)),
      'cwiseSign': lambda x: ite(gt0(x), ONE, ite(gt0(neg(x)), const(-1), ZERO))}
BIN = {'operator+': add, 'operator-': sub, 'operator*': mul, 'operator/': div,
       'operator<': lt_, 'operator>': lambda a, b: lt_(b, a), 'operator<=': lambda a, b: ge0(sub(b, a)),
       'operator>=': lambda a, b: ge0(sub(a, b)), 'operator==': T.eq, 'operator!=': lambda a, b: not_(T.eq(a, b)),
       'operator&&': lambda a, b: and_(tobool(a), tobool(b)), 'operator||': lambda a, b: or_(tobool(a), tobool(b)),
       'cwiseProduct': mul, 'cwiseQuotient': div, 'cwiseMax': lambda a, b: T.fn('max', (a, b)),
       'cwiseMin': lambda a, b: T.fn('min', (a, b)), 'max': lambda a, b: T.fn('max', (a, b)),
       'min': lambda a, b: T.fn('min', (a, b)), 'pow': lambda a, b: T.fn('pow', (a, b)),
       'cwiseEqual': T.eq}


def numeric(name, a, b):
    if name in ('operator&&', 'operator||', 'operator==', 'operator!='):
        return BIN[name](a, b)
    return BIN[name](tonum(a), tonum(b))


def elementwise(name, a, b):
    """a, b: EX or scalar Term"""
    e = a if isinstance(a, EX) else b
    g = b if isinstance(a, EX) and isinstance(b, EX) else None

    def f(I, st, fr, line, i, j):
        x = a.at(I, st, fr, line, i, j) if isinstance(a, EX) else a
        y = b.at(I, st, fr, line, i, j) if isinstance(b, EX) else b
        return numeric(name, x, y)
    return EX(e.r, e.c, e.rv or (g is not None and g.rv), e.cv or (g is not None and g.cv), e.kind, f)


def product(a, b):
    def f(I, st, fr, line, i, j):
        k = index_var('p')
        RANGES[k] = a.c
        with Binders(I, [(k, a.c)]):
            t = mul(tonum(a.at(I, st, fr, line, i, k)), tonum(b.at(I, st, fr, line, k, j)))
        return sum_(k, a.c, t)
    return EX(a.r, b.c, a.rv, b.cv, 'matrix', f)


def reduce_(I, st, fr, line, how, e, dim):
    """dim 0: over rows for column j (colwise), 1: over columns for row i (rowwise)"""
    n = e.r if dim == 0 else e.c

    def f(I, st, fr, line, i, j):
        if n is ONE:
            k = ZERO
            ks = []
        else:
            k = index_var('r')
            RANGES[k] = n
            ks = [(k, n)]
        with Binders(I, ks):
            x = e.at(I, st, fr, line, k, j) if dim == 0 else e.at(I, st, fr, line, i, k)
        return red(how, k, n, x)
    if dim == 0:
        return EX(ONE, e.c, True, e.cv, e.kind, f)
    return EX(e.r, ONE, e.rv, True, e.kind, f)


def red(how, k, n, x):
    if how in ('any', 'all', 'count'):
        x = tobool(x)
    else:
        x = tonum(x)
    if n is ONE:
        if how in ('squaredNorm',):
            return mul(x, x)
        if how == 'norm':
            return T.fn('abs', (x,))
        return tonum(x) if how == 'count' else x
    if how == 'sum':
        return sum_(k, n, x)
    if how == 'mean':
        return div(sum_(k, n, x), n)
    if how == 'prod':
        return prod_(k, n, x)
    if how == 'maxCoeff':
        return maxr(k, n, x)
    if how == 'minCoeff':
        return maxr(k, n, x, 'minr')
    if how == 'squaredNorm':
        return sum_(k, n, mul(x, x))
    if how == 'norm':
        return T.fn('sqrt', (sum_(k, n, mul(x, x)),))
    if how == 'any':
        return any_(k, n, x)
    if how == 'all':
        return not_(any_(k, n, not_(x)))
    if how == 'count':
        return sum_(k, n, tonum(x))
    raise Unsupported('reduction ' + how)


RED = ('sum', 'mean', 'prod', 'maxCoeff', 'minCoeff', 'squaredNorm', 'norm', 'any', 'all', 'count')


def full_reduce(I, st, fr, line, how, e):
    ks, i, j = idx2(e, 'r')
    with Binders(I, ks):
        x = e.at(I, st, fr, line, i, j)
    if not ks:
        return red(how, None, ONE, x)
    if len(ks) == 1:
        return red(how, ks[0][0], ks[0][1], x)
    if how == 'mean':
        inner = sum_(ks[1][0], ks[1][1], tonum(x))
        return div(sum_(ks[0][0], ks[0][1], inner), mul(e.r, e.c))
    if how in ('squaredNorm', 'norm'):
        inner = sum_(ks[1][0], ks[1][1], mul(x, x))
        s = sum_(ks[0][0], ks[0][1], inner)
        return s if how == 'squaredNorm' else T.fn('sqrt', (s,))
    if how == 'count':
        return sum_(ks[0][0], ks[0][1], sum_(ks[1][0], ks[1][1], tonum(tobool(x))))
    inner = red(how, ks[1][0], ks[1][1], x)
    return red(how, ks[0][0], ks[0][1], inner)


def block(e, r0, c0, r, c, rv=False, cv=False):
    def f(I, st, fr, line, i, j):
        return e.at(I, st, fr, line, add(r0, i), add(c0, j))
    w = None
    if e.w is not None:
        base, off = e.w
        w = (base, lambda i, j: off(add(r0, i), add(c0, j)))
    return EX(r, c, rv, cv, e.kind, f, w, None, e.isint)


def is_vec(e):
    return e.rv or e.cv


def vlen(e):
    return e.c if e.rv else e.r


def element(I, st, e, i, j):
    """lvalue of one coefficient"""
    if e.w is not None:
        base, off = e.w
        return base + ('i', off(i, j))
    return e


def lin(e, i):
    return (ZERO, i) if e.rv else (i, ZERO)


def call(I, e, st, fr):
    n = e['n']
    line = e['l']
    args = list(e['args'])
    obj = None
    cls = e.get('cls', '')
    if e.get('static') and not e.get('op'):
        return static_call(I, e, st, fr)
    if 'obj' in e:
        obj = I.ev(e['obj'], st, fr)
        if e.get('objt', '').rstrip(' const').endswith('*'):
            obj = I.deref(st, obj, fr, line)
    elif e.get('op'):
        obj = I.ev(args[0], st, fr)
        args = args[1:]
    else:
        obj = None
    av = [I.ev(a, st, fr) for a in args]
    return apply(I, e, st, fr, n, obj, av, line)


def static_call(I, e, st, fr):
    n = e['n']
    args = [I.num(st, I.ev(a, st, fr)) for a in e['args']]
    t = e.get('clst', '')
    d = ctdims(t) or ctdims(e['t'])
    if d is None:
        raise Unsupported('Eigen static ' + n)
    v = {'Zero': ZERO, 'Ones': ONE}.get(n)
    if n == 'Constant':
        v = args[-1]
        args = args[:-1]
    if v is None:
        raise Unsupported('Eigen static ' + n)
    if len(args) == 2:
        r, c = args
    elif len(args) == 1:
        r, c = (ONE, args[0]) if d['r'] == 1 else (args[0], ONE)
    else:
        r, c = const(d['r']), const(d['c'])
    return EX(r, c, d['r'] == 1, d['c'] == 1, d['kind'], lambda I, st, fr, line, i, j: v)


def sc(I, st, x, fr, line):
    e = toE(I, st, x)
    if isinstance(e, EX):
        return e
    return I.term(st, x, fr, line)


def apply(I, e, st, fr, n, obj, av, line):
    o = toE(I, st, obj)
    if o is None and obj is not None:
        # scalar on the left (2.0f * expr)
        if len(av) == 1:
            b = toE(I, st, av[0])
            if isinstance(b, EX) and n in BIN:
                return elementwise(n, I.num(st, obj, fr, line), b)
        raise Unsupported('Eigen call %s on %r' % (n, obj))
    if isinstance(o, VW):
        return vectorwise(I, st, fr, line, n, o, av)
    if n in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
        op = n[8:]
        src = sc(I, st, av[0], fr, line)
        if isinstance(src, EX) and op == '*=' and o.kind == 'matrix':
            src = product(o, src)
            op = '='
            if o.wrap is not None and isinstance(obj, Loc):
                src = toE(I, st, evaluate(I, st, fr, line, src, I.val(st, obj).cls))
        if op == '=' and o.wrap is not None and isinstance(obj, Loc) and o.kind == ctdims(I.val(st, obj).cls)['kind'] \
                and isinstance(src, EX) and isinstance(I.val(st, obj), Struct):
            resize_assign(I, st, fr, line, obj, o, src)
            return obj
        assign(I, st, fr, line, o, src, op)
        return obj
    if n in ('setZero', 'setOnes', 'setConstant', 'fill'):
        if n in ('setConstant', 'fill') and len(av) > 1 or n in ('setZero', 'setOnes') and av:
            raise Unsupported('resizing ' + n)
        v = {'setZero': ZERO, 'setOnes': ONE}.get(n)
        if v is None:
            v = I.num(st, av[0], fr, line)
        assign(I, st, fr, line, o, v, '=')
        return obj
    if n in ('array', 'matrix'):
        return o.as_kind(n)
    if n in ('eval', 'noalias', 'derived', 'nestedExpression', 'reshaped') and not av:
        if n == 'eval':
            # snapshot: an owning copy
            t = 'Eigen::Matrix<float, %d, %d, 1, -1, -1>' % (1 if o.rv else -1, 1 if o.cv else -1)
            if o.kind == 'array':
                t = t.replace('Matrix', 'Array')
            m = evaluate(I, st, fr, line, o, t)
            return m
        if n == 'reshaped':
            raise Unsupported('reshaped')
        return o
    if n == 'conservativeResize' or n == 'resize':
        raise Unsupported('Eigen ' + n)
    if n == 'transpose':
        w = None
        if o.w is not None:
            base, off = o.w
            w = (base, lambda i, j: off(j, i))
        return EX(o.c, o.r, o.cv, o.rv, o.kind, lambda I, s, fr, l, i, j: o.at(I, s, fr, l, j, i), w, None, o.isint)
    if n == 'cast':
        t = (e.get('ta') or ['float'])[0]
        if t in ('int', 'long', 'unsigned char', 'unsigned int', 'short'):
            return EX(o.r, o.c, o.rv, o.cv, o.kind, lambda I, s, fr, l, i, j: trunc(tonum(o.at(I, s, fr, l, i, j))), isint=True)
        return EX(o.r, o.c, o.rv, o.cv, o.kind, lambda I, s, fr, l, i, j: tonum(o.at(I, s, fr, l, i, j)))
    if n in UN and not av or n == 'operator-' and not av:
        g = UN.get(n, neg)
        return EX(o.r, o.c, o.rv, o.cv, o.kind, lambda I, s, fr, l, i, j: g(tonum(o.at(I, s, fr, l, i, j))))
    if n == 'operator*' and o.kind == 'matrix':
        b = sc(I, st, av[0], fr, line)
        if isinstance(b, EX):
            return product(o, b)
        return elementwise(n, o, tonum(b))
    if n in BIN and len(av) == 1:
        return elementwise(n, o, sc(I, st, av[0], fr, line))
    if n == 'select':
        a, b = sc(I, st, av[0], fr, line), sc(I, st, av[1], fr, line)

        def f(I, s, fr, l, i, j):
            c = tobool(o.at(I, s, fr, l, i, j))
            c = s.decide(c)
            pc = s.pc
            if c is not TRUE:
                s.pc = pc + (c,)
            x = a.at(I, s, fr, l, i, j) if isinstance(a, EX) else a
            s.pc = pc + (not_(c),) if c is not FALSE else pc
            y = b.at(I, s, fr, l, i, j) if isinstance(b, EX) else b
            s.pc = pc
            return ite(c, tonum(x), tonum(y))
        return EX(o.r, o.c, o.rv, o.cv, a.kind if isinstance(a, EX) else b.kind if isinstance(b, EX) else o.kind, f)
    if n in ('maxCoeff', 'minCoeff') and av:
        which = 'argmax' if n == 'maxCoeff' else 'argmin'
        if not is_vec(o):
            if len(av) == 2:
                raise Unsupported('2-d coefficient search')
        ks, i, j = idx2(o, 'r')
        if len(ks) == 0:
            ix = ZERO
            v = o.at(I, st, fr, line, ZERO, ZERO)
        elif len(ks) == 1:
            with Binders(I, ks):
                x = o.at(I, st, fr, line, i, j)
            v = red(n, ks[0][0], ks[0][1], x)
            ix = T.argmax(ks[0][0], ks[0][1], tonum(x), which)
        else:
            raise Unsupported('2-d coefficient search')
        if len(av) == 2:
            l0, l1 = I.deref(st, av[0], fr, line), I.deref(st, av[1], fr, line)
            I.store(st, l0, ZERO if o.rv else ix, fr, line)
            I.store(st, l1, ix if o.rv else ZERO, fr, line)
        else:
            I.store(st, I.deref(st, av[0], fr, line), ix, fr, line)
        return v
    if n in ('stableNorm', 'blueNorm') and not av:
        n = 'norm'
    if n in ('allFinite', 'hasNaN') and not av:
        return TRUE if n == 'allFinite' else FALSE       # real arithmetic
    if n == 'isZero':
        prec = T.tonum(I.num(st, av[0])) if av else const(Fraction(1, 100000))
        e2 = EX(o.r, o.c, o.rv, o.cv, o.kind, lambda I, s, fr, l, i, j: T.ge(prec, T.fn('abs', (tonum(o.at(I, s, fr, l, i, j)),))))
        return full_reduce(I, st, fr, line, 'all', e2)
    if n in RED and not av:
        return full_reduce(I, st, fr, line, n, o)
    if n == 'dot':
        b = toE(I, st, av[0])
        k = index_var('r')
        nn = vlen(o)
        RANGES[k] = nn
        with Binders(I, [(k, nn)]):
            x = mul(tonum(o.at(I, st, fr, line, *lin(o, k))), tonum(b.at(I, st, fr, line, *lin(b, k))))
        return sum_(k, nn, x)
    if n in ('rows', 'cols', 'size', 'outerSize', 'innerSize', 'outerStride', 'innerStride'):
        if n == 'rows':
            return o.r
        if n == 'cols':
            return o.c
        if n == 'size':
            return mul(o.r, o.c)
        if n in ('outerSize',):
            return ONE if is_vec(o) else (o.r if o.rm else o.c)
        if n in ('innerSize', 'outerStride'):
            return mul(o.r, o.c) if is_vec(o) else (o.c if o.rm else o.r)
        return ONE
    if n == 'data':
        if o.ptr is None:
            raise Unsupported('data() of an expression')
        return o.ptr
    if n in ('colwise', 'rowwise'):
        return VW(o, 0 if n == 'colwise' else 1)
    if n == 'row':
        return block(o, I.num(st, av[0]), ZERO, ONE, o.c, True, o.cv)
    if n == 'col':
        return block(o, ZERO, I.num(st, av[0]), o.r, ONE, o.rv, True)
    if n == 'block':
        a = [I.num(st, x) for x in av]
        if len(a) == 2:
            ta = [int(x) for x in e.get('ta', []) if re.match(r'-?\d+$', x)]
            a += [const(ta[0]), const(ta[1])]
        return block(o, a[0], a[1], a[2], a[3])
    if n in ('topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols'):
        a = [I.num(st, x) for x in av]
        if n == 'topRows':
            return block(o, ZERO, ZERO, a[0], o.c)
        if n == 'bottomRows':
            return block(o, sub(o.r, a[0]), ZERO, a[0], o.c)
        if n == 'leftCols':
            return block(o, ZERO, ZERO, o.r, a[0])
        if n == 'rightCols':
            return block(o, ZERO, sub(o.c, a[0]), o.r, a[0])
        if n == 'middleRows':
            return block(o, a[0], ZERO, a[1], o.c)
        return block(o, ZERO, a[0], o.r, a[1])
    if n in ('head', 'tail', 'segment'):
        a = [I.num(st, x) for x in av]
        if n == 'head':
            s, ln = ZERO, a[0]
        elif n == 'tail':
            s, ln = sub(vlen(o), a[0]), a[0]
        else:
            s, ln = a
        return block(o, ZERO, s, ONE, ln, True, False) if o.rv else block(o, s, ZERO, ln, ONE, False, True)
    if n in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
        vs = [I.val(st, x) for x in av]
        if all(isinstance(v, Term) for v in vs):
            if len(vs) == 2:
                return element(I, st, o, tonum(vs[0]), tonum(vs[1]))
            i, j = lin(o, tonum(vs[0]))
            if not is_vec(o):
                raise Unsupported('linear index into a matrix')
            return element(I, st, o, i, j)
        return indexed(I, st, fr, line, o, av, vs)
    if n == 'unaryExpr':
        g = I.val(st, av[0])

        def f(I, s, fr, l, i, j):
            return I.num(s, I.call_value(g, [tonum(o.at(I, s, fr, l, i, j))], s, fr, {'l': l, 'id': None, 't': 'float'}))
        return EX(o.r, o.c, o.rv, o.cv, o.kind, f)
    if n == 'binaryExpr':
        b, g = toE(I, st, av[0]), I.val(st, av[1])

        def f(I, s, fr, l, i, j):
            return I.num(s, I.call_value(g, [tonum(o.at(I, s, fr, l, i, j)), tonum(b.at(I, s, fr, l, i, j))], s, fr,
                                         {'l': l, 'id': None, 't': 'float'}))
        return EX(o.r, o.c, o.rv, o.cv, o.kind, f)
    if n == 'replicate' and len(av) == 2:
        a, b = I.num(st, av[0]), I.num(st, av[1])
        if o.rv and b is ONE:
            return EX(a, o.c, False, o.cv, o.kind, lambda I, s, fr, l, i, j: o.at(I, s, fr, l, ZERO, j))
        if o.cv and a is ONE:
            return EX(o.r, b, o.rv, False, o.kind, lambda I, s, fr, l, i, j: o.at(I, s, fr, l, i, ZERO))
        raise Unsupported('replicate')
    if n == 'value' or n.startswith('operator float') or n.startswith('operator const float'):
        return o.at(I, st, fr, line, ZERO, ZERO)
    if n == 'asDiagonal':
        raise Unsupported('asDiagonal')
    if n == 'isApprox':
        raise Unsupported('isApprox')
    raise Unsupported('Eigen method ' + n)


def indexed(I, st, fr, line, o, av, vs):
    """indexed view: scalar or std::vector<int> per dimension"""
    def one(v, x, full):
        if isinstance(v, Term):
            v = tonum(v)
            return ONE, True, (lambda k: v)
        if isinstance(v, Vec):
            loc = x if isinstance(x, Loc) else I.as_loc(st, v)
            snap = v

            def g(k):
                return I.num(st, I.vget(snap, k))
            return v.n, False, g
        if isinstance(v, Opq) and v.k == 'seq':
            a, n = v.d
            return n, False, (lambda k: add(a, k))
        return full, False, (lambda k: k)
    if len(vs) == 1:
        if o.rv:
            vs, av = [ZERO] + vs, [ZERO] + list(av)
        else:
            vs, av = vs + [ZERO], list(av) + [ZERO]
    r, rv, fi = one(vs[0], av[0], o.r)
    c, cv, fj = one(vs[1], av[1], o.c)

    def f(I, s, fr, l, i, j):
        return o.at(I, s, fr, l, fi(i), fj(j))
    w = None
    if o.w is not None:
        base, off = o.w
        w = (base, lambda i, j: off(fi(i), fj(j)))
    return EX(r, c, rv, cv, o.kind, f, w, None, o.isint)


def vectorwise(I, st, fr, line, n, o, av):
    e, d = o.e, o.d
    if n in RED and not av:
        return reduce_(I, st, fr, line, n, e, d)
    if n in ('operator+', 'operator-', 'operator*', 'operator/'):
        b = toE(I, st, av[0])
        if not isinstance(b, EX):
            raise Unsupported('vectorwise operand')

        def f(I, s, fr, l, i, j):
            x = tonum(e.at(I, s, fr, l, i, j))
            if d == 0:      # colwise: operand is a column
                y = b.at(I, s, fr, l, i, ZERO)
            else:
                y = b.at(I, s, fr, l, ZERO, j)
            return BIN[n](x, tonum(y))
        return EX(e.r, e.c, e.rv, e.cv, e.kind, f)
    if n in ('operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator='):
        b = toE(I, st, av[0])

        def f(I, s, fr, l, i, j):
            return tonum(b.at(I, s, fr, l, i, ZERO) if d == 0 else b.at(I, s, fr, l, ZERO, j))
        src = EX(e.r, e.c, e.rv, e.cv, e.kind, f)
        assign(I, st, fr, line, e, src, n[8:])
        return o
    if n == 'replicate':
        raise Unsupported('vectorwise replicate')
    raise Unsupported('vectorwise ' + n)


def free_call(I, e, st, fr):
    """non-member operators and Eigen namespace functions"""
    n = e['n']
    args = [I.ev(a, st, fr) for a in e['args']]
    line = e['l']
    es = [toE(I, st, a) for a in args]
    if n in BIN and len(args) == 2:
        if isinstance(es[0], VW):
            return vectorwise(I, st, fr, line, n, es[0], args[1:])
        if isinstance(es[0], EX):
            return apply(I, e, st, fr, n, args[0], args[1:], line)
        return elementwise(n, I.num(st, args[0]), es[1])
    if n in UN and len(args) == 1 and isinstance(es[0], EX):
        return apply(I, e, st, fr, n, args[0], [], line)
    if n == 'seqN':
        return Opq('seq', (I.num(st, args[0]), I.num(st, args[1])))
    if n == 'seq' and len(args) == 2:
        a, b = I.num(st, args[0]), I.num(st, args[1])
        return Opq('seq', (a, add(sub(b, a), ONE)))
    raise Unsupported('Eigen function ' + n)
