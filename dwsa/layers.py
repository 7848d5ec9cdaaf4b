"""Specifications of the layers, as terms over the same symbolic inputs the analysis uses."""
from fw import *

N, C, H, W, U, O = [var(x, True, 1) for x in ('N', 'C', 'H', 'W', 'U', 'O')]
KH, KW, SH, SW = [var(x, True, 1) for x in ('kh', 'kw', 'sh', 'sw')]
PH, PW = [var(x, True, 0) for x in ('ph', 'pw')]
ALPHA, EPS, P_ = var('alpha'), var('eps'), var('p')

SMALL = {'D': lambda r: r.randint(1, 3), 'D6': lambda r: r.randint(1, 2), 'D7': lambda r: r.randint(1, 2), 'N': lambda r: r.randint(1, 3), 'C': lambda r: r.randint(1, 3), 'H': lambda r: r.randint(1, 4), 'W': lambda r: r.randint(1, 4),
         'U': lambda r: r.randint(1, 3), 'O': lambda r: r.randint(1, 3), 'kh': lambda r: r.randint(1, 3), 'kw': lambda r: r.randint(1, 3),
         'sh': lambda r: r.randint(1, 3), 'sw': lambda r: r.randint(1, 3), 'ph': lambda r: r.randint(0, 2), 'pw': lambda r: r.randint(0, 2),
         'eps': lambda r: r.uniform(.1, 1), 'alpha': lambda r: r.uniform(.1, .9), 'p': lambda r: r.uniform(.1, .8),
         'e': lambda r: r.randint(1, 2)}
GENS.update(SMALL)
POSVAR = [('running_var*', lambda r, i: r.uniform(.1, 2))]


def S(n, f):
    k = index_var()
    RANGES[k] = n
    return sum_(k, n, f(k))


def MX(n, f):
    k = index_var()
    RANGES[k] = n
    return maxr(k, n, f(k))


def prod(ds):
    return mul(*ds) if ds else ONE


def unflat(i, dims):
    """indices of flat offset i"""
    out = []
    for j in range(len(dims)):
        rest = prod(dims[j + 1:])
        q = idiv(i, rest)
        out.append(q if j == 0 else imod(q, dims[j]))
    return out


def flat(idx, dims):
    r = ZERO
    for j, k in zip(idx, dims):
        r = add(mul(r, k), j)
    return r


def at(a, idx, dims):
    return sel(a, flat(idx, dims))


def exp(t):
    return T.fn('exp', (t,))


def sqrt(t):
    return T.fn('sqrt', (t,))


class Case:
    """one layer kind applied to symbolic inputs"""
    kind = None
    nonneg = ()
    params = {}
    buffers = {}
    assume = ()
    inplace = ()

    def __init__(self, kind, args, ins, out, label=''):
        self.kind, self.args, self.ins, self.out = kind, args, ins, out
        self.label = kind + (' ' + label if label else '')

    def x(self, k=0):
        return avar('x%d' % k, prod(self.ins[k]))

    def fwd(self, i):
        return None

    def bwd(self, k, i, gy):
        return None

    def pg(self, name, i, gy):
        return None


class Elem(Case):
    def __init__(self, kind, args, ins, f, df, label=''):
        Case.__init__(self, kind, args, ins, ins[0], label)
        self.f, self.df = f, df

    def fwd(self, i):
        return self.f(sel(self.x(), i))

    def bwd(self, k, i, gy):
        return mul(sel(gy, i), self.df(sel(self.x(), i)))


def sig(x):
    return inv(add(ONE, exp(neg(x))))


def elem(kind, ins, label=''):
    if kind == 'ReLU':
        return Elem(kind, [], ins, lambda x: ite(gt(x, ZERO), x, ZERO), lambda x: tonum(gt(x, ZERO)), label)
    if kind == 'LeakyReLU':
        return Elem(kind, [ALPHA], ins, lambda x: ite(lt(x, ZERO), mul(ALPHA, x), x), lambda x: ite(lt(x, ZERO), ALPHA, ONE), label)
    if kind == 'ELU':
        return Elem(kind, [ALPHA], ins, lambda x: ite(lt(x, ZERO), mul(ALPHA, sub(exp(x), ONE)), x),
                    lambda x: ite(lt(x, ZERO), mul(ALPHA, exp(x)), ONE), label)
    if kind == 'Sigmoid':
        return Elem(kind, [], ins, sig, lambda x: mul(sig(x), sub(ONE, sig(x))), label)


class Softmax(Case):
    def __init__(self):
        Case.__init__(self, 'Softmax', [], [[N, C]], [N, C])

    def row(self, r, c):
        den = S(C, lambda j: exp(sub(at(self.x(), [r, j], [N, C]), self.mx(r))))
        return div(exp(sub(at(self.x(), [r, c], [N, C]), self.mx(r))), den)

    def mx(self, r):
        return MX(C, lambda j: at(self.x(), [r, j], [N, C]))

    def fwd(self, i):
        return self.row(*unflat(i, [N, C]))

    def bwd(self, k, i, gy):
        r, c = unflat(i, [N, C])
        s = S(C, lambda j: mul(at(gy, [r, j], [N, C]), self.row(r, j)))
        return mul(self.row(r, c), sub(sel(gy, i), s))


class Linear(Case):
    def __init__(self, ins, label):
        self.F = prod(ins[0][1:])
        Case.__init__(self, 'Linear', [U], ins, [ins[0][0], U], label)
        self.params = {'weight': [U, self.F], 'bias': [U]}

    def w(self):
        return avar('weight', mul(U, self.F))

    def fwd(self, i):
        r, u = unflat(i, self.out)
        F = self.F
        return add(sel(avar('bias', U), u), S(F, lambda f: mul(at(self.x(), [r, f], [N, F]), at(self.w(), [u, f], [U, F]))))

    def bwd(self, k, i, gy):
        F = self.F
        r, f = unflat(i, [self.ins[0][0], F])
        return S(U, lambda u: mul(at(gy, [r, u], self.out), at(self.w(), [u, f], [U, F])))

    def pg(self, name, i, gy):
        F = self.F
        n = self.ins[0][0]
        if name == 'bias':
            return S(n, lambda r: at(gy, [r, i], self.out))
        u, f = unflat(i, [U, F])
        return S(n, lambda r: mul(at(gy, [r, u], self.out), at(self.x(), [r, f], [n, F])))


class GAP(Case):
    def __init__(self):
        Case.__init__(self, 'GlobalAvgPooling', [], [[N, C, H, W]], [N, C, ONE, ONE])

    def fwd(self, i):
        hw = mul(H, W)
        return div(S(hw, lambda j: sel(self.x(), add(mul(i, hw), j))), hw)

    def bwd(self, k, i, gy):
        hw = mul(H, W)
        return div(sel(gy, idiv(i, hw)), hw)


class Add(Case):
    def __init__(self, dims, label=''):
        Case.__init__(self, 'Add', [], [dims, dims], dims, label)

    def fwd(self, i):
        return add(sel(self.x(0), i), sel(self.x(1), i))

    def bwd(self, k, i, gy):
        return sel(gy, i)


def outdim(sz, k, p, s):
    return add(idiv(sub(add(sz, scale(p, 2)), k), s), ONE)


class Conv(Case):
    def __init__(self, geo=None, label='', ins=None):
        kh, kw, ph, pw, sh, sw = geo or (KH, KW, PH, PW, SH, SW)
        n, c, h, w = ins or [N, C, H, W]
        self.g = (kh, kw, ph, pw, sh, sw)
        self.OH, self.OW = outdim(h, kh, ph, sh), outdim(w, kw, pw, sw)
        Case.__init__(self, 'Convolution', [O, [kh, kw], [ph, pw], [sh, sw]], [[n, c, h, w]], [n, O, self.OH, self.OW], label)
        self.nonneg = (sub(add(h, scale(ph, 2)), kh), sub(add(w, scale(pw, 2)), kw))
        self.assume = tuple(ge0(t) for t in self.nonneg)
        self.params = {'weight': [O, c, kh, kw], 'bias': [O]}

    def w(self):
        return avar('weight', prod(self.params['weight']))

    def pix(self, n, c, y, x, a, b):
        """input pixel under tap (a,b) of output position (y,x), zero outside"""
        kh, kw, ph, pw, sh, sw = self.g
        _, _, h, w = self.ins[0]
        r, q = sub(add(mul(y, sh), a), ph), sub(add(mul(x, sw), b), pw)
        return ite(and_(ge0(r), lt(r, h), ge0(q), lt(q, w)), at(self.x(), [n, c, r, q], self.ins[0]), ZERO)

    def fwd(self, i):
        n, o, y, x = unflat(i, self.out)
        kh, kw = self.g[:2]
        ci = self.ins[0][1]
        return add(sel(avar('bias', O), o),
                   S(ci, lambda c: S(kh, lambda a: S(kw, lambda b: mul(at(self.w(), [o, c, a, b], self.params['weight']), self.pix(n, c, y, x, a, b))))))

    def bwd(self, k, i, gy):
        n, c, h, w = unflat(i, self.ins[0])
        kh, kw, ph, pw, sh, sw = self.g

        def term(o, a, b):
            ry, rx = sub(add(h, ph), a), sub(add(w, pw), b)
            y, x = idiv(ry, sh), idiv(rx, sw)
            ok = and_(ge0(ry), ge0(rx), T.eq(mul(y, sh), ry), T.eq(mul(x, sw), rx), lt(y, self.OH), lt(x, self.OW))
            return ite(ok, mul(at(self.w(), [o, c, a, b], self.params['weight']), at(gy, [n, o, y, x], self.out)), ZERO)
        return S(O, lambda o: S(kh, lambda a: S(kw, lambda b: term(o, a, b))))

    def pg(self, name, i, gy):
        n_ = self.ins[0][0]
        if name == 'bias':
            return S(n_, lambda n: S(self.OH, lambda y: S(self.OW, lambda x: at(gy, [n, i, y, x], self.out))))
        o, c, a, b = unflat(i, self.params['weight'])
        return S(n_, lambda n: S(self.OH, lambda y: S(self.OW, lambda x: mul(at(gy, [n, o, y, x], self.out), self.pix(n, c, y, x, a, b)))))


LOW = const(-10 ** 9)


class Pool(Case):
    def __init__(self, geo=None, label='', ins=None):
        kh, kw, ph, pw, sh, sw = geo or (KH, KW, PH, PW, SH, SW)
        n, c, h, w = ins or [N, C, H, W]
        self.g = (kh, kw, ph, pw, sh, sw)
        self.OH, self.OW = outdim(h, kh, ph, sh), outdim(w, kw, pw, sw)
        Case.__init__(self, 'MaxPooling', [[kh, kw], [ph, pw], [sh, sw]], [[n, c, h, w]], [n, c, self.OH, self.OW], label)
        self.nonneg = (sub(add(h, scale(ph, 2)), kh), sub(add(w, scale(pw, 2)), kw))
        # every window holds at least one real pixel
        self.assume = tuple(ge0(t) for t in self.nonneg) + (lt(ph, kh), lt(pw, kw))

    def win(self, n, c, y, x):
        kh, kw, ph, pw, sh, sw = self.g
        _, _, h, w = self.ins[0]

        def v(j):
            a, b = idiv(j, kw), imod(j, kw)
            r, q = sub(add(mul(y, sh), a), ph), sub(add(mul(x, sw), b), pw)
            return ite(and_(ge0(r), lt(r, h), ge0(q), lt(q, w)), at(self.x(), [n, c, r, q], self.ins[0]), LOW)
        return MX(mul(kh, kw), v)

    def fwd(self, i):
        return self.win(*unflat(i, self.out))

    def bwd(self, k, i, gy):
        n, c, h, w = unflat(i, self.ins[0])
        kh, kw, ph, pw, sh, sw = self.g
        xv = sel(self.x(), i)

        def term(a, b):
            ry, rx = sub(add(h, ph), a), sub(add(w, pw), b)
            y, x = idiv(ry, sh), idiv(rx, sw)
            ok = and_(ge0(ry), ge0(rx), T.eq(mul(y, sh), ry), T.eq(mul(x, sw), rx), lt(y, self.OH), lt(x, self.OW))
            return ite(and_(ok, T.eq(self.win(n, c, y, x), xv)), at(gy, [n, c, y, x], self.out), ZERO)
        return S(kh, lambda a: S(kw, lambda b: term(a, b)))


class BN(Case):
    """4-D (channel axis 1) or 2-D batch norm"""

    def __init__(self, rank, ins=None, label=''):
        dims = ins or ([N, C] if rank == 2 else [N, C, H, W])
        Case.__init__(self, 'BatchNorm%dD' % (1 if rank == 2 else 2), [EPS, ALPHA], [dims], dims, label)
        self.C = dims[1]
        self.M = prod([dims[0]] + dims[2:])
        self.params = {'gamma': [self.C], 'beta': [self.C]}
        self.buffers = {'running_mean': [self.C], 'running_var': [self.C]}

    def chan(self, i):
        return unflat(i, self.ins[0])[1]

    def pos(self, k, c):
        """flat offset of the k-th position of channel c"""
        d = self.ins[0]
        hw = prod(d[2:])
        return add(mul(idiv(k, hw), self.C, hw), mul(c, hw), imod(k, hw))

    def mean(self, a, c):
        return div(S(self.M, lambda k: sel(a, self.pos(k, c))), self.M)

    def var(self, c):
        mu = self.mean(self.x(), c)
        return div(S(self.M, lambda k: self._sq(sub(sel(self.x(), self.pos(k, c)), mu))), self.M)

    def _sq(self, t):
        return mul(t, t)

    def rm(self):
        return avar('running_mean', self.C)

    def rv(self):
        return avar('running_var', self.C)

    def fwd(self, i, train=True):
        c = self.chan(i)
        mu = self.mean(self.x(), c) if train else sel(self.rm(), c)
        vr = self.var(c) if train else sel(self.rv(), c)
        g, b = avar('gamma', self.C), avar('beta', self.C)
        return add(mul(sub(sel(self.x(), i), mu), div(sel(g, c), sqrt(add(vr, EPS)))), sel(b, c))

    def running(self, name, c):
        if name == 'running_mean':
            return add(mul(ALPHA, sel(self.rm(), c)), mul(sub(ONE, ALPHA), self.mean(self.x(), c)))
        return add(mul(ALPHA, sel(self.rv(), c)), mul(sub(ONE, ALPHA), self.var(c)))

    def xhat(self, off, c):
        return div(sub(sel(self.x(), off), self.mean(self.x(), c)), sqrt(add(self.var(c), EPS)))

    def bwd(self, k, i, gy):
        c = self.chan(i)
        g = sel(avar('gamma', self.C), c)
        mg = self.mean(gy, c)
        mgx = div(S(self.M, lambda q: mul(sel(gy, self.pos(q, c)), self.xhat(self.pos(q, c), c))), self.M)
        return mul(div(g, sqrt(add(self.var(c), EPS))), sub(sub(sel(gy, i), mg), mul(self.xhat(i, c), mgx)))

    def pg(self, name, i, gy):
        if name == 'beta':
            return S(self.M, lambda q: sel(gy, self.pos(q, i)))
        return S(self.M, lambda q: mul(sel(gy, self.pos(q, i)), self.xhat(self.pos(q, i), i)))


class Dropout(Case):
    def __init__(self, dims, label=''):
        Case.__init__(self, 'Dropout', [P_], [dims], dims, label)
        self.params = {'mask': dims}


R2, R4 = [N, C], [N, C, H, W]


def simple_cases():
    out = []
    for k in ('ReLU', 'LeakyReLU', 'ELU', 'Sigmoid'):
        out.append(elem(k, [R2], 'rank 2'))
        out.append(elem(k, [R4], 'rank 4'))
    out += [Softmax(), Linear([R2], 'rank 2'), Linear([R4], 'rank 4'), GAP(), Add(R2, 'rank 2'), Add(R4, 'rank 4')]
    return out


def all_cases():
    return simple_cases() + [Conv(), Pool(), BN(2), BN(4), Dropout(R2, 'rank 2'), Dropout(R4, 'rank 4')]


class Other:
    """another instance of the same layer kind, with symbols of its own"""

    def __init__(self, case):
        memo = {}

        def f(x):
            return [f(y) for y in x] if isinstance(x, (list, tuple)) else RN.rename(x, memo)
        self.kind = case.kind
        self.label = case.label + ' (another one)'
        self.args, self.ins, self.out = f(case.args), f(case.ins), f(case.out)
        self.nonneg, self.assume = tuple(f(case.nonneg)), tuple(f(case.assume))


class Run:
    """the analysed state of one layer"""

    def __init__(self, ctx, case, log=False, sfx='', d=None):
        self.c, self.ctx = case, ctx
        if case.nonneg:
            assume_nonneg(*case.nonneg)
        self.d = d = d or ctx.drv()
        self.op, self.ph = d.op(case.kind, case.args, case.ins)
        self.out = [d.I.num(d.st, x) for x in self.vecterms(d.call('deepworks::Placeholder::shape', [], self.ph))]
        self.layer = d.layer(self.op)
        self.thr0 = len(d.I.thr)
        d.I.log_access = log
        self.pnames = list(d.I.val(d.st, d.call('deepworks::LayerInfo::params', [], d.cell(d.info(self.op)))).e)
        self.bnames = list(d.I.val(d.st, d.call('deepworks::LayerInfo::buffers', [], d.cell(d.info(self.op)))).e)

    def vecterms(self, v):
        v = self.d.I.val(self.d.st, v)
        if not isinstance(v, Vec) or not isinstance(v.d, tuple):
            raise Unsupported('shape')
        return list(v.d)

    def fill(self):
        d = self.d
        for p in self.pnames:
            d.fill(d.pdata(self.op, p), p)
            d.fill(d.pgrad(self.op, p), 'g_' + p)
        for b in self.bnames:
            d.fill(d.buffer(self.op, b), b)

    def tensors(self, ins=None, out=None, sfx=''):
        d = self.d
        ins = ins or self.c.ins
        out = out or self.c.out
        self.xs = [d.tensor('x%d%s' % (i, sfx), x) for i, x in enumerate(ins)]
        self.gx = [d.tensor('gx%d%s' % (i, sfx), x) for i, x in enumerate(ins)]
        self.y, self.gy = d.tensor('y' + sfx, out), d.tensor('gy' + sfx, out)
        self.X, self.Y, self.GY, self.GX = d.tensors_vec(self.xs), d.tensors_vec([self.y]), d.tensors_vec([self.gy]), d.tensors_vec(self.gx)

    def forward(self):
        self.d.vcall(self.layer, 'forward', [self.X, self.Y])

    def update(self):
        self.d.vcall(self.layer, 'updateGradients', [self.X, self.GY])

    def backward(self):
        self.d.vcall(self.layer, 'backward', [self.X, self.Y, self.GY, self.GX])

    def train(self, flag):
        d = self.d
        for p in self.pnames:
            d.call('deepworks::Parameter::train', [flag], d.param(self.op, p))

    def cls(self):
        return self.d.I.val(self.d.st, self.layer).cls

    def where(self, m):
        f = self.d.p.method(self.cls(), m, {'forward': 2, 'backward': 4, 'updateGradients': 2}[m])
        if f is None:
            return self.cls() + '::' + m
        return '%s:%s %s' % (f['file'].replace('/repo/', ''), f['l'], f['fn'])
