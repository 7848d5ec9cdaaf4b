from fw import *

OPT = 'deepworks::optimizer::'
RULE = 'optimiser constructors, step, get_lr and set_lr are summarised for symbolic parameter sizes and contents and compared with the update rules'
POS = {'eps': lambda r: r.uniform(.1, 1), 'b1': lambda r: r.choice((r.uniform(.1, .9), .999, .9999)), 'b2': lambda r: r.choice((r.uniform(.1, .9), .999, .9999)),
       'it': lambda r: r.randint(0, 4)}
GEN = dict(POS)


def params(d, spec):
    """spec: name -> (dims, trainable term); returns (map Loc, {name: Parameter Loc})"""
    pm, out = {}, {}
    for k, (dims, tr) in spec.items():
        x = d.tensor('w_' + k, dims)
        p = d.new('deepworks::Parameter', [x, tr])
        v = d.I.val(d.st, p)
        pm[k] = (TRUE, v)
        out[k] = d.cell(v)
    return d.cell(MapV(pm, 'deepworks::Parameter', 'std::string')), out


def data(d, p):
    return d.arr(d.call('deepworks::Parameter::data', [], p))


def grad(d, p):
    return d.call('deepworks::Parameter::grad', [], p)


KINDS = {
    'SGD': [],
    'SGDMomentum': ['gamma'],
    'Adam': ['betas', 'eps', 'it'],
}


def make(d, kind, mp):
    ex = []
    if kind == 'SGDMomentum':
        ex = [var('gamma')]
    if kind == 'Adam':
        ex = [d.cell(vec([var('b1'), var('b2')], 'float')), var('eps'), var('it', True, 0)]
    return d.new(OPT + kind, [mp, var('lr')] + ex)


class Ref:
    """reference semantics of one parameter element at index i"""

    def __init__(self, kind, w, it=None):
        self.k, self.w = kind, w
        self.v = self.m = ZERO
        self.t = var('it', True, 0)

    def tick(self):
        self.t = add(self.t, ONE)

    def step(self, g, lr, tr):
        if self.k == 'SGD':
            w = sub(self.w, mul(lr, g))
            self.w = ite(tr, w, self.w)
        elif self.k == 'SGDMomentum':
            v = add(mul(var('gamma'), self.v), mul(lr, g))
            self.w = ite(tr, sub(self.w, v), self.w)
            self.v = ite(tr, v, self.v)
        else:
            b1, b2 = var('b1'), var('b2')
            m = add(mul(b1, self.m), mul(sub(ONE, b1), g))
            v = add(mul(b2, self.v), mul(sub(ONE, b2), g, g))
            mh = div(m, sub(ONE, T.fn('pow', (b1, self.t))))
            vh = div(v, sub(ONE, T.fn('pow', (b2, self.t))))
            w = sub(self.w, div(mul(lr, mh), add(T.fn('sqrt', (vh,)), var('eps'))))
            self.w = ite(tr, w, self.w)
            self.m, self.v = ite(tr, m, self.m), ite(tr, v, self.v)


def sequence(ctx, kind, spec, lrs, trs=None):
    """run len(lrs) steps with fresh gradients; lrs[i] None = unchanged. Compare with the reference."""
    nm = '%s, %d steps' % (kind, len(lrs))
    d = ctx.drv()
    mp, ps = params(d, spec)
    o = make(d, kind, mp)
    w0 = {k: data(d, p)[0] for k, p in ps.items()}
    wh = ctx.where(OPT + kind + '::step')
    lr = var('lr')
    refs = {}
    ix = {}
    for k in ps:
        i = index_var('i')
        RANGES[i] = data(d, ps[k])[1]
        ix[k] = i
        refs[k] = Ref(kind, sel(w0[k], i))
    cur = {k: spec[k][1] for k in ps}
    for s, l in enumerate(lrs):
        if l is not None:
            d.call(OPT + kind + '::set_lr', [l], o)
            lr = l
        if trs and trs[s]:
            for k, b in trs[s].items():
                d.call('deepworks::Parameter::train', [b], ps[k])
                cur[k] = b
        for k, p in ps.items():
            d.fill(grad(d, p), 'g%d_%s' % (s, k))
        try:
            d.call(OPT + kind + '::step', [], o)
        except Dead:
            # every way through the step ends in an exception
            ctx.no_throw(nm + ': step %d accepted' % (s + 1), d, wh, gens=GEN)
            return
        for k in ps:
            refs[k].tick()
            n = data(d, ps[k])[1]
            refs[k].step(sel(avar('g%d_%s' % (s, k), n), ix[k]), lr, cur[k])
        for k in ps:
            a, n = data(d, ps[k])
            r = refs[k].w
            ctx.eq_arr('%s: %s after step %d' % (nm, k, s + 1), a, n, lambda i, r=r, k=k: subst(r, {ix[k]: i}), wh, gens=GEN, ns=4)
            ga, gn = d.arr(grad(d, ps[k]))
            gv = avar('g%d_%s' % (s, k), gn)
            ctx.eq_arr('%s: gradient of %s unchanged by step %d' % (nm, k, s + 1), ga, gn, lambda i, gv=gv: sel(gv, i), wh, gens=GEN, ns=4)
        r = d.I.num(d.st, d.call(OPT + kind + '::get_lr', [], o))
        ctx.eq('%s: get_lr after step %d' % (nm, s + 1), r, lr, ctx.where(OPT + kind + '::get_lr'))
    ctx.no_throw(nm + ': no exception for matching shapes', d, wh, gens=GEN)


def mixed(ctx):
    """frozen neighbours, learning-rate changes and freezing between steps"""
    m, n = var('m', True, 1), var('n', True, 1)
    for kind in KINDS:
        wh = ctx.where(OPT + kind + '::step')
        with ctx.section('frozen and separate state, ' + kind, wh):
            sequence(ctx, kind, {'a': ([m, n], bvar('tr_a')), 'b': ([n], bvar('tr_b'))}, [None, var('lr2')])
        with ctx.section('freezing and thawing between steps, ' + kind, wh):
            sequence(ctx, kind, {'a': ([m], TRUE), 'b': ([m], TRUE)}, [None, None, var('lr2')],
                     [None, {'a': bvar('tr_2')}, {'a': TRUE}])
        with ctx.section('thawing after construction, ' + kind, wh):
            sequence(ctx, kind, {'a': ([m], FALSE), 'b': ([m], TRUE)}, [None, None], [None, {'a': TRUE}])


@prop('C13', RULE)
def c13(ctx):
    m, n, q = var('m', True, 1), var('n', True, 1), var('q', True, 1)
    for kind in KINDS:
        with ctx.section('update rule of ' + kind, ctx.where(OPT + kind + '::step')):
            sequence(ctx, kind, {'a': ([m, n], TRUE), 'b': ([q], TRUE)}, [None, None, None])
        with ctx.section('single step of ' + kind, ctx.where(OPT + kind + '::step')):
            sequence(ctx, kind, {'a': ([m, n, q, const(2)], bvar('tr_a'))}, [None])
    mixed(ctx)
    # defaulted arguments are part of the interface
    with ctx.section('Adam defaults'):
        f = [x for x in ctx.p.byname.get(OPT + 'Adam::Adam', []) if len(x['params']) == 5]
        if f and f[0]['params'][4].get('def') is not None:
            d = ctx.drv()
            v = d.I.num(d.st, d.I.ev(f[0]['params'][4]['def'], d.st, d.fr))
            ctx.eq('Adam starts counting at zero', v, ZERO, ctx.where(OPT + 'Adam::Adam'))


@prop('C14', RULE)
def c14(ctx):
    m, n = var('m', True, 1), var('n', True, 1)
    mixed(ctx)
    for kind in KINDS:
        wh = ctx.where(OPT + kind + '::step')
        with ctx.section('state is per optimiser, ' + kind, wh):
            # a second optimiser over the same parameters starts from zero state
            d = ctx.drv()
            mp, ps = params(d, {'a': ([m], TRUE)})
            o1 = make(d, kind, mp)
            d.fill(grad(d, ps['a']), 'g')
            d.call(OPT + kind + '::step', [], o1)
            w1, nn = data(d, ps['a'])
            o2 = make(d, kind, mp)
            d.fill(grad(d, ps['a']), 'h')
            d.call(OPT + kind + '::step', [], o2)
            w2, _ = data(d, ps['a'])

            def spec(i):
                r = Ref(kind, sel(w1, i))
                r.tick()
                r.step(sel(avar('h', nn), i), var('lr'), TRUE)
                return r.w
            ctx.eq_arr('%s: a new optimiser starts from zero state' % kind, w2, nn, spec, wh, gens=GEN, ns=4)
        with ctx.section('shape check, ' + kind, wh):
            for rank in (1, 2):
                d = ctx.drv()
                mp, ps = params(d, {'a': ([m, n], TRUE)})
                o = make(d, kind, mp)
                gdims = [var('gm', True, 1)] if rank == 1 else [var('gm', True, 1), var('gn', True, 1)]
                g = d.tensor('g', gdims)
                d.I.store(d.st, grad(d, ps['a']), d.I.val(d.st, g))
                try:
                    d.call(OPT + kind + '::step', [], o)
                except Dead:
                    pass
                same = FALSE if rank == 1 else and_(T.eq(m, gdims[0]), T.eq(n, gdims[1]))
                sm = {x: (lambda r: r.randint(1, 3)) for x in ('m', 'n', 'gm', 'gn')}
                ctx.throws_iff('%s: gradient of another shape (rank %d) refused, matching one accepted' % (kind, rank), d, not_(same), wh,
                               gens=dict(GEN, **sm), n=24)
