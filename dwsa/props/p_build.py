from layers import *
from p_layers import kw

R15 = ('Layer(args)(placeholder) is summarised for every layer kind and input rank 1..5 with symbolic extents; the shape of the result is compared '
       'with the documented one, unsupported ranks must throw on every path and before any out-of-range shape access')
R16 = 'after construction the parameter and buffer maps are compared by name, shape, initial value, trainability and storage identity'

D5 = [N, C, H, W] + [var(x, True, 1) for x in ('D', 'D6', 'D7')]
DRAW = [('draw', lambda r, i: r.random())]


def build(ctx, kind, args, ins, nonneg=()):
    """returns (drv, op, shape or None when every path throws)"""
    assume_nonneg(*nonneg)
    d = ctx.drv()
    d.I.log_access = True
    try:
        op, ph = d.op(kind, args, ins)
        v = d.I.val(d.st, d.call('deepworks::Placeholder::shape', [], ph))
        if not isinstance(v, Vec) or not isinstance(v.d, tuple):
            raise unsup('shape', v)
        return d, op, [d.I.num(d.st, x) for x in v.d]
    except Dead:
        return d, None, None


def op_where(ctx, kind):
    return ctx.where('deepworks::%s::outShape' % kind)


def shape_eq(ctx, name, got, want, where, **k):
    if got is None:
        ctx.violation(name, where, dict(reason='refused with an exception', required=[T.show(x) for x in want]))
        return
    if len(got) != len(want):
        ctx.violation(name, where, dict(code_value='rank %d' % len(got), required_value='rank %d' % len(want)))
        return
    for j, (a, b) in enumerate(zip(got, want)):
        ctx.eq('%s, axis %d' % (name, j), a, b, where, **k)


def accesses_ok(ctx, name, d, where, **k):
    from access import bounds
    bounds(ctx, name, [e for e in d.I.log], where, ns=3, **k)


@prop('C15', R15)
def c15(ctx):
    geo = [[KH, KW], [PH, PW], [SH, SW]]
    fits = (sub(add(H, scale(PH, 2)), KH), sub(add(W, scale(PW, 2)), KW))
    oh, ow = outdim(H, KH, PH, SH), outdim(W, KW, PW, SW)
    table = {
        'ReLU': ([], range(1, 8), lambda s: s), 'LeakyReLU': ([ALPHA], range(1, 8), lambda s: s),
        'ELU': ([ALPHA], range(1, 8), lambda s: s), 'Sigmoid': ([], range(1, 8), lambda s: s),
        'Dropout': ([P_], range(1, 8), lambda s: s), 'Softmax': ([], [2], lambda s: s),
        'BatchNorm1D': ([EPS, ALPHA], [2], lambda s: s), 'BatchNorm2D': ([EPS, ALPHA], [4], lambda s: s),
        'Linear': ([U], range(2, 8), lambda s: [s[0], U]),
        'GlobalAvgPooling': ([], [4], lambda s: [s[0], s[1], ONE, ONE]),
        'MaxPooling': (geo, [4], lambda s: [s[0], s[1], oh, ow]),
        'Convolution': ([O] + geo, [4], lambda s: [s[0], O, oh, ow]),
    }
    for kind, (args, ranks, want) in table.items():
        wh = op_where(ctx, kind)
        for r in ranks:
            with ctx.section('%s rank %d' % (kind, r)):
                g = fits if kind in ('MaxPooling', 'Convolution') else ()
                d, op, sh = build(ctx, kind, args, [D5[:r]], g)
                k = dict(gens=SMALL, assume=tuple(ge0(t) for t in g))
                shape_eq(ctx, '%s output shape for rank %d' % (kind, r), sh, want(D5[:r]), wh, **k)
                ctx.no_throw('%s accepts rank %d' % (kind, r), d, wh, **k)
                accesses_ok(ctx, '%s shape accesses for rank %d' % (kind, r), d, wh, **k)
        for r in range(1, 8):
            if r in ranks or kind == 'Softmax':
                continue
            with ctx.section('%s refuses rank %d' % (kind, r)):
                d, op, sh = build(ctx, kind, args, [D5[:r]])
                nm = '%s refuses rank %d' % (kind, r)
                if sh is not None:
                    ctx.violation(nm, wh, dict(reason='a placeholder of shape %s is returned' % [T.show(x) for x in sh]))
                else:
                    ctx.ok(nm, 'every path throws', wh)
                accesses_ok(ctx, '%s: no out-of-range shape access before refusing rank %d' % (kind, r), d, wh, gens=SMALL)
    S1, S2 = var('SA', True), var('SB', True)
    for kind, a in (('MaxPooling', []), ('Convolution', [O])):
        wh = op_where(ctx, kind)
        with ctx.section('%s windows' % kind):
            d, op, sh = build(ctx, kind, a + [[KH, KW], [PH, PW], [S1, S2]], [D5[:4]])
            bad = not_(and_(ge0(fits[0]), ge0(fits[1]), T.gt(S1, ZERO), T.gt(S2, ZERO)))
            ctx.throws_iff('%s refuses exactly the windows that do not fit and strides that are not positive' % kind, d, bad, wh,
                           gens={**SMALL, 'SA': lambda q: q.randint(-2, 3), 'SB': lambda q: q.randint(-2, 3)}, n=120)
    wh = op_where(ctx, 'Add')
    for r in range(1, 5):
        with ctx.section('Add rank %d' % r):
            d, op, sh = build(ctx, 'Add', [], [D5[:r], D5[:r]])
            shape_eq(ctx, 'Add output shape for rank %d' % r, sh, D5[:r], wh, gens=SMALL)
            ctx.no_throw('Add accepts equal shapes of rank %d' % r, d, wh, gens=SMALL)
    B = [var(x + '2', True, 1) for x in 'NCHW']
    for r in (1, 2, 4):
        with ctx.section('Add different extents rank %d' % r):
            d, op, sh = build(ctx, 'Add', [], [D5[:r], B[:r]])
            same = and_(*[T.eq(a, b) for a, b in zip(D5[:r], B[:r])])
            g = dict(SMALL)
            for a, b in zip(D5[:r], B[:r]):
                g[b.args[0]] = lambda q: q.randint(1, 3)
            ctx.throws_iff('Add refuses exactly the different shapes of rank %d' % r, d, not_(same), wh, gens=g, n=60)
    for a, b in ((2, 3), (4, 2), (1, 2)):
        with ctx.section('Add ranks %d %d' % (a, b)):
            d, op, sh = build(ctx, 'Add', [], [D5[:a], D5[:b]])
            nm = 'Add refuses ranks %d and %d' % (a, b)
            ctx.rule(nm, sh is None, wh, 'a placeholder is returned')


def uniform_range(ctx, name, arr, n, lo, hi, where, **k):
    """values are lo+(hi-lo)*draw with a fresh draw per element"""
    kk = dict(k)
    ag = kk.pop('arrgens', [])
    ctx.eq_arr(name + ' (lowest draw)', arr, n, lambda i: lo, where, arrgens=[('draw', lambda r, i: 0.0)] + ag, **kk)
    ctx.eq_arr(name + ' (highest draw)', arr, n, lambda i: hi, where, arrgens=[('draw', lambda r, i: 1.0)] + ag, **kk)
    # distinct draws give distinct elements
    i, j = index_var('i'), index_var('j')
    RANGES[i], RANGES[j] = n, n
    clash = any_(i, n, any_(j, n, and_(lt(i, j), T.eq(sel(arr, i), sel(arr, j)))))
    ctx.holds(name + ' (one draw per element)', not_(clash), where, arrgens=DRAW + ag, **kk)


def xavier_width(dims):
    if len(dims) == 2:
        s = add(dims[0], dims[1])
    else:
        s = add(dims[0], prod(dims[1:]))
    return div(T.fn('sqrt', (const(6),)), s)


@prop('C16', R16)
def c16(ctx):
    for c in all_cases() + [Linear([D5[:r]], 'rank %d' % r) for r in (3, 4, 5, 6)]:
        with ctx.section(c.label):
            assume_nonneg(*c.nonneg)
            d = ctx.drv()
            op, ph = d.op(c.kind, c.args, c.ins)
            wh = ctx.where('deepworks::%s::init' % c.kind) if c.params else op_where(ctx, c.kind)
            li = d.cell(d.info(op))
            pm = d.I.val(d.st, d.call('deepworks::LayerInfo::params', [], li))
            bm = d.I.val(d.st, d.call('deepworks::LayerInfo::buffers', [], li))
            ctx.rule('%s owns exactly the parameters %s' % (c.label, sorted(c.params)), sorted(pm.e) == sorted(c.params) and
                     all(p is TRUE for p, _ in pm.e.values()), wh, 'owns %s' % sorted(pm.e))
            ctx.rule('%s owns exactly the buffers %s' % (c.label, sorted(c.buffers)), sorted(bm.e) == sorted(c.buffers) and
                     all(p is TRUE for p, _ in bm.e.values()), wh, 'owns %s' % sorted(bm.e))
            k = kw(c)
            k.pop('arrgens')
            cells = {}
            for p, dims in c.params.items():
                if p not in pm.e:
                    continue
                P = d.param(op, p)
                x, g = d.call('deepworks::Parameter::data', [], P), d.call('deepworks::Parameter::grad', [], P)
                shape_eq(ctx, '%s %s shape' % (c.label, p), d.dims(x), dims, wh, **k)
                shape_eq(ctx, '%s %s gradient shape' % (c.label, p), d.dims(g), dims, wh, **k)
                ctx.eq('%s %s is trainable' % (c.label, p), tonum(d.I.bool(d.st, d.call('deepworks::Parameter::is_trainable', [], P), d.fr, 0)), ONE, wh, **k)
                a, n = d.arr(x)
                if p == 'weight':
                    w = xavier_width(dims)
                    uniform_range(ctx, '%s weight is Xavier-initialised' % c.label, a, n, neg(w), w, wh, **k)
                else:
                    v = ONE if p == 'gamma' else ZERO
                    ctx.eq_arr('%s %s initial value' % (c.label, p), a, n, lambda i: v, wh, **k)
                a, n = d.arr(g)
                ctx.eq_arr('%s %s gradient starts at zero' % (c.label, p), a, n, lambda i: ZERO, wh, **k)
                for nm, l in ((p, x), ('gradient of ' + p, g)):
                    cells[nm] = d.data(l)[0]
            for b, dims in c.buffers.items():
                if b not in bm.e:
                    continue
                x = d.buffer(op, b)
                shape_eq(ctx, '%s %s shape' % (c.label, b), d.dims(x), dims, wh, **k)
                a, n = d.arr(x)
                ctx.eq_arr('%s %s starts at zero' % (c.label, b), a, n, lambda i: ZERO, wh, **k)
                cells[b] = d.data(x)[0]
            ctx.rule('%s: every parameter, gradient and buffer has its own storage' % c.label, len(set(cells.values())) == len(cells), wh,
                     'shared storage among %s' % sorted(cells))
            ctx.no_throw('%s construction succeeds' % c.label, d, wh, **k)
