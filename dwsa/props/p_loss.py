from fw import *

CE = 'deepworks::loss::CrossEntropyLoss'
ME = 'deepworks::metric::'
R1 = 'CrossEntropyLoss::forward/backward are summarised for symbolic batch size, class count and contents and compared with the defining formula'
R2 = 'metric::accuracy / accuracyOneHot are summarised and compared with the counting formula'


def mk(d):
    return d.cell(d.I.default_value(CE, d.st, d.fr))


def labels(m):
    return [('y', lambda r, i: float(r.randint(0, max(0, m - 1))))]


def gens_for(k):
    """prob in (0,1], integer labels below the class count"""
    def lab(r, i):
        return r.randint(0, 10 ** 6)
    return None


PROB = ('x', lambda r, i: r.uniform(.05, 1.0), (1e-20, 1.0))


def over_classes(f, *ts):
    for m in [1, 2, 3, 5, 300] + G.values_of('C', *ts):
        lab = lambda r, i, m=m: float(m - 1 if r.random() < .3 else r.randint(0, m - 1))
        f(m, [PROB, ('x2',) + PROB[1:], ('y', lab), ('y2', lab)])


def at_label(x, y, i, C):
    return sel(x, add(mul(i, C), trunc(sel(y, i))))


@prop('C09', R1)
def c09(ctx):
    N, C = var('N', True, 1), var('C', True, 1)
    wh = ctx.where(CE + '::forward')
    with ctx.section('loss value', wh):
        d = ctx.drv()
        x, y = d.tensor('x', [N, C]), d.tensor('y', [N, ONE])
        l = mk(d)
        r = d.I.num(d.st, d.call(CE + '::forward', [x, y], l))
        k = index_var()
        RANGES[k] = N
        spec = div(neg(sum_(k, N, T.fn('log', (at_label(avar('x', mul(N, C)), avar('y', N), k, C),)))), N)
        over_classes(lambda m, ag: ctx.eq('loss = -(1/N) sum log p[label], %d classes' % m, r, spec, wh, arrgens=ag, fixed={'C': m}, n=6), r)
        a, n = d.arr(x)
        ctx.eq_arr('predictions unchanged', a, n, lambda i: sel(avar('x', n), i), wh)
        a, n = d.arr(y)
        ctx.eq_arr('targets unchanged', a, n, lambda i: sel(avar('y', n), i), wh)
        over_classes(lambda m, ag: ctx.no_throw('no exception on valid input, %d classes' % m, d, wh, arrgens=ag, fixed={'C': m}))
    with ctx.section('same tensors, new contents', wh):
        d = ctx.drv()
        l = mk(d)
        x, y, g = d.tensor('x', [N, C]), d.tensor('y', [N, ONE]), d.tensor('g', [N, C])
        d.call(CE + '::forward', [x, y], l)
        d.call(CE + '::backward', [x, y, g], l)
        d.fill(x, 'x2')
        d.fill(y, 'y2')
        r = d.I.num(d.st, d.call(CE + '::forward', [x, y], l))
        k = index_var()
        RANGES[k] = N
        spec = div(neg(sum_(k, N, T.fn('log', (at_label(avar('x2', mul(N, C)), avar('y2', N), k, C),)))), N)
        over_classes(lambda m, ag: ctx.eq('the loss follows the contents of the tensors, %d classes' % m, r, spec, wh, arrgens=ag, fixed={'C': m}, n=8), r)
    with ctx.section('repeated use with another batch', wh):
        d = ctx.drv()
        N2 = add(N, var('e', True, 1))
        l = mk(d)
        x, y = d.tensor('x', [N, C]), d.tensor('y', [N, ONE])
        d.call(CE + '::forward', [x, y], l)
        for M, nm in ((N, 'same size'), (N2, 'larger'), (N, 'smaller again')):
            x2, y2 = d.tensor('x2', [M, C]), d.tensor('y2', [M, ONE])
            r = d.I.num(d.st, d.call(CE + '::forward', [x2, y2], l))
            k = index_var()
            RANGES[k] = M
            spec = div(neg(sum_(k, M, T.fn('log', (at_label(avar('x2', mul(M, C)), avar('y2', M), k, C),)))), M)
            over_classes(lambda m, ag: ctx.eq('second batch (%s) gives its own loss, %d classes' % (nm, m), r, spec, wh, arrgens=ag, fixed={'C': m}, n=8), r)


@prop('C10', R1)
def c10(ctx):
    N, C = var('N', True, 1), var('C', True, 1)
    wh = ctx.where(CE + '::backward')
    with ctx.section('gradient', wh):
        d = ctx.drv()
        x, y, g = d.tensor('x', [N, C]), d.tensor('y', [N, ONE]), d.tensor('g', [N, C])
        l = mk(d)
        d.call(CE + '::backward', [x, y, g], l)
        a, n = d.arr(g)
        xs, ys = avar('x', n), avar('y', N)

        def spec(i):
            row, col = idiv(i, C), imod(i, C)
            return ite(T.eq(trunc(sel(ys, row)), col), neg(inv(mul(N, sel(xs, i)))), ZERO)
        over_classes(lambda m, ag: ctx.eq_arr('gradient = -1/(N p) at the label and 0 elsewhere, %d classes' % m, a, n, spec, wh, arrgens=ag, fixed={'C': m}), a)
        b, m_ = d.arr(x)
        ctx.eq_arr('predictions unchanged', b, m_, lambda i: sel(xs, i), wh)
        b, m_ = d.arr(y)
        ctx.eq_arr('targets unchanged', b, m_, lambda i: sel(ys, i), wh)
        over_classes(lambda m, ag: ctx.no_throw('no exception on valid input, %d classes' % m, d, wh, arrgens=ag, fixed={'C': m}))
    with ctx.section('gradient of the same tensors, new contents', wh):
        d = ctx.drv()
        x, y, g = d.tensor('x', [N, C]), d.tensor('y', [N, ONE]), d.tensor('g', [N, C])
        l = mk(d)
        for nm in ('', '2'):
            if nm:
                d.fill(x, 'x2')
                d.fill(y, 'y2')
            d.call(CE + '::forward', [x, y], l)
            d.call(CE + '::backward', [x, y, g], l)
        a, n = d.arr(g)
        xs2, ys2 = avar('x2', n), avar('y2', N)

        def spec2(i):
            row, col = idiv(i, C), imod(i, C)
            return ite(T.eq(trunc(sel(ys2, row)), col), neg(inv(mul(N, sel(xs2, i)))), ZERO)
        over_classes(lambda m, ag: ctx.eq_arr('the gradient follows the contents of the tensors, %d classes' % m, a, n, spec2, wh, arrgens=ag, fixed={'C': m}), a)
    with ctx.section('gradient after a forward pass', wh):
        d = ctx.drv()
        x, y, g = d.tensor('x', [N, C]), d.tensor('y', [N, ONE]), d.tensor('g', [N, C])
        l = mk(d)
        d.call(CE + '::forward', [x, y], l)
        d.call(CE + '::backward', [x, y, g], l)
        d.call(CE + '::backward', [x, y, g], l)
        a, n = d.arr(g)
        over_classes(lambda m, ag: ctx.eq_arr('gradient is the same after forward and a repeated backward, %d classes' % m, a, n, spec, wh, arrgens=ag, fixed={'C': m}))


@prop('C12', R2)
def c12(ctx):
    N, C = var('N', True, 1), var('C', True, 1)
    # many ties: small integer scores
    tie = ('x', lambda r, i: float(r.randint(-2, 1)))
    for nm, ag in (('ties', tie), ('distinct', None), ('negative', ('x', lambda r, i: -1 - r.random()))):
        extra = [ag] if ag else []
        wh = ctx.where(ME + 'accuracy')
        with ctx.section('accuracy, ' + nm, wh):
            d = ctx.drv()
            x, y = d.tensor('x', [N, C]), d.tensor('y', [N])
            r = d.I.num(d.st, d.call(ME + 'accuracy', [x, y]))
            k, j = index_var(), index_var()
            RANGES[k], RANGES[j] = N, C
            xs, ys = avar('x', mul(N, C)), avar('y', N)
            am = argmax(j, C, sel(xs, add(mul(k, C), j)))
            spec = div(sum_(k, N, tonum(T.eq(am, sel(ys, k)))), N)
            for m in [1, 2, 4] + G.values_of('C', r):
                lab = [('y', lambda r_, i, m=m: float(r_.randint(0, m - 1)))]
                ctx.eq('accuracy counts rows whose first arg-max is the label (%s, %d classes)' % (nm, m), r, spec, wh, arrgens=extra + lab, fixed={'C': m}, n=10)
            for m in [3, 300] + G.values_of('C', r):
                ctx.eq('every row right (%s, %d classes)' % (nm, m), r, spec, wh, fixed={'C': m}, n=3,
                       arrgens=[('x', lambda r_, i: float(i)), ('y', lambda r_, i, m=m: float(m - 1))])
            # column-shaped labels as produced by the data loader
            ctx.no_throw('accuracy accepts matching shapes', d, wh)
        with ctx.section('accuracy with column labels', wh):
            d = ctx.drv()
            x, y = d.tensor('x', [N, C]), d.tensor('y', [N, ONE])
            r = d.I.num(d.st, d.call(ME + 'accuracy', [x, y]))
            ctx.eq('accuracy with an N x 1 label tensor', r, spec, wh, arrgens=extra + [('y', lambda r_, i: float(r_.randint(0, 2)))], fixed={'C': 3})
            ctx.no_throw('accuracy accepts N x 1 labels', d, wh)
        wh = ctx.where(ME + 'accuracyOneHot')
        with ctx.section('one-hot accuracy, ' + nm, wh):
            d = ctx.drv()
            x, y = d.tensor('x', [N, C]), d.tensor('y', [N, C])
            r = d.I.num(d.st, d.call(ME + 'accuracyOneHot', [x, y]))
            k, j, j2 = index_var(), index_var(), index_var()
            RANGES[k], RANGES[j], RANGES[j2] = N, C, C
            xs, ys = avar('x', mul(N, C)), avar('y', mul(N, C))
            am = argmax(j, C, sel(xs, add(mul(k, C), j)))
            am2 = argmax(j2, C, sel(ys, add(mul(k, C), j2)))
            spec2 = div(sum_(k, N, tonum(T.eq(am, am2))), N)
            for m in [1, 2, 4] + G.values_of('C', r):
                ctx.eq('one-hot accuracy compares arg-max columns (%s, %d classes)' % (nm, m), r, spec2, wh,
                       arrgens=extra + [('y', lambda r_, i: float(r_.randint(0, 1)))], fixed={'C': m}, n=10)
            ctx.no_throw('one-hot accuracy accepts matching shapes', d, wh)
