from layers import *

RULE = ('each layer is constructed, applied and run with symbolic shapes, attributes, parameters and contents; '
        'the summary of every output array is compared with the documented formula')


def kw(case, **more):
    d = dict(gens=SMALL, assume=case.assume, arrgens=POSVAR + more.pop('arrgens', []))
    d.update(more)
    return d


def forwards(ctx, cases, **more):
    for c in cases:
        with ctx.section(c.label):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            r.forward()
            a, n = r.d.arr(r.y)
            ctx.eq_arr('%s forward' % c.label, a, n, c.fwd, r.where('forward'), **kw(c, **more))
            ctx.no_throw('%s forward accepts valid input' % c.label, r.d, r.where('forward'), **kw(c, **more))


@prop('C18', RULE)
def c18(ctx):
    forwards(ctx, simple_cases())
    for v in (1.7, -.6, 0.0):
        forwards(ctx, [elem(k, [R2], 'alpha %g' % v) for k in ('LeakyReLU', 'ELU')], fixed={'alpha': v})
    same_twice(ctx, 'forward')
    # large inputs: the row-wise softmax must not overflow
    with ctx.section('Softmax large'):
        c = Softmax()
        r = Run(ctx, c)
        r.tensors()
        r.forward()
        a, n = r.d.arr(r.y)
        for nm, lo, hi in (('large positive', 900, 1100), ('large negative', -1100, -900), ('wide', -900, 900)):
            ctx.eq_arr('Softmax forward with %s inputs' % nm, a, n, c.fwd, r.where('forward'),
                       **kw(c, arrgens=[('x0', lambda q, i, lo=lo, hi=hi: q.uniform(lo, hi))]))
        for nm, k in (('rising', 100.0), ('falling', -100.0)):
            ctx.eq_arr('Softmax forward with %s inputs' % nm, a, n, c.fwd, r.where('forward'), **kw(c, arrgens=[('x0', lambda q, i, k=k: k * i)]))


def backwards(ctx, cases, grads=True, **more):
    for c in cases:
        with ctx.section(c.label + ' backward'):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            r.forward()
            r.update()
            r.backward()
            gy = avar('gy', prod(c.out))
            for k, g in enumerate(r.gx):
                a, n = r.d.arr(g)
                g0 = avar('gx%d' % k, n)
                ctx.eq_arr('%s input gradient %d' % (c.label, k), a, n, lambda i: add(sel(g0, i), c.bwd(k, i, gy)), r.where('backward'), **kw(c, **more))
            for p in c.params:
                if c.pg(p, ZERO, gy) is None:
                    continue
                a, n = r.d.arr(r.d.pgrad(r.op, p))
                ctx.eq_arr('%s gradient of %s' % (c.label, p), a, n, lambda i: c.pg(p, i, gy), r.where('updateGradients'), **kw(c, **more))
            ctx.no_throw('%s backward accepts valid input' % c.label, r.d, r.where('backward'), **kw(c, **more))


@prop('C19', RULE)
def c19(ctx):
    backwards(ctx, simple_cases())
    for v in (1.7, -.6, 0.0):
        backwards(ctx, [elem(k, [R2], 'alpha %g' % v) for k in ('LeakyReLU', 'ELU')], fixed={'alpha': v})
    same_twice(ctx, 'backward')
    # special points: activations at exactly zero
    z = [('x0', lambda q, i: float(q.randint(-1, 1)))]
    backwards(ctx, [c for c in simple_cases() if isinstance(c, Elem)], arrgens=z)
    order_free(ctx, simple_cases())


def same_twice(ctx, what):
    """one tensor used as both operands of the addition"""
    c = Add(R2, 'of a tensor to itself')
    with ctx.section('%s %s' % (c.label, what)):
        r = Run(ctx, c)
        r.tensors()
        d = r.d
        r.xs, r.gx = [r.xs[0]] * 2, [r.gx[0]] * 2
        r.X, r.GX = d.tensors_vec(r.xs), d.tensors_vec(r.gx)
        r.forward()
        if what == 'forward':
            a, n = d.arr(r.y)
            ctx.eq_arr('%s forward' % c.label, a, n, lambda i: scale(sel(c.x(), i), 2), r.where('forward'), **kw(c))
        else:
            r.backward()
            a, n = d.arr(r.gx[0])
            ctx.eq_arr('%s backward' % c.label, a, n, lambda i: add(sel(avar('gx0', n), i), scale(sel(avar('gy', n), i), 2)),
                       r.where('backward'), **kw(c))
        ctx.no_throw('%s %s is accepted' % (c.label, what), d, r.where(what), **kw(c))


def order_free(ctx, cases):
    """backward before updateGradients, and both repeated: same parameter gradients, input gradient added once per call"""
    for c in cases:
        with ctx.section(c.label + ' other order'):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            r.forward()
            r.backward()
            r.update()
            r.backward()
            r.update()
            gy = avar('gy', prod(c.out))
            for k, g in enumerate(r.gx):
                a, n = r.d.arr(g)
                g0 = avar('gx%d' % k, n)
                ctx.eq_arr('%s input gradient %d after two passes' % (c.label, k), a, n,
                           lambda i: add(sel(g0, i), c.bwd(k, i, gy), c.bwd(k, i, gy)), r.where('backward'), **kw(c, ns=3))
            for p in c.params:
                if c.pg(p, ZERO, gy) is None:
                    continue
                a, n = r.d.arr(r.d.pgrad(r.op, p))
                ctx.eq_arr('%s gradient of %s after two passes' % (c.label, p), a, n, lambda i: c.pg(p, i, gy), r.where('updateGradients'), **kw(c, ns=3))


@prop('C20', RULE)
def c20(ctx):
    forwards(ctx, [Conv()], ns=24)


@prop('C21', RULE)
def c21(ctx):
    backwards(ctx, [Conv()], ns=16)
    order_free(ctx, [Conv()])


DISTINCT = [('x0', lambda q, i: q.uniform(-2, 2))]
UP = [('x0', lambda q, i: .01 * i)]
NEG = [('x0', lambda q, i: q.uniform(-3, -.1))]


@prop('C22', RULE)
def c22(ctx):
    forwards(ctx, [Pool()], ns=16, arrgens=DISTINCT)
    forwards(ctx, [Pool(label='negative pixels')], ns=10, arrgens=NEG)
    # windows of more than 256 pixels, as in global pooling
    big = dict(N=1, C=1, H=17, W=16, kh=17, kw=16, ph=0, pw=0, sh=1, sw=1)
    forwards(ctx, [Pool(label='large window')], ns=2, arrgens=UP, fixed=big)
    ctx.maxsteps = 12000000
    backwards(ctx, [Pool(label='large window')], ns=1, arrgens=UP, fixed=big)
    ctx.maxsteps = 3000000
    backwards(ctx, [Pool()], ns=12, arrgens=DISTINCT)
    backwards(ctx, [Pool(label='negative pixels')], ns=8, arrgens=NEG)


def bn_eval(r):
    r.train(FALSE)


@prop('C23', RULE)
def c23(ctx):
    for c in (BN(2), BN(4)):
        with ctx.section(c.label):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            r.forward()
            a, n = r.d.arr(r.y)
            ctx.eq_arr('%s training output' % c.label, a, n, c.fwd, r.where('forward'), **kw(c))
            for b in r.bnames:
                a, n = r.d.arr(r.d.buffer(r.op, b))
                ctx.eq_arr('%s %s after a training step' % (c.label, b), a, n, lambda i: c.running(b, i), r.where('forward'), **kw(c))
            ctx.no_throw('%s training accepts valid input' % c.label, r.d, r.where('forward'), **kw(c))
        with ctx.section(c.label + ' evaluation'):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            r.train(FALSE)
            r.forward()
            a, n = r.d.arr(r.y)
            ctx.eq_arr('%s evaluation output' % c.label, a, n, lambda i: c.fwd(i, False), r.where('forward'), **kw(c))
            for b in r.bnames:
                a, n = r.d.arr(r.d.buffer(r.op, b))
                ctx.eq_arr('%s %s unchanged in evaluation' % (c.label, b), a, n, lambda i: sel(avar(b, n), i), r.where('forward'), **kw(c))
            ctx.no_throw('%s evaluation accepts valid input' % c.label, r.d, r.where('forward'), **kw(c))
        with ctx.section(c.label + ' train, evaluate, train'):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            r.forward()
            r.train(FALSE)
            r.forward()
            a, n = r.d.arr(r.y)
            m1 = {b: r.d.arr(r.d.buffer(r.op, b))[0] for b in r.bnames}

            def ev(i):
                ch = c.chan(i)
                return add(mul(sub(sel(c.x(), i), c.running('running_mean', ch)),
                               div(sel(avar('gamma', c.C), ch), sqrt(add(c.running('running_var', ch), EPS)))), sel(avar('beta', c.C), ch))
            ctx.eq_arr('%s evaluation after training uses the running statistics' % c.label, a, n, ev, r.where('forward'), **kw(c))
            r.train(TRUE)
            r.forward()
            a, n = r.d.arr(r.y)
            ctx.eq_arr('%s training after evaluation' % c.label, a, n, c.fwd, r.where('forward'), **kw(c))


@prop('C24', RULE)
def c24(ctx):
    backwards(ctx, [BN(2), BN(4)], ns=8)
    order_free(ctx, [BN(2), BN(4)])


@prop('C25', RULE)
def c25(ctx):
    from p_build import uniform_range, DRAW
    for c in (Dropout(R2, 'rank 2'), Dropout(R4, 'rank 4')):
        with ctx.section(c.label):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            d = r.d
            r.forward()
            wh = r.where('forward')
            k = kw(c, arrgens=DRAW)
            m, n = d.arr(d.pdata(r.op, 'mask'))
            k0 = {a: b for a, b in k.items() if a != 'arrgens'}
            uniform_range(ctx, '%s mask is drawn uniformly from [0,1)' % c.label, m, n, ZERO, ONE, wh, **k0)
            y, _ = d.arr(r.y)
            keep = lambda i: ge(sel(m, i), P_)
            ctx.eq_arr('%s training output' % c.label, y, n, lambda i: ite(keep(i), div(sel(c.x(), i), sub(ONE, P_)), ZERO), wh, **k)
            # draws equal to p are kept (only draws below p are dropped)
            r.backward()
            g, _ = d.arr(r.gx[0])
            gy, g0 = avar('gy', n), avar('gx0', n)
            wb = r.where('backward')
            ctx.eq_arr('%s backward multiplies by the factor of the forward pass' % c.label, g, n,
                       lambda i: add(sel(g0, i), ite(keep(i), div(sel(gy, i), sub(ONE, P_)), ZERO)), wb,
                       alt=('gradient of kept elements is passed on without the 1/(1-p) factor',
                            lambda i: add(sel(g0, i), ite(keep(i), sel(gy, i), ZERO))), **k)
            m1, _ = d.arr(d.pdata(r.op, 'mask'))
            ctx.eq_arr('%s backward leaves the mask' % c.label, m1, n, lambda i: sel(m, i), wb, **k)
            ctx.no_throw('%s accepts valid input' % c.label, d, wh, **k)
            r.forward()
            m2, _ = d.arr(d.pdata(r.op, 'mask'))
            i, j = index_var('i'), index_var('j')
            RANGES[i], RANGES[j] = n, n
            clash = any_(i, n, any_(j, n, T.eq(sel(m, i), sel(m2, j))))
            ctx.holds('%s draws a fresh mask in every training pass' % c.label, not_(clash), wh, **k)
            y2, _ = d.arr(r.y)
            ctx.eq_arr('%s second training output uses the second mask' % c.label, y2, n,
                       lambda i: ite(ge(sel(m2, i), P_), div(sel(c.x(), i), sub(ONE, P_)), ZERO), wh, **k)
        with ctx.section(c.label + ' evaluation'):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            r.train(FALSE)
            r.forward()
            y, n = r.d.arr(r.y)
            ctx.eq_arr('%s evaluation output equals the input' % c.label, y, n, lambda i: sel(c.x(), i), r.where('forward'), **kw(c))
            m, n = r.d.arr(r.d.pdata(r.op, 'mask'))
            ctx.eq_arr('%s evaluation leaves the mask' % c.label, m, n, lambda i: sel(avar('mask', n), i), r.where('forward'), **kw(c))
            ctx.no_throw('%s evaluation accepts valid input' % c.label, r.d, r.where('forward'), **kw(c))
        with ctx.section(c.label + ' boundary'):
            # the mask equals p exactly: kept
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            d = r.d
            base, off = d.data(d.pdata(r.op, 'mask'))
            v = d.I.val(d.st, base)
            d.I.store(d.st, base, Vec(v.n, afill(P_), v.et))
            r.backward()
            g, n = d.arr(r.gx[0])
            gy, g0 = avar('gy', n), avar('gx0', n)
            ctx.eq_arr('%s backward keeps elements whose draw equals p' % c.label, g, n,
                       lambda i: add(sel(g0, i), div(sel(gy, i), sub(ONE, P_))), r.where('backward'),
                       alt=('gradient of kept elements is passed on without the 1/(1-p) factor', lambda i: add(sel(g0, i), sel(gy, i))), **kw(c))


UT = 'deepworks::utils::'


@prop('C30', 'NCHW2NHWC and NHWC2NCHW are summarised for symbolic extents and compared with the index permutation; their composition must be the identity')
def c30(ctx):
    nchw, nhwc = [N, C, H, W], [N, H, W, C]
    for fn, src, dst, perm in (('NCHW2NHWC', nchw, nhwc, lambda q: [q[0], q[3], q[1], q[2]]), ('NHWC2NCHW', nhwc, nchw, lambda q: [q[0], q[2], q[3], q[1]])):
        wh = ctx.where(UT + fn)
        with ctx.section(fn):
            d = ctx.drv()
            a, b = d.tensor('a', src), d.tensor('b', dst)
            d.I.log_access = True
            d.call(UT + fn, [a, b])
            d.I.log_access = False
            y, n = d.arr(b)
            ctx.eq_arr(fn + ' moves every element to its place', y, n, lambda i: at(avar('a', n), perm(unflat(i, dst)), src), wh, gens=SMALL, ns=12)
            x, n = d.arr(a)
            ctx.eq_arr(fn + ' leaves its input', x, n, lambda i: sel(avar('a', n), i), wh, gens=SMALL)
            from access import bounds
            bounds(ctx, fn + ' accesses', d.I.log, wh, gens=SMALL)
            ctx.no_throw(fn + ' does not throw', d, wh, gens=SMALL)
    for f1, f2, src, mid in (('NCHW2NHWC', 'NHWC2NCHW', nchw, nhwc), ('NHWC2NCHW', 'NCHW2NHWC', nhwc, nchw)):
        with ctx.section('%s then %s' % (f1, f2)):
            d = ctx.drv()
            a, b, c = d.tensor('a', src), d.tensor('b', mid), d.tensor('c', src)
            d.call(UT + f1, [a, b])
            d.call(UT + f2, [b, c])
            y, n = d.arr(c)
            ctx.eq_arr('%s then %s is the identity' % (f1, f2), y, n, lambda i: sel(avar('a', n), i), ctx.where(UT + f2), gens=SMALL, ns=12)
