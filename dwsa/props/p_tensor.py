from layers import *
from p_build import uniform_range, xavier_width, shape_eq, prod

TN = 'deepworks::Tensor'
R1 = 'tensor construction and allocation are summarised for ranks 0..6 with symbolic extents and every field compared with the dense row-major layout'
R2 = 'copyTo and reshape are summarised for symbolic extents, contents and view offsets; normal and exceptional exits are compared with the required state'
R3 = 'each initialiser is summarised on owning tensors and on views into a larger buffer; the written values and the untouched rest are compared'

DIMS = [var(x, True, 0) for x in ('d0', 'd1', 'd2', 'd3', 'd4', 'd5')]
ANY = [var('x%d' % k, True) for k in range(6)]
POS = [var('e%d' % k, True, 1) for k in range(6)]
GD = {('d%d' % k): (lambda r: r.choice([0, 1, 2, 3, 4])) for k in range(6)}
GX = {('x%d' % k): (lambda r: r.choice([-2, -1, 0, 1, 2, 2, 3, 3])) for k in range(6)}
GE = {('e%d' % k): (lambda r: r.randint(1, 4)) for k in range(6)}


def gens(*gs, **kw):
    g = {}
    for x in gs:
        g.update(x)
    g.update(kw)
    return g


ALL = gens(GD, GX, GE)


def strides(d, t):
    v = d.I.val(d.st, d.call(TN + '::strides', [], t))
    if not isinstance(v, Vec) or not isinstance(v.d, tuple):
        raise unsup('strides', v)
    return [d.I.num(d.st, x) for x in v.d]


def geometry(ctx, nm, d, t, dims, wh, own=True, **k):
    shape_eq(ctx, nm + ': shape', d.dims(t), dims, wh, **k)
    shape_eq(ctx, nm + ': strides', strides(d, t), [prod(dims[j + 1:]) for j in range(len(dims))], wh, **k)
    tot = d.total(t)
    ctx.eq(nm + ': element count', tot, prod(dims), wh, **k)
    ctx.eq(nm + ': empty exactly without elements', tonum(d.I.bool(d.st, d.call(TN + '::empty', [], t), d.fr, 0)), tonum(T.eq(prod(dims), ZERO)), wh, **k)
    if own:
        b, off = d.data(t)
        v = d.I.val(d.st, b)
        ctx.holds(nm + ': owns room for every element', le(add(off, prod(dims)), v.n), wh, **k)


def snapshot(d, t):
    p = d.I.val(d.st, d.call(TN + '::data', [], t))
    return d.dims(t), strides(d, t), d.total(t), p


def same(ctx, nm, a, b, wh, cond, **k):
    """two snapshots agree whenever cond holds"""
    if len(a[0]) != len(b[0]) or len(a[1]) != len(b[1]):
        ctx.violation(nm, wh, dict(reason='rank changed'))
        return
    cs = [T.eq(x, y) for x, y in zip(list(a[0]) + list(a[1]) + [a[2]], list(b[0]) + list(b[1]) + [b[2]])]
    ctx.holds(nm, or_(not_(cond), and_(*cs)), wh, **k)
    pa, pb = a[3], b[3]
    if isinstance(pa, Ptr) and isinstance(pb, Ptr):
        ctx.rule(nm + ' (storage)', pa.base == pb.base and pa.off is pb.off, wh, 'storage replaced')


def exits(d, mark):
    """exceptional exits recorded since mark"""
    return [s for s, x in d.I.thr[mark:]]


def attempt(d, f):
    """run f; returns (completed?, exceptional states)"""
    mark = len(d.I.thr)
    try:
        f()
        return True, exits(d, mark)
    except Dead:
        return False, exits(d, mark)


def at(d, s, f):
    o, d.st = d.st, s
    try:
        return f()
    finally:
        d.st = o


def view(d, t, off, dims):
    b, o = d.data(t)
    return d.new(TN, [d.cell(d.shape(dims)), Ptr(b, add(o, off))], 2)


@prop('C01', R1)
def c01(ctx):
    wi, wa = ctx.where(TN + '::init'), ctx.where(TN + '::allocate')
    with ctx.section('default tensor', wi):
        d = ctx.drv()
        t = d.new(TN, [])
        shape_eq(ctx, 'default tensor: shape', d.dims(t), [], wi)
        ctx.eq('default tensor: element count', d.total(t), ZERO, wi)
        ctx.eq('default tensor: empty', tonum(d.I.bool(d.st, d.call(TN + '::empty', [], t), d.fr, 0)), ONE, wi)
    for r in range(0, 7):
        dims = DIMS[:r]
        with ctx.section('construct rank %d' % r, wi):
            d = ctx.drv()
            t = d.new(TN, [d.cell(d.shape(dims))], 1, ['vector<int'])
            geometry(ctx, 'constructed, rank %d' % r, d, t, dims, wi, gens=ALL)
            ctx.no_throw('constructed, rank %d: accepted' % r, d, wi, gens=ALL)
            if r >= 2:
                nar = [e for e in d.I.log if e.kind == 'imul']
                ctx.rule('constructed, rank %d: the element count is not formed in 32-bit arithmetic' % r, not nar,
                         '%s:%s %s' % (nar[0].file.replace('/repo/', ''), nar[0].line, nar[0].fn) if nar else wi,
                         'product of extents in int', how='no int-typed product of two symbolic extents on the path')
        with ctx.section('view rank %d' % r, wi):
            d = ctx.drv()
            big = d.tensor('big', [var('n', True, 1)])
            b, o = d.data(big)
            t = view(d, big, var('o', True, 0), dims)
            geometry(ctx, 'view, rank %d' % r, d, t, dims, wi, own=False, gens=ALL)
            b2, o2 = d.data(t)
            ctx.rule('view, rank %d: refers to the given memory' % r, b2 == b and o2 is var('o', True, 0), wi, 'other memory')
        with ctx.section('reallocate rank %d' % r, wa):
            d = ctx.drv()
            t = d.tensor('old', POS[:2])
            d.call(TN + '::allocate', [d.cell(d.shape(dims))], t)
            geometry(ctx, 'reallocated, rank %d' % r, d, t, dims, wa, gens=ALL)
        if r == 0:
            continue
        anyd = ANY[:r]
        negative = or_(*[lt(x, ZERO) for x in anyd])
        with ctx.section('negative extents rank %d' % r, wi):
            d = ctx.drv()
            done, ex = attempt(d, lambda: d.new(TN, [d.cell(d.shape(anyd))], 1, ['vector<int']))
            ctx.throws_iff('construction, rank %d: refused exactly for negative extents' % r, d, negative, wi, gens=ALL, n=24)
            d = ctx.drv()
            big = d.tensor('big', [var('n', True, 1)])
            attempt(d, lambda: view(d, big, ZERO, anyd))
            ctx.throws_iff('view, rank %d: refused exactly for negative extents' % r, d, negative, wi, gens=ALL, n=24)
        with ctx.section('refused allocation rank %d' % r, wa):
            d = ctx.drv()
            t = d.tensor('old', POS[:2])
            before = snapshot(d, t)
            done, ex = attempt(d, lambda: d.call(TN + '::allocate', [d.cell(d.shape(anyd))], t))
            ctx.throws_iff('allocate, rank %d: refused exactly for negative extents' % r, d, negative, wa, gens=ALL, n=24)
            for s in ex:
                after = at(d, s, lambda: snapshot(d, t))
                same(ctx, 'allocate, rank %d: a refused tensor is as it was' % r, before, after, wa, and_(*s.pc), gens=ALL, n=24)


@prop('C02', R2)
def c02(ctx):
    wc, wr = ctx.where(TN + '::copyTo'), ctx.where(TN + '::reshape')
    for r in range(1, 6):
        dims = POS[:r]
        with ctx.section('copy rank %d' % r, wc):
            d = ctx.drv()
            a, b = d.tensor('a', dims), d.tensor('b', dims)
            d.call(TN + '::copyTo', [b], a)
            x, n = d.arr(b)
            src = avar('a', d.arr(a)[1])
            ctx.eq_arr('copy, rank %d: destination equals source' % r, x, prod(dims), lambda i: sel(src, i), wc, gens=ALL, length=n)
            x, n = d.arr(a)
            ctx.eq_arr('copy, rank %d: source unchanged' % r, x, n, lambda i: sel(src, i), wc, gens=ALL)
            geometry(ctx, 'copy, rank %d: destination' % r, d, b, dims, wc, gens=ALL)
            ctx.no_throw('copy, rank %d: accepted' % r, d, wc, gens=ALL)
            ctx.rule('copy, rank %d: storage stays separate' % r, d.data(a)[0] != d.data(b)[0], wc, 'destination shares the memory of the source')
        with ctx.section('copy into a view rank %d' % r, wc):
            d = ctx.drv()
            big = d.tensor('big', [var('n', True, 1)])
            o = var('o', True, 0)
            assume_nonneg(sub(sub(var('n', True, 1), o), prod(dims)))
            v = view(d, big, o, dims)
            a = d.tensor('a', dims)
            d.call(TN + '::copyTo', [v], a)
            base, off = d.data(big)
            arr = as_array(d.I.val(d.st, base))
            src, old = avar('a', d.arr(a)[1]), avar('big', var('n', True, 1))
            P = prod(dims)
            ctx.eq_arr('copy into a view, rank %d: exactly the view is written' % r, arr, var('n', True, 1),
                       lambda i: ite(and_(le(o, i), lt(i, add(o, P))), sel(src, sub(i, o)), sel(old, i)), wc,
                       gens=gens(ALL, o=lambda q: q.randint(0, 3), n=lambda q: q.randint(1, 40)), assume=(le(add(o, P), var('n', True, 1)),))
        with ctx.section('copy between layouts rank %d' % r, wc):
            d = ctx.drv()
            other = [var('y%d' % k, True, 0) for k in range(r)]
            a, b = d.tensor('a', dims), d.tensor('b', other)
            nb = d.arr(b)[1]
            done, ex = attempt(d, lambda: d.call(TN + '::copyTo', [b], a))
            differs = or_(*[T.ne(x, y) for x, y in zip(dims, other)])
            g = gens(ALL, **{('y%d' % k): (lambda q: q.choice([0, 1, 1, 2, 2, 3])) for k in range(r)})
            g.update({('e%d' % k): (lambda q: q.choice([1, 1, 2, 2, 3])) for k in range(r)})
            ctx.throws_iff('copy, rank %d: refused exactly when the layouts differ' % r, d, differs, wc, gens=g, n=40)
            for s in ex:
                x = at(d, s, lambda: d.arr(b))
                ctx.eq_arr('copy, rank %d: nothing written when refused' % r, x[0], nb, lambda i: sel(avar('b', nb), i), wc, gens=g, assume=tuple(s.pc))
        for q in range(0, 6):
            if q == r:
                continue
            with ctx.section('copy rank %d to %d' % (r, q), wc):
                d = ctx.drv()
                a, b = d.tensor('a', dims), d.tensor('b', DIMS[:q]) if q else d.new(TN, [])
                done, ex = attempt(d, lambda: d.call(TN + '::copyTo', [b], a))
                c = or_(*[and_(*s.pc) for s in ex]) if ex else FALSE
                ctx.holds('copy from rank %d to rank %d is refused' % (r, q), c, wc, gens=ALL)
    with ctx.section('copy of unallocated', wc):
        d = ctx.drv()
        a, b = d.new(TN, []), d.new(TN, [])
        done, ex = attempt(d, lambda: d.call(TN + '::copyTo', [b], a))
        ctx.rule('copy into an unallocated tensor is refused', not done, wc, 'returns normally')
    with ctx.section('copy of empty', wc):
        d = ctx.drv()
        a, b = d.tensor('a', [ZERO, POS[0]]), d.tensor('b', [ZERO, POS[0]])
        done, ex = attempt(d, lambda: d.call(TN + '::copyTo', [b], a))
        ctx.rule('copy into a tensor without elements is refused', not done, wc, 'returns normally')
    for r in range(1, 5):
        for q in range(0, 6):
            with ctx.section('reshape rank %d to %d' % (r, q), wr):
                d = ctx.drv()
                dims, new = POS[:r], ANY[:q]
                t = d.tensor('a', dims)
                before = snapshot(d, t)
                done, ex = attempt(d, lambda: d.call(TN + '::reshape', [d.cell(d.shape(new))], t))
                bad = or_(not_(T.eq(prod(new), prod(dims))), *[lt(x, ZERO) for x in new])
                # extents for which both outcomes are exercised
                g = gens(GE, {('x%d' % k): (lambda z: z.choice([-2, -1, 1, 1, 2, 2, 3, 4, 6])) for k in range(6)})
                g.update({('e%d' % k): (lambda z: z.choice([1, 1, 2, 2, 3])) for k in range(6)})
                nm = 'reshape, rank %d to %d' % (r, q)
                ctx.throws_iff(nm + ': refused exactly for another element count or negative extents', d, bad, wr, gens=g, n=120)
                for s in ex:
                    same(ctx, nm + ': a refused tensor is as it was', before, at(d, s, lambda: snapshot(d, t)), wr, and_(*s.pc), gens=g)
                if done:
                    acc = not_(bad)
                    shape_eq(ctx, nm + ': shape', d.dims(t), new, wr, gens=g, assume=(acc,))
                    shape_eq(ctx, nm + ': strides', strides(d, t), [prod(new[j + 1:]) for j in range(q)], wr, gens=g, assume=(acc,))
                    ctx.eq(nm + ': element count', d.total(t), prod(dims), wr, gens=g, assume=(acc,))
                    p = d.I.val(d.st, d.call(TN + '::data', [], t))
                    ctx.rule(nm + ': storage kept', isinstance(p, Ptr) and p.base == before[3].base and p.off is before[3].off, wr, 'storage replaced')
                    x, n = d.arr(t)
                    ctx.eq_arr(nm + ': values kept', x, n, lambda i: sel(avar('a', n), i), wr, gens=g, assume=(acc,))


@prop('C03', R3)
def c03(ctx):
    lo, val = var('lo'), var('val')
    hi = add(lo, var('span'))
    G = gens(ALL, lo=lambda r: r.uniform(-6, 6), span=lambda r: r.uniform(.5, 8))
    IN_ = 'deepworks::initializer::'
    o, n = var('o', True, 0), var('n', True, 1)
    inits = {'zeros': [], 'constant': [val], 'uniform': [lo, hi], 'xavierUniform': []}
    for k, args in inits.items():
        w = ctx.where(IN_ + k)
        for r in range(1, 6):
            dims = POS[:r]
            P = prod(dims)
            with ctx.section('%s rank %d' % (k, r), w):
                d = ctx.drv()
                t = d.tensor('t', dims)
                d.call(IN_ + k, [t] + args)
                fill(ctx, '%s, rank %d' % (k, r), k, d.arr(t)[0], P, dims, w, lo, hi, val, G)
                geometry(ctx, '%s, rank %d: tensor' % (k, r), d, t, dims, w, gens=G)
                ctx.no_throw('%s, rank %d: accepted' % (k, r), d, w, gens=G)
            with ctx.section('%s on a view rank %d' % (k, r), w):
                d = ctx.drv()
                big = d.tensor('big', [n])
                assume_nonneg(sub(sub(n, o), P))
                v = view(d, big, o, dims)
                d.call(IN_ + k, [v] + args)
                base, off = d.data(big)
                arr = as_array(d.I.val(d.st, base))
                old = avar('big', n)
                g = gens(G, o=lambda q: q.randint(0, 3), n=lambda q: q.randint(1, 40))
                As = (le(add(o, P), n),)
                ctx.eq_arr('%s on a view, rank %d: nothing outside is written' % (k, r), arr, n,
                           lambda i: ite(and_(le(o, i), lt(i, add(o, P))), sel(arr, i), sel(old, i)), w, gens=g, assume=As)
                i = index_var('i')
                RANGES[i] = P
                va = T.upd(T.afill(ZERO), ((i, P),), i, sel(arr, add(i, o)))
                fill(ctx, '%s on a view, rank %d' % (k, r), k, va, P, dims, w, lo, hi, val, g, As)
    for k, args in inits.items():
        w = ctx.where(TN + '::' + k)
        for r in range(1, 6):
            dims = POS[:r]
            with ctx.section('factory %s rank %d' % (k, r), w):
                d = ctx.drv()
                t = d.I.as_loc(d.st, d.call(TN + '::' + k, [d.cell(d.shape(dims))] + args))
                geometry(ctx, 'factory %s, rank %d' % (k, r), d, t, dims, w, gens=G)
                fill(ctx, 'factory %s, rank %d' % (k, r), k, d.arr(t)[0], prod(dims), dims, w, lo, hi, val, G)
    for q in (IN_ + 'uniform', TN + '::uniform'):
        with ctx.section('default interval of ' + q):
            f = [x for x in ctx.p.byname.get(q, []) if len(x['params']) == 3]
            if f:
                ds = [p.get('def') for p in f[0]['params'][1:]]
                d = ctx.drv()
                for want, e, nm in zip((ZERO, ONE), ds, ('lower', 'upper')):
                    if e is None:
                        ctx.undecided('%s: default %s bound' % (q, nm), 'no default argument visible')
                    else:
                        ctx.eq('%s: default %s bound' % (q, nm), d.I.num(d.st, d.I.ev(e, d.st, d.fr)), want, ctx.where(q))


def fill(ctx, nm, kind, arr, n, dims, w, lo, hi, val, g, As=()):
    if kind == 'zeros':
        ctx.eq_arr(nm + ': every element is zero', arr, n, lambda i: ZERO, w, gens=g, assume=As)
    elif kind == 'constant':
        ctx.eq_arr(nm + ': every element is the constant', arr, n, lambda i: val, w, gens=g, assume=As)
    elif kind == 'uniform':
        uniform_range(ctx, nm + ': drawn from the interval', arr, n, lo, hi, w, gens=g, assume=As)
    else:
        h = xavier_width(dims)
        uniform_range(ctx, nm + ': drawn from the Xavier interval', arr, n, neg(h), h, w, gens=g, assume=As)
