from layers import *
from p_build import shape_eq, prod, DRAW
from p_tensor import attempt, at, exits, TN

DL = 'deepworks::DataLoader'
R4 = ('DataLoader::pull is summarised against an opaque dataset (symbolic size, shapes and contents) over sequences of calls; the returned flag and both '
      'batches are compared with a reference cursor')
R5 = ('every request a pull makes to the dataset is recorded with its index, its two views and their position in the batch; indices must lie in the '
      'dataset, be pairwise distinct and views must tile the batch; wrong batch tensors must be refused before any write')

DS, B = var('ds', True, 0), var('B', True, 1)
XS, YS = [var('xh', True, 1), var('xw', True, 1)], [var('yn', True, 1)]
GEN = dict(ds=lambda r: r.randint(0, 9), B=lambda r: r.choice([1, 1, 2, 2, 3, 4]), xh=lambda r: r.randint(1, 3), xw=lambda r: r.randint(1, 2), yn=lambda r: r.randint(1, 2), ym=lambda r: r.randint(1, 3), yl=lambda r: r.randint(1, 2))
PX, PY = prod(XS), prod(YS)


BIG = const(1000)


class Data:
    """opaque dataset: element j of sample s is sx(s, j) / sy(s, j)"""

    def __init__(self, d, xs=XS, ys=YS, size=DS, reveal=False):
        self.reveal = reveal        # elements spell out the sample index: s*BIG + j
        self.d, self.xs, self.ys, self.size, self.views = d, xs, ys, size, []
        self.cell = d.cell(Opq('model', self), 'dataset')

    def __call__(self, I, e, st, fr, this, a):
        n = e['n']
        if n == 'size':
            return self.size
        if n == 'shape':
            return Struct('std::pair', {'first': self.d.shape(self.xs), 'second': self.d.shape(self.ys)})
        if n == 'pull':
            s = I.num(st, I.val(st, a[0]))
            for t, f, want in ((a[1], 'sx', self.xs), (a[2], 'sy', self.ys)):
                o, self.d.st = self.d.st, st
                try:
                    t = I.as_loc(st, t)
                    dims = self.d.dims(t)
                    tot = self.d.total(t)
                    base, off = self.d.data(t)
                finally:
                    self.d.st = o
                self.views.append((f, dims, tot, want))
                j = index_var('j')
                RANGES[j] = tot
                val = add(mul(s, BIG), j) if self.reveal else T.uf(f, (s, j))
                v = I.val(st, base)
                I.store(st, base, Vec(v.n, T.upd(as_array(v), ((j, tot),), add(off, j), val), v.et))
            return None
        raise Unsupported('dataset method ' + n)


def loader(d, shuffle, ds=None):
    ds = ds or Data(d)
    return ds, d.new(DL, [Ptr(ds.cell), B, shuffle])


def dl_state(d, ds):
    return d.I.val(d.st, d.new(DL, [Ptr(ds.cell), B, FALSE]))


@prop('C04', R4)
def c04(ctx):
    w = ctx.where(DL + '::pull')
    steps = 5 if ctx.tier == 'quick' else 8
    with ctx.section('sequential', w):
        d = ctx.drv()
        ds, dl = loader(d, FALSE)
        X, Y = d.tensor('x0', [B] + XS), d.tensor('y0', [B] + YS)
        nx, ny = d.arr(X)[1], d.arr(Y)[1]
        ax, ay = avar('x0', nx), avar('y0', ny)
        cur = ZERO
        for s in range(steps):
            r = d.I.bool(d.st, d.call(DL + '::pull', [X, Y], dl), d.fr, 0)
            want = le(add(cur, B), DS)
            ctx.eq('call %d: batch delivered exactly when it is full' % (s + 1), tonum(r), tonum(want), w, gens=GEN, n=30)
            x, _ = d.arr(X)
            y, _ = d.arr(Y)
            i = index_var('i')
            for nm, got, n, P, f, old in (('data', x, nx, PX, 'sx', ax), ('labels', y, ny, PY, 'sy', ay)):
                ctx.eq_arr('call %d: %s' % (s + 1, nm), got, n,
                           lambda i: ite(want, T.uf(f, (add(cur, T.fn('floor', (div(i, P),))), sub(i, mul(P, T.fn('floor', (div(i, P),)))))), sel(old, i)),
                           w, gens=GEN, ns=20)
            ax, ay = x, y
            cur = ite(want, add(cur, B), ZERO)
        ctx.no_throw('matching batch tensors are accepted', d, w, gens=GEN)
    # any number of batches into the epoch: the position left by one delivery is generalised to k of them
    with ctx.section('any position', w):
        d = ctx.drv()
        d.st.assume(le(B, DS))
        ds, dl = loader(d, FALSE)
        X, Y = d.tensor('x0', [B] + XS), d.tensor('y0', [B] + YS)
        nx, ny = d.arr(X)[1], d.arr(Y)[1]
        d.call(DL + '::pull', [X, Y], dl)
        obj = d.I.val(d.st, dl)
        at_one = [k for k, v in obj.f.items() if isinstance(v, Term) and v is B and 'size' not in k.lower()]
        k = var('k', True, 0)
        pos = mul(k, B)
        fresh = dl_state(d, ds)
        same = {f for f, v in fresh.f.items() if obj.f[f] is v or f in at_one or not isinstance(v, Term)}
        if len(at_one) == 1 and same == set(fresh.f):
            d = ctx.drv()
            d.st.assume(le(pos, DS))
            ds, dl = loader(d, FALSE)
            X, Y = d.tensor('x0', [B] + XS), d.tensor('y0', [B] + YS)
            d.I.store(d.st, dl, d.I.val(d.st, dl).with_(at_one[0], pos))
            r = d.I.bool(d.st, d.call(DL + '::pull', [X, Y], dl), d.fr, 0)
            want = le(add(pos, B), DS)
            kw = dict(gens=dict(GEN, ds=lambda r: r.randint(0, 30), k=lambda r: r.randint(0, 12)), assume=(le(pos, DS),))
            ctx.eq('after any number of batches: delivered exactly when it is full', tonum(r), tonum(want), w, n=30, **kw)
            x, y = d.arr(X)[0], d.arr(Y)[0]
            for nm, got, n, P, f, old in (('data', x, nx, PX, 'sx', avar('x0', nx)), ('labels', y, ny, PY, 'sy', avar('y0', ny))):
                ctx.eq_arr('after any number of batches: ' + nm, got, n,
                           lambda i: ite(want, T.uf(f, (add(pos, T.fn('floor', (div(i, P),))), sub(i, mul(P, T.fn('floor', (div(i, P),)))))), sel(old, i)),
                           w, ns=20, **kw)
            obj = d.I.val(d.st, dl)
            ctx.eq('after any number of batches: the next one follows', obj.f[at_one[0]], add(pos, B), w, n=30, **dict(kw, assume=(want,)))
            for f, v in fresh.f.items():
                if isinstance(v, Term) and f not in at_one and v.sort in ('n', 'b'):
                    ctx.eq('after any number of batches: %s is unchanged' % f, tonum(obj.f[f]), tonum(v), w, n=10, **dict(kw, assume=(want,)))
    # a shuffled loader has epochs of the same length
    with ctx.section('shuffled epochs', w):
        d = ctx.drv()
        ds, dl = loader(d, TRUE)
        X, Y = d.tensor('x0', [B] + XS), d.tensor('y0', [B] + YS)
        cur = ZERO
        for s in range(steps):
            r = d.I.bool(d.st, d.call(DL + '::pull', [X, Y], dl), d.fr, 0)
            want = le(add(cur, B), DS)
            ctx.eq('shuffled, call %d: batch delivered exactly when the epoch has enough samples left' % (s + 1), tonum(r), tonum(want), w, gens=GEN, arrgens=DRAW, n=30)
            cur = ite(want, add(cur, B), ZERO)


def floordiv(i, P):
    return T.fn('floor', (div(i, P),))


def batch_checks(ctx, nm, d, ds, X, Y, w, xs, ys, shuffle):
    """delivered batch: every row is one in-range sample, the same for data and labels, rows distinct"""
    i, j, k = index_var('i'), index_var('j'), index_var('k')
    x, y = d.arr(X)[0], d.arr(Y)[0]
    PX, PY = prod(xs), prod(ys)
    RANGES[i] = RANGES[k] = B
    idx = lambda i: floordiv(sel(x, mul(i, PX)), BIG)
    kw = dict(gens=GEN, arrgens=DRAW, assume=(le(B, DS),), n=24)
    RANGES[j] = PX
    ctx.holds(nm + ': sample indices lie inside the dataset', not_(any_(i, B, or_(lt(idx(i), ZERO), le(DS, idx(i))))), w, **kw)
    ctx.holds(nm + ': samples within a batch are pairwise distinct',
              not_(any_(i, B, any_(k, B, and_(lt(i, k), T.eq(idx(i), idx(k)))))), w, **kw)
    kw['ns'] = kw.pop('n')
    ctx.eq_arr(nm + ': data row i is exactly one sample', x, mul(B, PX),
               lambda e: add(mul(idx(floordiv(e, PX)), BIG), sub(e, mul(PX, floordiv(e, PX)))), w, **kw)
    ctx.eq_arr(nm + ': label row i belongs to the sample of data row i', y, mul(B, PY),
               lambda e: add(mul(idx(floordiv(e, PY)), BIG), sub(e, mul(PY, floordiv(e, PY)))), w, **kw)
    for n_, (f, dims, tot, want) in enumerate(ds.views):
        shape_eq(ctx, '%s: view %d given to the dataset has the %s shape' % (nm, n_, 'sample' if f == 'sx' else 'label'), dims, want, w, gens=GEN)


@prop('C05', R5)
def c05(ctx):
    w = ctx.where(DL + '::pull')
    e = [var('xh', True, 1), var('xw', True, 1), var('xc', True, 1)]
    for xs, ys in ((e[:2], YS), (e[:1], []), (e, YS), ([], []), (e[:2], [YS[0], var('ym', True, 1)]), (e[:1], [YS[0], var('ym', True, 1), var('yl', True, 1)])):
        for sh in (TRUE, FALSE):
            nm = '%s, sample rank %d, label rank %d' % ('shuffled' if sh is TRUE else 'sequential', len(xs), len(ys))
            with ctx.section(nm, w):
                d = ctx.drv()
                ds = Data(d, xs, ys, reveal=True)
                d.st.assume(le(B, DS))
                _, dl = loader(d, sh, ds)
                X, Y = d.tensor('x0', [B] + xs), d.tensor('y0', [B] + ys)
                r = d.I.bool(d.st, d.call(DL + '::pull', [X, Y], dl), d.fr, 0)
                ctx.eq(nm + ': delivered', tonum(r), ONE, w, gens=GEN, assume=(le(B, DS),))
                batch_checks(ctx, nm, d, ds, X, Y, w, xs, ys, sh)
                ctx.no_throw(nm + ': accepted', d, w, gens=GEN, assume=(le(B, DS),))
            with ctx.section(nm + ', unallocated', w):
                d = ctx.drv()
                ds = Data(d, xs, ys, reveal=True)
                d.st.assume(le(B, DS))
                _, dl = loader(d, sh, ds)
                X, Y = d.new(TN, []), d.new(TN, [])
                r = d.I.bool(d.st, d.call(DL + '::pull', [X, Y], dl), d.fr, 0)
                shape_eq(ctx, nm + ', unallocated: data batch shape', d.dims(X), [B] + xs, w, gens=GEN)
                shape_eq(ctx, nm + ', unallocated: label batch shape', d.dims(Y), [B] + ys, w, gens=GEN)
                batch_checks(ctx, nm + ', unallocated', d, ds, X, Y, w, xs, ys, sh)
                ctx.no_throw(nm + ', unallocated: accepted', d, w, gens=GEN, assume=(le(B, DS),))
    for sh in (TRUE, FALSE):
        for which in ('data', 'label'):
            nm = '%s, only the %s batch unallocated' % ('shuffled' if sh is TRUE else 'sequential', which)
            with ctx.section(nm, w):
                d = ctx.drv()
                ds = Data(d, XS, YS, reveal=True)
                d.st.assume(le(B, DS))
                _, dl = loader(d, sh, ds)
                X = d.new(TN, []) if which == 'data' else d.tensor('x0', [B] + XS)
                Y = d.new(TN, []) if which == 'label' else d.tensor('y0', [B] + YS)
                kept = Y if which == 'data' else X
                before = d.data(kept)
                r = d.I.bool(d.st, d.call(DL + '::pull', [X, Y], dl), d.fr, 0)
                ctx.eq(nm + ': delivered', tonum(r), ONE, w, gens=GEN, assume=(le(B, DS),))
                ctx.rule(nm + ': the allocated batch keeps its memory', str(d.data(kept)) == str(before), w, 'a batch tensor that has the right shape is filled in place')
                shape_eq(ctx, nm + ': data batch shape', d.dims(X), [B] + XS, w, gens=GEN)
                shape_eq(ctx, nm + ': label batch shape', d.dims(Y), [B] + YS, w, gens=GEN)
                batch_checks(ctx, nm, d, ds, X, Y, w, XS, YS, sh)
                ctx.no_throw(nm + ': accepted', d, w, gens=GEN, assume=(le(B, DS),))
    with ctx.section('second shuffled batch', w):
        d = ctx.drv()
        ds = Data(d, reveal=True)
        d.st.assume(le(scale(B, 2), DS))
        _, dl = loader(d, TRUE, ds)
        X, Y = d.tensor('x0', [B] + XS), d.tensor('y0', [B] + YS)
        for q in range(2):
            r = d.I.bool(d.st, d.call(DL + '::pull', [X, Y], dl), d.fr, 0)
        GEN2 = dict(GEN, ds=lambda r: r.randint(4, 9), B=lambda r: r.randint(1, 2))
        batch_checks(ctx, 'second shuffled batch', d, ds, X, Y, w, XS, YS, TRUE)
    # wrong batch tensors
    for bad in ('data', 'labels'):
        for r in (1, 2, 3, 4):
            for sh in (TRUE, FALSE):
                nm = 'wrong %s tensor of rank %d, %s' % (bad, r, 'shuffled' if sh is TRUE else 'sequential')
                with ctx.section(nm, w):
                    d = ctx.drv()
                    ds, dl = loader(d, sh)
                    q = [var('q%d' % k, True, 1) for k in range(r)]
                    right = [B] + (XS if bad == 'data' else YS)
                    bx, by = (q, [B] + YS) if bad == 'data' else ([B] + XS, q)
                    X, Y = d.tensor('x0', bx), d.tensor('y0', by)
                    nx, ny = d.arr(X)[1], d.arr(Y)[1]
                    done, ex = attempt(d, lambda: d.call(DL + '::pull', [X, Y], dl))
                    wrong = TRUE if len(right) != r else or_(*[T.ne(a, b) for a, b in zip(q, right)])
                    g = dict(GEN, **{('q%d' % k): (lambda z: z.randint(1, 3)) for k in range(r)})
                    ctx.throws_iff(nm + ': refused exactly when the shape differs', d, wrong, w, gens=g, n=60)
                    for s in ex:
                        x, y = at(d, s, lambda: (d.arr(X)[0], d.arr(Y)[0]))
                        ctx.eq_arr(nm + ': data untouched', x, nx, lambda i: sel(avar('x0', nx), i), w, gens=g, assume=tuple(s.pc), ns=12)
                        ctx.eq_arr(nm + ': labels untouched', y, ny, lambda i: sel(avar('y0', ny), i), w, gens=g, assume=tuple(s.pc), ns=12)
