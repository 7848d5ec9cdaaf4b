from layers import *
from access import *
from p_layers import kw, DISTINCT

R26 = 'after each pass of every layer the arrays that the pass must not touch are compared with their contents before it'
R27 = ('the same layer object is run on inputs of changed sizes (larger, smaller, transposed extents, equal element count) and every '
       'result is compared with the formula for the current input; all accesses of the second run are bounds-checked')
R28 = 'every element access and Eigen view created while a layer runs is logged with its path condition and loop ranges and checked 0 <= offset < length'
R29 = 'accesses inside OpenMP loops are logged per iteration; index sets of different iterations must be disjoint where one writes, and no shared scalar may be assigned'


def cases_all():
    return all_cases()


def upd_where(r):
    try:
        return r.where('updateGradients')
    except Missing:
        return ''


def same(ctx, name, r, items, where, c):
    for nm, before, loc in items:
        a, n = r.d.arr(loc)
        ctx.eq_arr('%s leaves %s unchanged' % (name, nm), a, n, lambda i: sel(before, i), where, **kw(c, ns=3))


@prop('C26', R26)
def c26(ctx):
    for mode in ('training', 'evaluation'):
        for c in cases_all():
            if mode == 'evaluation' and not c.params:
                continue
            with ctx.section('%s %s' % (c.label, mode)):
                r = Run(ctx, c)
                r.fill()
                r.tensors()
                if mode == 'evaluation':
                    r.train(FALSE)
                d = r.d

                def snap(with_out, with_grads, with_gx, bufs, pdata=True):
                    it = []
                    for k, x in enumerate(r.xs):
                        it.append(('input %d' % k, d.arr(x)[0], x))
                    it.append(('incoming gradient', d.arr(r.gy)[0], r.gy))
                    if with_out:
                        it.append(('saved output', d.arr(r.y)[0], r.y))
                    if with_gx:
                        for k, x in enumerate(r.gx):
                            it.append(('input gradient %d' % k, d.arr(x)[0], x))
                    for p in r.pnames:
                        pd = d.pdata(r.op, p)
                        if pdata:
                            it.append(('parameter ' + p, d.arr(pd)[0], pd))
                        if with_grads:
                            pg = d.pgrad(r.op, p)
                            it.append(('gradient of ' + p, d.arr(pg)[0], pg))
                    if bufs:
                        for b in r.bnames:
                            bl = d.buffer(r.op, b)
                            it.append(('buffer ' + b, d.arr(bl)[0], bl))
                    return it
                # the dropout mask is documented per-pass state
                own = c.kind == 'Dropout' and mode == 'training'
                it = snap(False, True, True, mode == 'evaluation', not own)
                r.forward()
                same(ctx, '%s forward (%s)' % (c.label, mode), r, it, r.where('forward'), c)
                it = snap(True, False, True, True)
                r.update()
                same(ctx, '%s parameter-gradient pass (%s)' % (c.label, mode), r, it, upd_where(r), c)
                it = snap(True, True, False, True)
                r.backward()
                same(ctx, '%s backward (%s)' % (c.label, mode), r, it, r.where('backward'), c)
                # accumulation: running backward on a gradient that already holds values only adds to it
                d0 = [d.arr(g) for g in r.gx]
                r2 = Run(ctx, c)
                r2.fill()
                r2.tensors()
                if mode == 'evaluation':
                    r2.train(FALSE)
                for g in r2.gx:
                    base, off = r2.d.data(g)
                    v = r2.d.I.val(r2.d.st, base)
                    r2.d.I.store(r2.d.st, base, Vec(v.n, afill(ZERO), v.et))
                r2.forward()
                r2.update()
                r2.backward()
                for k, g in enumerate(r2.gx):
                    z, n = r2.d.arr(g)
                    a = d0[k][0]
                    ctx.eq_arr('%s backward (%s) adds to input gradient %d' % (c.label, mode, k), a, n,
                               lambda i: add(sel(avar('gx%d' % k, n), i), sel(z, i)), r.where('backward'), **kw(c, ns=4, arrgens=DISTINCT))


E_ = var('e', True, 1)


def resized():
    """pairs of (first input, second input) sizes per layer"""
    big = lambda dims, j: [add(x, E_) if i == j else x for i, x in enumerate(dims)]
    Hn, Wn = H, add(H, E_)
    sq, rt = [N, C, Hn, Wn], [N, C, Wn, Hn]
    out = []
    r2, r4 = R2, R4
    for nm, a, b in (('larger batch', r2, big(r2, 0)), ('smaller batch', big(r2, 0), r2)):
        out += [(nm, BN(2, a), BN(2, b)), (nm, Lin2(a), Lin2(b))]
        for k in ('ReLU', 'Sigmoid'):
            out.append((nm, elem(k, [a]), elem(k, [b])))
        out.append((nm, Soft(a), Soft(b)))
    for nm, a, b in (('larger batch', r4, big(r4, 0)), ('smaller batch', big(r4, 0), r4), ('taller image', r4, big(r4, 2)),
                     ('narrower image', big(r4, 3), r4), ('transposed image', sq, rt)):
        # stride 1 and kernel 1+2*padding keep the extents, which keeps the terms small; other geometries are C20-C22
        g = (add(scale(PH, 2), ONE), add(scale(PW, 2), ONE), PH, PW, ONE, ONE)
        out += [(nm, BN(4, a), BN(4, b)), (nm, Conv(g, ins=a), Conv(g, ins=b)), (nm, Pool(g, ins=a), Pool(g, ins=b))]
    return out


class Lin2(Linear):
    def __init__(self, dims):
        Linear.__init__(self, [dims], '')


class Soft(Softmax):
    def __init__(self, dims):
        Case.__init__(self, 'Softmax', [], [dims], dims)

    def row(self, r, c):
        den = S(C, lambda j: exp(sub(at(self.x(), [r, j], self.out), self.mx(r))))
        return div(exp(sub(at(self.x(), [r, c], self.out), self.mx(r))), den)

    def mx(self, r):
        return MX(C, lambda j: at(self.x(), [r, j], self.out))

    def fwd(self, i):
        return self.row(*unflat(i, self.out))

    def bwd(self, k, i, gy):
        r, c = unflat(i, self.out)
        s = S(C, lambda j: mul(at(gy, [r, j], self.out), self.row(r, j)))
        return mul(self.row(r, c), sub(sel(gy, i), s))


def no_forward(ctx):
    """backward without forward"""
    for c in (Conv(), Pool()):
        with ctx.section(c.label + ' backward without forward'):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            d = r.d
            n0 = len(d.I.thr)
            try:
                r.backward()
                dead = False
            except Dead:
                dead = True
            ctx.throws_iff('%s backward without forward is refused' % c.label, d, TRUE, r.where('backward'), **kw(c)) if not dead else \
                ctx.ok('%s backward without forward is refused' % c.label, 'every path throws', r.where('backward'))
    for c in (Conv(),):
        with ctx.section(c.label + ' parameter gradients without forward'):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            try:
                r.update()
                dead = False
            except Dead:
                dead = True
            ctx.throws_iff('%s parameter gradients without forward are refused' % c.label, r.d, TRUE, r.where('updateGradients'), **kw(c)) if not dead else \
                ctx.ok('%s parameter gradients without forward are refused' % c.label, 'every path throws', r.where('updateGradients'))


@prop('C27', R27)
def c27(ctx):
    for nm, a, b in resized():
        lab = '%s, %s' % (b.kind, nm)
        with ctx.section(lab):
            b.assume = tuple(b.assume) + tuple(a.assume)
            b.nonneg = tuple(b.nonneg) + tuple(a.nonneg)
            r = Run(ctx, a)
            assume_nonneg(*b.nonneg)
            r.fill()
            r.tensors()
            r.forward()
            r.update()
            r.backward()
            r.fill()
            r.c = b
            r.tensors()
            d = r.d
            d.I.log_access = True
            m = len(d.I.log)
            r.forward()
            y, n = d.arr(r.y)
            k_ = kw(b, ns=5, arrgens=DISTINCT)
            ctx.eq_arr('%s: second forward' % lab, y, n, b.fwd, r.where('forward'), **k_)
            r.update()
            r.backward()
            d.I.log_access = False
            gy = avar('gy', prod(b.out))
            for k, g in enumerate(r.gx):
                ga, gn = d.arr(g)
                ctx.eq_arr('%s: second backward' % lab, ga, gn, lambda i: add(sel(avar('gx%d' % k, gn), i), b.bwd(k, i, gy)), r.where('backward'), **k_)
            for p in b.params:
                pa, pn = d.arr(d.pgrad(r.op, p))
                ctx.eq_arr('%s: second gradient of %s' % (lab, p), pa, pn, lambda i: b.pg(p, i, gy), r.where('updateGradients'), **k_)
            kb = dict(k_)
            kb.pop('ns')
            bounds(ctx, '%s: accesses of the second run' % lab, d.I.log[m:], r.where('forward'), ns=4, **kb)
            ctx.no_throw('%s: second run is accepted' % lab, d, r.where('forward'), **kb)
    again(ctx)
    no_forward(ctx)


def again(ctx):
    """results depend on the current contents only: not on those of an earlier call, nor on another layer of the kind"""
    cases = [x for x in all_cases() if x.kind != 'Dropout']
    for c in cases:
        with ctx.section('%s, new contents' % c.label):
            r = Run(ctx, c)
            r.fill()
            r.tensors()
            d = r.d
            for t, nm in [(x, 'e_x%d' % k) for k, x in enumerate(r.xs)] + [(r.gy, 'e_gy')]:
                d.fill(t, nm)
            r.forward()
            r.update()
            r.backward()
            r.fill()
            for t, nm in [(x, 'x%d' % k) for k, x in enumerate(r.xs)] + [(r.gy, 'gy')] + [(x, 'gx%d' % k) for k, x in enumerate(r.gx)]:
                d.fill(t, nm)
            results(ctx, r, c, '%s: same tensors, new contents:' % c.label, kw(c, ns=4, arrgens=DISTINCT))
        with ctx.section('%s, after another layer' % c.label):
            o = Other(c)
            assume_nonneg(*(tuple(o.nonneg) + tuple(c.nonneg)))
            first = Run(ctx, o)
            d = first.d
            assume_nonneg(*(tuple(o.nonneg) + tuple(c.nonneg)))
            for p in first.pnames:
                d.fill(d.pdata(first.op, p), p + '~w')
            for b in first.bnames:
                d.fill(d.buffer(first.op, b), b + '~w')
            first.tensors(sfx='~w')
            first.forward()
            first.update()
            first.backward()
            r = Run(ctx, c, d=d)
            assume_nonneg(*(tuple(o.nonneg) + tuple(c.nonneg)))
            r.fill()
            r.tensors()
            k = kw(c, ns=4, arrgens=DISTINCT)
            k['assume'] = tuple(k['assume']) + tuple(o.assume)
            results(ctx, r, c, '%s: after another layer ran:' % c.label, k)


def results(ctx, r, c, lab, k):
    d = r.d
    r.forward()
    y, n = d.arr(r.y)
    ctx.eq_arr('%s forward' % lab, y, n, c.fwd, r.where('forward'), **k)
    r.update()
    r.backward()
    gy = avar('gy', prod(c.out))
    for j, g in enumerate(r.gx):
        a, n = d.arr(g)
        ctx.eq_arr('%s input gradient %d' % (lab, j), a, n, lambda i: add(sel(avar('gx%d' % j, n), i), c.bwd(j, i, gy)), r.where('backward'), **k)
    for p in c.params:
        if c.pg(p, ZERO, gy) is None:
            continue
        a, n = d.arr(d.pgrad(r.op, p))
        ctx.eq_arr('%s gradient of %s' % (lab, p), a, n, lambda i: c.pg(p, i, gy), r.where('updateGradients'), **k)


@prop('C28', R28)
def c28(ctx):
    for mode in ('training', 'evaluation'):
        for c in cases_all():
            if mode == 'evaluation' and not c.params:
                continue
            with ctx.section('%s %s' % (c.label, mode)):
                r = Run(ctx, c, log=True)
                r.fill()
                r.tensors()
                if mode == 'evaluation':
                    r.train(FALSE)
                I = r.d.I
                k_ = kw(c, arrgens=DISTINCT)
                for nm, f in (('forward', r.forward), ('updateGradients', r.update), ('backward', r.backward)):
                    m = len(I.log)
                    f()
                    if nm == 'updateGradients' and len(I.log) == m:
                        continue
                    bounds(ctx, '%s %s (%s) accesses' % (c.label, nm, mode), I.log[m:], r.where(nm), ns=8, **k_)
                    if nm == 'forward':
                        # every output element is written: the result does not depend on what was there
                        y, n = r.d.arr(r.y)
                        written(ctx, '%s forward (%s) writes every output element' % (c.label, mode), y, n, r.where(nm), k_)


def written(ctx, name, arr, n, where, k_):
    """replace the previous contents by a second symbol: the value must not change"""
    old = [t for t in arr.fv if t.op == 'avar' and t.args[0] == 'y'] if arr.fv else []
    m = {t: avar('y_other', t.args[1]) for t in ([arr0 for arr0 in _avars(arr) if arr0.args[0] == 'y' or str(arr0.args[0]).startswith('uninit')])}
    if not m:
        ctx.ok(name, 'previous contents do not occur in the summary', where)
        return True
    m = {t: avar('%s_other' % t.args[0], t.args[1]) for t in m}
    other = subst(arr, m)
    return ctx.eq_arr(name, arr, n, lambda i: sel(other, i), where, **dict(k_, arrgens=k_['arrgens'] + [('*_other', None)][:0]))


def _avars(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    stack = [t]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'avar':
            out.append(x)
        stack.extend(c for c in T.children(x) if isinstance(c, Term))
    return out


@prop('C29', R29)
def c29(ctx):
    found = set()
    for c in cases_all():
        with ctx.section(c.label):
            r = Run(ctx, c, log=True)
            r.fill()
            r.tensors()
            r.forward()
            r.update()
            r.backward()
            races(ctx, c.label, r.d.I, r.where('forward'), **kw(c, arrgens=DISTINCT))
            found |= {(x['fn'], x['line']) for x in r.d.I.parlog}
    # every parallel region of the sources must have been met by one of the entry points above
    for f in ctx.p.fns.values():
        for l in omp_lines(f.get('body')):
            nm = 'parallel region in %s' % f['fn']
            if (f['fn'], l) in found:
                ctx.ok(nm, 'covered by a layer entry point', '%s:%s' % (f['file'].replace('/repo/', ''), l))
            else:
                ctx.undecided(nm, 'not reached from a layer entry point', '%s:%s' % (f['file'].replace('/repo/', ''), l))


def omp_lines(n):
    out = []
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if x.get('k') == 'omp' and 'parallel' in x.get('d', ''):
                out.append(x['l'])
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    return out
