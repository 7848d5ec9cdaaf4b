from layers import *
from p_build import accesses_ok
from p_tensor import attempt, at
from p_loss import CE, ME, mk
from access import bounds

R11 = ('loss and metric entry points are summarised for predictions, targets and gradients of every rank 0..4 with symbolic extents; the exception '
       'condition must equal the documented mismatch and no element access may be reachable under it')
A = [var('a%d' % k, True, 1) for k in range(4)]
B_ = [var('b%d' % k, True, 1) for k in range(4)]
C_ = [var('c%d' % k, True, 1) for k in range(4)]
G = {}
for v in 'abc':
    for k in range(4):
        G['%s%d' % (v, k)] = lambda r: r.choice([1, 1, 2, 2, 3])


def T_(d, name, dims):
    return d.tensor(name, dims) if dims else d.new('deepworks::Tensor', [])


def differ_shape(x, y):
    if len(x) != len(y):
        return TRUE
    return or_(*[T.ne(a, b) for a, b in zip(x, y)]) if x else FALSE


def run(ctx, nm, call, tensors, bad, wh, labels=True):
    d = ctx.drv()
    d.I.log_access = True
    ts = {k: T_(d, k, v) for k, v in tensors.items()}
    cells = {}
    for k, l in ts.items():
        if tensors[k]:
            b = d.data(l)[0]
            cells[b.cell] = k, b.path
    n0 = len(d.I.log)
    done, ex = attempt(d, lambda: call(d, ts))
    if not done and bad is TRUE and ex:
        ctx.ok(nm + ': refused', 'every path throws', wh)
    else:
        ctx.throws_iff(nm + ': refused exactly on mismatch', d, bad, wh, gens=G, n=60, arrgens=[('y', lambda r, i: 0.0)])
    if bad is FALSE:
        return
    hit = []
    shape_acc = []
    for e in d.I.log[n0:]:
        if e.kind == 'acc':
            loc = e.d[1]
        elif e.kind == 'map':
            continue
        else:
            continue
        if loc.cell in cells and loc.path[:len(cells[loc.cell][1])] == cells[loc.cell][1]:
            bound = {k for k, _ in e.bd}
            pc = [c for c in e.pc if not any(k in c.fv for k in bound)]
            hit.append((and_(*pc), cells[loc.cell][0], e.line))
        elif not e.bd:
            shape_acc.append(e)
    touched = or_(*[c for c, _, _ in hit]) if hit else FALSE
    ctx.holds(nm + ': no element is touched when refused', not_(and_(bad, touched)), wh, gens=G, n=60, arrgens=[('y', lambda r, i: 0.0)])
    bounds(ctx, nm + ': shape reads', shape_acc, wh, ns=2, gens=G)
    for s in ex:
        for k, l in ts.items():
            if not tensors[k]:
                continue
            a, n = at(d, s, lambda: d.arr(l))
            ctx.eq_arr('%s: %s untouched when refused' % (nm, k), a, n, lambda i: sel(avar(k, n), i), wh, gens=G, assume=tuple(s.pc), ns=3)


@prop('C11', R11)
def c11(ctx):
    wf, wb = ctx.where(CE + '::forward'), ctx.where(CE + '::backward')
    for rp in range(0, 5):
        for rt in range(0, 5):
            x, y = A[:rp], B_[:rt]
            badt = TRUE if rp != 2 or rt != 2 else or_(T.ne(y[0], x[0]), T.ne(y[1], ONE))
            nm = 'loss forward, prediction rank %d, target rank %d' % (rp, rt)
            with ctx.section(nm, wf):
                run(ctx, nm, lambda d, t: d.call(CE + '::forward', [t['x'], t['y']], mk(d)), dict(x=x, y=y), badt, wf)
            if rp in (1, 2, 3):
                for rg in (0, 1, 2, 3):
                    g = C_[:rg]
                    nm = 'loss backward, ranks %d %d %d' % (rp, rt, rg)
                    with ctx.section(nm, wb):
                        run(ctx, nm, lambda d, t: d.call(CE + '::backward', [t['x'], t['y'], t['g']], mk(d)), dict(x=x, y=y, g=g),
                            or_(badt, differ_shape(x, g)), wb)
            nm = 'accuracy, ranks %d %d' % (rp, rt)
            w = ctx.where(ME + 'accuracy')
            bad = TRUE if rp != 2 else T.ne(prod(y) if rt else ZERO, x[0])
            with ctx.section(nm, w):
                run(ctx, nm, lambda d, t: d.call(ME + 'accuracy', [t['x'], t['y']]), dict(x=x, y=y), bad, w)
            nm = 'one-hot accuracy, ranks %d %d' % (rp, rt)
            w = ctx.where(ME + 'accuracyOneHot')
            bad = TRUE if rp != 2 else differ_shape(x, y)
            with ctx.section(nm, w):
                run(ctx, nm, lambda d, t: d.call(ME + 'accuracyOneHot', [t['x'], t['y']]), dict(x=x, y=y), bad, w)
