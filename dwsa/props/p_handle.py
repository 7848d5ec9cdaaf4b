from layers import *
from p_build import shape_eq
from p_tensor import TN, geometry
from p_rebuild import attrs, text

R36 = ('for every handle class the two ways of copying (construction, assignment) are summarised; every mutator is applied through one handle and every '
       'accessor read through the other, and accessor results are written through and read back')
PA, LI, PH_, CA, LA = 'deepworks::Parameter', 'deepworks::LayerInfo', 'deepworks::Placeholder', 'deepworks::Call', 'deepworks::Layer'


def ways(d, mk, cls):
    """(description, original, copy)"""
    a = mk('a')
    yield 'copy construction', a, d.copy(a, cls)
    a, b = mk('b'), mk('c')
    yield 'copy assignment', a, d.assign(b, a, cls)
    a, b = mk('e'), mk('f')
    b = d.assign(b, a, cls)
    yield 'copy of a copy', a, d.copy(b, cls)


def run(ctx, cls, mk, body):
    w0 = ctx.where(cls + '::' + cls.split('::')[-1])
    for n in range(3):
        with ctx.section('%s, way %d' % (cls, n), w0):
            d = ctx.drv()
            d.st.assume(TRUE)
            for k, (how, a, b) in enumerate(ways(d, lambda s: mk(d, s), cls)):
                if k == n:
                    for first, second, dr in ((a, b, 'original to copy'), (b, a, 'copy to original')):
                        body(d, '%s, %s, %s' % (cls.split('::')[-1], how, dr), first, second)


def same_storage(ctx, nm, d, x, y, w):
    (b1, o1), (b2, o2) = d.data(x), d.data(y)
    ctx.rule(nm, b1 == b2 and o1 is o2, w, 'different memory behind the two handles')


@prop('C36', R36)
def c36(ctx):
    m, n, q = var('m', True, 1), var('n', True, 1), var('q', True, 1)

    def tensor(d, nm, a, b):
        w = ctx.where(TN + '::data')
        same_storage(ctx, nm + ': shared elements', d, a, b, w)
        d.fill(a, 'new')
        x, k = d.arr(b)
        ctx.eq_arr(nm + ': written elements are seen', x, k, lambda i: sel(avar('new', k), i), w)
        d.call(TN + '::reshape', [d.cell(d.shape([mul(m, n)]))], a)
        geometry(ctx, nm + ': after reshape', d, b, [mul(m, n)], ctx.where(TN + '::reshape'))
        d.call(TN + '::allocate', [d.cell(d.shape([q, n, m]))], a)
        geometry(ctx, nm + ': after allocate', d, b, [q, n, m], ctx.where(TN + '::allocate'))
        same_storage(ctx, nm + ': shared elements after allocate', d, a, b, ctx.where(TN + '::allocate'))
        d.call(TN + '::reshape', [d.cell(d.shape([m, mul(n, q)]))], a)
        d.call(TN + '::allocate', [d.cell(d.shape([m, n]))], b)
    run(ctx, TN, lambda d, s: d.tensor(s, [m, n]), tensor)

    def shares(d, nm, f, a, b, cls, w):
        """accessor f returns the stored tensor itself"""
        x, y = d.call(f, [], a), d.call(f, [], b)
        same_storage(ctx, '%s: %s refers to the same tensor' % (nm, f.split('::')[-1]), d, x, y, w)
        d.fill(x, 'v_' + nm.replace(' ', '_'))
        arr, k = d.arr(d.call(f, [], b))
        ctx.eq_arr('%s: writes through %s are seen' % (nm, f.split('::')[-1]), arr, k, lambda i: sel(avar('v_' + nm.replace(' ', '_'), k), i), w)
        # replacing the tensor through the accessor
        t = d.tensor('fresh', [q, m])
        if isinstance(x, Loc):
            d.I.store(d.st, x, d.I.val(d.st, t))
            same_storage(ctx, '%s: a tensor stored through %s is seen' % (nm, f.split('::')[-1]), d, d.call(f, [], b), t, w)
        else:
            ctx.violation('%s: %s returns the stored tensor itself' % (nm, f.split('::')[-1]), w, dict(reason='returns a copy'))

    def param(d, nm, a, b):
        for f in ('data', 'grad'):
            shares(d, nm, PA + '::' + f, a, b, PA, ctx.where(PA + '::' + f))
        for v in (FALSE, TRUE, bvar('t')):
            d.call(PA + '::train', [v], a)
            r = d.I.bool(d.st, d.call(PA + '::is_trainable', [], b), d.fr, 0)
            ctx.eq(nm + ': trainability %s is seen' % T.show(v), tonum(r), tonum(v), ctx.where(PA + '::train'))
        (x, _), (y, _) = d.data(d.call(PA + '::data', [], a)), d.data(d.call(PA + '::grad', [], a))
        # data and gradient never alias
        p = d.new(PA, [d.tensor('w', [m, n]), TRUE])
        (x, _), (y, _) = d.data(d.call(PA + '::data', [], p)), d.data(d.call(PA + '::grad', [], p))
        ctx.rule(nm + ': value and gradient are separate', x != y, ctx.where(PA + '::Parameter'), 'same memory')
    run(ctx, PA, lambda d, s: d.new(PA, [d.tensor('w' + s, [m, n]), TRUE]), param)
    with ctx.section('parameter construction', ctx.where(PA + '::Parameter')):
        w = ctx.where(PA + '::Parameter')
        d = ctx.drv()
        t = d.tensor('w', [m, n])
        base = d.data(t)[0]
        p = d.new(PA, [t, bvar('tr')])
        x, g = d.call(PA + '::data', [], p), d.call(PA + '::grad', [], p)
        ctx.rule('Parameter takes over the given tensor', d.data(x)[0] == base, w, 'other memory')
        geometry(ctx, 'Parameter gradient', d, g, [m, n], w)
        a, k = d.arr(g)
        ctx.eq_arr('Parameter gradient starts at zero', a, k, lambda i: ZERO, w)
        ctx.eq('Parameter keeps the trainable flag', tonum(d.I.bool(d.st, d.call(PA + '::is_trainable', [], p), d.fr, 0)), tonum(bvar('tr')), w)

    def info(d, nm, a, b):
        w = ctx.where(LI + '::impl')
        x, y = d.call(LI + '::impl', [], a), d.call(LI + '::impl', [], b)
        ctx.rule(nm + ': one description behind both handles', isinstance(x, Loc) and x == y, w, 'two descriptions')
        for f in ('name', 'type'):
            ctx.rule('%s: same %s' % (nm, f), d.I.val(d.st, d.call(LI + '::' + f, [], a)) is d.I.val(d.st, d.call(LI + '::' + f, [], b)), w, 'differs')
        for f in ('params', 'buffers'):
            p, q_ = d.call(LI + '::' + f, [], a), d.call(LI + '::' + f, [], b)
            ctx.rule('%s: %s returns the stored map itself' % (nm, f), isinstance(p, Loc) and p == q_, ctx.where(LI + '::' + f), 'a copy or another map')
    run(ctx, LI, lambda d, s: d.new(LI, [string('n' + s), string('t' + s)]), info)
    with ctx.section('layer info construction', ctx.where(LI + '::LayerInfo')):
        d = ctx.drv()
        w = ctx.where(LI + '::LayerInfo')
        l = d.new(LI, [string('nm'), string('ty')])
        ctx.rule('LayerInfo keeps name and type', d.I.val(d.st, d.call(LI + '::name', [], l)) is string('nm') and
                 d.I.val(d.st, d.call(LI + '::type', [], l)) is string('ty'), w, 'swapped or lost')

    def ph(d, nm, a, b):
        w = ctx.where(PH_ + '::impl')
        x, y = d.call(PH_ + '::impl', [], a), d.call(PH_ + '::impl', [], b)
        ctx.rule(nm + ': one placeholder behind both handles', isinstance(x, Loc) and x == y, w, 'two placeholders')
        s1, s2 = d.I.val(d.st, d.call(PH_ + '::shape', [], a)), d.I.val(d.st, d.call(PH_ + '::shape', [], b))
        ctx.rule(nm + ': same shape', s1 == s2, ctx.where(PH_ + '::shape'), 'differs')
    run(ctx, PH_, lambda d, s: d.placeholder([m, n]), ph)

    def call(d, nm, a, b):
        w = ctx.where(CA + '::impl')
        x, y = d.call(CA + '::impl', [], a), d.call(CA + '::impl', [], b)
        ctx.rule(nm + ': one operation behind both handles', isinstance(x, Loc) and x == y, w, 'two operations')
        args = vec([d.I.val(d.st, d.placeholder([m])), d.I.val(d.st, d.placeholder([n]))], PH_)
        d.call(CA + '::pass', [d.cell(args)], a)
        got = d.I.val(d.st, d.call(CA + '::impl', [], b)).f['args']
        ctx.rule(nm + ': passed arguments are seen in order', got == args, ctx.where(CA + '::pass'), 'differs')
        r = d.I.as_loc(d.st, d.call(CA + '::create', [d.cell(d.shape([q, n]))], a))
        imp = d.I.val(d.st, d.call(PH_ + '::impl', [], r))
        c = imp.f['call']
        ok = isinstance(c, OptV) and c.p is TRUE
        ctx.rule(nm + ': the created placeholder remembers its creator', ok and d.call(CA + '::impl', [], d.cell(c.v)) == x, ctx.where(CA + '::create'),
                 'another or no creator')
        shape_eq(ctx, nm + ': the created placeholder has the given shape', list(d.I.val(d.st, d.call(PH_ + '::shape', [], r)).d), [q, n], ctx.where(CA + '::create'))
    run(ctx, CA, lambda d, s: d.new(CA, [d.new(LI, [string('n' + s), string('t' + s)])]), call)

    def layer(d, nm, a, b):
        for f in ('inputs', 'outputs'):
            w = ctx.where(LA + '::' + f)
            for fn in [x for x in ctx.p.byname.get(LA + '::' + f, [])]:
                x, y = d.I.call_fn(fn, d.st, a, [], 0, d.fr), d.I.call_fn(fn, d.st, b, [], 0, d.fr)
                ctx.rule('%s: %s returns the stored list itself' % (nm, f), isinstance(x, Loc) and x == y, w, 'a copy or another list')
        i, o = d.I.val(d.st, d.call(LA + '::inputs', [], a)), d.I.val(d.st, d.call(LA + '::outputs', [], a))
        ctx.rule(nm + ': inputs and outputs are kept apart', len(i.d) == 2 and len(o.d) == 1, ctx.where(LA + '::Layer'), 'inputs %s outputs %s' % (len(i.d), len(o.d)))
        for f in ('params', 'buffers'):
            p, q_ = d.call(LA + '::' + f, [], a), d.call(LA + '::' + f, [], b)
            ctx.rule('%s: %s returns the stored map itself' % (nm, f), isinstance(p, Loc) and p == q_, ctx.where(LA + '::' + f), 'a copy or another map')

    def mklayer(d, s):
        li = d.new(LI, [string('n' + s), string('t' + s)])
        ins = vec([d.I.val(d.st, d.placeholder([m])), d.I.val(d.st, d.placeholder([n]))], PH_)
        outs = vec([d.I.val(d.st, d.placeholder([q]))], PH_)
        return d.new(LA, [li, d.cell(ins), d.cell(outs)])
    run(ctx, LA, mklayer, layer)
    with ctx.section('layer accessors', ctx.where(LA + '::Layer')):
        d = ctx.drv()
        li = d.new(LI, [string('nm'), string('ty')])
        e = vec([], PH_)
        l = d.new(LA, [d.copy(li, LI), d.cell(e), d.cell(e)])
        w = ctx.where(LA + '::name')
        ctx.rule('Layer reports name and type', d.I.val(d.st, d.call(LA + '::name', [], l)) is string('nm') and
                 d.I.val(d.st, d.call(LA + '::type', [], l)) is string('ty'), w, 'swapped or lost')
        for f in ('params', 'buffers'):
            ctx.rule('Layer %s are those of its description' % f, d.call(LA + '::' + f, [], l) == d.call(LI + '::' + f, [], li), ctx.where(LA + '::' + f), 'another map')
