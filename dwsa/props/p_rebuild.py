from layers import *
from p_build import shape_eq, op_where
from p_layers import kw
from p_tensor import attempt

R17 = ('make_layer(type, name, attributes, inputs) is summarised on the attributes each layer kind records (symbolic, pairwise different values) and the '
       'rebuilt layer compared field by field; the backend factory is then followed through forward, backward and updateGradients')


def info_of(d, ph):
    I = d.I
    imp = I.val(d.st, d.call('deepworks::Placeholder::impl', [], ph))
    c = imp.f['call']
    if isinstance(c, Gate):
        c = I.resolve(d.st, c)
    if c.p is not TRUE:
        raise unsup('placeholder without creator', c.p)
    call = d.cell(c.v)
    ci = I.val(d.st, d.call('deepworks::Call::impl', [], call))
    return ci.f['info'], I.val(d.st, d.cell(ci.f['args']))


def text(d, info, m):
    return d.I.val(d.st, d.call('deepworks::LayerInfo::' + m, [], d.cell(info)))


def attrs(d, info):
    v = d.I.val(d.st, d.call('deepworks::LayerInfo::impl', [], d.cell(info)))
    return v.f['attrs']


def flat(v):
    """attribute value -> (type name, leaves)"""
    if isinstance(v, Struct):
        for k, x in v.f.items():
            if isinstance(x, AnyV):
                return flat(x)
        fs = [flat(x) for x in v.f.values()]
        return (v.cls, sum((x[1] for x in fs), []))
    if isinstance(v, AnyV):
        t, l = flat(v.v)
        return (v.t, l)
    if isinstance(v, Vec) and isinstance(v.d, tuple):
        return ('vec', list(v.d))
    if isinstance(v, Term):
        return ('scalar', [v])
    raise unsup('attribute value', v)


KINDS = ('ReLU', 'LeakyReLU', 'ELU', 'Sigmoid', 'Softmax', 'Linear', 'GlobalAvgPooling', 'Add', 'Convolution', 'MaxPooling', 'BatchNorm1D',
         'BatchNorm2D', 'Dropout')


def make(d, typ, name, at_, ins):
    phs = d.cell(vec([d.I.val(d.st, d.placeholder(x)) for x in ins], 'deepworks::Placeholder'))
    return d.I.as_loc(d.st, d.call('deepworks::make_layer', [d.cell(typ), d.cell(name), d.cell(at_), phs]))


@prop('C17', R17)
def c17(ctx):
    wm, wc = ctx.where('deepworks::make_layer'), ctx.where('deepworks::cpu::ICPULayer::create')
    seen = {}
    for c in all_cases():
        k = kw(c)
        k.pop('arrgens', None)
        with ctx.section(c.label, wm):
            assume_nonneg(*c.nonneg)
            d = ctx.drv()
            op, ph = d.op(c.kind, c.args, c.ins)
            a, args0 = info_of(d, ph)
            sh0 = [d.I.num(d.st, x) for x in d.I.val(d.st, d.call('deepworks::Placeholder::shape', [], ph)).d]
            typ, nm, at0 = text(d, a, 'type'), text(d, a, 'name'), attrs(d, a)
            ctx.rule('%s: records the given name' % c.label, nm is string('layer0'), op_where(ctx, c.kind), 'name %r' % (nm,))
            if c.kind in seen:
                ctx.rule('%s: type depends only on the kind' % c.label, seen[c.kind] is typ, op_where(ctx, c.kind), 'type %r' % (typ,))
            else:
                clash = [q for q, t in seen.items() if t is typ]
                ctx.rule('%s: type text is its own' % c.label, not clash, op_where(ctx, c.kind), 'type %r also of %s' % (typ, clash))
            seen[c.kind] = typ
            done = True
            try:
                ph2 = make(d, typ, nm, at0, c.ins)
            except Dead:
                done = False
            ctx.rule('%s: can be rebuilt from what it records' % c.label, done, wm, 'every path throws: %s' % ', '.join(sorted({str(x.typ) for _, x in d.I.thr}))[:200])
            if not done:
                continue
            ctx.no_throw('%s: rebuilding succeeds' % c.label, d, wm, **k)
            b, args1 = info_of(d, ph2)
            ctx.rule('%s: same type after rebuilding' % c.label, text(d, b, 'type') is typ, wm, 'type %r becomes %r' % (typ, text(d, b, 'type')))
            ctx.rule('%s: same name after rebuilding' % c.label, text(d, b, 'name') is nm, wm, 'name %r becomes %r' % (nm, text(d, b, 'name')))
            at1 = attrs(d, b)
            ctx.rule('%s: same attribute names after rebuilding' % c.label, sorted(at0.e) == sorted(at1.e), wm, '%s become %s' % (sorted(at0.e), sorted(at1.e)))
            for q in sorted(set(at0.e) & set(at1.e)):
                (t0, l0), (t1, l1) = flat(at0.e[q][1]), flat(at1.e[q][1])
                ctx.rule('%s: attribute %s keeps its value type' % (c.label, q), t0 == t1 and len(l0) == len(l1), wm, '%s becomes %s' % (t0, t1))
                if len(l0) == len(l1):
                    for j, (x, y) in enumerate(zip(l0, l1)):
                        ctx.eq('%s: attribute %s component %d keeps its value' % (c.label, q, j), y, x, wm, **k)
            sh1 = [d.I.num(d.st, x) for x in d.I.val(d.st, d.call('deepworks::Placeholder::shape', [], ph2)).d]
            shape_eq(ctx, '%s: same output shape after rebuilding' % c.label, sh1, sh0, wm, **k)
            ctx.rule('%s: same number of inputs after rebuilding' % c.label, len(args0.d) == len(args1.d), wm, '%d become %d' % (len(args0.d), len(args1.d)))
            # constructor arguments are what is recorded
            want = sorted(T.show(x) for x in sum([list(v) if isinstance(v, (list, tuple)) else [v] for v in c.args], []))
            got = sorted(T.show(x) for q in at0.e for x in flat(at0.e[q][1])[1])
            ctx.rule('%s: records exactly its constructor arguments' % c.label, want == got, op_where(ctx, c.kind), 'arguments %s, recorded %s' % (want, got))
        with ctx.section(c.label + ' backend', wc):
            assume_nonneg(*c.nonneg)
            r = None
            try:
                r = Run(ctx, c)
            except Dead:
                ctx.violation('%s: the backend implements the type' % c.label, wc, dict(reason='no implementation is returned'))
                continue
            d = r.d
            r.fill()
            r.tensors()
            n = len(d.I.thr)
            r.forward()
            r.backward()
            r.update()
            bad = [(s, x) for s, x in d.I.thr[n:] if 'any_cast' in x.typ or 'out_of_range' in x.typ]
            ctx.rule('%s: the backend reads only recorded attributes, parameters and buffers with their types' % c.label, not bad,
                     r.where('forward'), ', '.join('%s at %s:%s' % (x.typ, x.fn, x.line) for s, x in bad))
            ctx.no_throw('%s: runs on matching tensors' % c.label, d, r.where('forward'), **k)
    for t in ('Linea', 'linear', '', 'ReLU6', 'Convolution2D', 'CPUReLU'):
        with ctx.section('unknown type %r' % t, wm):
            d = ctx.drv()
            done, ex = attempt(d, lambda: make(d, string(t), string('n'), MapV({}, 'deepworks::Attribute', 'std::string'), [[N, C]]))
            ctx.rule('make_layer refuses the unknown type %r' % t, not done and ex, wm, 'returns a layer')
        with ctx.section('unknown backend type %r' % t, wc):
            d = ctx.drv()
            li = d.new('deepworks::LayerInfo', [string('n'), string(t)])
            done, ex = attempt(d, lambda: d.call('deepworks::cpu::ICPULayer::create', [d.I.val(d.st, li)]))
            ctx.rule('the backend refuses the unknown type %r' % t, not done and ex, wc, 'returns an implementation')
