"""C34, C35: what a model records about itself"""
from p_model import *
import p_model as PM
import stdm

MD = 'deepworks::Model'
MI = MD + '::Impl'
LI = 'deepworks::LayerInfo'


def S(name, *args):
    return uf(name, args, 's')


class K(B):
    """a model over an arbitrary graph: nodes by position in the sorted order"""

    def __init__(self, ctx, d):
        B.__init__(self, ctx, d)
        I = d.I
        self.infos = d.cell(Vec(NOPS, None, LI + '::Impl'))
        k = index_var('t')
        RANGES[k] = NOPS
        self.infos = (d.cell(Vec(NOPS, Table(k, Struct(LI + '::Impl', {
            'name': S('name0', k), 'type': S('type', k), 'attrs': Opq('attrs', k), 'params': Opq('params', U('info', k)), 'buffers': Opq('buffers', U('info', k))})),
            LI + '::Impl')))
        self.layer_of, self.layer_io = {}, []
        I.hooks.update({LI + '::impl': self.info, GB + '::build': self.build, 'ade::passes::TopologicalSort::operator()': self.sort,
                        'std::transform': self.transform, 'ade::util::transform': self.transform, 'std::to_string': self.to_string,
                        'deepworks::Parameter::data': self.of('pdata'), 'deepworks::Parameter::grad': self.of('pgrad'),
                        'deepworks::Parameter::is_trainable': self.trainable, 'deepworks::Parameter::train': self.train,
                        'deepworks::make_layer': self.make_layer,
                        'deepworks::cpu::CPUBackend::CPUBackend': self.quiet})
        for f in ('name', 'type', 'params', 'buffers'):
            I.hooks[LI + '::' + f] = self.info_field(f)
            I.hooks['deepworks::Layer::' + f] = self.info_field(f)

    metadata, mget, mset, node = M.metadata, M.mget, M.mset, M.node

    # ---- layers
    def info_index(self, I, st, x):
        x = I.val(st, x)
        if isinstance(x, Ptr):
            x = I.val(st, I.deref(st, x))
        if isinstance(x, Struct) and x.cls == 'deepworks::Layer':
            p = x.f['m_impl']
            x = I.val(st, I.deref(st, p, None, 0)).f['m_info']
        if isinstance(x, Term):
            x = self.layer_of.get(x, x)
            if x.op == 'uf' and x.args[0] == 'info':
                return x.args[1][0]
        raise unsup('layer information', x)

    def info(self, I, e, st, fr, obj, args):
        return self.infos + ('i', self.info_index(I, st, obj))

    def info_field(self, f):
        def h(I, e, st, fr, obj, args):
            return I.val(st, self.infos + ('i', self.info_index(I, st, obj)) + f)
        return h

    def of(self, what):
        def h(I, e, st, fr, obj, args):
            x = I.val(st, obj)
            if isinstance(x, Term):
                return U(what, x)
            raise unsup('parameter', x)
        return h

    def trainable(self, I, e, st, fr, obj, args):
        x = I.val(st, obj)
        if isinstance(x, Term):
            return uf('trainable', (x,), 'b')
        raise unsup('parameter', x)

    def train(self, I, e, st, fr, obj, args):
        self.emit(st, 'train', (I.val(st, obj), I.val(st, args[0])), e['l'], fr.fn)
        return None

    def quiet(self, I, e, st, fr, obj, args):
        return None

    def meta_value(self, t, fam, k):
        v = B.meta_value(self, t, fam, k)
        s = t.split('::')[-1]
        if s == 'Data' and fam == 'data':
            return v.with_('id', U('id0', k))
        if s == 'Op' and fam == 'op':
            return Struct(t, {'in_ids': Vec(ZERO, (), 'int'), 'out_ids': Vec(ZERO, (), 'int'), 'info': U('info', k)})
        return v

    # ---- construction
    def construct(self, I, e, st, fr, cls):
        if cls.startswith(('std::unordered_set<', 'std::set<', 'std::unordered_map<', 'std::map<')) and e.get('ck') == 'default':
            return LMap('m%d' % next(CTR), 0)
        if cls.startswith('ade::passes::'):
            return Opq('pass')
        return M.construct(self, I, e, st, fr, cls)

    def build(self, I, e, st, fr, obj, args):
        self.emit(st, 'build', tuple(I.val(st, a) for a in args), e['l'], fr.fn)
        return None

    def sort(self, I, e, st, fr, obj, args):
        self.emit(st, 'sort', (), e['l'], fr.fn)
        return None

    def key(self, I, st, x, line, fn):
        x = I.val(st, x)
        if isinstance(x, Term):
            return x
        raise unsup('key', x)

    def method(self, I, e, st, fr, cls, n, obj, args):
        r = B.method(self, I, e, st, fr, cls, n, obj, args)
        if cls.startswith(('std::unordered_map', 'std::map')) and n in ('emplace', 'insert', 'try_emplace') and len(args) == 2:
            v, x = I.val(st, obj), I.val(st, args[1])
            if isinstance(v, LMap) and isinstance(x, Struct) and x.cls == 'deepworks::Layer':
                z = self.info_index(I, st, x)
                self.layer_of[U('val_' + v.name, self.key(I, st, args[0], 0, ''))] = U('info', z)
                self.layer_of[x.f['m_impl'].base.cell] = U('info', z)
                p = I.val(st, I.deref(st, x.f['m_impl'], None, 0))
                self.layer_io.append((p.f['m_inputs'], p.f['m_outputs'], z))
        if n == 'at' and isinstance(r, Term) and r.op == 'uf' and r.args[0] == 'val_phs':
            x = r.args[1][0]
            return I.as_loc(st, Struct(MD + '::Config::PlaceholderInfo', {'shape': Vec(U0('crank', x), uf('cdims', (x,), 'a', True), 'int'), 'id': U('cid', x)}))
        return r

    # ---- strings and sequences
    def to_string(self, I, e, st, fr, obj, args):
        return S('decimal', I.num(st, args[0]))

    def transform(self, I, e, st, fr, obj, args):
        p = I.val(st, args[0])
        if isinstance(p, Opq) and p.k == 'striter' and len(args) == 4:
            src = I.val(st, p.d[0])
            o, f = I.val(st, args[2]), I.val(st, args[3])
            if isinstance(o, Opq) and o.k in ('backins', 'back_inserter') and isinstance(o.d, Loc):
                I.store(st, o.d, stdm.concat(I.val(st, o.d), S('each_' + fname(f), src)))
                return o
            raise unsup('transformed string goes to', o)
        if isinstance(p, Vec) and len(args) == 3:
            b = Ptr(args[0] if isinstance(args[0], Loc) else I.as_loc(st, p), ZERO)
            o, f, ln = I.val(st, args[1]), I.val(st, args[2]), e['l']
            stdm.seq_loop(I, e, st, fr, p.n, lambda s, k: stdm.put(I, s, o, k, I.val(s, I.call_value(f, [stdm.at(I, s, b, k, fr, ln)], s, fr, e), fr, ln), fr, ln))
            return o
        return NotImplemented

    def rangeval(self, I, s, st, fr, v):
        if isinstance(v, Opq) and v.k in ('params', 'buffers'):
            k = index_var('q')
            n = U0('n' + v.k, v.d)
            RANGES[k] = n
            w = U(v.k[:-1], v.d, k)
            return [Vec(n, Gen(k, Struct('std::pair', {'first': S(v.k[:-1] + 'name', v.d, k), 'second': w})), 'std::pair')]
        if isinstance(v, LMap):
            k = index_var('q')
            n = U0('size_' + v.name)
            RANGES[k] = n
            return [Vec(n, Gen(k, Struct('std::pair', {'first': S('key_' + v.name, k), 'second': U('entry_' + v.name, k)})), 'std::pair')]
        return B.rangeval(self, I, s, st, fr, v)

    def make_layer(self, I, e, st, fr, obj, args):
        x = U('made', const(next(CTR)))
        self.emit(st, 'make', (x,) + tuple(I.val(st, a) for a in args), e['l'], fr.fn)
        return x


def fname(f):
    n = getattr(f, 'node', None)
    return (n or {}).get('n', '') or str(getattr(f, 'd', ''))


def model(ctx, d):
    m = K(ctx, d)
    info = Struct('deepworks::graph::Info', {
        'in_nhs': Vec(NIN, gen(NIN, lambda k: U('datanode', U('inpos', k))), 'ade::Handle<ade::Node>'),
        'out_nhs': Vec(NOUT, gen(NOUT, lambda k: U('datanode', U('outpos', k))), 'ade::Handle<ade::Node>'),
        'num_data_nodes': NDATA})
    m.tabs[('deepworks::graph::Info', 'graph')] = d.cell(info)
    pv = [d.cell(Vec(n, gen(n, lambda k: U(u, k)), 'deepworks::Placeholder')) for n, u in ((NIN, 'in'), (NOUT, 'out'))]
    l = d.new(MI, pv)
    return m, l


def settle(c, f):
    """a condition with its propositions replaced by f (None: kept)"""
    if c.op in ('and', 'or'):
        return (and_ if c.op == 'and' else or_)(*[settle(x, f) for x in c.args])
    if c.op == 'not':
        return not_(settle(c.args[0], f))
    if c.op in ('eq0', 'ge0', 'gt0'):
        h = find_has(c)
        if h is not None:
            return settle(or_(and_(h, tsub(c, h, TRUE)), and_(not_(h), tsub(c, h, FALSE))), f)
    r = f(c)
    return c if r is None else r


def find_has(t):
    if isinstance(t, Term):
        if is_has(t):
            return t
        t = t.args
    for x in t if isinstance(t, tuple) else ():
        r = find_has(x)
        if r is not None:
            return r
    return None


def is_has(c):
    return c.op == 'uf' and isinstance(c.args[0], str) and c.args[0].startswith('has_')


def fresh_keys(c):
    return FALSE if is_has(c) else None


def events(trace, f=fresh_keys):
    """entries of a trace with the loops around them, when the propositions of their conditions are settled by f"""
    out = []
    for x, conds, reps in walk(trace):
        c = settle(and_(*conds), f)
        if c is not FALSE:
            out.append((x, c, reps))
    return out


def choose(t, c, v):
    """the string t where the proposition c is v"""
    while isinstance(t, Term) and t.op == 'ite':
        g = settle(t.args[0], lambda q: v if q is c else None)
        if g is TRUE:
            t = t.args[1]
        elif g is FALSE:
            t = t.args[2]
        else:
            raise Unsupported('a name that depends on %s' % T.show(g))
    return t


def pieces(t):
    """a string as the sequence of the strings it joins"""
    if isinstance(t, Term) and t.op == 'uf' and t.args[0] == 'concat':
        return [y for x in t.args[1] for y in pieces(x)]
    if isinstance(t, Term) and t.op == 'str':
        return [] if not t.args[0] else [t]
    return [t]


def joined(*xs):
    return [y for x in xs for y in pieces(x)]


def name_of(m, d, k):
    return I_get(m, d, k).f['name']


def I_get(m, d, k):
    return elem(d.I.load(d.st, m.infos), k)


def named(m, d, k, key):
    """the key is the name of layer k in both cases of its origin"""
    return same_str(key, name_of(m, d, k))


def same_str(a, b):
    return a is b or [*map(id, pieces(a))] == [*map(id, pieces(b))]


def first_only(rs, n, reps):
    return len(reps) == rs and same(reps[0].n, n)


def constructed(ctx, where):
    """a model over an arbitrary graph, or None when the analysis of its construction is reported already"""
    d = ctx.drv()
    m, l = model(ctx, d)
    v = d.I.load(d.st, l)
    if not isinstance(v, Struct):
        raise unsup('model', v)
    return d, m, l, v


def order(ctx, evs, wh):
    ks = [x.kind for x, c, r in evs if x.kind in ('build', 'sort')]
    ctx.rule('model: the graph is built and sorted before it is used', ks[:2] == ['build', 'sort'], wh, dict(steps=ks))
    b = [x for x, c, r in evs if x.kind == 'build']
    good = len(b) == 1 and len(b[0].d) == 2 and seq_is(b[0].d[0], NIN, lambda z: U('in', z)) and seq_is(b[0].d[1], NOUT, lambda z: U('out', z))
    ctx.rule('model: the graph is built from the placeholders of the user', good, wh, dict(line=b[0].line if b else 0))


def ids(ctx, m, d, wh):
    """positions of tensors and operations"""
    t = m.tabs.get(('deepworks::graph::Data', 'data'))
    if t is None:
        raise Unsupported('no data nodes')
    k = index_var('k')
    RANGES[k] = NDATA
    x = elem(d.I.load(d.st, t[0]), k)
    good = same(x.f['id'], k)
    if not good and k in x.f['id'].fv:
        raise Unsupported('numbering of tensors by %s' % T.show(x.f['id']))
    ctx.rule('model: tensors are numbered from 0, each with its own number', good, wh, dict(number_of_tensor_k=show(x.f['id'])))
    ctx.rule('model: numbering leaves placeholders and storage alone', same(x.f['ph'], U('ph', k)) and same(x.f['s'], U('storage', k)), wh)
    t = m.tabs.get(('deepworks::graph::Op', 'op'))
    if t is None:
        raise Unsupported('no operation nodes')
    k = index_var('k')
    RANGES[k] = NOPS
    o = elem(d.I.load(d.st, t[0]), k)
    for f, way, end in (('in_ids', 'in', 'src'), ('out_ids', 'out', 'dst')):
        v = o.f[f]
        z = index_var('z')
        RANGES[z] = U0('n' + way, k)
        port = m.port(U(way + 'edge', k, z))
        base = v.d.args[0] if isinstance(v.d, Term) and v.d.op == 'upd' else T.afill(ZERO)
        want = T.upd(base, [(z, U0('n' + way, k))], port, U(end, k, z))
        ctx.rule('model: operation ids (%s) follow the argument order' % f, same(v.n, U0('n' + way, k)) and isinstance(v.d, Term) and v.d is want, wh,
                 dict(ids=T.show(v.d) if isinstance(v.d, Term) else str(v.d), wanted=T.show(want)))


@prop('C34', 'the recorded configuration and the model rebuilt from it, over a generic iteration of every loop over the graph')
def c34(ctx):
    wh = ctx.where(MI + '::Impl')
    with ctx.section('configuration of a model', wh):
        d, m, l, v = constructed(ctx, wh)
        evs = events(m.take(d.st))
        order(ctx, evs, wh)
        ids(ctx, m, d, wh)
        cfg = v.f['m_cfg']
        ctx.rule('configuration: inputs in the order of the user', seq_is(cfg.f['input_ids'], NIN, lambda z: U('inpos', z)), wh, dict(recorded=show(cfg.f['input_ids'])))
        ctx.rule('configuration: outputs in the order of the user', seq_is(cfg.f['output_ids'], NOUT, lambda z: U('outpos', z)), wh, dict(recorded=show(cfg.f['output_ids'])))
        rec = [(x, c, r) for x, c, r in evs if x.kind in ('record', 'default') and x.d[0] == cfg.f['ph_map'].name]
        good = [r for x, c, r in rec if c is TRUE and first_only(1, NDATA, r) and same(x.d[1], r[0].k) and isinstance(x.d[2], Struct)
                and same(x.d[2].f['id'], r[0].k) and same(x.d[2].f['shape'], Vec(U0('rank', U('ph', r[0].k)), uf('dims', (U('ph', r[0].k),), 'a', True), 'int'))]
        ctx.rule('configuration: every tensor with its shape under its id', len(good) == 1 and len(rec) == 1, wh,
                 dict(records='; '.join('%s: %s' % (show(x.d[1]), show(x.d[2])) for x, c, r in rec)[:300]))
        so = cfg.f['sorted_ops']
        k = index_var('k')
        RANGES[k] = NOPS
        o = elem(so, k) if same(so.n, NOPS) else None
        ctx.rule('configuration: every operation, in execution order', o is not None, wh, dict(operations=show(so.n)))
        if o is not None:
            i = I_get(m, d, k)
            op = elem(d.I.load(d.st, m.tabs[('deepworks::graph::Op', 'op')][0]), k)
            for f, w in (('name', i.f['name']), ('type', i.f['type']), ('attrs', i.f['attrs']), ('in_ids', op.f['in_ids']), ('out_ids', op.f['out_ids'])):
                x = o.f.get(f)
                if x is None:
                    raise Missing('Model::Config::OperationInfo::' + f)
                ok = same_str(x, w) if f in ('name', 'type') else same(x, w)
                ctx.rule('configuration: operation %s' % f, ok, wh, dict(recorded=show(x), is_=show(w)))
    wb = ctx.where(MD + '::Build')
    with ctx.section('rebuilding a model', wb):
        rebuild(ctx, wb)


def rebuild(ctx, wh):
    d = ctx.drv()
    m = K(ctx, d)
    I, st = d.I, d.st
    made = []

    def ctor(I2, e, st2, fr, cls):
        if cls == MD and e.get('ck') not in ('copy', 'move') and len(e['args']) == 2:
            a = [I2.val(st2, I2.ev(x, st2, fr)) for x in e['args']]
            m.emit(st2, 'model', tuple(a), e['l'], fr.fn)
            return Opq('model')
        if cls == 'deepworks::Placeholder' and e.get('ck') not in ('copy', 'move') and len(e['args']) == 1:
            # known by its shape
            return I2.val(st2, I2.ev(e['args'][0], st2, fr))
        return K.construct(m, I2, e, st2, fr, cls)
    I.hooks['$construct'] = ctor
    pi = Struct(MD + '::Config', {
        'input_ids': Vec(NIN, uf('cin', (), 'a', True), 'int'), 'output_ids': Vec(NOUT, uf('cout', (), 'a', True), 'int'),
        'ph_map': LMap('phs', 1),
        'sorted_ops': Vec(NOPS, gen(NOPS, lambda k: Struct(MD + '::Config::OperationInfo', {
            'name': S('cname', k), 'type': S('ctype', k), 'attrs': Opq('cattrs', k),
            'in_ids': Vec(U0('cnin', k), uf('cinids', (k,), 'a', True), 'int'), 'out_ids': Vec(U0('cnout', k), uf('coutids', (k,), 'a', True), 'int')})),
            MD + '::Config::OperationInfo')})
    d.call(MD + '::Build', [d.cell(pi)])
    evs = events(m.take(st))
    ms = [(x, c, r) for x, c, r in evs if x.kind == 'model']
    if len(ms) != 1 or ms[0][1] is not TRUE or ms[0][2]:
        raise Unsupported('construction of the model')
    mi, mo = ms[0][0].d
    maps = {t.args[0][4:] for v in (mi, mo) if isinstance(v, Vec) and isinstance(v.d, Gen) for t in [v.d.elem] if isinstance(t, Term) and t.op == 'uf' and t.args[0].startswith('val_')}
    if len(maps) != 1:
        raise Unsupported('placeholders of the model')
    [mp] = maps
    at = dict(line=ms[0][0].line)
    cin, cout = uf('cin', (), 'a', True), uf('cout', (), 'a', True)
    ctx.rule('rebuild: inputs in the recorded order', seq_is(mi, NIN, lambda z: U('val_' + mp, T.sel(cin, z))), wh, dict(at, inputs=show(mi)))
    ctx.rule('rebuild: outputs in the recorded order', seq_is(mo, NOUT, lambda z: U('val_' + mp, T.sel(cout, z))), wh, dict(at, outputs=show(mo)))
    rec = [(p, x, c, r) for p, (x, c, r) in enumerate(evs) if x.kind in ('record', 'default') and x.d[0] == mp]
    ins = [q for q in rec if not any(y.kind == 'make' and y.d[0] is q[1].d[2] for y, _, _ in evs)]
    ops = [q for q in rec if q not in ins]
    good = len(ins) == 1 and ins[0][2] is TRUE and first_only(1, NIN, ins[0][3])
    if good:
        p, x, c, r = ins[0]
        key = T.sel(cin, r[0].k)
        if x.d[2] is not None and not isinstance(x.d[2], Vec):
            raise unsup('placeholder of an input', x.d[2])
        good = same(x.d[1], key) and isinstance(x.d[2], Vec) and same(x.d[2], Vec(U0('crank', key), uf('cdims', (key,), 'a', True), 'int'))
    ctx.rule('rebuild: every input gets a placeholder of its recorded shape', good, wh, dict(line=ins[0][1].line if ins else 0, records=len(ins),
                                                                                         record=show(ins[0][1].d[1:]) if ins else ''))
    mk = [(p, x, c, r) for p, (x, c, r) in enumerate(evs) if x.kind == 'make']
    good = len(mk) == 1 and mk[0][2] is TRUE and first_only(1, NOPS, mk[0][3])
    ctx.rule('rebuild: every operation is applied once', good, wh, dict(places=len(mk), line=mk[0][1].line if mk else 0))
    if not good:
        return
    p, x, c, r = mk[0]
    k = r[0].k
    at = dict(line=x.line)
    for i, (f, w) in enumerate((('type', S('ctype', k)), ('name', S('cname', k)), ('attributes', Opq('cattrs', k)))):
        ctx.rule('rebuild: operation k gets its own ' + f, same(x.d[1 + i], w), wh, dict(at, got=show(x.d[1 + i])))
    ii = uf('cinids', (k,), 'a', True)
    ctx.rule('rebuild: operation k is applied to its recorded inputs in order', seq_is(x.d[4], U0('cnin', k), lambda z: U('val_' + mp, T.sel(ii, z))), wh, dict(at, inputs=show(x.d[4])))
    good = len(ops) == 1 and ops[0][2] is TRUE and ops[0][3] == r and same(ops[0][1].d[1], T.sel(uf('coutids', (k,), 'a', True), ZERO))
    ctx.rule('rebuild: the result of operation k is known under its recorded id', good, wh, dict(at, recorded=show(ops[0][1].d[1]) if ops else 'nowhere'))
    ctx.rule('rebuild: inputs exist before operations are applied', bool(ins) and ins[0][0] < p, wh, at)


@prop('C35', 'names, registration and mode switching over a generic iteration of every loop over the graph')
def c35(ctx):
    wh = ctx.where(MI + '::Impl')
    with ctx.section('names, parameters and state', wh):
        d, m, l, v = constructed(ctx, wh)
        trace = m.take(d.st)
        evs = events(trace)
        order(ctx, evs, wh)
        k = index_var('k')
        RANGES[k] = NOPS
        nm = name_of(m, d, k)
        unnamed = T.eq(S('name0', k), T.string(''))
        own, made = choose(nm, unnamed, FALSE), choose(nm, unnamed, TRUE)
        ctx.rule('names: a name given by the user is kept', own is S('name0', k), wh, dict(name=show(own)))
        ps = pieces(made)
        ctx.rule('names: a layer without a name gets one', bool(ps) and ps != [S('name0', k)], wh, dict(name=show(made)))
        ctx.rule('names: generated names differ by position', any(k in p.fv and p.args[0] == 'decimal' and same(p.args[1][0], k) for p in ps if p.op == 'uf'), wh, dict(name=show(made)))
        refused(ctx, d, m, trace, wh)
        registered(ctx, d, m, v, evs, wh)
    wt = ctx.where(MD + '::train')
    with ctx.section('training mode', wt):
        train_all(ctx, wt)
    wg = ctx.where(MD + '::getLayer')
    with ctx.section('looking up a layer', wg):
        lookup(ctx, wg)
    for name, nargs in (('forward', 2), ('backward', 3)):
        wf = ctx.where(MD + '::' + name)
        with ctx.section('running a model: ' + name, wf):
            running(ctx, name, nargs, wf)


def refused(ctx, d, m, trace, wh):
    what = 'names: two layers of the same name are refused'
    thr = [(and_(*s.pc), x) for s, x in d.I.thr]
    if not thr:
        ctx.violation(what, wh, dict(found='construction never throws'))
        return
    recs = [(x, c, r) for x, c, r in events(trace) if x.kind == 'record' and first_only(1, NOPS, r)]
    for c, x in thr:
        atoms = []
        settle(c, lambda q: atoms.append(q))
        has = [a for a in atoms if is_has(a)]
        rest = settle(c, lambda q: TRUE if is_has(q) else None)
        if len(has) != 1 or settle(c, fresh_keys) is not FALSE:
            raise Unsupported('exception under %s' % T.show(c))
        a = has[0]
        ks = [v for v in a.args[1][0].fv if v in RANGES and RANGES[v] is NOPS]
        if len(ks) != 1:
            raise Unsupported('exception under %s' % T.show(c))
        mp = a.args[0][4:].rsplit('_', 1)[0]
        own = [r for y, cc, r in recs if y.d[0] == mp]
        good = same_str(a.args[1][0], name_of(m, d, ks[0])) and len(own) == 1 and all(
            cc is TRUE and same_str(y.d[1], name_of(m, d, r[0].k)) for y, cc, r in recs if y.d[0] == mp)
        ctx.rule(what, good, wh, dict(line=x.line, refused_when=T.show(c)[:300], compared=show(a.args[1][0]), remembered='; '.join(show(y.d[1]) for y, cc, r in recs if y.d[0] == mp)))
        # whatever else the exception asks for must hold for every pair of equal names
        if rest is not TRUE and not nonneg_only(rest):
            raise Unsupported('exception only when %s' % T.show(rest))


def nonneg_only(c):
    """only that the index is within the loop"""
    return all(q.op in ('ge0', 'gt0') and any(v in RANGES for v in q.fv) for q in (c.args if c.op == 'and' else (c,)))


def registered(ctx, d, m, v, evs, wh):
    lm, pm, sm = (v.f[f].name for f in ('m_layers_map', 'm_params', 'm_state'))
    k = index_var('k')
    RANGES[k] = NOPS
    rec = [(x, c, r) for x, c, r in evs if x.kind in ('record', 'default')]
    # layers
    ls = [(x, c, r) for x, c, r in rec if x.d[0] == lm]
    good = len(ls) == 1 and ls[0][1] is TRUE and first_only(1, NOPS, ls[0][2]) and same_str(ls[0][0].d[1], name_of(m, d, ls[0][2][0].k))
    if good:
        x, c, r = ls[0]
        w = m.layer_of.get(U('val_' + lm, x.d[1]))
        if w is None:
            raise Unsupported('layer of the map')
        good = w is U('info', r[0].k)
    ctx.rule('layers: every layer is found under its name', good, wh, dict(line=ls[0][0].line if ls else 0, places=len(ls)))
    lv = v.f['m_layers']
    if not same(lv.n, NOPS):
        ctx.rule('layers: every layer is listed', False, wh, dict(listed=show(lv.n)))
    else:
        x = elem(lv, k)
        y = lv.d.elem if isinstance(lv.d, Gen) else x
        if isinstance(y, Struct) and y.cls == 'deepworks::Layer' and isinstance(y.f['m_impl'], Term):
            y = y.f['m_impl']
        if isinstance(y, Struct) and y.cls == 'deepworks::Layer' and isinstance(y.f['m_impl'], Ptr):
            y = m.layer_of.get(y.f['m_impl'].base.cell, y)
        x = vsub(m.layer_of.get(y, y), {lv.d.k: k}) if isinstance(y, Term) and isinstance(lv.d, Gen) else y
        if not isinstance(x, Term):
            raise Unsupported('listed layer %r' % (elem(lv, k),))
        ctx.rule('layers: every layer is listed, in execution order', x is U('info', k), wh, dict(layer_k=show(x)))
    ios = m.layer_io
    for (ins, outs, z) in ios:
        for v2, way, end in ((ins, 'in', 'src'), (outs, 'out', 'dst')):
            ctx.rule('layers: %sputs are the placeholders of the layer' % way, seq_is(v2, U0('n' + way, z), lambda q: U('ph', U(end, z, q))), wh, dict(placeholders=show(v2)))
    # parameters and buffers
    for what, mp, src, val in (('parameter', pm, 'param', lambda p: p), ('parameter data', sm, 'param', lambda p: U('pdata', p)), ('buffer', sm, 'buffer', lambda p: p)):
        hits = []
        for x, c, r in rec:
            if x.d[0] != mp or len(r) != 2 or not isinstance(x.d[2], Term):
                continue
            z, q = r[0].k, r[1].k
            if x.d[2] is val(U(src, U('info', z), q)):
                hits.append((x, c, r, joined(name_of(m, d, z), T.string('.'), S(src + 'name', U('info', z), q)), U0('n' + src + 's', U('info', z))))
        good = len(hits) == 1
        if good:
            x, c, r, key, n = hits[0]
            good = c is TRUE and same(r[0].n, NOPS) and same(r[1].n, n) and [*map(id, pieces(x.d[1]))] == [*map(id, key)]
        ctx.rule('state: every %s of every layer is registered under <layer>.<name>' % what, good, wh,
                 dict(places=len(hits), line=hits[0][0].line if hits else 0, key=show(hits[0][0].d[1]) if hits else ''))
    odd = [x for x, c, r in rec if x.d[0] in (pm, sm) and not (len(r) == 2 and isinstance(x.d[2], Term) and x.d[2].op == 'uf' and x.d[2].args[0] in ('param', 'pdata', 'buffer'))]
    ctx.rule('state: nothing else is registered', not odd, wh, dict(line=odd[0].line if odd else 0))


def shell(ctx, d, backend):
    """a model object"""
    m = K(ctx, d)
    impl = d.cell(Struct(MI, {'m_graph': Opq('obj', 'ade::Graph'), 'm_tgraph': Opq('obj', 'ade::TypedGraph'), 'm_params': LMap('params', 1), 'm_state': LMap('state', 1),
                              'm_layers_map': LMap('layers', 1), 'm_backend': backend}), MI)
    return m, d.cell(Struct(MD, {'m_impl': Ptr(impl)}), MD)


def train_all(ctx, wh):
    d = ctx.drv()
    m, l = shell(ctx, d, NULL)
    mode = uf('mode', (), 'b')
    d.call(MD + '::train', [mode], l)
    evs = [(x, c, r) for x, c, r in events(m.take(d.st)) if x.kind == 'train']
    good = len(evs) == 1 and evs[0][1] is TRUE and len(evs[0][2]) == 1
    if good:
        x, c, r = evs[0]
        good = same(r[0].n, U0('size_params')) and same(x.d[0], U('entry_params', r[0].k))
    ctx.rule('training mode: reaches every parameter', good, wh, dict(places=len(evs), line=evs[0][0].line if evs else 0))
    if good:
        ctx.rule('training mode: the requested mode is set', same(evs[0][0].d[1], mode), wh, dict(line=evs[0][0].line, mode=show(evs[0][0].d[1])))


def running(ctx, name, nargs, wh):
    names = ('input', 'output', 'grad_output')[:nargs]
    for single in (False, True):
        for there in (False, True):
            d = ctx.drv()
            be = Ptr(d.cell(Opq('backend'), 'deepworks::IBackend')) if there else NULL
            m, l = shell(ctx, d, be)

            def run(I, e, st, fr, obj, args):
                m.emit(st, name, tuple(I.val(st, a) for a in args), e['l'], fr.fn)
                return None
            for c in ('deepworks::IBackend::', BE + '::'):
                d.I.hooks[c + name] = run
            args = [d.cell(U('u' + n), 'deepworks::Tensor') if single else d.cell(Vec(NIN if n == 'input' else NOUT, gen(NIN, lambda k: U('u' + n, k)), 'deepworks::Tensor')) for n in names]
            fs = [f for f in ctx.p.byname.get(MD + '::' + name, []) if len(f['params']) == nargs and ('vector' in f['params'][0]['t']) != single]
            if len(fs) != 1:
                raise Missing('%s of a model (%s)' % (name, 'one tensor' if single else 'several tensors'))
            label = '%s (%s)' % (name, 'single tensors' if single else 'vectors of tensors')
            try:
                d.I.call_fn(fs[0], d.st, l, args, 0, d.fr)
                dead = False
            except Dead:
                dead = True
            evs = [] if dead else [(x, c, r) for x, c, r in events(m.take(d.st)) if x.kind == name]
            if not there:
                ctx.rule('%s: an uncompiled model is refused' % label, dead and not evs, wh)
                continue
            good = len(evs) == 1 and evs[0][1] is TRUE and not evs[0][2] and not dead
            ctx.rule('%s: a compiled model runs once' % label, good, wh, dict(calls=len(evs)))
            if good:
                for n, v in zip(names, evs[0][0].d):
                    ok = seq_is(v, ONE, lambda z: U('u' + n)) if single else seq_is(v, NIN if n == 'input' else NOUT, lambda z: U('u' + n, z))
                    ctx.rule('%s: the backend gets the %s of the user' % (label, n.replace('_', ' ')), ok, wh, dict(line=evs[0][0].line, got=show(v)))


def lookup(ctx, wh):
    d = ctx.drv()
    m, l = shell(ctx, d, NULL)
    key = S('wanted')
    has = uf('has_layers_1', (key,), 'b')
    try:
        r = d.I.val(d.st, d.call(MD + '::getLayer', [d.cell(key)], l))
    except Dead:
        r = U('nothing')
    thr = or_(*[and_(*s.pc) for s, x in d.I.thr]) if d.I.thr else FALSE
    ctx.rule('getLayer: refuses exactly the names no layer has', valid_iff(thr, not_(has)), wh, dict(refused_when=T.show(thr)))
    if isinstance(r, Struct) and isinstance(r.f.get('m_impl'), Term):
        r = r.f['m_impl']
    if not isinstance(r, Term):
        raise unsup('layer found', r)
    ctx.rule('getLayer: returns the layer of that name', r is U('val_layers', key), wh, dict(returned=show(r)))
