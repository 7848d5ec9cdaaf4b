"""C33, C34, C35: models.  The graph library is modelled by symbolic handles: a graph of any size is one generic
operation node and one generic data node per position of the topological order; loops are one generic iteration."""
from layers import *
import itertools
import interp as IN2
from p_serial import vsub, same_val, leaves, find2

BE = 'deepworks::cpu::CPUBackend'
NOPS, NDATA = var('NOPS', True, 0), var('NDATA', True, 0)
NIN, NOUT = var('NIN', True, 0), var('NOUT', True, 0)
SCALARS = ('deepworks::Tensor', 'deepworks::Placeholder', 'deepworks::LayerInfo', 'deepworks::Call', 'ade::Handle', 'deepworks::Parameter', 'deepworks::Layer')
CTR = itertools.count()


def U(name, *args):
    return uf(name, tuple(args), 'n', True)


def scalar(t):
    t = IN2.strip_t(t)
    return t in SCALARS or t.startswith('ade::Handle<') or t in ('ade::NodeHandle', 'ade::EdgeHandle')


class Ev1:
    """an entry of the trace"""
    __slots__ = ('kind', 'd', 'line', 'fn')

    def __init__(self, kind, d, line=0, fn=''):
        self.kind, self.d, self.line, self.fn = kind, d, line, fn

    def __eq__(self, o):
        return isinstance(o, Ev1) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return '%s%r' % (self.kind, self.d)


class Rep:
    """n repetitions of the items, k counting"""
    __slots__ = ('n', 'k', 'items', 'line', 'fn')

    def __init__(self, n, k, items, line=0, fn=''):
        self.n, self.k, self.items, self.line, self.fn = n, k, items, line, fn

    def __eq__(self, o):
        return isinstance(o, Rep) and self.n is o.n and self.items == o.items and self.k is o.k

    def __hash__(self):
        return 5

    def __repr__(self):
        return 'rep(%s %s: %r)' % (T.show(self.n), self.k, self.items)


class Named(Slots):
    """tensors held by position; writes are trace entries"""

    def __init__(self, M, name):
        self.M, self.name = M, name

    def get(self, off):
        return U('slot_' + self.name, off)

    def put(self, I, st, off, val, line):
        self.M.emit(st, 'put', (self.name, off, val), line)
        return self

    def __eq__(self, o):
        return isinstance(o, Named) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Table(Slots, Joined):
    """objects by position: element k, or the element written in this iteration"""

    def __init__(self, k, elem, ups=()):
        self.k, self.elem, self.ups = k, elem, tuple(ups)

    def get(self, off):
        for o, v in reversed(self.ups):
            if o is off:
                return v
            if T.eq(o, off) is not FALSE:
                raise Unsupported('read of another position of a table written here')
        return vsub(self.elem, {self.k: off})

    def put(self, I, st, off, val, line):
        return Table(self.k, self.elem, [(o, v) for o, v in self.ups if o is not off] + [(off, val)])

    def join(self, c, o):
        if not isinstance(o, Table) or self.k is not o.k or self.elem != o.elem:
            return None
        ks = [x for x, _ in self.ups] + [x for x, _ in o.ups if not any(x is y for y, _ in self.ups)]
        return Table(self.k, self.elem, [(x, merge_vals(c, self.get(x), o.get(x))) for x in ks])

    def __eq__(self, o):
        return isinstance(o, Table) and self.k is o.k and self.elem == o.elem and self.ups == o.ups

    def __hash__(self):
        return 3


class M:
    TR = ('trace',)

    def __init__(self, ctx, d):
        self.ctx, self.d, self.I = ctx, d, d.I
        I = d.I
        h = {'$loop': self.loop, '$subst': vsub, '$symmap': True, '$construct': self.construct, '$rangeval': self.rangeval, '$method': self.method,
             'ade::TypedGraph::metadata': self.metadata, 'ade::TypedMetadata::get': self.mget, 'ade::TypedMetadata::set': self.mset,
             'ade::passes::TopologicalSortData::nodes': self.nodes, 'ade::util::filter': self.filter, 'ade::util::indexed': self.indexed,
             'ade::util::value': self.fld('v'), 'ade::util::index': self.fld('i'),
             'ade::Handle::operator->': self.ident, 'ade::Handle::get': self.ident,
             'ade::Node::inEdges': self.edges('in'), 'ade::Node::outEdges': self.edges('out'),
             'ade::Node::inNodes': self.adj('in'), 'ade::Node::outNodes': self.adj('out'),
             'ade::Edge::srcNode': self.end('src'), 'ade::Edge::dstNode': self.end('dst'),
             'deepworks::Placeholder::shape': self.shape, 'deepworks::Tensor::allocate': self.allocate,
             'deepworks::Tensor::shape': self.shape, 'deepworks::Tensor::empty': self.empty, 'deepworks::Tensor::copyTo': self.copy_to,
             'deepworks::initializer::zeros': self.zeros, 'deepworks::cpu::ICPULayer::create': self.create,
             'std::vector::resize': self.resize}
        for m in ('forward', 'backward', 'updateGradients'):
            h['deepworks::cpu::ICPULayer::' + m] = self.layer(m)
        I.hooks.update(h)
        self.tabs, self.sizes, self.seen, self.same = {}, {}, set(), {}
        st = d.st
        st.store[self.TR] = Opq('tape', ())

    # ---- trace
    def emit(self, st, kind, data, line=0, fn=''):
        st.store[self.TR] = self.app(st.store[self.TR], (Ev1(kind, data, line, fn),))

    def app(self, t, items):
        if isinstance(t, Gate):
            return Gate(t.c, self.app(t.a, items), self.app(t.b, items))
        return Opq('tape', t.d + tuple(items))

    def take(self, st):
        """the trace so far; a new one begins"""
        t = st.store[self.TR]
        st.store[self.TR] = Opq('tape', ())
        return t

    # ---- values
    def construct(self, I, e, st, fr, cls):
        if scalar(cls) and e.get('ck') in ('copy', 'move') and len(e['args']) >= 1:
            return I.val(st, I.ev(e['args'][0], st, fr), fr, e['l'])
        return NotImplemented

    def ident(self, I, e, st, fr, obj, args):
        return I.val(st, obj if obj is not None else args[0])

    def node(self, I, st, x):
        x = I.val(st, x)
        if isinstance(x, Ptr):
            x = I.val(st, I.deref(st, x, None, 0))
        if not (isinstance(x, Term) and x.op == 'uf' and x.args[0] in ('opnode', 'datanode')):
            raise unsup('node handle', x)
        return x.args[0][:-4], x.args[1][0]

    def count(self, fam):
        return NOPS if fam == 'op' else NDATA

    # ---- metadata
    def metadata(self, I, e, st, fr, obj, args):
        if not args:
            return Opq('meta', ('graph', None))
        x = I.val(st, args[0])
        if isinstance(x, Term) and x.op == 'uf' and x.args[0] in ('inedge', 'outedge'):
            return Opq('meta', ('edge', x))
        return Opq('meta', self.node(I, st, x))

    def table(self, st, t, fam):
        c = self.tabs.get((t, fam))
        if c is None:
            k = index_var('t')
            RANGES[k] = self.count(fam)
            v = Vec(self.count(fam), Table(k, self.meta_value(t, fam, k)), t)
            c = self.tabs[(t, fam)] = (self.I.new_cell(st, v, 'metadata ' + t), v)
        if c[0].cell not in st.store:
            st.store[c[0].cell] = c[1]
        return c[0]

    def meta_value(self, t, fam, k):
        s = t.split('::')[-1]
        if s == 'Type':
            return Struct(t, {'t': self.enumc('OP' if fam == 'op' else 'DATA')})
        if s == 'Data' and fam == 'data':
            return Struct(t, {'s': U('storage', k), 'id': k, 'ph': U('ph', k)})
        if s == 'Op' and fam == 'op':
            return Struct(t, {'in_ids': Vec(U0('nin', k), uf('inids', (k,), 'a', True), 'int'),
                              'out_ids': Vec(U0('nout', k), uf('outids', (k,), 'a', True), 'int'), 'info': U('info', k)})
        return UNDEF

    def enumc(self, name):
        for en in self.ctx.p.enums.values():
            cs = {c['n']: c['v'] for c in en['c']}
            if 'OP' in cs and 'DATA' in cs:
                return const(int(cs[name]))
        raise Missing('graph::Type')

    def storage(self, name):
        en = self.ctx.p.enums.get('deepworks::graph::Data::Storage')
        for c in en['c']:
            if c['n'] == name:
                return const(int(c['v']))
        raise Missing('Storage')

    def mget(self, I, e, st, fr, obj, args):
        o = I.val(st, obj)
        t = IN2.strip_t(e['t'])
        kind, x = o.d
        if kind == 'graph':
            if t.endswith('TopologicalSortData'):
                return Opq('sortdata')
            c = self.tabs.get((t, 'graph'))
            if c is None:
                raise Unsupported('graph metadata ' + t)
            return c
        if kind == 'edge':
            return I.as_loc(st, Struct(t, {'p': self.port(x)}))
        return self.table(st, t, kind) + ('i', x)

    def mset(self, I, e, st, fr, obj, args):
        o = I.val(st, obj)
        v = I.val(st, args[0])
        kind, x = o.d
        if kind in ('op', 'data') and isinstance(v, Struct):
            I.store(st, self.table(st, v.cls, kind) + ('i', x), v, fr, e['l'])
            return None
        raise Unsupported('metadata of a %s' % kind)

    # ---- sequences
    def family(self, fam):
        k = index_var('j')
        RANGES[k] = self.count(fam)
        return Vec(self.count(fam), Gen(k, U(fam + 'node', k)), 'ade::Handle<ade::Node>')

    def nodes(self, I, e, st, fr, obj, args):
        return Opq('nodes')

    def rangeval(self, I, s, st, fr, v):
        if isinstance(v, Opq) and v.k == 'nodes':
            return [self.family('op'), self.family('data')]
        return None

    def filter(self, I, e, st, fr, obj, args):
        v, f = I.val(st, args[0]), I.val(st, args[1])
        if not (isinstance(v, Opq) and v.k == 'nodes'):
            raise unsup('filter over', v)
        out = []
        for fam in ('op', 'data'):
            k = index_var('j')
            RANGES[k] = self.count(fam)
            c = I.bool(st, I.call_value(f, [I.as_loc(st, U(fam + 'node', k))], st, fr, e), fr, e['l'])
            c = st.decide(c)
            if c is TRUE:
                out.append(fam)
            elif c is not FALSE:
                raise Unsupported('filter by %r' % (c,))
        if len(out) == 2:
            return v
        if not out:
            return Vec(ZERO, (), 'ade::Handle<ade::Node>')
        return self.family(out[0])

    def indexed(self, I, e, st, fr, obj, args):
        v = I.val(st, args[0])
        if not isinstance(v, Vec):
            raise unsup('indexed over', v)
        k = index_var('j')
        RANGES[k] = v.n
        return Vec(v.n, Gen(k, Struct('ade::util::Indexed', {'i': k, 'v': I.vget(v, k)})), 'ade::util::Indexed')

    def fld(self, f):
        def h(I, e, st, fr, obj, args):
            v = I.val(st, args[0])
            if isinstance(v, Struct) and f in v.f:
                return v.f[f]
            raise unsup('element of an indexed sequence', v)
        return h

    def around(self, way, x, what):
        """the operations next to a data node: the graph does not number them"""
        k = index_var('e')
        n = U0(('makers' if way == 'in' else 'users') + '_of', x)
        RANGES[k] = n
        e = U('useedge' if way == 'out' else 'makeedge', x, k)
        return Vec(n, Gen(k, e if what == 'edge' else U('opnode', e)), 'ade::Handle<ade::%s>' % what.capitalize())

    # ---- edges: numbered per operation node
    def edges(self, way):
        def h(I, e, st, fr, obj, args):
            fam, x = self.node(I, st, obj)
            if fam != 'op':
                return self.around(way, x, 'edge')
            k = index_var('e')
            n = U0('n' + way, x)
            RANGES[k] = n
            return Vec(n, Gen(k, U(way + 'edge', x, k)), 'ade::Handle<ade::Edge>')
        return h

    def adj(self, way):
        def h(I, e, st, fr, obj, args):
            fam, x = self.node(I, st, obj)
            if fam != 'op':
                return self.around(way, x, 'node')
            k = index_var('e')
            n = U0('n' + way, x)
            RANGES[k] = n
            return Vec(n, Gen(k, U('datanode', U('src' if way == 'in' else 'dst', x, k))), 'ade::Handle<ade::Node>')
        return h

    def end(self, which):
        def h(I, e, st, fr, obj, args):
            x = I.val(st, obj)
            if not (isinstance(x, Term) and x.op == 'uf' and x.args[0] in ('inedge', 'outedge')):
                raise unsup('edge', x)
            own = (x.args[0] == 'inedge') == (which == 'dst')
            if own:
                return U('opnode', x.args[1][0])
            return U('datanode', U(which, *x.args[1]))
        return h

    def port(self, x):
        return U('inport' if x.args[0] == 'inedge' else 'outport', *x.args[1])

    # ---- placeholders and tensors
    def shape(self, I, e, st, fr, obj, args):
        x = I.val(st, obj)
        if not isinstance(x, Term):
            return NotImplemented
        return I.as_loc(st, Vec(U0('rank', x), uf('dims', (x,), 'a', True), 'int'))

    def empty(self, I, e, st, fr, obj, args):
        x = I.val(st, obj)
        if not isinstance(x, Term):
            return NotImplemented
        return T.eq(U0('elements', x), ZERO)

    def copy_to(self, I, e, st, fr, obj, args):
        x, y = I.val(st, obj), I.val(st, args[0])
        if not isinstance(x, Term) or not isinstance(y, Term):
            return NotImplemented
        self.emit(st, 'copy', (x, y), e['l'], fr.fn)
        return None

    def slot(self, I, st, loc):
        if not isinstance(loc, Loc) or not loc.path or not isinstance(loc.path[-1], tuple):
            raise unsup('tensor', loc)
        c = I.load(st, Loc(loc.cell, loc.path[:-1]))
        if isinstance(c, Vec) and isinstance(c.d, Named):
            return c.d.name, loc.path[-1][1]
        raise unsup('tensor sequence', c)

    def resize(self, I, e, st, fr, obj, args):
        v = I.val(st, obj)
        if isinstance(v, Vec) and (isinstance(v.d, Named) or v.n is ZERO and IN2.strip_t(v.et) == 'deepworks::Tensor') and isinstance(obj, Loc):
            d = v.d if isinstance(v.d, Named) else Named(self, str(obj.path[-1]) if obj.path else 'local%d' % obj.cell)
            n = I.num(st, args[0])
            self.sizes[d.name] = n
            I.store(st, obj, Vec(n, d, v.et))
            return None
        return NotImplemented

    def allocate(self, I, e, st, fr, obj, args):
        n, off = self.slot(I, st, obj)
        self.emit(st, 'allocate', (n, off, I.val(st, args[0])), e['l'], fr.fn)
        return None

    def zeros(self, I, e, st, fr, obj, args):
        n, off = self.slot(I, st, args[0])
        self.emit(st, 'zero', (n, off), e['l'], fr.fn)
        return None

    def create(self, I, e, st, fr, obj, args):
        return Opq('cpulayer', (I.val(st, args[0]),))

    def layer(self, m):
        def h(I, e, st, fr, obj, args):
            o = I.val(st, obj)
            if isinstance(o, Ptr):
                o = I.val(st, I.deref(st, o, fr, e['l']))
            if not (isinstance(o, Opq) and o.k == 'cpulayer'):
                raise unsup('cpu layer %r' % (o,), o)
            self.emit(st, m, (o.d[0],) + tuple(I.val(st, a) for a in args), e['l'], fr.fn)
            return None
        return h

    # ---- loops
    def linear(self, a, b):
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort == 'n':
            dlt = sub(b, a)
            if isconst(dlt) and cval(dlt) in (1, -1):
                return lambda k: add(a, mul(dlt, k))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            f = self.linear(a.off, b.off)
            return f and (lambda k: Ptr(a.base, f(k)))
        if isinstance(a, Opq) and isinstance(b, Opq) and a.k == b.k == 'riter':
            f = self.linear(a.d, b.d)
            return f and (lambda k: Opq('riter', f(k)))
        return None

    def counters(self, I, run_cond, run_inc, st, kv):
        NO = (None, None, None, None)
        try:
            s1 = st.copy()
            run_cond(s1)
            s2 = s1.copy()
            run_inc(s2)
        except (Unsupported, Dead):
            return NO
        ch = {c: self.linear(st.store[c], v) for c, v in s2.store.items() if c in st.store and not same_val(st.store[c], v)}
        if not ch or any(f is None for f in ch.values()):
            return NO
        k = kv if kv is not None else index_var('k')
        try:
            s2 = st.copy()
            for x, f in ch.items():
                s2.store[x] = f(k)
            c = run_cond(s2)
            n = I.trip(c, k, frozenset())
        except (Unsupported, Dead):
            return NO
        return k, n, ch, c

    def loop(self, I, node, run_cond, run_body, run_inc, st, fr, kv, extra=None):
        marks = (len(I.log), len(I.thr), len(I.parlog), dict(fr.env))

        def rollback():
            del I.log[marks[0]:], I.thr[marks[1]:], I.parlog[marks[2]:]
            fr.env.clear()
            fr.env.update(marks[3])
        k, n, ctrs, c = self.counters(I, run_cond, run_inc, st, kv)
        rollback()
        if n is None:
            s3 = st.copy()
            s3.assume(run_cond(s3))
            o = run_body(s3)
            rollback()
            if any(x is not None and not same_val(x.store[self.TR], st.store[self.TR]) for x in [o.norm] + o.cont):
                raise Unsupported('number of iterations of a loop over the graph (line %d)' % node['l'])
            return None
        if isconst(n):
            return None
        RANGES[k] = n
        s3 = st.copy()
        for x, f in list(ctrs.items()) + list((extra or {}).items()):
            s3.store[x] = f(k)
        run_cond(s3)
        s3.assume(c)
        s3.store[self.TR] = Opq('tape', ())
        before = dict(s3.store)
        keep = self.seen
        self.seen = set()
        o = run_body(s3)
        asked, self.seen = self.seen, keep | self.seen
        if o.ret or o.brk:
            rollback()
            raise Unsupported('a loop over the graph that ends early (line %d)' % node['l'])
        norm, _ = merge_many(s3.pc, [(y, None) for y in ([o.norm] if o.norm is not None else []) + o.cont])
        if norm is None:
            rollback()
            return None
        end = norm.store
        res = st.copy()
        if extra is None:
            # counters advanced by the body itself
            more = {x: self.linear(v, end[x]) for x, v in before.items() if x in end and x not in ctrs and not same_val(v, end[x])}
            more = {x: f for x, f in more.items() if f is not None}
            if more:
                rollback()
                return M.loop(self, I, node, run_cond, run_body, run_inc, st, fr, k, more)
        else:
            for x, f in extra.items():
                if not same_val(end.get(x), f(add(k, ONE))):
                    rollback()
                    raise Unsupported('a counter of the loop at line %d' % node['l'])
                res.store[x] = f(n)
            ctrs = {**ctrs, **extra}
        for c in self.tabs.values():
            if isinstance(c, tuple) and c[0].cell in end:
                before.setdefault(c[0].cell, c[1])
        for x in before:
            if x not in end or same_val(before[x], end[x]) or x in ctrs:
                continue
            if x == self.TR:
                continue
            g = self.grown(before[x], end[x], n, k)
            if g is None:
                rollback()
                raise Unsupported('loop at line %d changes %s from %r to %r' % (node['l'], I.cellinfo.get(x, x), before[x], end[x]))
            res.store[x] = g
            # the body ran with the content before the first iteration
            if asked & set(grew(x, (), before[x], end[x])):
                rollback()
                raise Unsupported('loop at line %d looks at the sequence it extends' % node['l'])
        t = end[self.TR]
        if not (isinstance(t, Opq) and not t.d):
            res.store[self.TR] = self.app(st.store[self.TR], (Rep(n, k, t, node['l'], fr.fn),))
        for x, f in ctrs.items():
            res.store[x] = f(n)
        return IN2.Out(res)

    def method(self, I, e, st, fr, cls, n, obj, args):
        if cls in ('std::vector', 'std::deque', 'std::list') and n not in ('push_back', 'emplace_back', 'reserve') and isinstance(obj, Loc):
            self.seen.add((obj.cell, tuple(obj.path)))
        return NotImplemented

    def grown(self, a, b, n, k):
        """the value after all iterations, from the value before and after a generic one"""
        if isinstance(a, Struct) and isinstance(b, Struct):
            f = dict(b.f)
            for x in b.f:
                if not same_val(a.f.get(x), b.f[x]):
                    f[x] = self.grown(a.f.get(x), b.f[x], n, k)
                    if f[x] is None:
                        return None
            return Struct(b.cls, f)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if isinstance(b.d, Table) and isinstance(a.d, Table) and a.d.k is b.d.k and a.d.elem == b.d.elem and not a.d.ups:
                if len(b.d.ups) == 1 and b.d.ups[0][0] is k and n is a.n:
                    return Vec(a.n, Table(k, b.d.ups[0][1]), a.et)
                if any(k in x.fv for x, _ in b.d.ups):
                    return None
            if isinstance(b.d, Table) and isinstance(a.d, Table) and a.d.k is b.d.k and a.d.elem == b.d.elem:
                # a loop over something else
                ups = []
                for x, w in b.d.ups:
                    v = a.d.get(x)
                    if not same_val(v, w):
                        w = self.grown(v, w, n, k)
                        if w is None:
                            return None
                    ups.append((x, w))
                return Vec(a.n, Table(a.d.k, a.d.elem, ups), a.et)
            if a.n is ZERO and b.n is ONE:
                x = b.d[0] if isinstance(b.d, tuple) else T.sel(b.d, ZERO)
                if isinstance(x, Term) and x.sort == 'n' and not scalar(b.et):
                    z = index_var('z')
                    RANGES[z] = n
                    return Vec(n, T.upd(T.afill(ZERO), [(z, n)], z, T.subst(x, {k: z})), a.et)
                return Vec(n, Gen(k, x), a.et)
            if a.n is b.n and isinstance(a.d, Term) and isinstance(b.d, Term) and b.d.op == 'upd' and b.d.args[0] is a.d and not b.d.args[1]:
                z = index_var('z')
                RANGES[z] = n
                m = {k: z}
                return Vec(a.n, T.upd(a.d, [(z, n)], T.subst(b.d.args[2], m), T.subst(b.d.args[3], m), T.subst(b.d.args[4], m)), a.et)
        return None


def grew(cell, path, a, b):
    """the sequences extended between a and b"""
    if isinstance(a, Struct) and isinstance(b, Struct):
        for x in b.f:
            if not same_val(a.f.get(x), b.f[x]):
                yield from grew(cell, path + (x,), a.f.get(x), b.f[x])
    elif isinstance(a, Vec) and isinstance(b, Vec) and a.n is not b.n:
        yield cell, path


def U0(name, *args):
    return T.fn('abs', (U(name, *args),))


def one_if(n):
    """the condition under which a count is 1 and not 0"""
    if n is ONE:
        return TRUE
    if n is ZERO:
        return FALSE
    if n.op == 'ite':
        a, b = one_if(n.args[1]), one_if(n.args[2])
        if a is not None and b is not None:
            return or_(and_(n.args[0], a), and_(not_(n.args[0]), b))
    return None


def under(x, c):
    """x where c holds"""
    cs = c.args if c.op == 'and' else (c,)
    while x.op == 'ite':
        if x.args[0] in cs or x.args[0] is c:
            x = x.args[1]
        elif not_(x.args[0]) in cs or not_(x.args[0]) is c:
            x = x.args[2]
        else:
            break
    return x


def hasmap(v):
    return isinstance(v, LMap) or isinstance(v, Struct) and any(isinstance(x, LMap) for x in v.f.values())


class LMap(Joined):
    """a map or set of any content (ver > 0) or empty (ver 0), and the keys added since"""

    def __init__(self, name, ver, ups=()):
        self.name, self.ver, self.ups = name, ver, tuple(ups)

    def has(self, key):
        r = uf('has_%s_%d' % (self.name, self.ver), (key,), 'b') if self.ver else FALSE
        for k, c in self.ups:
            r = or_(r, and_(c, TRUE if k is key else T.eq(k, key)))
        return r

    def add(self, key):
        return LMap(self.name, self.ver, [(k, c) for k, c in self.ups if k is not key] + [(key, TRUE)])

    def join(self, c, o):
        if not isinstance(o, LMap) or o.name != self.name or o.ver != self.ver:
            return None
        a, b = dict(self.ups), dict(o.ups)
        ks = list(a) + [k for k in b if k not in a]
        return LMap(self.name, self.ver, [(k, or_(and_(c, a.get(k, FALSE)), and_(not_(c), b.get(k, FALSE)))) for k in ks])

    def __eq__(self, o):
        return isinstance(o, LMap) and (self.name, self.ver, self.ups) == (o.name, o.ver, o.ups)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'LMap(%s,%d,%r)' % (self.name, self.ver, self.ups)


class Impls(Slots):
    def __init__(self, name, f):
        self.name, self.f = name, f

    def get(self, off):
        return self.f(off)

    def put(self, I, st, off, val, line):
        raise Unsupported('a change of the user\'s expression (line %d)' % line)


class Comp(Slots):
    """the elements of a generic loop that meet a condition"""

    def __init__(self, n, k, cond, x):
        self.n, self.k, self.cond, self.x = n, k, cond, x

    def get(self, off):
        raise Unsupported('element of a filtered sequence')

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return 9


class Raw(Slots):
    """metadata of nodes of the graph under construction"""

    def __init__(self, M, t):
        self.M, self.t = M, t

    def get(self, off):
        s = self.t.split('::')[-1]
        if s == 'Data':
            return Struct(self.t, {'s': U('oldstorage', off), 'id': U('oldid', off), 'ph': U('oldph', off)})
        raise Unsupported('metadata %s of a new node' % s)

    def put(self, I, st, off, val, line):
        self.M.emit(st, 'metaput', (off, val), line)
        return self

    def __eq__(self, o):
        return isinstance(o, Raw) and o.t == self.t

    def __hash__(self):
        return hash(self.t)


class TempKey(Exception):
    def __init__(self, line, fn):
        Exception.__init__(self, 'a node is recorded under the address of a temporary')
        self.line, self.fn = line, fn


class B(M):
    """graph construction from arbitrary expressions"""

    def __init__(self, ctx, d):
        M.__init__(self, ctx, d)
        I, st = d.I, d.st
        self.phc = d.cell(Vec(var('nph', True, 0), Impls('ph', self.phimpl), 'deepworks::Placeholder::Impl'))
        self.cc = d.cell(Vec(var('ncalls', True, 0), Impls('call', self.callimpl), 'deepworks::Call::Impl'))
        I.hooks.update({'deepworks::Placeholder::impl': self.impl(self.phc), 'deepworks::Call::impl': self.impl(self.cc),
                        'ade::TypedGraph::createNode': self.createNode, 'ade::Graph::createNode': self.createNode,
                        'ade::TypedGraph::link': self.link, 'ade::Graph::link': self.link, '$method': self.method,
                        'operator==': self.iteq(False), 'operator!=': self.iteq(True)})
        self.raws = {}
        self.work = []
        self.maploops = []
        self.vers = itertools.count(1)

    def phimpl(self, p):
        return Struct('deepworks::Placeholder::Impl', {'shape': Vec(U0('rank', p), uf('dims', (p,), 'a', True), 'int'),
                                                       'call': OptV(uf('hascall', (p,), 'b'), U('callof', p)), 'port': U('phport', p)})

    def callimpl(self, c):
        n = U0('nargs', c)
        return Struct('deepworks::Call::Impl', {'info': U('cinfo', c), 'args': Vec(n, gen(n, lambda j: U('arg', c, j)), 'deepworks::Placeholder')})

    def impl(self, cell):
        def h(I, e, st, fr, obj, args):
            x = I.val(st, obj)
            if isinstance(x, Ptr):
                x = I.val(st, I.deref(st, x, fr, e['l']))
            if not isinstance(x, Term):
                raise unsup('expression', x)
            return cell + ('i', x)
        return h

    def key(self, I, st, x, line, fn):
        x = I.val(st, x)
        if isinstance(x, Term):
            return x
        if isinstance(x, Ptr) and x.base is not None:
            b = x.base
            if b.cell in (self.phc.cell, self.cc.cell) and (len(b.path) == 1 or not b.path and x.off is not None):
                return b.path[0][1] if b.path else x.off
            raise TempKey(line, fn)
        raise unsup('key', x)

    def construct(self, I, e, st, fr, cls):
        if cls.startswith(('std::unordered_set<', 'std::set<', 'std::unordered_map<', 'std::map<')) and e.get('ck') == 'default' and \
                ('deepworks::Placeholder' in cls or 'deepworks::Call' in cls):
            return LMap('%s%d' % ('data' if 'Placeholder' in cls.split(',')[0] else 'op', next(CTR)), 0)
        return M.construct(self, I, e, st, fr, cls)

    # ---- maps and sets
    def method(self, I, e, st, fr, cls, n, obj, args):
        if obj is None:
            return NotImplemented
        M.method(self, I, e, st, fr, cls, n, obj, args)
        v = I.val(st, obj)
        if isinstance(v, Opq) and v.k == 'lit':
            if n in ('operator->', 'operator*'):
                l, key = v.d
                key = U('nokey') if key is None else key
                m = I.load(st, l)
                s = Struct('std::pair', {'first': key, 'second': U('val_' + m.name, key)})
                return I.as_loc(st, s) if n == 'operator*' else Ptr(I.as_loc(st, s))
            if n == 'operator=' and isinstance(obj, Loc):
                I.store(st, obj, I.val(st, args[0]))
                return obj
            raise Unsupported('iterator method ' + n)
        if not isinstance(v, LMap):
            return NotImplemented
        if not isinstance(obj, Loc):
            raise unsup('map', obj)
        l = e['l']
        if n in ('end', 'cend'):
            return Opq('lit', (obj, None))
        if n in ('size',):
            return U('size_' + v.name)
        if n == 'reserve':
            return None
        if n == 'empty':
            raise Unsupported('emptiness of a map')
        if n == 'operator=':
            I.store(st, obj, I.val(st, args[0]))
            return obj
        if n in ('find', 'count', 'contains', 'at'):
            k = self.key(I, st, args[0], l, fr.fn)
            c = st.decide(v.has(k))
            if n == 'contains':
                return c
            if n == 'count':
                return tonum(c)
            if n == 'at':
                if c is FALSE:
                    I.throw(st, fr, l, 'std::out_of_range')
                if c is not TRUE:
                    I.thr.append((st.fork(not_(c)), IN2.Exc('std::out_of_range', None, l, fr.fn, fr.file)))
                    st.assume(c)
                return U('val_' + v.name, k)
            if c is TRUE:
                return Opq('lit', (obj, k))
            if c is FALSE:
                return Opq('lit', (obj, None))
            return Gate(c, Opq('lit', (obj, k)), Opq('lit', (obj, None)))
        if n in ('emplace', 'insert', 'try_emplace', 'operator[]'):
            x = None
            if n == 'insert' and len(args) == 1:
                p = I.val(st, args[0])
                if isinstance(p, Struct) and 'first' in p.f:
                    k, x = self.key(I, st, p.f['first'], l, fr.fn), p.f['second']
                else:
                    k = self.key(I, st, p, l, fr.fn)
            else:
                k = self.key(I, st, args[0], l, fr.fn)
                x = I.val(st, args[1]) if len(args) > 1 else None
            c = st.decide(v.has(k))
            if c is not TRUE:
                s1, s2 = st.fork(c) if c is not FALSE else None, st.fork(not_(c)) if c is not FALSE else st
                self.emit(s2, 'default' if n == 'operator[]' else 'record', (v.name, k, x), l, fr.fn)
                if n != 'operator[]' and isinstance(x, Term):
                    self.same[x] = U('val_' + v.name, k)
                I.store(s2, obj, v.add(k))
                if s1 is not None:
                    st.take(merge_states(c, s1, s2))
            if n == 'operator[]':
                return U('val_' + v.name, k)
            return Struct('std::pair', {'first': Opq('lit', (obj, k)), 'second': not_(c)})
        raise Unsupported('map method ' + n)

    def iteq(self, neg):
        def h(I, e, st, fr, obj, args):
            a, b = (I.val(st, x) for x in (([obj] if obj is not None else []) + list(args))[:2])

            def one(a, b):
                if isinstance(a, Gate):
                    return T.ite(a.c, one(a.a, b), one(a.b, b))
                if isinstance(b, Gate):
                    return T.ite(b.c, one(a, b.a), one(a, b.b))
                if isinstance(a, Opq) and isinstance(b, Opq) and a.k == b.k == 'lit':
                    if a.d[1] is None or b.d[1] is None:
                        return TRUE if a.d[1] is b.d[1] else FALSE
                    return T.eq(a.d[1], b.d[1])
                raise KeyError
            try:
                r = one(a, b)
            except KeyError:
                return NotImplemented
            return not_(r) if neg else r
        return h

    # ---- graph
    def createNode(self, I, e, st, fr, obj, args):
        x = index_var('new')
        self.emit(st, 'create', (x,), e['l'], fr.fn)
        return x

    def link(self, I, e, st, fr, obj, args):
        x = U('edge', const(next(CTR)))
        self.emit(st, 'link', (I.val(st, args[0]), I.val(st, args[1]), x), e['l'], fr.fn)
        return x

    def metadata(self, I, e, st, fr, obj, args):
        if not args:
            return Opq('meta', ('graph', None))
        x = I.val(st, args[0])
        if not isinstance(x, Term):
            raise unsup('handle %r' % (x,), x)
        return Opq('meta', ('raw', x))

    def mset(self, I, e, st, fr, obj, args):
        o = I.val(st, obj)
        self.emit(st, 'ginfo' if o.d[0] == 'graph' else 'meta', (o.d[1], I.val(st, args[0])), e['l'], fr.fn)
        return None

    def mget(self, I, e, st, fr, obj, args):
        o = I.val(st, obj)
        t = IN2.strip_t(e['t'])
        if o.d[0] != 'raw':
            raise Unsupported('graph metadata during construction')
        c = self.raws.get(t)
        if c is None:
            v = Vec(var('nnodes', True, 0), Raw(self, t), t)
            c = self.raws[t] = (I.new_cell(st, v, 'metadata ' + t), v)
        if c[0].cell not in st.store:
            st.store[c[0].cell] = c[1]
        return c[0] + ('i', o.d[1])

    # ---- loops
    def fresh_maps(self, I, st):
        """all maps get unknown content; returns {(cell, path): old}"""
        old = {}

        def f(v):
            if isinstance(v, LMap):
                return LMap(v.name, next(self.vers))
            if isinstance(v, Struct) and any(isinstance(x, LMap) for x in v.f.values()):
                return Struct(v.cls, {k: f(x) for k, x in v.f.items()})
            return v
        for c, v in list(st.store.items()):
            w = f(v)
            if w is not v:
                old[c] = (v, w)
                st.store[c] = w
        return old

    def keep_maps(self, a, b, after):
        """map values after a loop: unchanged ones stay"""
        if isinstance(a, LMap):
            return a if b == after else LMap(a.name, next(self.vers))
        if isinstance(a, Struct):
            return Struct(a.cls, {k: self.keep_maps(x, b.f.get(k), after.f.get(k)) if isinstance(x, LMap) else after.f.get(k) for k, x in a.f.items()})
        return after

    def loop(self, I, node, run_cond, run_body, run_inc, st, fr, kv):
        k, n, ctrs, c = self.counters(I, run_cond, run_inc, st, kv)
        if n is not None:
            if isconst(n):
                return None
            # maps the body leaves alone keep what is known about them
            marks = len(I.thr), len(I.log), dict(fr.env), len(self.work)
            r = M.loop(self, I, node, run_cond, run_body, run_inc, st.copy(), fr, k)
            if r is None or all(same_val(v, r.norm.store[x]) or not hasmap(v) for x, v in st.store.items()):
                return r
            del I.thr[marks[0]:], I.log[marks[1]:], self.work[marks[3]:]
            fr.env.clear()
            fr.env.update(marks[2])
        s0 = st.copy()
        old = self.fresh_maps(I, s0)
        if n is not None:
            r = M.loop(self, I, node, run_cond, run_body, run_inc, s0, fr, k)
            if r is None:
                return None
            res = r.norm
        else:
            res = self.worklist(I, node, run_cond, run_body, run_inc, s0, fr)
        for x, (v, w) in old.items():
            res.store[x] = self.keep_maps(v, w, res.store[x])
        return IN2.Out(res)

    def worklist(self, I, node, run_cond, run_body, run_inc, st, fr):
        cands = []
        for x, v in st.store.items():
            if isinstance(v, Vec) and scalar(v.et):
                s1, s2 = st.copy(), st.copy()
                s1.store[x], s2.store[x] = vec([], v.et), vec([U('cur')], v.et)
                try:
                    if run_cond(s1) is FALSE and run_cond(s2) is TRUE:
                        cands.append(x)
                except (Unsupported, Dead):
                    pass
        if len(cands) != 1:
            raise Unsupported('loop without a recognised count or worklist (line %d)' % node['l'])
        w = cands[0]
        init = st.store[w]
        cur = U('cur')
        s3 = st.copy()
        accs = {x: v for x, v in st.store.items() if isinstance(v, Vec) and scalar(v.et) and x != w}
        # the sequences it may append to start empty, so that their content is what the iteration appends
        for x, v in accs.items():
            s3.store[x] = vec([], v.et)
        s3.store[w] = vec([cur], init.et)
        s3.store[self.TR] = Opq('tape', ())
        heads = self.fresh_maps(I, s3)
        run_cond(s3)
        before = dict(s3.store)
        o = run_body(s3)
        if o.ret or o.brk:
            raise Unsupported('a worklist loop that ends early (line %d)' % node['l'])
        norm, _ = merge_many(s3.pc, [(y, None) for y in ([o.norm] if o.norm is not None else []) + o.cont])
        run_inc(norm)
        res = st.copy()
        app = {}
        for x in before:
            v = norm.store.get(x)
            if x == w or x == self.TR or v is None or same_val(before[x], v):
                continue
            if x in accs:
                if accs[x].n is not ZERO:
                    raise Unsupported('worklist loop appends to a sequence that is not empty')
                app[x] = v
                nm = 'item%d' % len(app)
                n2 = U0('n_' + nm + 's')
                res.store[x] = Vec(n2, gen(n2, lambda k, nm=nm: U(nm, k)), accs[x].et)
                self.work_names = dict(getattr(self, 'work_names', {}), **{nm: x})
            elif isinstance(v, LMap) or isinstance(v, Struct) and any(isinstance(y, LMap) for y in v.f.values()):
                res.store[x] = v
            else:
                raise Unsupported('worklist loop changes %s' % I.cellinfo.get(x, x))
        res.store[w] = vec([], init.et)
        tr = norm.store[self.TR]
        self.work.append(dict(init=init, pushed=norm.store[w], app=app, maps={x: v for x, v in before.items() if isinstance(v, LMap)}, end=norm, trace=tr,
                              line=node['l'], fn=fr.fn, names=dict(self.work_names) if app else {}, et={x: accs[x].et for x in app}, before_maps=heads))
        return res

    def grown(self, a, b, n, k):
        b = vsub(b, self.same) if self.same else b
        if isinstance(a, LMap) and isinstance(b, LMap):
            return b
        if isinstance(a, Vec) and isinstance(b, Vec) and a.n is ZERO and not isconst(b.n) and isinstance(b.d, Term):
            # an element or none
            c = one_if(b.n)
            if c is not None:
                return Vec(U0('ncomp', const(next(CTR))), Comp(n, k, c, under(T.sel(b.d, ZERO), c)), a.et)
        if isinstance(a, Vec) and isinstance(b, Vec) and a.n is ZERO and isinstance(b.d, Comp):
            # those of all iterations
            return Vec(U0('ncomp', const(next(CTR))), Comp(n, k, TRUE, b), a.et)
        return M.grown(self, a, b, n, k)


# ------------------------------------------------------------ the CPU backend
def backend(ctx, d):
    """a backend over an arbitrary graph"""
    m = M(ctx, d)
    st = d.st
    info = Struct('deepworks::graph::Info', {
        'in_nhs': Vec(NIN, gen(NIN, lambda k: U('datanode', U('inpos', k))), 'ade::Handle<ade::Node>'),
        'out_nhs': Vec(NOUT, gen(NOUT, lambda k: U('datanode', U('outpos', k))), 'ade::Handle<ade::Node>'),
        'num_data_nodes': NDATA})
    m.tabs[('deepworks::graph::Info', 'graph')] = d.cell(info)
    f = d.fn(BE + '::CPUBackend', 1)
    r = ctx.p.rec(f['clst'])
    loc = d.cell(UNDEF, BE)
    d.I.store(st, loc, d.I.shell(r, st, d.fr, False))
    d.I.call_fn(f, st, loc, [d.cell(Opq('adegraph'))], 0, d.fr)
    return m, loc


def gen(n, f):
    k = index_var('g')
    RANGES[k] = n
    return Gen(k, f(k))


def flat(t, dec):
    """entries of a trace when the conditions are settled by dec"""
    while isinstance(t, Gate):
        c = dec(t.c)
        if c is None:
            raise Unsupported('a trace that depends on %s' % T.show(t.c))
        t = t.a if c else t.b
    return list(t.d)


def nodec(c):
    return True if c is TRUE else False if c is FALSE else None


def casedec(m):
    def dec(c):
        c = T.subst(c, m) if not callable(m) else m(c)
        return nodec(c)
    return dec


def tsub(t, x, y):
    """replace the subterm x by y"""
    memo = {}

    def f(q):
        if q is x:
            return y
        if q in memo:
            return memo[q]
        r = q
        if q.op in ('eq0', 'ge0', 'gt0'):
            a = f(q.args[0])
            r = q if a is q.args[0] else {'eq0': lambda: T.eq(a, ZERO), 'ge0': lambda: T.ge(a, ZERO), 'gt0': lambda: T.gt(a, ZERO)}[q.op]()
        elif q.op in ('and', 'or'):
            r = (and_ if q.op == 'and' else or_)(*[f(a) for a in q.args])
        elif q.op == 'not':
            r = not_(f(q.args[0]))
        elif q.op == 'ite':
            r = T.ite(f(q.args[0]), f(q.args[1]), f(q.args[2]))
        elif q.op == 'fn':
            r = T.fn(q.args[0], tuple(f(a) for a in q.args[1]), *q.args[2:])
        elif q.op == 'poly':
            r = ZERO
            for c, mon in q.args:
                p = const(c)
                for a in mon:
                    b, e = a if isinstance(a, tuple) else (a, 1)
                    for _ in range(e):
                        p = mul(p, f(b))
                r = add(r, p)
        memo[q] = r
        return r
    return f(t)


def kinds_in(x, kinds):
    if isinstance(x, Rep):
        return any(kinds_in(y, kinds) for _, t in leaves(x.items) for y in t.d)
    return x.kind in kinds


def same(a, b):
    if a is b or a == b:
        return True
    if isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort == 'n':
        return sub(a, b) is ZERO
    if isinstance(a, Vec) and isinstance(b, Vec):
        return same(a.n, b.n) and seq_is(a, b.n, lambda z: elem(b, z))
    return False


def elem(v, z):
    if isinstance(v.d, Gen):
        return vsub(v.d.elem, {v.d.k: z})
    if isinstance(v.d, Slots):
        return v.d.get(z)
    if isinstance(v.d, Term):
        return T.sel(v.d, z)
    if isconst(z) and cval(z) < len(v.d):
        return v.d[cval(z)]
    raise Unsupported('element of a sequence')


def seq_is(v, n, f):
    """a sequence of n elements f(z)"""
    if not isinstance(v, Vec):
        raise unsup('sequence', v)
    if isinstance(v.d, Comp):
        c = v.d
        while True:
            if same(c.n, n):
                raise Unsupported('a filtered sequence')
            if not (isinstance(c.x, Vec) and isinstance(c.x.d, Comp)):
                # collected while looking at something else: in the order of that
                return False
            c = c.x.d
    if not same(v.n, n):
        return False
    if isinstance(v.d, tuple):
        return all(same(x, f(const(i))) for i, x in enumerate(v.d))
    z = index_var('z')
    RANGES[z] = n
    return same(elem(v, z), f(z))


def show(x):
    if isinstance(x, Term):
        return T.show(x)
    if isinstance(x, Vec):
        z = index_var('z')
        try:
            return '[%s for z < %s]' % (show(elem(x, z)), T.show(x.n))
        except Unsupported:
            return '[%s elements]' % T.show(x.n)
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(show(y) for y in x)
    return str(x)


def where_ev(ctx, x, fallback):
    return fallback


def loops(items, kinds, what):
    """the loops (or single entries) of a trace with entries of these kinds"""
    return [(p, x) for p, x in enumerate(items) if kinds_in(x, kinds)]


def body(rep, dec=nodec):
    return flat(rep.items, dec)


def tvec(d, n, u):
    return d.cell(Vec(n, gen(n, lambda k: U(u, k)), 'deepworks::Tensor'))


def puts_ok(ctx, name, items, last, want, wh):
    """exactly these bindings, all before entry `last`: want[(slots, position function name)] = (n, tensor)"""
    seen = set()
    bound = [((sl, ev.d[1].args[0]), ev) for ev, _, _ in walk(items) if ev.kind == 'put' for sl in [ev.d[0]] if isinstance(ev.d[1], Term) and ev.d[1].op == 'uf']
    for ev, _, _ in walk(items):
        if ev.kind == 'copy':
            y = ev.d[1]
            if y.op == 'uf' and y.args[0].startswith('slot_') and y.args[1] and y.args[1][0].op == 'uf':
                if any(b == (y.args[0][5:], y.args[1][0].args[0]) for b, _ in bound):
                    ctx.violation('%s: a tensor the caller passed to an earlier call is not written' % name, wh, dict(line=ev.line, copies='%s to %s' % (show(ev.d[0]), show(y))))
                    return
            for key, (n, u) in want.items():
                if u != 'uin' and not any(mentions(x, (u,)) for e, _, _ in walk(items) if e.kind in ('put', 'copy') for x in [e.d[-1]] if isinstance(x, Term)):
                    ctx.violation('%s: the tensors the caller passed take part' % name, wh, dict(line=ev.line, never_bound=u))
                    return
            raise Unsupported('copies between tensors while binding')
    for p, x in enumerate(items):
        if not kinds_in(x, ('put',)):
            continue
        if not isinstance(x, Rep):
            raise Unsupported('binding outside a loop')
        for ev in body(x):
            if isinstance(ev, Rep):
                raise Unsupported('nested binding')
            if ev.kind != 'put':
                continue
            sl, off, val = ev.d
            hit = None
            for key, (n, u) in want.items():
                if key[0] == sl and same(x.n, n) and same(off, U(key[1], x.k)) and same(val, U(u, x.k)):
                    hit = key
            if hit is None:
                ctx.violation('%s: user tensors are bound to the inputs and outputs in the listed order' % name, wh,
                              dict(line=x.line, binds='%s[%s] = %s for %s < %s' % (sl, show(off), show(val), show(x.k), show(x.n))))
                return
            if p > last:
                ctx.violation('%s: tensors are bound before the operations run' % name, wh, dict(line=x.line))
                return
            seen.add(hit)
    miss = [k for k in want if k not in seen]
    ctx.rule('%s: user tensors are bound to the inputs and outputs in the listed order' % name, not miss, wh,
             dict(not_bound=[str(k) for k in miss]))


def one_loop(ctx, name, items, kinds, wh):
    ls = loops(items, kinds, name)
    if len(ls) != 1 or not isinstance(ls[0][1], Rep):
        if not ls:
            ctx.violation(name, wh, dict(found='no such call'))
            return None
        if all(isinstance(x, Rep) for _, x in ls) and all(same(x.n, NOPS) for _, x in ls) and len(kinds) == 1:
            ctx.violation(name, wh, dict(found='%d loops over the operations' % len(ls)))
            return None
        raise Unsupported('%s: %d places' % (name, len(ls)))
    return ls[0]


def graph_section(ctx):
    wh = ctx.where(GB + '::build')
    with ctx.section('graph construction', wh):
        d = ctx.drv()
        try:
            m = build_graph(ctx, d)
        except TempKey as e:
            ctx.violation('construction: nodes are found by the expression they stand for', wh, dict(line=e.line, function=e.fn, reason=str(e)))
            return
        unrolling(ctx, m, wh)
        construction(ctx, m, d.st, wh)
        throws(ctx, d, 'construction: every acyclic expression is accepted', wh)


@prop('C33', 'abstract interpretation of graph construction and execution over one generic operation, tensor and edge of an arbitrary graph; '
      'the extracted effect trace (loops as repetitions) is compared with the required one')
def c33(ctx):
    graph_section(ctx)
    wf, wb, wc = ctx.where(BE + '::forward'), ctx.where(BE + '::backward'), ctx.where(BE + '::CPUBackend')
    with ctx.section('backend', wc):
        d = ctx.drv()
        m, l = backend(ctx, d)
        st = d.st
        cons = m.take(st)
        d.call(BE + '::forward', [tvec(d, NIN, 'uin'), tvec(d, NOUT, 'uout')], l)
        fwd = flat(m.take(st), nodec)
        d.call(BE + '::backward', [tvec(d, NIN, 'uin'), tvec(d, NOUT, 'uout'), tvec(d, NOUT, 'ugrad')], l)
        bwd = flat(m.take(st), nodec)
        mem, grad = run_forward(ctx, fwd, wf), None
        if mem:
            grad = run_backward(ctx, bwd, mem, m, wb)
        if mem and grad:
            allocated(ctx, flat(cons, nodec), m, mem, grad, wc)
        throws(ctx, d, 'backend: an acyclic graph of supported layers is accepted', wc)


GB = 'deepworks::GraphBuilder'


def build_graph(ctx, d):
    m = B(ctx, d)
    l = d.new(GB, [d.cell(Opq('adegraph'))])
    pv = [d.cell(Vec(n, gen(n, lambda k: U(u, k)), 'deepworks::Placeholder')) for n, u in ((NIN, 'in'), (NOUT, 'out'))]
    d.call(GB + '::build', pv, l)
    return m


def walk(items, conds=(), reps=()):
    """all entries with the conditions and loops around them"""
    if isinstance(items, list):
        items = Opq('tape', tuple(items))
    for c, t in leaves(items):
        for x in t.d:
            if isinstance(x, Rep):
                yield from walk(x.items, conds + (c,), reps + (x,))
            else:
                yield x, conds + (c,), reps


def imp_not(c, a):
    """c implies not a"""
    return never(and_(c, a))


def unrolling(ctx, m, wh):
    """every placeholder the outputs depend on is collected once, and its operation with it"""
    if len(m.work) != 1:
        raise Unsupported('%d worklist loops' % len(m.work))
    w = m.work[0]
    cur = U('cur')
    at = dict(line=w['line'], function=w['fn'])
    kinds = {}
    for x, v in w['app'].items():
        kinds.setdefault(w['et'][x].split('::')[-1], []).append((x, v))
    if set(kinds) != {'Placeholder', 'Call'} or any(len(v) != 1 for v in kinds.values()):
        raise Unsupported('sequences collected by the traversal: %s' % sorted(kinds))
    got = {}
    for k, [(x, v)] in kinds.items():
        c, e = FALSE, None
        for g, q in leaves(v):
            o = one_if(q.n) if isinstance(q, Vec) else None
            if o is None:
                raise Unsupported('number of elements collected in an iteration')
            c = or_(c, and_(g, o))
            if and_(g, o) is not FALSE:
                e = under(elem(q, ZERO), o)
        got[k] = (c, e)
    heads = [v for v in w['maps'].values()]
    if len(heads) != 1:
        raise Unsupported('%d visited sets' % len(heads))
    head = heads[0]
    seen = head.has(cur)
    hc = uf('hascall', (cur,), 'b')
    cd, ed = got['Placeholder']
    co, eo = got['Call']
    ctx.rule('traversal: the placeholder taken from the worklist is collected', same(ed, cur), wh, dict(at, collected=show(ed)))
    ctx.rule('traversal: the operation collected is the one that made the placeholder', eo is None or same(eo, U('callof', cur)), wh, dict(at, collected=show(eo)))
    # what is pushed
    push = []
    for g, q in leaves(w['pushed']):
        if isinstance(q, Vec) and isinstance(q.d, Comp):
            push.append((g, q.d.n, q.d.k, q.d.cond, q.d.x))
        elif isinstance(q, Vec) and isinstance(q.d, Gen):
            push.append((g, q.n, q.d.k, TRUE, q.d.elem))
        elif isinstance(q, Vec) and isinstance(q.d, tuple) and not q.d:
            push.append((g, ZERO, None, TRUE, None))
        else:
            raise unsup('worklist after an iteration', q)
    endmaps = [v for x, v in w['end'].store.items() if x in w['maps']]
    # marks made in the iteration
    rec = [(x, c, r) for x, c, r in walk(w['trace']) if x.kind == 'record' and x.d[0] == head.name]
    mark_cur = [and_(*c) for x, c, r in rec if not r and same(x.d[1], cur)]
    pop_guard = imp_not(cd, seen)
    mark_push = [x for x, c, r in rec if r]
    if pop_guard:
        marked = or_(seen, *mark_cur)
        ctx.rule('traversal: a placeholder is collected at most once', imp_not(cd, not_(marked)), wh, dict(at, collected_when=show(cd), marked_when=show(marked)))
        need = not_(seen)
        init_ok = seq_is(w['init'], NOUT, lambda z: U('out', z)) if not isinstance(w['init'].d, Comp) else None
    elif mark_push:
        raise Unsupported('placeholders are marked when pushed')
    else:
        ctx.violation('traversal: a placeholder is collected at most once', wh,
                      dict(at, reason='a placeholder that several operations use (or one operation uses twice) is pushed and collected once per use',
                           collected_when=show(cd)))
        return False
    if init_ok is None:
        raise Unsupported('initial worklist')
    ctx.rule('traversal: starts from every output', init_ok, wh, dict(at, initial=show(w['init'])))
    ctx.rule('traversal: every placeholder reached is collected', imp_not(need, not_(cd)), wh, dict(at, collected_when=show(cd)))
    ctx.rule('traversal: the operation of every placeholder reached is collected, once', co is and_(cd, hc) or (imp_not(and_(need, hc), not_(co)) and imp_not(co, not_(and_(cd, hc)))),
             wh, dict(at, collected_when=show(co)))
    # every argument of the operation is pushed unless it was visited
    want_n = U0('nargs', U('callof', cur))
    for g, n, k, c, x in push:
        act = and_(g, need, hc)
        if never(act):
            continue
        if n is ZERO:
            ctx.violation('traversal: every argument of an operation is visited', wh, dict(at, pushes='nothing', when=show(act)))
            continue
        if not same(n, want_n):
            ctx.violation('traversal: every argument of an operation is visited', wh, dict(at, pushes='%s of %s arguments' % (show(n), show(want_n))))
            continue
        arg = U('arg', U('callof', cur), k)
        vis = endmaps[0].has(arg) if endmaps else FALSE
        good = same(x, arg) and never(and_(act, not_(vis), not_(head.has(arg)), not_(c)))
        ctx.rule('traversal: every argument of an operation is visited', good, wh, dict(at, pushes=show(x), when=show(c)))
    return True


def construction(ctx, m, st, wh):
    items = m.take(st)
    evs = list(walk(items))
    nm = {v: k for k, v in (m.work[0]['names'] if m.work else {}).items()}
    names = {m.work[0]['et'][x].split('::')[-1]: n for x, n in nm.items()}
    P, C = names.get('Placeholder'), names.get('Call')
    if not P or not C:
        raise Unsupported('names of the collected sequences')
    maps = {}
    # nodes: one per placeholder and one per operation
    for x, conds, reps in evs:
        if x.kind != 'create':
            continue
        new = x.d[0]
        path = and_(*conds)
        mine = [(y, c) for y, c, r in evs if c == conds and r == reps]
        recs = [y for y, _ in mine if y.kind == 'record' and y.d[2] is new]
        metas = {y.d[1].cls.split('::')[-1]: y.d[1] for y, _ in mine if y.kind == 'meta' and y.d[0] is new and isinstance(y.d[1], Struct)}
        at = dict(line=x.line, function=x.fn)
        if len(recs) != 1:
            ctx.violation('construction: a node is recorded for what it stands for', wh, dict(at, recorded=len(recs)))
            continue
        mp, key, _ = recs[0].d
        kind = 'data' if mp.startswith('data') else 'op'
        maps[kind] = mp
        ty = metas.get('Type')
        good = ty is not None and same(ty.f['t'], m.enumc('OP' if kind == 'op' else 'DATA'))
        ctx.rule('construction: a node carries its type', good, wh, dict(at, type=str(ty)))
        if kind == 'op':
            o = metas.get('Op')
            ctx.rule('construction: an operation node carries the layer of its operation', o is not None and same(o.f['info'], U('cinfo', key)), wh, dict(at, op=str(o)))
        else:
            o = metas.get('Data')
            ctx.rule('construction: a data node carries its placeholder and is internal at first',
                     o is not None and same(o.f['ph'], key) and same(o.f['s'], m.storage('INTERNAL')), wh, dict(at, data=str(o)))
    for x, conds, reps in evs:
        if x.kind == 'record' and not any(y.kind == 'create' and y.d[0] is x.d[2] for y, c, r in evs):
            raise Unsupported('a record of something else')
        if x.kind == 'default':
            ctx.violation('construction: every input and output of the user gets a node', wh,
                          dict(line=x.line, function=x.fn, key=show(x.d[1]), reason='looked up without having been created: a null handle is stored'))
            return
    if set(maps) != {'data', 'op'}:
        raise Unsupported('node maps')
    ctx.rule('construction: every input and output of the user gets a node', True, wh)
    dn, on = (lambda p: U('val_' + maps['data'], p)), (lambda c: U('val_' + maps['op'], c))
    top = flat(items, nodec)
    # links
    links = [(x, c, r) for x, c, r in evs if x.kind == 'link']
    ins, outs, bad = [], [], []
    for x, c, r in links:
        a, b, e = x.d
        a, b = vsub(a, m.same), vsub(b, m.same)
        ports = [y.d[1] for y, c2, r2 in evs if y.kind == 'meta' and y.d[0] is e and isinstance(y.d[1], Struct) and c2 == c and r2 == r]
        pt = ports[0].f.get('p') if len(ports) == 1 else None
        if len(r) == 2 and same(r[0].n, U0('n_' + C + 's')) and same(a, dn(U('arg', U(C, r[0].k), r[1].k))) and same(b, on(U(C, r[0].k))) \
                and same(r[1].n, U0('nargs', U(C, r[0].k))):
            ins.append((x, c, r, pt is not None and same(pt, r[1].k)))
        elif len(r) == 1 and same(r[0].n, U0('n_' + P + 's')) and same(a, on(U('callof', U(P, r[0].k)))) and same(b, dn(U(P, r[0].k))):
            outs.append((x, c, r, pt is not None and same(pt, U('phport', U(P, r[0].k)))))
        else:
            bad.append(x)
    if bad:
        ctx.violation('construction: links join an operation with its arguments and results', wh,
                      dict(line=bad[0].line, link='%s -> %s' % (show(bad[0].d[0]), show(bad[0].d[1]))))
        return
    for what, ls in (('arguments', ins), ('results', outs)):
        ctx.rule('construction: %s are numbered in their order' % what, all(l[3] for l in ls), wh, dict(line=ls[0][0].line if ls else 0))
        want = TRUE if what == 'arguments' else None
        tot = {}
        for x, c, r, _ in ls:
            tot.setdefault(r[0], []).append(and_(*c))
        ok = len(tot) == 1
        if ok:
            [(r0, cs)] = tot.items()
            need = TRUE if what == 'arguments' else uf('hascall', (U(P, r0.k),), 'b')
            once = all(never(and_(x, y)) for i, x in enumerate(cs) for y in cs[:i])
            u = or_(*cs)
            ok = once and valid_iff(u, need)
        ctx.rule('construction: an operation is linked to each of its %s once' % what, ok, wh, dict(line=ls[0][0].line if ls else 0, places=len(tot)))
    # what the model remembers about the graph
    gi = [x for x in top if not isinstance(x, Rep) and x.kind == 'ginfo']
    if len(gi) != 1:
        raise Unsupported('graph information set %d times' % len(gi))
    g = gi[0].d[1].f
    at = dict(line=gi[0].line)
    ctx.rule('construction: inputs are listed in the order of the user', seq_is(g['in_nhs'], NIN, lambda z: dn(U('in', z))), wh, dict(at, inputs=show(g['in_nhs'])))
    ctx.rule('construction: outputs are listed in the order of the user', seq_is(g['out_nhs'], NOUT, lambda z: dn(U('out', z))), wh, dict(at, outputs=show(g['out_nhs'])))
    ctx.rule('construction: data nodes are counted', same(g['num_data_nodes'], U('size_' + maps['data'])), wh, dict(at, count=show(g['num_data_nodes'])))
    mp = [(x, c, r) for x, c, r in evs if x.kind == 'metaput']
    for n, u, sn in ((NIN, 'in', 'INPUT'), (NOUT, 'out', 'OUTPUT')):
        hit = [x for x, c, r in mp if len(r) == 1 and same(r[0].n, n) and same(x.d[0], dn(U(u, r[0].k))) and same(x.d[1].f['s'], m.storage(sn)) and and_(*c) is TRUE]
        ctx.rule('construction: %ss are marked' % sn.lower(), len(hit) >= 1, wh, dict(marks=len(mp)))
    other = [x for x, c, r in mp if not (len(r) == 1 and any(same(x.d[0], dn(U(u, r[0].k))) and same(x.d[1].f['s'], m.storage(sn))
                                                           for u, sn in (('in', 'INPUT'), ('out', 'OUTPUT'))))]
    ctx.rule('construction: nothing else is marked', not other, wh, dict(line=other[0].line if other else 0))
    kept = [x for x, c, r in mp if not (same(x.d[1].f['id'], U('oldid', x.d[0])) and same(x.d[1].f['ph'], U('oldph', x.d[0])))]
    ctx.rule('construction: marking leaves the placeholder alone', not kept, wh, dict(line=kept[0].line if kept else 0))


def never(c):
    """c is false for every value of the propositions in it"""
    return c is FALSE or valid_iff(c, FALSE)


def valid_iff(a, b):
    """a <-> b for every value of the propositions in them"""
    ps = []

    def atoms(t):
        if t.op in ('and', 'or', 'not'):
            for x in t.args:
                atoms(x)
        elif t not in (TRUE, FALSE) and t not in ps:
            ps.append(t)
    atoms(a)
    atoms(b)
    if len(ps) > 8:
        raise Unsupported('conditions of a link')

    def ev(t, m):
        if t is TRUE or t is FALSE:
            return t is TRUE
        if t.op == 'and':
            return all(ev(x, m) for x in t.args)
        if t.op == 'or':
            return any(ev(x, m) for x in t.args)
        if t.op == 'not':
            return not ev(t.args[0], m)
        return m[t]
    return all(ev(a, m) == ev(b, m) for v in itertools.product((False, True), repeat=len(ps)) for m in [dict(zip(ps, v))])


def throws(ctx, d, name, wh):
    ctx.no_throw(name, d, wh)


def slot_of(v, z):
    t = elem(v, z)
    if not (isinstance(t, Term) and t.op == 'uf' and t.args[0].startswith('slot_')):
        raise unsup('tensor of a layer call', t)
    return t.args[0][5:], t.args[1][0]


def run_forward(ctx, items, wh):
    name = 'forward: every operation runs once'
    r = one_loop(ctx, name, items, ('forward',), wh)
    if r is None:
        return None
    pos, rep = r
    evs = [x for x in body(rep) if kinds_in(x, ('forward',))]
    ctx.rule(name, len(evs) == 1 and same(rep.n, NOPS), wh, dict(line=rep.line, calls=len(evs), iterations=show(rep.n)))
    if len(evs) != 1 or isinstance(evs[0], Rep):
        return None
    ev = evs[0]
    info = ev.d[0]
    k = rep.k
    ctx.rule('forward: producers run before their consumers (topological order)', same(info, U('info', k)), wh,
             dict(line=ev.line, operation_in_iteration_k=show(info)))
    if not (isinstance(info, Term) and info.op == 'uf' and info.args[0] == 'info'):
        return None
    x = info.args[1][0]
    z = index_var('z')
    RANGES[z] = U0('nin', x)
    mem = slot_of(ev.d[1], z)[0]
    ins = seq_is(ev.d[1], U0('nin', x), lambda z: U('slot_' + mem, T.sel(uf('inids', (x,), 'a', True), z)))
    outs = seq_is(ev.d[2], U0('nout', x), lambda z: U('slot_' + mem, T.sel(uf('outids', (x,), 'a', True), z)))
    ctx.rule('forward: an operation reads its input tensors in argument order', ins, wh, dict(line=ev.line, inputs=show(ev.d[1])))
    ctx.rule('forward: an operation writes its own output tensors', outs, wh, dict(line=ev.line, outputs=show(ev.d[2])))
    puts_ok(ctx, 'forward', items, pos, {(mem, 'inpos'): (NIN, 'uin'), (mem, 'outpos'): (NOUT, 'uout')}, wh)
    bad = [e for p, e in enumerate(items) if kinds_in(e, ('zero', 'allocate'))]
    ctx.rule('forward: no tensor is cleared or replaced', not bad, wh, dict(line=bad[0].line if bad else 0))
    return mem


def run_backward(ctx, items, mem, m, wh):
    grad = None
    poss = []
    for kind, what in (('backward', 'input gradients'), ('updateGradients', 'parameter gradients')):
        name = 'backward: every operation computes its %s once' % what
        r = one_loop(ctx, name, items, (kind,), wh)
        if r is None:
            return None
        pos, rep = r
        poss.append(pos)
        evs = [x for x in body(rep) if kinds_in(x, (kind,))]
        ctx.rule(name, len(evs) == 1 and same(rep.n, NOPS), wh, dict(line=rep.line, calls=len(evs), iterations=show(rep.n)))
        if len(evs) != 1 or isinstance(evs[0], Rep):
            return None
        ev = evs[0]
        info = ev.d[0]
        rev = U('info', sub(sub(NOPS, ONE), rep.k))
        if kind == 'updateGradients' and pos != poss[0]:
            # the gradients of the outputs are complete after the reverse pass
            after = pos > poss[0]
            ctx.rule('backward: operations are visited in reverse order', after or same(info, rev), wh, dict(line=ev.line))
        else:
            ctx.rule('backward: operations are visited in reverse order' + ('' if kind == 'backward' else ' (parameter gradients)'), same(info, rev), wh,
                     dict(line=ev.line, operation_in_iteration_k=show(info)))
        if not (isinstance(info, Term) and info.op == 'uf' and info.args[0] == 'info'):
            return None
        x = info.args[1][0]
        z = index_var('z')
        RANGES[z] = U0('nin', x)
        if kind == 'backward':
            grad = slot_of(ev.d[4], z)[0]
            if grad == mem:
                ctx.violation('backward: gradients are kept apart from values', wh, dict(line=ev.line))
                return None

        def ids(way, sl):
            return lambda z: U('slot_' + sl, T.sel(uf(way + 'ids', (x,), 'a', True), z))
        want = [('inputs', 'in', mem), ('outputs', 'out', mem), ('output gradients', 'out', grad), ('input gradients', 'in', grad)]
        if kind != 'backward':
            want = [want[0], want[2]]
        for a, (nm, way, sl) in zip(ev.d[1:], want):
            ctx.rule('backward: %s gets the %s of its operation' % (kind, nm), seq_is(a, U0('n' + way, x), ids(way, sl)), wh, dict(line=ev.line, argument=show(a)))
    pos = min(poss)
    puts_ok(ctx, 'backward', items, pos, {(mem, 'inpos'): (NIN, 'uin'), (mem, 'outpos'): (NOUT, 'uout'), (grad, 'outpos'): (NOUT, 'ugrad')}, wh)
    name = 'backward: gradients of all non-output tensors are cleared first, those of outputs never'
    zs = loops(items, ('zero',), name)
    special = any(mentions(c, ('makers_of', 'users_of')) for _, r in zs for c in conds_of(r))
    for stn, mk, us in placed(special):
        n = 0
        for p, rep in zs:
            if not isinstance(rep, Rep):
                raise Unsupported('clearing outside a loop')
            for ev in body(rep, storage_dec(m, rep.k, stn, mk, us)):
                if isinstance(ev, Rep):
                    raise Unsupported('nested clearing')
                if ev.kind != 'zero':
                    continue
                if ev.d[0] != grad or not same(ev.d[1], rep.k) or not same(rep.n, NDATA):
                    ctx.violation(name, wh, dict(line=ev.line, clears='%s[%s] for %s < %s' % (ev.d[0], show(ev.d[1]), rep.k, show(rep.n))))
                    return grad
                n += p < pos
                if p > pos:
                    ctx.violation(name, wh, dict(line=ev.line, clears='after the operations ran'))
                    return grad
        ok = (n > 0) == (stn != 'OUTPUT')
        if us is None or not ok:
            ctx.rule(name + ' (%s)' % stn, ok, wh, dict(cleared=n, **({} if us is None else dict(made_by=mk, used_by=us))))
            if not ok:
                break
    if special and ok:
        raise Unsupported('clearing that depends on the operations around a tensor')
    return grad


def placed(special):
    """where a data node can stand: its storage, and how many operations make and use it"""
    for stn in ('INPUT', 'INTERNAL', 'OUTPUT'):
        if not special:
            yield stn, None, None
            continue
        for us in range(1 if stn == 'INTERNAL' else 0, 6):
            yield stn, 0 if stn == 'INPUT' else 1, us


def conds_of(x):
    if isinstance(x, Rep):
        for c, t in leaves(x.items):
            yield c
            for y in t.d:
                yield from conds_of(y)


def mentions(t, names):
    seen = set()
    todo = [t]
    while todo:
        q = todo.pop()
        if isinstance(q, tuple):
            todo.extend(q)
        elif isinstance(q, Term) and q not in seen:
            seen.add(q)
            if q.op == 'uf' and q.args[0] in names:
                return True
            todo.extend(q.args)
    return False


def storage_dec(m, k, stn, mk=None, us=None):
    def dec(c):
        c = tsub(c, U('storage', k), m.storage(stn))
        if us is not None:
            c = tsub(tsub(c, U0('makers_of', k), const(mk)), U0('users_of', k), const(us))
        return nodec(c)
    return dec


def allocated(ctx, items, m, mem, grad, wh):
    for name in (mem, grad):
        n = m.sizes.get(name)
        if n is None:
            raise Unsupported('number of tensors kept')
        ctx.rule('there is a tensor and a gradient for every data node (%s)' % name, same(n, NDATA), wh, dict(kept=show(n)))
    for stn in ('INPUT', 'INTERNAL', 'OUTPUT'):
        got = set()
        for p, rep in loops(items, ('allocate',), 'allocation'):
            if not isinstance(rep, Rep):
                raise Unsupported('allocation outside a loop')
            for ev in body(rep, storage_dec(m, rep.k, stn)):
                if isinstance(ev, Rep):
                    raise Unsupported('nested allocation')
                if ev.kind != 'allocate':
                    continue
                ph = U('ph', rep.k)
                good = same(ev.d[1], rep.k) and same(rep.n, NDATA) and isinstance(ev.d[2], Vec) and ev.d[2].d is uf('dims', (ph,), 'a', True)
                if not good:
                    ctx.violation('tensors are allocated with the shape of their placeholder', wh,
                                  dict(line=ev.line, allocates='%s[%s] with %s' % (ev.d[0], show(ev.d[1]), show(ev.d[2]))))
                    return
                got.add(ev.d[0])
        need = {'INPUT': {grad}, 'INTERNAL': {mem, grad}, 'OUTPUT': set()}[stn]
        ctx.rule('tensors the user does not pass are allocated (%s)' % stn, need <= got, wh, dict(allocated=sorted(got), needed=sorted(need)))
