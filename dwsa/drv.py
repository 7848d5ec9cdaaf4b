"""Set-up helpers shared by the property modules: symbolic tensors, calls, results."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
from terms import *
import terms as T
from values import *
import interp as IN
from interp import Interp, Frame, strip_t
import evalt


class Missing(Exception):
    """an anchor of the property (public function, class, field) is not in the tree"""


class Drv:
    def __init__(self, prog, **hooks):
        self.p = prog
        self.I = Interp(prog)
        self.I.hooks.update(hooks)
        self.st = St()
        self.fr = Frame('<driver>', '', {}, None, 'void', '<driver>')
        self.I.std.rng_counter(self.I, self.st)

    # ---- lookup
    def fn(self, qname, n=None, pt=None):
        fs = [f for f in self.p.byname.get(qname, []) if n is None or len(f['params']) == n]
        if pt is not None:
            fs = [f for f in fs if all(x in p['t'] for x, p in zip(pt, f['params']))]
        if not fs:
            raise Missing(qname)
        return fs[0]

    def cell(self, v, d='arg'):
        return self.I.new_cell(self.st, v, d)

    def call(self, qname, args=(), this=None, n=None, pt=None):
        f = self.fn(qname, n if n is not None else len(args), pt)
        return self.I.call_fn(f, self.st, this, list(args), 0, self.fr)

    def shape(self, dims):
        return vec([const(d) if isinstance(d, int) else d for d in dims], 'int')

    def new(self, cls, args, n=None, pt=None):
        """construct a repository class object; returns its Loc"""
        name = cls.split('::')[-1]
        f = self.fn(cls + '::' + name, n if n is not None else len(args), pt)
        r = self.p.rec(f['clst'])
        loc = self.cell(UNDEF, cls)
        self.I.store(self.st, loc, self.I.shell(r, self.st, self.fr, False))
        self.I.call_fn(f, self.st, loc, list(args), 0, self.fr)
        return loc

    # ---- tensors
    def tensor(self, name, dims, fill='avar', isint=False):
        loc = self.new('deepworks::Tensor', [self.cell(self.shape(dims))], 1, ['vector<int'])
        self.fill(loc, name, isint)
        return loc

    def data(self, loc):
        """(Loc of the element sequence, offset) behind Tensor::data()"""
        p = self.I.val(self.st, self.call('deepworks::Tensor::data', [], loc))
        if isinstance(p, Gate):
            p = self.I.resolve(self.st, p)
        if not isinstance(p, Ptr) or p.base is None:
            raise unsup('tensor data is not a plain buffer', p)
        return p.base, (p.off if p.off is not None else ZERO)

    def total(self, loc):
        return self.I.num(self.st, self.call('deepworks::Tensor::total', [], loc))

    def fill(self, loc, name, isint=False):
        base, off = self.data(loc)
        v = self.I.val(self.st, base)
        if not isinstance(v, Vec):
            raise unsup('tensor buffer', v)
        self.I.store(self.st, base, Vec(v.n, avar(name, v.n, isint), v.et))

    def arr(self, loc):
        base, off = self.data(loc)
        v = self.I.val(self.st, base)
        a = as_array(v)
        if a is None or off is not ZERO:
            raise Unsupported('tensor buffer')
        return a, v.n

    def dims(self, loc):
        v = self.I.val(self.st, self.call('deepworks::Tensor::shape', [], loc))
        if not isinstance(v, Vec) or not isinstance(v.d, tuple):
            raise unsup('shape', v)
        return [self.I.num(self.st, x) for x in v.d]

    def tensors_vec(self, locs):
        return self.cell(vec([self.I.val(self.st, l) for l in locs], 'deepworks::Tensor'))

    # ---- layers
    def placeholder(self, dims):
        return self.new('deepworks::Placeholder', [self.cell(self.shape(dims))], 1, ['vector<int'])

    def op(self, kind, args, ins, name='layer0'):
        """user-level `Kind(args..., name)(inputs...)`; returns (op Loc, resulting Placeholder Loc)"""
        a = []
        for x in args:
            if isinstance(x, (list, tuple)):
                x = self.cell(vec(list(x), 'int'))
            a.append(x)
        op = self.new('deepworks::' + kind, a + [string(name)])
        phs = self.cell(vec([self.I.val(self.st, self.placeholder(d)) for d in ins], 'deepworks::Placeholder'))
        fs = [f for f in self.p.fns.values() if f['n'] == 'operator()' and f.get('clst', '').startswith('deepworks::BaseOp<deepworks::%s>' % kind)
              and len(f['params']) == 1 and 'vector<' in f['params'][0]['t']]
        if not fs:
            raise Missing('operator() of ' + kind)
        ph = self.I.call_fn(fs[0], self.st, op, [phs], 0, self.fr)
        return op, self.I.as_loc(self.st, ph)

    def info(self, op):
        return self.I.load(self.st, op).f['m_info']

    def layer(self, op):
        """the runtime layer created for the op"""
        r = self.call('deepworks::cpu::ICPULayer::create', [self.info(op)])
        p = self.I.val(self.st, r)
        return self.I.deref(self.st, p, self.fr, 0)

    def vcall(self, loc, name, args):
        o = self.I.val(self.st, loc)
        f = self.p.method(o.cls, name, len(args))
        if f is None:
            raise Missing('%s::%s' % (o.cls, name))
        return self.I.call_fn(f, self.st, loc, args, 0, self.fr)

    def param(self, op, name):
        """Loc of the Parameter object registered under name"""
        li = self.cell(self.info(op))
        m = self.call('deepworks::LayerInfo::params', [], li)
        v = self.I.val(self.st, m)
        if name not in v.e:
            raise Missing('parameter %s' % name)
        return self.cell(v.e[name][1])

    def pdata(self, op, name):
        return self.call('deepworks::Parameter::data', [], self.param(op, name))

    def pgrad(self, op, name):
        return self.call('deepworks::Parameter::grad', [], self.param(op, name))

    def buffer(self, op, name):
        li = self.cell(self.info(op))
        v = self.I.val(self.st, self.call('deepworks::LayerInfo::buffers', [], li))
        if name not in v.e:
            raise Missing('buffer %s' % name)
        return self.cell(v.e[name][1])

    # ---- handles
    def copy(self, loc, cls):
        """copy-construct: the user-provided copy constructor when there is one, member-wise otherwise"""
        name = cls.split('::')[-1]
        fs = [f for f in self.p.byname.get(cls + '::' + name, []) if len(f['params']) == 1 and f['params'][0]['t'].startswith('const')
              and strip_t(f['params'][0]['t']) == cls and f.get('body') is not None and not f.get('defaulted')]
        if fs:
            r = self.p.rec(fs[0]['clst'])
            to = self.cell(UNDEF, cls)
            self.I.store(self.st, to, self.I.shell(r, self.st, self.fr, False))
            self.I.call_fn(fs[0], self.st, to, [loc], 0, self.fr)
            return to
        return self.cell(self.I.val(self.st, loc))

    def assign(self, to, loc, cls):
        fs = [f for f in self.p.byname.get(cls + '::operator=', []) if len(f['params']) == 1 and f['params'][0]['t'].startswith('const')
              and strip_t(f['params'][0]['t']) == cls and f.get('body') is not None and not f.get('defaulted')]
        if fs:
            self.I.call_fn(fs[0], self.st, to, [loc], 0, self.fr)
        else:
            self.I.store(self.st, to, self.I.val(self.st, loc))
        return to
