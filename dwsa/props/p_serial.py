"""C31, C32: the binary format of configurations and states."""
from layers import *
import itertools
import re
import interp as IN2

W = 'deepworks::save_state'
SIZES = {'int': 4, 'unsigned int': 4, 'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8, 'float': 4, 'double': 8, 'char': 1,
         'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'bool': 1, 'long double': 16}
STEXT = 'deepworks::Tensor'
R31 = ('saver and loader are interpreted abstractly over a typed tape: containers of arbitrary size are one generic element, a loop that writes becomes a repetition '
       '(count, item types), and the loader must consume exactly that tape (protocol duality); every value it stores is compared with the value written')
R32 = ('the loaders are interpreted on an arbitrary tape (every read may fail and yields an unknown value); path conditions of every normal exit and of every store into '
       'an entry must contain the required checks, and every read must stay within its destination')


class Mismatch(Exception):
    def __init__(self, line, fn, msg):
        Exception.__init__(self, msg)
        self.line, self.fn, self.msg = line, fn, msg


def vsub(v, m):
    """capture-free substitution in values"""
    if isinstance(v, Term):
        return T.subst(v, m)
    if isinstance(v, Gate):
        c = T.subst(v.c, m)
        if c is TRUE:
            return vsub(v.a, m)
        if c is FALSE:
            return vsub(v.b, m)
        return merge_vals(c, vsub(v.a, m), vsub(v.b, m))
    if isinstance(v, Struct):
        return Struct(v.cls, {k: vsub(x, m) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(vsub(v.n, m), vsub(v.d, m), v.et)
    if isinstance(v, tuple):
        return tuple(vsub(x, m) for x in v)
    if isinstance(v, Gen):
        return Gen(v.k, vsub(v.elem, {a: b for a, b in m.items() if a is not v.k}))
    if isinstance(v, MapV):
        r = MapV({vsub(k, m): vsub(x, m) for k, x in v.e.items()}, v.vt, v.kt, like=v)
        if v.gen is not None:
            n, k, key, x = v.gen
            m2 = {a: b for a, b in m.items() if a is not k}
            r.gen = (vsub(n, m), k, vsub(key, m2), vsub(x, m2))
        return r
    if isinstance(v, AnyV):
        return AnyV(v.t, vsub(v.v, m))
    if isinstance(v, OptV):
        return OptV(vsub(v.p, m), vsub(v.v, m))
    if isinstance(v, Opq):
        return Opq(v.k, vsub(v.d, m))
    return v


def tape(*items):
    return Opq('tape', tuple(items))


def app(t, items):
    if isinstance(t, Gate):
        return Gate(t.c, app(t.a, items), app(t.b, items))
    return Opq('tape', t.d + tuple(items))


class Files:
    """file streams as typed tapes; arb: the content is arbitrary"""

    def __init__(self, ctx, d, arb=False):
        self.ctx, self.d, self.I, self.arb = ctx, d, d.I, arb
        I = d.I
        I.hooks.update({'$open': self.open, '$stream': self.stream, '$strdata': self.strdata, '$loop': self.loop, '$subst': vsub, '$symmap': True,
                        '$any': self.any, '$norm': self.norm, STEXT + '::shape': self.th('shape'), STEXT + '::total': self.th('total'), STEXT + '::data': self.th('data')})
        self.files = {}
        self.anyc = {}
        self.tens = {}
        self.obs = []            # (name, pc, cond, line, fn) conditions to hold
        self.reads = []
        self.seqs = []
        self.AS, self.AT = index_var('ashape'), index_var('atype')
        self.iters = []
        self.modes = []

    # ---- tensors of a state dictionary
    def gtensor(self, tag, args):
        return Struct(STEXT, {'$g': Opq('gt', (tag,) + tuple(args))})

    def tcell(self, st, key, what):
        c = self.tens.get((key, what))
        if c is None:
            tag, args = key[0], key[1:]
            if tag == 'src':
                n = T.fn('abs', (uf('rank', args, 'n', True),))
                tot = T.fn('abs', (uf('total', args, 'n', True),))
                v = Vec(n, uf('dims', args, 'a', True), 'int') if what == 'shape' else Vec(tot, uf('data', args, 'a'), 'float')
            elif tag == 'same':
                # entry of the model being loaded: same name and shape as in the file, other content
                n = T.fn('abs', (uf('rank', args, 'n', True),))
                tot = T.fn('abs', (uf('total', args, 'n', True),))
                v = Vec(n, uf('dims', args, 'a', True), 'int') if what == 'shape' else Vec(tot, uf('olddata', args, 'a'), 'float')
            else:
                i = len(self.tens)
                n, tot = var('trank%d' % i, True, 0), var('ttotal%d' % i, True, 0)
                v = Vec(n, avar('tdims%d' % i, n, True), 'int') if what == 'shape' else Vec(tot, avar('told%d' % i, tot), 'float')
            c = (self.I.new_cell(st, v, 'tensor ' + what), v)
            self.tens[(key, what)] = c
            self.I.celltype[c[0].cell] = 'std::vector<%s>' % v.et
        if c[0].cell not in st.store:
            st.store[c[0].cell] = c[1]
        return c[0]

    def th(self, what):
        def h(I, e, st, fr, obj, args):
            o = I.val(st, obj)
            if isinstance(o, Ptr):
                o = I.val(st, I.deref(st, o, fr, e['l']))
            if isinstance(o, Struct) and '$g' in o.f:
                key = o.f['$g'].d
                if what == 'total':
                    return I.load(st, self.tcell(st, key, 'data')).n
                c = self.tcell(st, key, what)
                return Ptr(c, ZERO) if what == 'data' else c
            return NotImplemented
        return h

    # ---- attributes
    KINDS = {'int': ('VALUE', 'INT'), 'float': ('VALUE', 'FLOAT'), 'std::array<int, 2>': ('ARRAY2', 'INT'), 'std::array<float, 2>': ('ARRAY2', 'FLOAT')}

    def en(self, which, name):
        for c in self.ctx.p.enums['deepworks::Attr' + which]['c']:
            if c['n'] == name:
                return const(int(c['v']))

    def any_value(self, a, want):
        if want.startswith('std::array<'):
            et, n = want[11:-1].split(',')
            et, n = et.strip(), int(re.sub(r'\D', '', n))
            return vec([uf('aval_' + et + str(i), a.d, 'n', et != 'float') for i in range(n)], et)
        return uf('aval_' + want, a.d, 'n', want not in ('float', 'double'))

    def any(self, I, st, a, want):
        if a.k != 'gany':
            raise Unsupported('any_cast')
        want = want.replace('2ul', '2').replace('2UL', '2')
        k = self.KINDS.get(want)
        if k:
            c = and_(T.eq(self.AS, self.en('Shape', k[0])), T.eq(self.AT, self.en('Type', k[1])))
            self.obs.append(('an attribute is read as the type it holds', st.pc, c, I.cur_line() if hasattr(I, 'cur_line') else 0, 'any_cast'))
        key = (a.d, want)
        v = self.any_value(a, want)
        if key not in self.anyc:
            self.anyc[key] = I.new_cell(st, v, 'attribute value')
            I.celltype[self.anyc[key].cell] = want
        l = self.anyc[key]
        if l.cell not in st.store:
            st.store[l.cell] = v
        return Ptr(l)

    # ---- streams
    def open(self, I, e, st, fr, s, args):
        t = IN2.strip_t(e.get('clst', e.get('t', '')))
        rd = 'ifstream' in t or 'istream' in t
        s = Struct('$fs', {'path': None, 'tape': tape(), 'open': FALSE, 'fail': FALSE, 'lost': FALSE, 'exc': FALSE, 'rd': TRUE if rd else FALSE, 'gcount': ZERO,
                           'dirty': FALSE, 'bad': FALSE})
        if args:
            return self.open_it(I, e, st, fr, s, args, e['l'], rd)
        return s

    def open_it(self, I, e, st, fr, s, args, line, rd):
        path = I.val(st, args[0])
        if isinstance(path, Ptr):
            path = I.val(st, I.load(st, path.base))
        if not isinstance(path, Term):
            raise Unsupported('file name')
        mode = I.val(st, args[1]) if len(args) > 1 else None
        self.modes.append((mode, rd, fr.fn, line))
        g = dict(s.f)
        g['path'] = path
        if self.arb:
            ok = bvar('open_ok%d' % len(self.modes))
            g['open'] = ok
            g['fail'] = not_(ok)
            g['lost'] = not_(ok)
            g['tape'] = Opq('anyfile')
        else:
            g['open'] = TRUE
            if rd:
                t = st.store.get(('file', path))
                if t is None:
                    raise Mismatch(line, fr.fn, 'reads a file that was not written')
                g['tape'] = t
            else:
                st.store[('file', path)] = tape()
        return Struct('$fs', g)

    def strdata(self, I, e, st, fr, obj, args):
        if e.get('n') in ('c_str', 'data'):
            if isinstance(obj, Loc):
                return Ptr(obj, ZERO)
            return Ptr(I.new_cell(st, I.val(st, obj), 'temporary string'), ZERO)
        return I.val(st, obj)

    def stream(self, I, e, st, fr, n, obj, args):
        l = obj if isinstance(obj, Loc) else I.as_loc(st, obj)
        s = I.val(st, l)
        if not (isinstance(s, Struct) and s.cls == '$fs'):
            return NotImplemented
        line = e['l']
        if n == 'open':
            I.store(st, l, self.open_it(I, e, st, fr, s, args, line, s.f['rd'] is TRUE))
            return None
        if n == 'is_open':
            return s.f['open']
        if n in ('operator bool', 'good'):
            return not_(s.f['fail'])
        if n == 'bad' and self.arb:
            # only errors of the device, not a file that did not open or a short read
            return s.f['bad']
        if n in ('fail', 'bad', 'operator!', 'eof'):
            if n == 'eof' and self.arb:
                return bvar('eof%d' % next(V_ctr))
            return s.f['fail'] if n != 'eof' else FALSE
        if n == 'gcount':
            return s.f['gcount']
        if n == 'exceptions':
            if args:
                I.store(st, l, s.with_('exc', TRUE))
                self.check_exc(I, st, fr, line, l)
            return None
        if n in ('operator<<', 'put') and self.arb and s.f['rd'] is not TRUE:
            self.wrote(I, st, fr, line, l)
            return obj
        if n in ('close', 'flush'):
            if self.arb and s.f['rd'] is not TRUE:
                self.wrote(I, st, fr, line, l, n == 'close')
            return None
        if n == 'clear':
            I.store(st, l, s.with_('fail', FALSE).with_('bad', FALSE))
            return None
        if n in ('write', 'read'):
            p = I.val(st, args[0])
            size = I.num(st, args[1])
            if not isinstance(p, Ptr) or p.base is None:
                raise unsup('buffer of ' + n, p)
            if n == 'write':
                self.write(I, st, fr, line, l, p, size)
            else:
                self.read(I, st, fr, line, l, p, size)
            return obj
        if n in ('put', 'get') and False:
            pass
        raise Unsupported('stream method ' + n)

    def norm(self, st):
        """what a branch settles about the stream states is recorded there"""
        if not self.arb:
            return
        for c in self.streams(st):
            s = st.store[c]
            l, f = st.decide(s.f['lost']), st.decide(s.f['fail'])
            if l is not s.f['lost'] or f is not s.f['fail']:
                st.store[c] = s.with_('lost', l).with_('fail', f)

    def check_exc(self, I, st, fr, line, l):
        s = I.val(st, l)
        if s.f['exc'] is TRUE:
            bad = st.decide(s.f['fail'])
            if bad is TRUE:
                I.throw(st, fr, line, 'std::ios_base::failure')
            if bad is not FALSE:
                s2 = st.fork(bad)
                I.thr.append((s2, IN2.Exc('std::ios_base::failure', None, line, fr.fn, fr.file)))
                st.assume(not_(bad))

    def loc_type(self, I, st, loc):
        t = IN2.strip_t(I.celltype.get(loc.cell, ''))
        v = st.store[loc.cell]
        for p in loc.path:
            if isinstance(v, Gate):
                v = I.resolve(st, v)
            if isinstance(p, str) and isinstance(v, Struct):
                t = IN2.strip_t(I.field_type(v.cls, p) or '')
            elif isinstance(v, Vec):
                t = IN2.strip_t(v.et)
            elif isinstance(v, AnyV):
                t = IN2.strip_t(v.t or '')
            elif isinstance(v, MapV):
                t = IN2.strip_t(v.vt or '')
            v = I.step(st, v, p)
        return t

    def kind(self, t):
        t = IN2.strip_t(t or '')
        if t in self.ctx.p.enums:
            t = IN2.strip_t(self.ctx.p.enums[t].get('ut', 'int'))
        return (SIZES.get(t), 'f' if t in ('float', 'double', 'long double') else 'i')

    def same(self, a, b, st=None):
        if a is b:
            return True
        if st is not None:
            a, b = (st.decide(x) if x.sort == 'b' else x for x in (a, b))
            if a is b or T.eq(a, b) is TRUE or st.decide(T.eq(a, b)) is TRUE:
                return True
        ctx = self.ctx
        o, v = len(ctx.obs), len(ctx.viol)
        r = ctx.eq('tmp', ground(a), ground(b), '')
        del ctx.obs[o:], ctx.viol[v:]
        return r

    # scalar or sequence behind a pointer: (kind, element size, count, term/array)
    def view(self, I, st, p):
        loc = p.base
        v = I.val(st, I.load(st, loc))
        if isinstance(v, Term) and v.sort == 's':
            return ('s', 1, T.fn('abs', (uf('strlen', (v,), 'n', True),)) if v.op != 'str' else const(len(v.args[0])), v)
        if isinstance(v, Term) or v is UNDEF:
            t = self.loc_type(I, st, loc)
            sz, k = self.kind(t)
            if sz is None:
                raise Unsupported('size of type %r' % t)
            return ('v', sz, k, v)
        if isinstance(v, Vec):
            sz, k = self.kind(v.et)
            if sz is None:
                raise Unsupported('size of element type %r' % v.et)
            return ('a', sz, k, v)
        raise unsup('bytes of %s' % type(v).__name__, v)

    def wrote(self, I, st, fr, line, l, end=None):
        """output that may fail: into the buffer, or (end) from the buffer to the file"""
        s = I.val(st, l)
        ok = bvar('write_ok%d' % next(V_ctr))
        g = dict(s.f)
        bad = not_(ok) if not end else or_(not_(ok), not_(s.f['open']))
        g['fail'] = or_(s.f['fail'], bad)
        g['lost'] = or_(s.f['lost'], bad)
        if end is not True:
            g['bad'] = or_(s.f['bad'], and_(not_(ok), not_(s.f['fail'])))
        g['dirty'] = TRUE if end is None else FALSE
        if end:
            g['open'] = FALSE
        I.store(st, l, Struct('$fs', g))
        self.check_exc(I, st, fr, line, l)

    def write(self, I, st, fr, line, l, p, size):
        if self.arb:
            return self.wrote(I, st, fr, line, l)
        w = self.view(I, st, p)
        if w[0] == 's':
            cap = self.bound(st, size, w[2], line, fr.fn, 'a write stays within the object')
            if self.same(size, w[2], st) is False:
                raise Mismatch(line, fr.fn, 'writes %s bytes of a string of %s characters' % (T.show(size), T.show(w[2])))
            items = [('s', w[2], w[3])]
        elif w[0] == 'v':
            if not isconst(size) or cval(size) != w[1]:
                raise Mismatch(line, fr.fn, 'writes %s bytes of an object of %d bytes' % (T.show(size), w[1]))
            items = [('v', w[1], w[2], w[3])]
        else:
            v = w[3]
            off = p.off if p.off is not None else ZERO
            self.bound(st, add(size, mul(off, const(w[1]))), mul(v.n, const(w[1])), line, fr.fn, 'a write stays within the object')
            if isconst(v.n) and isinstance(v.d, tuple):
                if not isconst(size) or cval(size) % w[1] or not isconst(off):
                    raise Mismatch(line, fr.fn, 'writes %s bytes of a sequence of %s elements of %d bytes' % (T.show(size), T.show(v.n), w[1]))
                items = [('v', w[1], w[2], x) for x in v.d[cval(off):cval(off) + cval(size) // w[1]]]
            else:
                a = as_array(v)
                if a is None or off is not ZERO:
                    raise Unsupported('bytes of a sequence')
                items = [('a', size, w[1], w[2], a)]
        s = I.val(st, l)
        g = dict(s.f)
        g['tape'] = app(s.f['tape'], items)
        I.store(st, l, Struct('$fs', g))
        if g['path'] is not None and ('file', g['path']) in st.store:
            st.store[('file', g['path'])] = g['tape']

    def bound(self, st, need, have, line, fn, name):
        c = st.decide(T.le(need, have))
        if c is not TRUE:
            self.obs.append((name, st.pc, c, line, fn))
        return c

    # ---- reading
    def head(self, st, t, line, fn):
        """(head item, rest); alternatives must agree on the type of the head"""
        if isinstance(t, Gate):
            t = self.I.resolve(st, t)
        if isinstance(t, Gate):
            (h1, r1), (h2, r2) = self.head(st.fork(t.c), t.a, line, fn), self.head(st.fork(not_(t.c)), t.b, line, fn)
            r = r1 if r1 == r2 else Gate(t.c, r1, r2)
            if h1 == h2:
                return h1, r
            if h1 and h2 and h1[0] == h2[0] == 'v' and h1[1:3] == h2[1:3]:
                return ('v', h1[1], h1[2], ite(t.c, h1[3], h2[3])), r
            raise Mismatch(line, fn, 'one read for items of different types: %s / %s' % (show_item(h1), show_item(h2)))
        if not t.d:
            return None, t
        return t.d[0], Opq('tape', t.d[1:])

    def read(self, I, st, fr, line, l, p, size):
        s = I.val(st, l)
        w = self.view(I, st, p)
        off = p.off if p.off is not None else ZERO
        # within the destination
        if w[0] == 's':
            ext = w[3].args[1][0] if w[3].op == 'uf' and w[3].args[0].startswith('strbuf') else w[2]
        elif w[0] == 'v':
            ext = const(w[1])
        else:
            ext = sub(mul(w[3].n, const(w[1])), mul(off, const(w[1])))
        self.bound(st, size, ext, line, fr.fn, 'a read stays within its destination')
        if self.arb or isinstance(s.f['tape'], Opq) and s.f['tape'].k == 'anyfile':
            return self.read_any(I, st, fr, line, l, p, size, w, s)
        t = s.f['tape']
        h, rest = self.head(st, t, line, fr.fn)

        def bad(msg):
            raise Mismatch(line, fr.fn, msg + '; the file has: ' + show_item(h))
        if h is None:
            bad('reads past the end of what was written')
        if w[0] == 'v':
            if not isconst(size) or cval(size) != w[1]:
                bad('reads %s bytes into an object of %d bytes' % (T.show(size), w[1]))
            if h[0] != 'v' or h[1] != w[1] or h[2] != w[2]:
                bad('reads one %s of %d bytes' % ({'i': 'integer', 'f': 'float'}[w[2]], w[1]))
            I.store(st, p.base, self.fit(I, st, p.base, h[3]))
        elif w[0] == 's':
            if h[0] == 's':
                if self.same(h[1], size, st) is not True:
                    bad('reads %s characters' % T.show(size))
                if self.same(ext, size, st) is not True:
                    bad('reads %s characters into a string of %s' % (T.show(size), T.show(ext)))
                I.store(st, p.base, h[2])
            else:
                bad('reads a string')
        else:
            v = w[3]
            if isinstance(v.d, tuple) and isconst(v.n) and isconst(size) and isconst(off):
                d = list(v.d)
                for i in range(cval(size) // w[1]):
                    h, rest = self.head(st, t, line, fr.fn)
                    if h is None or h[0] != 'v' or h[1] != w[1] or h[2] != w[2]:
                        bad('reads element %d of a sequence' % i)
                    if cval(off) + i >= len(d):
                        bad('reads past the destination')
                    d[cval(off) + i] = h[3]
                    t = rest
                I.store(st, p.base, Vec(v.n, tuple(d), v.et))
            else:
                if h[0] == 'rep':
                    b = h[3]
                    if isinstance(b, Opq) and len(b.d) == 1 and b.d[0][0] == 'v':
                        x = b.d[0]
                        h = ('a', mul(h[1], const(x[1])), x[1], x[2], mkarr(h[1], h[2], x[3]))
                if h[0] != 'a' or h[2:4] != (w[1], w[2]):
                    bad('reads a sequence of %d-byte elements' % w[1])
                if self.same(h[1], size, st) is not True:
                    bad('reads %s bytes' % T.show(size))
                if off is not ZERO:
                    raise Unsupported('read into the middle of a sequence')
                if self.same(mul(v.n, const(w[1])), size, st) is not True:
                    raise Unsupported('partial read of a sequence')
                I.store(st, p.base, Vec(v.n, h[4], v.et))
        s = I.val(st, l)
        I.store(st, l, s.with_('tape', rest).with_('gcount', size))

    def fit(self, I, st, loc, t):
        return I.narrow(t, self.loc_type(I, st, loc))

    def read_any(self, I, st, fr, line, l, p, size, w, s):
        i = next(V_ctr)
        ok = bvar('read_ok%d' % i)
        self.reads.append((ok, line, fr.fn))
        if w[0] == 'v':
            x = var('rd%d' % i, w[2] == 'i', 0 if 'unsigned' in self.loc_type(I, st, p.base) else None)
            I.store(st, p.base, x)
        elif w[0] == 's':
            x = svar('rds%d' % i)
            I.store(st, p.base, x)
        else:
            v = w[3]
            n = v.n
            if isinstance(v.d, tuple):
                x = Vec(n, tuple(var('rd%d_%d' % (i, j), w[2] == 'i') for j in range(len(v.d))), v.et)
            else:
                x = Vec(n, avar('rda%d' % i, n, w[2] == 'i'), v.et)
            I.store(st, p.base, x)
        self.seqs.append((x, st.pc, line))
        s = I.val(st, l)
        g = dict(s.f)
        g['fail'] = or_(s.f['fail'], not_(ok))
        g['lost'] = or_(s.f['lost'], not_(ok))
        g['gcount'] = ite(ok, size, var('short%d' % i, True, 0))
        I.store(st, l, Struct('$fs', g))
        self.check_exc(I, st, fr, line, l)

    # ---- loops over generic containers / repetitions
    def streams(self, st):
        return [c for c, v in st.store.items() if isinstance(v, Struct) and v.cls == '$fs']

    def does_io(self, x):
        if not hasattr(self, 'io'):
            p = self.ctx.p
            io, calls = set(), {}

            def scan(y, out):
                if isinstance(y, dict):
                    if y.get('k') == 'call':
                        out.append(y)
                    for z in y.values():
                        if isinstance(z, (dict, list)):
                            scan(z, out)
                elif isinstance(y, list):
                    for z in y:
                        scan(z, out)
                return out
            self.scan = scan
            for i, f in p.fns.items():
                calls[i] = scan(f['body'], [])
            while True:
                n = len(io)
                for i, cs in calls.items():
                    if i not in io and any(self.is_io(y) or y.get('id') in io for y in cs):
                        io.add(i)
                if len(io) == n:
                    break
            self.io = io
        return any(self.is_io(y) or y.get('id') in self.io for y in self.scan(x, []))

    def is_io(self, y):
        return y.get('n') in ('read', 'write') and 'stream' in y.get('cls', '')

    def linear(self, a, b):
        """a -> b in one step: the value after k steps, or None"""
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == b.sort == 'n':
            dlt = sub(b, a)
            if isconst(dlt) and cval(dlt) in (1, -1):
                return lambda k: add(a, mul(dlt, k))
        if isinstance(a, Opq) and a.k == 'giter' and isinstance(b, Opq) and sub(b.d[1], a.d[1]) is ONE:
            return lambda k: Opq('giter', (a.d[0], add(a.d[1], k)))
        return None

    def counters(self, I, node, run_cond, run_body, run_inc, st, fr, kv):
        NO = (None, None, None, None)
        try:
            s1 = st.copy()
            run_cond(s1)
            s2 = s1.copy()
            run_inc(s2)
        except (Unsupported, Dead):
            return NO
        ch = {c: self.linear(st.store[c], v) for c, v in s2.store.items() if c in st.store and not same_val(st.store[c], v)}
        if not ch and self.does_io(node):
            # the step may be part of the body
            try:
                s1 = st.copy()
                for x in self.streams(s1):
                    h = None
                    if not self.arb and s1.store[x].f['rd'] is TRUE:
                        h, _ = self.head(s1, s1.store[x].f['tape'], 0, '')
                        if h is not None and h[0] == 'rep':
                            s1.store[x] = s1.store[x].with_('tape', h[3])
                o = run_body(s1)
                norm, _ = merge_many(s1.pc, [(y, None) for y in ([o.norm] if o.norm is not None else []) + o.cont])
                if norm is None:
                    return NO
                ch = {c: self.linear(st.store[c], v) for c, v in norm.store.items() if c in st.store and isinstance(st.store[c], (Term, Opq)) and
                      not same_val(st.store[c], v) and self.linear(st.store[c], v)}
            except (Unsupported, Dead, Mismatch):
                return NO
        if not ch or any(f is None for f in ch.values()):
            return NO
        for c in ch:
            v = st.store[c]
            if isinstance(v, Opq) and kv is None:
                m = I.load(st, v.d[0])
                if v.d[1] is ZERO and m.gen:
                    kv = m.gen[1]
        k = kv if kv is not None else index_var('k')
        try:
            s2 = st.copy()
            for x, f in ch.items():
                s2.store[x] = f(k)
            c = run_cond(s2)
            n = I.trip(c, k, frozenset())
        except (Unsupported, Dead):
            return NO
        return k, n, ch, c

    def loop(self, I, node, run_cond, run_body, run_inc, st, fr, kv):
        if getattr(self, 'off', False):
            return None
        marks = (len(I.log), len(I.thr), len(I.parlog), dict(fr.env), len(self.obs), len(self.reads), len(self.seqs), len(self.iters))

        def rollback():
            del I.log[marks[0]:], I.thr[marks[1]:], I.parlog[marks[2]:]
            fr.env.clear()
            fr.env.update(marks[3])
            del self.obs[marks[4]:], self.reads[marks[5]:], self.seqs[marks[6]:], self.iters[marks[7]:]
        k, n, ctrs, c = self.counters(I, node, run_cond, run_body, run_inc, st, fr, kv)
        rollback()
        if n is None:
            if self.does_io(node):
                raise Unsupported('loop with file accesses and no recognised count (line %d)' % node['l'])
            return None
        if isconst(n):
            return None
        RANGES[k] = n
        s3 = st.copy()
        for x, f in ctrs.items():
            s3.store[x] = f(k)
        run_cond(s3)
        s3.assume(c)
        ch0 = {}
        pend = {}
        for x in self.streams(st):
            s = s3.store[x]
            if s.f['rd'] is TRUE and not self.arb:
                pend[x] = s.f['tape']
                try:
                    h, rest = self.head(s3, s.f['tape'], node['l'], fr.fn)
                except Mismatch:
                    h = None
                if h is not None and h[0] == 'rep':
                    s3.store[x] = s.with_('tape', vsub(h[3], {h[2]: k}))
                    pend[x] = (h, rest)
                elif h is not None and h[0] == 'a':
                    s3.store[x] = s.with_('tape', tape(('v', h[2], h[3], T.sel(h[4], k))))
                    pend[x] = (('rep', T.idiv(h[1], const(h[2])) if h[2] != 1 else h[1], None, None), rest)
                else:
                    s3.store[x] = s.with_('tape', Opq('tape', (('end', h),)))
                    pend[x] = (('none', h), None)
            elif not self.arb:
                s3.store[x] = s.with_('tape', tape())
            elif s3.decide(s.f['fail']) is FALSE or True:
                pass
        files = {f: v for f, v in st.store.items() if isinstance(f, tuple) and f[0] == 'file'}
        for f in files:
            s3.store[f] = tape()
        before = dict(s3.store)
        o = run_body(s3)
        if o.ret or o.brk:
            rollback()
            return None
        norm, _ = merge_many(s3.pc, [(y, None) for y in ([o.norm] if o.norm is not None else []) + o.cont])
        if norm is None:
            # the body never ends normally: leave it to the default rule
            rollback()
            return None
        end = norm.store
        changed = [x for x in before if x in end and not same_val(before[x], end[x])]
        io = [x for x in changed if isinstance(before[x], Struct) and before[x].cls == '$fs' or isinstance(x, tuple)]
        grow = []
        for x in changed:
            if x in io or x in ctrs:
                continue
            g = self.grown(before[x], end[x], n, k)
            if g is None:
                rollback()
                if io:
                    raise Unsupported('loop with file accesses changes %s' % I.cellinfo.get(x, x))
                return None
            grow.append((x, g))
        objs = [x for x, g in grow if isinstance(g[1], (MapV,)) or isinstance(g[1], Vec) and isinstance(g[1].d, Gen)]
        if not io and not any(self.deep_gen(g) for _, g in grow):
            rollback()
            return None
        res = st.copy()
        if not I.trip_nonneg(n) if hasattr(I, 'trip_nonneg') else False:
            pass
        for x in self.streams(st):
            s, s_end = st.store[x], end[x]
            if self.arb:
                lost0, lost1 = s.f['lost'], norm.decide(s_end.f['lost'])
                fail1 = norm.decide(s_end.f['fail'])
                g = dict(s.f)
                if x in changed:
                    q = next(V_ctr)
                    g['lost'] = or_(lost0, FALSE if lost1 is FALSE or lost1 is lost0 else bvar('iter_lost%d' % q))
                    same_f = fail1 is FALSE or fail1 is s.f['fail']
                    if lost1 is fail1:
                        g['fail'] = or_(s.f['fail'], FALSE if same_f else bvar('iter_lost%d' % q))
                    else:
                        g['fail'] = or_(s.f['fail'], FALSE if same_f else bvar('iter_fail%d' % q))
                    g['gcount'] = s_end.f['gcount']
                    g['dirty'] = or_(s.f['dirty'], s_end.f['dirty'])
                    g['bad'] = or_(s.f['bad'], FALSE if norm.decide(s_end.f['bad']) in (FALSE, s.f['bad']) else bvar('iter_bad%d' % q))
                res.store[x] = Struct('$fs', g)
                continue
            if s.f['rd'] is TRUE:
                h, rest = pend[x]
                t_end = s_end.f['tape']
                if h[0] == 'none':
                    if x in changed:
                        raise Mismatch(node['l'], fr.fn, 'reads in a loop; the file has: ' + show_item(h[1]))
                    res.store[x] = s
                    continue
                if x not in changed:
                    res.store[x] = s
                    continue
                if isinstance(t_end, Gate):
                    t_end = I.resolve(norm, t_end)
                for cc, q in leaves(t_end):
                    if q.d and norm.decide(cc) is not FALSE:
                        raise Mismatch(node['l'], fr.fn, 'an iteration leaves unread: ' + show_item(q.d[0]))
                if self.same(h[1], n, st) is not True:
                    raise Mismatch(node['l'], fr.fn, 'loop reads %s entries of %s written' % (T.show(n), T.show(h[1])))
                res.store[x] = s.with_('tape', rest)
            else:
                t_end = s_end.f['tape']
                if x in changed:
                    new = app(s.f['tape'], [('rep', n, k, t_end)])
                    res.store[x] = s.with_('tape', new)
                    if s.f['path'] is not None and ('file', s.f['path']) in st.store:
                        res.store[('file', s.f['path'])] = new
        for x, g in grow:
            res.store[x] = self.put(st.store[x], g)
        for x, f in ctrs.items():
            res.store[x] = f(n)
        self.iters.append((k, n, norm, node['l'], fr.fn, dict(before)))
        out = IN2.Out(res)
        return out

    def deep_gen(self, g):
        return True

    def grown(self, a, b, n, k):
        """how a container grew in one iteration: path and the container after all of them"""
        if isinstance(a, Struct) and isinstance(b, Struct):
            ds = [f for f in b.f if not same_val(a.f.get(f), b.f[f])]
            r = {}
            for f in ds:
                g = self.grown(a.f.get(f), b.f[f], n, k)
                if g is None:
                    return None
                r[f] = g
            return ('struct', r)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.n is ZERO and b.n is ONE:
                x = b.d[0] if isinstance(b.d, tuple) else T.sel(b.d, ZERO)
                if isinstance(x, Term):
                    return ('set', Vec(n, mkarr(n, k, x), a.et))
                return ('set', Vec(n, Gen(k, x), a.et))
            if a.n is b.n and isinstance(a.d, Term) and isinstance(b.d, Term) and b.d.op == 'upd':
                x = T.sel(b.d, k)
                if b.d.args[0] is a.d and not b.d.args[1] and b.d.args[2] is k:
                    z = index_var('z')
                    RANGES[z] = n
                    return ('set', Vec(n, T.upd(a.d, [(z, n)], z, T.subst(x, {k: z})), a.et))
        if isinstance(a, MapV) and isinstance(b, MapV):
            new = [q for q in b.e if q not in a.e]
            if a.lazy:
                return ('set', a)
            if not a.e and len(new) == 1 and a.gen is None:
                p, v = b.e[new[0]]
                if p is TRUE and isinstance(new[0], Term):
                    r = MapV({}, b.vt, b.kt)
                    r.gen = (n, k, new[0], v)
                    return ('set', r)
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == 'b':
            return None
        return None

    def put(self, v, g):
        if g[0] == 'set':
            return g[1]
        f = dict(v.f)
        for x, y in g[1].items():
            f[x] = self.put(v.f[x], y)
        return Struct(v.cls, f)


V_ctr = itertools.count()


def mkarr(n, k, x):
    """the array of x(k) for k < n"""
    if x.op == 'sel' and x.args[1] is k and k not in x.args[0].fv:
        return x.args[0]
    z = index_var('z')
    RANGES[z] = n
    return T.upd(T.afill(ZERO), [(z, n)], z, T.subst(x, {k: z}))


def ground(t):
    """free indices become unknowns"""
    m = {k: var('index_' + str(i), True, 0) for i, k in enumerate(sorted(t.fv, key=str)) if k.sort == 'n'}
    return T.subst(t, m)


def same_arr(a, b, n):
    if a is b:
        return True
    i = index_var('i')
    RANGES[i] = n
    return T.sel(a, i) is T.sel(b, i)


def same_val(a, b):
    return a is b or a == b


def leaves(v, c=TRUE):
    if isinstance(v, Gate):
        return leaves(v.a, and_(c, v.c)) + leaves(v.b, and_(c, not_(v.c)))
    return [(c, v)]


def show_item(h):
    if h is None:
        return 'nothing more'
    if h[0] == 'v':
        return 'one %s of %d bytes (%s)' % ({'i': 'integer', 'f': 'float'}[h[2]], h[1], T.show(h[3])[:60] if isinstance(h[3], Term) else '?')
    if h[0] == 's':
        return 'the characters of %s' % T.show(h[2])[:60]
    if h[0] == 'a':
        return 'a sequence of %s bytes, %d-byte elements' % (T.show(h[1])[:60], h[2])
    if h[0] == 'rep':
        return '%s repetitions' % T.show(h[1])[:60]
    return str(h[0])


def gen_map(n, k, key, val, vt, kt):
    r = MapV({}, vt, kt)
    r.gen = (n, k, key, val)
    RANGES[k] = n
    return r


def map_types(ctx, cls, field):
    for f, _ in Interp(ctx.p).all_fields(ctx.p.rec(cls)):
        if f['n'] == field:
            import stdm
            a = stdm._targs(IN2.strip_t(f['t']))
            return a[0], a[1]


def gcount(name, args=()):
    return T.fn('abs', (uf(name, tuple(args), 'n', True),))


def gvec(name, args, et='int'):
    return Vec(gcount('n_' + name, args), uf('c_' + name, tuple(args), 'a', et == 'int'), et)


CFG = 'deepworks::Model::Config'


def gen_config(ctx, F):
    d = F.d
    kp, ko, ka = index_var('kp'), index_var('ko'), index_var('ka')
    pid = uf('phid', (kp,), 'n', True)
    ph = Struct(CFG + '::PlaceholderInfo', {'shape': gvec('phshape', (kp,)), 'id': pid})
    kt, vt = map_types(ctx, CFG, 'ph_map')
    at = Struct('deepworks::Attribute', {'m_type': F.AT, 'm_shape': F.AS, 'm_value': Opq('gany', (ko, ka))})
    akt, avt = map_types(ctx, CFG + '::OperationInfo', 'attrs')
    attrs = gen_map(gcount('nattrs', (ko,)), ka, uf('attrname', (ko, ka), 's'), at, avt, akt)
    op = Struct(CFG + '::OperationInfo', {'name': uf('opname', (ko,), 's'), 'type': uf('optype', (ko,), 's'), 'attrs': attrs,
                                          'in_ids': gvec('opin', (ko,)), 'out_ids': gvec('opout', (ko,))})
    n = gcount('nops')
    RANGES[ko] = n
    v = {'input_ids': gvec('inids', ()), 'output_ids': gvec('outids', ()), 'ph_map': gen_map(gcount('nphs'), kp, pid, ph, vt, kt),
         'sorted_ops': Vec(n, Gen(ko, op), CFG + '::OperationInfo')}
    r = ctx.p.rec(CFG)
    for c in (CFG, CFG + '::OperationInfo', CFG + '::PlaceholderInfo', 'deepworks::Attribute'):
        q = ctx.p.rec(c)
        have = {f['n'] for f, _ in d.I.all_fields(q)} if q else None
        want = {'Config': set(v), 'OperationInfo': set(op.f), 'PlaceholderInfo': set(ph.f), 'Attribute': set(at.f)}[c.split('::')[-1]]
        if have is None or not want <= have:
            raise Missing('fields of ' + c)
        if have - want:
            raise Unsupported('further fields of %s: %s' % (c, sorted(have - want)))
    return Struct(CFG, v), (pid, F)


class Cmp:
    def __init__(self, ctx, F, where):
        self.ctx, self.F, self.where = ctx, F, where

    def rule(self, path, a, b):
        s = lambda x: T.show(x)[:150] if isinstance(x, Term) else repr(x)[:150]
        if isinstance(a, Term) and isinstance(b, Term) and a.sort == 'n' and b.sort == 'n' and a is not b:
            return self.ctx.eq('%s reads back' % path, ground(b), ground(a), self.where)
        self.ctx.rule('%s reads back' % path, a is b or not isinstance(a, Term) and a == b, self.where, 'written %s, read %s' % (s(a), s(b)))

    def cmp(self, path, a, b):
        if isinstance(a, Struct) and a.cls == 'deepworks::Attribute':
            return self.attr(path, a, b)
        if isinstance(a, Struct):
            if not isinstance(b, Struct):
                raise unsup('value read for ' + path, b)
            for f in a.f:
                self.cmp(path + '.' + f, a.f[f], b.f[f])
            return
        if isinstance(a, Vec) and isinstance(b, Vec):
            if isinstance(a.d, Gen):
                self.rule(path + ' (count)', a.n, b.n)
                if not isinstance(b.d, Gen):
                    return self.rule(path, a.d, b.d)
                return self.cmp(path + '[k]', a.d.elem, vsub(b.d.elem, {b.d.k: a.d.k}))
            self.rule(path + ' (length)', a.n, b.n)
            if isinstance(a.d, Term) and isinstance(b.d, Term) and same_arr(a.d, b.d, a.n):
                return self.rule(path, a.d, a.d)
            return self.rule(path, a.d, b.d)
        if isinstance(a, MapV) and isinstance(b, MapV):
            if b.gen is None:
                return self.rule(path + ' entries', a.gen, b.gen)
            self.rule(path + ' (count)', a.gen[0], b.gen[0])
            m = {b.gen[1]: a.gen[1]}
            self.cmp(path + ' key', a.gen[2], vsub(b.gen[2], m))
            return self.cmp(path + ' value', a.gen[3], vsub(b.gen[3], m))
        self.rule(path, a, b)

    def attr(self, path, a, b):
        F = self.F
        kinds = {x['n']: int(x['v']) for x in self.ctx.p.enums['deepworks::AttrType']['c'] if x['n'] != 'UNSUPPORTED'}
        shapes = {x['n']: int(x['v']) for x in self.ctx.p.enums['deepworks::AttrShape']['c']}
        for sn, sv in shapes.items():
            for tn, tv_ in kinds.items():
                m = {F.AS: const(sv), F.AT: const(tv_)}
                x = vsub(b, m)
                nm = '%s (%s of %s)' % (path, sn, tn)
                if isinstance(x, Gate):
                    raise unsup('attribute read back', x)
                if not isinstance(x, Struct):
                    self.ctx.rule(nm + ' reads back', False, self.where, 'no value for this kind of attribute')
                    continue
                self.rule(nm + ' type', const(tv_), x.f['m_type'])
                self.rule(nm + ' shape', const(sv), x.f['m_shape'])
                v = x.f['m_value']
                if isinstance(v, Gate):
                    raise unsup('attribute value', v)
                if not isinstance(v, AnyV):
                    raise Unsupported('attribute value')
                w = F.any_value(a.f['m_value'], IN2.strip_t(v.t).replace('2ul', '2'))
                k = F.KINDS.get(IN2.strip_t(v.t).replace('2ul', '2'))
                if k is not None:
                    self.ctx.rule(nm + ' holds the right type', k == (sn, tn), self.where, 'holds a value of type %s' % v.t)
                val = v.v
                if isinstance(val, Vec) and isinstance(w, Vec) and isinstance(val.d, tuple):
                    self.rule(nm + ' count', w.n, val.n)
                    for i, (p, q) in enumerate(zip(w.d, val.d)):
                        self.rule('%s value %d' % (nm, i), p, q)
                else:
                    self.rule(nm + ' value', w, val)


def feasible_throws(ctx, F, d, where, name):
    kinds = [int(x['v']) for x in ctx.p.enums['deepworks::AttrType']['c'] if x['n'] != 'UNSUPPORTED']
    shapes = [int(x['v']) for x in ctx.p.enums['deepworks::AttrShape']['c']]
    bad, unk = [], []
    for s, x in d.I.thr:
        c = and_(*s.pc)
        for a in shapes:
            for b in kinds:
                q = T.subst(c, {F.AS: const(a), F.AT: const(b)})
                if q is FALSE:
                    continue
                bad.append('%s:%s %s' % (x.fn, x.line, x.typ))
                break
    ctx.rule(name, not bad, where, 'exception for a file that was just saved: ' + ', '.join(sorted(set(bad)))[:300])
    for nm, pc, c, line, fn in F.obs:
        q = [T.subst(T.or_(not_(and_(*pc)), c), {F.AS: const(a), F.AT: const(b)}) for a in shapes for b in kinds]
        w = '%s (line %s)' % (fn, line)
        if all(x is TRUE for x in q):
            ctx.ok(nm, 'path conditions', w)
        else:
            for x in q:
                if x is not TRUE:
                    ctx.holds(nm, x, w)
                    break


def find2(d, name, *frag):
    fs = [f for f in d.p.byname.get('deepworks::' + name, []) if len(f['params']) == len(frag) and all(x in p['t'] for x, p in zip(frag, f['params']))]
    if not fs:
        raise Missing('deepworks::' + name)
    return fs[0]


def modes(ctx, F):
    for m, rd, fn, line in F.modes:
        if m is None:
            continue
        w = '%s (line %s)' % (fn, line)
        if isinstance(m, Term) and isconst(m):
            b = cval(m)
            # libstdc++: app 1, ate 2, binary 4, in 8, out 16, trunc 32
            ctx.rule('files are opened without appending', not b & 3, w, 'open mode has app or ate')
            if rd:
                ctx.rule('a file is opened for reading only', not b & 16, w, 'loading requires write permission (std::ios::out)')
        else:
            ctx.notes.append('open mode at %s:%s not constant' % (fn, line))


def protocol(ctx, name, f, where):
    try:
        return f()
    except Mismatch as m:
        ctx.rule(name, False, '%s (line %s)' % (m.fn, m.line), m.msg)
    except Dead:
        ctx.rule(name, False, where, 'always ends in an exception')


STR = 'basic_string'


@prop('C31', R31)
def c31(ctx):
    stag = ctag = None
    w = ctx.where('deepworks::load_state')
    with ctx.section('states', w):
        d = ctx.drv()
        F = Files(ctx, d)

        def run():
            k = index_var('k')
            src = gen_map(gcount('nstate'), k, uf('key', (k,), 's'), F.gtensor('src', (k,)), STEXT, 'std::string')
            dst = MapV({}, STEXT, 'std::string')

            def lazy(I, st, key):
                if key.op != 'uf' or key.args[0] != 'key':
                    raise Mismatch(0, 'load_state', 'looks up %s, not the name that was saved' % T.show(key)[:80])
                g = F.gtensor('same', key.args[1])
                F.tcell(st, ('same',) + tuple(key.args[1]), 'data')
                return (TRUE, g)
            dst.lazy = lazy
            a, b, p = d.cell(src), d.cell(dst), d.cell(svar('path'))
            d.I.call_fn(find2(d, 'save_state', 'unordered_map', STR), d.st, None, [a, p], 0, d.fr)
            nw = len(F.iters)
            d.I.call_fn(find2(d, 'load_state', 'unordered_map', STR), d.st, None, [b, p], 0, d.fr)
            t = d.st.store[('file', svar('path'))]
            ctx.rule('the saved state is not empty', isinstance(t, Opq) and len(t.d) > 1, w, 'nothing is written')
            its = F.iters[nw:]
            seen = 0
            for k2, n, norm, line, fn, before in its:
                for (key, what), (cell, v0) in F.tens.items():
                    if key[0] == 'same' and what == 'data' and cell.cell in norm.store and key[1] is k2:
                        seen += 1
                        v = norm.store[cell.cell]
                        ctx.rule('the data of every entry reads back', isinstance(v, Vec) and isinstance(v.d, Term) and same_arr(v.d, uf('data', (k2,), 'a'), v0.n), '%s (line %s)' % (fn, line),
                                 'after loading the entry holds %s' % (T.show(v.d)[:200] if isinstance(v, Vec) and isinstance(v.d, Term) else v))
            ctx.rule('every entry of the state is loaded', seen > 0, w, 'no entry is stored')
        protocol(ctx, 'the state loader consumes what the saver wrote', run, w)
        ft = d.st.store.get(('file', svar('path')))
        stag = ft.d[0][3] if isinstance(ft, Opq) and ft.k == 'tape' and ft.d and ft.d[0][0] == 'v' else None
        feasible_throws(ctx, F, d, w, 'a saved state loads')
        modes(ctx, F)
    w = ctx.where('deepworks::load_cfg')
    with ctx.section('configurations', w):
        d = ctx.drv()
        F = Files(ctx, d)

        def run():
            cfg, _ = gen_config(ctx, F)
            a, p = d.cell(cfg), d.cell(svar('path'))
            d.I.call_fn(find2(d, 'save_cfg', 'Config', STR), d.st, None, [a, p], 0, d.fr)
            r = d.I.call_fn(find2(d, 'load_cfg', STR), d.st, None, [p], 0, d.fr)
            Cmp(ctx, F, w).cmp('configuration', cfg, d.I.val(d.st, r))
        protocol(ctx, 'the configuration loader consumes what the saver wrote', run, w)
        ft = d.st.store.get(('file', svar('path')))
        ctag = ft.d[0][3] if isinstance(ft, Opq) and ft.k == 'tape' and ft.d and ft.d[0][0] == 'v' else None
        diff_tags(ctx, ctag, stag, w)
        feasible_throws(ctx, F, d, w, 'a saved configuration loads')
        modes(ctx, F)
    w = ctx.where('deepworks::load')
    with ctx.section('whole models', w):
        d = ctx.drv()
        F = Files(ctx, d)

        def run():
            cfg, _ = gen_config(ctx, F)
            k = index_var('k')
            src = gen_map(gcount('nstate'), k, uf('key', (k,), 's'), F.gtensor('src', (k,)), STEXT, 'std::string')
            dst = MapV({}, STEXT, 'std::string')

            def lazy(I, st, key):
                g = F.gtensor('same', key.args[1])
                F.tcell(st, ('same',) + tuple(key.args[1]), 'data')
                return (TRUE, g)
            dst.lazy = lazy
            a, b, c, p = d.cell(src), d.cell(dst), d.cell(cfg), d.cell(svar('path'))
            saved, built = Struct('deepworks::Model', {'$m': Opq('saved')}), Struct('deepworks::Model', {'$m': Opq('built')})
            calls = []

            def which(I, st, obj):
                o = I.val(st, obj)
                if isinstance(o, Ptr):
                    o = I.val(st, I.deref(st, o))
                return o.f['$m'].k if isinstance(o, Struct) and '$m' in o.f else None

            def h_state(I, e, st, fr, obj, args):
                q = which(I, st, obj)
                return a if q == 'saved' else b if q == 'built' else NotImplemented

            def h_cfg(I, e, st, fr, obj, args):
                return c if which(I, st, obj) == 'saved' else NotImplemented

            def h_build(I, e, st, fr, obj, args):
                calls.append(I.val(st, args[0]))
                return built
            d.I.hooks.update({'deepworks::Model::state': h_state, 'deepworks::Model::cfg': h_cfg, 'deepworks::Model::Build': h_build})
            d.I.call_fn(find2(d, 'save', 'Model', STR), d.st, None, [d.cell(saved), p], 0, d.fr)
            nw = len(F.iters)
            r = d.I.val(d.st, d.I.call_fn(find2(d, 'load', STR), d.st, None, [p], 0, d.fr))
            ctx.rule('loading builds one model', len(calls) == 1, w, '%d models are built' % len(calls))
            if calls:
                Cmp(ctx, F, w).cmp('configuration', cfg, calls[0])
            ctx.rule('the built model is returned', isinstance(r, Struct) and r.f.get('$m') == Opq('built'), w, 'returns another object')
            seen = 0
            for k2, n, norm, line, fn, before in F.iters[nw:]:
                for (key, what), (cell, v0) in F.tens.items():
                    if key[0] == 'same' and what == 'data' and cell.cell in norm.store and key[1] is k2:
                        seen += 1
                        v = norm.store[cell.cell]
                        ctx.rule('the state of the built model is the saved one', isinstance(v, Vec) and isinstance(v.d, Term) and same_arr(v.d, uf('data', (k2,), 'a'), v0.n), '%s (line %s)' % (fn, line),
                                 'after loading the entry holds other data')
            ctx.rule('the state of the built model is loaded', seen > 0, w, 'no entry is stored')
        protocol(ctx, 'the loader consumes what the saver wrote', run, w)
        feasible_throws(ctx, F, d, w, 'a saved model loads')
        modes(ctx, F)


def imp(pc, c):
    t = T.or_(not_(and_(*pc)), c)
    m = {}
    for i, k in enumerate(sorted(t.fv, key=str)):
        m[k] = var('index%d' % i, True, 0) if k.sort == 'n' else k
    return T.subst(t, m)


def kind_tag(ctx, saver, pt, arg):
    """leading value the saver writes"""
    d = ctx.drv()
    F = Files(ctx, d)
    x = arg(F, d)
    d.I.call_fn(find2(d, saver, pt, STR), d.st, None, [x, d.cell(svar('path'))], 0, d.fr)
    t = d.st.store[('file', svar('path'))]
    h = t.d[0] if isinstance(t, Opq) and t.d else None
    return h[3] if h and h[0] == 'v' else None


def diff_tags(ctx, tag, other, where):
    if tag is None or other is None or not isconst(tag) or not isconst(other):
        return ctx.undecided('the two kinds of file have different tags', 'no leading constant', where)
    ctx.rule('the two kinds of file have different tags', tag is not other, where, 'both start with %s' % T.show(tag))


def exits(ctx, F, d, st, tag, other, where, kind):
    """obligations on a normal exit of a loader"""
    s = [st.store[c] for c in st.store if isinstance(st.store[c], Struct) and st.store[c].cls == '$fs' and st.store[c].f['rd'] is TRUE]
    ctx.rule('one file is read', len(s) >= 1, where, 'no file is read')
    for x in s[:1]:
        lost = st.decide(x.f['lost'])
        ctx.rule('the loader ends normally only when the file was opened and every read succeeded', lost is FALSE, where,
                 'a normal end is possible although %s' % T.show(lost)[:300])
    diff_tags(ctx, tag, other, where)
    first = F.reads and F.seqs and F.seqs[0][0]
    if isinstance(first, Term) and first.sort == 'n' and tag is not None:
        c = st.decide(T.eq(first, tag))
        ctx.rule('a file of another kind is refused', c is TRUE or None if c is not FALSE and c is not T.eq(first, tag) else c is TRUE, where,
                 'a normal end is possible with tag %s' % T.show(first))
    else:
        ctx.undecided('a file of another kind is refused', 'no leading value', where)


@prop('C40', 'the savers are interpreted on an arbitrary object with every output operation able to fail (opening, each write, the final flush of the buffer); '
      'the path condition of every normal exit must exclude each failure')
def c40(ctx):
    def state(F, d):
        k = index_var('k')
        return d.cell(gen_map(gcount('nstate'), k, uf('key', (k,), 's'), F.gtensor('src', (k,)), STEXT, 'std::string'))

    def config(F, d):
        return d.cell(gen_config(ctx, F)[0])
    for name, pt in (('save_state', 'unordered_map'), ('save_cfg', 'Config'), ('save', 'Model'), ('save_dot', 'Config')):
        w = ctx.where('deepworks::' + name)
        with ctx.section(name, w):
            d = ctx.drv()
            F = Files(ctx, d, arb=True)
            if pt == 'Model':
                a, c = state(F, d), config(F, d)
                d.I.hooks.update({'deepworks::Model::state': lambda *q: a, 'deepworks::Model::cfg': lambda *q: c})
                x = d.cell(Struct('deepworks::Model', {'$m': Opq('saved')}))
            else:
                x = (state if pt == 'unordered_map' else config)(F, d)
            if name == 'save_dot':
                def indexed(I, e, st, fr, obj, args):
                    v = I.val(st, args[0])
                    if not isinstance(v, Vec):
                        raise unsup('indexed over', v)
                    k = index_var('j')
                    return Vec(v.n, Gen(k, Struct('ade::util::Indexed', {'i': k, 'v': I.vget(v, k)})), 'ade::util::Indexed')

                def part(f):
                    return lambda I, e, st, fr, obj, args: I.val(st, args[0]).f[f]
                d.I.hooks.update({'ade::util::indexed': indexed, 'ade::util::value': part('v'), 'ade::util::index': part('i')})
            try:
                d.I.call_fn(find2(d, name, pt, STR), d.st, None, [x, d.cell(svar('path'))], 0, d.fr)
            except Mismatch as m:
                ctx.undecided('output of ' + name, m.msg, w)
                continue
            except Dead:
                ctx.violation('%s can succeed' % name, w, dict(reason='always ends in an exception'))
                continue
            st = d.st
            fs = [st.store[c] for c in st.store if isinstance(st.store[c], Struct) and st.store[c].cls == '$fs' and st.store[c].f['rd'] is not TRUE]
            ctx.rule('%s: one file is written' % name, len(fs) == 1, w, '%d files' % len(fs))
            for s in fs[:1]:
                lost, dirty = st.decide(s.f['lost']), st.decide(s.f['dirty'])
                ctx.rule('%s ends normally only when the file was opened and every write succeeded' % name, lost is FALSE, w, 'a normal end is possible although %s' % T.show(lost)[:300])
                ctx.rule('%s checks that the buffered output reached the file' % name, dirty is FALSE, w,
                         'the rest of the output is written by the destructor of the stream, which reports nothing')
            types(ctx, d, w)


@prop('C32', R32)
def c32(ctx):
    w = ctx.where('deepworks::load_state')

    def st_arg(F, d):
        k = index_var('k')
        return d.cell(gen_map(gcount('nstate'), k, uf('key', (k,), 's'), F.gtensor('src', (k,)), STEXT, 'std::string'))

    tags = {}
    with ctx.section('tags', w):
      try:
        tags['s'] = kind_tag(ctx, 'save_state', 'unordered_map', st_arg)
        tags['c'] = kind_tag(ctx, 'save_cfg', 'Config', lambda F, d: d.cell(gen_config(ctx, F)[0]))
      except Mismatch as m:
        ctx.undecided('tags', m.msg, w)
    with ctx.section('states', w):
        d = ctx.drv()
        F = Files(ctx, d, arb=True)
        keys = []
        dst = MapV({}, STEXT, 'std::string')

        def lazy(I, st, key):
            i = len(keys)
            g = F.gtensor('dst', (i,))
            pres = bvar('present%d' % i)
            F.tcell(st, ('dst', i), 'data')
            F.tcell(st, ('dst', i), 'shape')
            keys.append((key, pres, i))
            return (pres, g)
        dst.lazy = lazy
        b, p = d.cell(dst), d.cell(svar('path'))
        thr0 = len(d.I.thr)
        d.I.call_fn(find2(d, 'load_state', 'unordered_map', STR), d.st, None, [b, p], 0, d.fr)
        exits(ctx, F, d, d.st, tags.get('s'), tags.get('c'), w, 'STATE')
        ends = [(norm, 'iteration', '%s (line %s)' % (fn, line)) for k, n, norm, line, fn, bf in F.iters]
        ctx.rule('the entries are read in a loop over the stored count', len(ends) > 0 or None, w, 'no loop over the entries was recognised')
        outs = ends + [(s, 'exception', '%s (line %s)' % (x.fn, x.line)) for s, x in d.I.thr] + [(d.st, 'end', w)]
        for st, what, at in outs:
            for key, pres, i in keys:
                cell, v0 = F.tens[(('dst', i), 'data')]
                sh = F.tens[(('dst', i), 'shape')][0]
                v = st.store.get(cell.cell, v0)
                changed = v != v0
                if what == 'iteration':
                    c = st.decide(pres)
                    ctx.rule('a name that the model does not have is refused', c is TRUE, at, 'an iteration ends normally when %s is false' % T.show(pres))
                if not changed:
                    continue
                c = st.decide(pres)
                ctx.rule('data are stored only for a name that was found', c is TRUE, at, 'an entry is written without the name check')
                shv = st.store[sh.cell]
                good, why = False, 'no comparison of the shapes'
                for x, pc, line in F.seqs:
                    if not (isinstance(x, Vec) and x.et == 'int'):
                        continue
                    q = veq(d, st, shv, x)
                    r = st.decide(q)
                    if r is TRUE:
                        good = True
                        break
                    ds = uses(st.pc, shv.d)
                    if ds:
                        o, vv = len(ctx.obs), len(ctx.viol)
                        rr = cone(ctx, 'data are stored only after the shapes were compared', st.pc, q, at)
                        if rr is not False:
                            good = None
                            del ctx.obs[o:], ctx.viol[vv:]
                            if rr:
                                good = True
                                break
                        else:
                            del ctx.obs[o:], ctx.viol[vv:]
                            why = 'the comparison accepts different shapes'
                ctx.rule('data are stored only after the shapes were compared', good, at, why)
        if not any(isinstance(s.store.get(F.tens[(('dst', i), 'data')][0].cell), Vec) and
                   s.store.get(F.tens[(('dst', i), 'data')][0].cell) != F.tens[(('dst', i), 'data')][1] for s, _, _ in outs for _, _, i in keys):
            ctx.undecided('data are stored', 'no store into an entry was seen', w)
        bounds(ctx, F)
        types(ctx, d, w)
    w = ctx.where('deepworks::load_cfg')
    with ctx.section('configurations', w):
        d = ctx.drv()
        F = Files(ctx, d, arb=True)
        d.I.call_fn(find2(d, 'load_cfg', STR), d.st, None, [d.cell(svar('path'))], 0, d.fr)
        exits(ctx, F, d, d.st, tags.get('c'), tags.get('s'), w, 'CONFIG')
        bounds(ctx, F)
        types(ctx, d, w)


def bounds(ctx, F):
    seen = set()
    for nm, pc, c, line, fn in F.obs:
        at = '%s (line %s)' % (fn, line)
        if (nm, at, c) in seen:
            continue
        seen.add((nm, at, c))
        cone(ctx, nm, pc, c, at)


def names(t, out, memo):
    if t in memo:
        return out
    memo.add(t)
    if t.op in ('var', 'avar', 'tv', 'bv'):
        out.add(t)
    if t.op == 'uf':
        out.add(t)
    for x in T.children(t):
        names(x, out, memo)
    return out


def cone(ctx, nm, pc, c, at):
    """c under the conditions that share symbols with it"""
    syms = names(c, set(), set())
    rel = []
    lits = [x for x in pc]
    while True:
        new = [x for x in lits if x not in rel and names(x, set(), set()) & syms and len(names(x, set(), set())) <= 6]
        if not new:
            break
        rel += new
        for x in new:
            names(x, syms, set())
    m = {k: var('index%d' % i, True, 0) for i, k in enumerate(sorted(set().union(*[x.fv for x in rel + [c]]), key=str)) if k.sort == 'n'}
    return ctx.holds(nm, T.subst(c, m), at, assume=[T.subst(x, m) for x in rel])


def types(ctx, d, w):
    bad = [x for s, x in d.I.thr if x.typ not in ('deepworks::utils::DeepWorksException', 'std::ios_base::failure', 'std::out_of_range', 'std::runtime_error',
                                                   'std::bad_alloc', 'std::length_error')]
    ctx.rule('a refusal is an exception', not bad, w, 'throws %s' % [x.typ for x in bad])


def veq(d, st, a, b):
    i = index_var('q')
    return and_(T.eq(a.n, b.n), not_(T.any_(i, a.n, not_(T.eq(T.sel(a.d, i), T.sel(b.d, i))))))


def uses(pc, arr):
    return [c for c in pc if T.contains(c, arr)]
