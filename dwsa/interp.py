"""Value-graph construction: an abstract interpreter over the extracted syntax trees.

It joins branches with gated (ite) values, and replaces loops by closed forms / recurrence
nodes; no path is enumerated and no loop with a non-constant bound is unrolled.
"""
import re
from terms import *
import terms as T
from values import *
import values as V

UNROLL = 64
INT_T = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short',
         'unsigned short', 'char', 'signed char', 'unsigned char', 'bool', '__int128', 'unsigned __int128'}
FLT_T = {'float', 'double', 'long double'}


def strip_t(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        else:
            return t


def is_ref(t):
    return t.endswith('&')


def targs(t):
    """top-level template arguments of a type string"""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Exc:
    def __init__(self, typ, val, line, fn, file):
        self.typ, self.val, self.line, self.fn, self.file = typ, val, line, fn, file

    def __repr__(self):
        return 'Exc(%s %s:%s)' % (self.typ, self.file, self.line)


class Counter:
    def __init__(self, v=0):
        self.v = v

    def __next__(self):
        self.v += 1
        return self.v


class Event:
    __slots__ = ('kind', 'pc', 'bd', 'line', 'fn', 'd', 'par', 'file')

    def __init__(self, kind, pc, bd, line, fn, file, d, par):
        self.kind, self.pc, self.bd, self.line, self.fn, self.file, self.d, self.par = kind, pc, bd, line, fn, file, d, par

    def __repr__(self):
        return '%s@%s:%s %r pc=%r bd=%r' % (self.kind, self.fn, self.line, self.d, self.pc, self.bd)


class Out:
    __slots__ = ('norm', 'brk', 'cont', 'ret')

    def __init__(self, norm=None):
        self.norm, self.brk, self.cont, self.ret = norm, [], [], []


class Frame:
    __slots__ = ('fn', 'tu', 'env', 'this', 'rt', 'exc', 'file', 'line', 'body', 'stmt', 'vol')

    def __init__(self, fn, tu, env, this, rt, file):
        self.fn, self.tu, self.env, self.this, self.rt, self.file = fn, tu, env, this, rt, file
        self.exc = None
        self.line = 0
        self.body = self.stmt = None
        self.vol = set()


class Interp:
    def __init__(self, prog):
        self.p = prog
        self.log = []
        self.log_access = False
        self.fast_exc = True
        self.thr = []
        self.binders = []
        self.par = []           # active parallel regions
        self.parlog = []
        self.cells = Counter()
        self.gcells = Counter(1 << 40)     # never rewound
        self.celltype = {}
        self.cellinfo = {}      # cell -> description
        self.depth = 0
        self.stack = []
        self.hints = {}
        self.purity = {}
        self.globals = {}
        self.seek = None        # statement to resume at after a longjmp
        self.sjval = None
        self.ptrtab = {}        # pointer encodings inside symbolic-length sequences
        self.ext = {}           # records of C libraries: name -> default of unset fields
        self.hooks = {}         # qualified name -> python callable(interp, node, st, fr, obj, args)
        self.nodeid = {}
        self.visited = {}       # function id -> times inlined
        self.undecided = []
        import stdm
        import eig
        self.std = stdm
        self.eig = eig

    # ------------------------------------------------------------ helpers
    def new_cell(self, st, val, desc=''):
        c = next(self.cells)
        st.store[c] = val
        self.cellinfo[c] = desc
        return Loc(c)

    def event(self, kind, st, fr, line, d):
        self.log.append(Event(kind, st.pc, tuple(self.binders), line, fr.fn if fr else '?', fr.file if fr else '?', d,
                              tuple(self.par)))

    # ------------------------------------------------------------ memory
    def load(self, st, loc, fr=None, line=0):
        v = st.store[loc.cell]
        for i, p in enumerate(loc.path):
            v = self.step(st, v, p, fr, line, Loc(loc.cell, loc.path[:i]))
        return v

    def step(self, st, v, p, fr=None, line=0, loc=None):
        if isinstance(v, Gate):
            v = self.resolve(st, v)
            if isinstance(v, Gate):
                return merge_vals(v.c, self.step(st.fork(v.c), v.a, p), self.step(st.fork(not_(v.c)), v.b, p))
        if isinstance(v, Struct):
            if p not in v.f:
                if v.cls in self.ext:
                    return UNDEF if not v.f.get('$zero') else self.ext[v.cls](p)
                raise Unsupported('field %s of %s' % (p, v.cls))
            return v.f[p]
        if isinstance(v, Vec) and isinstance(p, tuple):
            off = p[1]
            if self.log_access and fr is not None:
                self.event('acc', st, fr, line, ('r', loc, off, v.n))
            return self.vget(v, off)
        if isinstance(v, MapV):
            if p[1] not in v.e:
                if v.gen is not None and p[1] is v.gen[2]:
                    return v.gen[3]
                raise Unsupported('map key %r' % (p[1],))
            return v.e[p[1]][1]
        if isinstance(v, OptV) or isinstance(v, AnyV):
            return v.v
        if isinstance(v, Term) and isinstance(p, tuple) and v.sort == 's':
            return uf('char_at', (v, p[1]), 'n', True)
        if isinstance(p, tuple) and p[0] == 'i' and isinstance(p[1], Term) and p[1] is ZERO:
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Opq) and v.k == 'released':
            self.event('uaf', st, fr, line, v.d)
            return UNDEF
        raise Unsupported('step %r into %s' % (p, type(v).__name__))

    def vget(self, v, off):
        if isinstance(v.d, Gen):
            return self.hooks['$subst'](v.d.elem, {v.d.k: off})
        if isinstance(v.d, Slots):
            return v.d.get(off)
        if isinstance(v.d, tuple):
            if isconst(off):
                i = cval(off)
                if 0 <= i < len(v.d):
                    return v.d[i]
                return UNDEF
            r = None
            for i in reversed(range(len(v.d))):
                r = v.d[i] if r is None else merge_vals(T.eq(off, const(i)), v.d[i], r)
            return UNDEF if r is None else r
        r = sel(v.d, off)
        return self.decode_ptr(r) if v.et.endswith('*') else r

    def encode_ptr(self, st, p):
        if isinstance(p, Gate):
            a, b = self.encode_ptr(st, p.a), self.encode_ptr(st, p.b)
            return None if a is None or b is None else ite(p.c, a, b)
        if not isinstance(p, Ptr):
            return p if isinstance(p, Term) else None
        if p.base is None:
            return ZERO
        n = 'ptr:%d' % len(self.ptrtab)
        for k, v in self.ptrtab.items():
            if v == (p.base, p.off is None):
                n = k
        self.ptrtab[n] = (p.base, p.off is None)
        return uf(n, (p.off if p.off is not None else ZERO,), 'n', True)

    def decode_ptr(self, t):
        if t.op == 'uf' and t.args[0] in self.ptrtab:
            b, o = self.ptrtab[t.args[0]]
            return Ptr(b, None if o else t.args[1][0])
        if t.op == 'ite':
            return merge_vals(t.args[0], self.decode_ptr(t.args[1]), self.decode_ptr(t.args[2]))
        if t is ZERO:
            return NULL
        return t

    def store(self, st, loc, val, fr=None, line=0, mode='set'):
        if not loc.path:
            st.store[loc.cell] = val
            return
        st.store[loc.cell] = self._put(st, st.store[loc.cell], loc.path, val, fr, line, mode, loc, 0)

    def _put(self, st, v, path, val, fr, line, mode, loc, i):
        if i == len(path):
            return val
        p = path[i]
        if isinstance(v, Gate):
            v = self.resolve(st, v)
            if isinstance(v, Gate):
                return merge_vals(v.c, self._put(st, v.a, path, val, fr, line, mode, loc, i),
                                  self._put(st, v.b, path, val, fr, line, mode, loc, i))
        if isinstance(v, Struct):
            return v.with_(p, self._put(st, v.f.get(p, UNDEF), path, val, fr, line, mode, loc, i + 1))
        if isinstance(v, Vec):
            off = p[1]
            if self.log_access and fr is not None and i == len(path) - 1:
                self.event('acc', st, fr, line, ('w', Loc(loc.cell, path[:i]), off, v.n))
            if isinstance(v.d, Slots):
                old = v.d.get(off) if i != len(path) - 1 else None
                return Vec(v.n, v.d.put(self, st, off, self._put(st, old, path, val, fr, line, mode, loc, i + 1), line), v.et)
            if isinstance(v.d, tuple):
                if isconst(off):
                    k = cval(off)
                    if 0 <= k < len(v.d):
                        d = list(v.d)
                        d[k] = self._put(st, d[k], path, val, fr, line, mode, loc, i + 1)
                        return Vec(v.n, tuple(d), v.et)
                    return v
                if i == len(path) - 1 and isinstance(val, Term):
                    a = as_array(v)
                    if a is not None:
                        return Vec(v.n, upd(a, [], off, tonum(val)), v.et)
                d = [merge_vals(T.eq(off, const(k)), self._put(st, x, path, val, fr, line, mode, loc, i + 1), x)
                     for k, x in enumerate(v.d)]
                return Vec(v.n, tuple(d), v.et)
            if i != len(path) - 1:
                raise Unsupported('nested store into symbolic sequence')
            if val is UNDEF:
                val = uf('undef%d' % next(V._emptyctr), ())
            if v.et.endswith('*') and not isinstance(val, Term):
                val = self.encode_ptr(st, val)
            if not isinstance(val, Term):
                raise Unsupported('non-scalar element store')
            return Vec(v.n, upd(v.d, [], off, tonum(val)), v.et)
        if isinstance(v, MapV):
            e = dict(v.e)
            pr, old = e.get(p[1], (TRUE, UNDEF))
            e[p[1]] = (pr, self._put(st, old, path, val, fr, line, mode, loc, i + 1))
            return MapV(e, v.vt, v.kt)
        if isinstance(v, OptV):
            return OptV(v.p, self._put(st, v.v, path, val, fr, line, mode, loc, i + 1))
        if isinstance(v, AnyV):
            return AnyV(v.t, self._put(st, v.v, path, val, fr, line, mode, loc, i + 1))
        if isinstance(p, tuple) and p[0] == 'i' and p[1] is ZERO:
            return self._put(st, v, path, val, fr, line, mode, loc, i + 1)
        raise Unsupported('store %r into %s' % (p, type(v).__name__))

    def bulk(self, st, loc, ks, off, val, fr, line, cond=TRUE, mode='set'):
        """for ks: (*loc)[off] = val   (loc designates a Vec); val computed from the pre-state"""
        v = self.load(st, loc)
        if isinstance(v, Gate):
            v = self.resolve(st, v)
        if not isinstance(v, Vec):
            raise unsup('bulk write to %s' % type(v).__name__, v)
        for k, n in ks:
            RANGES.setdefault(k, n)
        if self.log_access:
            save = list(self.binders)
            self.binders.extend(ks)
            pc = st.pc
            if cond is not TRUE:
                st.pc = st.pc + (cond,)
            self.event('acc', st, fr, line, ('w', loc, off, v.n))
            st.pc = pc
            self.binders[:] = save
        if isinstance(v.d, tuple) and all(isconst(n) for _, n in ks) and cond is TRUE and len(ks) == 1:
            n = cval(ks[0][1])
            items = list(v.d)
            for i in range(max(0, n)):
                o = subst(off, {ks[0][0]: const(i)})
                x = subst(val, {ks[0][0]: const(i)})
                if not isconst(o):
                    break
                if 0 <= cval(o) < len(items):
                    items[cval(o)] = x if mode == 'set' else add(items[cval(o)], x)
            else:
                self.store(st, loc, Vec(v.n, tuple(items), v.et))
                return
        a = as_array(v)
        if a is None:
            raise Unsupported('bulk write to object sequence')
        if len(ks) == 1 and off is ks[0][0] and cond is TRUE and mode == 'set' and ks[0][1] is v.n \
                and ks[0][0] not in val.fv:
            self.store(st, loc, Vec(v.n, afill(val), v.et))
            return
        covers = cond is TRUE and mode == 'set' and self._covers(ks, off, v.n)
        base = afill(uf('undef%d' % next(V._emptyctr), ())) if covers else a
        self.store(st, loc, Vec(v.n, upd(base, ks, off, tonum(val), cond, mode), v.et))

    def _covers(self, ks, off, n):
        """the bulk write hits every index below n exactly once (dense mixed radix)"""
        rest = off
        strides = []
        for k, _ in ks:
            cf = coeff(rest, k)
            if cf is None:
                return False
            strides.append(cf[0])
            rest = cf[1]
        if rest is not ZERO:
            return False
        kk = {k for k, _ in ks}
        if any(s.fv & kk for s in strides) or any(m.fv & kk for _, m in ks):
            return False
        left = [(s, m) for s, (_, m) in zip(strides, ks)]
        cur = ONE
        while left:
            nx = [x for x in left if x[0] is cur]
            if not nx:
                return False
            # several with the same stride only when all but one have extent one
            x = nx[0]
            left.remove(x)
            cur = mul(cur, x[1])
        return cur is n

    def resolve(self, st, v):
        while isinstance(v, Gate):
            c = st.decide(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                a, b = self.resolve_branch(st, v.a, c), self.resolve_branch(st, v.b, not_(c))
                if a is not v.a or b is not v.b:
                    r = merge_vals(c, a, b)
                    return r
                return v
        return v

    def resolve_branch(self, st, v, c):
        if isinstance(v, Gate):
            return self.resolve(st.fork(c), v)
        return v

    def val(self, st, x, fr=None, line=0):
        """rvalue of an evaluation result"""
        if isinstance(x, Loc):
            x = self.load(st, x, fr, line)
        if isinstance(x, Gate):
            x = self.resolve(st, x)
        return x

    def term(self, st, x, fr=None, line=0):
        v = self.val(st, x, fr, line)
        if isinstance(v, Term):
            return v
        if v is UNDEF:
            return uf('undef%d' % next(V._emptyctr), ())
        if isinstance(v, Gate):
            return ite(v.c, self.term(st, v.a), self.term(st, v.b))
        if hasattr(v, 'scalar'):
            return v.scalar(self, st, fr, line)
        raise unsup('expected a scalar, got %s' % type(v).__name__, v)

    def num(self, st, x, fr=None, line=0):
        return tonum(self.term(st, x, fr, line))

    def bool(self, st, x, fr=None, line=0):
        v = self.val(st, x, fr, line)
        if isinstance(v, Term):
            return tobool(v) if v.sort != 's' else TRUE
        if isinstance(v, Ptr):
            return FALSE if v.base is None else TRUE
        if isinstance(v, Gate):
            return ite(v.c, self.bool(st, v.a), self.bool(st, v.b))
        if isinstance(v, OptV):
            return v.p
        if isinstance(v, (Lam, FnRef)):
            return TRUE
        if v is UNDEF:
            return bvar('undefb%d' % next(V._emptyctr))
        if isinstance(v, Struct) and v.cls == 'std::unique_ptr':
            return self.bool(st, v.f['p'])
        raise unsup('bool of %s' % type(v).__name__, v)

    def as_loc(self, st, x, desc='tmp'):
        if isinstance(x, Loc):
            return x
        return self.new_cell(st, x, desc)

    def deref(self, st, p, fr=None, line=0):
        """location designated by a pointer value"""
        p = self.val(st, p)
        if isinstance(p, Gate):
            # resolve impossible null alternatives: dereferencing null has no continuation
            a, b = p.a, p.b
            if isinstance(a, Ptr) and a.base is None:
                self.event('nullderef', st, fr, line, p.c)
                return self.deref(st, b, fr, line)
            if isinstance(b, Ptr) and b.base is None:
                self.event('nullderef', st, fr, line, not_(p.c))
                return self.deref(st, a, fr, line)
            raise Ambiguous('dereference of an ambiguous pointer', p.c)
        if isinstance(p, Struct) and p.cls == 'std::unique_ptr':
            return self.deref(st, p.f['p'], fr, line)
        if isinstance(p, MapIter):
            if p.key is None:
                self.event('nullderef', st, fr, line, TRUE)
                raise Dead()
            return p
        if isinstance(p, Opq) and p.k == 'riter':
            q = p.d
            return q.base + ('i', sub(q.off, ONE))
        if isinstance(p, (FnRef, Lam)) or isinstance(p, Opq) and p.k == 'lib':
            return self.as_loc(st, p)
        if isinstance(p, OptV):
            raise Unsupported('optional deref by value')
        if not isinstance(p, Ptr):
            raise unsup('deref of %s' % type(p).__name__, p)
        if p.base is None:
            self.event('nullderef', st, fr, line, TRUE)
            raise Dead()
        if p.off is None:
            return p.base
        return p.base + ('i', p.off)

    def addr(self, st, loc):
        if isinstance(loc, MapIter):
            raise Unsupported('address of map pair')
        if not isinstance(loc, Loc):
            loc = self.as_loc(st, loc)
        if loc.path and isinstance(loc.path[-1], tuple) and loc.path[-1][0] == 'i':
            return Ptr(Loc(loc.cell, loc.path[:-1]), loc.path[-1][1])
        return Ptr(loc)

    # ------------------------------------------------------------ types
    def default_value(self, t, st, fr, zero=False):
        t = strip_t(t)
        if t in self.ext:
            return Struct(t, {'$zero': TRUE} if zero else {})
        if t in INT_T or t in FLT_T:
            return (FALSE if t == 'bool' else ZERO) if zero else UNDEF
        if t.endswith('*'):
            return NULL if zero else UNDEF
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            n = int(m.group(2))
            return vec([self.default_value(m.group(1), st, fr, zero)] * n, m.group(1).strip())
        v = self.std.default_for(self, t, st, fr, zero)
        if v is not None:
            return v
        r = self.p.rec(t)
        if r is not None:
            c = self.p.default_ctor(r['t'])
            if c is not None:
                loc = self.new_cell(st, UNDEF, t)
                self.store(st, loc, self.shell(r, st, fr, False))
                self.call_fn(c, st, loc, [])
                return self.load(st, loc)
            return self.default_struct(r, st, fr, zero)
        e = self.p.enums.get(t)
        if e is not None:
            return ZERO if zero else UNDEF
        if '(' in t:
            return NULL if zero else UNDEF
        return Opq('obj', t)

    def all_fields(self, r):
        out = []
        for b in r['b']:
            rb = self.p.rec(b)
            if rb:
                out += self.all_fields(rb)
        return out + [(f, r) for f in r['f']]

    def default_struct(self, r, st, fr, zero=False):
        f = {}
        for x, owner in self.all_fields(r):
            if 'init' in x:
                tmpfr = Frame(r['n'], owner['_tu'], {}, None, 'void', r['file'])
                v = self.val(st, self.ev(x['init'], st, tmpfr))
                v = self.convert(v, x['t'])
            else:
                v = self.default_value(x['t'], st, fr, zero)
            f[x['n']] = v
        return Struct(r['t'], f)

    def convert(self, v, t):
        return v

    # ------------------------------------------------------------ functions
    def call_fn(self, fn, st, this, args, line=0, fr=None):
        """inline a repository function. args: values or Locs, in parameter order"""
        self.visited[fn['id']] = self.visited.get(fn['id'], 0) + 1
        if self.depth > 70:
            raise Unsupported('recursion through %s' % fn['fn'])
        env = {}
        f2 = Frame(fn['fn'], fn['_tu'], env, this, fn['rt'], fn['file'])
        for p, a in zip(fn['params'], args):
            env[p['d']] = self.bind_param(st, p['t'], a, p['n'])
        return self.run_body(fn['body'], fn.get('inits') if fn['kind'] == 'ctor' else None, st, f2, fn)

    def bind_param(self, st, t, a, name=''):
        if is_ref(t):
            if isinstance(a, (Loc, MapIter)):
                return a
            return self.new_cell(st, a, name)
        l = self.new_cell(st, self.val(st, a), name)
        self.celltype[l.cell] = t
        return l

    def run_body(self, body, inits, st, f2, fn):
        self.depth += 1
        self.stack.append(f2)
        try:
            base_pc = st.pc
            if inits is not None:
                self.run_inits(inits, st, f2, fn)
            tmark = len(self.thr)
            f2.body = body
            o = self.exec(body, st, f2)
            if any(x.typ == '$jmp' for _, x in self.thr[tmark:]):
                self.resume_jumps(o, f2, tmark)
            rets = list(o.ret)
            if o.norm is not None:
                rets.append((o.norm, None))
            if not rets:
                raise Dead()
            s, v = merge_many(base_pc, rets)
            st.take(s)
            for l in f2.env.values():
                pass
            return v
        finally:
            self.depth -= 1
            self.stack.pop()

    def resume_jumps(self, o, fr, tmark):
        """longjmp to a setjmp of this frame: continue after it with the non-zero result"""
        for rnd in range(60):
            i = next((i for i in range(tmark, len(self.thr))
                      if self.thr[i][1].typ == '$jmp' and self.thr[i][1].val[0] is fr), None)
            if i is None:
                return
            ts, x = self.thr.pop(i)
            _, stmt, snap, vol = x.val
            for d, (l, v) in snap.items():
                if d in vol or l.cell not in ts.store:
                    continue
                cur = ts.store[l.cell]
                if cur is v or cur == v:
                    continue
                nm = self.cellinfo.get(l.cell, '?')
                if isinstance(v, Term) and isinstance(cur, Term):
                    ts.store[l.cell] = uf('indet%d' % next(V._emptyctr), (), v.sort, v.isint) if v.sort == 'n' else bvar('indet%d' % next(V._emptyctr))
                elif isinstance(cur, (Ptr, Gate)) or isinstance(v, (Ptr, Gate)):
                    ts.store[l.cell] = Opq('indet', nm)
            self.seek, self.sjval = stmt, ONE
            o2 = self.exec(fr.body, ts, fr)
            if self.seek is not None or self.sjval is not None:
                self.seek = self.sjval = None
                raise Unsupported('resuming after longjmp')
            o.ret += o2.ret
            if o2.norm is not None:
                o.ret.append((o2.norm, None))
        raise Unsupported('too many longjmps')

    def contains(self, s, x):
        if s is x:
            return True
        if isinstance(s, dict):
            return any(self.contains(v, x) for v in s.values() if isinstance(v, (dict, list)))
        if isinstance(s, list):
            return any(self.contains(v, x) for v in s if isinstance(v, (dict, list)))
        return False

    def run_inits(self, inits, st, f2, fn):
        this = f2.this
        for x in inits:
            f2.line = x.get('l', 0)
            e = x['e']
            if 'm' in x:
                loc = this + x['m']
                if e is None:
                    continue
                ft = self.field_type(fn['clst'], x['m'])
                if ft and is_ref(ft):
                    l = self.ev(e, st, f2)
                    self.store(st, loc, Ptr(self.as_loc(st, l)))
                    continue
                self.ev_into(e, st, f2, loc)
            elif e is not None:
                if e['k'] in ('ctor', 'inhctor') and self.p.rec(strip_t(e.get('clst', e['t']))) is None:
                    for a in e.get('args', []):
                        self.ev(a, st, f2)
                    continue
                self.ev_into(e, st, f2, this)

    def field_type(self, cls, name):
        r = self.p.rec(cls)
        if not r:
            return None
        for f, _ in self.all_fields(r):
            if f['n'] == name:
                return f['t']
        return None

    def ev_into(self, e, st, fr, loc):
        """evaluate an initialiser directly into loc (so that `this` is right)"""
        if e is None:
            return
        if e['k'] in ('ctor', 'inhctor'):
            self.construct(e, st, fr, loc)
            return
        v = self.val(st, self.ev(e, st, fr), fr, e.get('l', 0))
        self.store(st, loc, v)

    def construct(self, e, st, fr, loc=None):
        """constructor call; returns the value (and stores to loc when given)"""
        t = strip_t(e['t'])
        cls = strip_t(e.get('clst', t))
        if '$construct' in self.hooks:
            v = self.hooks['$construct'](self, e, st, fr, cls)
            if v is not NotImplemented:
                if loc is not None:
                    self.store(st, loc, v)
                return v
        if self.std.handles(cls):
            v = self.std.construct(self, e, st, fr)
            if loc is not None:
                self.store(st, loc, v)
            return v
        if t in self.ext and not e['args']:
            v = Struct(t, {'$zero': TRUE} if e.get('zi') else {})
            if loc is not None:
                self.store(st, loc, v)
            return v
        fn = self.p.fns.get(e.get('id'))
        ck = e.get('ck')
        r = self.p.rec(cls)
        if fn is None and ck in ('copy', 'move') and len(e['args']) >= 1:
            v = self.val(st, self.ev(e['args'][0], st, fr), fr, e['l'])
            if isinstance(v, Struct) and r is not None and v.cls != r['t'] and r['t'] not in self.p.derived(v.cls):
                pass
            if loc is not None:
                self.store(st, loc, v)
            return v
        if r is None and fn is None:
            if e['args']:
                vs = [self.val(st, self.ev(a, st, fr)) for a in e['args']]
                if ck in ('copy', 'move'):
                    v = vs[0]
                else:
                    v = Opq('obj', cls)
            else:
                v = Opq('obj', cls)
            if loc is not None and not (loc.path == () and isinstance(st.store.get(loc.cell), Struct)):
                self.store(st, loc, v)
            return v
        if fn is not None and fn.get('defaulted_copy'):
            pass
        if fn is not None and ck in ('copy', 'move') and e.get('defaulted'):
            v = self.val(st, self.ev(e['args'][0], st, fr), fr, e['l'])
            if loc is not None:
                self.store(st, loc, v)
            return v
        if 'exception' in cls.lower() and self.fast_exc and not loc:
            for a in e['args']:
                self.ev(a, st, fr)
            return Opq('exc', cls)
        # allocate
        own = loc is None
        isbase = False
        if own:
            loc = self.new_cell(st, UNDEF, cls)
        cur = None
        try:
            cur = self.load(st, loc)
        except Unsupported:
            cur = UNDEF
        if isinstance(cur, Struct) and cur.cls != r['t'] and r['t'] in self.p.bases(cur.cls):
            isbase = True       # base-class subobject construction inside a derived constructor
        if not isbase:
            self.store(st, loc, self.shell(r, st, fr, e.get('zero', False) or fn is None))
        if fn is not None:
            args = [self.ev(a, st, fr) for a in e.get('args', [])]
            if e['k'] == 'inhctor':
                args = [fr.env[p] for p in fr.env]
            self.call_fn(fn, st, loc, args, e['l'], fr)
        return self.load(st, loc)

    def shell(self, r, st, fr, full):
        """object before its constructor body: scalars undefined, members default-constructed"""
        if full:
            return self.default_struct(r, st, fr, False)
        f = {}
        for x, owner in self.all_fields(r):
            try:
                xr = self.p.rec(strip_t(x['t']))
                f[x['n']] = (UNDEF if is_ref(x['t']) else self.shell(xr, st, fr, False) if xr is not None
                             else self.default_value(x['t'], st, fr, False))
            except Unsupported:
                f[x['n']] = UNDEF
        return Struct(r['t'], f)

    # ------------------------------------------------------------ calls
    def call(self, e, st, fr):
        line = e['l']
        fr.line = line
        n = e.get('n')
        cls = e.get('cls', '')
        hook = self.hooks.get(e.get('fn')) or (self.hooks.get('%s::%s' % (cls, n)) if cls else self.hooks.get(n))
        if hook is not None:
            obj = self.ev(e['obj'], st, fr) if 'obj' in e else None
            args = [self.ev(a, st, fr) for a in e['args']]
            r = hook(self, e, st, fr, obj, args)
            if r is not NotImplemented:
                return r
        if 'fn' not in e:
            # call through an expression (function pointer, jpeg method table...)
            f = self.val(st, self.ev(e['ce'], st, fr))
            args = [self.ev(a, st, fr) for a in e['args']]
            return self.call_value(f, args, st, fr, e)
        if cls.startswith('(lambda'):
            f = self.val(st, self.ev(e['obj'] if 'obj' in e else e['args'][0], st, fr))
            args = [self.ev(a, st, fr) for a in (e['args'] if 'obj' in e else e['args'][1:])]
            return self.call_value(f, args, st, fr, e)
        if self.std.handles(strip_t(e.get('clst', ''))) or (not self.p.fns.get(e['id']) and not e.get('virt')):
            return self.std.call(self, e, st, fr)
        if 'exception' in cls.lower() and self.fast_exc and n == 'operator<<':
            o = self.ev(e['args'][0], st, fr)
            for a in e['args'][1:]:
                self.ev(a, st, fr)
            return o
        fn = self.p.fns.get(e['id'])
        this = None
        args = e['args']
        if e.get('op') and cls and not e.get('static'):
            this = self.ev(args[0], st, fr)
            args = args[1:]
            objt = ''
        elif 'obj' in e:
            this = self.ev(e['obj'], st, fr)
            if strip_t(e['objt']).endswith('*'):
                this = self.deref(st, this, fr, line)
        if this is not None:
            if isinstance(this, Ptr):
                this = self.deref(st, this, fr, line)
            if not isinstance(this, (Loc, MapIter)):
                this = self.as_loc(st, self.val(st, this))
        if e.get('virt') and not e.get('nonvirt') and this is not None:
            o = self.val(st, this)
            if isinstance(o, Opq) and o.k == 'model':
                a = [self.ev(x, st, fr) for x in args]
                return o.d(self, e, st, fr, this, a)
            if isinstance(o, Struct):
                fn = self.p.virtual(o.cls, e['id']) or fn
        if fn is None:
            return self.std.call(self, e, st, fr)
        a = [self.ev(x, st, fr) for x in args]
        r = self.call_fn(fn, st, this, a, line, fr)
        return self.ret(r, fn['rt'])

    def ret(self, r, rt):
        return r

    def call_value(self, f, args, st, fr, e):
        if isinstance(f, Gate):
            c = st.decide(f.c)
            if c is TRUE:
                return self.call_value(f.a, args, st, fr, e)
            if c is FALSE:
                return self.call_value(f.b, args, st, fr, e)
            s1, s2 = st.fork(c), st.fork(not_(c))
            v1 = v2 = None
            try:
                v1 = self.val(s1, self.call_value(f.a, args, s1, fr, e))
            except Dead:
                s1 = None
            try:
                v2 = self.val(s2, self.call_value(f.b, args, s2, fr, e))
            except Dead:
                s2 = None
            if s1 is None and s2 is None:
                raise Dead()
            st.take(merge_states(c, s1, s2))
            return v2 if s1 is None else v1 if s2 is None else (None if v1 is None or v2 is None else merge_vals(c, v1, v2))
        if isinstance(f, Lam):
            node = f.node
            if 'insts' in node:
                inst = None
                for x in node['insts']:
                    if x['id'] == e.get('id'):
                        inst = x
                if inst is None:
                    inst = node['insts'][0] if node['insts'] else None
                if inst is None:
                    raise Unsupported('generic lambda')
            else:
                inst = node
            env = dict(f.env)
            f2 = Frame('lambda@%d' % node['l'], f.tu, env, f.this, inst['rt'], fr.file if fr else '?')
            for p, a in zip(inst['params'], args):
                env[p['d']] = self.bind_param(st, p['t'], a, p['n'])
            return self.run_body(inst['body'], None, st, f2, None)
        if isinstance(f, FnRef):
            h = self.hooks.get(f.node.get('fn')) or self.hooks.get(f.node.get('n'))
            if h is not None:
                r = h(self, e, st, fr, None, args)
                if r is not NotImplemented:
                    return r
            fn = self.p.fns.get(f.node.get('id'))
            if fn is not None:
                return self.call_fn(fn, st, None, args, e.get('l', 0), fr)
            n2 = dict(f.node)
            n2.update(k='call', l=e.get('l', 0), t=e.get('t', f.node.get('rt', '?')))
            return self.std.call_model(self, n2, st, fr, None, args)
        if isinstance(f, Opq) and f.k == 'functor':
            return self.std.apply_functor(self, f.d, args, st, fr, e)
        if isinstance(f, Struct):
            # object with operator()
            for m in self.p.methods(f.cls, 'operator()'):
                return self.call_fn(m, st, self.as_loc(st, f), args, e.get('l', 0), fr)
        if isinstance(f, Opq) and callable(f.d):
            return f.d(self, e, st, fr, None, args)
        if callable(f):
            return f(self, e, st, fr, None, args)
        raise Unsupported('call of %r' % (f,))

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        if e is None:
            return None
        return getattr(self, 'x_' + e['k'], self.x_bad)(e, st, fr)

    def x_bad(self, e, st, fr):
        raise Unsupported('expression %s' % e['k'])

    def x_num(self, e, st, fr):
        t = e['t']
        if t == 'bool':
            return TRUE if e['v'] in ('1', '-1', 'true') else FALSE
        if e.get('fl'):
            v = float(e['v'])
            if v in (float('inf'), float('-inf')) or v != v:
                return T.fn('lit', (), str(v))
            return const(nice(v, t))
        return const(int(e['v']))

    def x_str(self, e, st, fr):
        return string(e['v'])

    def x_null(self, e, st, fr):
        return NULL

    def x_zero(self, e, st, fr):
        return self.default_value(e['t'], st, fr, True)

    def x_nop(self, e, st, fr):
        return None

    def x_this(self, e, st, fr):
        if fr.this is None:
            raise Unsupported('this')
        return Ptr(fr.this) if isinstance(fr.this, Loc) else fr.this

    def x_ref(self, e, st, fr):
        dk = e.get('dk')
        if dk == 'fn':
            return FnRef(e)
        if dk == 'global' or e.get('static'):
            return self.global_loc(e, st, fr)
        l = fr.env.get(e['d'])
        if l is None:
            if dk == 'global' or 'usr' in e:
                return self.global_loc(e, st, fr)
            raise Unsupported('unbound %s' % e['n'])
        return l

    def global_loc(self, e, st, fr):
        key = e.get('usr') or (fr.tu, e['d'])
        if e.get('static') and e['d'] in fr.env:
            return fr.env[e['d']]
        l = self.globals.get(key)
        if l is None or l.cell not in st.store:
            g = self.p.globs.get(e.get('usr'))
            l = l or Loc(next(self.gcells))
            self.globals[key] = l
            self.cellinfo[l.cell] = 'global ' + e['n']
            if g is not None and g['v'].get('init') is not None:
                st.store[l.cell] = UNDEF
                f2 = Frame('global', g['_tu'], {}, None, 'void', g['file'])
                self.ev_into(g['v']['init'], st, f2, l)
            elif g is not None:
                st.store[l.cell] = self.default_value(g['v']['t'], st, fr, True)
            else:
                t = strip_t(e['t'])
                st.store[l.cell] = self.default_value(t, st, fr, True)
        return l

    def x_rv(self, e, st, fr):
        x = self.ev(e['e'], st, fr)
        return self.val(st, x, fr, e['l'])

    def x_mem(self, e, st, fr):
        b = self.ev(e['b'], st, fr)
        if e['arrow']:
            b = self.deref(st, b, fr, e['l'])
        elif isinstance(b, Gate):
            b = self.val(st, b)
        if isinstance(b, MapIter):
            return self.map_member(st, b, e['n'])
        if isinstance(b, Loc):
            l = b + e['n']
        else:
            v = self.val(st, b)
            if isinstance(v, MapIter):
                return self.map_member(st, v, e['n'])
            l = self.as_loc(st, v) + e['n']
        # reference members hold a pointer
        ft = None
        if e.get('cls'):
            ft = self.field_type(e['cls'], e['n'])
        if ft is not None and is_ref(ft):
            r = self.load(st, l)
            if isinstance(r, Opq) and r.k not in ('riter', 'striter', 'lit'):
                return l
            return self.deref(st, r, fr, e['l'])
        o = st.store.get(l.cell)
        ext = self.std.extern_member(self, e, st, fr, l)
        if ext is not None:
            return ext
        return l

    def map_member(self, st, it, name):
        if name == 'first':
            k = it.key
            return string(k) if isinstance(k, str) else (const(k) if isinstance(k, int) else k)
        return it.loc + ('m', it.key)

    def x_call(self, e, st, fr):
        return self.call(e, st, fr)

    def x_ctor(self, e, st, fr):
        return self.construct(e, st, fr)

    def x_inhctor(self, e, st, fr):
        return self.construct(e, st, fr)

    def x_ilist(self, e, st, fr):
        t = strip_t(e['t'])
        m = re.match(r'(.*)\[(\d*)\]$', t)
        items = [self.val(st, self.ev(x, st, fr), fr, e['l']) for x in e['e']]
        if m:
            n = int(m.group(2) or len(items))
            while len(items) < n:
                items.append(self.val(st, self.ev(e['filler'], st, fr)) if e.get('filler')
                             else self.default_value(m.group(1), st, fr, True))
            return vec(items, m.group(1).strip())
        if t.startswith('std::array<'):
            if len(items) == 1 and isinstance(items[0], Vec):
                v = items[0]
                n = int(targs(t)[1].rstrip('UL'))
                d = list(v.d) if isinstance(v.d, tuple) else None
                if d is not None:
                    while len(d) < n:
                        d.append(self.default_value(targs(t)[0], st, fr, True))
                    return vec(d, targs(t)[0])
                return v
            return self.default_value(t, st, fr, True) if not items else vec(items, targs(t)[0])
        if t in self.ext:
            return Struct(t, {'$zero': TRUE})
        r = self.p.rec(t)
        if r is not None:
            f = {}
            fields = self.all_fields(r)
            for i, (x, owner) in enumerate(fields):
                if i < len(items) and items[i] is not None:
                    f[x['n']] = items[i]
                elif 'init' in x:
                    f[x['n']] = self.val(st, self.ev(x['init'], st, Frame(r['n'], owner['_tu'], {}, None, 'void', r['file'])))
                else:
                    f[x['n']] = self.default_value(x['t'], st, fr, True)
            return Struct(r['t'], f)
        if len(items) == 1:
            return items[0]
        if not items:
            return self.default_value(t, st, fr, True)
        return vec(items)

    def x_stdlist(self, e, st, fr):
        return self.val(st, self.ev(e['e'], st, fr))

    def x_arrcopy(self, e, st, fr):
        return self.val(st, self.ev(e['e'], st, fr))

    def x_lambda(self, e, st, fr):
        env = {}
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                continue
            if c['ref']:
                if c.get('initcap'):
                    env[c['d']] = self.as_loc(st, self.ev(c['init'], st, fr))
                else:
                    l = fr.env.get(c['d'])
                    if l is None:
                        raise Unsupported('capture %s' % c['n'])
                    env[c['d']] = l
            else:
                if c.get('init') is not None:
                    v = self.val(st, self.ev(c['init'], st, fr))
                else:
                    v = self.val(st, fr.env[c['d']])
                env[c['d']] = self.new_cell(st, v, c.get('n', ''))
        return Lam(e, fr.tu, env, this)

    def x_cast(self, e, st, fr):
        ck = e['ck']
        t = e['t']
        x = self.ev(e['e'], st, fr)
        if ck in ('ArrayToPointerDecay',):
            if isinstance(x, Loc):
                v = self.val(st, x)
                if isinstance(v, Term) and v.sort == 's':
                    return v
                return Ptr(x, ZERO)
            v = self.val(st, x)
            if isinstance(v, Vec):
                return Ptr(self.as_loc(st, v), ZERO)
            return v
        if ck == 'NullToPointer' or ck == 'NullToMemberPointer':
            return NULL
        if ck in ('PointerToBoolean', 'IntegralToBoolean', 'FloatingToBoolean'):
            return self.bool(st, x, fr, e['l'])
        if ck == 'IntegralCast':
            v = self.num(st, x, fr, e['l'])
            return self.narrow(v, t)
        if ck == 'BooleanToSignedIntegral':
            return self.num(st, x)
        if ck in ('IntegralToFloating', 'FloatingCast'):
            return self.num(st, x, fr, e['l'])
        if ck == 'FloatingToIntegral':
            return self.narrow(trunc(self.num(st, x, fr, e['l'])), t)
        if ck == 'BitCast' and self.ext:
            x = self.recast(st, x, t)
        if ck in ('BitCast', 'BaseToDerived', 'Dynamic', 'ReinterpretMemberPointer', 'LValueBitCast'):
            return x
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            return self.val(st, x)
        raise Unsupported('cast ' + ck)

    def recast(self, st, x, t):
        """pointer to the first member -> pointer to the enclosing record, and back"""
        x = self.val(st, x)
        if not isinstance(x, Ptr) or x.base is None or x.off is not None or not t.endswith('*'):
            return x
        t = strip_t(t[:-1])
        v = self.load(st, x.base)
        if isinstance(v, Struct) and v.cls != t:
            if x.base.path:
                up = Loc(x.base.cell, x.base.path[:-1])
                w = self.load(st, up)
                if isinstance(w, Struct) and w.cls == t and self.p.rec(t) and self.all_fields(self.p.rec(t))[0][0]['n'] == x.base.path[-1]:
                    return Ptr(up)
            r = self.p.rec(v.cls)
            if r and self.all_fields(r):
                f = self.all_fields(r)[0][0]['n']
                w = v.f.get(f)
                if isinstance(w, Struct) and w.cls == t:
                    return Ptr(x.base + f)
        return x

    def narrow(self, v, t):
        t = strip_t(t)
        if isconst(v) and isinstance(cval(v), int):
            bits = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32}.get(t)
            if bits and cval(v) >= 0:
                return const(cval(v) & ((1 << bits) - 1))
            return v
        if t in ('unsigned char',):
            return T.fn('wrap8', (v,)) if not _small(v) else v
        if t == 'unsigned short':
            return T.fn('wrap16', (v,)) if not _small(v) else v
        if t in ('char', 'signed char'):
            return T.fn('swrap8', (v,)) if not _small(v) else v
        if t == 'short':
            return T.fn('swrap16', (v,)) if not _small(v) else v
        return v

    def x_un(self, e, st, fr):
        op = e['op']
        l = e['l']
        if op == '&':
            x = self.ev(e['e'], st, fr)
            if isinstance(x, FnRef):
                return x
            return self.addr(st, x)
        if op == '*':
            x = self.ev(e['e'], st, fr)
            if isinstance(x, FnRef):
                return x
            return self.deref(st, x, fr, l)
        if op in ('++', '--'):
            loc = self.ev(e['e'], st, fr)
            if not isinstance(loc, Loc):
                raise Unsupported('++ on rvalue')
            old = self.val(st, loc, fr, l)
            d = ONE if op == '++' else const(-1)
            new = self.padd(st, old, d)
            self.store(st, loc, new, fr, l)
            return old if e['post'] else loc
        if op == '!':
            return not_(self.bool(st, self.ev(e['e'], st, fr), fr, l))
        v = self.num(st, self.ev(e['e'], st, fr), fr, l)
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '~':
            return sub(neg(v), ONE)
        raise Unsupported('unary ' + op)

    def padd(self, st, v, d):
        if isinstance(v, Ptr):
            if v.base is None:
                return v
            if v.off is None:
                return Ptr(v.base, d)
            return Ptr(v.base, add(v.off, d))
        if isinstance(v, Opq) and v.k == 'riter':
            return Opq('riter', Ptr(v.d.base, sub(v.d.off, d)))
        if isinstance(v, Opq) and v.k == 'giter':
            return Opq('giter', (v.d[0], add(v.d[1], d)))
        if isinstance(v, Gate):
            return merge_vals(v.c, self.padd(st, v.a, d), self.padd(st, v.b, d))
        if isinstance(v, MapIter):
            m = self.load(st, v.loc)
            ks = [k for k in m.e if m.e[k][0] is not FALSE]
            if not isconst(d) or cval(d) != 1:
                raise Unsupported('map iterator arithmetic')
            i = ks.index(v.key) + 1
            if any(m.e[k][0] is not TRUE for k in ks):
                raise Unsupported('iteration over conditional map')
            return MapIter(v.loc, ks[i] if i < len(ks) else None)
        return add(self.num(st, v), d)

    def pure(self, e):
        k = id(e)
        r = self.purity.get(k)
        if r is None:
            r = self._pure(e)
            self.purity[k] = r
            self.nodeid[k] = e
        return r

    def _pure(self, e):
        if isinstance(e, list):
            return all(self._pure(x) for x in e)
        if not isinstance(e, dict):
            return True
        k = e.get('k')
        if k in ('asg', 'throw', 'lambda', 'new', 'delete', 'ctor', 'inhctor'):
            return False
        if k == 'un' and e['op'] in ('++', '--'):
            return False
        if k == 'call':
            if not (e.get('cls') in ('std::array', 'std::vector') and e.get('n') in ('operator[]', 'size', 'empty', 'data')):
                return False
        return all(self._pure(v) for v in e.values())

    def branch_eval(self, c, ea, eb, st, fr, conv):
        """evaluate two alternative expressions under c / not c and join"""
        c = st.decide(c)
        if c is TRUE:
            return conv(ea, st)
        if c is FALSE:
            return conv(eb, st)
        if (ea is None or self.pure(ea)) and (eb is None or self.pure(eb)):
            pc, facts = st.pc, st.facts
            st.assume(c)
            a = conv(ea, st)
            st.pc, st.facts = pc, facts
            st.assume(not_(c))
            b = conv(eb, st)
            st.pc, st.facts = pc, facts
            return merge_vals(c, a, b)
        s1, s2 = st.fork(c), st.fork(not_(c))
        a = b = None
        try:
            a = conv(ea, s1)
        except Dead:
            s1 = None
        try:
            b = conv(eb, s2)
        except Dead:
            s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        st.take(merge_states(c, s1, s2))
        if s1 is None:
            return b
        if s2 is None:
            return a
        if a is None or b is None:
            return None
        return merge_vals(c, a, b)

    def x_cond(self, e, st, fr):
        c = self.bool(st, self.ev(e['c'], st, fr), fr, e['l'])
        c = st.decide(c)
        if e.get('lv') and c.op != 'bconst':
            a, b = self.ev(e['a'], st, fr), self.ev(e['b'], st, fr)
            if isinstance(a, Loc) and isinstance(b, Loc):
                if a == b:
                    return a
                return GLoc(c, a, b) if False else merge_vals(c, self.val(st, a), self.val(st, b))
            return merge_vals(c, self.val(st, a), self.val(st, b))
        if c is TRUE:
            return self.ev(e['a'], st, fr)
        if c is FALSE:
            return self.ev(e['b'], st, fr)
        return self.branch_eval(c, e['a'], e['b'], st, fr,
                                lambda x, s: self.val(s, self.ev(x, s, fr), fr, e['l']))

    def x_bin(self, e, st, fr):
        op = e['op']
        l = e['l']
        if op == '&&':
            a = st.decide(self.bool(st, self.ev(e['a'], st, fr), fr, l))
            if a is FALSE:
                return FALSE
            return self.branch_eval(a, e['b'], None, st, fr,
                                    lambda x, s: FALSE if x is None else self.bool(s, self.ev(x, s, fr), fr, l))
        if op == '||':
            a = st.decide(self.bool(st, self.ev(e['a'], st, fr), fr, l))
            if a is TRUE:
                return TRUE
            return self.branch_eval(a, None, e['b'], st, fr,
                                    lambda x, s: TRUE if x is None else self.bool(s, self.ev(x, s, fr), fr, l))
        if op == ',':
            self.ev(e['a'], st, fr)
            return self.ev(e['b'], st, fr)
        a = self.val(st, self.ev(e['a'], st, fr), fr, l)
        b = self.val(st, self.ev(e['b'], st, fr), fr, l)
        return self.arith(op, a, b, e['t'], st, fr, l, e.get('lt'))

    def arith(self, op, a, b, t, st, fr, l, lt=None):
        a, b = self.val(st, a), self.val(st, b)
        if isinstance(a, (Ptr, Opq, MapIter)) or isinstance(b, (Ptr, Opq, MapIter)) or isinstance(a, Gate) or isinstance(b, Gate):
            r = self.ptr_arith(op, a, b, st, fr, l)
            if r is not None:
                return r
        a, b = self.term(st, a), self.term(st, b)
        if op in ('==', '!='):
            r = T.eq(a, b)
            return r if op == '==' else not_(r)
        a, b = tonum(a), tonum(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            if strip_t(t) == 'int' and not isconst(a) and not isconst(b):
                self.event('imul', st, fr, l, (a, b))
            return mul(a, b)
        if op == '/':
            if strip_t(t) in INT_T:
                self.event('div', st, fr, l, b)
                return idiv(a, b)
            return div(a, b)
        if op == '%':
            self.event('div', st, fr, l, b)
            return imod(a, b)
        if op == '<':
            return lt_(a, b)
        if op == '>':
            return gt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return ge(a, b)
        if op == '<<' and isconst(b):
            return scale(a, 2 ** cval(b))
        if op == '>>' and isconst(b):
            return idiv(a, const(2 ** cval(b)))
        if op in ('&', '|', '^'):
            if isconst(a) and isconst(b):
                x, y = cval(a), cval(b)
                return const({'&': x & y, '|': x | y, '^': x ^ y}[op])
            if op == '&' and isconst(b) and cval(b) == 1:
                return imod(a, const(2))
            return uf('bit' + op, (a, b), 'n', True)
        raise Unsupported('binary ' + op)

    def ptr_arith(self, op, a, b, st, fr, l):
        if isinstance(a, Gate) and op in ('==', '!=', '<', '>', '-'):
            return ite(a.c, self.term(st, self.arith(op, a.a, b, 'long', st, fr, l)),
                       self.term(st, self.arith(op, a.b, b, 'long', st, fr, l)))
        if isinstance(b, Gate) and op in ('==', '!=', '<', '>', '-'):
            return ite(b.c, self.term(st, self.arith(op, a, b.a, 'long', st, fr, l)),
                       self.term(st, self.arith(op, a, b.b, 'long', st, fr, l)))
        if op == '+':
            if isinstance(a, Term):
                a, b = b, a
            if isinstance(b, Term):
                return self.padd(st, a, tonum(b))
        if op == '-' and isinstance(b, Term):
            return self.padd(st, a, neg(tonum(b)))
        if isinstance(a, Opq) and a.k == 'riter' and isinstance(b, Opq) and b.k == 'riter':
            return self.ptr_arith(op, b.d, a.d, st, fr, l)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Opq) and x.k == 'giter' and op in ('==', '!='):
                if isinstance(y, MapIter) and y.key is None:
                    c = T.eq(x.d[1], self.load(st, x.d[0]).gen[0])
                elif isinstance(y, Opq) and y.k == 'giter':
                    c = T.eq(x.d[1], y.d[1])
                else:
                    raise Unsupported('comparison of map iterators')
                return c if op == '==' else not_(c)
        if isinstance(a, MapIter) or isinstance(b, MapIter):
            if op == '==':
                return TRUE if a == b else FALSE
            if op == '!=':
                return FALSE if a == b else TRUE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base is None or b.base is None:
                same = a.base is None and b.base is None
                return {'==': TRUE if same else FALSE, '!=': FALSE if same else TRUE}.get(op)
            if a.base == b.base:
                x, y = a.off or ZERO, b.off or ZERO
                if op == '-':
                    return sub(x, y)
                return {'==': T.eq, '!=': T.ne, '<': lt_, '>': gt, '<=': le, '>=': ge}[op](x, y)
            if op == '==':
                return FALSE
            if op == '!=':
                return TRUE
        if isinstance(a, Opq) and isinstance(b, Opq) and op in ('==', '!='):
            r = TRUE if a == b else FALSE
            return r if op == '==' else not_(r)
        return None

    def x_asg(self, e, st, fr):
        op = e['op']
        l = e['l']
        if op == '=':
            # C++17: right operand first
            v = self.val(st, self.ev(e['b'], st, fr), fr, l)
            loc = self.ev(e['a'], st, fr)
            if not isinstance(loc, Loc):
                raise Unsupported('assignment to rvalue')
            if isinstance(v, Term) and v.sort == 'b' and strip_t(e['lt']) != 'bool':
                v = tonum(v)
            self.store(st, loc, v, fr, l)
            return loc
        b = self.val(st, self.ev(e['b'], st, fr), fr, l)
        loc = self.ev(e['a'], st, fr)
        if not isinstance(loc, Loc):
            raise Unsupported('assignment to rvalue')
        old = self.val(st, loc, fr, l)
        ct = e.get('ct') or e['lt']
        v = self.arith(op[:-1], old, b, ct, st, fr, l)
        if isinstance(v, Term):
            if strip_t(e['lt']) in INT_T and strip_t(ct) in FLT_T:
                v = trunc(tonum(v))
            elif strip_t(e['lt']) == 'bool':
                v = tobool(v)
        self.store(st, loc, v, fr, l)
        return loc

    def x_sub(self, e, st, fr):
        a = self.val(st, self.ev(e['a'], st, fr), fr, e['l'])
        i = self.val(st, self.ev(e['b'], st, fr), fr, e['l'])
        if isinstance(a, Term) and not isinstance(i, Term):
            a, i = i, a
        if isinstance(a, Term) and a.sort == 's':
            return uf('char_at', (a, i), 'n', True)
        return self.deref(st, self.padd(st, a, self.num(st, i)), fr, e['l'])

    def x_new(self, e, st, fr):
        at = e['at']
        if e.get('arr'):
            n = self.num(st, self.ev(e['n'], st, fr), fr, e['l'])
            zero = e.get('init') is not None
            self.event('alloc', st, fr, e['l'], (n, at))
            r = Ptr(self.new_cell(st, self.fresh_seq(st, fr, n, at, zero), 'new ' + at), ZERO)
            if '$new' in self.hooks:
                self.hooks['$new'](st, fr, e['l'], r)
            return r
        loc = self.new_cell(st, self.default_value(at, st, fr, e.get('init') is not None), 'new ' + at)
        if e.get('init') is not None:
            self.ev_into(e['init'], st, fr, loc)
        if '$new' in self.hooks:
            self.hooks['$new'](st, fr, e['l'], Ptr(loc))
        return Ptr(loc)

    def fresh_seq(self, st, fr, n, et, zero, name='uninit'):
        """sequence of n elements; contents undefined or zero"""
        et = strip_t(et)
        scal = et in INT_T or et in FLT_T
        if isconst(n) and cval(n) <= 64 and not (scal and not zero and False):
            return Vec(n, tuple(self.default_value(et, st, fr, True) if zero else
                                (UNDEF if scal else self.default_value(et, st, fr, True))
                                for _ in range(max(0, cval(n)))), et)
        if scal:
            if zero:
                return Vec(n, afill(ZERO), et)
            return Vec(n, avar('%s#%d' % (name, next(V._emptyctr)), n, et in INT_T), et)
        if et.endswith('*'):
            return Vec(n, afill(ZERO), et)
        raise Unsupported('symbolic-length sequence of %s' % et)

    def x_delete(self, e, st, fr):
        p = self.val(st, self.ev(e['e'], st, fr))
        self.event('delete', st, fr, e['l'], p)
        if '$delete' in self.hooks:
            self.hooks['$delete'](st, fr, e['l'], p)
        return None

    def x_throw(self, e, st, fr):
        if 'e' not in e:
            x = None
            for f in reversed(self.stack):
                if f.exc is not None:
                    x = f.exc
                    break
            if x is None:
                raise Unsupported('rethrow')
            self.thr.append((st.copy(), x))
            raise Dead()
        v = self.val(st, self.ev(e['e'], st, fr), fr, e['l'])
        self.throw(st, fr, e['l'], strip_t(e['tt']), v)

    def throw(self, st, fr, line, typ, v=None):
        self.thr.append((st.copy(), Exc(typ, v, line, fr.fn if fr else '?', fr.file if fr else '?')))
        raise Dead()

    def x_typeid(self, e, st, fr):
        return Opq('typeid', e.get('ot'))

    def x_unk(self, e, st, fr):
        raise Unsupported('expression ' + e.get('cls', '?'))

    # ------------------------------------------------------------ statements
    def exec(self, s, st, fr):
        if s is None:
            return Out(st)
        fr.line = s['l']
        if self.seek is not None:
            if s is self.seek:
                self.seek = None
            elif s['k'] == 'if':
                for b in (s['a'], s.get('b')):
                    if b is not None and self.contains(b, self.seek):
                        return self.exec(b, st, fr)
                raise Unsupported('resuming after longjmp')
            elif s['k'] not in ('block', 'try', 'label'):
                raise Unsupported('resuming after longjmp into ' + s['k'])
        fr.stmt = s
        try:
            return getattr(self, 's_' + s['k'], self.s_bad)(s, st, fr)
        except Dead:
            return Out(None)

    def s_bad(self, s, st, fr):
        raise Unsupported('statement ' + s['k'] + ' ' + s.get('cls', ''))

    def s_null(self, s, st, fr):
        return Out(st)

    def s_expr(self, s, st, fr):
        e = s['e']
        sj = self.std.setjmp_stmt(self, s, st, fr)
        if sj is not None:
            return sj
        self.ev(e, st, fr)
        return Out(st)

    def s_block(self, s, st, fr):
        return self.run_seq(s['s'], st, fr, True)

    def run_seq(self, stmts, st, fr, scope):
        out = Out()
        outer_thr = self.thr
        self.thr = []
        decls = []
        cur = st
        i = 0
        try:
            while i < len(stmts):
                x = stmts[i]
                if x is None:
                    i += 1
                    continue
                k = x['k']
                if self.seek is not None and not self.contains(x, self.seek):
                    o = Out(cur)
                else:
                    o = self.exec(x, cur, fr)
                if k == 'decl':
                    for v in x['v']:
                        if v['d'] in fr.env and not v.get('static') and self.has_dtor(v['t']):
                            decls.append(fr.env[v['d']])
                out.brk += o.brk
                out.cont += o.cont
                out.ret += o.ret
                cur = o.norm
                if cur is None:
                    break
                i += 1
            out.norm = cur
        finally:
            mine = self.thr
            self.thr = outer_thr
        if decls:
            def fin(s2):
                for l in reversed(decls):
                    if l.cell in s2.store:
                        try:
                            self.destroy(s2, l, fr)
                        except Dead:
                            return None
                return s2
            out.norm = fin(out.norm) if out.norm is not None else None
            out.brk = [x for x in map(fin, out.brk) if x is not None]
            out.cont = [x for x in map(fin, out.cont) if x is not None]
            out.ret = [(fin(x), v) for x, v in out.ret]
            mine = [(fin(x) if v.typ != '$jmp' else x, v) for x, v in mine]
        for s2, x in mine:
            if x.typ == '$jmp':
                # destructors of objects created after the setjmp are skipped
                for y in stmts:
                    if y is not None and y['k'] == 'decl':
                        for v in y['v']:
                            l = fr.env.get(v['d'])
                            if not v.get('static') and not is_ref(v['t']) and isinstance(l, Loc) and l.cell in s2.store \
                                    and self.owner_type(strip_t(v['t'])) and l.cell not in x.alive:
                                self.event('skipdtor', s2, fr, v['l'], v['n'])
        self.thr.extend(mine)
        return out

    def owner_type(self, t):
        return t.startswith(('std::vector<', 'std::unique_ptr<', 'std::shared_ptr<', 'std::basic_string<', 'std::string')) \
            and not t.startswith('std::string_view') or self.p.has_dtor(t)

    def has_dtor(self, t):
        return self.p.has_dtor(strip_t(t)) and not is_ref(t)

    def destroy(self, st, loc, fr):
        v = self.load(st, loc)
        if isinstance(v, Struct):
            if v.cls == 'std::unique_ptr':
                self.std.unique_reset(self, st, loc, fr, NULL)
                return
            d = self.p.dtor(v.cls)
            if d is not None:
                self.call_fn(d, st, loc, [], 0, fr)
            r = self.p.rec(v.cls)
            if r:
                for f, _ in reversed(self.all_fields(r)):
                    if self.has_dtor(f['t']):
                        self.destroy(st, loc + f['n'], fr)
        elif isinstance(v, Vec) and isinstance(v.d, tuple):
            for i in range(len(v.d)):
                self.destroy(st, loc + ('i', const(i)), fr)

    def s_decl(self, s, st, fr):
        for v in s['v']:
            self.declare(v, st, fr)
        return Out(st)

    def declare(self, v, st, fr):
        t = v['t']
        if 'volatile' in t:
            fr.vol.add(v['d'])
        if v.get('static'):
            key = (fr.tu, v['d'])
            l = self.globals.get(key)
            if l is None or l.cell not in st.store:
                l = l or Loc(next(self.gcells))
                self.globals[key] = l
                self.cellinfo[l.cell] = 'static ' + v['n']
                st.store[l.cell] = self.default_value(t, st, fr, True) if v.get('init') is None or v['init']['k'] != 'ctor' else UNDEF
                if v.get('init') is not None:
                    self.ev_into(v['init'], st, fr, l)
            fr.env[v['d']] = l
            return
        if is_ref(t):
            x = self.ev(v['init'], st, fr)
            if not isinstance(x, (Loc, MapIter)):
                x = self.new_cell(st, self.val(st, x), v['n'])
            fr.env[v['d']] = x
        else:
            init = v.get('init')
            if init is not None and init['k'] in ('ctor', 'inhctor'):
                loc = self.new_cell(st, UNDEF, v['n'])
                self.construct(init, st, fr, loc)
            else:
                if init is None:
                    val = self.default_value(t, st, fr, False)
                else:
                    val = self.val(st, self.ev(init, st, fr), fr, v['l'])
                    if isinstance(val, Term) and val.sort == 'b' and strip_t(t) in INT_T | FLT_T and strip_t(t) != 'bool':
                        val = tonum(val)
                loc = self.new_cell(st, val, v['n'])
            fr.env[v['d']] = loc
            self.celltype[loc.cell] = t
        if 'bind' in v:
            self.bind_structured(v, st, fr)

    def bind_structured(self, v, st, fr):
        l = fr.env[v['d']]
        if isinstance(l, MapIter):
            names = [self.map_member(st, l, 'first'), self.map_member(st, l, 'second')]
            for b, x in zip(v['bind'], names):
                fr.env[b['d']] = x if isinstance(x, Loc) else self.new_cell(st, x, b['n'])
            return
        val = self.val(st, l)
        if isinstance(val, MapIter):
            k, w = self.map_member(st, val, 'first'), self.val(st, self.map_member(st, val, 'second'))
            for b, x in zip(v['bind'], [k, w]):
                fr.env[b['d']] = self.new_cell(st, x, b['n'])
            return
        if isinstance(val, Struct):
            fields = list(val.f)
            r = self.p.rec(val.cls)
            if r:
                fields = [f['n'] for f, _ in self.all_fields(r)]
            for b, f in zip(v['bind'], fields):
                fr.env[b['d']] = l + f
            return
        if isinstance(val, Vec):
            for i, b in enumerate(v['bind']):
                fr.env[b['d']] = l + ('i', const(i))
            return
        raise unsup('structured binding of %s' % type(val).__name__, val)

    def s_if(self, s, st, fr):
        if 'init' in s:
            o = self.exec(s['init'], st, fr)
            st = o.norm
        if 'cv' in s:
            self.declare(s['cv'], st, fr)
        sj = self.std.setjmp_stmt(self, s, st, fr)
        if sj is not None:
            return sj
        c = st.decide(self.bool(st, self.ev(s['c'], st, fr), fr, s['l']))
        return self.do_if(c, s['a'], s.get('b'), st, fr)

    def do_if(self, c, a, b, st, fr):
        if c is TRUE:
            return self.exec(a, st, fr)
        if c is FALSE:
            return self.exec(b, st, fr) if b is not None else Out(st)
        s1, s2 = st.fork(c), st.fork(not_(c))
        if '$norm' in self.hooks:
            self.hooks['$norm'](s1)
            self.hooks['$norm'](s2)
        o1 = self.exec(a, s1, fr)
        o2 = self.exec(b, s2, fr) if b is not None else Out(s2)
        out = Out()
        out.norm = merge_states(c, o1.norm, o2.norm)
        out.brk = o1.brk + o2.brk
        out.cont = o1.cont + o2.cont
        out.ret = o1.ret + o2.ret
        return out

    def s_return(self, s, st, fr):
        o = Out()
        v = None
        if s.get('e') is not None:
            x = self.ev(s['e'], st, fr)
            if is_ref(fr.rt):
                v = x if isinstance(x, (Loc, MapIter)) else (None if x is None else self.as_loc(st, x))
            else:
                v = self.val(st, x, fr, s['l']) if x is not None else None
        o.ret.append((st, v))
        return o

    def s_break(self, s, st, fr):
        o = Out()
        o.brk.append(st)
        return o

    def s_continue(self, s, st, fr):
        o = Out()
        o.cont.append(st)
        return o

    def s_switch(self, s, st, fr):
        if 'init' in s:
            st = self.exec(s['init'], st, fr).norm
        if 'cv' in s:
            self.declare(s['cv'], st, fr)
        v = self.num(st, self.ev(s['c'], st, fr), fr, s['l'])
        body = s['s']['s'] if s['s']['k'] == 'block' else [s['s']]
        # flatten: labels -> index in the flat statement list
        flat, labels, default = [], [], None
        for x in body:
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    labels.append((self.num(st, self.ev(x['c'], st, fr)), len(flat)))
                else:
                    default = len(flat)
                x = x['s']
            if x is not None:
                flat.append(x)
        out = Out()
        rest = st
        norms = []
        for c, i in labels:
            cond = rest.decide(T.eq(v, c))
            if cond is FALSE:
                continue
            s1 = rest.fork(cond) if cond is not TRUE else rest
            self._switch_from(flat[i:], s1, fr, out, norms)
            if cond is TRUE:
                rest = None
                break
            rest = rest.fork(not_(cond))
        if rest is not None:
            if default is not None:
                self._switch_from(flat[default:], rest, fr, out, norms)
            else:
                norms.append(rest)
        n, _ = merge_many(st.pc, [(x, None) for x in norms])
        out.norm = n
        return out

    def _switch_from(self, stmts, st, fr, out, norms):
        o = self.run_seq(stmts, st, fr, True)
        out.cont += o.cont
        out.ret += o.ret
        norms.extend(o.brk)
        if o.norm is not None:
            norms.append(o.norm)

    def s_case(self, s, st, fr):
        return self.exec(s['s'], st, fr)

    s_default = s_case

    def s_label(self, s, st, fr):
        return self.exec(s['s'], st, fr)

    def s_try(self, s, st, fr):
        outer = self.thr
        self.thr = []
        base_pc = st.pc
        try:
            o = self.exec(s['s'], st, fr)
            thrown = self.thr
        finally:
            self.thr = outer
        norms = [o.norm] if o.norm is not None else []
        for ts, x in thrown:
            handled = False
            for h in s['h'] if x.typ != '$jmp' else ():
                if h.get('all') or self.exc_match(x, h.get('ct', '')):
                    handled = True
                    save = fr.exc
                    fr.exc = x
                    if h.get('v') is not None and h['v'].get('n'):
                        fr.env[h['v']['d']] = self.new_cell(ts, x.val, 'exc')
                    elif h.get('v') is not None:
                        fr.env[h['v']['d']] = self.new_cell(ts, x.val, 'exc')
                    self.event('catch', ts, fr, h['l'], x)
                    try:
                        o2 = self.exec(h['s'], ts, fr)
                    finally:
                        fr.exc = save
                    o.brk += o2.brk
                    o.cont += o2.cont
                    o.ret += o2.ret
                    if o2.norm is not None:
                        norms.append(o2.norm)
                    break
            if not handled:
                self.thr.append((ts, x))
        n, _ = merge_many(base_pc, [(x, None) for x in norms])
        o.norm = n
        return o

    def exc_match(self, x, ct):
        ct = strip_t(ct)
        t = x.typ
        if t == ct:
            return True
        if ct == 'std::exception':
            return t.startswith('std::') or 'std::exception' in self.p.bases(t)
        if ct in self.p.bases(t):
            return True
        STD = {'std::out_of_range': ['std::logic_error'], 'std::bad_any_cast': ['std::bad_cast'],
               'std::runtime_error': [], 'std::logic_error': [], 'std::bad_alloc': [],
               'std::invalid_argument': ['std::logic_error'], 'std::length_error': ['std::logic_error']}
        return ct in STD.get(t, [])

    # ------------------------------------------------------------ loops
    def s_for(self, s, st, fr):
        if 'init' in s:
            o = self.exec(s['init'], st, fr)
            st = o.norm
            if st is None:
                return o
        return self.loop(s, s.get('c'), s['s'], s.get('inc'), st, fr)

    def s_while(self, s, st, fr):
        return self.loop(s, s['c'], s['s'], None, st, fr)

    def s_do(self, s, st, fr):
        o1 = self.exec(s['s'], st, fr)
        n, _ = merge_many((), [(x, None) for x in ([o1.norm] if o1.norm else []) + o1.cont])
        out = Out()
        out.ret += o1.ret
        norms = list(o1.brk)
        if n is not None:
            o = self.loop(s, s['c'], s['s'], None, n, fr)
            out.ret += o.ret
            if o.norm is not None:
                norms.append(o.norm)
        out.norm, _ = merge_many((), [(x, None) for x in norms])
        return out

    def s_rfor(self, s, st, fr, rng=None):
        if rng is None and 'init' in s:
            st = self.exec(s['init'], st, fr).norm
        rng = self.ev(s['range'], st, fr) if rng is None else rng
        loc = rng if isinstance(rng, Loc) else self.as_loc(st, self.val(st, rng), 'range')
        v = self.val(st, loc)
        var = s['var']
        out = Out()
        ref = is_ref(var['t'])
        parts = self.hooks['$rangeval'](self, s, st, fr, v) if '$rangeval' in self.hooks else None
        if parts is not None:
            # a sequence made of several: one after the other
            for x in parts:
                o = self.s_rfor(s, st, fr, self.new_cell(st, x, 'range'))
                out.ret += o.ret
                st = o.norm
                if st is None:
                    break
            out.norm = st
            return out

        def body_with(x, st2):
            """bind the loop variable and run the body"""
            if ref:
                fr.env[var['d']] = x if isinstance(x, (Loc, MapIter)) else self.new_cell(st2, x, var['n'])
            else:
                if isinstance(x, MapIter):
                    fr.env[var['d']] = x
                else:
                    fr.env[var['d']] = self.new_cell(st2, self.val(st2, x, fr, s['l']), var['n'])
            if 'bind' in var:
                self.bind_structured(var, st2, fr)
            return self.exec(s['s'], st2, fr)

        if isinstance(v, MapV) and v.gen is not None and not v.e:
            n, kv, key = v.gen[:3]
            ctr = self.new_cell(st, ZERO, '$i')
            self.loopvar = kv
            return self.loop(s, lambda st2: lt_(self.load(st2, ctr), n), lambda st2: body_with(MapIter(loc, key), st2),
                             lambda st2: self.store(st2, ctr, add(self.load(st2, ctr), ONE)), st, fr)
        if isinstance(v, MapV):
            items = [(MapIter(loc, k), v.e[k][0]) for k in v.e if v.e[k][0] is not FALSE]
        elif isinstance(v, Vec) and isconst(v.n) and cval(v.n) <= UNROLL and \
                (isinstance(v.d, tuple) or cval(v.n) <= 8):
            items = [(loc + ('i', const(i)), TRUE) for i in range(cval(v.n))]
        elif isinstance(v, Vec):
            ctr = self.new_cell(st, ZERO, '$i')
            n = v.n
            return self.loop(s, lambda st2: lt_(self.load(st2, ctr), n),
                             lambda st2: body_with(loc + ('i', self.load(st2, ctr)), st2),
                             lambda st2: self.store(st2, ctr, add(self.load(st2, ctr), ONE)), st, fr)
        else:
            it = self.std.range_items(self, v, loc, st, fr)
            if it is None:
                raise unsup('range-for over %s' % type(v).__name__, v)
            items = [(x, TRUE) for x in it]
        norms = []
        cur = st
        for x, pres in items:
            if cur is None:
                break
            pres = cur.decide(pres)
            if pres is TRUE:
                o = body_with(x, cur)
            else:
                s1, s2 = cur.fork(pres), cur.fork(not_(pres))
                o = body_with(x, s1)
                nn, _ = merge_many(cur.pc, [(y, None) for y in ([o.norm] if o.norm else []) + o.cont])
                o.norm = merge_states(pres, nn, s2)
                o.cont = []
            out.ret += o.ret
            norms += o.brk
            cur, _ = merge_many((), [(y, None) for y in ([o.norm] if o.norm is not None else []) + o.cont])
        if cur is not None:
            norms.append(cur)
        out.norm, _ = merge_many((), [(y, None) for y in norms])
        return out

    def s_omp(self, s, st, fr):
        body = s['s']
        if 'parallel' in s['d'] or s['d'] in ('for', 'simd', 'parallel for', 'for simd'):
            priv, red = set(), set()
            for c in s['cl']:
                if c['c'] in ('private', 'firstprivate', 'lastprivate'):
                    priv |= set(c['v'])
                if c['c'] == 'reduction':
                    red |= set(c['v'])
            reg = {'id': len(self.parlog), 'line': s['l'], 'fn': fr.fn, 'file': fr.file, 'd': s['d'],
                   'priv': {fr.env[x].cell for x in priv | red if x in fr.env and isinstance(fr.env[x], Loc)},
                   'k': None, 'shared': [], 'alive': set(st.store), 'ops': []}
            if 'parallel' in s['d']:
                self.parlog.append(reg)
                self.pending_par = reg
                try:
                    return self.exec(body, st, fr)
                finally:
                    self.pending_par = None
        if s['d'] in ('critical', 'atomic', 'ordered', 'single', 'master', 'masked'):
            for r in self.parlog:
                r['prot'] = True
            self.par.append(('prot', None))
            try:
                return self.exec(body, st, fr)
            finally:
                self.par.pop()
        return self.exec(body, st, fr)

    pending_par = None
    loopvar = None

    def loop(self, node, cond, body, inc, st, fr):
        par = self.pending_par
        self.pending_par = None
        line = node['l']

        def run_cond(s):
            if cond is None:
                return TRUE
            if callable(cond):
                return s.decide(tobool(cond(s)))
            if 'cv' in node:
                self.declare(node['cv'], s, fr)
            return s.decide(self.bool(s, self.ev(cond, s, fr), fr, line))

        def run_body(s):
            return body(s) if callable(body) else self.exec(body, s, fr)

        def run_inc(s):
            if inc is None:
                return
            if callable(inc):
                inc(s)
            else:
                self.ev(inc, s, fr)

        if '$loop' in self.hooks:
            kv, self.loopvar = self.loopvar, None
            r = self.hooks['$loop'](self, node, run_cond, run_body, run_inc, st, fr, kv)
            if r is not None:
                return r
        out = Out()
        norms = []
        cur = st
        literal_true = cond is None or (isinstance(cond, dict) and cond['k'] == 'num')
        count = 0
        start, mark0, tmark0, pmark0, env0 = st.copy(), len(self.log), len(self.thr), len(self.parlog), dict(fr.env)
        if (id(node), fr.fn) in self.hints and not literal_true:
            # this loop was summarised before: do not unroll it speculatively first
            try:
                r = self.summarise(node, run_cond, run_body, run_inc, start, fr, line, par)
                out.ret += r.ret
                out.norm = r.norm
                return out
            except Unsupported:
                start = st.copy()
                del self.log[mark0:], self.thr[tmark0:], self.parlog[pmark0:]
                fr.env.clear()
                fr.env.update(env0)
        while True:
            mark, tmark = len(self.log), len(self.thr)
            test = cur.copy()
            c = TRUE if literal_true else run_cond(test)
            if c is FALSE:
                norms.append(test)
                break
            if c is TRUE and count < UNROLL and not (literal_true and count >= 1) and not par:
                o = run_body(test)
                out.ret += o.ret
                norms += o.brk
                nxt, _ = merge_many((), [(x, None) for x in ([o.norm] if o.norm is not None else []) + o.cont])
                if nxt is None:
                    break
                try:
                    run_inc(nxt)
                except Dead:
                    break
                cur = nxt
                count += 1
                continue
            del self.log[mark:]
            del self.thr[tmark:]
            r = None
            if count and not literal_true:
                # the leading iterations were only decided by bounds: summarise the whole loop instead
                keep = (self.log[mark0:], self.thr[tmark0:], self.parlog[pmark0:], dict(fr.env))
                del self.log[mark0:], self.thr[tmark0:], self.parlog[pmark0:]
                fr.env.clear()
                fr.env.update(env0)
                try:
                    r = self.summarise(node, run_cond, run_body, run_inc, start, fr, line, par)
                    out.ret, norms = [], []
                except Unsupported:
                    self.log[mark0:], self.thr[tmark0:], self.parlog[pmark0:] = keep[:3]
                    fr.env.clear()
                    fr.env.update(keep[3])
            if r is None:
                r = self.summarise(node, run_cond, run_body, run_inc, cur, fr, line, par)
            out.ret += r.ret
            if r.norm is not None:
                norms.append(r.norm)
            break
        out.norm, _ = merge_many((), [(x, None) for x in norms])
        return out

    # -- leaf decomposition of values
    def leaves(self, v, pre=(), out=None):
        if out is None:
            out = {}
        if isinstance(v, Term):
            out[pre] = v
        elif isinstance(v, Struct):
            for k, x in v.f.items():
                self.leaves(x, pre + (k,), out)
        elif isinstance(v, Vec):
            out[pre + ('$n',)] = v.n
            if isinstance(v.d, tuple):
                for i, x in enumerate(v.d):
                    self.leaves(x, pre + (i,), out)
            elif isinstance(v.d, Term):
                out[pre + ('$d',)] = v.d
        elif isinstance(v, Ptr):
            if v.off is not None:
                out[pre + ('$o',)] = v.off
        elif isinstance(v, Opq) and v.k == 'riter':
            out[pre + ('$o',)] = v.d.off
        elif isinstance(v, MapV):
            for k, (p, x) in v.e.items():
                out[pre + ('$p', k)] = p
                self.leaves(x, pre + ('$v', k), out)
        elif isinstance(v, OptV):
            out[pre + ('$p',)] = v.p
            if v.v is not None:
                self.leaves(v.v, pre + ('$v',), out)
        elif isinstance(v, AnyV):
            if v.v is not None:
                self.leaves(v.v, pre + ('$v',), out)
        elif isinstance(v, Gate):
            out[pre + ('$c',)] = v.c
            self.leaves(v.a, pre + ('$a',), out)
            self.leaves(v.b, pre + ('$b',), out)
        elif hasattr(v, 'leaves'):
            v.leaves(self, pre, out)
        return out

    def shape(self, v):
        if isinstance(v, Term):
            return v.sort if v.sort != 'b' else 'n'
        if isinstance(v, Struct):
            return (v.cls,) + tuple((k, self.shape(x)) for k, x in v.f.items())
        if isinstance(v, Vec):
            if isinstance(v.d, tuple):
                return ('vec',) + tuple(self.shape(x) for x in v.d)
            return 'arr' if isinstance(v.d, Term) else ('opqvec', repr(v.d))
        if isinstance(v, Ptr):
            return ('ptr', v.base, v.off is None)
        if isinstance(v, Opq) and v.k == 'riter':
            return ('riter', v.d.base)
        if isinstance(v, MapV):
            return ('map',) + tuple((k, self.shape(x)) for k, (p, x) in v.e.items())
        if isinstance(v, Gate):
            return ('gate', self.shape(v.a), self.shape(v.b))
        if isinstance(v, OptV):
            return ('opt', self.shape(v.v) if v.v is not None else None)
        if isinstance(v, AnyV):
            return ('any', v.t, self.shape(v.v) if v.v is not None else None)
        if v is UNDEF:
            return 'undef'
        return ('x', id(v) if not isinstance(v, (Opq, FnRef, MapIter)) else hash(v))

    def rebuild(self, v, m, pre=()):
        if isinstance(v, Term):
            return m.get(pre, v)
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.rebuild(x, m, pre + (k,)) for k, x in v.f.items()})
        if isinstance(v, Vec):
            n = m.get(pre + ('$n',), v.n)
            if isinstance(v.d, tuple):
                return Vec(n, tuple(self.rebuild(x, m, pre + (i,)) for i, x in enumerate(v.d)), v.et)
            return Vec(n, m.get(pre + ('$d',), v.d), v.et)
        if isinstance(v, Ptr):
            return Ptr(v.base, m.get(pre + ('$o',), v.off))
        if isinstance(v, Opq) and v.k == 'riter':
            return Opq('riter', Ptr(v.d.base, m.get(pre + ('$o',), v.d.off)))
        if isinstance(v, MapV):
            return MapV({k: (m.get(pre + ('$p', k), p), self.rebuild(x, m, pre + ('$v', k)))
                         for k, (p, x) in v.e.items()}, v.vt, v.kt)
        if isinstance(v, OptV):
            return OptV(m.get(pre + ('$p',), v.p), self.rebuild(v.v, m, pre + ('$v',)) if v.v is not None else None)
        if isinstance(v, AnyV):
            return AnyV(v.t, self.rebuild(v.v, m, pre + ('$v',)) if v.v is not None else None)
        if isinstance(v, Gate):
            return merge_vals(m.get(pre + ('$c',), v.c), self.rebuild(v.a, m, pre + ('$a',)), self.rebuild(v.b, m, pre + ('$b',)))
        if hasattr(v, 'rebuild'):
            return v.rebuild(self, m, pre)
        return v

    def subst_val(self, v, m):
        l = self.leaves(v)
        ch = {}
        for p, t in l.items():
            t2 = subst(t, m)
            if t2 is not t:
                ch[p] = t2
        return self.rebuild(v, ch) if ch else v

    def summarise(self, node, run_cond, run_body, run_inc, st, fr, line, par):
        """replace the loop by closed forms / recurrences"""
        key = id(node)
        M = {}                  # cell -> set of leaf paths
        hint = self.hints.get((key, fr.fn), {})
        for c, ps in hint.items():
            if isinstance(c, tuple):
                l = fr.env.get(c[1])
                c = l.cell if isinstance(l, Loc) and not l.path else None
            if c in st.store:
                L = self.leaves(st.store[c])
                M[c] = {p for p in ps if p in L}
        EXIT = next(self.cells)
        st = st.copy()
        st.store[EXIT] = ZERO
        RETV = next(self.cells)
        use_exit = False
        ret_used = False
        mark, tmark, pmark = len(self.log), len(self.thr), len(self.parlog)
        base_env = dict(fr.env)
        cbase = self.cells.v
        for rnd in range(14):
            self.cells.v = cbase        # same cell names in every round, so the hints of inner loops apply
            del self.log[mark:]
            del self.thr[tmark:]
            del self.parlog[pmark:]
            fr.env.clear()
            fr.env.update(base_env)
            head = st.copy()
            phis = {}
            for c, ps in M.items():
                L = self.leaves(head.store[c])
                mm = {}
                for p in ps:
                    if p not in L:
                        continue
                    t = L[p]
                    ph = tv('phi', t.sort, t.isint or self.int_leaf(p))
                    if p[-1:] in (('$n',), ('$o',)) and nonneg(t):
                        T._tvlb[ph] = 0 if p[-1] == '$n' else None
                        if T._tvlb[ph] is None:
                            del T._tvlb[ph]
                    mm[p] = ph
                    phis[(c, p)] = (ph, t)
                head.store[c] = self.rebuild(head.store[c], mm)
            s0 = head.copy()
            saved_thr = self.thr
            self.thr = []
            k = index_var('i')
            if par:
                par['k'] = k
                self.par.append((par['id'], k))
            try:
                try:
                    cnd = run_cond(s0)
                except Dead:
                    cnd = None
                body_out = Out(None)
                if cnd is not None:
                    sb = s0.fork(cnd)
                    pc_body = sb.pc
                    body_out = run_body(sb)
                thrown = self.thr
                nxt, _ = merge_many(pc_body if cnd is not None else (), [(x, None) for x in
                                    ([body_out.norm] if body_out.norm is not None else []) + body_out.cont])
                if nxt is not None:
                    self.thr = thrown
                    try:
                        run_inc(nxt)
                    except Dead:
                        nxt = None
            finally:
                thrown = self.thr
                self.thr = saved_thr
                if par:
                    self.par.pop()
            exits = []
            for x in body_out.brk:
                x.store[EXIT] = ONE
                exits.append((x, None))
            for x, v in body_out.ret:
                x.store[EXIT] = const(2)
                exits.append((x, v))
                ret_used = True
                if isinstance(v, Term):
                    x.store[RETV] = v
                elif v is not None:
                    raise Unsupported('non-scalar return from a summarised loop')
            if exits:
                use_exit = True
                if RETV not in st.store and any(isinstance(v, Term) for _, v in exits):
                    v0 = [v for _, v in exits if isinstance(v, Term)][0]
                    st.store[RETV] = {'b': FALSE, 's': string('')}.get(v0.sort, ZERO)
                    continue
            allx = ([(nxt, None)] if nxt is not None else []) + [(x, None) for x, _ in exits]
            if not allx:
                # every iteration throws
                c = cnd
                out = Out()
                ex = st.fork(not_(self.unphi(c, phis))) if c is not None else None
                for ts, x in thrown:
                    ts2 = self.unphi_state(ts, phis)
                    self.thr.append((ts2, x))
                out.norm = ex
                return out
            nst, _ = merge_many(pc_body, allx)
            # compare
            grew = False
            for c in st.store:
                hv, nv = head.store[c], nst.store.get(c)
                if nv is None or hv is nv or hv == nv:
                    continue
                if self.shape(hv) != self.shape(nv):
                    conv = self.unify_shape(st.store[c], nv)
                    if conv is None:
                        raise Unsupported('loop changes the structure of %s (%s:%d)' %
                                          (self.cellinfo.get(c, c), fr.fn, line))
                    if conv is not st.store[c]:
                        st.store[c] = conv
                        M.pop(c, None)
                        grew = True
                        continue
                Lh, Ln = self.leaves(hv), self.leaves(nv)
                for p in Ln:
                    if Lh.get(p) is not Ln[p] and p not in M.get(c, ()):
                        M.setdefault(c, set()).add(p)
                        grew = True
            if not grew:
                break
        else:
            raise Unsupported('loop summary did not stabilise (%s:%d)' % (fr.fn, line))
        names = {l.cell: ('d', d) for d, l in base_env.items() if isinstance(l, Loc) and not l.path}
        self.hints[(key, fr.fn)] = {names.get(c, c): set(ps) for c, ps in M.items()}
        # ---------------- solve
        ex = {}
        init = {}
        for (c, p), (ph, t) in phis.items():
            L = self.leaves(nst.store[c])
            ex[ph] = L[p] if p in L else ph
            init[ph] = t
        sol, n, final_k, U = self.solve(ex, init, cnd, k, st, use_exit, phis.get((EXIT, ()), (None,))[0])
        # values at the start of iteration k, and after the loop
        mk = dict(sol)
        kend = final_k
        mend = {ph: subst(v, {k: kend}) for ph, v in sol.items()}
        for ph, v in U.items():
            mk[ph] = v[0]
            mend[ph] = v[1]
        # events logged by the body
        for ev_ in self.log[mark:]:
            self.fix_event(ev_, mk, k, n if n is not None else kend)
        if par:
            par['n'] = n if n is not None else kend
            par['line2'] = line
            for (c, p), (ph, t) in phis.items():
                if c in par['alive'] and c not in par['priv'] and ex[ph] is not ph:
                    par['shared'].append((c, p, self.cellinfo.get(c, c), t.sort))
        res = st.copy()
        for c in M:
            if c in res.store:
                L = self.leaves(res.store[c])
                mm = {}
                for p in M[c]:
                    if (c, p) in phis:
                        mm[p] = mend[phis[(c, p)][0]]
                res.store[c] = self.rebuild(res.store[c], mm)
        # cells created by the loop that stay reachable only through undecided pointers are dropped
        nn = n if n is not None else kend
        notthrown = []
        for ts, x in thrown:
            rc = rel_cond(head.pc, ts)
            rck = subst(rc, mk)
            anyc = any_(k, nn, rck)
            notthrown.append(not_(anyc))
            f = T.first(k, nn, rck) if k in rck.fv else ZERO
            m2 = {a: subst(b, {k: f}) for a, b in mk.items()}
            m2[k] = f
            t2 = ts.copy()
            for c in list(t2.store):
                t2.store[c] = self.subst_val(t2.store[c], m2)
            t2.pc, t2.facts = st.pc, st.facts
            t2.assume(anyc)
            self.thr.append((t2, x))
        for c in notthrown:
            res.assume(c)
        # side effects of the failing condition test
        if not use_exit:
            m3 = len(self.log)
            try:
                cf = run_cond(res)
            except Dead:
                cf = None
            del self.log[m3:]
        elif isinstance(node.get('c'), dict) and not self.pure(node['c']):
            try:
                s9 = res.copy()
                run_cond(s9)
                res = merge_states(eq0(res.store[EXIT]), s9, res)
            except Dead:
                pass
        out = Out()
        if use_exit:
            x = res.store[EXIT]
            if ret_used:
                isret = T.eq(x, const(2))
                isret = res.decide(isret)
                if isret is not FALSE:
                    rs = res.fork(isret)
                    out.ret.append((rs, rs.store.get(RETV)))
                res = res.fork(not_(isret)) if isret is not TRUE else None
        out.norm = res
        return out

    def int_leaf(self, p):
        return p[-1:] in (('$n',), ('$o',))

    def unphi(self, t, phis):
        return subst(t, {ph: t0 for ph, t0 in phis.values()})

    def unphi_state(self, s, phis):
        m = {ph: t0 for ph, t0 in phis.values()}
        s = s.copy()
        for c in list(s.store):
            s.store[c] = self.subst_val(s.store[c], m)
        pcs = [subst(x, m) for x in s.pc]
        s.pc, s.facts = (), {}
        for x in pcs:
            s.assume(x)
        return s

    def unify_shape(self, a, b):
        """a more general representation of the pre-loop value a that can hold both a and b"""
        if isinstance(a, Vec) and isinstance(b, Vec):
            x = as_array(a)
            y = as_array(b)
            if x is not None and y is not None and (isinstance(a.d, tuple)):
                return Vec(a.n, x, a.et if a.et != '?' else b.et)
            return None
        if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
            f = {}
            for k in a.f:
                if self.shape(a.f[k]) == self.shape(b.f.get(k)):
                    f[k] = a.f[k]
                else:
                    u = self.unify_shape(a.f[k], b.f.get(k))
                    if u is None:
                        return None
                    f[k] = u
            return Struct(a.cls, f)
        if a is UNDEF and isinstance(b, Term):
            return {'n': uf('undef%d' % next(V._emptyctr), (), 'n', b.isint), 'b': bvar('undefb%d' % next(V._emptyctr)),
                    's': svar('undefs%d' % next(V._emptyctr))}.get(b.sort)
        if a is UNDEF and isinstance(b, Ptr) and b.base is not None:
            return Ptr(b.base, ZERO if b.off is not None else None)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base and a.base is not None:
            return Ptr(a.base, a.off or ZERO)
        if isinstance(a, Vec) and b is UNDEF:
            return a
        return None

    def fix_event(self, e, mk, k, n):
        e.pc = tuple(subst(c, mk) for c in e.pc)
        d = 0
        bd = [(kk, subst(nn, mk)) for kk, nn in e.bd]
        e.bd = tuple([(k, n)] + bd)
        if isinstance(e.d, tuple):
            e.d = tuple(self.sub_any(x, mk) for x in e.d)
        else:
            e.d = self.sub_any(e.d, mk)

    def sub_any(self, x, m):
        if isinstance(x, Term):
            return subst(x, m)
        if isinstance(x, (Struct, Vec, Ptr, MapV, Gate)):
            return self.subst_val(x, m)
        if isinstance(x, Loc):
            return Loc(x.cell, tuple((q[0], subst(q[1], m)) if isinstance(q, tuple) and isinstance(q[1], Term) else q for q in x.path))
        return x

    # ---------------- recurrence solving
    def solve(self, ex, init, cnd, k, st, use_exit, exitphi):
        sol = {}
        allphi = set(ex)
        # invariants
        for ph, e in ex.items():
            if e is ph:
                sol[ph] = init[ph]
        self.close_scalars(ex, init, sol, k, allphi)
        # trip count
        n = None
        c = subst(cnd, sol) if cnd is not None else TRUE
        if not use_exit:
            n = self.trip(c, k, allphi - set(sol))
        if n is not None:
            RANGES[k] = n
            # recanonicalise what depends on k now that its range is known
        changed = True
        while changed:
            before = len(sol)
            self.close_scalars(ex, init, sol, k, allphi)
            self.close_arrays(ex, init, sol, k, allphi)
            if n is None and not use_exit:
                n = self.trip(subst(cnd, sol), k, allphi - set(sol))
                if n is not None:
                    RANGES[k] = n
                    changed = True
                    continue
            changed = len(sol) != before
        U = {}
        left = [ph for ph in ex if ph not in sol]
        if n is None or left:
            if n is None:
                # while-loop: carry an explicit counter
                cnt = tv('cnt', 'n', True)
                T._tvlb[cnt] = 0
                vars_ = left + [cnt]
                m = {k: cnt}
                full = {ph: subst(v, m) for ph, v in sol.items()}
                bodies = [subst(subst(ex[ph], sol), m) for ph in left] + [add(cnt, ONE)]
                cc = subst(subst(cnd, sol), m) if cnd is not None else TRUE
                if use_exit and exitphi is not None:
                    e_ = exitphi if exitphi in left else subst(sol[exitphi], m)
                    cc = and_(eq0(e_), cc)
                inits = [init[ph] for ph in left] + [ZERO]
                bodies = [self.coerce(b, i) for b, i in zip(bodies, inits)]
                kk = index_var('f')
                f = fold(kk, None, vars_, inits, bodies, cc)
                kend = proj(f, len(left))
                # start-of-iteration values: the same recurrence stopped after k steps
                fk = fold(kk, k, vars_, inits, bodies, None)
                for i, ph in enumerate(left):
                    U[ph] = (proj(fk, i), proj(f, i))
                return sol, None, kend, U
            vars_ = left
            groups = self.components(left, ex, sol)
            for g in groups:
                need = self.closure(g, ex, sol, left)
                inits = [init[ph] for ph in need]
                kk = index_var('f')
                bodies = [self.coerce(subst(subst(ex[ph], sol), {k: kk}), i) for ph, i in zip(need, inits)]
                RANGES[kk] = n
                f = fold(kk, n, need, inits, bodies)
                fk = fold(kk, k, need, inits, bodies)
                for ph in g:
                    i = need.index(ph)
                    U[ph] = (proj(fk, i), proj(f, i))
        return sol, n, n, U

    def coerce(self, b, i):
        if b.sort != i.sort:
            if i.sort == 'n' and b.sort == 'b':
                return tonum(b)
            if i.sort == 'b' and b.sort == 'n':
                return tobool(b)
            raise Unsupported('recurrence changes sort')
        return b

    def components(self, left, ex, sol):
        return [[ph] for ph in left]

    def closure(self, g, ex, sol, left):
        need = list(g)
        i = 0
        ls = set(left)
        while i < len(need):
            e = subst(ex[need[i]], sol)
            for x in sorted(e.fv & ls, key=lambda t: t.id):
                if x not in need:
                    need.append(x)
            i += 1
        return need

    def close_scalars(self, ex, init, sol, k, allphi):
        progress = True
        while progress:
            progress = False
            for ph, e in ex.items():
                if ph in sol or ph.sort == 'a':
                    continue
                e2 = subst(e, sol)
                uns = (e2.fv & allphi) - {ph}
                if uns - set(sol):
                    continue
                if ph not in e2.fv:
                    # last value written
                    if k in e2.fv:
                        prev = subst(e2, {k: sub(k, ONE)})
                        if e2.sort == 'n' and subst(e2, {k: const(-1)}) is init[ph]:
                            sol[ph] = prev
                        else:
                            sol[ph] = ite(eq0(k), init[ph], self.coerce(prev, init[ph]))
                    else:
                        sol[ph] = ite(eq0(k), init[ph], self.coerce(e2, init[ph]))
                    progress = True
                    continue
                if ph.sort == 'n' and e2.sort == 'n':
                    d = sub(e2, ph)
                    if ph not in d.fv:
                        if k not in d.fv:
                            sol[ph] = add(init[ph], mul(d, k))
                        else:
                            j = index_var('j')
                            RANGES[j] = k
                            sol[ph] = add(init[ph], sum_(j, k, subst(d, {k: j})))
                        progress = True
                        continue
                    # geometric: x' = a*x + b with invariant a (b == 0)
                    cf = coeff(e2, ph)
                    if cf is not None and cf[1] is ZERO and k not in cf[0].fv:
                        sol[ph] = mul(init[ph], T.fn('pow', (cf[0], k)))
                        progress = True
                        continue
                if ph.sort == 'b' and e2.sort == 'b':
                    # accumulated disjunction / conjunction
                    pass

    def close_arrays(self, ex, init, sol, k, allphi):
        for ph, e in list(ex.items()):
            if ph in sol or ph.sort != 'a':
                continue
            e2 = subst(e, sol)
            uns = (e2.fv & allphi) - set(sol)
            if uns - {ph}:
                continue
            if ph not in e2.fv:
                if k in e2.fv:
                    sol[ph] = ite(eq0(k), init[ph], subst(e2, {k: sub(k, ONE)}))
                else:
                    sol[ph] = ite(eq0(k), init[ph], e2)
                continue
            chain, base = T._chain(e2)
            if base is not ph or not chain:
                continue
            ws = []
            ok = True
            for u in reversed(chain):
                ks, (ns, off, val, cond) = T._open(u)
                # reads of the running array inside the iteration
                if any(ph in x.fv for x in (off, cond) + tuple(ns)):
                    ok = False
                    break
                if ph in val.fv:
                    v2 = self.self_read(ph, init[ph], ks, ns, off, val, k, u, len(chain))
                    if v2 is None:
                        ok = False
                        break
                    val = v2
                ws.append((ks, ns, off, val, cond, u.args[5]))
            if not ok:
                continue
            if len(ws) > 1:
                ws = self.fuse(ws)
            if len(ws) != 1:
                # a sequence of writes per iteration: independent if modes are all additive
                if all(w[5] == 'add' for w in ws) or self.writes_disjoint(ws, k):
                    j = index_var('j')
                    a = init[ph]
                    for ks, ns, off, val, cond, mode in ws:
                        m = {k: j}
                        a = upd(a, [(j, k)] + [(x, subst(y, m)) for x, y in zip(ks, ns)],
                                subst(off, m), subst(val, m), subst(cond, m), mode)
                    sol[ph] = a
                continue
            ks, ns, off, val, cond, mode = ws[0]
            j = index_var('j')
            RANGES[j] = k
            m = {k: j}
            sol[ph] = upd(init[ph], [(j, k)] + [(x, subst(y, m)) for x, y in zip(ks, ns)],
                          subst(off, m), subst(val, m), subst(cond, m), mode)

    def fuse(self, ws):
        out = [ws[0]]
        for w in ws[1:]:
            p = out[-1]
            if len(p[0]) == len(w[0]) and p[5] == w[5]:
                m = {b: a for a, b in zip(p[0], w[0])}
                ns = tuple(subst(x, m) for x in w[1])
                off = subst(w[2], m)
                val, cond = subst(w[3], m), subst(w[4], m)
                if ns == tuple(p[1]) and off is p[2]:
                    if p[5] == 'set':
                        out[-1] = (p[0], p[1], off, ite(cond, val, p[3]), or_(p[4], cond), 'set')
                    else:
                        out[-1] = (p[0], p[1], off, add(ite(p[4], p[3], ZERO), ite(cond, val, ZERO)), or_(p[4], cond), 'add')
                    continue
            out.append(w)
        return out

    def writes_disjoint(self, ws, k):
        return False

    def self_read(self, ph, a0, ks, ns, off, val, k, u, nchain):
        """val reads the running array only at the element being written and each element is
        written once: the read sees the initial content"""
        if nchain != 1:
            return None
        if not injective(list(ks) + [k], list(ns) + [RANGES.get(k)], off):
            return None
        bad = []

        def fix(t):
            memo = {}

            def go(x):
                if ph not in x.fv:
                    return x
                if x in memo:
                    return memo[x]
                if x.op == 'sel' and x.args[0] is ph:
                    if x.args[1] is off:
                        r = sel(a0, off)
                    else:
                        bad.append(x)
                        r = x
                elif x is ph:
                    bad.append(x)
                    r = x
                elif x.op == 'poly':
                    ps = []
                    for c, m in x.args:
                        q = const(c)
                        for a, e in m:
                            y = go(a)
                            for _ in range(abs(e)):
                                q = mul(q, y if e > 0 else inv(y))
                        ps.append(q)
                    r = add(ZERO, *ps)
                elif x.op == 'fn':
                    r = T.fn(x.args[0], [go(a) for a in x.args[1]], x.args[2])
                elif x.op == 'ite':
                    r = ite(*[go(a) for a in x.args])
                elif x.op in ('ge0', 'gt0', 'eq0'):
                    r = {'ge0': ge0, 'gt0': gt0, 'eq0': eq0}[x.op](go(x.args[0]))
                elif x.op == 'and':
                    r = and_(*[go(a) for a in x.args])
                elif x.op == 'or':
                    r = or_(*[go(a) for a in x.args])
                elif x.op == 'not':
                    r = not_(go(x.args[0]))
                elif x.op == 'trunc':
                    r = trunc(go(x.args[0]))
                else:
                    bad.append(x)
                    r = x
                memo[x] = r
                return r
            return go(t)
        r = fix(val)
        return None if bad else r

    def trip(self, c, k, unsolved):
        """number of iterations for which the test c (a term in k) holds, or None"""
        if c is FALSE:
            return ZERO
        if c.fv & unsolved:
            return None
        if k not in c.fv:
            return None
        if c.op == 'and':
            inv_, ns = [], []
            for x in c.args:
                if k not in x.fv:
                    inv_.append(x)
                    continue
                n = self.trip(x, k, unsolved)
                if n is None:
                    return None
                ns.append(n)
            n = ns[0]
            for y in ns[1:]:
                n = T.fn('min', (n, y))
            return ite(and_(*inv_), n, ZERO) if inv_ else n
        if c.op == 'ge0':
            cf = coeff(c.args[0], k)
            if cf is None:
                return None
            B, A = cf
            if isconst(B) and cval(B) < 0 and A.isint:
                s = -cval(B)
                if s == 1:
                    return max0(add(A, ONE))
                return idiv(max0(add(A, const(s))), const(s))
            if A.isint and nonneg(sub(neg(B), ONE)):
                return idiv(max0(sub(A, B)), neg(B))
            return None
        if c.op == 'not' and c.args[0].op == 'eq0':
            cf = coeff(c.args[0].args[0], k)
            if cf is None:
                return None
            B, A = cf
            if isconst(B):
                r = scale(A, Fraction(-1) / cval(B))
                if r.isint:
                    return max0(r)
                # step larger than one: exact division assumed by the != test
                if A.isint:
                    s = abs(cval(B))
                    num = scale(A, -1 if cval(B) > 0 else 1)
                    return idiv(max0(num), const(s))
            # symbolic stride: exact division
            nb = neg(B)
            for d_, a_ in ((B, neg(A)), (nb, A)):
                if nonneg(sub(d_, ONE)):
                    q = T._exact_div(a_, d_)
                    if q is not None:
                        return max0(q)
            return None
        return None


def lt_(a, b):
    return gt0(sub(b, a))


def _small(v):
    """value already known to fit 8 bits"""
    return v.op == 'uf' and v.args[0].startswith('byte')


def nice(v, t):
    """literal constants: prefer the short decimal the programmer wrote"""
    if v == int(v) and abs(v) < 2 ** 53:
        return int(v)
    f = Fraction(repr(v))
    if t == 'float':
        import struct
        for d in range(1, 10):
            s = '%.*g' % (d, v)
            if struct.unpack('f', struct.pack('f', float(s)))[0] == v:
                return Fraction(s)
    return f


def injective(ks, ns, off):
    """off, linear in ks, never takes the same value twice over the box ks<ns"""
    rest = off
    items = []
    for k, n in zip(ks, ns):
        if n is None:
            n = RANGES.get(k)
        cf = coeff(rest, k)
        if cf is None:
            return False
        items.append([k, n, cf[0]])
        rest = cf[1]
    kk = set(ks)
    if any(s.fv & kk for _, _, s in items):
        return False
    if len(items) == 1:
        s = items[0][2]
        return nonneg(sub(s, ONE)) or nonneg(sub(neg(s), ONE))
    for it in items:
        if nonneg(neg(it[2])) and it[2] is not ZERO:
            it[2] = neg(it[2])
    if any(n is None for _, n, _ in items):
        return False
    left = items[:]
    lo = None
    cand = [x for x in left if nonneg(sub(x[2], ONE))]
    if len(cand) != len(left):
        return False
    # order by divisibility: smallest stride first
    cur = None
    for x in left:
        if all(y is x or nonneg(sub(y[2], x[2])) for y in left):
            cur = x
            break
    if cur is None:
        return False
    left.remove(cur)
    span = mul(cur[2], cur[1])
    while left:
        nx = None
        for x in left:
            if nonneg(sub(x[2], span)) and all(y is x or nonneg(sub(y[2], x[2])) for y in left):
                nx = x
                break
        if nx is None:
            return False
        left.remove(nx)
        span = mul(nx[2], nx[1])
    return True
