"""Models of the standard library (and other external) operations the repository uses."""
import re
from terms import *
import terms as T
from values import *
import values as V
import eig

DRAWS = 1 << 14

STD_PREFIX = ('std::', '__gnu_cxx::', 'Eigen::', 'ade::')


def handles(cls):
    return cls.startswith(STD_PREFIX)


def _strip(t):
    from interp import strip_t
    return strip_t(t)


def _targs(t):
    from interp import targs
    return targs(t)


def base(t):
    """std::vector<int,...> -> std::vector"""
    i = t.find('<')
    return t if i < 0 else t[:i]


STRING = ('std::basic_string', 'std::basic_string_view')
SEQ = ('std::vector', 'std::array', 'std::deque', 'std::stack', 'std::initializer_list', 'std::list', 'std::queue')
MAPS = ('std::unordered_map', 'std::map')
SETS = ('std::unordered_set', 'std::set')
STREAMS = ('std::basic_ostream', 'std::basic_istream', 'std::basic_ifstream', 'std::basic_ofstream', 'std::basic_iostream',
           'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_ios', 'std::ios_base',
           'std::basic_fstream')


def default_for(I, t, st, fr, zero):
    b = base(t)
    if b.startswith('Eigen::'):
        return eig.default_for(I, t, st, fr, zero)
    if b in STRING:
        return string('')
    if b == 'std::array':
        a = _targs(t)
        n = int(re.sub(r'[UL]+$', '', a[1]))
        return vec([I.default_value(a[0], st, fr, zero) for _ in range(n)], a[0])
    if b in SEQ:
        a = _targs(t)
        return vec([], a[0] if a else '?')
    if b in MAPS:
        a = _targs(t)
        return MapV({}, a[1], a[0])
    if b in SETS:
        a = _targs(t)
        if a[0] in ('int', 'unsigned long', 'unsigned int', 'long'):
            return Struct('std::set', {'v': Vec(ZERO, afill(ZERO), a[0])})
        return MapV({}, '$set', a[0])
    if b in ('std::shared_ptr', 'std::__shared_ptr', 'std::weak_ptr'):
        return NULL
    if b == 'std::unique_ptr':
        return Struct('std::unique_ptr', {'p': NULL, 'del': UNDEF})
    if b == 'std::any':
        return AnyV(None, None)
    if b == 'std::optional':
        return OptV(FALSE, None)
    if b in ('std::pair',):
        a = _targs(t)
        return Struct('std::pair', {'first': I.default_value(a[0], st, fr, True), 'second': I.default_value(a[1], st, fr, True)})
    if b == 'std::function':
        return NULL
    if b in ('std::mersenne_twister_engine', 'std::random_device', 'std::linear_congruential_engine'):
        return Opq('rng')
    if b in ('std::multiplies', 'std::plus', 'std::minus', 'std::divides', 'std::greater', 'std::less', 'std::equal_to',
             'std::negate', 'std::logical_or', 'std::logical_and', 'std::not_equal_to'):
        return Opq('functor', b[5:])
    if b in ('std::allocator', 'std::hash', 'std::integer_sequence', 'std::exception', 'std::mutex'):
        return Opq('obj', b)
    if b in STREAMS:
        return stream_default(I, t, st)
    if b in ('std::uniform_real_distribution', 'std::uniform_int_distribution', 'std::normal_distribution',
             'std::bernoulli_distribution'):
        return Struct(b, {'a': ZERO, 'b': ONE if 'real' in b else const(2 ** 31 - 1)})
    if b == '__gnu_cxx::__normal_iterator':
        return UNDEF
    if b == 'std::atomic':
        return I.default_value(_targs(t)[0], st, fr, True)
    if b in ('std::reverse_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
        return UNDEF
    if b == 'std::tuple':
        return Struct('std::tuple', {str(i): I.default_value(x, st, fr, True) for i, x in enumerate(_targs(t))})
    return None


def stream_default(I, t, st):
    return Struct('std::stream', {'open': TRUE, 'ok': TRUE, 'pos': ZERO, 'tape': Opq('tape', ()), 'kind': string(base(t)[5:])})


def need_throw(I, st, fr, line, ok, typ):
    """continue under ok; the complement throws typ"""
    ok = st.decide(ok)
    if ok is TRUE:
        return
    if ok is FALSE:
        I.throw(st, fr, line, typ)
    bad = st.fork(not_(ok))
    try:
        I.throw(bad, fr, line, typ)
    except Dead:
        pass
    st.assume(ok)


# ---------------------------------------------------------------- construction
def construct(I, e, st, fr):
    t = _strip(e['t'])
    cls = e.get('cls') or base(t)
    ck = e.get('ck')
    if cls.startswith('Eigen::'):
        return eig.construct(I, e, st, fr)
    if ck == 'default' and not [a for a in e['args'] if a.get('k') != 'ctor' or not a['t'].startswith('std::allocator')]:
        v = default_for(I, _strip(e.get('clst', t)), st, fr, True)
        if v is None:
            v = default_for(I, t, st, fr, True)
        return v if v is not None else Opq('obj', t)
    raw = [a for a in e['args'] if not (a.get('k') in ('ctor', 'zero') and _strip(a['t']).startswith('std::allocator'))]
    if ck in ('copy', 'move'):
        x = I.ev(raw[0], st, fr)
        v = I.val(st, x, fr, e['l'])
        if ck == 'move' and isinstance(x, Loc) and isinstance(v, Struct) and v.cls == 'std::unique_ptr':
            I.store(st, x, v.with_('p', NULL))
        elif ck == 'move' and isinstance(x, Loc):
            moved_from(I, st, x, v, t)
        return v
    args = [I.ev(a, st, fr) for a in raw]
    return build(I, t, cls, args, raw, e, st, fr)


def moved_from(I, st, loc, v, t):
    """containers and owning handles are empty after a move (libstdc++)"""
    b = base(t)
    if b == 'std::vector':
        I.store(st, loc, vec([], v.et if isinstance(v, Vec) else '?'))
    elif b in ('std::shared_ptr',):
        I.store(st, loc, NULL)
    elif b == 'std::basic_string':
        I.store(st, loc, string(''))
    elif b in MAPS and isinstance(v, MapV):
        I.store(st, loc, MapV({}, v.vt, v.kt))


def build(I, t, cls, args, raw, e, st, fr):
    line = e['l']
    vals = None

    def v(i):
        return I.val(st, args[i], fr, line)
    if cls in STRING:
        x = v(0)
        if isinstance(x, Term) and x.sort == 's':
            if len(args) >= 2:
                return uf('substr', (x, I.num(st, args[1])) + tuple(I.num(st, a) for a in args[2:3]), 's')
            return x
        if isinstance(x, Term) and len(args) == 2:
            return uf('rep', (x, tonum(v(1))), 's')
        if isinstance(x, Ptr):
            return uf('strfrom%d' % next(V._emptyctr), (), 's')
        return uf('str%d' % next(V._emptyctr), (), 's')
    if cls in ('std::vector', 'std::deque', 'std::list'):
        et = _targs(t)[0] if '<' in t else '?'
        if not args:
            return vec([], et)
        x = v(0)
        if isinstance(x, Vec) and raw[0]['k'] == 'stdlist' or isinstance(x, Vec) and len(args) == 1:
            return Vec(x.n, x.d, et)
        if isinstance(x, Struct) and x.cls == 'std::set':
            return x.f['v']
        if isinstance(x, Ptr) and len(args) == 2 and isinstance(v(1), Ptr):
            return range_copy(I, st, fr, line, x, v(1), et)
        if isinstance(x, Opq) and x.k == 'setiter':
            return I.val(st, x.d + 'v')
        if isinstance(x, MapIter):
            raise Unsupported('vector from map range')
        if isinstance(x, Term):
            n = tonum(x)
            if len(args) >= 2:
                f = v(1)
                if isconst(n) and cval(n) <= 64:
                    return Vec(n, tuple([f] * max(0, cval(n))), et)
                if isinstance(f, Term):
                    return Vec(n, afill(tonum(f)), et)
                raise Unsupported('symbolic vector of objects')
            I.event('alloc', st, fr, line, (n, et))
            return I.fresh_seq(st, fr, n, et, True)
        raise Unsupported('vector constructor')
    if cls in ('std::shared_ptr', 'std::__shared_ptr'):
        x = v(0)
        if '$adopt' in I.hooks:
            I.hooks['$adopt'](st, x)
        return x
    if cls == 'std::unique_ptr':
        x = v(0)
        if isinstance(x, Struct) and x.cls == 'std::unique_ptr':
            if isinstance(args[0], Loc):
                I.store(st, args[0], x.with_('p', NULL))
            return x
        d = v(1) if len(args) > 1 else UNDEF
        if d is UNDEF and '<' in t and len(_targs(t)) > 1 and not _targs(t)[1].startswith('std::default_delete'):
            d = Opq('deltype', _targs(t)[1])
        return Struct('std::unique_ptr', {'p': x, 'del': d})
    if cls == 'std::any':
        x = v(0)
        at = _strip(raw[0].get('t', '?'))
        return AnyV(at, x)
    if cls == 'std::optional':
        x = v(0)
        if isinstance(x, OptV):
            return x
        if isinstance(x, Opq) and x.k == 'nullopt':
            return OptV(FALSE, None)
        return OptV(TRUE, x)
    if cls == 'std::pair':
        a = _targs(t)
        if len(args) == 2:
            return Struct('std::pair', {'first': v(0), 'second': v(1)})
        x = v(0)
        return x
    if cls == 'std::tuple':
        return Struct('std::tuple', {str(i): v(i) for i in range(len(args))})
    if cls == 'std::function':
        return v(0)
    if cls in MAPS:
        a = _targs(t)
        m = MapV({}, a[1], a[0])
        x = v(0)
        if isinstance(x, Vec) and isinstance(x.d, tuple):
            for p in x.d:
                k = key_of(p.f['first'])
                if k not in m.e:
                    m.e[k] = (TRUE, p.f['second'])
            return m
        raise Unsupported('map constructor')
    if cls in SETS:
        x = v(0)
        m = MapV({}, '$set', '?')
        if isinstance(x, Vec) and isinstance(x.d, tuple):
            for p in x.d:
                m.e[key_of(p)] = (TRUE, TRUE)
            return m
        raise Unsupported('set constructor')
    if cls in ('std::mersenne_twister_engine', 'std::random_device'):
        return Opq('rng')
    if cls in ('std::uniform_real_distribution', 'std::uniform_int_distribution', 'std::normal_distribution',
               'std::bernoulli_distribution'):
        d = default_for(I, cls, st, fr, True)
        if args:
            d = d.with_('a', I.num(st, args[0]))
        if len(args) > 1:
            d = d.with_('b', I.num(st, args[1]))
        return d
    if cls in STREAMS:
        s = stream_default(I, t, st)
        hook = I.hooks.get('$open')
        if hook:
            return hook(I, e, st, fr, s, args)
        return s
    if cls in ('std::reverse_iterator',):
        x = v(0)
        return Opq('riter', x) if isinstance(x, Ptr) else x
    if cls in ('__gnu_cxx::__normal_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator'):
        return v(0)
    if cls == 'std::atomic':
        return v(0)
    if cls == 'std::initializer_list':
        return v(0)
    if 'error' in cls or 'exception' in cls or cls.startswith('std::bad_') or cls == 'std::out_of_range':
        return Opq('exc', cls)
    d = default_for(I, t, st, fr, True)
    if d is not None and not args:
        return d
    if cls.startswith('ade::') or cls in ('std::allocator', 'std::hash', 'std::equal_to', 'std::lock_guard', 'std::unique_lock'):
        return Opq('obj', cls)
    raise Unsupported('constructor of ' + cls)


def range_copy(I, st, fr, line, a, b, et):
    if a.base is None or a.base != b.base:
        raise Unsupported('range over two sequences')
    n = sub(b.off or ZERO, a.off or ZERO)
    src = I.load(st, a.base)
    if isinstance(src, Gate):
        src = I.resolve(st, src)
    if not isinstance(src, Vec):
        raise unsup('range of %s' % type(src).__name__, src)
    if I.log_access:
        k = index_var('c')
        RANGES[k] = n
        I.binders.append((k, n))
        I.event('acc', st, fr, line, ('r', a.base, add(a.off, k), src.n))
        I.binders.pop()
    if isconst(n) and isconst(a.off) and isinstance(src.d, tuple):
        return Vec(n, src.d[cval(a.off):cval(a.off) + cval(n)], et)
    arr = as_array(src)
    if arr is None:
        raise Unsupported('copy of an object range')
    if a.off is ZERO:
        return Vec(n, arr, et)
    if isconst(n) and cval(n) <= 64:
        return Vec(n, tuple(sel(arr, add(a.off, const(i))) for i in range(cval(n))), et)
    k = index_var('c')
    RANGES[k] = n
    return Vec(n, upd(afill(ZERO), [(k, n)], k, sel(arr, add(a.off, k))), et)


def key_of(k):
    if isinstance(k, Term):
        if k.op == 'str':
            return k.args[0]
        if isconst(k):
            return cval(k)
    raise Unsupported('symbolic map key')


# ---------------------------------------------------------------- calls
def call(I, e, st, fr):
    n = e['n']
    cls = e.get('cls', '')
    fnq = e.get('fn', '')
    if cls.startswith('Eigen::'):
        return eig.call(I, e, st, fr)
    if fnq.startswith('Eigen::') or (not cls and e.get('op') and any('Eigen::' in a.get('t', '') for a in e['args'])):
        return eig.free_call(I, e, st, fr)
    obj = None
    args = list(e['args'])
    line = e['l']
    if cls and not e.get('static'):
        if e.get('op'):
            obj = I.ev(args[0], st, fr)
            args = args[1:]
        elif 'obj' in e:
            obj = I.ev(e['obj'], st, fr)
            if _strip(e.get('objt', '')).endswith('*'):
                obj = I.deref(st, obj, fr, line)
    av = [I.ev(a, st, fr) for a in args]
    return call_model(I, e, st, fr, obj, av)


def call_model(I, e, st, fr, obj, args):
    n = e['n']
    cls = e.get('cls', '')
    if cls:
        return method(I, e, st, fr, cls, n, obj, args)
    return free(I, e, st, fr, n, args)


def loc_of(I, st, obj):
    return obj if isinstance(obj, Loc) else I.as_loc(st, I.val(st, obj))


def method(I, e, st, fr, cls, n, obj, args):
    line = e['l']
    if '$method' in I.hooks:
        r = I.hooks['$method'](I, e, st, fr, cls, n, obj, args)
        if r is not NotImplemented:
            return r
    if cls.startswith('(lambda'):
        return I.call_value(I.val(st, obj), args, st, fr, e)
    if n == 'operator=' and cls not in SEQ and not cls.startswith(('std::', '__gnu')):
        # implicit assignment of a repository class
        v = I.val(st, args[0])
        I.store(st, obj, v, fr, line)
        return obj
    if cls in STRING:
        return str_method(I, e, st, fr, n, obj, args, line)
    if cls in SEQ:
        return seq_method(I, e, st, fr, n, obj, args, line)
    if cls in MAPS:
        return map_method(I, e, st, fr, n, obj, args, line)
    if cls in SETS:
        return set_method(I, e, st, fr, n, obj, args, line)
    if cls in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::__uniq_ptr_impl'):
        return ptr_method(I, e, st, fr, n, obj, args, line)
    if cls in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::__detail::_Node_iterator',
               'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base'):
        return iter_method(I, e, st, fr, n, obj, args, line)
    if cls == 'std::function':
        if n == 'operator()':
            return I.call_value(I.val(st, obj), args, st, fr, e)
        if n == 'operator bool':
            f = I.val(st, obj)
            return FALSE if f is NULL else TRUE
        if n == 'operator=':
            I.store(st, obj, I.val(st, args[0]))
            return obj
    if cls == 'std::optional' or cls.startswith('std::_Optional'):
        return opt_method(I, e, st, fr, n, obj, args, line)
    if cls == 'std::any':
        if n == 'has_value':
            return FALSE if I.val(st, obj).t is None else TRUE
        if n == 'operator=':
            v = I.val(st, args[0])
            if not isinstance(v, AnyV):
                v = AnyV(_strip(e['args'][-1].get('t', '?')), v)
            I.store(st, obj, v)
            return obj
        if n == 'type':
            return Opq('typeid', I.val(st, obj).t)
    if cls in ('std::pair', 'std::tuple'):
        if n == 'operator=':
            I.store(st, obj, I.val(st, args[0]))
            return obj
    if cls in ('std::uniform_real_distribution', 'std::uniform_int_distribution', 'std::normal_distribution',
               'std::bernoulli_distribution') and n == 'operator()':
        return draw(I, st, fr, cls, I.val(st, obj))
    if cls in ('std::random_device', 'std::mersenne_twister_engine') and n == 'operator()':
        return uf('entropy%d' % next(V._emptyctr), (), 'n', True)
    if cls in STREAMS:
        return stream_method(I, e, st, fr, n, obj, args, line)
    if cls in ('std::multiplies', 'std::plus', 'std::minus', 'std::divides', 'std::greater', 'std::less', 'std::equal_to'):
        if n == 'operator()':
            return apply_functor(I, cls[5:], args, st, fr, e)
    if cls == 'std::numeric_limits':
        raise Unsupported('numeric_limits')
    if cls in ('std::atomic', 'std::__atomic_base', 'std::__atomic_float'):
        if n in ('load',) or n.startswith('operator ') and not n.startswith('operator='):
            return I.val(st, obj)
        if n in ('store', 'operator='):
            I.store(st, obj, I.val(st, args[0]), fr, line)
            return obj
        if n in ('fetch_add', 'operator+='):
            old = I.num(st, obj)
            I.store(st, obj, add(old, I.num(st, args[0])), fr, line)
            return old
        if n == 'operator++':
            old = I.num(st, obj)
            I.store(st, obj, add(old, ONE), fr, line)
            return old
    if n in ('lock', 'unlock') or cls in ('std::mutex', 'std::lock_guard', 'std::unique_lock'):
        return None
    if n == 'what':
        return uf('what', (), 's')
    o = I.val(st, obj) if obj is not None else None
    if isinstance(o, Opq) and o.k == 'model':
        return o.d(I, e, st, fr, obj, args)
    raise Unsupported('call %s::%s' % (cls, n))


# ---------------------------------------------------------------- random numbers
def rng_counter(I, st):
    k = '$draws'
    l = I.globals.get(k)
    if l is None:
        l = Loc(next(I.gcells))
        I.globals[k] = l
        I.cellinfo[l.cell] = 'generator position'
    if l.cell not in st.store:
        st.store[l.cell] = ZERO
    return l


def draw(I, st, fr, cls, d):
    l = rng_counter(I, st)
    pos = I.load(st, l)
    st.store[l.cell] = add(pos, ONE)
    if cls == 'std::normal_distribution':
        return add(d.f['a'], mul(d.f['b'], sel(avar('normal', const(DRAWS)), pos)))
    u = sel(avar('draw', const(DRAWS)), pos)
    if cls == 'std::bernoulli_distribution':
        return lt(u, d.f['a'])
    if cls == 'std::uniform_real_distribution':
        return add(d.f['a'], mul(sub(d.f['b'], d.f['a']), u))
    return add(d.f['a'], T.fn('floor', (mul(add(sub(d.f['b'], d.f['a']), ONE), u),)))


# ---------------------------------------------------------------- strings
def str_method(I, e, st, fr, n, obj, args, line):
    s = I.val(st, obj)
    if n in ('c_str', 'data', 'str', 'operator basic_string_view'):
        if isinstance(s, Term) and s.sort == 's':
            hook = I.hooks.get('$strdata')
            if hook:
                return hook(I, e, st, fr, obj, args)
            return s
    if n.startswith('operator basic_string_view') or n.startswith('operator std::basic_string_view'):
        return s
    if n in ('size', 'length'):
        if isinstance(s, Term) and s.op == 'str':
            return const(len(s.args[0]))
        return T.fn('abs', (uf('strlen', (s,), 'n', True),))
    if n == 'empty':
        if isinstance(s, Term) and s.op == 'str':
            return TRUE if s.args[0] == '' else FALSE
        return T.eq(s, string(''))
    if n == 'operator=' or n == 'assign':
        v = I.val(st, args[0])
        I.store(st, obj, v)
        return obj
    if n in ('operator+=', 'append', 'push_back'):
        v = I.val(st, args[0])
        I.store(st, obj, concat(s, v if isinstance(v, Term) else string('?')))
        return obj
    if n == 'compare' and len(args) == 3:
        a, ln, y = [I.val(st, x) for x in args]
        if s.op == 'str' and isconst(a) and isconst(ln) and isinstance(y, Term):
            b0, m = int(cval(a)), int(cval(ln))
            return ite(T.eq(string(s.args[0][b0:] if m < 0 else s.args[0][b0:b0 + m]), y), ZERO, ONE)
        return uf('compare', (s, a, ln, y), 'n', True)
    if n == 'compare':
        return ite(T.eq(s, I.val(st, args[0])), ZERO, ONE)
    if n in ('find_last_of', 'find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_not_of'):
        a = [I.val(st, x) for x in args]
        if a and isinstance(a[0], Term) and a[0].op == 'const' and 0 <= cval(a[0]) < 128:
            a[0] = string(chr(int(cval(a[0]))))
        if s.op == 'str' and all(isinstance(x, Term) and x.op == 'str' for x in a[:1]) and (len(a) == 1 or len(a) == 2 and isconst(a[1])):
            x, y = s.args[0], a[0].args[0]
            k = int(cval(a[1])) if len(a) == 2 else None
            fw = range(k or 0, len(x)) if k is None or k >= 0 else range(0)
            bw = range(len(x) - 1 if k is None or k < 0 or k >= len(x) else k, -1, -1)
            if n == 'find':
                r = x.find(y, k or 0)
            elif n == 'rfind':
                r = x.rfind(y) if k is None or k < 0 else x.rfind(y, 0, k + len(y))
            else:
                r = next((i for i in (fw if 'first' in n else bw) if (x[i] in y) != ('not' in n)), -1)
            return const(r)
        return sub(T.fn('abs', (uf(n, (s,) + tuple(a[:1]), 'n', True),)), ONE)
    if n in ('starts_with', 'ends_with') and s.op == 'str':
        a = I.val(st, args[0])
        if isinstance(a, Term) and a.op == 'const':
            a = string(chr(int(cval(a))))
        if isinstance(a, Term) and a.op == 'str':
            return TRUE if getattr(s.args[0], n.replace('_', ''))(a.args[0]) else FALSE
    if n == 'substr':
        a = [I.num(st, x) for x in args]
        if s.op == 'str' and all(isconst(x) for x in a):
            x = s.args[0]
            b0 = cval(a[0])
            ln = cval(a[1]) if len(a) > 1 else None
            return string(x[b0:] if ln is None or ln < 0 or ln > 10 ** 9 else x[b0:b0 + ln])
        return uf('substr', (s,) + tuple(x for x in a if not (isconst(x) and abs(cval(x)) > 2 ** 40)), 's')
    if n in ('resize', 'clear', 'reserve'):
        if n == 'clear':
            I.store(st, obj, string(''))
        elif n == 'resize':
            I.store(st, obj, uf('strbuf%d' % next(V._emptyctr), (I.num(st, args[0]),), 's'))
        return None
    if n in ('operator[]', 'at', 'back', 'front'):
        a = [I.num(st, a) for a in args]
        k = (None if s.op != 'str' else len(s.args[0]) - 1 if n == 'back' else 0 if n == 'front' else int(cval(a[0])) if a and isconst(a[0]) else None)
        if k is not None and 0 <= k < len(s.args[0]):
            return const(ord(s.args[0][k]))
        return uf('char_at', (s,) + tuple(I.num(st, a) for a in args), 'n', True)
    if n in ('begin', 'end', 'cbegin', 'cend'):
        return Opq('striter', (obj, n))
    if n == 'swap' and len(args) == 1:
        o = args[0] if isinstance(args[0], Loc) else I.as_loc(st, args[0])
        x = I.val(st, o)
        I.store(st, o, s)
        I.store(st, obj, x)
        return None
    raise Unsupported('string::' + n)


def concat(a, b):
    if a.op == 'str' and b.op == 'str':
        return string(a.args[0] + b.args[0])
    return uf('concat', (a, b), 's')


# ---------------------------------------------------------------- sequences
def seqv(I, st, obj):
    v = I.val(st, obj)
    if isinstance(v, Gate):
        v = I.resolve(st, v)
        if isinstance(v, Gate) and isinstance(v.a, Vec) and isinstance(v.b, Vec):
            raise Unsupported('sequence of undetermined length')
    if v is UNDEF:
        raise Unsupported('uninitialised sequence')
    if not isinstance(v, Vec):
        raise unsup('sequence operation on %s' % type(v).__name__, v)
    return v


def seq_method(I, e, st, fr, n, obj, args, line):
    if n == 'operator=':
        v = I.val(st, args[0])
        if isinstance(v, Gate):
            v = I.resolve(st, v)
        I.store(st, obj, v)
        if isinstance(args[0], Loc) and e.get('pt') and e['pt'][0].endswith('&&'):
            moved_from(I, st, args[0], v, _strip(e.get('clst', 'std::vector')))
        return obj
    if n in ('size', 'empty', 'max_size'):
        v0 = I.val(st, obj)
        if isinstance(v0, Gate):
            r = size_of(I, st, v0)
            return eq0(r) if n == 'empty' else r
    loc = loc_of(I, st, obj)
    v = seqv(I, st, loc)
    et = v.et
    if n == 'size':
        return v.n
    if n == 'empty':
        return eq0(v.n)
    if n == 'operator[]':
        return loc + ('i', I.num(st, args[0]))
    if n == 'at':
        i = I.num(st, args[0])
        need_throw(I, st, fr, line, and_(ge0(i), gt(v.n, i)), 'std::out_of_range')
        return loc + ('i', i)
    if n == 'front':
        return loc + ('i', ZERO)
    if n in ('back', 'top'):
        return loc + ('i', sub(v.n, ONE))
    if n == 'data':
        return Ptr(loc, ZERO)
    if n in ('begin', 'cbegin'):
        return Ptr(loc, ZERO)
    if n in ('end', 'cend'):
        return Ptr(loc, v.n)
    if n in ('rbegin', 'crbegin'):
        return Opq('riter', Ptr(loc, v.n))
    if n in ('rend', 'crend'):
        return Opq('riter', Ptr(loc, ZERO))
    if n in ('push_back', 'emplace_back', 'push', 'emplace'):
        if n.startswith('emplace'):
            x = emplace_value(I, et, args, e, st, fr)
        else:
            x = I.val(st, args[0])
        v = seqv(I, st, loc)
        I.store(st, loc, append(I, v, x))
        return loc + ('i', v.n)
    if n in ('pop_back', 'pop'):
        if isinstance(v.d, tuple):
            I.store(st, loc, Vec(sub(v.n, ONE), v.d[:-1], et))
        else:
            I.store(st, loc, Vec(sub(v.n, ONE), v.d, et))
        return None
    if n == 'reserve' or n == 'shrink_to_fit':
        return None
    if n == 'clear':
        I.store(st, loc, vec([], et))
        return None
    if n == 'resize':
        m = I.num(st, args[0])
        f = I.val(st, args[1]) if len(args) > 1 else I.default_value(et, st, fr, True)
        if isconst(m) and isinstance(v.d, tuple):
            d = list(v.d[:cval(m)]) + [f] * (cval(m) - len(v.d))
            I.store(st, loc, Vec(m, tuple(d), et))
            return None
        if et.endswith('*'):
            f, v = enc(I, st, f), enc_vec(I, st, v)
        a = as_array(v)
        if a is None or not isinstance(f, Term):
            raise Unsupported('resize of object sequence')
        k = index_var('z')
        RANGES[k] = max0(sub(m, v.n))
        I.store(st, loc, Vec(m, upd(a, [(k, max0(sub(m, v.n)))], add(v.n, k), tonum(f)), et))
        return None
    if n == 'assign':
        x = I.val(st, args[0])
        if isinstance(x, Ptr):
            I.store(st, loc, range_copy(I, st, fr, line, x, I.val(st, args[1]), et))
        elif isinstance(x, Vec):
            I.store(st, loc, x)
        else:
            f = I.val(st, args[1])
            nn = tonum(x)
            if et.endswith('*') and not isconst(nn):
                f = enc(I, st, f)
            if isconst(nn) and cval(nn) <= 64:
                I.store(st, loc, Vec(nn, tuple([f] * cval(nn)), et))
            elif isinstance(f, Term):
                I.store(st, loc, Vec(nn, afill(tonum(f)), et))
            else:
                raise Unsupported('assign')
        return None
    if n == 'fill':
        k = index_var('z')
        I.bulk(st, loc, [(k, v.n)], k, I.num(st, args[0]), fr, line)
        return None
    if n == 'insert':
        p = I.val(st, args[0])
        if isinstance(p, Ptr) and p.base == loc and len(args) == 2 and isinstance(v.d, tuple) and isconst(p.off):
            x = I.val(st, args[1])
            if isinstance(x, Vec):
                items = x.d
                if not isinstance(items, tuple):
                    raise Unsupported('insert range')
            else:
                items = (x,)
            k = cval(p.off)
            I.store(st, loc, vec(v.d[:k] + tuple(items) + v.d[k:], et))
            return p
        if isinstance(p, Ptr) and p.base == loc and len(args) == 3:
            x, y = I.val(st, args[1]), I.val(st, args[2])
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                c = range_copy(I, st, fr, line, x, y, et)
                if isinstance(v.d, tuple) and isinstance(c.d, tuple) and isconst(p.off):
                    k = cval(p.off)
                    I.store(st, loc, vec(v.d[:k] + c.d + v.d[k:], et))
                    return p
        raise Unsupported('insert')
    if n == 'erase':
        p = I.val(st, args[0])
        if isinstance(p, Ptr) and isconst(p.off) and isinstance(v.d, tuple):
            k = cval(p.off)
            k2 = k + 1
            if len(args) > 1:
                q = I.val(st, args[1])
                if not isconst(q.off):
                    raise Unsupported('erase')
                k2 = cval(q.off)
            I.store(st, loc, vec(v.d[:k] + v.d[k2:], et))
            return p
        raise Unsupported('erase')
    if n == 'swap':
        w = I.val(st, args[0])
        I.store(st, args[0], v)
        I.store(st, loc, w)
        return None
    raise Unsupported('sequence method ' + n)


def size_of(I, st, v):
    if isinstance(v, Gate):
        return ite(v.c, size_of(I, st, v.a), size_of(I, st, v.b))
    if isinstance(v, Vec):
        return v.n
    raise unsup('size of %s' % type(v).__name__, v)


def append(I, v, x):
    if isinstance(v.d, tuple) and isconst(v.n):
        return Vec(add(v.n, ONE), v.d + (x,), v.et)
    a = as_array(v)
    if a is None or not isinstance(x, Term):
        raise Unsupported('append to a symbolic object sequence')
    return Vec(add(v.n, ONE), upd(a, [], v.n, tonum(x)), v.et)


def emplace_value(I, et, args, e, st, fr):
    et = _strip(et)
    ats = arg_types(e, args)
    r = I.p.rec(et)
    if len(args) == 1:
        v = I.val(st, args[0])
        if r is None or isinstance(v, Struct) and v.cls == r['t']:
            return v
    if base(et) == 'std::pair':
        return Struct('std::pair', {'first': I.val(st, args[0]), 'second': I.val(st, args[1])})
    return I.load(st, make_object(I, et, args, e, st, fr, ats))


def arg_types(e, args):
    """static types of the last len(args) arguments of the call"""
    a = e.get('args') or []
    return [x.get('t', '?') for x in a[len(a) - len(args):]] if len(a) >= len(args) and args else None


def make_object(I, t, args, e, st, fr, ats=None):
    """new object of type t constructed from args; returns its location"""
    t = _strip(t)
    r = I.p.rec(t)
    if r is None:
        if handles(t):
            if not args:
                v = default_for(I, t, st, fr, True)
                return I.new_cell(st, v, t)
            raw = [dict(k='x', t=a) for a in (ats or ['?'] * len(args))]
            if len(args) == 1:
                v = I.val(st, args[0])
                if base(t) in SEQ and isinstance(v, Vec) or base(t) in MAPS and isinstance(v, MapV):
                    return I.new_cell(st, v, t)
            return I.new_cell(st, build(I, t, base(t), args, raw, e, st, fr), t)
        v = I.val(st, args[0]) if args else I.default_value(t, st, fr, True)
        return I.new_cell(st, v, t)
    if len(args) == 1:
        v = I.val(st, args[0])
        if isinstance(v, Struct) and v.cls == t:
            return I.new_cell(st, v, t)
    loc = I.new_cell(st, UNDEF, t)
    fn = pick_ctor(I, t, args, ats, st)
    if fn is None:
        if args:
            # aggregate
            fields = I.all_fields(r)
            v = I.default_struct(r, st, fr, True)
            for (f, _), a in zip(fields, args):
                v = v.with_(f['n'], I.val(st, a))
            I.store(st, loc, v)
        else:
            I.store(st, loc, I.default_struct(r, st, fr, True))
        return loc
    I.store(st, loc, I.shell(r, st, fr, False))
    args = list(args)
    for p in fn['params'][len(args):]:
        args.append(I.ev(p['def'], st, fr))
    I.call_fn(fn, st, loc, args, e['l'], fr)
    return loc


def pick_ctor(I, t, args, ats, st):
    c = [f for f in I.p.fns.values() if f['kind'] == 'ctor' and f.get('clst') == t and len(f['params']) == len(args)
         and not f.get('ck') in ('copy', 'move')]
    c = [f for f in c if not (len(f['params']) == 1 and _strip(f['params'][0]['t']) == t)]
    if args and len(args) == 1:
        v = I.val(st, args[0])
        if isinstance(v, Struct) and v.cls == t:
            return None
    if not c and args:
        # trailing default arguments
        c = [f for f in I.p.fns.values() if f['kind'] == 'ctor' and f.get('clst') == t and len(f['params']) > len(args)
             and all(p.get('def') is not None for p in f['params'][len(args):])]
    if len(c) > 1 and ats:
        def score(f):
            s = 0
            for p, a in zip(f['params'], ats):
                if _strip(p['t']) == _strip(a):
                    s += 2
            return s
        c.sort(key=score, reverse=True)
    if len(c) > 1 and args:
        def fits(f):
            for p, a in zip(f['params'], args):
                v = I.val(st, a)
                pt = _strip(p['t'])
                if isinstance(v, Struct) and v.cls != pt and v.cls not in I.p.derived(pt):
                    return False
            return True
        c2 = [f for f in c if fits(f)]
        c = c2 or c
    if len(c) > 1 and len(args) == 1 and isinstance(I.val(st, args[0]), Term) and len({_strip(f['params'][0]['t']) for f in c}) > 1 and \
            not (ats and _strip(c[0]['params'][0]['t']) == _strip(ats[0])):
        raise Unsupported('constructor of %s for an argument of unknown type' % t)
    return c[0] if c else None


# ---------------------------------------------------------------- maps
def mapv(I, st, obj):
    v = I.val(st, obj)
    if not isinstance(v, MapV):
        raise unsup('map operation on %s' % type(v).__name__, v)
    return v


def map_method(I, e, st, fr, n, obj, args, line):
    if n == 'operator=':
        v = I.val(st, args[0])
        I.store(st, obj, v)
        return obj
    loc = loc_of(I, st, obj)
    m = mapv(I, st, loc)
    if n in ('operator[]', 'at', 'find', 'count', 'contains', 'erase'):
        k0 = I.val(st, args[0])
        if n == 'erase' and isinstance(k0, MapIter):
            k = k0.key
        elif isinstance(k0, Term) and k0.op != 'str' and not isconst(k0) and (m.lazy or k0 in m.e or '$symmap' in I.hooks):
            k = k0
            if m.lazy and k not in m.e:
                e2 = dict(m.e)
                e2[k] = m.lazy(I, st, k)
                I.store(st, loc, MapV(e2, m.vt, m.kt, like=m))
                m = I.val(st, loc)
        elif isinstance(k0, Term) and k0.op != 'str' and not isconst(k0):
            return map_symkey(I, e, st, fr, n, loc, m, k0, line)
        else:
            k = key_of(k0)
        p, val = m.e.get(k, (FALSE, UNDEF))
        p = st.decide(p)
    if n == 'operator[]':
        if p is not TRUE:
            e2 = dict(m.e)
            dv = I.default_value(m.vt, st, fr, True)
            e2[k] = (TRUE, dv if p is FALSE else merge_vals(p, val, dv))
            I.store(st, loc, MapV(e2, m.vt, m.kt, like=m))
        return loc + ('m', k)
    if n == 'at':
        need_throw(I, st, fr, line, p, 'std::out_of_range')
        return loc + ('m', k)
    if n == 'find':
        if p is TRUE:
            return MapIter(loc, k)
        if p is FALSE:
            return MapIter(loc, None)
        return Gate(p, MapIter(loc, k), MapIter(loc, None))
    if n == 'count':
        return tonum(p)
    if n == 'contains':
        return p
    if n == 'erase':
        e2 = dict(m.e)
        e2.pop(k, None)
        I.store(st, loc, MapV(e2, m.vt, m.kt, like=m))
        return tonum(p)
    if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        if n == 'insert' and len(args) == 1:
            pr = I.val(st, args[0])
            if not (isinstance(pr, Struct) and 'first' in pr.f):
                raise Unsupported('map insert')
            k, v = key_of(pr.f['first']), pr.f['second']
        else:
            k = I.val(st, args[0])
            k = k if '$symmap' in I.hooks and isinstance(k, Term) and k.op != 'str' and not isconst(k) else key_of(k)
            if len(args) == 2:
                v = emplace_value(I, m.vt, args[1:], e, st, fr)
            else:
                v = I.load(st, make_object(I, m.vt, args[1:], e, st, fr, arg_types(e, args[1:])))
        m = mapv(I, st, loc)
        p, old = m.e.get(k, (FALSE, UNDEF))
        p = st.decide(p)
        e2 = dict(m.e)
        if n == 'insert_or_assign':
            e2[k] = (TRUE, v)
        else:
            e2[k] = (TRUE, v if p is FALSE else old if p is TRUE else merge_vals(p, old, v))
        I.store(st, loc, MapV(e2, m.vt, m.kt, like=m))
        return Struct('std::pair', {'first': MapIter(loc, k), 'second': not_(p)})
    if n in ('size', 'empty') and m.lazy:
        raise Unsupported('size of an unknown map')
    if n == 'size':
        return add(m.gen[0] if m.gen else ZERO, *[tonum(p) for p, _ in m.e.values()])
    if n == 'empty':
        return eq0(add(m.gen[0] if m.gen else ZERO, *[tonum(p) for p, _ in m.e.values()]))
    if m.gen and not m.e and n in ('begin', 'cbegin'):
        return Opq('giter', (loc, ZERO))
    if (m.gen or m.lazy) and n not in ('end', 'cend', 'reserve', 'clear', 'swap'):
        raise Unsupported('map method ' + n)
    if n in ('begin', 'cbegin'):
        for k, (p, _) in m.e.items():
            if st.decide(p) is TRUE:
                return MapIter(loc, k)
            if st.decide(p) is not FALSE:
                raise Unsupported('begin of conditional map')
        return MapIter(loc, None)
    if n in ('end', 'cend'):
        return MapIter(loc, None)
    if n == 'clear':
        I.store(st, loc, MapV({}, m.vt, m.kt))
        return None
    if n == 'reserve':
        return None
    if n == 'swap':
        w = I.val(st, args[0])
        I.store(st, args[0], m)
        I.store(st, loc, w)
        return None
    raise Unsupported('map method ' + n)


def map_symkey(I, e, st, fr, n, loc, m, k, line):
    """lookup with a symbolic string: gate over the known keys"""
    present = []
    for kk, (p, v) in m.e.items():
        present.append((and_(T.eq(k, string(kk) if isinstance(kk, str) else const(kk)), p), kk, v))
    if n in ('count', 'contains'):
        c = or_(*[p for p, _, _ in present])
        return tonum(c) if n == 'count' else c
    if n == 'find':
        r = MapIter(loc, None)
        for p, kk, _ in reversed(present):
            r = Gate(p, MapIter(loc, kk), r)
        return r
    if n == 'at':
        need_throw(I, st, fr, line, or_(*[p for p, _, _ in present]), 'std::out_of_range')
        r = None
        for p, kk, v in reversed(present):
            r = v if r is None else merge_vals(p, v, r)
        return r
    raise Unsupported('symbolic map key')


def set_method(I, e, st, fr, n, obj, args, line):
    loc = loc_of(I, st, obj)
    v = I.val(st, loc)
    if isinstance(v, MapV):
        if n in ('insert', 'emplace'):
            k = key_of(I.val(st, args[0]))
            p, _ = v.e.get(k, (FALSE, None))
            e2 = dict(v.e)
            e2[k] = (TRUE, TRUE)
            I.store(st, loc, MapV(e2, v.vt, v.kt))
            return Struct('std::pair', {'first': MapIter(loc, k), 'second': not_(p)})
        return map_method(I, e, st, fr, n, obj, args, line)
    s = v.f['v']
    if n in ('size',):
        return s.n
    if n == 'empty':
        return eq0(s.n)
    if n in ('insert', 'emplace', 'count', 'contains', 'find'):
        x = I.num(st, args[0])
        k = index_var('s')
        RANGES[k] = s.n
        have = any_(k, s.n, T.eq(sel(s.d, k), x))
        if n == 'count':
            return tonum(have)
        if n == 'contains':
            return have
        if n == 'find':
            return Opq('setfind', have)
        nn = add(s.n, ite(have, ZERO, ONE))
        I.store(st, loc + 'v', Vec(nn, upd(s.d, [], s.n, x, not_(have)), s.et))
        return Struct('std::pair', {'first': UNDEF, 'second': not_(have)})
    if n in ('begin', 'end', 'cbegin', 'cend'):
        return Ptr(loc + 'v', ZERO if 'begin' in n else s.n)
    if n == 'clear':
        I.store(st, loc + 'v', Vec(ZERO, afill(ZERO), s.et))
        return None
    if n == 'reserve':
        return None
    raise Unsupported('set method ' + n)


# ---------------------------------------------------------------- smart pointers
def ptr_method(I, e, st, fr, n, obj, args, line):
    v = I.val(st, obj)
    uniq = isinstance(v, Struct) and v.cls == 'std::unique_ptr'
    p = v.f['p'] if uniq else v
    if n in ('operator->', 'get'):
        return p
    if n == 'operator*':
        return I.deref(st, p, fr, line)
    if n == 'operator[]':
        return I.deref(st, I.padd(st, p, I.num(st, args[0])), fr, line)
    if n == 'operator bool':
        return I.bool(st, p)
    if n == 'reset':
        new = I.val(st, args[0]) if args else NULL
        if uniq:
            unique_reset(I, st, obj, fr, new)
        else:
            I.store(st, obj, new)
        return None
    if n == 'operator=':
        new = I.val(st, args[0])
        if uniq:
            if isinstance(new, Struct) and new.cls == 'std::unique_ptr':
                unique_reset(I, st, obj, fr, new.f['p'])
                if isinstance(args[0], Loc):
                    I.store(st, args[0], new.with_('p', NULL))
            else:
                unique_reset(I, st, obj, fr, new)
        else:
            I.store(st, obj, new)
            if isinstance(args[0], Loc) and e.get('pt') and e['pt'][0].endswith('&&'):
                moved_from(I, st, args[0], new, 'std::shared_ptr')
        return obj
    if n == 'release' and uniq:
        I.store(st, obj, v.with_('p', NULL))
        return p
    if n == 'swap':
        w = I.val(st, args[0])
        I.store(st, args[0], v)
        I.store(st, obj, w)
        return None
    if n == 'get_deleter':
        return v.f['del']
    raise Unsupported('pointer method ' + n)


def unique_reset(I, st, loc, fr, new):
    v = I.load(st, loc)
    p = v.f['p']
    d = v.f['del']
    I.store(st, loc, v.with_('p', new))
    if isinstance(p, Ptr) and p.base is None:
        return
    if d is UNDEF:
        I.event('delete', st, fr, fr.line if fr else 0, p)
        if '$delete' in I.hooks:
            I.hooks['$delete'](st, fr, fr.line if fr else 0, p)
        return
    c = st.decide(I.bool(st, p))
    if c is FALSE:
        return
    s1 = st.fork(c) if c is not TRUE else st
    try:
        if isinstance(d, Opq) and d.k == 'deltype':
            r = I.p.rec(d.d)
            if r is not None:
                for m in I.p.methods(r['t'], 'operator()'):
                    I.call_fn(m, s1, I.new_cell(s1, I.default_struct(r, s1, fr)), [I.resolve(s1, p) if isinstance(p, Gate) else p], 0, fr)
                    break
            else:
                raise Unsupported('deleter')
        else:
            I.call_value(I.val(s1, d), [I.resolve(s1, p) if isinstance(p, Gate) else p], s1, fr, {'l': fr.line if fr else 0, 'id': None})
    except Dead:
        s1 = None
    if c is not TRUE:
        st.take(merge_states(c, s1, st.fork(not_(c))))


# ---------------------------------------------------------------- iterators
def iter_method(I, e, st, fr, n, obj, args, line):
    v = I.val(st, obj)
    if isinstance(v, Gate) and n in ('operator*', 'operator->', 'operator[]'):
        v = gate_iter(I, st, v, fr, line)
    if isinstance(v, Opq) and v.k == 'giter' and n in ('operator*', 'operator->'):
        g = I.load(st, v.d[0]).gen
        if g is None or v.d[1] is not g[1]:
            raise Unsupported('map iterator at %s' % T.show(v.d[1]))
        return MapIter(v.d[0], g[2])
    if n in ('operator*',):
        return I.deref(st, v, fr, line)
    if n == 'operator->':
        if isinstance(v, Opq) and v.k == 'riter':
            return Ptr(v.d.base, sub(v.d.off, ONE))
        return v
    if n in ('operator++', 'operator--'):
        d = ONE if n == 'operator++' else const(-1)
        if isinstance(v, Ptr) or isinstance(v, (MapIter, Opq, Gate)):
            new = I.padd(st, v, d)
        I.store(st, obj, new)
        return v if args else obj
    if n in ('operator+', 'operator-'):
        x = I.val(st, args[0])
        return I.arith(n[8:], v, x, 'long', st, fr, line)
    if n in ('operator+=', 'operator-='):
        d = I.num(st, args[0])
        I.store(st, obj, I.padd(st, v, d if n == 'operator+=' else neg(d)))
        return obj
    if n == 'operator[]':
        return I.deref(st, I.padd(st, v, I.num(st, args[0])), fr, line)
    if n == 'operator=':
        I.store(st, obj, I.val(st, args[0]))
        return obj
    if n == 'base':
        return v.d if isinstance(v, Opq) else v
    raise Unsupported('iterator ' + n)


def gate_iter(I, st, v, fr, line):
    """a gated map iterator whose end() alternative has been excluded"""
    a, b = v.a, v.b
    if isinstance(a, MapIter) and a.key is None:
        return b if not isinstance(b, Gate) else gate_iter(I, st, b, fr, line)
    if isinstance(b, MapIter) and b.key is None and not isinstance(a, Gate):
        return a
    raise Unsupported('ambiguous iterator')


# ---------------------------------------------------------------- optional
def opt_method(I, e, st, fr, n, obj, args, line):
    v = I.val(st, obj)
    if isinstance(v, Gate):
        v = I.resolve(st, v)
    if not isinstance(v, OptV):
        raise Unsupported('optional')
    if n in ('operator bool', 'has_value', '_M_is_engaged'):
        return v.p
    if n == 'value':
        need_throw(I, st, fr, line, v.p, 'std::bad_optional_access')
        return (obj + 'o') if isinstance(obj, Loc) else I.as_loc(st, v.v)
    if n in ('operator*', '_M_get'):
        return (obj + 'o') if isinstance(obj, Loc) else I.as_loc(st, v.v)
    if n == 'operator->':
        return Ptr(obj + 'o') if isinstance(obj, Loc) else Ptr(I.as_loc(st, v.v))
    if n == 'value_or':
        d = I.val(st, args[0])
        return merge_vals(v.p, v.v, d) if v.v is not None else d
    if n in ('operator=', 'emplace'):
        x = I.val(st, args[0])
        I.store(st, obj, x if isinstance(x, OptV) else OptV(TRUE, x))
        return obj
    if n == 'reset':
        I.store(st, obj, OptV(FALSE, None))
        return None
    raise Unsupported('optional::' + n)


# ---------------------------------------------------------------- streams
def stream_method(I, e, st, fr, n, obj, args, line):
    h = I.hooks.get('$stream')
    if h is not None:
        r = h(I, e, st, fr, n, obj, args)
        if r is not NotImplemented:
            return r
    if n in ('operator<<', 'write', 'operator>>', 'read', 'flush', 'put'):
        return obj
    if n in ('is_open', 'good', 'operator bool'):
        s = I.val(st, obj)
        return s.f['open'] if isinstance(s, Struct) and 'open' in s.f else TRUE
    if n in ('fail', 'bad', 'operator!', 'eof'):
        return bvar('stream_fail%d' % next(V._emptyctr))
    if n == 'str':
        return uf('stream_str', (), 's')
    if n in ('close', 'exceptions', 'clear', 'seekg', 'tellg', 'setf', 'precision', 'width'):
        return obj
    raise Unsupported('stream method ' + n)


# ---------------------------------------------------------------- free functions
def apply_functor(I, d, args, st, fr, e):
    if isinstance(d, str):
        a = [I.val(st, x) for x in args]
        if d in ('multiplies', 'plus', 'minus', 'divides', 'greater', 'less', 'equal_to', 'not_equal_to'):
            op = {'multiplies': '*', 'plus': '+', 'minus': '-', 'divides': '/', 'greater': '>', 'less': '<', 'equal_to': '==',
                  'not_equal_to': '!='}[d]
            t = e.get('t', 'float')
            return I.arith(op, a[0], a[1], t, st, fr, e.get('l', 0))
        if d == 'negate':
            return neg(tonum(a[0]))
        if d in ('logical_or', 'logical_and'):
            x, y = tobool(a[0]), tobool(a[1])
            return or_(x, y) if d == 'logical_or' else and_(x, y)
    if isinstance(d, tuple) and d[0] == 'bind':
        f, bound = d[1], d[2]
        real = []
        for b in bound:
            q = I.val(st, b)
            if isinstance(q, Opq) and q.k == 'ph':
                real.append(args[q.d - 1])
            elif isinstance(q, Opq) and q.k == 'obj' and str(q.d).startswith('std::_Placeholder<'):
                real.append(args[int(str(q.d)[18:-1]) - 1])
            else:
                real.append(b)
        return I.call_value(f, real, st, fr, e)
    raise Unsupported('functor %r' % (d,))


MATH1 = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'fabs': 'abs', 'abs': 'abs', 'floor': 'floor', 'ceil': 'ceil', 'sqrtf': 'sqrt',
         'expf': 'exp', 'logf': 'log', 'fabsf': 'abs', 'tanh': 'tanh', 'tanhf': 'tanh', 'round': 'round', 'lround': 'round',
         'log2': 'log2', 'log10': 'log10', 'log1p': 'log1p', 'erf': 'erf', 'roundf': 'round', 'floorf': 'floor', 'ceilf': 'ceil',
         'labs': 'abs', 'llabs': 'abs', 'sin': 'sin', 'cos': 'cos', 'lrint': 'round', '__builtin_sqrtf': 'sqrt', '__builtin_fabsf': 'abs',
         '__builtin_expf': 'exp', '__builtin_logf': 'log', 'nearbyint': 'round', 'rint': 'round'}


def seq_loop(I, e, st, fr, n, body):
    """for k in 0..n: body(state, k)"""
    if isconst(n) and cval(n) <= 64:
        for i in range(max(0, cval(n))):
            body(st, const(i))
        return
    ctr = I.new_cell(st, ZERO, '$k')

    def b(s):
        from interp import Out
        body(s, I.load(s, ctr))
        return Out(s)
    o = I.loop(e, lambda s: lt(I.load(s, ctr), n), b,
               lambda s: I.store(s, ctr, add(I.load(s, ctr), ONE)), st, fr)
    if o.norm is None:
        raise Dead()
    st.take(o.norm)


def dist(a, b):
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        raise Unsupported('iterator range')
    if a.base != b.base or a.base is None:
        raise Unsupported('range over two sequences')
    return sub(b.off or ZERO, a.off or ZERO)


def at(I, st, p, k, fr, line):
    if isinstance(p, Opq) and p.k == 'riter':
        return p.d.base + ('i', sub(sub(p.d.off, ONE), k))
    if not isinstance(p, Ptr) or p.base is None:
        if isinstance(p, Gate):
            for q, o, c in ((p.a, p.b, not_(p.c)), (p.b, p.a, p.c)):
                if isinstance(o, Ptr) and o.base is None and isinstance(q, Ptr) and q.base is not None:
                    I.event('nullderef', st, fr, line, c)
                    return at(I, st, q, k, fr, line)
        raise unsup('iterator', p)
    return p.base + ('i', add(p.off or ZERO, k))


def put(I, st, out, k, v, fr, line):
    if isinstance(out, Opq) and out.k == 'backins':
        l = out.d
        cur = I.val(st, l)
        if isinstance(cur, Vec):
            I.store(st, l, append(I, cur, v))
        else:
            I.store(st, l, concat(cur, v if isinstance(v, Term) and v.sort == 's' else string('?')))
        return
    I.store(st, at(I, st, out, k, fr, line), v, fr, line)


def rng_len(a, b):
    if isinstance(a, Opq) and a.k == 'riter':
        return dist(b.d, a.d)
    return dist(a, b)


def advance(I, st, out, n):
    if isinstance(out, Opq):
        return out
    return I.padd(st, out, n)


def bulk_ok(I, st, p, n):
    if not isinstance(p, Ptr) or p.base is None or p.off is None:
        return False
    if isconst(n) and cval(n) <= 64:
        return False
    v = I.val(st, p.base)
    return isinstance(v, Vec) and as_array(v) is not None


def free(I, e, st, fr, n, args):
    line = e['l']
    t = e.get('t', '')

    def v(i):
        x = I.val(st, args[i], fr, line)
        return x

    def num(i):
        return I.num(st, args[i], fr, line)
    fnq = e.get('fn', '')
    if n in ('move', 'forward', 'as_const', 'addressof', 'ref', 'cref', 'launder') and len(args) == 1:
        if n == 'addressof':
            return I.addr(st, args[0])
        return args[0]
    if n == 'move' and len(args) == 3:
        n = 'copy'
    h = I.hooks.get('$free')
    if h is not None:
        r = h(I, e, st, fr, n, args)
        if r is not NotImplemented:
            return r
    if n == 'make_shared' or n == 'allocate_shared':
        ta = e.get('ta') or []
        T_ = _targs(e['t'])[0] if '<' in e['t'] else ta[0]
        return Ptr(make_object(I, T_, args, e, st, fr, [a.get('t', '?') for a in e['args']]))
    if n == 'make_unique':
        T_ = _targs(e['t'])[0]
        if T_.endswith('[]'):
            nn = num(0)
            et = T_[:-2].strip()
            I.event('alloc', st, fr, line, (nn, et))
            return Struct('std::unique_ptr', {'p': Ptr(I.new_cell(st, I.fresh_seq(st, fr, nn, et, True), 'unique'), ZERO), 'del': UNDEF})
        return Struct('std::unique_ptr', {'p': Ptr(make_object(I, T_, args, e, st, fr, [a.get('t', '?') for a in e['args']])), 'del': UNDEF})
    if n in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast'):
        return v(0)
    if n == 'make_pair':
        return Struct('std::pair', {'first': v(0), 'second': v(1)})
    if n == 'make_tuple':
        return Struct('std::tuple', {str(i): v(i) for i in range(len(args))})
    if n == 'get' and e.get('ta') and isinstance(v(0), (Struct, Vec)):
        i = int(re.sub(r'[UL]+$', '', e['ta'][0])) if re.match(r'\d', e['ta'][0]) else None
        if i is not None:
            x = v(0)
            l = loc_of(I, st, args[0])
            if isinstance(x, Vec):
                return l + ('i', const(i))
            return l + (list(x.f)[i])
    if n == 'any_cast':
        return any_cast(I, e, st, fr, args)
    if n in MATH1 and len(args) == 1:
        return T.fn(MATH1[n], (num(0),))
    if n in ('pow', 'powf', '__builtin_powf'):
        return T.fn('pow', (num(0), num(1)))
    if n in ('max', 'min', 'fmax', 'fmin', 'fmaxf', 'fminf'):
        if len(args) == 1:
            x = v(0)
            if isinstance(x, Vec) and isinstance(x.d, tuple):
                r = x.d[0]
                for y in x.d[1:]:
                    r = T.fn(n, (r, y))
                return r
            raise Unsupported('max of a list')
        return T.fn(n.lstrip('f').rstrip('f') if n not in ('max', 'min') else n, (num(0), num(1)))
    if n == 'clamp':
        return T.fn('min', (T.fn('max', (num(0), num(1))), num(2)))
    if n in ('fmod', 'fmodf'):
        a, b = num(0), num(1)
        return sub(a, mul(b, trunc(div(a, b))))
    if n in ('isnan', 'isinf'):
        return FALSE
    if n == 'isfinite':
        return TRUE
    if n == 'hypot':
        return T.fn('sqrt', (add(mul(num(0), num(0)), mul(num(1), num(1))),))
    if n == 'swap':
        a, b = v(0), v(1)
        I.store(st, args[0], b, fr, line)
        I.store(st, args[1], a, fr, line)
        return None
    if n == 'exchange':
        a, b = v(0), v(1)
        I.store(st, args[0], b, fr, line)
        return a
    if n == 'to_string':
        x = v(0)
        if isinstance(x, Term) and isconst(x) and isinstance(cval(x), int):
            return string(str(cval(x)))
        return uf('to_string', (tonum(x),), 's')
    if n == 'back_inserter':
        return Opq('backins', args[0])
    if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'data', 'rbegin', 'rend'):
        return seq_method(I, e, st, fr, n, args[0], [], line)
    if n in ('next', 'prev'):
        d = num(1) if len(args) > 1 else ONE
        return I.padd(st, v(0), d if n == 'next' else neg(d))
    if n == 'advance':
        I.store(st, args[0], I.padd(st, v(0), num(1)))
        return None
    if n == 'distance':
        return rng_len(v(0), v(1))
    if n == 'fill_n':
        p, cnt, x = v(0), num(1), v(2)
        if isinstance(x, Term) and bulk_ok(I, st, p, cnt):
            k = index_var('f')
            cnt = max0(cnt)
            RANGES[k] = cnt
            I.bulk(st, p.base, [(k, cnt)], add(p.off, k), tonum(x), fr, line)
        else:
            seq_loop(I, e, st, fr, cnt, lambda s, k: put(I, s, p, k, x, fr, line))
        return advance(I, st, p, cnt)
    if n == 'fill':
        p, q, x = v(0), v(1), v(2)
        cnt = rng_len(p, q)
        if isinstance(x, Term) and bulk_ok(I, st, p, cnt):
            k = index_var('f')
            RANGES[k] = cnt
            I.bulk(st, p.base, [(k, cnt)], add(p.off, k), tonum(x), fr, line)
        else:
            seq_loop(I, e, st, fr, cnt, lambda s, k: put(I, s, p, k, x, fr, line))
        return None
    if n in ('copy_n', 'copy', 'uninitialized_copy', 'memcpy', 'memmove', 'copy_backward', '__builtin_memcpy'):
        if n == 'copy_n':
            p, cnt, q = v(0), num(1), v(2)
        elif n in ('memcpy', 'memmove', '__builtin_memcpy'):
            q, p = v(0), v(1)
            if not isinstance(p, Ptr) or not isinstance(q, Ptr) or p.base is None or q.base is None:
                raise Unsupported('memcpy')
            sv = I.val(st, p.base)
            if not isinstance(sv, Vec):
                raise Unsupported('memcpy')
            es = {'float': 4, 'int': 4, 'unsigned int': 4, 'double': 8, 'unsigned long': 8, 'long': 8, 'char': 1, 'unsigned char': 1}.get(_strip(sv.et))
            if es is None:
                raise Unsupported('memcpy of ' + sv.et)
            cnt = div(num(2), const(es))
            if not cnt.isint:
                cnt = idiv(num(2), const(es))
        else:
            p, q = v(0), v(2)
            cnt = rng_len(v(0), v(1))
            if n == 'copy_backward':
                q = I.padd(st, q, neg(cnt))
        if isinstance(p, Ptr) and p.base is not None and isinstance(q, Ptr) and bulk_ok(I, st, q, cnt) and bulk_ok(I, st, p, cnt):
            k = index_var('c')
            RANGES[k] = cnt
            I.binders.append((k, cnt))
            try:
                x = I.num(st, at(I, st, p, k, fr, line), fr, line)
            finally:
                I.binders.pop()
            et = _strip(I.val(st, q.base).et)
            from interp import INT_T
            if et in INT_T and not x.isint:
                x = trunc(x)
            I.bulk(st, q.base, [(k, cnt)], add(q.off, k), x, fr, line)
        else:
            if isinstance(p, Opq) and p.k in ('striter',):
                raise Unsupported('copy of string')
            seq_loop(I, e, st, fr, cnt, lambda s, k: put(I, s, q, k, I.val(s, at(I, s, p, k, fr, line), fr, line), fr, line))
        return advance(I, st, q, cnt)
    if n in ('memset', '__builtin_memset'):
        q = v(0)
        if not isinstance(q, Ptr) or q.base is None or v(1) is not ZERO:
            raise Unsupported('memset')
        sv = I.val(st, q.base)
        es = {'float': 4, 'int': 4, 'double': 8, 'char': 1, 'unsigned char': 1}.get(_strip(sv.et)) if isinstance(sv, Vec) else None
        if es is None:
            raise Unsupported('memset')
        cnt = div(num(2), const(es))
        k = index_var('f')
        RANGES[k] = cnt
        I.bulk(st, q.base, [(k, cnt)], add(q.off, k), ZERO, fr, line)
        return q
    if n in ('generate_n', 'generate'):
        if n == 'generate_n':
            p, cnt, f = v(0), max0(num(1)), v(2)
        else:
            p, f = v(0), v(2)
            cnt = rng_len(v(0), v(1))
        seq_loop(I, e, st, fr, cnt, lambda s, k: put(I, s, p, k, I.val(s, I.call_value(f, [], s, fr, e)), fr, line))
        return advance(I, st, p, cnt)
    if n == 'iota':
        p, q, x = v(0), v(1), num(2)
        cnt = rng_len(p, q)
        if bulk_ok(I, st, p, cnt):
            k = index_var('f')
            RANGES[k] = cnt
            I.bulk(st, p.base, [(k, cnt)], add(p.off, k), add(x, k), fr, line)
        else:
            seq_loop(I, e, st, fr, cnt, lambda s, k: put(I, s, p, k, add(x, k), fr, line))
        return None
    if n in ('for_each', 'for_each_n'):
        p, q, f = v(0), v(1), v(2)
        if isinstance(q, Term):
            cnt = tonum(q)
        else:
            cnt = rng_len(p, q)
        seq_loop(I, e, st, fr, cnt, lambda s, k: I.call_value(f, [at(I, s, p, k, fr, line)], s, fr, e))
        return f
    if n == 'transform':
        p, q = v(0), v(1)
        if isinstance(p, Opq) and p.k == 'striter':
            o = v(2)
            if isinstance(o, Opq) and o.k == 'striter':
                x = I.val(st, p.d[0])
                I.store(st, o.d[0], uf('strmap', (x,), 's'))
                return o
            if isinstance(o, Opq) and o.k == 'backins':
                I.store(st, o.d, uf('strmap', (I.val(st, p.d[0]),), 's'))
                return o
        cnt = rng_len(p, q)
        if len(args) == 4:
            o, f = v(2), v(3)
            seq_loop(I, e, st, fr, cnt, lambda s, k: put(I, s, o, k, I.val(s, I.call_value(f, [at(I, s, p, k, fr, line)], s, fr, e), fr, line), fr, line))
        else:
            p2, o, f = v(2), v(3), v(4)
            seq_loop(I, e, st, fr, cnt, lambda s, k: put(I, s, o, k, I.val(s, I.call_value(
                f, [at(I, s, p, k, fr, line), at(I, s, p2, k, fr, line)], s, fr, e), fr, line), fr, line))
        return advance(I, st, o, cnt)
    if n in ('accumulate', 'reduce'):
        p, q = v(0), v(1)
        cnt = rng_len(p, q)
        acc = I.new_cell(st, v(2), '$acc')
        f = v(3) if len(args) > 3 else None
        isint = t in ('int', 'unsigned long', 'long', 'unsigned int', 'long long', 'unsigned long long')

        def body(s, k):
            x = I.val(s, at(I, s, p, k, fr, line), fr, line)
            a = I.val(s, acc)
            r = I.arith('+', a, x, t, s, fr, line) if f is None else I.val(s, I.call_value(f, [a, x], s, fr, e))
            if isint and isinstance(r, Term) and r.sort == 'n':
                r = trunc(r)
                if t == 'int' and not isconst(r) and not isconst(a):
                    I.event('imul', s, fr, line, (a, x))
            I.store(s, acc, r)
        seq_loop(I, e, st, fr, cnt, body)
        return I.val(st, acc)
    if n in ('inner_product', 'transform_reduce') and len(args) == 4:
        p, q, p2 = v(0), v(1), v(2)
        acc = I.new_cell(st, v(3), '$acc')

        def body(s, k):
            x, y = I.num(s, at(I, s, p, k, fr, line), fr, line), I.num(s, at(I, s, p2, k, fr, line), fr, line)
            I.store(s, acc, add(I.num(s, acc), mul(x, y)))
        seq_loop(I, e, st, fr, rng_len(p, q), body)
        return I.val(st, acc)
    if n in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'count', 'find', 'max_element', 'min_element', 'find_if_not'):
        p, q = v(0), v(1)
        cnt = rng_len(p, q)
        small = isconst(cnt) and cval(cnt) <= 64

        def pred(s, k):
            x = at(I, s, p, k, fr, line)
            if n in ('count', 'find'):
                return T.eq(I.term(s, x, fr, line), I.term(s, args[2]))
            return I.bool(s, I.call_value(I.val(s, args[2]), [x], s, fr, e))
        if n in ('max_element', 'min_element'):
            if len(args) > 2:
                raise Unsupported('max_element with comparator')
            k = index_var('m')
            RANGES[k] = cnt
            I.binders.append((k, cnt))
            x = I.num(st, at(I, st, p, k, fr, line), fr, line)
            I.binders.pop()
            return I.padd(st, p, T.argmax(k, cnt, x, 'argmax' if n == 'max_element' else 'argmin'))
        if small:
            cs = [pred(st, const(i)) for i in range(cval(cnt))]
            if n == 'any_of':
                return or_(*cs)
            if n == 'none_of':
                return not_(or_(*cs))
            if n == 'all_of':
                return and_(*cs)
            if n in ('count_if', 'count'):
                return add(ZERO, *[tonum(c) for c in cs])
            r = cnt
            for i in reversed(range(cval(cnt))):
                r = ite(cs[i] if n != 'find_if_not' else not_(cs[i]), const(i), r)
            return I.padd(st, p, r)
        k = index_var('m')
        RANGES[k] = cnt
        I.binders.append((k, cnt))
        s2 = st.copy()
        c = pred(s2, k)
        I.binders.pop()
        if n == 'any_of':
            return any_(k, cnt, c)
        if n == 'none_of':
            return not_(any_(k, cnt, c))
        if n == 'all_of':
            return not_(any_(k, cnt, not_(c)))
        if n in ('count_if', 'count'):
            return sum_(k, cnt, tonum(c))
        return I.padd(st, p, T.first(k, cnt, c if n != 'find_if_not' else not_(c)))
    if n == 'equal':
        p, q, p2 = v(0), v(1), v(2)
        cnt = rng_len(p, q)
        k = index_var('m')
        RANGES[k] = cnt
        if isconst(cnt) and cval(cnt) <= 64:
            r = and_(*[T.eq(I.term(st, at(I, st, p, const(i), fr, line)), I.term(st, at(I, st, p2, const(i), fr, line))) for i in range(cval(cnt))])
        else:
            r = not_(any_(k, cnt, not_(T.eq(I.num(st, at(I, st, p, k, fr, line)), I.num(st, at(I, st, p2, k, fr, line))))))
        if len(args) == 4 and isinstance(v(3), Ptr):
            r = and_(r, T.eq(cnt, rng_len(p2, v(3))))
        return r
    if n == 'is_permutation':
        p, q, p2 = v(0), v(1), v(2)
        cnt = rng_len(p, q)
        same = T.eq(cnt, rng_len(p2, v(3))) if len(args) == 4 else TRUE
        if same is FALSE:
            return FALSE
        if isconst(cnt) and cval(cnt) <= 5 and same is TRUE or len(args) == 3:
            m = int(cval(cnt))
            xs = [I.term(st, at(I, st, p, const(i), fr, line)) for i in range(m)]
            ys = [I.term(st, at(I, st, p2, const(i), fr, line)) for i in range(m)]
            import itertools
            return or_(*[and_(*[T.eq(a, b) for a, b in zip(xs, z)]) for z in itertools.permutations(ys)])
        raise Unsupported('is_permutation')
    if n == 'reverse':
        p, q = v(0), v(1)
        cnt = rng_len(p, q)
        if isconst(cnt):
            m = cval(cnt)
            xs = [I.val(st, at(I, st, p, const(i), fr, line)) for i in range(m)]
            for i in range(m):
                I.store(st, at(I, st, p, const(i), fr, line), xs[m - 1 - i], fr, line)
            return None
        raise Unsupported('reverse')
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        r = compare(I, st, n[8:], v(0), v(1), fr, line)
        return r
    if n == 'operator+':
        a, b = v(0), v(1)
        if isinstance(a, Term) and isinstance(b, Term):
            if 's' in (a.sort, b.sort):
                f = lambda x: x if x.sort == 's' else uf('chr', (x,), 's')
                return concat(f(a), f(b))
        return I.arith('+', a, b, 'long', st, fr, line)
    if n == 'operator-':
        return I.arith('-', v(0), v(1), 'long', st, fr, line)
    if n in ('operator<<', 'operator>>'):
        h = I.hooks.get('$stream')
        if h is not None:
            r = h(I, e, st, fr, n, args[0], args[1:])
            if r is not NotImplemented:
                return r
        return args[0]
    if n in ('endl', 'flush', 'ends'):
        return args[0]
    if n in ('operator|', 'operator&'):
        return I.arith(n[8:], v(0), v(1), 'int', st, fr, line)
    if n == 'bind':
        return Opq('functor', ('bind', v(0), tuple(args[1:])))
    if n in ('omp_get_thread_num', 'omp_get_max_threads', 'omp_get_num_threads', 'omp_get_num_procs'):
        return var('omp:' + n, True, 0 if 'thread_num' in n else 1)
    if n in ('omp_set_num_threads', 'printf', 'fprintf', 'puts', 'srand', '__builtin_expect', '__builtin_unreachable'):
        if n == '__builtin_expect':
            return v(0)
        return ZERO
    if n in ('abort', 'exit', 'terminate', '_exit', '__assert_fail'):
        I.event('abort', st, fr, line, n)
        raise Dead()
    if n in ('isdigit', 'tolower', 'toupper', 'isalpha'):
        return uf(n, (num(0),), 'n', True)
    if n == 'malloc':
        nn = num(0)
        return alloc(I, e, st, fr, nn, line)
    if n in ('free',):
        I.event('free', st, fr, line, v(0))
        return None
    if n == 'make_index_sequence':
        return Opq('obj', 'seq')
    raise Unsupported('call ' + (fnq or n))


def alloc(I, e, st, fr, nn, line):
    raise Unsupported('malloc')


def compare(I, st, op, a, b, fr, line):
    if isinstance(a, Vec) and isinstance(b, Vec) and op in ('==', '!='):
        if isconst(a.n) and isconst(b.n) and cval(a.n) != cval(b.n):
            r = FALSE
        elif isinstance(a.d, tuple) and isinstance(b.d, tuple):
            r = and_(*[compare(I, st, '==', x, y, fr, line) for x, y in zip(a.d, b.d)])
        else:
            x, y = as_array(a), as_array(b)
            if x is None or y is None:
                raise Unsupported('comparison of object sequences')
            k = index_var('q')
            RANGES[k] = a.n
            r = and_(T.eq(a.n, b.n), not_(any_(k, a.n, not_(T.eq(sel(x, k), sel(y, k))))))
        return r if op == '==' else not_(r)
    if isinstance(a, Gate) and isinstance(a.a, (Vec, Struct)):
        return ite(a.c, compare(I, st, op, a.a, b, fr, line), compare(I, st, op, a.b, b, fr, line))
    if isinstance(b, Gate) and isinstance(b.a, (Vec, Struct)):
        return ite(b.c, compare(I, st, op, a, b.a, fr, line), compare(I, st, op, a, b.b, fr, line))
    if isinstance(a, Struct) and isinstance(b, Struct) and op in ('==', '!='):
        if a.cls == 'std::unique_ptr':
            return compare(I, st, op, a.f['p'], b.f['p'], fr, line)
        r = and_(*[compare(I, st, '==', a.f[k], b.f[k], fr, line) for k in a.f])
        return r if op == '==' else not_(r)
    if isinstance(a, Struct) and a.cls == 'std::unique_ptr':
        return compare(I, st, op, a.f['p'], b, fr, line)
    if isinstance(a, OptV) and isinstance(b, Opq):
        return not_(a.p) if op == '==' else a.p
    return I.arith(op, a, b, 'bool', st, fr, line)


ANYT = {'std::string': 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'}


def any_cast(I, e, st, fr, args):
    line = e['l']
    x = I.val(st, args[0])
    want = _strip((e.get('ta') or ['?'])[0])
    if isinstance(x, Ptr):       # any_cast<T>(any*)
        loc = x.base
        a = I.load(st, loc)
        if isinstance(a, Gate):
            a = I.resolve(st, a)
        if isinstance(a, Gate):
            raise Unsupported('any of undetermined type')
        if isinstance(a, Opq) and '$any' in I.hooks:
            return I.hooks['$any'](I, st, a, want)
        if not isinstance(a, AnyV):
            raise Unsupported('any_cast')
        if a.t is not None and _strip(a.t) == want:
            return Ptr(loc + 'any')
        return NULL
    if isinstance(x, Gate):
        raise Unsupported('any of undetermined type')
    if isinstance(x, AnyV):
        if x.t is None or _strip(x.t) != want:
            I.throw(st, fr, line, 'std::bad_any_cast')
        return x.v
    raise Unsupported('any_cast')


def extern_member(I, e, st, fr, loc):
    """members of external structs (libjpeg, libpng, std::pair...): None = ordinary field"""
    v = None
    try:
        v = I.load(st, Loc(loc.cell, loc.path[:-1]))
    except (Unsupported, KeyError):
        return None
    h = I.hooks.get('$member')
    if h is not None:
        return h(I, e, st, fr, loc, v)
    return None


def enc(I, st, f):
    if isinstance(f, Term):
        return f
    r = I.encode_ptr(st, f)
    if r is None:
        raise Unsupported('pointer sequence')
    return r


def enc_vec(I, st, v):
    if isinstance(v.d, tuple):
        return Vec(v.n, tuple(enc(I, st, x) for x in v.d), v.et)
    return v


def setjmp_stmt(I, s, st, fr):
    h = I.hooks.get('$setjmp')
    if h is None:
        return None
    return h(I, s, st, fr)


def range_items(I, v, loc, st, fr):
    if isinstance(v, Struct) and v.cls == 'std::set':
        return None
    h = I.hooks.get('$range')
    if h is not None:
        return h(I, v, loc, st, fr)
    return None
