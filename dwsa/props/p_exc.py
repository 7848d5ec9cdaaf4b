"""C37: failed checks surface as the library's exception with a message."""
import re
from layers import *
import prog as PROG

EX = 'deepworks::utils::DeepWorksException'
R37 = ('the exception class is summarised (message = location and streamed parts, storage owned by the exception object); every check site of the program is '
       'located in the type-checked tree and must throw it with its condition, file, function and line; call-graph analysis: no handler, noexcept function, '
       'destructor or parallel region swallows or traps such an exception')


class Streams:
    """string streams as terms"""

    def __init__(self, d):
        self.d = d
        d.I.hooks['$stream'] = self.stream
        d.I.hooks['$strdata'] = self.strdata

    def key(self, I, st, obj):
        l = obj if isinstance(obj, Loc) else I.as_loc(st, obj)
        return ('sbuf', l.cell, l.path)

    def show(self, I, st, x, fr, line):
        v = I.val(st, x, fr, line)
        if isinstance(v, Term):
            return v if v.sort == 's' else uf('fmt', (tonum(v),), 's')
        if isinstance(v, FnRef):
            return string('\n')
        if isinstance(v, Opq) or callable(v):
            return string('')
        if isinstance(v, Vec):
            return uf('fmtvec', (v.n,), 's')
        raise unsup('streamed value', v)

    def stream(self, I, e, st, fr, n, obj, args):
        if n == 'operator<<':
            k = self.key(I, st, obj)
            a = self.show(I, st, args[0], fr, e['l'])
            st.store[k] = uf('cat', (st.store.get(k, string('')), a), 's')
            return obj
        if n == 'str':
            k = self.key(I, st, obj)
            if args:
                st.store[k] = I.term(st, args[0])
                return None
            return st.store.get(k, string(''))
        return NotImplemented

    def strdata(self, I, e, st, fr, obj, args):
        s = I.val(st, obj)
        if e.get('n') in ('c_str', 'data'):
            if isinstance(obj, Loc):
                own = st.store.get('owned', frozenset())
                return Ptr(obj)
            return Ptr(I.new_cell(st, s, 'temporary string'))
        return s


def flat(t):
    if t.op == 'uf' and t.args[0] == 'cat':
        return flat(t.args[1][0]) + flat(t.args[1][1])
    return [] if t.op == 'str' and t.args[0] == '' else [t]


def reach(d, v, seen):
    """cells reachable from a value"""
    if isinstance(v, Struct):
        for x in v.f.values():
            reach(d, x, seen)
    elif isinstance(v, Ptr) and v.base is not None:
        if v.base.cell not in seen:
            seen.add(v.base.cell)
            reach(d, d.st.store[v.base.cell], seen)
    elif isinstance(v, Gate):
        reach(d, v.a, seen)
        reach(d, v.b, seen)
    return seen


def semantics(ctx):
    w0 = ctx.where(EX + '::what')
    with ctx.section('exception object', w0):
        d = ctx.drv()
        d.st.assume(TRUE)
        d.I.fast_exc = False
        Streams(d)
        I = d.I

        def make(s, n=2):
            line, fl, fnm = var('line' + s, True, 1), svar('file' + s), svar('func' + s)
            x = d.new(EX, [line, d.cell(fl), d.cell(fnm)], n=3)
            parts = [svar('cond%d%s' % (i, s)) for i in range(n)]
            for p in parts:
                x = put(x, p)
            return x, [fl, fnm, uf('fmt', (line,), 's')], parts

        def put(x, p):
            f = next((f for f in d.p.byname.get(EX + '::operator<<', []) if 'basic_string' in f['params'][0]['t']), None) \
                or d.fn(EX + '::operator<<')
            r = I.call_fn(f, d.st, x, [d.cell(p)], 0, d.fr)
            # what is thrown is (a copy of) what the stream expression yields
            if isinstance(r, Ptr):
                r = r.base
            if isinstance(r, Struct):
                return Loc(I.new_cell(d.st, r, 'exception'))
            if not isinstance(r, Loc):
                raise unsup('result of operator<<', r)
            return r

        def what(x):
            return I.val(d.st, d.call(EX + '::what', [], x))

        def text(p):
            v = d.st.store[p.base.cell]
            return I.term(d.st, I.load(d.st, p.base))

        def check(nm, x, p, loc, parts):
            if not isinstance(p, Ptr) or p.base is None:
                raise unsup('what()', p)
            own = reach(d, I.load(d.st, x), {x.cell})
            ctx.rule(nm + ': the message is stored in the exception object', p.base.cell in own, w0,
                     'what() returns a pointer to %s' % I.cellinfo.get(p.base.cell, 'other storage'))
            t = flat(text(p))
            for q, k in zip(loc, ('file', 'function', 'line')):
                ctx.rule('%s: the message names the %s' % (nm, k), any(y is q for y in t), w0, 'message parts: %s' % ', '.join(map(T.show, t))[:300])
            pos = [next((i for i, y in enumerate(t) if y is q), None) for q in parts]
            ctx.rule(nm + ': the message carries every streamed part in order', None not in pos and pos == sorted(pos), w0,
                     'message parts: %s' % ', '.join(map(T.show, t))[:300])
            return t
        x, loc, parts = make('A')
        p = what(x)
        t1 = check('first call', x, p, loc, parts)
        y, loc2, parts2 = make('B', 1)
        q = what(y)
        check('second exception', y, q, loc2, parts2)
        ctx.rule('another exception leaves the message alone', flat(text(p)) == t1, w0, 'the message changed')
        p2 = what(x)
        t2 = check('second call', x, p2, loc, parts)
        ctx.rule('the message of the second call is the same', t1 == t2, w0, 'the message changed')
        # the thrown object is a copy
        c = d.copy(x, EX)
        p3 = what(c)
        check('copy', c, p3, loc, parts)
        z, loc3, parts3 = make('C', 0)
        check('nothing streamed', z, what(z), loc3, parts3)


def inactive_lines(lines):
    """lines in preprocessor branches that the analysed configuration leaves out"""
    defs = {'HAVE_JPEG': True, 'HAVE_PNG': True, '_OPENMP': True, 'NDEBUG': True}
    out = set()
    stack = []
    for i, l in enumerate(lines, 1):
        m = re.match(r'\s*#\s*(ifdef|ifndef|if|elif|else|endif)\b\s*(.*)', l)
        if m:
            k, a = m.group(1), m.group(2).split('//')[0].strip()
            if k in ('ifdef', 'ifndef'):
                v = defs.get(a)
                stack.append(v if k == 'ifdef' or v is None else not v)
            elif k == 'if':
                mm = re.match(r'(!?)\s*defined\s*\(?\s*(\w+)\s*\)?$', a)
                v = defs.get(mm.group(2)) if mm else None
                stack.append(None if v is None else (not v if mm.group(1) else v))
            elif k in ('elif', 'else') and stack:
                stack[-1] = None if stack[-1] is None or k == 'elif' else not stack[-1]
            elif k == 'endif' and stack:
                stack.pop()
        if any(v is False or v is None for v in stack):
            # undecided branches are skipped, too (include guards aside)
            if any(v is False for v in stack) or sum(v is None for v in stack) > 1:
                out.add(i)
    return out


def decomment(text):
    def f(m):
        s = m.group(0)
        return s if s[0] in '"\'' else re.sub(r'[^\n]', ' ', s)
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'', f, text, flags=re.S)


def arg_of(text, i):
    """balanced argument starting after '(' at i"""
    depth, j = 1, i + 1
    while j < len(text) and depth:
        c = text[j]
        if c in '"\'':
            k = j + 1
            while k < len(text) and text[k] != c:
                k += 2 if text[k] == '\\' else 1
            j = k
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
        j += 1
    return text[i + 1:j - 1], j


def walk(x, f, path=()):
    if isinstance(x, dict):
        if 'k' in x:
            f(x, path)
            path = path + (x,)
        for v in x.values():
            if isinstance(v, (dict, list)):
                walk(v, f, path)
    elif isinstance(x, list):
        for v in x:
            walk(v, f, path)


class Graph:
    def __init__(self, p, open_=False):
        self.p = p
        self.open = open_        # implementations outside the library may fail as well
        self.over = {}
        for r in p.recs.values():
            for m in r['m']:
                for o in m.get('over') or []:
                    self.over.setdefault(o, []).append(m['id'])
        self.may = {}           # fn id -> witness
        self.compute()

    def is_ex(self, t):
        t = IN.strip_t(t or '')
        return t == EX or EX in self.p.bases(t)

    def callees(self, x):
        i = x.get('id')
        if i is None:
            return []
        out = [i]
        if x.get('virt') and not x.get('nonvirt'):
            n = 0
            while n < len(out):
                out += [y for y in self.over.get(out[n], []) if y not in out]
                n += 1
        return out

    def catches(self, h):
        if h.get('all'):
            return True
        t = IN.strip_t(h.get('ct', ''))
        return t in (EX, 'std::exception') or t in self.p.bases(EX)

    def throws_in(self, node, direct=False):
        """witness of a library exception that may leave this node (direct: not through a call)"""
        if isinstance(node, list):
            for v in node:
                w = self.throws_in(v, direct)
                if w:
                    return w
            return None
        if not isinstance(node, dict):
            return None
        k = node.get('k')
        if k == 'lambda':
            # assumed to be run where it is written
            pass
        if k == 'throw':
            if 'e' in node and self.is_ex(node.get('tt')):
                return ('throw', node['l'])
        if k == 'try' and any(self.catches(h) for h in node['h']):
            for h in node['h']:
                w = self.throws_in(h['s'], direct)
                if w:
                    return w
                if self.catches(h) and self.has_rethrow(h['s']):
                    w = self.throws_in(node['s'], direct)
                    if w:
                        return w
            return None
        if k in ('call', 'ctor', 'inhctor') and not direct:
            for i in self.callees(node):
                if i in self.may:
                    return ('call of ' + self.p.fns[i]['fn'], node['l'])
            if self.open and node.get('virt') and node.get('id') and node.get('id') not in self.p.fns and node.get('cls', '').startswith('deepworks'):
                return ('an implementation of %s::%s' % (node.get('cls'), node.get('n')), node['l'])
        for v in node.values():
            if isinstance(v, (dict, list)):
                w = self.throws_in(v, direct)
                if w:
                    return w
        return None

    def has_rethrow(self, node):
        hit = []
        walk(node, lambda x, p: hit.append(x) if x['k'] == 'throw' and 'e' not in x or x.get('n') == 'rethrow_exception' else None)
        return bool(hit)

    def compute(self):
        while True:
            n = len(self.may)
            for i, f in self.p.fns.items():
                if i in self.may:
                    continue
                w = self.throws_in(f['body']) or self.throws_in(f.get('inits') or [])
                if w:
                    self.may[i] = w
            if len(self.may) == n:
                return

    def always_throws(self, s, lambdas=()):
        """no normal end; None = cannot tell"""
        if s is None:
            return False
        k = s['k']
        if k == 'block':
            r = False
            for x in s['s']:
                if x is None:
                    continue
                q = self.always_throws(x)
                if q:
                    return True
                if q is None:
                    r = None
                if x['k'] in ('return', 'break', 'continue', 'goto'):
                    return False
                if self.leaves(x):
                    return None if self.has_throw(x) else False
            return r
        if k == 'expr':
            e = s['e']
            if e.get('k') == 'throw':
                return True
            if e.get('k') == 'call' and (e.get('nr') or e.get('n') in ('rethrow_exception', 'abort', 'exit', 'terminate', 'longjmp')):
                return True
            if e.get('k') == 'call':
                f = self.p.fns.get(e.get('id'))
                if f is not None and f['id'] in self.may:
                    q = self.always_throws(f['body'])
                    return q
            return False
        if k == 'if':
            a, b = self.always_throws(s['a']), self.always_throws(s.get('b'))
            if a and b:
                return True
            return None if (a or a is None) and (b or b is None) else False
        if k == 'try':
            return None
        if k in ('for', 'while', 'do', 'rfor', 'switch', 'omp'):
            return None if self.has_throw(s) else False
        return False

    def leaves(self, s):
        hit = []
        walk(s, lambda x, p: hit.append(x) if x['k'] == 'return' and not any(y['k'] == 'lambda' for y in p) else None)
        return bool(hit)

    def has_throw(self, s):
        hit = []
        walk(s, lambda x, p: hit.append(x) if x['k'] == 'throw' or x.get('n') in ('rethrow_exception', 'current_exception', 'throw_with_nested') else None)
        return bool(hit)


def sites(ctx, g):
    """every textual check is compiled to a guarded throw of the exception"""
    p = ctx.p
    byfile = {}
    for f in p.fns.values():
        byfile.setdefault(f['file'], []).append(f)
    import glob
    files = [x for pat in ('/src/**/*.cpp', '/src/**/*.hpp', '/include/**/*.hpp', '/src/**/*.h', '/include/**/*.h')
             for x in glob.glob(PROG.REPO + pat, recursive=True)]
    nsite = 0
    for path in sorted(files):
        raw = open(path, errors='replace').read()
        text = decomment(raw)
        lines = text.split('\n')
        skip = inactive_lines(lines)
        fns = byfile.get(path, [])
        at_line = {}
        ifs = {}
        for f in fns:
            def see(x, pth, f=f):
                if x['k'] == 'throw' and 'e' in x:
                    at_line.setdefault(x['l'], []).append((x, f, pth))
            walk(f['body'], see)
            walk(f.get('inits') or [], see)
        rel = path.replace(PROG.REPO + '/', '')
        for m in re.finditer(r'\bDeepWorks_(Assert|Throw)\s*\(', text):
            ln = text.count('\n', 0, m.start()) + 1
            if lines[ln - 1].lstrip().startswith('#') or ln in skip or (ln > 1 and lines[ln - 2].rstrip().endswith('\\')):
                continue
            arg, end = arg_of(text, m.end() - 1)
            last = text.count('\n', 0, end) + 1
            cover = [f for f in fns if f['l'] <= ln <= f.get('el', f['l'])]
            if not cover:
                continue
            nsite += 1
            w = '%s:%d %s' % (rel, ln, cover[0]['fn'])
            nm = '%s: check %d' % (rel, nsite)
            hits = [h for l in range(ln, last + 1) for h in at_line.get(l, [])]
            if not hits:
                # a macro may delegate to a helper that throws
                calls = []
                for f in cover:
                    walk(f['body'], lambda x, pth: calls.append(x) if x['k'] == 'call' and ln <= x['l'] <= last and any(i in g.may for i in g.callees(x)) else None)
                ctx.rule('the check is compiled to a throw', bool(calls) or False, w,
                         'no throw of the exception in the compiled form of the check at %s:%d' % (rel, ln))
                continue
            for x, f, pth in hits[:1]:
                ctx.rule('the check throws the library exception', g.is_ex(x.get('tt')), w, 'throws %s' % x.get('tt'))
                strs, nums = [], []
                walk(x['e'], lambda y, q: strs.append(y['v']) if y['k'] == 'str' else nums.append(y['v']) if y['k'] == 'num' else None)
                ctor = []
                walk(x['e'], lambda y, q: ctor.append(y) if y['k'] == 'ctor' and y.get('cls') == EX and y.get('ck') not in ('copy', 'move') else None)
                if not ctor:
                    continue
                short = path.split('/')[-1]
                ctx.rule('the message names file, function and line', any(s.endswith(short) for s in strs) and
                         ('__func__' in strs or f['n'] in strs or any(f['n'] in s for s in strs)) and
                         any(str(l) in nums for l in range(ln, last + 1)), w, 'location missing: strings %s numbers %s' % (strs[:6], nums[:6]))
                if m.group(1) == 'Assert':
                    want = re.sub(r'\s', '', raw[m.end():m.end() + len(arg)]).replace('\\', '')
                    ok = any(re.sub(r'\s', '', s).replace('\\', '') in want and len(re.sub(r'\s', '', s)) > 0 and
                             len(re.sub(r'\s', '', s)) >= 0.6 * len(want) for s in strs)
                    ctx.rule('the message carries the condition', ok, w, 'condition %s not among %s' % (want[:80], [s[:60] for s in strs]))
                    ctx.rule('the check is guarded by its condition', any(y['k'] in ('if', 'cond', 'bin') and ln <= y['l'] <= last for y in pth), w,
                             'the throw is not conditional')
    return nsite


@prop('C37', R37)
def c37(ctx):
    semantics(ctx)
    with ctx.section('check sites'):
        g = Graph(ctx.p)
        go = Graph(ctx.p, True)
        n = sites(ctx, g)
        ctx.notes.append('%d check sites' % n)
        ctx.rule('there are check sites', n > 50 or None, 'src', '%d sites' % n)
        for i in g.may:
            ctx.fns.add(i) if hasattr(ctx, 'fns') else None
        # handlers
        nh = 0
        for f in ctx.p.fns.values():
            def see(x, pth, f=f):
                nonlocal nh
                w = '%s:%d %s' % (f['file'].replace(PROG.REPO + '/', ''), x['l'], f['fn'])
                if x['k'] == 'try':
                    body = go.throws_in(x['s'])
                    for h in x['h']:
                        if not g.catches(h):
                            continue
                        nh += 1
                        if not body:
                            ctx.ok('handler of a block that no check can leave', 'call graph', w)
                            break
                        q = g.always_throws(h['s'])
                        if q is None or not q and g.has_throw(h['s']) and not g.has_rethrow(h['s']) and 'current_exception' in str(h['s']):
                            q = None
                        ctx.rule('a handler passes the exception on', q, w, 'the handler at line %d may end normally: the exception of %s is swallowed' %
                                 (h['l'], body[0]))
                        break
                elif x['k'] == 'omp':
                    t = g.throws_in(x, True)
                    u = g.throws_in(x)
                    # a call that could throw for some arguments: whether it does for these is not decided here
                    ctx.rule('no check fails inside a parallel region', False if t else None if u else True, w, 'an exception (%s) cannot leave the parallel region: the process is ended' %
                             (t[0] if t else ''))
            walk(f['body'], see)
            if f['id'].rstrip().endswith('noexcept') or f['kind'] == 'dtor' and 'noexcept(false)' not in f['id']:
                t = g.throws_in(f['body'], True)
                u = g.may.get(f['id'])
                ctx.rule('no check fails in a function that cannot throw', False if t else None if u else True, '%s:%d %s' % (f['file'].replace(PROG.REPO + '/', ''), f['l'], f['fn']),
                         'an exception (%s) leaves a noexcept function: the process is ended' % (t[0] if t else ''))
        ctx.notes.append('%d handlers, %d functions may throw' % (nh, len(g.may)))
