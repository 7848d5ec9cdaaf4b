"""directs random interpretation at conditions that the ordinary samples leave one-sided"""
import math, itertools
import terms as T
from terms import RANGES
from evalt import Sampler, Ev, EvalLimit

ATOMS = ('ge0', 'gt0', 'eq0', 'any', 'imod')
STEPS = (8, 9, 16, 17, 24, 25, 32, 33, 48, 64, 65, 100, 101, 128, 129, 255, 256, 257, 512, 513, 1000, 1024, 1025, 2048, 2049, 4096, 4097)

WRAPS = {'wrap8': (0, 255), 'wrap16': (0, 65535), 'swrap8': (-128, 127), 'swrap16': (-32768, 32767)}

BIND = {}


def rng(x):
    return RANGES[x] if x in RANGES else BIND.get(x)


def walk(t, seen, f):
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        f(x)
        if x.op == 'bv':
            n = rng(x)
            if n is not None:
                st.append(n)
        q = [x.args]
        while q:
            b = q.pop()
            for i, a in enumerate(b):
                if isinstance(a, T.Term):
                    st.append(a)
                    if a.op == 'bv' and a not in RANGES and i + 1 < len(b) and isinstance(b[i + 1], T.Term) and b[i + 1].sort == 'n':
                        BIND.setdefault(a, b[i + 1])
                elif isinstance(a, tuple):
                    q.append(a)


def atoms(*ts):
    out, seen = [], set()

    def f(x):
        if x.op in ATOMS or x.op == 'fn' and (x.args[0] in ('max', 'min') and len(x.args[1]) == 2 or x.args[0] in WRAPS):
            out.append(x)
    for t in ts:
        if isinstance(t, T.Term):
            walk(t, seen, f)
    return out


def pred(a):
    if a.op == 'imod':
        # the remainder is the number itself
        return T.lt(a.args[0], a.args[1])
    if a.op != 'fn':
        return a
    if a.args[0] in WRAPS:
        lo, hi = WRAPS[a.args[0]]
        x = a.args[1][0]
        return T.and_(T.ge(x, T.const(lo)), T.ge(T.const(hi), x))
    return T.ge(a.args[1][0], a.args[1][1])


def values_of(name, *ts):
    """values of the integer input `name` around the constants it is compared with"""
    r = set()
    for a in atoms(*ts):
        if a.op == 'fn' and a.args[0] in WRAPS:
            r.add(2 * WRAPS[a.args[0]][1])
            continue
        vs, _, cs = leaves(a)
        if any(v.args[0] == name for v in vs):
            r |= {int(c) + d for c in cs if 5 < c <= 130 for d in (0, 1)}
    return sorted(r)[-2:]


def leaves(t):
    vs, arrs, cs = [], [], set()

    def f(x):
        if x.op == 'var' and x.sort == 'n':
            vs.append(x)
        elif x.op == 'avar' and not x.args[2]:
            arrs.append(x)
        elif x.op == 'const':
            cs.add(x.args[0])
        elif x.op == 'poly':
            for c, m in x.args:
                cs.add(c)
    walk(t, set(), f)
    return vs, arrs, [abs(float(c)) for c in cs if not isinstance(c, bool)]


def bound(t):
    out, todo = [], list(t.fv)
    while todo:
        x = todo.pop()
        if x not in out:
            out.append(x)
            if rng(x) is not None:
                todo += list(rng(x).fv)
    return out


SPENT = [0]
BUDGET = 700000


def truth(a, s):
    """truth values the condition takes for extreme values of the loop indices"""
    bs = bound(a)
    if len(bs) > 3:
        return set()
    r = set()
    e = Ev(s)
    e.max = 60000

    def rec(todo):
        if not todo:
            try:
                r.add(bool(e(a)))
            except (EvalLimit, Exception):
                pass
            return
        # innermost range last: its bound may mention the others
        x = todo[0]
        n = rng(x)
        try:
            m = e(n) if n is not None else 1
        except Exception:
            return
        if not isinstance(m, int) or m <= 0:
            return
        for v in sorted({0, m // 2, m - 1}):
            d, sv = e.enter([(x, v)])
            try:
                rec(todo[1:])
            finally:
                e.leave(d, sv)
    bs.sort(key=lambda x: len(rng(x).fv) if rng(x) is not None else 0)
    rec(bs)
    SPENT[0] += e.steps
    return r


def domain(arrgens, name, cs=()):
    """values the elements of an input may take (None: not to be chosen)"""
    for g in arrgens or ():
        pat = g[0]
        if name.split('~')[0] == pat or pat.endswith('*') and name.startswith(pat[:-1]):
            return g[2] if len(g) > 2 else None
    w = wide(cs)
    return (-w, w)


def wide(cs):
    return max([60.0] + [2 * c for c in cs if c < 1e12])


def reals(cs):
    cr = [0.0, 1e-6, 1e-4, .01, .5, .99, 1.0, 2.0, 5.0, 10.0, 50.0]
    for c in cs:
        cr += [c, c * 1.01 + 1e-9, c * .99, c * .5]
        if c > 60:
            cr += [math.sqrt(c) * 1.01, c * 1.9]
        if 0 < c < 40:
            cr += [math.exp(-c) * .5, math.exp(-c) * 2]
            if c < 4:
                cr += [math.exp(c) * 1.1]
    return cr


def apart(a, b, seed, fixed, gens, arrgens, limit=160):
    """overrides of real inputs that tell the conditions a and b apart, if all samples so far made them agree"""
    pa, pb = pred(a), pred(b)
    va, aa, ca = leaves(pa)
    vb, ab, cb = leaves(pb)
    fixed = dict(fixed or {})
    gens = gens or {}
    arrs = [x for x in aa if x in ab and not x.args[0].startswith('uninit')]
    vs = [x for x in va if x in vb and not x.args[1] and x.args[0] not in fixed and x.args[0] not in gens]

    def both(fx, af):
        s = Sampler(seed, dict(fixed, **fx), gens, arrgens)
        s.arrfix, s.fillp = af, 2
        return truth(pa, s), truth(pb, s)
    cand = reals(sorted(set(ca) | set(cb)))
    cnt = 0
    # two inputs that are compared with each other: the conditions may part where they are equal
    for x, y in itertools.combinations([(x, True) for x in arrs] + [(x, False) for x in va if x in vb and not x.args[1] and x.args[0] not in fixed], 2):
        got = []
        for p, q in ((.3, .6), (.6, .3), (.5, .5)):
            fx, af = {}, {}
            for (z, isarr), v in ((x, p), (y, q)):
                (af if isarr else fx)[z.args[0]] = v
            ta, tb = both(fx, af)
            if len(ta) != 1 or len(tb) != 1:
                break
            got.append(ta == tb)
        if len(got) == 3 and got[0] == got[1] != got[2]:
            return [(fx, af)]
    for x, isarr in [(x, True) for x in arrs] + [(x, False) for x in vs]:
        nm = x.args[0]
        w = wide(list(ca) + list(cb))
        lo, hi = (domain(arrgens, nm, list(ca) + list(cb)) or (1, 0)) if isarr else (-w if x.lb is None else float(x.lb), w)
        agree, out = None, []
        for y in (5.0, -5.0, .7, -.7):
            if lo <= y <= hi:
                ta, tb = both({}, {nm: y}) if isarr else both({nm: y}, {})
                if len(ta) == 1 and len(tb) == 1:
                    if agree is None:
                        agree = ta == tb
                    elif agree != (ta == tb):
                        return None              # the samples tell them apart already
        if agree is None:
            continue
        for z in cand:
            for y in (z, -z):
                if lo <= y <= hi:
                    cnt += 1
                    if cnt > limit:
                        break
                    ta, tb = both({}, {nm: y}) if isarr else both({nm: y}, {})
                    if len(ta) == 1 and len(tb) == 1 and (ta == tb) != agree:
                        out.append(({}, {nm: y}) if isarr else ({nm: y}, {}))
        if out:
            # from the middle of where they differ, and from its edges
            out.sort(key=lambda o: sum(o[0].values()) + sum(o[1].values()))
            return [out[i] for i in sorted({0, len(out) // 2, len(out) - 1})]
    return None


def search(a, want, seed, fixed, gens, arrgens, limit=400):
    """overrides of inputs under which the condition a takes the value want"""
    if a.op == 'fn' and a.args[0] not in WRAPS:
        a = T.gt(a.args[1][0], a.args[1][1]) if want else T.ge(a.args[1][0], a.args[1][1])
    a = pred(a)
    vs, arrs, cs = leaves(a)
    fixed = dict(fixed or {})
    gens = gens or {}
    cnt = [0]

    SPENT[0] = 0

    def attempt(fx, af):
        cnt[0] += 1
        if SPENT[0] > BUDGET:
            return False
        s = Sampler(seed, dict(fixed, **fx), gens, arrgens)
        s.arrfix = af
        return want in truth(a, s)
    ints = [v for v in vs if v.args[1] and v.args[0] not in fixed]
    ci = sorted({int(c / k) + d for c in cs if c < 10 ** 7 for k in (1, 2, 3, 4) for d in (-1, 0, 1, 2)} | set(STEPS))

    def low(v):
        lo = int(v.lb) if v.lb is not None else 0
        g = gens.get(v.args[0].split('~')[0])
        if g is not None:
            import random
            q = random.Random(5)
            lo = max(lo, min(g(q) for _ in range(40)))
        return lo
    lows = {v: low(v) for v in ints}
    for x in ci:
        for v in ints:
            if x < lows[v] or x > 4100 and not any(x >= c for c in cs if c > 1000):
                continue
            if cnt[0] > limit:
                return None
            if attempt({v.args[0]: x}, {}):
                return {v.args[0]: x}, {}
    for v, w in itertools.combinations(ints, 2):
        for x in (2, 3, 4, 6, 8, 12, 17, 33, 65, 130, 190, 260):
            if x >= lows[v] and x >= lows[w] and cnt[0] <= 2 * limit and attempt({v.args[0]: x, w.args[0]: x}, {}):
                return {v.args[0]: x, w.args[0]: x}, {}
    cr = reals(cs)
    for v in vs:
        if v.args[1] or v.args[0] in fixed:
            continue
        g = gens.get(v.args[0].split('~')[0])
        lo, hi = -wide(cs), wide(cs)
        if g is not None:
            import random
            q = random.Random(5)
            d = [g(q) for _ in range(60)]
            if not all(isinstance(x, (int, float)) for x in d):
                continue
            lo, hi = min(d), max(d)
        elif v.lb is not None:
            lo = float(v.lb)
        for x in cr:
            for y in (x, -x):
                if lo <= y <= hi and cnt[0] <= 3 * limit and attempt({v.args[0]: y}, {}):
                    return {v.args[0]: y}, {}
    for v in arrs:
        dm = domain(arrgens, v.args[0], cs)
        if dm is None or v.args[0].startswith('uninit'):
            continue
        for x in cr:
            for y in (x, -x):
                if dm[0] <= y <= dm[1] and cnt[0] <= 4 * limit:
                    for z in (y, ('all', y)) if a.op == 'any' else (y,):
                        if attempt({}, {v.args[0]: z}):
                            return {}, {v.args[0]: z}
    return None


# ---------------- conjunctions of conditions
def context(*ts):
    """atom -> conditions under which it matters (on one way from the root)"""
    out, seen = {}, set()
    todo = [(t, ()) for t in ts if isinstance(t, T.Term)]
    while todo:
        nxt = []
        for t, g in todo:
            if t in seen:
                continue
            seen.add(t)
            if t.op in ATOMS or t.op in ('and', 'or') or t.op == 'fn' and (t.args[0] in ('max', 'min') and len(t.args[1]) == 2 or t.args[0] in WRAPS):
                out[t] = g
            if t.op == 'ite':
                c, a, b = t.args
                nxt += [(c, g), (a, g + (c,)), (b, g + (T.not_(c),))]
                continue
            if t.op == 'upd' and isinstance(t.args[4], T.Term):
                nxt += [(x, g) for q in t.args[1] for x in (q if isinstance(q, tuple) else (q,)) if isinstance(x, T.Term)]
                nxt += [(t.args[0], g), (t.args[4], g), (t.args[2], g + (t.args[4],)), (t.args[3], g + (t.args[4],))]
                continue
            if t.op in ('and', 'or'):
                for i, x in enumerate(t.args):
                    rest = t.args[:i] + t.args[i + 1:]
                    nxt.append((x, g + tuple(rest if t.op == 'and' else [T.not_(y) for y in rest])))
                continue
            if t.op == 'bv' and rng(t) is not None:
                nxt.append((rng(t), g))
            q = [t.args]
            while q:
                for a in q.pop():
                    if isinstance(a, T.Term):
                        nxt.append((a, g))
                    elif isinstance(a, tuple):
                        q.append(a)
        todo = nxt
    return out


def gap(c, want, e):
    """how far the condition is from the wanted value (0: reached)"""
    op = c.op
    if op == 'not':
        return gap(c.args[0], not want, e)
    if op in ('and', 'or'):
        gs = [gap(x, want, e) for x in c.args]
        return sum(gs) if (op == 'and') == want else min(gs)
    if op in ('ge0', 'gt0', 'eq0'):
        x = e(c.args[0])
        if x != x:
            return 1e6
        if op == 'eq0':
            d = abs(x) if want else (0 if x else 1)
        elif op == 'ge0':
            d = max(0, -x) if want else (x + 1e-3 if x >= 0 else 0)
        else:
            d = (1e-3 - x if x <= 0 else 0) if want else max(0, x)
        return d / (d + 1) if d != math.inf else 1
    return 0 if bool(e(c)) == want else 1


def climb(goal, seed, fixed, gens, arrgens, limit=260):
    """overrides of inputs that meet the goal, found by moving one input at a time towards it"""
    vs, arrs, cs = leaves(goal)
    fixed, gens = dict(fixed or {}), gens or {}
    bs = bound(goal)
    if len(bs) > 2 or len(vs) + len(arrs) > 14:
        return None
    bs.sort(key=lambda x: len(rng(x).fv) if rng(x) is not None else 0)
    cnt = [0]
    SPENT[0] = 0

    def cost(st, sd):
        cnt[0] += 1
        s = Sampler(sd, dict(fixed, **{k: v for k, v in st.items() if k[0] != '@'}), gens, arrgens)
        s.arrfix = {k[1:]: v for k, v in st.items() if k[0] == '@' and v is not None}
        e = Ev(s)
        e.max = 60000
        best = [1e9]

        def rec(todo):
            if not todo:
                try:
                    best[0] = min(best[0], gap(goal, True, e))
                except Exception:
                    pass
                return
            x = todo[0]
            try:
                m = e(rng(x)) if rng(x) is not None else 1
            except Exception:
                return
            if not isinstance(m, int) or m <= 0:
                return
            for v in sorted({0, m // 2, m - 1}):
                d, sv = e.enter([(x, v)])
                try:
                    rec(todo[1:])
                finally:
                    e.leave(d, sv)
        rec(bs)
        SPENT[0] += e.steps
        return best[0]

    free = {}
    for v in vs:
        nm = v.args[0]
        if nm in fixed or nm in free or v.sort != 'n':
            continue
        g = gens.get(nm.split('~')[0])
        lo, hi = (float(v.lb) if v.lb is not None else (0 if v.args[1] else -wide(cs))), (4100 if v.args[1] else wide(cs))
        if g is not None:
            import random
            q = random.Random(5)
            d = [g(q) for _ in range(60)]
            if not all(isinstance(x, (int, float)) for x in d):
                continue
            if v.args[1]:
                lo = max(lo, min(d))
                if len(set(d)) == 1:
                    continue
            else:
                lo, hi = min(d), max(d)
        free[nm] = (v.args[1], lo, hi)
    for a in arrs:
        dm = domain(arrgens, a.args[0], cs)
        if dm is not None and not a.args[0].startswith('uninit'):
            free['@' + a.args[0]] = (False, dm[0], dm[1])
    if not free:
        return None
    def go(st, dirn, cur):
        """move along a direction, faster and faster, as long as that gets nearer"""
        u = 1 if all(free[k][0] for k in dirn) else .05
        step, mv = u, False
        while cur > 0 and SPENT[0] < BUDGET and cnt[0] < 4 * limit:
            n = {k: st[k] + v * step for k, v in dirn.items()}
            if any(not free[k][1] <= v <= free[k][2] for k, v in n.items()):
                if step == u:
                    break
                step = u
                continue
            c = cost(dict(st, **n), seed)
            if not c < cur:
                if step == u:
                    break
                step = u
                continue
            st.update(n)
            cur, mv = c, True
            step *= 2
        return cur, mv

    for start in range(3):
        s0 = Sampler(seed + 31 * start, fixed, gens, arrgens)
        st = {}
        byname = {v.args[0]: v for v in vs}
        for nm in free:
            st[nm] = s0.num(byname[nm]) if nm[0] != '@' else None
        cur = cost(st, seed)
        moved = True
        while moved and cur > 0 and cnt[0] < limit * (start + 1) and SPENT[0] < BUDGET:
            moved = False
            for nm, (isint, lo, hi) in free.items():
                base = st[nm]
                if base is None:
                    for y in (0.0, 1.0, -1.0, 5.0, -5.0) + tuple(z for c in cs[:4] for z in (c, -c)):
                        if lo <= y <= hi:
                            c = cost(dict(st, **{nm: y}), seed)
                            if c < cur:
                                cur, st[nm], moved = c, y, True
                    continue
                for sg in (1, -1):
                    cur, mv = go(st, {nm: sg}, cur)
                    moved |= mv
            ints = [nm for nm in free if free[nm][0]]
            if not moved and cur > 0 and len(ints) <= 6:
                for p, q in itertools.combinations(ints, 2):
                    for dp, dq in ((1, 1), (1, 2), (2, 1), (-1, -1), (1, -1), (-1, 1)):
                        if cur > 0:
                            cur, mv = go(st, {p: dp, q: dq}, cur)
                            moved |= mv
        if cur == 0:
            return ({k: v for k, v in st.items() if k[0] != '@'}, {k[1:]: v for k, v in st.items() if k[0] == '@' and v is not None})
    return None
