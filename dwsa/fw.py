"""Obligations, their decision, and reporting."""
import json
import math
import os
import random
import sys
import time
import traceback
from drv import *
import evalt
from evalt import Sampler, Ev, EvalLimit
import guide as G
import rename as RN
import interp as IN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GENS = {}
PROPS = {}
RULES = {}


def prop(pid, rule):
    def deco(f):
        PROPS.setdefault(pid, []).append(f)
        RULES.setdefault(pid, [])
        if rule not in RULES[pid]:
            RULES[pid].append(rule)
        return f
    return deco


class Skip(Exception):
    pass


class OtherSection(Exception):
    pass


def closed(t):
    """only input symbols occur free"""
    return not t.fv


def run_cases(ctx, f):
    """run a property function, then re-analyse by cases the sections that needed an undecided condition"""
    with ctx.section(f.__name__):
        f(ctx)
    while ctx.splits:
        todo, ctx.splits = ctx.splits, []
        for name, facts, cond, msg, where in todo:
            if time.time() > ctx.deadline:
                ctx.undecided(name, 'time limit while analysing by cases: ' + msg, where)
                continue
            for c in (cond, not_(cond)):
                ctx.only = (name, facts + (c,))
                if not any(True for _ in ctx.samplers(8, GENS, None, None, ())):
                    ctx.only = None
                    ctx.notes.append('case %s of %s has no instance among the samples' % (T.show(c)[:120], name))
                    continue
                ctx.only = (name, facts + (c,))
                try:
                    with ctx.section(f.__name__):
                        f(ctx)
                finally:
                    ctx.only = None


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def bad(x):
    return isinstance(x, float) and (math.isnan(x) or math.isinf(x))


def differ(a, b):
    """'no' | 'yes' | 'unsure' for two computed values"""
    if isinstance(a, bool) or isinstance(b, bool):
        return 'no' if bool(a) == bool(b) else 'yes'
    if isinstance(a, str) or isinstance(b, str):
        return 'no' if a == b else 'yes'
    if bad(b):
        return 'unsure'         # the specification itself is undefined here
    if bad(a):
        return 'yes'
    d = abs(a - b)
    m = max(1e-3, abs(a), abs(b))
    if d <= 2e-6 * m:
        return 'no'
    return 'yes' if d > 1e-3 * m else 'unsure'


# properties whose sections all run documented uses to completion, over inputs the library has to accept
ACCEPTING = {'C%02d' % k for k in (2, 3, 4, 5, 9, 10, 12, 13, 14, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28)}


class Ctx:
    def __init__(self, pid, prog, tier='quick', seed=1):
        self.pid, self.p, self.tier, self.seed = pid, prog, tier, seed
        self.obs = []               # (name, status, how, where, detail)
        self.viol = []
        self.evals = 0
        self.aimed = {}
        self.directed = 0
        self.maxsteps = 3000000
        self.samples_used = 0
        self.fns = set()
        self.funcs_inlined = {}
        self.notes = []
        self.splits, self.cur = [], None
        self.made, self.nth, self.warm, self.warmed = {}, {}, None, []
        self.deadline = time.time() + (240 if tier == 'quick' else 780)

    # ---------------- bookkeeping
    only = None             # when set: (section name, facts) being analysed by cases

    def drv(self, **kw):
        if self.only and self.only[0] != self.cur:
            raise OtherSection()
        d = Drv(self.p, **kw)
        if self.only:
            for c in self.only[1]:
                d.st.assume(c)
        self._drvs = getattr(self, '_drvs', [])
        self._drvs.append(d)
        k = (self.cur, self.nth.get(self.cur, 0))
        self.nth[self.cur] = k[1] + 1
        if self.warm is None:
            self.made[k] = d
        elif k in self.warm:
            self.warmed += RN.carry(self.warm[k], d)
        return d

    def unsettled(self):
        """runs that left static objects behind which depend on what was run"""
        return {k: d for k, d in self.made.items() if RN.statics(d)}

    def note_fns(self):
        for d in getattr(self, '_drvs', []):
            for k, v in d.I.visited.items():
                self.funcs_inlined[k] = self.funcs_inlined.get(k, 0) + v
        self._drvs = []

    def where(self, qname, n=None):
        fs = [f for f in self.p.byname.get(qname, []) if n is None or len(f['params']) == n]
        if not fs:
            return qname
        f = fs[0]
        return '%s:%s %s' % (f['file'].replace('/repo/', ''), f['l'], qname)

    def ok(self, name, how, where='', detail=None):
        self.obs.append((name, 'discharged', how, where, detail))

    def undecided(self, name, why, where=''):
        self.obs.append((name, 'undecided', why, where, None))

    def violation(self, name, where, detail):
        self.obs.append((name, 'violated', '', where, detail))
        self.viol.append((name, where, detail))

    class _Sec:
        def __init__(self, ctx, name, where):
            self.c, self.n, self.w = ctx, name, where

        def __enter__(self):
            self.prev, self.c.cur = self.c.cur, self.n
            self.mark = (len(self.c.obs), len(self.c.viol))
            self.c.nth[self.n] = 0
            self.c.warmed = []
            return self

        def __exit__(self, et, ev, tb):
            T.assume_nonneg()
            ds = list(getattr(self.c, '_drvs', []))
            self.c.note_fns()
            self.c.cur = self.prev
            if et is None:
                return False
            if et is OtherSection:
                return True
            if et is Ambiguous and len(self.c.only[1] if self.c.only else ()) < 3 and closed(ev.cond):
                del self.c.obs[self.mark[0]:]
                del self.c.viol[self.mark[1]:]
                self.c.splits.append((self.n, (self.c.only[1] if self.c.only else ()), ev.cond, str(ev), self.w))
                return True
            if issubclass(et, (Unsupported, EvalLimit, Missing, Dead, RecursionError, KeyError, IndexError, AttributeError,
                               TypeError, ZeroDivisionError, OverflowError, NotImplementedError, AssertionError, ValueError, Skip)):
                last = traceback.extract_tb(tb)[-1]
                thr = [x for dd in ds for _, x in dd.I.thr if x.typ != '$jmp']
                if et is Dead and thr and self.c.pid in ACCEPTING:
                    self.c.violation(self.n + ': this documented use is accepted', self.w or '%s:%s' % (thr[0].fn, thr[0].line), dict(
                        reason='every path ends in an exception', thrown=sorted({'%s:%s' % (x.fn, x.line) for x in thr})))
                    return True
                self.c.undecided(self.n, '%s: %s (%s:%s)' % (et.__name__, str(ev)[:200], os.path.basename(last.filename), last.lineno), self.w)
                return True
            return False

    def section(self, name, where=''):
        return Ctx._Sec(self, name, where)

    # ---------------- deciding
    def samplers(self, n, gens, arrgens, fixed, assume, code=(), spec=()):
        """samples satisfying the assumptions; then samples for the conditions of `code` that took only one value"""
        got, tries = 0, 0
        if self.only:
            assume = tuple(assume) + tuple(self.only[1])
        if self.warm is not None:
            memo = {}
            assume = tuple(assume) + tuple(RN.rename(a, memo) for a in assume) + tuple(self.warmed)
        cov = {} if code else None
        over = ({}, {})
        while got < n and tries < n * 40:
            tries += 1
            if time.time() > self.deadline:
                return
            if tries == n * 12 and not got and self.only:
                over = self.instance(assume, fixed, gens, arrgens) or over
            s = Sampler(self.seed * 1000003 + tries * 7919, dict(fixed or {}, **over[0]), gens, arrgens)
            s.arrfix = over[1]
            e = Ev(s)
            try:
                if all(e(c) for c in assume):
                    got += 1
                    e.cov = cov
                    e.max = self.maxsteps
                    yield s, e
            except EvalLimit:
                continue
        if not code or not got:
            return
        known = set(G.atoms(*spec)) | set(G.atoms(*assume))
        aim = [(a, cov[a] == 1) for a in G.atoms(*code) if a not in known and cov.get(a) in (1, 2)]
        # conditions that the samples never reached depend on others: those come first
        t0 = time.time()
        for a, want in aim[:24]:
            if cov[a] == 3:
                continue
            key = (a, want, tuple(sorted((fixed or {}).items())))
            if key in self.aimed:
                o = self.aimed[key]
            elif time.time() - t0 > 20 or time.time() > self.deadline:
                return
            else:
                o = self.aimed[key] = G.search(a, want, self.seed, dict(fixed or {}, **over[0]), gens, arrgens)
            if o is None:
                continue
            yield from self.aimed_samples(o, over, fixed, gens, arrgens, assume, cov)
        # conjunctions never met, and conditions that other conditions hide
        ctx = G.context(*code)
        cont = G.context(*spec)
        hid = []
        for a, g in ctx.items():
            if a in known or a in cont:
                continue
            if a.op in ('and', 'or'):
                w = True if a.op == 'and' else False
                if cov.get(a, 0) & (2 if w else 1):
                    continue
                hid.append((a, w, g))
            elif a in known:
                continue
            else:
                hid += [(a, w, g) for w in (True, False) if not cov.get(a, 0) & (2 if w else 1)]
        for a, w, g in hid[:16]:
            if cov.get(a, 0) & (2 if w else 1):
                continue
            key = ('and', a, w, tuple(sorted((fixed or {}).items())))
            if key in self.aimed:
                o = self.aimed[key]
            elif time.time() - t0 > 20 or time.time() > self.deadline:
                return
            else:
                p = a
                if a.op == 'imod':
                    p = G.pred(a)
                elif a.op == 'fn':
                    p = G.pred(a) if a.args[0] in G.WRAPS else T.gt(a.args[1][0], a.args[1][1]) if w else T.gt(a.args[1][1], a.args[1][0])
                    w = w if a.args[0] in G.WRAPS else True
                goal = T.and_(*[x for x in assume if x.sort == 'b'], *g, p if w else T.not_(p))
                o = self.aimed[key] = G.climb(goal, self.seed, dict(fixed or {}, **over[0]), gens, arrgens) if goal is not FALSE else None
            if o is not None:
                yield from self.aimed_samples(o, over, fixed, gens, arrgens, assume, cov)
        # a condition of the code that is not one of the specification: where do the two part?
        sa = G.atoms(*spec)
        ca = G.atoms(*code)
        mine = [b for b in sa if b not in set(ca)]
        for a in [a for a in ca if a not in known and cov.get(a) == 3][:8] if mine else ():
            for b in mine[:6]:
                key = (a, b, tuple(sorted((fixed or {}).items())))
                if key in self.aimed:
                    o = self.aimed[key]
                elif time.time() - t0 > 20 or time.time() > self.deadline:
                    return
                else:
                    o = self.aimed[key] = G.apart(a, b, self.seed, dict(fixed or {}, **over[0]), gens, arrgens)
                for o in o or ():
                    yield from self.aimed_samples(o, over, fixed, gens, arrgens, assume, cov)

    def aimed_samples(self, o, over, fixed, gens, arrgens, assume, cov):
        for k in range(3):
            s = Sampler(self.seed * 1000003 + k * 104729 + 11 if k < 2 else self.seed, dict(fixed or {}, **dict(over[0], **o[0])), gens, arrgens)
            s.arrfix = dict(over[1], **o[1])
            e = Ev(s)
            try:
                if all(e(c) for c in assume):
                    e.cov, e.max = cov, 600000
                    self.directed += 1
                    yield s, e
            except EvalLimit:
                continue

    def instance(self, assume, fixed, gens, arrgens):
        """overrides under which all assumptions are met, one condition at a time"""
        fx, af = {}, {}
        for r in range(3):
            s = Sampler(self.seed + r, dict(fixed or {}, **fx), gens, arrgens)
            s.arrfix = af
            e = Ev(s)
            try:
                bad_ = [c for c in assume if not e(c)]
            except EvalLimit:
                return None
            if not bad_:
                return fx, af
            o = G.search(bad_[0], True, self.seed + r, dict(fixed or {}, **fx), gens, arrgens)
            if o is None:
                return None
            fx, af = dict(fx, **o[0]), dict(af, **o[1])
        return fx, af

    def nsamp(self, n):
        return n * (4 if self.tier == 'thorough' else 1)

    def eq(self, name, code, spec, where, gens=None, arrgens=None, fixed=None, assume=(), n=8):
        """two scalar terms denote the same value"""
        code, spec = self._nt(code), self._nt(spec)
        if code is spec:
            self.ok(name, 'identical value-graph normal forms', where)
            return True
        sure = 0
        err = None
        for s, e in self.samplers(self.nsamp(n), gens, arrgens, fixed, assume, (code,), (spec,)):
            try:
                b = e(spec)
                a = e(code)
            except EvalLimit:
                err = 'evaluation limit'
                continue
            self.evals += 1
            r = differ(a, b)
            if r == 'yes':
                self.violation(name, where, dict(code_value=repr(a), required_value=repr(b), at=self._at(s),
                                                 code_term=T.show(code)[:1500], required_term=T.show(spec)[:1500]))
                return False
            if r == 'no':
                sure += 1
        if sure:
            self.ok(name, 'random interpretation of both summary terms, %d samples' % sure, where)
            return True
        self.undecided(name, err or 'no conclusive sample', where)
        return None

    def _nt(self, t):
        if isinstance(t, (int, float)):
            return const(t)
        return tonum(t) if isinstance(t, Term) and t.sort == 'b' else t

    def _at(self, s):
        d = {k: (round(v, 4) if isinstance(v, float) else v) for k, v in sorted(s.vals.items())}
        return d

    def holds(self, name, cond, where, gens=None, arrgens=None, fixed=None, assume=(), n=12):
        """a boolean term is valid under the assumptions"""
        if cond is TRUE:
            self.ok(name, 'identical value-graph normal forms', where)
            return True
        sure = 0
        for s, e in self.samplers(self.nsamp(n), gens, arrgens, fixed, assume, (cond,)):
            try:
                a = e(cond)
            except EvalLimit:
                continue
            self.evals += 1
            if not a:
                self.violation(name, where, dict(condition=T.show(cond)[:1500], false_at=self._at(s)))
                return False
            sure += 1
        if sure:
            self.ok(name, 'random interpretation of the condition, %d samples' % sure, where)
            return True
        self.undecided(name, 'no conclusive sample', where)
        return None

    def eq_arr(self, name, code, n, specf, where, gens=None, arrgens=None, fixed=None, assume=(), ns=6, length=None, alt=None):
        mark = (len(self.obs), len(self.viol))
        r = self._eq_arr(name, code, n, specf, where, gens, arrgens, fixed, assume, ns, length)
        if r is False and alt is not None:
            o, v = self.obs[mark[0]:], self.viol[mark[1]:]
            del self.obs[mark[0]:], self.viol[mark[1]:]
            if self._eq_arr(name, code, n, alt[1], where, gens, arrgens, fixed, assume, ns, length):
                # differs from the requirement in exactly this way
                del self.obs[mark[0]:], self.viol[mark[1]:]
                self.violation(name, where, dict(deviation=alt[0]))
            else:
                del self.obs[mark[0]:], self.viol[mark[1]:]
                self.obs += o
                self.viol += v
        return r

    def _eq_arr(self, name, code, n, specf, where, gens=None, arrgens=None, fixed=None, assume=(), ns=6, length=None):
        """array `code` of n elements equals specf(i) (i: index term) for every i < n"""
        i = index_var('i')
        RANGES[i] = n
        c, s_ = sel(code, i), specf(i)
        if length is not None:
            if not self.eq(name + ' (length)', length, n, where, gens, arrgens, fixed, assume):
                return False
        if tonum(c) is tonum(s_):
            self.ok(name, 'identical value-graph normal forms', where)
            return True
        sure = 0
        why = 'no conclusive sample'
        for s, e in self.samplers(self.nsamp(ns), gens, arrgens, fixed, assume, (c, n), (s_,)):
            try:
                m = e(n)
                ok = True
                for x in range(m) if m <= 4000 else sorted({m // 2 + m * k // 128 for k in range(-64, 64)} | {m - 1}):
                    d, sv = e.enter([(i, x)])
                    try:
                        b = e(s_)
                        a = e(c)
                    finally:
                        e.leave(d, sv)
                    self.evals += 1
                    r = differ(a, b)
                    if r == 'yes':
                        self.violation(name, where, dict(element=x, of=m, code_value=repr(a), required_value=repr(b), at=self._at(s),
                                                         code_term=T.show(c)[:1500], required_term=T.show(s_)[:1500]))
                        return False
                    if r != 'no':
                        ok = False
                if ok:
                    sure += 1
            except EvalLimit:
                why = 'evaluation limit'
                continue
        if sure:
            self.ok(name, 'random interpretation of both summary terms, %d samples' % sure, where)
            return True
        self.undecided(name, why, where)
        return None

    def rule(self, name, good, where, detail=None, how='structural rule'):
        if good is None:
            self.undecided(name, str(detail), where)
        elif good:
            self.ok(name, how, where, None)
        else:
            self.violation(name, where, detail if isinstance(detail, dict) else dict(reason=str(detail)))
        return good

    def no_throw(self, name, d, where, **kw):
        """no exception path is feasible (under the standing assumptions)"""
        conds = [(and_(*s.pc), x) for s, x in d.I.thr]
        if not conds:
            self.ok(name, 'no feasible exception path in the summary', where)
            return True
        c = or_(*[c for c, _ in conds])
        return self.holds(name, not_(c), where + ' (throws at %s)' % ', '.join(sorted({'%s:%s' % (x.fn, x.line) for _, x in conds}))[:300], **kw)

    def throws_iff(self, name, d, cond, where, **kw):
        c = or_(*[and_(*s.pc) for s, x in d.I.thr]) if d.I.thr else FALSE
        return self.eq(name, c, cond, where, **kw)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])


def run(pid, tier, seed, prog=None):
    import prog as PG
    t0 = time.time()
    if pid not in PROPS:
        print('no check for', pid)
        return 2
    try:
        P = prog or PG.Prog()
    except Exception as ex:
        print('ANALYSIS-ERROR: front end: %s' % ex)
        return 2
    ctx = Ctx(pid, P, tier, seed)
    ctx.deadline = time.time() + (300 if tier == 'quick' else 800)
    for f in PROPS[pid]:
        run_cases(ctx, f)
    left = ctx.unsettled()
    if left:
        # static objects: the same analysis after an earlier run with other inputs
        n = (len(ctx.obs), len(ctx.viol))
        ctx.warm = left
        ctx.deadline = max(ctx.deadline, time.time() + 200)
        for f in PROPS[pid]:
            run_cases(ctx, f)
        names = sorted({str(d.I.cellinfo.get(l.cell)) for d in left.values() for _, l in RN.statics(d)})
        ctx.notes.append('analysed again after an earlier run: ' + ', '.join(names))
        for _, _, d in ctx.viol[n[1]:]:
            if isinstance(d, dict):
                d['after'] = 'an earlier run with other inputs (%s)' % ', '.join(names)
    ctx.note_fns()
    known = load_known()
    viol, kn = [], []
    for name, where, detail in ctx.viol:
        k = [x for x in known['findings'] if x['property'] == pid and x['obligation'] == name
             and all(str(detail.get(a)) == str(b) for a, b in x.get('match', {}).items())]
        if k:
            kn.append((name, k[0]))
        else:
            viol.append((name, where, detail))
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    st = lambda s: [o for o in ctx.obs if o[1] == s]
    disc, und, vio = st('discharged'), st('undecided'), st('violated')
    how = {}
    for o in disc:
        h = o[2].split(',')[0]
        how[h] = how.get(h, 0) + 1
    expl = ('Static analysis of the working tree: clang front end over %d translation units (%d functions), then %s. '
            'Obligations are decided on the value-graph summaries of the functions listed in functions_analysed.' %
            (len(P.tus), len(P.fns), '; '.join(RULES[pid])))
    cov = dict(explanation=expl, rule='; '.join(RULES[pid]), obligations=len(ctx.obs), discharged=len(disc),
               undecided=[dict(obligation=o[0], why=o[2], where=o[3]) for o in und][:60],
               decided_by=how, translation_units=len(P.tus), functions_in_program=len(P.fns),
               functions_analysed=sorted({P.fns[i]['fn'] for i in ctx.funcs_inlined if i in P.fns}),
               call_sites_inlined=sum(ctx.funcs_inlined.values()),
               term_evaluations=ctx.evals, directed_samples=ctx.directed, front_end_errors=[list(map(str, e[:2])) for e in P.errors],
               samples=[dict(obligation=o[0], decided_by=o[2], where=o[3]) for o in disc[:12]], notes=ctx.notes[:20])
    out = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - t0, 2),
               violations=len(viol),
               assumptions=['integers are mathematical and floats are reals (no overflow or rounding)',
                            'standard library and Eigen calls behave as modelled in dwsa/stdm.py and dwsa/eig.py'])
    json.dump(out, open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    for name, k in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' %
          (pid, len(ctx.obs), len(disc), len(und), len(vio), time.time() - t0))
    for o in und:
        print('  undecided: %s -- %s' % (o[0], o[2]))
    if viol:
        rp = os.path.join(ev, 'replay-%s.json' % pid)
        json.dump([dict(obligation=n, where=w, detail=d) for n, w, d in viol], open(rp, 'w'), indent=1, default=str)
        for n, w, d in viol:
            print('  violated: %s at %s' % (n, w))
            for a, b in d.items():
                print('      %s: %s' % (a, str(b)[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
