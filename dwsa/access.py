"""Rules over the logged element accesses of an abstract run: bounds and parallel-loop independence."""
from fw import *

LIMIT = 60000


class Enum:
    """enumerates the iterations an event stands for, under one assignment of the free variables"""

    def __init__(self, e):
        self.e, self.count = e, 0

    def run(self, ev, visit):
        """visit(values of ev's binders) -> True to stop"""
        e = self.e
        bd = ev.bd

        # path conditions are tested at the depth where all their binders are bound
        levels = [[] for _ in range(len(bd) + 1)]
        for c in ev.pc:
            d = 0
            for j, (k, _) in enumerate(bd):
                if k in c.fv:
                    d = j + 1
            levels[d].append(c)

        def rec(j):
            for c in levels[j]:
                if not e(c):
                    return False
            if j == len(bd):
                self.count += 1
                if self.count > LIMIT:
                    raise EvalLimit('too many iterations')
                return visit()
            k, n = bd[j]
            m = e(n)
            for x in range(int(m)):
                d, sv = e.enter([(k, x)])
                try:
                    if rec(j + 1):
                        return True
                finally:
                    e.leave(d, sv)
            return False
        return rec(0)


def in_bounds(ev):
    """decided syntactically?"""
    if ev.kind == 'acc':
        _, loc, off, n = ev.d
        return ge0(off) is TRUE and lt(off, n) is TRUE
    base, off, size, n = ev.d
    return ge0(off) is TRUE and ge0(sub(n, add(off, size))) is TRUE


def bounds(ctx, name, events, where, ns=6, **kw):
    """0 <= offset < length for every logged access and Eigen view"""
    todo = []
    seen = set()
    proved = 0
    for ev in events:
        if ev.kind not in ('acc', 'map'):
            continue
        key = (ev.kind, ev.fn, ev.line, ev.d, ev.pc, ev.bd)
        try:
            if key in seen:
                continue
            seen.add(key)
        except TypeError:
            pass
        for k, n in ev.bd:
            RANGES.setdefault(k, n)
        if in_bounds(ev):
            proved += 1
        else:
            todo.append(ev)
    total = proved + len(todo)
    limit = False
    samples = 0
    if todo:
        # what an access happens under, as one condition the sampler can aim at
        under = {}
        for ev in todo:
            bs = {k for k, _ in ev.bd}
            cs = [c for c in ev.pc if not (c.fv & bs)]
            if cs:
                c = and_(*cs)
                under[c] = c
        for s, e in ctx.samplers(ctx.nsamp(ns), kw.get('gens'), kw.get('arrgens'), kw.get('fixed'), kw.get('assume', ()), tuple(under)):
            good = True
            for c in under:
                try:
                    e(c)
                except EvalLimit:
                    pass
            for ev in todo:
                hit = []

                def visit():
                    if ev.kind == 'acc':
                        o, n = e(ev.d[2]), e(ev.d[3])
                        ctx.evals += 1
                        if not (0 <= o < n):
                            hit.append((o, n))
                            return True
                    else:
                        o, sz, n = e(ev.d[1]), e(ev.d[2]), e(ev.d[3])
                        ctx.evals += 1
                        if sz > 0 and not (0 <= o and o + sz <= n):
                            hit.append((o, sz, n))
                            return True
                    return False
                try:
                    Enum(e).run(ev, visit)
                except EvalLimit:
                    limit = True
                    good = False
                    continue
                if hit:
                    what = {'r': 'read', 'w': 'write'}.get(ev.d[0], 'view') if ev.kind == 'acc' else 'Eigen view'
                    ctx.violation(name, '%s:%s %s' % (ev.file.replace('/repo/', ''), ev.line, ev.fn),
                                  dict(access=what, offset=hit[0][0], size=hit[0][1:], at=ctx._at(s),
                                       offset_term=T.show(ev.d[2] if ev.kind == 'acc' else ev.d[1])[:400],
                                       length_term=T.show(ev.d[3])[:300], entry=where))
                    return False
            if good:
                samples += 1
    if not todo or samples:
        ctx.ok(name, '%d accesses: %d by range reasoning, %d by random interpretation (%d samples)' % (total, proved, len(todo), samples), where)
        return True
    ctx.undecided(name, 'evaluation limit' if limit else 'no sample', where)
    return None


def races(ctx, name, I, where, ns=5, **kw):
    """no two iterations of a parallel loop touch the same element unless both only read"""
    for reg in I.parlog:
        loc = '%s:%s %s' % (reg['file'].replace('/repo/', ''), reg['line'], reg['fn'])
        nm = '%s, parallel loop in %s' % (name, reg['fn'])
        if reg.get('prot'):
            ctx.undecided(nm, 'region uses critical/atomic sections', loc)
            continue
        if reg['k'] is None:
            ctx.undecided(nm, 'no loop found in the region', loc)
            continue
        scal = [x for x in reg['shared'] if x[3] != 'a']
        if scal:
            ctx.violation(nm, loc, dict(reason='shared variable written by several iterations', variable=str(scal[0][2]), part=str(scal[0][1])))
            continue
        evs = []
        for ev in I.log:
            if ev.kind == 'acc' and any(r == reg['id'] for r, _ in ev.par) and not any(r == 'prot' for r, _ in ev.par):
                c = ev.d[1].cell
                if c in reg['alive'] and c not in reg['priv']:
                    evs.append(ev)
        wc = {(ev.d[1].cell) for ev in evs if ev.d[0] == 'w'}
        evs = [ev for ev in evs if ev.d[1].cell in wc]
        if not evs:
            ctx.ok(nm, 'no shared element is written', loc)
            continue
        bad_, samples, limit = None, 0, False
        for s, e in ctx.samplers(ctx.nsamp(ns), kw.get('gens'), kw.get('arrgens'), kw.get('fixed'), kw.get('assume', ())):
            wr, rd = {}, {}
            try:
                for ev in evs:
                    k = [kk for r, kk in ev.par if r == reg['id']][0]

                    def visit():
                        it = e(k)
                        key = (ev.d[1].cell, str(ev.d[1].path), e(ev.d[2]))
                        ctx.evals += 1
                        (wr if ev.d[0] == 'w' else rd).setdefault(key, {}).setdefault(it, ev)
                        return False
                    Enum(e).run(ev, visit)
            except EvalLimit:
                limit = True
                continue
            for key, its in wr.items():
                allits = dict(its)
                for it, ev in rd.get(key, {}).items():
                    allits.setdefault(it, ev)
                if len(allits) > 1:
                    a = list(its.items())[0]
                    b = [x for x in allits.items() if x[0] != a[0]][0]
                    bad_ = dict(element=key[2], object=str(I.cellinfo.get(key[0], key[0])), iterations=[a[0], b[0]],
                                write='%s:%s' % (a[1].fn, a[1].line), other='%s:%s (%s)' % (b[1].fn, b[1].line, b[1].d[0]), at=ctx._at(s))
                    break
            if bad_:
                break
            samples += 1
        if bad_:
            ctx.violation(nm, loc, bad_)
        elif samples:
            ctx.ok(nm, 'index sets of different iterations are disjoint, %d accesses, %d samples' % (len(evs), samples), loc)
        else:
            ctx.undecided(nm, 'evaluation limit' if limit else 'no sample', loc)
