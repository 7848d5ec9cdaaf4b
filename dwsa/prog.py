"""The extracted program: functions, records, globals of every translation unit under /repo/src."""
import glob
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DW_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'dwextract')
FLAGS = ['-std=gnu++17', '-isystem', '/usr/include/eigen3',
         '-isystem', os.path.join(VERIF, 'tool', 'shim'), '-isystem', os.path.join(VERIF, 'tool', 'ade_stub'),
         '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-DHAVE_JPEG', '-DHAVE_PNG', '-D_GLIBCXX_USE_CXX11_ABI=0',
         '-fopenmp', '-DNDEBUG', '-include', 'array', '-include', 'limits', '-include', 'cstdint', '-w']


class ExtractError(Exception):
    pass


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'dwextract.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    subprocess.check_call(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=sys.stderr)


def extract():
    """run the front end over the working tree; returns list of per-TU dictionaries"""
    ensure_tool()
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    if not srcs:
        raise ExtractError('no sources under %s/src' % REPO)
    flags = FLAGS[:1] + ['-I' + REPO + '/include', '-I' + REPO + '/src'] + FLAGS[1:]
    out = []
    with tempfile.TemporaryDirectory() as td:
        def one(i_s):
            i, s = i_s
            o = '%s/%d.json' % (td, i)
            p = subprocess.run([TOOL, o, s, REPO + '/', '--'] + flags, capture_output=True, text=True, timeout=300)
            if not os.path.exists(o):
                raise ExtractError('front end failed on %s: %s' % (s, p.stderr[-2000:]))
            d = json.load(open(o))
            d['_src'] = s
            d['_err'] = p.stderr
            return d
        with ThreadPoolExecutor(8) as ex:
            out = list(ex.map(one, enumerate(srcs)))
    return out


class Prog:
    def __init__(self, tus=None):
        tus = tus if tus is not None else extract()
        self.fns, self.recs, self.enums, self.globs = {}, {}, {}, {}
        self.byname = {}
        self.tus = []
        self.errors = []
        for d in tus:
            tu = d['_src']
            self.tus.append(tu)
            if d.get('errors'):
                self.errors.append((tu, d['errors'], d.get('_err', '')))
            for f in d['fns']:
                if f['id'] in self.fns:
                    continue
                f['_tu'] = tu
                self.fns[f['id']] = f
                self.byname.setdefault(f['fn'], []).append(f)
            for r in d['recs']:
                if r['t'] not in self.recs:
                    r['_tu'] = tu
                    self.recs[r['t']] = r
            for e in d['enums']:
                self.enums.setdefault(e['n'], e)
            for g in d['globs']:
                g['_tu'] = tu
                if g['usr'] not in self.globs or (g['v'].get('init') is not None and self.globs[g['usr']]['v'].get('init') is None):
                    self.globs[g['usr']] = g
        self._b = {}
        self._d = None
        self._dt = {}

    def rec(self, t):
        return self.recs.get(t)

    def bases(self, t):
        r = self._b.get(t)
        if r is None:
            r = []
            x = self.recs.get(t)
            if x:
                for b in x['b']:
                    r.append(b)
                    r += self.bases(b)
            self._b[t] = r
        return r

    def derived(self, t):
        return [x for x in self.recs if t in self.bases(x)]

    def methods(self, cls, name):
        r = self.recs.get(cls)
        out = []
        if r:
            for m in r['m']:
                if m['n'] == name and m['id'] in self.fns:
                    out.append(self.fns[m['id']])
            if not out:
                for b in r['b']:
                    out += self.methods(b, name)
        return out

    def method(self, cls, name, nparams=None):
        for m in self.methods(cls, name):
            if nparams is None or len(m['params']) == nparams:
                return m
        return None

    def virtual(self, cls, mid):
        """final overrider of method id in class cls"""
        seen = cls
        while seen is not None:
            r = self.recs.get(seen)
            if r is None:
                return None
            for m in r['m']:
                if m['id'] == mid or mid in self.all_over(m):
                    return self.fns.get(m['id'])
            seen = r['b'][0] if r['b'] else None
        return None

    def all_over(self, m):
        out = list(m.get('over') or [])
        i = 0
        while i < len(out):
            for r in self.recs.values():
                for x in r['m']:
                    if x['id'] == out[i]:
                        out += [y for y in (x.get('over') or []) if y not in out]
            i += 1
        return out

    def dtor(self, cls):
        r = self.recs.get(cls)
        if r:
            for m in r['m']:
                if m['n'].startswith('~') and m['id'] in self.fns:
                    return self.fns[m['id']]
        return None

    def has_dtor(self, t):
        r = self._dt.get(t)
        if r is None:
            self._dt[t] = False
            if t.startswith('std::unique_ptr<'):
                r = True
            elif t.startswith('std::vector<') or t.startswith('std::optional<'):
                from interp import targs
                r = self.has_dtor(targs(t)[0])
            else:
                x = self.recs.get(t)
                r = False
                if x:
                    d = self.dtor(t)
                    if d is not None and d['body'] and d['body'].get('s'):
                        r = True
                    elif any(self.has_dtor(f['t']) for f in x['f']) or any(self.has_dtor(b) for b in x['b']):
                        r = True
            self._dt[t] = r
        return r

    def default_ctor(self, t):
        if not hasattr(self, '_dc'):
            self._dc = {}
            for f in self.fns.values():
                if f['kind'] == 'ctor' and not f['params']:
                    self._dc.setdefault(f['clst'], f)
        return self._dc.get(t)

    def find(self, qname, n=None):
        c = self.byname.get(qname, [])
        if n is not None:
            c = [f for f in c if len(f['params']) == n]
        return c[0] if c else None
