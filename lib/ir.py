"""The resolved program: build /repo's C sources to LLVM IR, dump, load."""
import json, os, re, subprocess, sys, hashlib, tempfile, shutil, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEFS = ['-DHAVE_STDIO_H=1', '-DHAVE_STDLIB_H=1', '-DHAVE_STRING_H=1', '-DHAVE_INTTYPES_H=1',
        '-DHAVE_STDINT_H=1', '-DHAVE_STRINGS_H=1', '-DHAVE_UNISTD_H=1', '-DHAVE_CTYPE_H=1', '-DHAVE_TIME_H=1']


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (neither pass nor violation)."""


def sources():
    """C sources the build compiles (Makefile.am), plus any other .c under c/ that those reference."""
    mk = open(os.path.join(REPO, 'Makefile.am')).read()
    files = re.findall(r'(c/[\w./-]+\.c)\b', mk)
    seen = []
    for f in files:
        if f not in seen and os.path.exists(os.path.join(REPO, f)):
            seen.append(f)
    if len(seen) < 20:
        raise AnalysisError('Makefile.am lists only %d existing C sources' % len(seen))
    return seen


def irdump_path():
    p = os.path.join(VERIF, 'engine', 'irdump')
    if not os.path.exists(p):
        subprocess.check_call(['bash', os.path.join(VERIF, 'engine', 'build.sh')])
    return p


def tree_key(extra):
    h = hashlib.sha256()
    for root in ('c/graphLib', 'c/planarityApp'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    h.update(open(os.path.join(REPO, 'Makefile.am'), 'rb').read())
    h.update(open(os.path.join(VERIF, 'engine', 'irdump.cpp'), 'rb').read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


_cache = {}


def rel(p):
    return os.path.relpath(p, REPO)


def load(keep=True, defs=(), indet=False, drop=(), thread=False):
    """Load the program.  keep=True: inline every function not in baseline/functions.txt.
    indet=True: scalar locals start with the result of a call to __indeterminate.*.
    drop: further functions to inline.
    thread=True: paths on which a status tested twice takes different values are separated."""
    keepf = os.path.join(VERIF, 'baseline', 'functions.txt') if keep else '-'
    extra = (keep, tuple(defs), indet, open(keepf).read() if keep else '') + ((tuple(sorted(drop)),) if drop else ()) + (('thread',) if thread else ())
    key = tree_key(extra)
    if key in _cache:
        return _cache[key]
    d = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        srcs = sources()
        if drop:
            lines = [l for l in open(keepf).read().split() if l not in drop]
            keepf = os.path.join(d, 'keep.txt')
            with open(keepf, 'w') as fh:
                fh.write('\n'.join(lines) + '\n')
        def comp(s):
            o = os.path.join(d, s.replace('/', '_') + '.bc')
            r = subprocess.run(['clang-18', '-std=gnu17', '-O0', '-g', '-w', '-Xclang', '-disable-O0-optnone',
                                '-emit-llvm', '-c', os.path.join(REPO, s), '-o', o] + DEFS + list(defs),
                               capture_output=True, text=True, cwd=REPO)
            if r.returncode:
                raise AnalysisError('clang failed on %s:\n%s' % (s, r.stderr[:2000]))
            return o
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(comp, srcs))
        out = os.path.join(d, 'o.json')
        r = subprocess.run([irdump_path(), out, keepf] + bcs, capture_output=True, text=True,
                           env=dict({k: v for k, v in os.environ.items() if k not in ('VERIF_INDET', 'VERIF_THREAD')},
                                    **({'VERIF_INDET': '1'} if indet else {}), **({'VERIF_THREAD': '1'} if thread else {})))
        if r.returncode:
            raise AnalysisError('irdump failed: ' + r.stderr[:2000])
        m = Module(json.load(open(out)), srcs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _cache[key] = m
    return m


class Inst:
    __slots__ = ('id', 'op', 'ty', 'a', 'loc', 'nm', 'blk', 'fn', 'pred', 'path', 'inc', 'succ', 'cases', 'callee',
                 'idx', 'size', 'aty')

    @property
    def file(self):
        return rel(self.loc[0]) if self.loc else (self.fn.file or '?')

    @property
    def line(self):
        return self.loc[1] if self.loc else 0

    def where(self):
        s = '%s:%d' % (self.file, self.line)
        if self.loc and len(self.loc) > 2:
            s += ' (inlined at %s)' % ', '.join(rel(x) for x in self.loc[2:])
        return s

    def cname(self):
        """Direct callee name or None."""
        return self.callee.get('fn') if self.op == 'call' and self.callee else None

    def __repr__(self):
        return '<%s %s#%d %s>' % (self.op, self.fn.name, self.id, self.where())


class Block:
    __slots__ = ('id', 'insts', 'preds', 'fn')

    @property
    def term(self):
        return self.insts[-1]

    def succs(self):
        t = self.insts[-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.succ))
        if t.op == 'switch':
            return list(dict.fromkeys([c[1] for c in t.cases] + t.succ))
        return []


class Function:
    def __init__(self, mod, name, d):
        self.mod, self.name = mod, name
        self.decl, self.internal, self.vararg = d['decl'], d['internal'], d['vararg']
        self.addrtaken, self.noreturn, self.ret = d['addrtaken'], d['noreturn'], d['ret']
        self.args = [(a[0], a[1], a[2]) for a in d['args']]
        self.dity = d.get('dity', [])
        self.file = rel(d['file']) if d.get('file') else None
        self.defline = d.get('line', 0)
        self.blocks, self.insts, self.uses = [], {}, {}
        for bi, b in enumerate(d['blocks']):
            B = Block()
            B.id, B.fn, B.insts, B.preds = bi, self, [], []
            for k, i in enumerate(b):
                I = Inst()
                I.id, I.op, I.ty = i['id'], i['op'], i['ty']
                I.a = i.get('a', [])
                I.loc, I.nm, I.blk, I.fn = i.get('loc'), i.get('nm'), B, self
                I.pred, I.path, I.inc = i.get('pred'), i.get('path'), i.get('in')
                I.succ, I.cases, I.callee = i.get('succ'), i.get('cases'), i.get('callee')
                I.size, I.aty = i.get('size'), i.get('aty')
                I.idx = k
                B.insts.append(I)
                self.insts[I.id] = I
            self.blocks.append(B)
        for B in self.blocks:
            for s in B.succs():
                self.blocks[s].preds.append(B.id)
        for I in self.insts.values():
            for v in self.operands(I):
                if 'v' in v:
                    self.uses.setdefault(v['v'], []).append(I)
        self._live = None

    def operands(self, I):
        r = list(I.a)
        if I.inc:
            r += [x[1] for x in I.inc]
        if I.path:
            r += [p['v'] for p in I.path if p['k'] == 'idx']
        if I.callee:
            r.append(I.callee)
        return r

    def argname(self, i):
        return self.args[i][2] or 'arg%d' % i

    def isarg(self, vid):
        return vid < len(self.args)

    def calls(self):
        for B in self.blocks:
            for I in B.insts:
                if I.op == 'call':
                    yield I

    def livein(self):
        """SSA ids live at entry to each block (phi operands live at end of pred)."""
        if self._live is not None:
            return self._live
        use, dfn = {}, {}
        phi_use = {b.id: set() for b in self.blocks}
        for b in self.blocks:
            u, d = set(), set()
            for I in b.insts:
                if I.op == 'phi':
                    for pb, v in I.inc:
                        if 'v' in v:
                            phi_use[pb].add(v['v'])
                else:
                    for v in self.operands(I):
                        for x in _vids(v):
                            if x not in d:
                                u.add(x)
                d.add(I.id)
            use[b.id], dfn[b.id] = u, d
        live = {b.id: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.blocks):
                o = set(phi_use[b.id])
                for s in b.succs():
                    o |= live[s]
                n = use[b.id] | (o - dfn[b.id])
                if n != live[b.id]:
                    live[b.id] = n
                    ch = True
        # phis are evaluated on entry: their results are live-in for use by the block
        for b in self.blocks:
            for I in b.insts:
                if I.op == 'phi':
                    live[b.id].add(I.id)
        self._live = live
        return live

    def __repr__(self):
        return '<fn %s>' % self.name


def _vids(v):
    if 'v' in v:
        return [v['v']]
    return []


class Module:
    def __init__(self, d, srcs):
        self.srcs = srcs
        self.structs, self.globals = d['structs'], d['globals']
        self.inlined = d['inlined']
        self.funcs = {n: Function(self, n, f) for n, f in d['funcs'].items()}
        self.defs = {n: f for n, f in self.funcs.items() if not f.decl}
        self._slots = None

    def fn(self, name, need=True):
        f = self.defs.get(name)
        if f is None and need:
            raise AnalysisError('anchor function %s not found' % name)
        return f

    def string(self, v):
        """The literal text of a constant string operand, or None."""
        if 'g' in v:
            g = self.globals.get(v['g'])
            if g and 'init' in g:
                if 'str' in g['init']:
                    return g['init']['str']
                if g['init'].get('zero') and g['const']:
                    return ''
        return None

    def slot_targets(self):
        """struct graphFunctionTable slot -> set of functions stored into it anywhere."""
        if self._slots is None:
            s = {}
            for f in self.defs.values():
                for I in f.insts.values():
                    if I.op == 'store' and 'fn' in I.a[0] and 'v' in I.a[1]:
                        g = f.insts.get(I.a[1]['v'])
                        fld = lastfield(g)
                        if fld and fld[0] == 'struct.graphFunctionTable':
                            s.setdefault(fld[1], set()).add(I.a[0]['fn'])
            self._slots = s
        return self._slots

    def slot_of(self, I):
        """For an indirect call through the graph function table: slot name."""
        if I.op != 'call' or 'v' not in I.callee:
            return None
        f = I.fn
        l = f.insts.get(I.callee['v'])
        if l is not None and l.op == 'load' and 'v' in l.a[0]:
            g = f.insts.get(l.a[0]['v'])
            fld = lastfield(g)
            if fld and fld[0] == 'struct.graphFunctionTable':
                return fld[1]
        return None

    def callees(self, I):
        """All possible internal/external callee names of a call."""
        n = I.cname()
        if n:
            return [n]
        s = self.slot_of(I)
        if s:
            return sorted(self.slot_targets().get(s, ()))
        if 'v' in I.callee:
            l = I.fn.insts.get(I.callee['v'])
            if l is not None and l.op == 'load' and 'v' in l.a[0]:
                fld = lastfield(I.fn.insts.get(l.a[0]['v']))
                if fld and fld[0] == 'struct.graphExtension':
                    return sorted(self.ext_fns(fld[1]))
        return ['?']

    def ext_fns(self, fld):
        """dupContext/freeContext targets: function args passed to gp_AddExtension."""
        r = set()
        for f in self.defs.values():
            for I in f.calls():
                if I.cname() == 'gp_AddExtension':
                    for a in I.a:
                        if 'fn' in a:
                            n = a['fn']
                            isdup = self.funcs[n].ret == 'ptr'
                            if isdup == (fld == 'dupContext'):
                                r.add(n)
        return r

    def callgraph(self):
        g = {}
        for f in self.defs.values():
            s = set()
            for I in f.calls():
                s.update(self.callees(I))
            g[f.name] = s
        return g

    def reach(self, roots, stop=()):
        g, seen, st = self.callgraph(), set(), list(roots)
        while st:
            n = st.pop()
            if n in seen or n in stop:
                continue
            seen.add(n)
            st += [x for x in g.get(n, ()) if x not in seen]
        return seen


def lastfield(g):
    """(struct, field) of the final field of a GEP instruction / constexpr, or None."""
    if g is None:
        return None
    path = g.path if isinstance(g, Inst) else g.get('path')
    if not path:
        return None
    for p in reversed(path):
        if p['k'] == 'fld':
            return (p['s'], p['f'])
    return None
