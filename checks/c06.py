"""C06: numbers, characters and argument counts from the input are checked before they are relied on."""
import ir, sim, fail, kinds
from c05 import SCANF, conversions

READERS = {'fgetc', 'getc', 'getchar', 'atoi', 'atol', 'strtol', 'strtoul', 'strtoll', 'atoll', '_IO_getc'}
ALLOC = {'malloc': [0], 'calloc': [0, 1], 'realloc': [1], 'reallocarray': [1, 2]}
COPY = {'memcpy': [2], 'memset': [2], 'memmove': [2], 'strncpy': [2], 'fread': [1, 2]}
# operations whose vertex arguments must be vertices of the graph (argument index of the graph: of the vertices)
VERTEX = {'gp_AddEdge': (0, [1, 3]), 'gp_DynamicAddEdge': (0, [1, 3]), 'gp_InsertEdge': (0, [1, 4]), 'gp_IsNeighbor': (0, [1, 2]),
          'gp_GetNeighborEdgeRecord': (0, [1, 2]), 'gp_GetVertexDegree': (0, [1]), 'gp_GetVertexInDegree': (0, [1]), 'gp_GetVertexOutDegree': (0, [1])}
# number fields filled from a file: (structure, field) -> (lowest value, graph quantity it must be below)
FIELDS = {('struct.DrawPlanar_VertexInfo', 'pos'): (0, 'N'), ('struct.DrawPlanar_VertexInfo', 'start'): (0, None), ('struct.DrawPlanar_VertexInfo', 'end'): (0, 'M'),
          ('struct.DrawPlanar_EdgeRec', 'pos'): (0, 'M'), ('struct.DrawPlanar_EdgeRec', 'start'): (0, None), ('struct.DrawPlanar_EdgeRec', 'end'): (0, 'N')}
G = 'struct.baseGraphStructure'


def scan_sites(m):
    """(call, [(target argument index)]) of the numeric conversions of each formatted read."""
    for f in m.defs.values():
        for I in f.calls():
            fi = SCANF.get(I.cname())
            if fi is None:
                continue
            fmt = m.string(I.a[fi]) or '%d' * 9
            cs = [c for s, c in conversions(fmt) if not s]
            yield I, [fi + 1 + j for j, c in enumerate(cs) if c in 'diuxXo' and fi + 1 + j < len(I.a)]


class Taint:
    """Flow-insensitive: which values may carry a number taken from input."""

    def __init__(self, m):
        self.m = m
        self.al, self.fld, self.ret, self.pp, self.val = set(), set(), set(), set(), set()
        self.scans = list(scan_sites(m))
        ch = True
        for I, ts in self.scans:
            for t in ts:
                self.target(I.fn, I.a[t])
        while ch:
            n = self.size()
            for f in m.defs.values():
                self.fn(f)
            ch = self.size() != n

    def size(self):
        return len(self.al) + len(self.fld) + len(self.ret) + len(self.pp) + len(self.val)

    def target(self, f, v):
        """The variable v points to receives a number from input."""
        k = v.get('v')
        if k is None:
            return
        if k < len(f.args):
            self.pp.add((f.name, k))
            return
        d = f.insts.get(k)
        if d is None:
            return
        if d.op == 'alloca':
            self.al.add((f.name, k))
        elif d.op == 'getelementptr':
            lf = ir.lastfield(d)
            if lf:
                self.fld.add(lf)
            else:
                self.target(f, d.a[0])
        elif d.op == 'load' and 'v' in d.a[0]:
            lf = ir.lastfield(f.insts.get(d.a[0]['v']))

    def tainted(self, f, v):
        return 'v' in v and (f.name, v['v']) in self.val

    def fn(self, f):
        m = self.m
        for I in f.insts.values():
            k = (f.name, I.id)
            if k in self.val and I.op not in ('store', 'call', 'ret'):
                continue
            if I.op == 'load':
                a = I.a[0].get('v')
                d = f.insts.get(a)
                if a is not None and (I.ty or '').startswith('i'):
                    if (f.name, a) in self.al or (f.name, a) in self.pp or (d is not None and d.op == 'getelementptr' and ir.lastfield(d) in self.fld):
                        self.val.add(k)
            elif I.op in ('add', 'sub', 'mul', 'shl', 'ashr', 'lshr', 'or', 'and', 'xor', 'sdiv', 'srem', 'udiv', 'urem', 'sext', 'zext', 'trunc', 'select', 'phi'):
                if any(self.tainted(f, o) for o in f.operands(I)) and I.ty != 'i1':
                    self.val.add(k)
            elif I.op == 'call':
                for c in m.callees(I):
                    if (c in READERS or c in self.ret) and I.ty != 'void':
                        self.val.add(k)
                    g = m.defs.get(c)
                    if g is not None:
                        for i, a in enumerate(I.a):
                            if i < len(g.args):
                                if self.tainted(f, a):
                                    self.val.add((c, i))
                                if (c, i) in self.pp:
                                    self.target(f, a)
            elif I.op == 'ret' and I.a and self.tainted(f, I.a[0]) and fail_free(f):
                self.ret.add(f.name)
            elif I.op == 'store' and self.tainted(f, I.a[0]):
                a = I.a[1].get('v')
                d = f.insts.get(a)
                if a is not None and a < len(f.args):
                    pass        # delivered through a reference: checked where it is stored
                elif d is not None and d.op == 'alloca':
                    self.al.add((f.name, a))


def fail_free(f):
    """The result is data, not a status."""
    return kinds.fail_value(f.name) is None


class C(sim.Client):
    wants_use = True

    def __init__(self, an, f, params=None):
        self.an, self.f, self.m = an, f, an.m
        self.bad = {}
        self.params = params
        self.argc = None
        if params is None and len(f.args) >= 2:
            for i, a in enumerate(f.args[:-1]):
                if a[2] == 'argc' or (f.name == 'main' and i == 0):
                    self.argc = i

    def init(self, s, st):
        for i, a in enumerate(self.f.args):
            if a[1] == 'ptr':
                st.facts[i] = (1, sim.INF, ())
        if self.argc is not None:
            st.facts[self.argc] = (self.an.argc.get(self.f.name, 0), sim.INF, ())

    def T(self, v):
        if 'v' not in v:
            return False
        k = v['v']
        if k < len(self.f.args):
            return self.params is not None and k in self.params
        if self.params is None:
            return self.derived(k)
        return self.derived(k)

    def derived(self, k):
        """SSA value k carries an input number (not one that only came in through an unmarked parameter)."""
        return k in self.an.roots(self.f, self.params or frozenset())

    # ---- bounds
    def bounds(self, st, v):
        """(lower known, upper known) against constants or untainted quantities."""
        r = st.rng(v)
        lo, hi = r[0] > -(1 << 31), r[1] < (1 << 31) - 1
        if v[0] == 's':
            for (a, b), c in st.diff.items():
                if a == v[1] and not self.inp(b):
                    hi = True
                if b == v[1] and not self.inp(a):
                    lo = True
        return lo, hi

    def inp(self, key):
        while isinstance(key, tuple) and len(key) > 1:
            key = key[1]
        return isinstance(key, int) and key in self.an.roots(self.f, self.params or frozenset())

    def below(self, st, v, fld, off):
        """v <= graph->fld + off is known."""
        r = st.rng(v)
        for a, w in st.mem.items():
            if a[0] == 'a' and a[2] and a[2][-1] == ('f', G, fld):
                if w[0] == 's' and v[0] == 's':
                    if st.dub2(v[1], w[1]) <= w[2] - v[2] + off:
                        return True
                wr = st.rng(w)
                if r[1] < sim.INF and wr[0] > -sim.INF and r[1] <= wr[0] + off:
                    return True
        return False

    def report(self, st, I, what):
        self.bad.setdefault((I.id, what), (I, what, sim.trail(st)))

    def need(self, st, I, v, what, low=None):
        lo, hi = self.bounds(st, v)
        self.an.sinks.add((self.f.name, I.id, what))
        if low is not None and lo and st.rng(v)[0] < low and not self.difflow(st, v):
            lo = False
        if not lo:
            self.report(st, I, 'a number from input is used as %s without a check of its lower bound' % what)
        elif not hi:
            self.report(st, I, 'a number from input is used as %s without a check of its upper bound' % what)

    def difflow(self, st, v):
        return v[0] == 's' and any(b == v[1] and not self.inp(a) for (a, b) in st.diff)

    def use(self, s, st, I):
        if I.op == 'getelementptr':
            for p in I.path:
                if p['k'] == 'idx' and self.T(p['v']):
                    self.need(st, I, s.ev(st, p['v']), 'an index', 0)
        elif I.op == 'store' and self.T(I.a[0]):
            d = self.f.insts.get(I.a[1].get('v'))
            lf = ir.lastfield(d)
            v = s.ev(st, I.a[0])
            if lf and lf[0].startswith('struct.') and not (all(self.bounds(st, v)) and lf not in FIELDS):
                self.again(st, I)
                st.cl = (st.cl or frozenset()) | {(I.id, lf, s.ev(st, I.a[1]))}
                self.an.sinks.add((self.f.name, I.id, 'kept'))
        if I.op == 'load' and I.ty == 'i8' and 'v' in I.a[0] and self.an.app(self.f):
            a = s.ev(st, I.a[0])
            if a[0] == 'a' and a[1][0] == 's' and len(a[2]) == 1 and a[2][0][1][0] == 'c' and a[2][0][1][1] >= 1 and self.text(a[1][1]):
                self.an.chars.add((self.f.name, I.id))
                for j in range(a[2][0][1][1]):
                    w = st.mem.get(('a', a[1], (('i', ('c', j)),))) or (st.mem.get(('a', a[1], ())) if j == 0 else None)
                    if w is None or st.decide('eq', w, sim.C0) is not False:
                        self.report(st, I, 'a character of a command text is read though the text may end before it')
                        break
        if self.argc is not None and I.op == 'load' and 'v' in I.a[0]:
            a = s.ev(st, I.a[0])
            if a[0] == 'a' and a[1] == ('s', self.argc + 1, 0) and len(a[2]) == 1:
                self.an.argreads.add((self.f.name, I.id))
                i = a[2][0][1]
                if st.decide('slt', i, ('s', self.argc, 0)) is not True:
                    self.report(st, I, 'a command line argument is used though there may be fewer arguments')

    def text(self, k):
        """The symbol is a text given on the command line: an element of argv."""
        while isinstance(k, tuple) and len(k) > 1:
            k = k[1]
        d = self.f.insts.get(k) if isinstance(k, int) else None
        return d is not None and d.op == 'load' and d.ty == 'ptr' and (self.f.name, k) in self.an.argreads

    # ---- numbers put into records: checked before success is reported or the next record is read
    def clsyms(self, cl):
        r = set()
        for i, lf, a in cl or ():
            sim.syms_in(a, r)
        return r

    def clsubst(self, cl, k, new):
        if not cl:
            return cl
        return frozenset((i, lf, sim.subst(a, k, new)) for i, lf, a in cl)

    def kept(self, st, addr, lf):
        v = st.mem.get(addr) if addr != sim.TOP else None
        if v is None:
            return False
        if lf in FIELDS:
            low, q = FIELDS[lf]
            if st.rng(v)[0] < low:
                return False
            if q is None:
                return self.bounds(st, v)[1]
            return self.below(st, v, q, -1) or st.const(v) == low
        return all(self.bounds(st, v))

    def edge(self, s, st):
        if st.cl:
            st.cl = frozenset(p for p in st.cl if not self.kept(st, p[2], p[1])) or None

    def again(self, st, I):
        if st.cl:
            old = frozenset(p for p in st.cl if p[0] == I.id)
            for p in old:
                self.report(st, I, 'the number from input kept in %s is not checked against its bounds before the next one is read' % p[1][1])
            st.cl = st.cl - old or None

    def ret(self, s, st, I, v):
        self.edge(s, st)
        fv = kinds.fail_value(self.f.name)
        if st.cl and not (v is not None and fv is not None and st.const(v) == fv):
            for p in st.cl:
                self.report(st, self.f.insts[p[0]], 'the number from input kept in %s is not checked against its bounds' % p[1][1])

    def call(self, s, st, I, args):
        n = I.cname() or ''
        if (self.f.name, I.id) in self.an.targets:
            self.again(st, I)
        for j in self.an.targets.get((self.f.name, I.id), ()):
            lf = ir.lastfield(self.f.insts.get(I.a[j].get('v')))
            if lf and lf[0].startswith('struct.'):
                st.cl = (st.cl or frozenset()) | {(I.id, lf, args[j])}
                self.an.sinks.add((self.f.name, I.id, 'kept %d' % j))
        for j in ALLOC.get(n, COPY.get(n, ())):
            if j < len(I.a) and self.T(I.a[j]):
                self.need(st, I, args[j], 'a size', 0)
        if n in VERTEX:
            gi, vs = VERTEX[n]
            for j in vs:
                if j < len(I.a) and self.T(I.a[j]):
                    self.an.sinks.add((self.f.name, I.id, 'v%d' % j))
                    if not st.rng(args[j])[0] >= 1:
                        self.report(st, I, 'a number from input is used as a vertex without a check that it is not below the first vertex')
                    elif not self.below(st, args[j], 'N', 0):
                        self.report(st, I, 'a number from input is used as a vertex without a check that it is not above the last vertex')
            return None
        for c in self.m.callees(I):
            g = self.m.defs.get(c)
            if g is None:
                continue
            if self.argc is not None:
                for i, a in enumerate(args):
                    if a == ('s', self.argc, 0):
                        self.an.argc_in.setdefault(c, []).append(st.rng(a)[0])
            ps = frozenset(i for i, a in enumerate(I.a) if i < len(g.args) and self.T(a) and g.args[i][1] != 'ptr' and not all(self.bounds(st, args[i])))
            if ps:
                self.an.todo((c, ps))
        return None


class An:
    def __init__(self, m, K):
        self.m, self.K = m, K
        self.t = Taint(m)
        self.ms, self.rs = sim.compute_modsets(m), sim.compute_retsets(m)
        self.sinks, self.stores, self.argreads = set(), [], set()
        self.work, self.done, self._roots = [], set(), {}
        self.targets, self.chars = {}, set()
        for I, ts in self.t.scans:
            self.targets[(I.fn.name, I.id)] = ts
        self.argc, self.argc_in = {'main': 1}, {}

    @staticmethod
    def app(f):
        return (f.file or '').startswith('c/planarityApp')

    def todo(self, k):
        if k not in self.done:
            self.done.add(k)
            self.work.append(k)

    def roots(self, f, params):
        """SSA values of f that derive from input read in f or from the marked parameters."""
        key = (f.name, params)
        if key in self._roots:
            return self._roots[key]
        t, r = self.t, set(params)
        ch = True
        while ch:
            ch = False
            for I in f.insts.values():
                if I.id in r or I.ty in ('i1', 'void', 'ptr'):
                    continue
                ok = False
                if I.op == 'load' and 'v' in I.a[0]:
                    a = I.a[0]['v']
                    d = f.insts.get(a)
                    # numbers kept in records were checked when they were put there
                    ok = (f.name, a) in t.al or (f.name, a) in t.pp
                elif I.op == 'call':
                    ok = any(c in READERS or c in t.ret for c in self.m.callees(I))
                elif I.op in ('add', 'sub', 'mul', 'shl', 'ashr', 'lshr', 'or', 'and', 'xor', 'sdiv', 'srem', 'udiv', 'urem', 'sext', 'zext', 'trunc', 'select', 'phi'):
                    ok = any('v' in o and o['v'] in r for o in f.operands(I))
                if ok:
                    r.add(I.id)
                    ch = True
        self._roots[key] = r
        return r


def run(ctx):
    m = ctx.mod()
    sim.St.keepdiff = True
    an = An(m, 256 if ctx.thorough else 64)
    found = {}

    def go(fn, ps):
        f = m.defs[fn]
        c = C(an, f, ps)
        sim.Sim(m, f, c, K=an.K, modsets=an.ms, retsets=an.rs).run()
        found[(fn, ps)] = c.bad

    # functions that are handed the command line, callers first
    cl, pend = ['main'], ['main']
    while pend:
        fn = pend.pop(0)
        an.argc_in = {}
        go(fn, None)
        for c, los in an.argc_in.items():
            if c in m.defs and c not in cl:
                an.argc[c] = min(los)
                cl.append(c)
                pend.append(c)
            elif c in an.argc and min(los) < an.argc[c]:
                an.argc[c] = min(los)
                pend.append(c)
    ctx.count('command_line_functions', len(cl))
    for f in m.defs.values():
        if (an.app(f) or an.roots(f, frozenset()) or any(I.cname() in SCANF for I in f.calls())) and f.name not in cl:
            an.todo((f.name, None))
    while an.work:
        fn, ps = an.work.pop()
        ctx.count('functions_analysed')
        go(fn, ps)
    for (fn, ps), bad in sorted(found.items(), key=repr):
        for (I, what, tr) in bad.values():
            ctx.violation('%s:%s' % (fn, what), '%s: %s' % (fn, what), I.where(), tr)
    ctx.count('uses_checked', len(an.sinks))
    ctx.count('argument_reads', len(an.argreads))
    ctx.count('text_positions', len(an.chars))
    ctx.rule = ('a number read from input is an index, a size or a vertex only after both bounds were tested, and what is kept of it in a record is tested before success is reported; '
                'an element of the command line is used only when the count exceeds its position, and a later character of one only when the earlier are known not to end it')
    ctx.assumptions.append('characters read singly count as input numbers; texts handed on between functions are not tracked character by character')
    ctx.need('uses_checked', 12)
    ctx.need('argument_reads', 40)
    ctx.need('command_line_functions', 8)
