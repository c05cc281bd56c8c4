"""C20: results the application reports were checked against a copy of the input taken before."""
import ir, sim, c27

EMBED, TEST = 'gp_Embed', 'gp_TestEmbedResultIntegrity'
# reports of a result: function -> argument holding the graph (None: any result under way)
REPORT = {'gp_Write': 0, 'gp_WriteToString': 0, 'gp_DrawPlanar_RenderToFile': 0, 'gp_DrawPlanar_RenderToString': 0, 'SaveAsciiGraph': 0, 'WriteAlgorithmResults': None}
# (reviewed) the command line of version 1.x reports without testing
CURR = ('struct.G6ReadIterator', 'currGraph')
LEGACY = {'legacyCommandLine'}
SORTS = {'gp_SortVertices'}
# what makes up the graph
CORE = {('struct.edgeRec', 'neighbor'), ('struct.edgeRec', 'link'), ('struct.vertexRec', 'link'), ('struct.vertexRec', 'index'), ('struct.baseGraphStructure', 'M'), ('struct.baseGraphStructure', 'N'),
        ('struct.baseGraphStructure', 'E'), ('struct.baseGraphStructure', 'V'), ('struct.baseGraphStructure', 'E[]'), ('struct.baseGraphStructure', 'V[]')}


class C(sim.Client):
    """State: ('copy', copy, graph) taken and both unchanged; ('orig', copy, graph) the copy still holds what was embedded;
    ('open', graph, result) embedded and not tested; ('bad',) a test failed and nothing was reported since."""

    def __init__(self, m, f, ro):
        self.m, self.f, self.ro = m, f, ro
        self.bad, self.n = {}, {}
        # local variables that hold graphs and whose address is taken
        self.vars = set()
        for I in f.calls():
            for a in I.a:
                l = f.insts.get(a.get('v'))
                if (I.cname() or '').startswith('gp_') and l is not None and l.op == 'load':
                    v = f.insts.get(l.a[0].get('v'))
                    if v is not None and v.op == 'alloca':
                        self.vars.add(v.id)

    def var(self, addr):
        if addr != sim.TOP and addr[0] == 'a' and addr[1][0] == 'al' and not addr[2] and addr[1][1] in self.vars:
            return ('s', ('graph in', addr[1][1]), 0)
        return None

    def drop(self, st, v):
        st.facts.pop(v[1], None)
        st.cl = frozenset(x for x in st.cl or () if v not in x[1:])

    def store(self, s, st, I, addr, val):
        v = self.var(addr)
        if v:
            self.drop(st, v)
            if isinstance(val, tuple) and val[0] == 's' and val[2] == 0:
                st.cl = frozenset((x[0],) + tuple(v if y == val else y for y in x[1:]) for x in st.cl or ())
            g = st.rng(val)
            st.facts[v[1]] = (g[0], g[1], tuple(g[2]) if len(g) > 2 and g[2] else ())

    def clsyms(self, cl):
        r = set()
        for x in cl or ():
            for y in x[1:]:
                if isinstance(y, tuple):
                    sim.syms_in(y, r)
        return r

    def clsubst(self, cl, k, new):
        return frozenset((x[0],) + tuple(sim.subst(y, k, new) if isinstance(y, tuple) else y for y in x[1:]) for x in cl) if cl else cl

    def err(self, key, I, msg, st):
        self.bad.setdefault((key, I.id), (I, key, msg, sim.trail(st)))

    def opened(self, st, g=None):
        r = []
        for x in st.cl or ():
            if x[0] == 'open' and (g is None or x[1] == g):
                lo, hi, ne = st.rng(x[2])
                if not (lo == hi == 0):
                    r.append(x)
        return r

    def load(self, s, st, I, addr, val):
        v = self.var(addr)
        if v:
            return v
        # the graph of an iterator stays the same until an operation changes it
        if addr != sim.TOP and addr[0] == 'a' and addr[2] and addr[2][-1] == ('f',) + CURR:
            return ('s', ('graph of', addr[1]), 0)
        return None

    def call(self, s, st, I, args):
        n = I.cname()
        for c in self.m.callees(I):
            if any(k == CURR for p, k in self.ro.eff.get(c, ())):
                for k in list(st.facts):
                    if isinstance(k, tuple) and k[0] == 'graph of':
                        st.facts.pop(k)
                st.cl = frozenset(x for x in st.cl or () if not any(isinstance(y, tuple) and len(y) == 3 and isinstance(y[1], tuple) and y[1][0] == 'graph of' for y in x[1:]))
        for a in args:
            if isinstance(a, tuple) and self.var(a):
                self.drop(st, self.var(a))
        cl = set(st.cl or ())
        if n == 'gp_DupGraph':
            s.default_call(st, I, args)
            v = s.ev(st, {'v': I.id})
            st.cl = frozenset({x for x in cl if v not in x} | {('copy', v, args[0])})
            return [st]
        if n == 'gp_CopyGraph':
            a, b = st, st.copy()
            s.default_call(a, I, args)
            s.default_call(b, I, args)
            keep = {x for x in cl if not (x[0] in ('copy', 'orig') and args[0] in x[1:])}
            a.cl = frozenset(keep | {('copy', args[0], args[1])})
            a.env[I.id] = ('c', 1)
            b.cl = frozenset(keep)
            b.env[I.id] = ('c', 0)
            return [a, b]
        if n == EMBED:
            self.n['embeds'] = self.n.get('embeds', 0) + 1
            if self.opened(st):
                self.err('untested', I, 'embeds another graph although the previous result was not tested', st)
            g = args[0]
            res = []
            for r in (1, -1, 0):
                x = st.copy()
                s.default_call(x, I, args)
                x.env[I.id] = ('c', r)
                x.facts.pop(I.id, None)
                k = {y for y in cl if y[0] != 'open' and y != ('bad',) and not (y[0] == 'copy' and g in y[1:])}
                k |= {('orig', y[1], g) for y in cl if y[0] == 'copy' and y[2] == g}
                if r:
                    k.add(('open', g, ('c', r)))
                x.cl = frozenset(k)
                res.append(x)
            return res
        if n == TEST:
            self.n['tests'] = self.n.get('tests', 0) + 1
            g, o, r = args[:3]
            op = self.opened(st, g)
            if op:
                if ('orig', o, g) not in cl:
                    self.err('copy', I, 'the result is tested against something other than an unchanged copy taken before the embedding', st)
                c = st.const(r)
                if c is not None and ('c', c) != op[0][2] and c != 0 or c is None and r != op[0][2]:
                    self.err('result', I, 'the test is given another result than the embedding returned', st)
            elif any(x[0] == 'orig' and x[1] == g and self.opened(st, x[2]) for x in cl):
                self.err('copy', I, 'the copy of the input is tested instead of the result', st)
            elif st.const(r) not in (0, None) and not any(x[0] == 'open' for x in cl):
                self.err('early', I, 'a result is tested that no embedding has returned', st)
            rest = frozenset(x for x in cl if x[0] not in ('open',))
            res = []
            for v in (r, ('c', 0)):
                x = st.copy()
                s.default_call(x, I, args)
                x.env[I.id] = v
                x.facts.pop(I.id, None)
                x.cl = rest | {('bad',)} if v == ('c', 0) and st.const(r) != 0 else rest
                if v == ('c', 0) and st.const(r) == 0:
                    continue
                res.append(x)
            return res
        if n in REPORT:
            self.n['reports'] = self.n.get('reports', 0) + 1
            g = args[REPORT[n]] if REPORT[n] is not None else None
            if self.opened(st, g):
                self.err('untested', I, 'reports a result that was not tested', st)
            if ('bad',) in cl and n == 'WriteAlgorithmResults':
                c = st.const(args[1])
                if c != 0:
                    self.err('failed', I, 'reports a result that failed its test', st)
            return None
        # anything else that changes a copy or the graph it was taken from
        mut = []
        for j, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == 's' and any(a in x[1:] for x in cl if x[0] in ('copy', 'orig')):
                for c in self.m.callees(I):
                    if c in self.m.defs and any(p == j and k in CORE for p, k in self.ro.eff[c]) and (
                            c not in SORTS or any(x[0] in ('copy', 'orig') and x[1] == a for x in cl)):
                        mut.append(a)
        if mut:
            st.cl = frozenset(x for x in cl if not (x[0] == 'copy' and any(a in x[1:] for a in mut) or x[0] == 'orig' and x[1] in mut))
        return None

    def ret(self, s, st, I, val):
        lo, hi, ne = st.rng(val) if val is not None else (0, 1, ())
        if self.opened(st) and not (lo == hi == 0):
            self.err('untested', I, 'returns a result that was not tested', st)
        if ('bad',) in (st.cl or ()) and not (lo == hi == 0):
            self.err('failed', I, 'reports success although the result failed its test', st)


def run(ctx):
    ctx.rule = ('typestate simulation of every application function that embeds: before the embedding a copy of the very graph is taken (and neither changed since); after an embedding that did not fail, '
                'every path to a report (writing or drawing the graph, announcing or returning the result, or the next embedding) passes the integrity test of that graph, that copy and that result, and a '
                'failed test leads to failure')
    ctx.assumptions = ['reviewed: %s reports without testing, as it did in version 1.x' % ', '.join(sorted(LEGACY))]
    m = ctx.mod()
    ro = c27.FxAn(m)
    ms, rs = sim.compute_modsets(m), sim.compute_retsets(m)
    for f in m.defs.values():
        if not (f.file or '').startswith('c/planarityApp') or f.name in LEGACY:
            continue
        if not any(I.cname() == EMBED for I in f.calls()):
            continue
        ctx.count('embedding_functions')
        c = C(m, f, ro)
        sim.Sim(m, f, c, K=32 if ctx.thorough else 6, modsets=ms, retsets=rs).run()
        for k, v in c.n.items():
            ctx.count(k, v)
        for I, key, msg, tr in c.bad.values():
            ctx.violation('%s:%s' % (f.name, key), '%s %s' % (f.name, msg), I.where(), tr)
    ctx.need('embedding_functions', 4)
    ctx.need('tests', 4)
    ctx.need('reports', 4)
