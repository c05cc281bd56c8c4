"""C27: queries, writers, copies and integrity checks leave the graph unchanged."""
import ir, sim, effects, objtypes

FRESH = {'malloc', 'calloc', 'realloc', 'strdup', 'fopen'}
GRAPH = 'struct.baseGraphStructure'
# operation -> arguments it must not change anything through
READONLY = {
    'gp_Write': (0,), 'gp_WriteToString': (0,), 'gp_DrawPlanar_RenderToFile': (0,), 'gp_DrawPlanar_RenderToString': (0,),
    'gp_IsNeighbor': (0,), 'gp_GetNeighborEdgeRecord': (0,), 'gp_GetVertexDegree': (0,), 'gp_GetVertexInDegree': (0,), 'gp_GetVertexOutDegree': (0,),
    'gp_GetArcCapacity': (0,), 'gp_FindExtension': (0,), 'gp_GetExtension': (0,), 'gp_CopyGraph': (1,), 'gp_CopyAdjacencyLists': (1,), 'gp_DupGraph': (0,),
    'gp_CopyExtensions': (1,), 'sp_Duplicate': (0,), 'sp_Copy': (1,), 'sp_CopyContent': (1,), 'sb_Duplicate': (0,), 'sb_Copy': (1,),
    'getNumGraphsRead': (0,), 'getOrderOfGraphToRead': (0,), 'getPointerToGraphReadIn': (0,),
    'getNumGraphsWritten': (0,), 'getOrderOfGraphToWrite': (0,), 'getPointerToGraphToWrite': (0,), 'getGraphBuff': (0,),
    'SaveAsciiGraph': (0,),
    'writeGraphUsingG6WriteIterator': (0,), '_WriteGraphToG6FilePath': (0,), '_WriteGraphToG6FilePointer': (0,), '_WriteGraphToG6String': (0,),
}
SLOTS = {'fpWritePostprocess': (0,)}
CHECK = {'gp_TestEmbedResultIntegrity': (0, 1)}
# object structures that the operation itself owns and works in
OWN = ('struct.G6WriteIterator', 'struct.strOrFile', 'struct.strBuf')
SORT = 'gp_SortVertices'
VISITED = {'struct.vertexRec': 'VISITED', 'struct.edgeRec': 'VISITED'}


class FxAn:
    """What each function may store to, per parameter: (parameter, (structure, field)) -> (function, instruction)."""

    def __init__(self, m, stop=()):
        self.m, self.stop = m, set(stop)
        self.eff = {n: {} for n in m.defs}
        self.ret = {n: set() for n in m.defs}
        self.out = {n: {} for n in m.defs}
        self.sites = 0
        while self.round():
            pass

    def round(self):
        ch = False
        for f in self.m.defs.values():
            ch |= self.function(f)
        return ch

    def keys(self, f, v, d=0):
        """Storage a pointer operand addresses, as (structure, field) pairs; ('', k) = directly what parameter k points at."""
        if d > 12:
            return {('?', '?')}
        if v.get('ce') == 'gep':
            fl = ir.lastfield(v)
            return {fl} if fl else self.keys(f, v['base'], d + 1)
        if 'v' not in v:
            return {('glob', v.get('g', '?'))}
        if f.isarg(v['v']):
            return {('', v['v'])}
        g = f.insts[v['v']]
        if g.op == 'getelementptr':
            fl = ir.lastfield(g)
            return {fl} if fl else self.keys(f, g.a[0], d + 1)
        if g.op == 'load':
            r = set()
            for k in self.keys(f, g.a[0], d + 1):
                if k[0] == '':
                    r.add(('*', k[1]))
                elif k[0] == 'alloca':
                    ss = [s for s in f.insts.values() if s.op == 'store' and s.a[1].get('v') == k[1]]
                    for s in ss:
                        r |= self.keys(f, s.a[0], d + 1)
                    if not ss:
                        r.add(('alloca', k[1]))
                else:
                    r.add((k[0], str(k[1]).rstrip('[]') + '[]'))
            return r
        if g.op in ('phi', 'select', 'bitcast', 'freeze'):
            ops = [x[1] for x in g.inc] if g.op == 'phi' else g.a[1:] if g.op == 'select' else g.a[:1]
            r = set()
            for o in ops:
                if not o.get('null'):
                    r |= self.keys(f, o, d + 4)
            return r
        if g.op == 'alloca':
            return {('alloca', g.id)}
        if g.op == 'call':
            return {('result', g.cname() or '?')}
        return {('?', '?')}

    def function(self, f):
        m, R, AL = self.m, {}, {}
        for i, a in enumerate(f.args):
            R[i] = {i} if a[1] == 'ptr' else set()

        def of(v):
            if 'v' in v:
                return R.get(v['v'], set())
            if v.get('ce') == 'gep':
                return of(v['base'])
            return {'g'} if 'g' in v else set()
        again = True
        while again:
            again = False
            for I in f.insts.values():
                s = set()
                if I.op == 'alloca':
                    s = {('al', I.id)}
                elif I.op in ('getelementptr', 'bitcast', 'freeze'):
                    s = of(I.a[0])
                elif I.op == 'phi':
                    for x in I.inc:
                        s |= of(x[1])
                elif I.op == 'select':
                    s = of(I.a[1]) | of(I.a[2])
                elif I.op == 'load':
                    if I.ty == 'ptr':
                        for r in of(I.a[0]):
                            s |= AL.get(r[1], set()) if isinstance(r, tuple) else {r}
                elif I.op == 'store':
                    vs = of(I.a[0])
                    for r in of(I.a[1]):
                        if isinstance(r, tuple) and not vs <= AL.setdefault(r[1], set()):
                            AL[r[1]] |= vs
                            again = True
                elif I.op == 'call':
                    for c in m.callees(I):
                        if c in m.defs:
                            for r in self.ret[c]:
                                s |= {'g'} if r == 'g' else of(I.a[r]) if r < len(I.a) else set()
                            for p, rs in self.out[c].items():
                                if p < len(I.a):
                                    for r in of(I.a[p]):
                                        if isinstance(r, tuple):
                                            for q in rs:
                                                vs = {'g'} if q == 'g' else of(I.a[q]) if q < len(I.a) else set()
                                                if not vs <= AL.setdefault(r[1], set()):
                                                    AL[r[1]] |= vs
                                                    again = True
                        elif c not in FRESH and I.ty == 'ptr':
                            for a in I.a:
                                s |= of(a)
                if s - R.get(I.id, set()):
                    R.setdefault(I.id, set()).update(s)
                    again = True
        E, ch = self.eff[f.name], False

        def add(r, k, fn, I):
            nonlocal ch
            if isinstance(r, tuple) or r == 'g' or k[0] == 'alloca':
                return
            if (r, k) not in E:
                E[(r, k)] = (fn, I)
                ch = True
        for I in f.insts.values():
            if I.op == 'store':
                rs = of(I.a[1])
                for k in self.keys(f, I.a[1]):
                    for r in rs:
                        add(r, k, f.name, I)
                for r in rs:
                    if isinstance(r, int):
                        for q in of(I.a[0]):
                            if not isinstance(q, tuple) and q not in self.out[f.name].setdefault(r, set()):
                                self.out[f.name][r].add(q)
                                ch = True
            elif I.op == 'ret' and I.a:
                for r in of(I.a[0]):
                    if not isinstance(r, tuple) and r not in self.ret[f.name]:
                        self.ret[f.name].add(r)
                        ch = True
            elif I.op == 'call':
                for c in m.callees(I):
                    if c in self.stop:
                        for r in of(I.a[0]):
                            add(r, ('call', c), f.name, I)
                    elif c in m.defs:
                        for (p, k), (fn, J) in list(self.eff[c].items()):
                            if p >= len(I.a):
                                continue
                            ks = {k}
                            if k[0] == '':
                                ks = self.keys(f, I.a[k[1]]) if isinstance(k[1], int) and k[1] < len(I.a) else {('?', '?')}
                            elif k[0] == '*':
                                ks = set()
                                for x in self.keys(f, I.a[k[1]]) if isinstance(k[1], int) and k[1] < len(I.a) else {('?', '?')}:
                                    ks.add(('*', x[1]) if x[0] == '' else ('?', '?') if x[0] in ('*', 'alloca') else (x[0], str(x[1]).rstrip('[]') + '[]'))
                            for r in of(I.a[p]):
                                for x in ks:
                                    add(r, x, fn, J)
                    else:
                        for j, a in enumerate(I.a):
                            if a.get('null') or 'fn' in a or effects.readonly_ext(c, j):
                                continue
                            if not of(a):
                                continue
                            for k in self.keys(f, a):
                                for r in of(a):
                                    add(r, k, f.name, I)
        return ch


def visited_only(f, S, masks):
    """The store only sets or clears visited marks: flags | bit, flags & ~bit, of the same flags."""
    d = f.insts.get(S.a[0].get('v'))
    if d is None or d.op not in ('and', 'or'):
        return False
    c = [o['c'] for o in d.a if isinstance(o.get('c'), int)]
    l = [f.insts.get(o.get('v')) for o in d.a]
    if not c or not any(x is not None and x.op == 'load' and ir.lastfield(f.insts.get(x.a[0].get('v'))) == ir.lastfield(f.insts.get(S.a[1].get('v'))) for x in l):
        return False
    bit = c[0] if d.op == 'or' else ~c[0] & 0xffffffff
    return bit in masks


class Parity(sim.Client):
    """The vertices of each graph are reordered an even number of times on every path."""

    def __init__(self, m, sorts, evens):
        self.m, self.sorts, self.evens, self.bad, self.n = m, sorts, evens, {}, 0

    def clsyms(self, cl):
        return ()

    def call(self, s, st, I, args):
        if any(c in self.sorts for c in self.m.callees(I)):
            self.n += 1
            cl = set(st.cl or ())
            k = args[0]
            cl ^= {k}
            st.cl = frozenset(cl)
            s.default_call(st, I, args)
            if I.ty != 'void':
                st.env[I.id] = ('c', 1)
            return [st]
        return None

    def ret(self, s, st, I, val):
        if st.cl:
            c = st.const(val) if val is not None else None
            self.bad.setdefault(I.id, (I, sim.trail(st)))


def run(ctx):
    ctx.rule = ('may-store analysis: for each operation and protected argument, no instruction reachable through calls, the function table or extension callbacks stores into a graph, extension, stack or '
                'list structure reached from that argument; integrity checks may only set and clear visited marks, use the work stack, and reorder vertices an even number of times on every path')
    ctx.assumptions = ['storage reached from an argument is followed through loads and local variables; external functions write only the arguments listed in lib/effects.py as not read-only',
                       'reordering twice restores the order (anchored in the sort routine)']
    m = ctx.mod()
    sorts = {SORT} | set(m.slot_targets().get('fpSortVertices', ()))
    An = FxAn(m)
    st = m.slot_targets()
    ops = dict(READONLY)
    for s, ps in SLOTS.items():
        for t in st.get(s, ()):
            ops[t] = ps
    ptr = {}
    for n, ps in sorted(ops.items()):
        f = m.fn(n)
        for p in ps:
            ctx.count('protected_arguments')
            for (q, k), (fn, I) in sorted(An.eff[n].items(), key=str):
                if q != p:
                    continue
                if k[0] in OWN and (n.startswith(('gp_', 'write', '_Write')) or n.startswith('sb_') and False):
                    continue
                ctx.violation('%s:%s.%s' % (n, k[0], k[1]), '%s may change %s of its argument %s (in %s)' % (
                    n, '%s.%s' % k if k[0] not in ('', '*', '?') else 'storage', f.argname(p) or p, fn), I.where())
    An2 = FxAn(m, stop=sorts)
    masks = visited_masks(m)
    for n, ps in CHECK.items():
        f = m.fn(n)
        for p in ps:
            ctx.count('protected_arguments')
            for (q, k), (fn, I) in sorted(An2.eff[n].items(), key=str):
                if q != p or k[0] == 'call' or k[0] == 'struct.stack':
                    continue
                if k in (('struct.vertexRec', 'flags'), ('struct.edgeRec', 'flags')):
                    continue        # each store is examined below
                ctx.violation('%s:%s.%s' % (n, k[0], k[1]), '%s may change %s.%s of its argument %s (in %s)' % (n, k[0], k[1], f.argname(p) or p, fn), I.where())
        for g in sorted(m.reach([n], stop=sorts)):
            if g not in m.defs or g in sorts:
                continue
            for S in m.defs[g].insts.values():
                if S.op == 'store' and ir.lastfield(m.defs[g].insts.get(S.a[1].get('v'))) in (('struct.vertexRec', 'flags'), ('struct.edgeRec', 'flags')):
                    ctx.count('mark_stores')
                    if not visited_only(m.defs[g], S, masks):
                        ctx.violation('%s:%s:flags' % (n, g), '%s, in %s, changes more than visited marks' % (n, g), S.where())
            if any(c in sorts for I in m.defs[g].calls() for c in m.callees(I)):
                c = Parity(m, sorts, ())
                sim.Sim(m, m.defs[g], c, K=256 if ctx.thorough else 64).run()
                ctx.count('reorderings', c.n)
                for I, tr in c.bad.values():
                    ctx.violation('%s:%s:order' % (n, g), '%s, in %s, may leave vertices reordered' % (n, g), I.where(), tr)
    ctx.count('functions', len(m.defs))
    ctx.count('may_store_facts', sum(len(x) for x in An.eff.values()))
    ctx.need('protected_arguments', 30)
    ctx.need('may_store_facts', 500)
    ctx.need('mark_stores', 5)
    ctx.need('reorderings', 2)


def visited_masks(m):
    """The bits that the routine clearing vertex marks clears."""
    r = set()
    for n in ('_ClearVertexVisitedFlags', '_ClearEdgeVisitedFlags', '_ClearVisitedFlags'):
        f = m.defs.get(n)
        for S in f.insts.values() if f else ():
            if S.op == 'store':
                d = f.insts.get(S.a[0].get('v'))
                if d is not None and d.op == 'and':
                    for o in d.a:
                        if isinstance(o.get('c'), int):
                            r.add(~o['c'] & 0xffffffff)
    if not r or len(r) > 3:
        raise ir.AnalysisError('visited marks not recognised')
    return r
