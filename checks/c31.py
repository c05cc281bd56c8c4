"""C31: call depth and stack use do not grow with the graph."""
import ir, sim, c17

FIND = 'gp_GetNeighborEdgeRecord'


class Busy(sim.Client):
    """A field marks that the function is under way: it is set before each call that may come back, and nothing comes back while it is set."""

    def __init__(self, f, fld, calls, preset):
        self.f, self.fld, self.calls, self.preset = f, fld, calls, preset
        self.bad, self.n = {}, 0

    def isfld(self, addr):
        return addr != sim.TOP and addr[0] == 'a' and addr[2] and addr[2][-1] == ('f',) + self.fld

    def load(self, s, st, I, addr, val):
        if self.preset and self.isfld(addr) and st.cl is None:
            return ('c', 1)
        return None

    def store(self, s, st, I, addr, val):
        if self.isfld(addr):
            c = st.const(val)
            if self.preset:
                self.bad.setdefault(('clears', I.id), (I, sim.trail(st)))
            st.cl = 'set' if c not in (None, 0) else 'clear'

    def call(self, s, st, I, args):
        if I.id in self.calls:
            self.n += 1
            if self.preset or st.cl != 'set':
                self.bad.setdefault(('again' if self.preset else 'unset', I.id), (I, sim.trail(st)))
        return None


class Contract(sim.Client):
    """Contracting hides the edge before it merges the ends; merging contracts only an edge it found between the two vertices."""

    def __init__(self, an, f, calls):
        self.an, self.f, self.calls, self.bad, self.n = an, f, calls, {}, 0

    def clsyms(self, cl):
        r = set()
        for x in cl or ():
            sim.syms_in(x, r)
        return r

    def clsubst(self, cl, k, new):
        return frozenset(sim.subst(x, k, new) for x in cl) if cl else cl

    def call(self, s, st, I, args):
        ns = self.an.m.callees(I)
        if I.id in self.calls:
            self.n += 1
            if any(n in self.an.identify for n in ns):
                ok = any(x == ('s', 1, 0) for x in st.cl or ())
            else:
                ok = len(args) > 1 and args[1] in (st.cl or ())
            if not ok:
                self.bad.setdefault(I.id, (I, sim.trail(st)))
        elif any(n in self.an.hide for n in ns):
            st.cl = (st.cl or frozenset()) | {args[1]}
        elif any(n == FIND for n in ns) and self.f.name in self.an.identify:
            s.default_call(st, I, args)
            st.cl = (st.cl or frozenset()) | {s.ev(st, {'v': I.id})}
            return [st]
        return None


class An:
    pass


def graph(m):
    """Call graph with all functions of one table slot as one node; calls of a saved entry by the overload that replaced it are inside a slot."""
    node = {}
    for s, t in m.slot_targets().items():
        for x in t:
            node.setdefault(x, set()).add(s)
    # functions that share several slots join those slots
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    for x, ss in node.items():
        ss = sorted(ss)
        for b in ss[1:]:
            par[find(b)] = find(ss[0])

    def node_of(n):
        return 'slot ' + find(sorted(node[n])[0]) if n in node else n
    E = []
    for f in m.defs.values():
        for I in f.calls():
            s = m.slot_of(I)
            if s:
                own = c17.table_owner(f, f.insts[f.insts[I.callee['v']].a[0]['v']])
                if own != 'struct.baseGraphStructure' and s in node.get(f.name, ()):
                    continue
            cs = m.callees(I)
            if '?' in cs:
                raise ir.AnalysisError('%s: call through an unknown function pointer' % I.where())
            for c in cs:
                if c in m.defs:
                    E.append((node_of(f.name), node_of(c), f, c, I))
    return E


def cyclic(E):
    G = {}
    for a, b, *_ in E:
        G.setdefault(a, set()).add(b)
    R = {}
    for n in G:
        seen, st = set(), list(G[n])
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(G.get(x, ()))
        R[n] = seen
    return [e for e in E if e[0] in R.get(e[1], ()) or e[0] == e[1]]


def run(ctx):
    ctx.rule = ('call graph over the whole program (direct calls, function table, extension callbacks; an overload calling the entry it replaced goes down the finite chain of attached extensions): '
                'every cycle contains a function that sets a busy mark before the call that closes the cycle and does not reach that call while the mark is set, or is the contract/identify pair, '
                'where each level hides the edge that joins the two vertices before going down; no stack block has a size computed at run time')
    ctx.assumptions = ['chains of overloads are finite and acyclic (C17)', 'two vertices are joined by a bounded number of parallel edges']
    m = ctx.mod()
    ms, rs = sim.compute_modsets(m), sim.compute_retsets(m)
    K = 64 if ctx.thorough else 16
    E = graph(m)
    ctx.count('functions', len(m.defs))
    ctx.count('call_edges', len(E))
    for f in m.defs.values():
        for I in f.insts.values():
            if I.op == 'alloca':
                ctx.count('stack_blocks')
                if not isinstance(I.a[0].get('c'), int):
                    ctx.violation('%s:block' % f.name, '%s: stack block of a size computed at run time' % f.name, I.where())
            elif I.op == 'call' and I.cname() in ('alloca', '__builtin_alloca'):
                ctx.violation('%s:block' % f.name, '%s: stack block of a size computed at run time' % f.name, I.where())
    an = An()
    an.m = m
    an.hide = {'gp_HideEdge'} | set(m.slot_targets().get('fpHideEdge', ()))
    an.identify = {'gp_IdentifyVertices'} | set(m.slot_targets().get('fpIdentifyVertices', ()))
    contract = {'gp_ContractEdge'} | set(m.slot_targets().get('fpContractEdge', ()))
    while True:
        C = cyclic(E)
        if not C:
            break
        drop = None
        byf = {}
        for e in C:
            byf.setdefault(e[2].name, []).append(e)
        why = []
        for n, es in sorted(byf.items()):
            f = m.fn(n)
            calls = {e[4].id for e in es}
            # busy mark: a field the function tests and sets
            flds = {ir.lastfield(f.insts.get(I.a[0].get('v'))) for I in f.insts.values() if I.op == 'load'} & \
                   {ir.lastfield(f.insts.get(I.a[1].get('v'))) for I in f.insts.values() if I.op == 'store' and I.a[0].get('c')} - {None}
            for fld in sorted(flds):
                a, b = Busy(f, fld, calls, False), Busy(f, fld, calls, True)
                for c in (a, b):
                    sim.Sim(m, f, c, K=K, modsets=ms, retsets=rs).run()
                if a.n and not a.bad and not b.bad:
                    other = clearers(m, fld, E, C, n)
                    if other:
                        why.append((n, other))
                        continue
                    ctx.count('cycles_with_busy_mark')
                    drop = es
                else:
                    bad = list(a.bad.values()) + list(b.bad.values())
                    if bad:
                        why.append((n, '%s.%s does not stop %s from being entered again' % (fld[0], fld[1], n)))
            if drop:
                break
        if not drop:
            names = {e[3] for e in C} | {e[2].name for e in C}
            pair = [e for e in C if e[2].name in an.identify | contract and e[3] in an.identify | contract]
            if pair:
                ok = True
                for n in sorted({e[2].name for e in pair}):
                    calls = {e[4].id for e in pair if e[2].name == n}
                    c = Contract(an, m.fn(n), calls)
                    if n.startswith('gp_'):
                        continue
                    sim.Sim(m, m.fn(n), c, K=K, modsets=ms, retsets=rs).run()
                    for I, tr in c.bad.values():
                        ok = False
                        ctx.violation('%s:down' % n, '%s: goes down again without having hidden the edge (or without the edge found between the vertices)' % n, I.where(), tr)
                ctx.count('contract_identify_levels', len(pair))
                drop = pair
            else:
                e = sorted(C, key=lambda e: (e[2].name, e[3]))[0]
                cyc = sorted(names)
                for e in C:
                    ctx.violation('%s:%s' % (e[2].name, e[3]), '%s calls %s, which can come back to it (cycle of %s)%s' % (
                        e[2].name, e[3], ', '.join(cyc), ''.join('; ' + w for n, w in why if n == e[2].name)), e[4].where())
                break
        ids = {(e[2].name, e[4].id) for e in drop}
        E = [e for e in E if (e[2].name, e[4].id) not in ids]
    ctx.need('functions', 300)
    ctx.need('call_edges', 1200)


def clearers(m, fld, E, C, n):
    """Another function, reachable from the cycle, that writes the busy mark."""
    for f in m.defs.values():
        if f.name == n:
            continue
        for I in f.insts.values():
            if I.op == 'store' and ir.lastfield(f.insts.get(I.a[1].get('v'))) == fld:
                reach = m.reach({e[3] for e in C})
                if f.name in reach:
                    return '%s, called from the cycle, writes %s.%s' % (f.name, fld[0], fld[1])
    return None
