"""C04: nothing is used, freed again or left reachable after it has been released."""
import sim, own, fail

FK = ('F',)
F = ('s', FK, 0)
ALLOWED = {}


def static_derefs(mod):
    """function -> parameters it (or a callee) may read or write through."""
    res = {n: set() for n in mod.defs}
    ch = True
    while ch:
        ch = False
        for f in mod.defs.values():
            for k in range(len(f.args)):
                if f.args[k][1] != 'ptr' or k in res[f.name]:
                    continue
                seen, work, hit = {k}, [k], False
                while work and not hit:
                    x = work.pop()
                    for U in f.uses.get(x, ()):
                        if U.op == 'load' or U.op == 'store' and U.a[1].get('v') == x:
                            hit = True
                        elif U.op in ('getelementptr', 'phi', 'select'):
                            if U.id not in seen:
                                seen.add(U.id)
                                work.append(U.id)
                        elif U.op == 'call':
                            for j, a in enumerate(U.a):
                                if a.get('v') == x and any(uses(res, c, j) for c in mod.callees(U)):
                                    hit = True
                if hit:
                    res[f.name].add(k)
                    ch = True
    return res


def uses(res, c, j):
    if c in own.EXT_FREE or c == 'realloc':
        return j == 0
    if c in fail.EXT_DEREF:
        return j in fail.EXT_DEREF[c]
    return c in res and j in res[c]


class C(own.Tracker):
    def __init__(self, o, fn, dr):
        super().__init__(o, fn)
        self.dr, self.sites, self.hits = dr, {}, {}

    def hit(self, st, I, kind):
        self.hits.setdefault((st.cl[1], kind, I.id), (I, sim.trail(st)))

    def load(self, s, st, I, addr, val):
        return None

    def deref(self, s, st, I, base, addr, w):
        if st.cl is not None and base == F:
            self.hit(st, I, 'used')
            return False

    def freed(self, s, n, I, v, site):
        """v has been released in state n."""
        if v[0] != 's' or v[2] != 0:
            return
        if any(x == v and a[1][0] == 'g' and a[1][1] in ('stdin', 'stdout', 'stderr') for a, x in n.mem.items()):
            return  # closing functions spare the standard streams
        if n.cl is None:
            s.rename(n, v[1], FK)
            n.facts[FK] = (1, sim.INF, ())
            n.cl = ('f', site)
        for a in [a for a in n.mem if a[1] in (v, F)]:
            del n.mem[a]

    def call(self, s, st, I, args):
        cs = self.mod.callees(I)
        if st.cl is not None:
            for j, a in enumerate(args):
                if s.base_of(a) == F:
                    if any(self.own.may_free_par(c, j) for c in cs):
                        self.hit(st, I, 'released again')
                        return []
                    if any(uses(self.dr, c, j) for c in cs):
                        self.hit(st, I, 'used')
                        return []
                A = own.cell(a)
                if A[0] == 'a' and st.mem.get(A) == F and any(self.own.may_free_con(c, j) for c in cs):
                    self.hit(st, I, 'released again')
                    return []
        if (I.cname() or '').startswith('llvm.'):
            return None
        out = []
        forked = False
        for j, a in enumerate(args):
            outs = set()
            for c in cs:
                o = self.own.par(c, j)
                outs |= {(x[0], x[1], None) for x in o} if o else set()
                o = self.own.con(c, j) if c in self.mod.defs else None
                outs |= {(x[0], x[1], x[2]) for x in o} if o else set()
            fr = [x for x in outs if x[1] == 'free']
            if not fr:
                continue
            for rc, eff, aft in sorted(set((x[0], x[1], x[2]) for x in fr), key=repr):
                n = st.copy()
                A = own.cell(a)
                if aft is None:
                    v = a
                else:
                    v = n.mem.get(A) if A[0] == 'a' else None
                if v is not None and n.const(v) == 0:
                    continue
                s.default_call(n, I, args)
                if not own.setret(n, I, rc):
                    continue
                if aft is not None:
                    n.mem.pop(A, None)
                    if aft == '0':
                        n.mem[A] = sim.C0
                if v is not None:
                    self.freed(s, n, I, v, I.id)
                    if st.cl is None:
                        if n.cl is None:
                            continue
                        self.sites[I.id] = I
                        n.trail = (None, (I.where(), 'released'))
                if st.cl is not None or n.cl is not None:
                    out.append(n)
                    forked = True
            if st.cl is not None and forked:
                # other outcomes of the call
                n = st.copy()
                s.default_call(n, I, args)
                if any(x[1] != 'free' for x in outs):
                    out.append(n)
                return out
        s.default_call(st, I, args)
        return out + [st]

    def ret(self, s, st, I, v):
        if st.cl is None:
            return
        if v is not None and s.base_of(v) == F:
            self.hit(st, I, 'returned')
            return
        for a, x in st.mem.items():
            if x == F and a[0] == 'a' and a[1][0] not in ('al', 'pure') and a[1] != F:
                self.hit(st, I, 'left reachable through %s' % fieldname(a))
                return


class Shared(sim.Client):
    """A whole object is copied: its owned fields now have two owners until the copy's fields are replaced."""

    def __init__(self, o, fn):
        self.own, self.fn, self.mod, self.hits, self.sites = o, fn, o.mod, {}, {}

    def call(self, s, st, I, args):
        n = I.cname() or ''
        if st.cl is None and n.startswith('llvm.memcpy'):
            sz = I.a[2].get('c')
            dst = args[0]
            res = []
            for S in sorted(set(x[0] for x in self.own.owning)):
                if sz is not None and self.mod.structs[S].get('size') == sz and dst[0] == 's' and touches(self.fn, I.a[0], S):
                    for S2, fl in sorted(self.own.owning):
                        if S2 == S:
                            k = st.copy()
                            s.default_call(k, I, args)
                            k.mem[('a', dst, (('f', S, fl),))] = F
                            k.facts[FK] = (1, sim.INF, ())
                            k.cl = (I.id, S, fl, dst)
                            self.sites[(I.id, fl)] = I
                            k.trail = (None, (I.where(), 'copied'))
                            res.append(k)
            s.default_call(st, I, args)
            return res + [st]
        if st.cl is None:
            return None
        site, S, fl, dst = st.cl
        A = ('a', dst, (('f', S, fl),))
        if st.mem.get(A) != F:
            return []
        if dst in args:
            ctx = tuple(sorted((a[2][0][2], st.const(v)) for a, v in st.mem.items() if a[1] == dst and len(a[2]) == 1 and a[2][0][0] == 'f'
                               and st.const(v) is not None))
            for j, a in enumerate(args):
                if a != dst:
                    continue
                for c in self.mod.callees(I):
                    if c == 'free':
                        return []
                    o = self.own.fld(c, j, S, fl, ctx)
                    if o and any(x[1] == 'free' for x in o):
                        self.hits.setdefault((site, fl, 'released'), (I, sim.trail(st)))
                        return []
                    if o and all(x[2] != 'R' for x in o):
                        return []
        keep = st.mem[A]
        s.default_call(st, I, args)
        st.mem[A] = keep
        return [st]

    def deref(self, s, st, I, base, addr, w):
        if st.cl is not None and w and addr == ('a', st.cl[3], (('f', st.cl[1], st.cl[2]),)):
            return False
        return None

    def clsyms(self, cl):
        o = set()
        if cl is not None:
            sim.syms_in(cl[3], o)
        return o

    def clsubst(self, cl, k, new):
        if cl is not None:
            v = sim.subst(cl[3], k, new)
            return None if v == sim.TOP else cl[:3] + (v,)
        return cl

    def ret(self, s, st, I, v):
        if st.cl is not None:
            self.hits.setdefault((st.cl[0], st.cl[2], 'kept'), (I, sim.trail(st)))


def touches(fn, v, S):
    """The pointer is used to access fields of S in this function."""
    return 'v' in v and any(U.op == 'getelementptr' and U.path and U.path[0]['k'] == 'fld' and U.path[0]['s'] == S for U in fn.uses.get(v['v'], ()))


def fieldname(a):
    for p in reversed(a[2]):
        if p[0] == 'f':
            return p[2]
    return 'an output parameter' if a[1][0] == 's' else str(a[1][1])


def run(ctx):
    ctx.rule = ('Each call that releases a block, file or object (free, fclose, realloc, and every function inferred to release an argument) marks the '
                'released value and all its known aliases; on every feasible path after it, the value must not be read or written through, passed to a '
                'function that does, released again, returned, or remain stored in memory the caller can reach.')
    m = ctx.mod()
    o = own.get(m, 64 if ctx.thorough else 16)
    dr = static_derefs(m)
    for fn, f in sorted(m.defs.items()):
        if not any(c in o.frees for I in f.calls() for c in m.callees(I)):
            continue
        c = C(o, f, dr)
        o._run(f, c)
        ctx.count('functions_with_releases', 1 if c.sites else 0)
        ctx.count('release_sites', len(c.sites))
        ctx.count('abstract_states', c.steps)
        for (site, kind, _), (I, tr) in c.hits.items():
            src = f.insts[site]
            nm = fail.describe(m, src)
            if (fn, nm, kind) in ALLOWED:
                ctx.count('excepted')
                continue
            ctx.violation('%s:%s:%s' % (fn, nm, kind), 'what %s (%s) released is %s' % (nm, src.where(), kind), I.where(), tr)
        if any((I.cname() or '').startswith('llvm.memcpy') for I in f.calls()):
            w = Shared(o, f)
            o._run(f, w)
            ctx.count('copied_owned_fields', len(w.sites))
            for (site, fl, kind), (I, tr) in w.hits.items():
                ctx.violation('%s:copy:%s' % (fn, fl), 'the owned field %s of the object copied at %s is %s' % (
                    fl, f.insts[site].where(), 'released through the copy' if kind == 'released' else 'still shared with the original'), I.where(), tr)
        if c.sites:
            ctx.sample({'function': fn, 'release_sites': [x.where() for x in c.sites.values()][:4]}, 10)
    ctx.need('release_sites', 100)
    ctx.need('copied_owned_fields', 1)
