"""Ownership analysis on PathSim: who owns each block / file / object on every path.

One resource is tracked at a time under the symbol R.  Function summaries are
inferred from the current source (bottom-up, memoised):
  par(f, k)  : R passed as argument k       -> outcomes (return class, keep | free | esc | ret)
  con(f, k)  : argument k is the address of a variable holding R
               -> outcomes (return class, keep | free | esc, cell after: 0 | R | ?)
  alloc(f)   : f hands a fresh resource to its caller: by return value, or through argument k
"""
import sim

R = ('s', ('R',), 0)
RK = ('R',)
EXT_ALLOC = {'malloc', 'calloc', 'strdup', 'fopen', 'realloc'}
EXT_FREE = {'free': 0, 'fclose': 0}


def retcls(st, v):
    if v is None:
        return None
    r = st.rng(v)
    return (r[0], r[1], tuple(sorted(set(r[2]))) if len(r[2]) <= 2 else ())


def cell(v):
    return ('a', v, ()) if v[0] == 's' else v


class Own:
    def __init__(self, mod, K=16):
        self.mod, self.K = mod, K
        self.ms, self.rs = sim.compute_modsets(mod), sim.compute_retsets(mod)
        self.cp = sim.compute_captures(mod)
        self.memo_par, self.memo_con, self.memo_alloc, self.memo_fld = {}, {}, {}, {}
        self.leaks = {}
        self.sims = 0
        cg = mod.callgraph()
        self.frees = self._reach_any(cg, set(EXT_FREE) | {'realloc', '?'})
        self.allocs = self._reach_any(cg, EXT_ALLOC)
        self.owning = None
        ow = self._owning_fields()
        self.owning = ow
        self.memo_par, self.memo_con, self.memo_alloc, self.memo_fld, self.leaks = {}, {}, {}, {}, {}

    def _reach_any(self, cg, base):
        res = set(base)
        ch = True
        while ch:
            ch = False
            for n, cs in cg.items():
                if n not in res and cs & res:
                    res.add(n)
                    ch = True
        return res

    def _origin_fields(self, f, v, out, seen):
        """Fields a pointer value may have been loaded from."""
        if 'v' not in v or v['v'] in seen:
            return
        seen.add(v['v'])
        i = f.insts.get(v['v'])
        if i is None:
            return
        if i.op == 'load':
            k = sim.static_key(f, i.a[0])
            if isinstance(k, tuple) and k[0] not in ('al', 'g'):
                out.add(k)
        elif i.op == 'phi':
            for _, w in i.inc:
                self._origin_fields(f, w, out, seen)
        elif i.op == 'select':
            for w in i.a[1:]:
                self._origin_fields(f, w, out, seen)

    def _owning_fields(self):
        """(struct, field) whose value is freed somewhere: storing a resource there transfers it."""
        out = set()
        for f in self.mod.defs.values():
            for I in f.calls():
                cs = self.mod.callees(I)
                if not any(c in self.frees for c in cs):
                    continue
                for j, a in enumerate(I.a):
                    if any(self.may_free_par(c, j) for c in cs):
                        self._origin_fields(f, a, out, set())
                    if any(self.may_free_con(c, j) for c in cs):
                        k = sim.static_key(f, a)
                        if isinstance(k, tuple) and k[0] not in ('al', 'g'):
                            out.add(k)
        return out

    def may_free_par(self, c, j):
        if c in EXT_FREE:
            return EXT_FREE[c] == j
        if c == 'realloc':
            return j == 0
        return any(o[1] == 'free' for o in (self.par(c, j) or ()))

    def may_free_con(self, c, j):
        if c in EXT_FREE or c == 'realloc':
            return False
        return any(o[1] == 'free' for o in (self.con(c, j) or ()))

    # ---- summaries
    def par(self, c, j):
        """Outcomes for resource passed as argument j; None = no effect."""
        if c in EXT_FREE:
            return [(None, 'free', False)] if EXT_FREE[c] == j else None
        if c == 'realloc':
            return [((0, 0, ()), 'keep', False), ((1, sim.INF, ()), 'free', False)] if j == 0 else None
        f = self.mod.defs.get(c)
        if f is None:
            return [(None, 'esc', True)] if c == '?' else None
        if j >= len(f.args) or f.args[j][1] != 'ptr':
            return None
        k = (c, j)
        if k in self.memo_par:
            return self.memo_par[k]
        self.memo_par[k] = None
        if c not in self.frees and j not in self.cp[c]:
            return None
        outs = set()
        cl = ParClient(self, f, j, False, outs)
        self._run(f, cl)
        r = sorted(outs, key=repr)
        if all(o[1] == 'keep' for o in r):
            r = None
        self.memo_par[k] = r
        return r

    def con(self, c, j):
        f = self.mod.defs.get(c)
        if f is None or j >= len(f.args) or f.args[j][1] != 'ptr':
            return [(None, 'esc', '?')] if c == '?' else None
        k = (c, j)
        if k in self.memo_con:
            return self.memo_con[k]
        self.memo_con[k] = None
        touches = False
        for U in f.uses.get(j, ()):
            if U.op == 'load' and U.ty == 'ptr' or U.op == 'store' and U.a[1].get('v') == j or U.op in ('call', 'phi', 'select'):
                touches = True
        if not touches:
            return None
        outs = set()
        cl = ParClient(self, f, j, True, outs)
        self._run(f, cl)
        r = sorted(outs, key=repr)
        if all(o[1] == 'keep' and o[2] == 'R' for o in r):
            r = None
        self.memo_con[k] = r
        return r

    def fld(self, c, j, S, fl, ctx=(), detail=False):
        """Outcomes when field S.fl of the object passed as argument j holds R."""
        if not detail:
            r = self.fld(c, j, S, fl, ctx, True)
            return r and sorted(set((rc, 'esc' if e == 'lost' else e, a) for rc, e, a in r), key=repr)
        f = self.mod.defs.get(c)
        if f is None or j >= len(f.args) or f.args[j][1] != 'ptr' or c not in self.frees:
            return None
        k = (c, j, S, fl, ctx)
        if k in self.memo_fld:
            return self.memo_fld[k]
        self.memo_fld[k] = None
        outs = set()
        self._run(f, FieldClient(self, f, j, S, fl, False, outs, ctx))
        r = sorted(set(o[:3] for o in outs), key=repr)
        if all(o[1] == 'keep' and o[2] == 'R' for o in r):
            r = None
        self.memo_fld[k] = r
        return r

    def destroyers(self):
        """[(function, parameter, by-address?, struct)] for functions that free their parameter object."""
        out = []
        owned = set(S for S, _ in self.owning)
        for n, f in sorted(self.mod.defs.items()):
            for j in range(len(f.args)):
                if f.args[j][1] != 'ptr':
                    continue
                for content in (False, True):
                    o = (self.con if content else self.par)(n, j) or ()
                    if not any(x[1] == 'free' for x in o):
                        continue
                    for S in sorted(self._structs_of(f, j, content)):
                        if S in owned:
                            out.append((n, j, content, S))
        return out

    def _structs_of(self, f, j, content, seen=None):
        """Record types through which the object is accessed in f or in callees given it."""
        seen = set() if seen is None else seen
        if (f.name, j, content) in seen:
            return set()
        seen.add((f.name, j, content))
        vals, out, work = set(), set(), []
        if content:
            for U in f.uses.get(j, ()):
                if U.op == 'load':
                    work.append(U.id)
        else:
            work.append(j)
        while work:
            x = work.pop()
            if x in vals:
                continue
            vals.add(x)
            for U in f.uses.get(x, ()):
                if U.op == 'getelementptr' and U.a[0].get('v') == x:
                    p = U.path
                    if p and p[0]['k'] == 'fld':
                        out.add(p[0]['s'])
                elif U.op in ('phi', 'select'):
                    work.append(U.id)
                elif U.op == 'call':
                    for c in self.mod.callees(U):
                        g = self.mod.defs.get(c)
                        if g is not None:
                            for jj, a in enumerate(U.a):
                                if a.get('v') == x:
                                    out |= self._structs_of(g, jj, False, seen)
        return out

    def alloc(self, c):
        """Set of (return class, None | out-parameter index); internal functions only."""
        f = self.mod.defs.get(c)
        if f is None or c not in self.allocs:
            return ()
        if c in self.memo_alloc:
            return self.memo_alloc[c]
        self.memo_alloc[c] = ()
        cl = AllocClient(self, f)
        self._run(f, cl)
        self.memo_alloc[c] = tuple(sorted(cl.gives, key=repr))
        self.leaks[c] = cl
        return self.memo_alloc[c]

    def _run(self, f, cl):
        self.sims += 1
        s = sim.Sim(self.mod, f, cl, K=self.K, modsets=self.ms, retsets=self.rs)
        s.run()
        cl.steps = s.steps


def setret(st, I, rc):
    if rc is None or I.ty == 'void':
        return True
    v = st.env.get(I.id)
    if v is None:
        return True
    if v[0] == 'c':
        return rc[0] <= v[1] <= rc[1]
    if v[0] == 's':
        lo, hi, ne = st.facts.get(v[1], (-sim.INF, sim.INF, ()))
        ok = st.setrng(v[1], max(lo, rc[0]), min(hi, rc[1]), tuple(ne) + tuple(rc[2]))
        if ok and st.const(v) is not None:
            st.env[I.id] = ('c', st.const(v))
        return ok
    return True


class Tracker(sim.Client):
    """Shared handling of a tracked resource passing through calls and stores."""
    detail = False

    def __init__(self, own, fn):
        self.own, self.fn, self.mod = own, fn, own.mod

    def load(self, s, st, I, addr, val):
        if addr != sim.TOP and addr[0] == 'a' and addr[1][0] == 'g' and addr[1][1] in ('stdin', 'stdout', 'stderr') and val[0] == 's':
            st.nes = st.nes | {(RK, val[1], -val[2])}

    def dflt(self, s, st, I, args):
        """Default call effect; a caller's output variable not passed on keeps its content."""
        n = len(self.fn.args)
        keep = [(a, v) for a, v in st.mem.items() if v in (R, X) and a[0] == 'a' and a[1][0] == 's' and a[1] not in args and a not in args
                and (not a[2] and isinstance(a[1][1], int) and a[1][1] < n or len(a[2]) == 1 and a[2][0][0] == 'f')]
        r = s.default_call(st, I, args)
        for a, v in keep:
            st.mem[a] = v
        return r

    # cl: None | (status, site)
    def passed(self, s, st, I, args):
        """States after call I given tracked, owned R; None if R is not involved."""
        cs = self.mod.callees(I)
        for j, a in enumerate(args):
            if a == R:
                outs = set()
                for c in cs:
                    o = self.own.par(c, j)
                    outs |= set(o) if o else {(None, 'keep', False)}
                if outs == {(None, 'keep', False)}:
                    continue
                res = []
                for rc, eff, isr in sorted(outs, key=repr):
                    n = st.copy()
                    self.dflt(s, n, I, args)
                    if not setret(n, I, rc):
                        continue
                    if eff == 'ret':
                        n.env[I.id] = R
                    elif eff != 'keep':
                        n = self.effect(s, n, I, eff)
                    if n is not None:
                        res.append(n)
                return res
        for j, a in enumerate(args):
            A = cell(a)
            if A[0] == 'a' and st.mem.get(A) == R:
                outs = set()
                for c in cs:
                    o = self.own.con(c, j)
                    outs |= set(o) if o else {(None, 'keep', 'R')}
                res = []
                for rc, eff, aft in sorted(outs, key=repr):
                    n = st.copy()
                    self.dflt(s, n, I, args)
                    if not setret(n, I, rc):
                        continue
                    if aft == 'R':
                        n.mem[A] = R
                    elif aft == '0':
                        n.mem[A] = sim.C0
                    else:
                        n.mem.pop(A, None)
                    if eff != 'keep':
                        n = self.effect(s, n, I, eff)
                    if n is not None:
                        res.append(n)
                return res
        for j, a in enumerate(args):
            for A in [A for A, v in st.mem.items() if v == R and A[1] == a and len(A[2]) == 1 and A[2][0][0] == 'f']:
                S, fl = A[2][0][1:3]
                outs = set()
                for c in cs:
                    o = self.own.fld(c, j, S, fl, (), self.detail)
                    outs |= set(o) if o else {(None, 'keep', 'R')}
                res = []
                for rc, eff, aft in sorted(outs, key=repr):
                    n = st.copy()
                    self.dflt(s, n, I, args)
                    if not setret(n, I, rc):
                        continue
                    if aft == 'R':
                        n.mem[A] = R
                    else:
                        n.mem.pop(A, None)
                    if eff != 'keep':
                        n = self.effect(s, n, I, eff)
                    if n is not None:
                        res.append(n)
                return res
        return self.dflt(s, st, I, args)

    def stored(self, s, st, I, addr, val):
        """R stored to addr: 'hold' | 'esc' | 'borrow'."""
        b = s.base_of(addr)
        if b[0] == 'al':
            return 'hold'
        A = cell(addr)
        if A[0] == 'a' and A[1][0] == 's' and isinstance(A[1][1], int) and A[1][1] < len(self.fn.args) and not A[2]:
            return 'hold'
        k = sim.addr_key(A) if A[0] == 'a' else '*'
        if self.own.owning is not None and isinstance(k, tuple) and k[0] not in ('al', 'g') and k not in self.own.owning:
            return 'borrow'
        return 'esc'


class ParClient(Tracker):
    """Summary of one parameter."""

    def __init__(self, own, fn, j, content, outs):
        super().__init__(own, fn)
        self.j, self.content, self.outs = j, content, outs

    def init(self, s, st):
        st.facts[RK] = (1, sim.INF, ())
        if self.content:
            st.facts[self.j] = (1, sim.INF, ())
            st.mem[('a', ('s', self.j, 0), ())] = R
        else:
            st.env[self.j] = R
        st.cl = ('own', None)

    def effect(self, s, st, I, eff):
        st.cl = (eff, None)
        return st

    def call(self, s, st, I, args):
        if st.cl[0] != 'own':
            return None
        return self.passed(s, st, I, args)

    def store(self, s, st, I, addr, val):
        if st.cl[0] == 'own' and val == R:
            w = self.stored(s, st, I, addr, val)
            if w == 'esc' or (w == 'hold' and s.base_of(addr)[0] != 'al' and not self.content):
                st.cl = ('esc', None)

    def ret(self, s, st, I, v):
        rc = retcls(st, v)
        eff = st.cl[0]
        if self.content:
            c = st.mem.get(('a', ('s', self.j, 0), ()))
            aft = 'R' if c == R else '0' if c is not None and st.const(c) == 0 else '?'
            if v == R:
                eff, rc = 'esc', (1, sim.INF, ())
            if aft == '?' and eff == 'own':
                eff = 'esc'
            if aft == '0' and eff == 'own':
                eff = 'esc'
            self.outs.add((rc, 'keep' if eff == 'own' else eff, aft))
        else:
            if v == R and eff == 'own':
                self.outs.add(((1, sim.INF, ()), 'ret', True))
            else:
                self.outs.add((rc, 'keep' if eff == 'own' else eff, False))


XK = ('X',)
X = ('s', XK, 0)


class FieldClient(Tracker):
    """Field S.fl of the object given as parameter j (or pointed to by it) holds R."""

    def __init__(self, own, fn, j, S, fl, content, outs, ctx=()):
        super().__init__(own, fn)
        self.ctx = ctx
        self.j, self.S, self.fl, self.content, self.outs = j, S, fl, content, outs

    def init(self, s, st):
        st.facts[RK] = (1, sim.INF, ())
        st.facts[self.j] = (1, sim.INF, ())
        self.obj = ('s', self.j, 0)
        if self.content:
            st.facts[XK] = (1, sim.INF, ())
            st.mem[('a', ('s', self.j, 0), ())] = X
            self.obj = X
        self.cell = ('a', self.obj, (('f', self.S, self.fl),))
        st.mem[self.cell] = R
        for g, v in self.ctx:
            st.mem[('a', self.obj, (('f', self.S, g),))] = ('c', v)
        st.cl = ('own', False, False, False, False)

    # cl: (status, call that frees the object, the old value was used, a flag of the object was raised, the field was overwritten)
    detail = True

    def effect(self, s, st, I, eff):
        st.cl = (eff,) + st.cl[1:]
        return st

    def deref(self, s, st, I, base, addr, w):
        if base == R:
            st.cl = st.cl[:2] + (True,) + st.cl[3:]

    def call(self, s, st, I, args):
        if self.obj in args and any(o[1] == 'free' for c in self.mod.callees(I) for j, a in enumerate(args) if a == self.obj
                                    for o in self.own.par(c, j) or ()):
            st.cl = (st.cl[0], I.id) + st.cl[2:]
            if st.cl[0] == 'own' and I.cname() in EXT_FREE:
                return self.dflt(s, st, I, args)
        if st.cl[0] != 'own':
            return None
        if R in args:
            st.cl = st.cl[:2] + (True,) + st.cl[3:]
        return self.passed(s, st, I, args)

    def store(self, s, st, I, addr, val):
        if st.cl[0] == 'own' and val == R and cell(addr) != self.cell and self.stored(s, st, I, addr, val) == 'esc':
            st.cl = ('esc',) + st.cl[1:]
        elif st.cl[0] == 'own' and cell(addr) == self.cell and val != R:
            st.cl = st.cl[:4] + (True,)
        elif val[0] == 'c' and val[1] not in (0, -1) and addr[0] == 'a' and addr[1] == self.obj and I.a[0].get('c') is not None:
            st.cl = st.cl[:3] + (True, st.cl[4])

    def ret(self, s, st, I, v):
        rc = retcls(st, v)
        eff, freed, used, init, over = st.cl
        c = st.mem.get(self.cell)
        aft = 'R' if c == R else '?'
        if v == R and eff == 'own':
            eff = 'esc'
        elif eff == 'own' and aft == '?':
            # overwritten: lost unless kept elsewhere, or the object was only being given its first content
            eff = 'esc' if c is None and not over or init or any(w == R and a[1][0] != 'al' for a, w in st.mem.items()) else 'lost'
        self.outs.add((rc, 'keep' if eff == 'own' else eff, aft, freed is not False,
                       tuple(sim.trail(st)) if eff in ('own', 'lost') and (freed is not False or eff == 'lost') else (), used))


class AllocClient(Tracker):
    """Fork a tracked resource at each allocation; find where it ends up."""

    def __init__(self, own, fn):
        super().__init__(own, fn)
        self.gives, self.lost, self.sites = set(), {}, {}

    def effect(self, s, st, I, eff):
        return None  # released or transferred: done

    def call(self, s, st, I, args):
        if st.cl is not None:
            if st.cl[0] == 'in':
                c = I.cname()
                if c in EXT_FREE and args and args[0] == st.cl[2]:
                    self.lost.setdefault((st.cl[1], 'container'), (I, sim.trail(st)))
                    return []
                if st.cl[2] in args and any(self.own.par(c, j) for c in self.mod.callees(I) for j, a in enumerate(args) if a == st.cl[2]):
                    return []
            return self.passed(s, st, I, args)
        outs = set()
        for c in self.mod.callees(I):
            if c in EXT_ALLOC:
                outs.add(((1, sim.INF, ()), None))
            elif c in self.mod.defs:
                outs |= set(self.own.alloc(c))
        if not outs:
            return None
        self.sites[I.id] = I
        res = []
        for rc, k in sorted(outs, key=repr):
            n = st.copy()
            self.dflt(s, n, I, args)
            if k is None:
                n.env[I.id] = R
            else:
                if k >= len(args):
                    continue
                A = cell(args[k])
                if A[0] != 'a' or not setret(n, I, rc):
                    continue
                b = A[1]
                if b[0] == 'al':
                    n.mem[A] = R
                elif b[0] == 's' and isinstance(b[1], int) and b[1] < len(self.fn.args) and not A[2]:
                    n.mem[A] = R
                else:
                    continue
            n.facts[RK] = (1, sim.INF, ())
            n.cl = ('own', I.id)
            n.trail = (None, (I.where(), 'obtained'))
            res.append(n)
        s.default_call(st, I, args)
        return [st] + res

    def clsyms(self, cl):
        s = set()
        if cl is not None and cl[0] == 'in':
            sim.syms_in(cl[2], s)
        return s

    def clsubst(self, cl, k, new):
        if cl is not None and cl[0] == 'in':
            v = sim.subst(cl[2], k, new)
            return None if v == sim.TOP else cl[:2] + (v,)
        return cl

    def store(self, s, st, I, addr, val):
        if st.cl is not None and st.cl[0] == 'own' and val == R:
            w = self.stored(s, st, I, addr, val)
            if w == 'esc':
                b = s.base_of(addr)
                if b[0] == 's' and isinstance(b[1], int) and b[2] == 0 and b[1] in self.fn.insts \
                        and self.fn.insts[b[1]].cname() in EXT_ALLOC:
                    st.cl = ('in', st.cl[1], b)
                else:
                    st.cl = ('esc', st.cl[1])

    def ret(self, s, st, I, v):
        if st.cl is None or st.cl[0] in ('esc', 'in'):
            return
        rc = retcls(st, v)
        if v == R:
            self.gives.add(((1, sim.INF, ()), None))
            return
        for k in range(len(self.fn.args)):
            if st.mem.get(('a', ('s', k, 0), ())) == R:
                self.gives.add((rc, k))
                return
        self.lost.setdefault((st.cl[1], 'exit'), (I, sim.trail(st)))


_own = {}


def get(mod, K=16):
    k = (id(mod), K)
    if k not in _own:
        _own[k] = Own(mod, K)
    return _own[k]
