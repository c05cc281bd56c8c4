"""PathSim: path-sensitive property simulation over the SSA form.

Forward exploration of one function from its entry.  A state is
  (block, env, facts, diff, mem, client state)
where env maps live SSA ids to abstract values, facts are intervals/exclusions
per symbol, diff holds difference bounds between symbols, mem maps abstract
addresses to values.  States with equal client state are joined once more than
K distinct ones have reached a block (property simulation).  Nothing is
executed and no solver is used: branch feasibility is decided by interval and
difference lookup only, and unknown always means "both ways".
"""
import heapq
from collections import deque

C0 = ('c', 0)
TOP = ('t',)
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
INF = 1 << 70


def syms_in(v, out):
    """Collect the symbol keys a value mentions."""
    t = v[0]
    if t == 's':
        out.add(v[1])
    elif t == 'a':
        syms_in(v[1], out)
        for p in v[2]:
            if p[0] == 'i':
                syms_in(p[1], out)
    elif t == 'cmp':
        syms_in(v[2], out)
        syms_in(v[3], out)
    elif t in ('not', 'b2i'):
        syms_in(v[1], out)


def subst(v, k, new):
    """Replace symbol key k by key new (None -> TOP)."""
    t = v[0]
    if t == 's':
        if v[1] == k:
            return TOP if new is None else ('s', new, v[2])
        return v
    if t == 'a':
        b = subst(v[1], k, new)
        ps = tuple(('i', subst(p[1], k, new)) if p[0] == 'i' else p for p in v[2])
        if b == TOP:
            return TOP
        return ('a', b, ps)
    if t == 'cmp':
        a, b = subst(v[2], k, new), subst(v[3], k, new)
        if a == TOP or b == TOP:
            return TOP
        return ('cmp', v[1], a, b)
    if t in ('not', 'b2i'):
        a = subst(v[1], k, new)
        return TOP if a == TOP else (t, a)
    return v


def addr_key(a):
    """Alias class of an address."""
    if a[0] != 'a':
        return '*'
    for p in reversed(a[2]):
        if p[0] == 'f':
            return (p[1], p[2])
    if a[1][0] == 'g':
        return ('g', a[1][1])
    if a[1][0] == 'al':
        return ('al', a[1][1])
    return '*'


class St:
    __slots__ = ('env', 'facts', 'diff', 'nes', 'mem', 'esc', 'cl', 'trail')

    keepdiff = False        # record differences of symbols even where constant bounds decide

    def __init__(self):
        self.env, self.facts, self.diff, self.mem = {}, {}, {}, {}
        self.esc = self.nes = frozenset()
        self.cl = None
        self.trail = None

    def copy(self):
        n = St.__new__(St)
        n.env, n.facts, n.diff, n.mem = dict(self.env), dict(self.facts), dict(self.diff), dict(self.mem)
        n.esc, n.nes, n.cl, n.trail = self.esc, self.nes, self.cl, self.trail
        return n

    # ---- interval queries
    def rng(self, v):
        if v[0] == 'c':
            return (v[1], v[1], ())
        if v[0] == 's':
            f = self.facts.get(v[1])
            if f is None:
                return (-INF, INF, ())
            o = v[2]
            lo, hi, ne = f
            return (lo + o if lo > -INF else lo, hi + o if hi < INF else hi, tuple(x + o for x in ne) if o else ne)
        if v[0] in ('b2i', 'cmp', 'not'):
            return (0, 1, ())
        if v[0] in ('fn', 'str'):
            return (1, INF, ())
        if v[0] == 'a':
            if v[1][0] in ('al', 'g') or v[2]:
                return (1, INF, ())
            return self.rng(v[1])
        return (-INF, INF, ())

    def const(self, v):
        r = self.rng(v)
        return r[0] if r[0] == r[1] else None

    def dub(self, a, b):
        """Best known upper bound of a-b (symbol keys)."""
        best = self.diff.get((a, b), INF)
        fa, fb = self.facts.get(a), self.facts.get(b)
        if fa and fb and fa[1] < INF and fb[0] > -INF:
            best = min(best, fa[1] - fb[0])
        if a == b:
            best = min(best, 0)
        return best

    def dub2(self, a, b):
        best = self.dub(a, b)
        for (x, y), c in self.diff.items():
            if x == a and y != b:
                d = self.dub(y, b)
                if d < INF:
                    best = min(best, c + d)
        return best

    def decide(self, pred, l, r):
        """True / False / None."""
        if pred[0] == 'u':
            ll, rr = self.rng(l), self.rng(r)
            if ll[0] >= 0 and rr[0] >= 0:
                pred = 's' + pred[1:]
            else:
                return None
        ll, rr = self.rng(l), self.rng(r)
        if pred in ('eq', 'ne'):
            res = None
            if ll[0] == ll[1] == rr[0] == rr[1]:
                res = True
            elif ll[1] < rr[0] or rr[1] < ll[0]:
                res = False
            elif ll[0] == ll[1] and ll[0] in rr[2]:
                res = False
            elif rr[0] == rr[1] and rr[0] in ll[2]:
                res = False
            elif l == r and l != TOP:
                res = True
            elif l[0] == 'a' and r[0] == 'a' and l[1] != r[1] and l[1][0] in ('al', 'g') and r[1][0] in ('al', 'g'):
                res = False
            elif l[0] == 's' and r[0] == 's':
                d = r[2] - l[2]
                u1, u2 = self.dub2(l[1], r[1]), self.dub2(r[1], l[1])
                if u1 < d or u2 < -d:
                    res = False
                elif u1 <= d and u2 <= -d:
                    res = True
                elif (l[1], r[1], d) in self.nes or (r[1], l[1], -d) in self.nes:
                    res = False
            if res is None:
                return None
            return res if pred == 'eq' else not res
        if pred in ('sgt', 'sge'):
            return self.decide(SWAP[pred], r, l)
        # slt / sle
        k = -1 if pred == 'slt' else 0
        if ll[1] < INF and rr[0] > -INF and ll[1] - rr[0] <= k:
            return True
        if ll[0] > -INF and rr[1] < INF and ll[0] - rr[1] > k:
            return False
        if l == r and l != TOP:
            return pred == 'sle'
        if l[0] == 's' and r[0] == 's':
            d = r[2] - l[2]
            if self.dub2(l[1], r[1]) <= d + k:
                return True
            if self.dub2(r[1], l[1]) < -d - k:
                return False
        return None

    def setrng(self, key, lo, hi, ne):
        ne = set(ne)
        while lo in ne:
            ne.discard(lo)
            lo += 1
        while hi in ne:
            ne.discard(hi)
            hi -= 1
        if lo > hi:
            return False
        ne = tuple(sorted(x for x in ne if lo < x < hi))[:6]
        self.facts[key] = (lo, hi, ne)
        return True

    def refine1(self, pred, v, c):
        """Refine symbol value v (with offset) against a constant."""
        if v[0] == 'a' and not v[2] and v[1][0] == 's':
            v = v[1]
        if v[0] != 's':
            return True
        c -= v[2]
        lo, hi, ne = self.facts.get(v[1], (-INF, INF, ()))
        if pred == 'eq':
            if c < lo or c > hi or c in ne:
                return False
            return self.setrng(v[1], c, c, ())
        if pred == 'ne':
            return self.setrng(v[1], lo, hi, ne + (c,))
        if pred == 'slt':
            return self.setrng(v[1], lo, min(hi, c - 1), ne)
        if pred == 'sle':
            return self.setrng(v[1], lo, min(hi, c), ne)
        if pred == 'sgt':
            return self.setrng(v[1], max(lo, c + 1), hi, ne)
        if pred == 'sge':
            return self.setrng(v[1], max(lo, c), hi, ne)
        return True

    def assume(self, pred, l, r):
        """Add pred(l, r); False if infeasible."""
        d = self.decide(pred, l, r)
        if d is False:
            return False
        if self.keepdiff and l[0] == 's' and r[0] == 's' and l[1] != r[1]:
            o = r[2] - l[2]
            for a, b, c, ps in ((l[1], r[1], o, ('eq', 'sle')), (l[1], r[1], o - 1, ('slt',)), (r[1], l[1], -o, ('eq', 'sge')), (r[1], l[1], -o - 1, ('sgt',))):
                if pred in ps and c < self.diff.get((a, b), INF):
                    self.diff[(a, b)] = c
        if d is True:
            return True
        lc, rc = self.const(l), self.const(r)
        if pred[0] == 'u':
            # only x <u C / x <=u C with C >= 0 refine (0 <= x <= C)
            if pred in ('ult', 'ule') and rc is not None and rc >= 0:
                return self.refine1('sge', l, 0) and self.refine1('slt' if pred == 'ult' else 'sle', l, rc)
            if pred in ('ugt', 'uge') and lc is not None and lc >= 0:
                return self.refine1('sge', r, 0) and self.refine1('sgt' if pred == 'ugt' else 'sge', r, lc) if False else True
            if self.rng(l)[0] >= 0 and self.rng(r)[0] >= 0:
                pred = 's' + pred[1:]
            else:
                return True
        if rc is not None:
            if not self.refine1(pred, l, rc):
                return False
        elif lc is not None:
            if not self.refine1(SWAP[pred], r, lc):
                return False
        elif l[0] == 's' and r[0] == 's':
            d = r[2] - l[2]
            a, b = l[1], r[1]
            def put(x, y, c):
                if c < self.diff.get((x, y), INF):
                    self.diff[(x, y)] = c
            if pred == 'eq':
                put(a, b, d)
                put(b, a, -d)
            elif pred == 'ne':
                # a-b <= d and != d  ->  <= d-1
                if self.diff.get((a, b), INF) == d:
                    self.diff[(a, b)] = d - 1
                elif self.diff.get((b, a), INF) == -d:
                    self.diff[(b, a)] = -d - 1
                else:
                    self.nes = self.nes | {(a, b, d)}
            elif pred == 'slt':
                put(a, b, d - 1)
            elif pred == 'sle':
                put(a, b, d)
            elif pred == 'sgt':
                put(b, a, -d - 1)
            elif pred == 'sge':
                put(b, a, -d)
            # propagate intervals
            fa, fb = self.facts.get(a, (-INF, INF, ())), self.facts.get(b, (-INF, INF, ()))
            c = self.diff.get((a, b))
            if c is not None:
                if fb[1] < INF and not self.setrng(a, fa[0], min(fa[1], fb[1] + c), fa[2]):
                    return False
                fa = self.facts.get(a, fa)
                if fa[0] > -INF and not self.setrng(b, max(fb[0], fa[0] - c), fb[1], fb[2]):
                    return False
            fa, fb = self.facts.get(a, (-INF, INF, ())), self.facts.get(b, (-INF, INF, ()))
            c = self.diff.get((b, a))
            if c is not None:
                if fa[1] < INF and not self.setrng(b, fb[0], min(fb[1], fa[1] + c), fb[2]):
                    return False
                fb = self.facts.get(b, fb)
                if fb[0] > -INF and not self.setrng(a, max(fa[0], fb[0] - c), fa[1], fa[2]):
                    return False
        return True

    def truth(self, v, want):
        """Assume the i1 value v is `want`."""
        if v[0] == 'cmp':
            return self.assume(v[1] if want else NEG[v[1]], v[2], v[3])
        if v[0] == 'not':
            return self.truth(v[1], not want)
        if v[0] == 'b2i':
            return self.truth(v[1], want)
        if v[0] == 'c':
            return bool(v[1]) == want
        if v[0] == 's':
            return self.assume('ne' if want else 'eq', v, C0)
        return True


class Client:
    """Default client: no property."""
    def init(self, sim, st):
        pass
    def call(self, sim, st, I, args):
        return None
    def deref(self, sim, st, I, base, addr, write):
        pass
    def store(self, sim, st, I, addr, val):
        pass
    def load(self, sim, st, I, addr, val):
        return None
    def ret(self, sim, st, I, val):
        pass
    def clsyms(self, cl):
        return ()
    def clsubst(self, cl, k, new):
        return cl
    def branch(self, sim, st, I, cond):
        pass
    def edge(self, sim, st):
        pass
    def use(self, sim, st, I):
        pass
    def sync(self, sim, st):
        pass
    def alloca(self, sim, st, I):
        pass
    wants_use = False


KSCALE = 1      # raised when looking again at what was reported


class Sim:
    def __init__(self, mod, fn, client, K=16, maxsteps=400000, modsets=None, retsets=None):
        self.mod, self.fn, self.client, self.K = mod, fn, client, K * KSCALE
        self.maxsteps = maxsteps
        self.modsets = modsets if modsets is not None else compute_modsets(mod)
        self.retsets = retsets if retsets is not None else compute_retsets(mod)
        self.steps = 0
        self.capped = 0
        self.live = fn.livein()
        self.imp, self.impal = important(fn)
        self.rpo = rpo(fn)
        self.inloop = loop_blocks(fn)
        self.instsyms = set()

    # ---- evaluation
    def ev(self, st, v):
        if 'v' in v:
            k = v['v']
            r = st.env.get(k)
            return r if r is not None else ('s', k, 0)
        if 'c' in v:
            return ('c', v['c'])
        if 'g' in v:
            return ('a', ('g', v['g']), ())
        if 'fn' in v:
            return ('fn', v['fn'])
        if v.get('ce') == 'gep':
            return self.gep(st, self.ev(st, v['base']), v['path'])
        return TOP

    def gep(self, st, base, path):
        ps = []
        for p in path:
            if p['k'] == 'fld':
                ps.append(('f', p['s'], p['f']))
            else:
                ps.append(('i', self.ev(st, p['v'])))
        if base == TOP:
            return TOP
        if base[0] == 'a':
            bp = base[2]
            # p + 0 + idx: pointer arithmetic on an element address adds to the last index when possible
            if ps and ps[0][0] == 'i' and bp and bp[-1][0] == 'i' and bp[-1][1][0] == 'c' and ps[0][1][0] == 'c' and len(ps) == 1:
                return ('a', base[1], bp[:-1] + (('i', ('c', bp[-1][1][1] + ps[0][1][1])),))
            q = bp + tuple(ps)
            return ('a', base[1], q) if len(q) <= 10 else TOP
        return ('a', base, tuple(ps))

    def define(self, st, I, val):
        st.env[I.id] = val

    def fresh(self, st, I):
        """Result symbol for instruction I; retires an earlier incarnation."""
        k = I.id
        if I.blk.id in self.inloop:
            self.retire(st, k)
        return ('s', k, 0)

    def retire(self, st, k, depth=0):
        st.env.pop(k, None)
        used = k in st.facts
        if not used:
            s = set()
            for v in st.env.values():
                syms_in(v, s)
            for a, v in st.mem.items():
                syms_in(a, s)
                syms_in(v, s)
            s.update(self.client.clsyms(st.cl))
            for d in st.diff:
                s.update(d)
            for d in st.nes:
                s.update(d[:2])
            used = k in s
            if not used:
                return
        new = ('o', k) if depth == 0 else None
        if new is not None:
            self.retire(st, new, 1)
        self.rename(st, k, new)

    def rename(self, st, k, new):
        st.env = {i: w for i, w in ((i, subst(v, k, new)) for i, v in st.env.items())}
        m = {}
        for a, v in st.mem.items():
            a2, v2 = subst(a, k, new), subst(v, k, new)
            if a2 == TOP or v2 == TOP or any(p[0] == 'i' and p[1] == TOP for p in (a2[2] if a2[0] == 'a' else ())):
                continue
            m[a2] = v2
        st.mem = m
        f = st.facts.pop(k, None)
        if f is not None and new is not None:
            st.facts[new] = f
        d = {}
        for kk, c in st.diff.items():
            if k in kk:
                if new is None:
                    continue
                kk = (new if kk[0] == k else kk[0], new if kk[1] == k else kk[1])
            d[kk] = c
        st.diff = d
        if st.nes:
            st.nes = frozenset((new if a == k else a, new if b == k else b, c) for a, b, c in st.nes
                               if new is not None or k not in (a, b))
        st.cl = self.client.clsubst(st.cl, k, new)

    # ---- memory
    def base_of(self, addr):
        if addr[0] == 'a':
            return addr[1]
        return addr

    def distinct(self, st, a, b):
        """Addresses certainly different."""
        if a[0] != 'a' or b[0] != 'a':
            ba, bb = self.base_of(a), self.base_of(b)
        else:
            ba, bb = a[1], b[1]
        if ba != bb:
            la, lb = ba[0] in ('al', 'g'), bb[0] in ('al', 'g')
            if la and lb:
                return True
            if ba[0] == 'al' and ba[1] not in st.esc:
                return True
            if bb[0] == 'al' and bb[1] not in st.esc:
                return True
            # memory allocated here is none of the caller's
            for x, y in ((ba, bb), (bb, ba)):
                if x[0] == y[0] == 's' and isinstance(x[1], int) and x[1] < len(self.fn.args) and isinstance(y[1], int):
                    i = self.fn.insts.get(y[1])
                    if i is not None and i.op == 'call' and i.cname() in ('malloc', 'calloc'):
                        return True
            return False
        pa, pb = (a[2] if a[0] == 'a' else ()), (b[2] if b[0] == 'a' else ())
        for x, y in zip(pa, pb):
            if x == y:
                continue
            if x[0] == 'i' and y[0] == 'i':
                if st.decide('eq', x[1], y[1]) is False:
                    return True
                return False
            if x[0] == 'f' and y[0] == 'f':
                return True
            return False
        return False

    def vclass(self, v):
        """Storage class of a value: 'p' pointer, 'i' integer or character, '?' constant."""
        while True:
            if v[0] in ('a', 'fn', 'str'):
                return 'p'
            if v[0] != 's':
                return '?' if v[0] == 'c' else 'i'
            k = v[1]
            while isinstance(k, tuple):
                if k == ('R',):
                    return 'p'
                if k[0] in ('jm', 'jmm'):
                    return 'p' if self.fn.insts[k[1]].aty == 'ptr' else 'i'
                if len(k) < 2:
                    return '?'
                k = k[1]
            if not isinstance(k, int):
                return '?'
            i = self.fn.insts.get(k)
            ty = i.ty if i is not None else self.fn.args[k][1] if k < len(self.fn.args) else '?'
            return 'p' if ty == 'ptr' else 'i'

    def untyped_hit(self, mods, v):
        if '*' in mods or ALLK in mods:
            return True
        c = self.vclass(v)
        if c != 'p' and ('*c' in mods or '*i' in mods):
            return True
        return c != 'i' and '*p' in mods

    def do_store(self, st, addr, val, cls=None):
        if addr == TOP or addr[0] == 'c':
            for a in [a for a in st.mem if a[1][0] not in ('al', 'g')]:
                del st.mem[a]
            return
        if addr[0] == 's':
            addr = ('a', addr, ())
        key = addr_key(addr)
        dead = []
        for a in st.mem:
            if a == addr:
                continue
            k2 = addr_key(a)
            if k2 == key or key == '*' or k2 == '*':
                if (key == '*') != (k2 == '*'):
                    # untyped store vs field cell: int*/ptr* params; assume type-distinct fields only alias
                    # when the untyped pointer could point at them: escaped allocas
                    o = k2 if key == '*' else key
                    if o[0] != 'al' or o[1] not in st.esc:
                        continue
                if key == '*' and k2 == '*' and a[1] != addr[1]:
                    ca, cb = self.vclass(st.mem[a]), cls or self.vclass(val)
                    if a[1][0] != 'pure' and ca != cb and '?' not in (ca, cb):
                        continue
                    if a[1][0] == 'pure' and (cb == 'p' or self.stable_pure(a, ())):
                        continue
                if not self.distinct(st, a, addr):
                    dead.append(a)
            elif a[1] == addr[1] and a[2][:len(addr[2])] == addr[2]:
                dead.append(a)
        for a in dead:
            del st.mem[a]
        st.mem[addr] = val

    def kill(self, st, mods, argvals=(), capt=None):
        """Effects of a call.  capt: indices of captured arguments (None = all)."""
        if mods is None:
            mods = ALL
        bases, keepb = set(), set()
        for i, v in enumerate(argvals):
            if v[0] == 'a' and v[1][0] == 'al':
                bases.add(v[1][1])
                if capt is None or i in capt:
                    keepb.add(v[1][1])
        if keepb:
            st.esc = st.esc | frozenset(keepb)
        dead = []
        for a in st.mem:
            k = addr_key(a)
            if a[1][0] == 'al':
                if (a[1][1] in bases or a[1][1] in st.esc) and (
                        self.untyped_hit(mods, st.mem[a]) or k in mods or (k[0] != 'al' and (k[0], '*') in mods)):
                    dead.append(a)
            elif a[1][0] == 'pure':
                if ('*c' in mods or '*' in mods or ALLK in mods) and not self.stable_pure(a, argvals):
                    dead.append(a)
            elif k == '*':
                if self.untyped_hit(mods, st.mem[a]):
                    dead.append(a)
            elif ALLK in mods or k in mods or (isinstance(k, tuple) and (k[0], '*') in mods):
                dead.append(a)
        for a in dead:
            del st.mem[a]

    def stable_pure(self, a, argvals):
        """Text given by the caller (a parameter not passed on) or a literal: not rewritten by callees."""
        for p in a[2]:
            v = p[1]
            b = self.base_of(v)
            if b[0] in ('c', 'g', 'str'):
                continue
            if v[0] == 's' and v[2] == 0 and isinstance(v[1], int) and v[1] < len(self.fn.args) and v not in argvals:
                continue
            return False
        return True

    # ---- pruning / keys
    def prune(self, st, bid):
        live = self.live[bid]
        nargs = len(self.fn.args)
        st.env = {k: v for k, v in st.env.items() if k in live or k < nargs}
        reach = set(range(nargs))
        reach.update(live)
        for v in st.env.values():
            syms_in(v, reach)
        reach.update(self.client.clsyms(st.cl))
        ch = True
        pend = list(st.mem.items())
        keep = {}
        while ch:
            ch = False
            nx = []
            for a, v in pend:
                b = a[1] if a[0] == 'a' else a
                if b[0] in ('al', 'g', 'pure') or (b[0] == 's' and b[1] in reach) or b[0] == 'c':
                    # index symbols must be reachable as well for the cell to be readable
                    ix = set()
                    for p in a[2]:
                        if p[0] == 'i':
                            syms_in(p[1], ix)
                    if ix <= reach:
                        keep[a] = v
                        n = len(reach)
                        syms_in(v, reach)
                        ch = True
                        continue
                nx.append((a, v))
            pend = nx
        st.mem = keep
        st.facts = {k: v for k, v in st.facts.items() if k in reach}
        st.diff = {k: c for k, c in st.diff.items() if k[0] in reach and k[1] in reach}
        if st.nes:
            st.nes = frozenset(x for x in st.nes if x[0] in reach and x[1] in reach)

    def key(self, st):
        return (frozenset(st.env.items()), frozenset(st.facts.items()), frozenset(st.diff.items()),
                frozenset(st.mem.items()), st.esc, st.nes)

    @staticmethod
    def hull(x, g, widen):
        lo, hi, ne = x
        l2, h2 = min(lo, g[0]), max(hi, g[1])
        if widen:
            if l2 < lo:
                l2 = 0 if l2 >= 0 else -1 if l2 == -1 else -INF
            if h2 > hi:
                h2 = 0 if h2 <= 0 else 1 if h2 == 1 else INF
        n2 = tuple(x for x in ne if x in g[2] or x < g[0] or x > g[1]) + tuple(x for x in g[2] if x not in ne and (x < lo or x > hi))
        # keep 0-exclusion across hulls
        if l2 <= 0 <= h2 and (lo > 0 or hi < 0 or 0 in ne) and (g[0] > 0 or g[1] < 0 or 0 in g[2]) and 0 not in n2:
            n2 = n2 + (0,)
        n2 = tuple(sorted(set(x for x in n2 if l2 < x < h2)))[:6]
        return (l2, h2, n2) if l2 > -INF or h2 < INF or n2 else None

    def usedsyms(self, st):
        s = set()
        for v in st.env.values():
            syms_in(v, s)
        for c, v in st.mem.items():
            syms_in(c, s)
            syms_in(v, s)
        s.update(self.client.clsyms(st.cl))
        return s

    def join(self, a, b, widen):
        n = a.copy()
        n.env = {k: v for k, v in a.env.items() if b.env.get(k) == v}
        n.mem = {k: v for k, v in a.mem.items() if b.mem.get(k) == v}
        f = {}
        for k, x in a.facts.items():
            g = b.facts.get(k)
            if g is None:
                continue
            h = self.hull(x, g, widen)
            if h is not None:
                f[k] = h
        n.facts = f
        n.diff = {}
        for k, c in a.diff.items():
            d = b.diff.get(k)
            if d is None and St.keepdiff:
                d = b.dub(*k)
                d = d if d < INF else None
            if d is None:
                continue
            if d > c:
                if widen:
                    continue
                c = d
            n.diff[k] = c
        n.esc = a.esc | b.esc
        n.nes = a.nes & b.nes
        # values that differ but both have bounds: one symbol standing for either
        ua = ub = un = None
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None or w == v or v[0] not in ('c', 's', 'b2i') or w[0] not in ('c', 's', 'b2i'):
                continue
            h = self.hull(a.rng(v), b.rng(w), widen)
            if h is None:
                continue
            if ua is None:
                ua, ub, un = self.usedsyms(a), self.usedsyms(b), self.usedsyms(n)
            for S in (('j', k), ('jj', k)):
                if S in un or (S in ua and v != ('s', S, 0)) or (S in ub and w != ('s', S, 0)):
                    continue
                n.env[k] = ('s', S, 0)
                un.add(S)
                f[S] = h
                n.diff = {x: c for x, c in n.diff.items() if S not in x}
                if n.nes:
                    n.nes = frozenset(x for x in n.nes if S not in x[:2])
                if St.keepdiff:
                    self.joindiff(a, b, n, v, w, S)
                break
        if not St.keepdiff:
            return n
        # the same for local variables kept in memory
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if k[1][0] != 'al' or k[2] or w is None or w == v or v[0] not in ('c', 's', 'b2i') or w[0] not in ('c', 's', 'b2i'):
                continue
            h = self.hull(a.rng(v), b.rng(w), widen)
            if ua is None:
                ua, ub, un = self.usedsyms(a), self.usedsyms(b), self.usedsyms(n)
            for S in (('jm', k[1][1]), ('jmm', k[1][1])):
                if S in un or (S in ua and v != ('s', S, 0)) or (S in ub and w != ('s', S, 0)):
                    continue
                n.mem[k] = ('s', S, 0)
                un.add(S)
                n.diff = {x: c for x, c in n.diff.items() if S not in x}
                if n.nes:
                    n.nes = frozenset(x for x in n.nes if S not in x[:2])
                f.pop(S, None)
                if h is not None:
                    f[S] = h
                self.joindiff(a, b, n, v, w, S)
                break
        return n

    def joindiff(self, a, b, n, v, w, S):
        """Difference bounds of the symbol S standing for v (in a) or w (in b)."""
        xs = set()
        for st, u in ((a, v), (b, w)):
            if u[0] == 's':
                for (p, q) in st.diff:
                    if p == u[1]:
                        xs.add(q)
                    elif q == u[1]:
                        xs.add(p)
        for x in xs:
            if x == S or any(u[0] == 's' and u[1] == x for u in (v, w)):
                continue
            up = max(self.upper(a, v, x), self.upper(b, w, x))
            lo = max(self.lower(a, v, x), self.lower(b, w, x))
            if up < INF:
                n.diff[(S, x)] = up
            if lo < INF:
                n.diff[(x, S)] = lo

    @staticmethod
    def upper(st, v, x):
        if v[0] == 's':
            d = st.dub(v[1], x)
            return d + v[2] if d < INF else INF
        r, g = st.rng(v), st.facts.get(x)
        return r[1] - g[0] if g and g[0] > -INF and r[1] < INF else INF

    @staticmethod
    def lower(st, v, x):
        if v[0] == 's':
            d = st.dub(x, v[1])
            return d - v[2] if d < INF else INF
        r, g = st.rng(v), st.facts.get(x)
        return g[1] - r[0] if g and g[1] < INF and r[0] > -INF else INF

    # ---- driver
    def run(self):
        while not self.run1():
            # too many paths kept apart: once more, joining them earlier
            if self.K <= 2:
                raise RuntimeError('PathSim budget exceeded in %s' % self.fn.name)
            self.K = max(2, self.K // 8)
            self.steps = self.capped = 0

    def run1(self):
        st = St()
        self.client.init(self, st)
        visited, buckets, joined, nsig = {}, {}, {}, {}
        heap, seq = [], 0
        work = {}

        def push(bid, st):
            nonlocal seq
            self.prune(st, bid)
            self.client.sync(self, st)
            k = self.key(st)
            cl = st.cl
            vs = visited.setdefault((bid, cl), set())
            if k in vs:
                return
            if len(vs) >= self.K:
                self.capped += 1
                jk = (bid, cl, self.sig(st))
                if jk not in joined and nsig.get((bid, cl), 0) >= 8:
                    jk = (bid, cl, None)
                j = joined.get(jk)
                if j is None:
                    nsig[(bid, cl)] = nsig.get((bid, cl), 0) + 1
                    joined[jk] = [st, 0]
                    n = st
                else:
                    n = self.join(j[0], st, j[1] > (3 if bid in self.inloop else 1000))
                    self.prune(n, bid)
                    if self.key(n) == self.key(j[0]):
                        return
                    j[0] = n
                    j[1] += 1
                    n = n.copy()
                k = self.key(n)
                if k in vs:
                    return
                vs.add(k)
                st = n
            else:
                vs.add(k)
            seq += 1
            heapq.heappush(heap, (self.rpo.get(bid, 0), seq, bid, st))

        push(0, st)
        while heap:
            _, _, bid, st = heapq.heappop(heap)
            self.steps += 1
            if self.steps > self.maxsteps or self.steps > self.maxsteps // 10 and getattr(self.client, "bad", None):
                return bool(getattr(self.client, 'bad', None))      # what was found stands
            for nb, ns in self.block(bid, st):
                push(nb, ns)
        return True

    def sig(self, st):
        """What is known of the sign of the status to be returned: states that differ in it are joined last."""
        r = []
        for k in self.imp:
            v = st.env.get(k)
            if v is not None and v != TOP:
                x = st.rng(v)
                r.append((k, max(min(x[0], 2), -2), max(min(x[1], 2), -2)))
        for k in self.impal:
            v = st.mem.get(('a', ('al', k), ()))
            if v is not None and v != TOP:
                x = st.rng(v)
                r.append((k, max(min(x[0], 2), -2), max(min(x[1], 2), -2)))
        return tuple(r)

    def block(self, bid, st0):
        B = self.fn.blocks[bid]
        st0 = st0.copy()
        states = [st0]
        out = []
        for I in B.insts:
            op = I.op
            if op == 'phi':
                continue
            nxt = []
            for st in states:
                nxt += self.step(st, I, B, out)
            states = nxt
            if not states:
                break
        return out

    def goto(self, st, B, nb, out, line=None):
        """Take the edge B -> nb: evaluate phis there."""
        self.curedge = (B, nb)
        self.client.edge(self, st)
        n = st.copy()
        if line is not None:
            n.trail = (st.trail, line)
        T = self.fn.blocks[nb]
        vals = []
        for I in T.insts:
            if I.op != 'phi':
                break
            for pb, v in I.inc:
                if pb == B.id:
                    vals.append((I, self.ev(n, v)))
                    break
        for idx in range(len(vals)):
            I, v = vals[idx]
            k = I.id
            if k in n.env or nb in self.inloop:
                # the previous incarnation may still be referenced
                s = set()
                for j in range(len(vals)):
                    syms_in(vals[j][1], s)
                old_needed = k in s
                if old_needed:
                    # rename in pending values too
                    self.retire_keep(n, k)
                    vals = [(J, subst(w, k, ('o', k))) for J, w in vals]
                else:
                    self.retire(n, k)
        for I, v in vals:
            if v == TOP:
                n.env.pop(I.id, None)
            else:
                n.env[I.id] = v
        out.append((nb, n))

    def retire_keep(self, st, k):
        st.env.pop(k, None)
        self.retire(st, ('o', k), 1)
        self.rename(st, k, ('o', k))

    def step(self, st, I, B, out):
        op = I.op
        cl = self.client
        if cl.wants_use:
            cl.use(self, st, I)
        if op == 'alloca':
            st.env[I.id] = ('a', ('al', I.id), ())
            for a in [a for a in st.mem if a[1] == ('al', I.id)]:
                del st.mem[a]
            cl.alloca(self, st, I)
            return [st]
        if op == 'getelementptr':
            v = self.gep(st, self.ev(st, I.a[0]), I.path)
            if v == TOP:
                v = self.fresh(st, I)
            elif I.blk.id in self.inloop:
                pass
            st.env[I.id] = v
            return [st]
        if op == 'load':
            addr = self.ev(st, I.a[0])
            r = cl.deref(self, st, I, self.base_of(addr), addr, False)
            if r is False:
                return []
            if addr[0] == 's':
                addr = ('a', addr, ())
            v = st.mem.get(addr) if addr != TOP else None
            if v is None:
                g = addr[1][1] if addr[0] == 'a' and addr[1][0] == 'g' else None
                v = self.fresh(st, I)
                # fresh() may have retired a symbol inside addr: recompute
                addr = self.ev(st, I.a[0])
                if addr[0] == 's':
                    addr = ('a', addr, ())
                if addr != TOP and addr[0] == 'a' and self.ok_addr(addr):
                    st.mem[addr] = v
                if I.ty == 'i8':
                    st.facts[I.id] = (-128, 127, ())
            v2 = cl.load(self, st, I, addr, v)
            if v2 is not None:
                v = v2
            st.env[I.id] = v
            return [st]
        if op == 'store':
            val = self.ev(st, I.a[0])
            addr = self.ev(st, I.a[1])
            r = cl.deref(self, st, I, self.base_of(addr), addr, True)
            if r is False:
                return []
            if val[0] == 'a' and val[1][0] == 'al' and not (addr[0] == 'a' and addr[1][0] == 'al'):
                st.esc = st.esc | {val[1][1]}
            cl.store(self, st, I, addr, val)
            w = I.a[0]
            cls = None
            if w.get('null') or 'g' in w or 'fn' in w or 'ce' in w:
                cls = 'p'
            elif 'c' in w:
                cls = 'i'
            elif 'v' in w:
                t = self.opty(w)
                cls = 'p' if t == 'ptr' else 'i' if t and t.startswith('i') else None
            if val == TOP:
                # forget
                self.do_store(st, addr, TOP, cls)
                if addr[0] == 's':
                    addr = ('a', addr, ())
                st.mem.pop(addr, None)
            else:
                self.do_store(st, addr, val, cls)
            return [st]
        if op == 'icmp':
            l, r = self.ev(st, I.a[0]), self.ev(st, I.a[1])
            st.env[I.id] = self.cmpval(st, I.pred, l, r)
            if st.env[I.id] == TOP:
                st.env[I.id] = self.fresh(st, I)
                st.facts[I.id] = (0, 1, ())
            return [st]
        if op in ('zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.ev(st, I.a[0])
            if v[0] in ('cmp', 'not'):
                v = ('b2i', v)
            if v == TOP:
                v = self.fresh(st, I)
            st.env[I.id] = v
            if op == 'zext' and v[0] == 's' and I.ty == 'i32' and self.opty(I.a[0]) == 'i8':
                v = self.fresh(st, I)
                st.env[I.id] = v
                st.facts[I.id] = (0, 255, ())
            return [st]
        if op == 'trunc':
            v = self.ev(st, I.a[0])
            if I.ty == 'i1':
                c = st.const(v)
                if c is not None:
                    st.env[I.id] = ('c', c & 1)
                elif v[0] == 'b2i':
                    st.env[I.id] = v[1]
                else:
                    r = st.rng(v)
                    if r[0] >= 0 and r[1] <= 1:
                        st.env[I.id] = ('cmp', 'ne', v, C0)
                    else:
                        st.env[I.id] = self.fresh(st, I)
                        st.facts[I.id] = (0, 1, ())
                return [st]
            r = st.rng(v)
            bits = int(I.ty[1:])
            if v != TOP and (r[0] >= -(1 << (bits - 1)) and r[1] < (1 << (bits - 1)) or bits == 32):
                st.env[I.id] = v
            else:
                st.env[I.id] = self.fresh(st, I)
                st.facts[I.id] = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1, ())
            return [st]
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'udiv', 'srem', 'urem'):
            return self.arith(st, I)
        if op == 'freeze':
            st.env[I.id] = self.ev(st, I.a[0])
            return [st]
        if op == 'select':
            c = self.ev(st, I.a[0])
            d = self.truthof(st, c)
            res = []
            for want in (True, False):
                if d is not None and d != want:
                    continue
                n = st.copy()
                if n.truth(c, want):
                    v = self.ev(n, I.a[1 if want else 2])
                    n.env[I.id] = v
                    res.append(n)
            return res
        if op == 'call':
            return self.do_call(st, I)
        if op == 'br':
            if len(I.succ) == 1:
                self.goto(st, B, I.succ[0], out)
                return []
            c = self.ev(st, I.a[0])
            cl.branch(self, st, I, c)
            d = self.truthof(st, c)
            for want, nb in ((True, I.succ[0]), (False, I.succ[1])):
                if d is not None and d != want:
                    continue
                n = st.copy()
                if n.truth(c, want):
                    self.goto(n, B, nb, out, (I.where(), want) if I.loc else None)
            return []
        if op == 'switch':
            v = self.ev(st, I.a[0])
            cl.branch(self, st, I, v)
            rest = st.copy()
            ok = True
            for cv, nb in I.cases:
                if st.decide('eq', v, ('c', cv)) is not False:
                    n = st.copy()
                    if n.assume('eq', v, ('c', cv)):
                        self.goto(n, B, nb, out, (I.where(), cv) if I.loc else None)
                if ok and not rest.assume('ne', v, ('c', cv)):
                    ok = False
            if ok:
                self.goto(rest, B, I.succ[0], out, (I.where(), 'default') if I.loc else None)
            return []
        if op == 'ret':
            v = self.ev(st, I.a[0]) if I.a else None
            cl.ret(self, st, I, v)
            return []
        if op == 'unreachable':
            return []
        # anything else: opaque
        v = self.fresh(st, I)
        st.env[I.id] = v
        return [st]

    def ok_addr(self, addr):
        if addr[1] == TOP:
            return False
        for p in addr[2]:
            if p[0] == 'i' and p[1] == TOP:
                return False
        return True

    def opty(self, v):
        if 'v' in v:
            i = self.fn.insts.get(v['v'])
            if i is not None:
                return i.ty
            return self.fn.args[v['v']][1]
        return None

    def truthof(self, st, c):
        if c[0] == 'cmp':
            return st.decide(c[1], c[2], c[3])
        if c[0] == 'not':
            d = self.truthof(st, c[1])
            return None if d is None else not d
        if c[0] == 'b2i':
            return self.truthof(st, c[1])
        if c[0] == 'c':
            return bool(c[1])
        if c[0] == 's':
            d = st.decide('ne', c, C0)
            return d
        return None

    def cmpval(self, st, pred, l, r):
        if l == TOP or r == TOP:
            return TOP
        # comparisons of booleans with 0/1
        for a, b in ((l, r), (r, l)):
            if a[0] == 'b2i' and b[0] == 'c' and pred in ('eq', 'ne'):
                if b[1] == 0:
                    return a[1] if pred == 'ne' else neg(a[1])
                if b[1] == 1:
                    return a[1] if pred == 'eq' else neg(a[1])
        if l[0] in ('cmp', 'not') or r[0] in ('cmp', 'not'):
            for a, b in ((l, r), (r, l)):
                if a[0] in ('cmp', 'not') and b[0] == 'c' and pred in ('eq', 'ne'):
                    return a if (pred == 'ne') == (b[1] == 0) else neg(a)
            return TOP
        d = st.decide(pred, l, r)
        if d is not None:
            return ('c', 1 if d else 0)
        return ('cmp', pred, l, r)

    def arith(self, st, I):
        l, r = self.ev(st, I.a[0]), self.ev(st, I.a[1])
        op = I.op
        cl_, cr = st.const(l), st.const(r)
        v = None
        if cl_ is not None and cr is not None:
            v = fold(op, cl_, cr, I.ty)
        elif op == 'xor' and cr is not None and I.ty == 'i1':
            v = neg(l) if cr & 1 else l
        elif op == 'add' and cr is not None and l[0] == 's':
            v = ('s', l[1], l[2] + cr)
        elif op == 'add' and cl_ is not None and r[0] == 's':
            v = ('s', r[1], r[2] + cl_)
        elif op == 'sub' and cr is not None and l[0] == 's':
            v = ('s', l[1], l[2] - cr)
        elif op in ('and', 'or') and I.ty == 'i1' and l[0] == r[0]:
            v = None
        elif op == 'and' and (cr == 0 or cl_ == 0):
            v = C0
        if v is not None and v[0] == 's' and abs(v[2]) > 4 and I.blk.id in self.inloop:
            v = None  # avoid unbounded offset chains in loops
        if v is None:
            rr, ll = st.rng(r), st.rng(l)
            v = self.fresh(st, I)
            if op == 'and' and cr is not None and cr >= 0:
                st.facts[I.id] = (0, cr, ())
            elif op == 'and' and cl_ is not None and cl_ >= 0:
                st.facts[I.id] = (0, cl_, ())
            elif op == 'srem' and cr:
                st.facts[I.id] = (0 if ll[0] >= 0 else -abs(cr) + 1, abs(cr) - 1, ())
            elif op in ('sdiv', 'udiv', 'ashr', 'lshr') and ll[0] >= 0 and rr[0] >= 0:
                st.facts[I.id] = (0, ll[1], ())
            elif op == 'add' and ll[0] > -INF and rr[0] > -INF:
                lo = ll[0] + rr[0]
                hi = ll[1] + rr[1] if ll[1] < INF and rr[1] < INF else INF
                st.facts[I.id] = (lo, hi, ())
            elif op in ('mul', 'or') and ll[0] >= 0 and rr[0] >= 0:
                hi = INF
                if ll[1] < INF and rr[1] < INF:
                    hi = ll[1] * rr[1] if op == 'mul' else ll[1] + rr[1]
                st.facts[I.id] = (ll[0] * rr[0] if op == 'mul' else max(ll[0], rr[0]), hi, ())
            elif op == 'add' and ll[0] > -INF and rr[0] > -INF:
                st.facts[I.id] = (ll[0] + rr[0], INF, ())
        st.env[I.id] = v
        return [st]

    def do_call(self, st, I):
        args = [self.ev(st, a) for a in I.a]
        r = self.client.call(self, st, I, args)
        if r is not None:
            return r
        return self.default_call(st, I, args)

    def default_call(self, st, I, args, result=True):
        """Apply the default effect of a call: kills, then a fresh result."""
        n = I.cname()
        if n and n.startswith('llvm.'):
            if n.startswith('llvm.memcpy') or n.startswith('llvm.memset') or n.startswith('llvm.memmove'):
                self.memeffect(st, I, args, n)
                return [st]
            if n.startswith('llvm.lifetime') or n.startswith('llvm.stack') or n.startswith('llvm.dbg'):
                if I.ty != 'void':
                    st.env[I.id] = self.fresh(st, I)
                return [st]
        pure = None
        if n in PURE and I.ty != 'void' and result and all(a != TOP for a in args):
            pure = ('a', ('pure', n), tuple(('i', a) for a in args))
            v = st.mem.get(pure)
            if v is not None:
                st.env[I.id] = v
                return [st]
        mods = call_mods(self.mod, self.modsets, I)
        self.kill(st, mods, args, call_captures(self.mod, I))
        for k in call_clears(self.mod, I):
            a = args[k] if k < len(args) else TOP
            if a[0] == 's':
                a = ('a', a, ())
            if a[0] == 'a' and self.ok_addr(a):
                st.mem[a] = C0
        if I.ty != 'void' and result:
            v = self.fresh(st, I)
            st.env[I.id] = v
            if pure is not None:
                args = [self.ev(st, a) for a in I.a]
                if all(a != TOP for a in args):
                    st.mem[('a', ('pure', n), tuple(('i', a) for a in args))] = v
            rs = call_retset(self.mod, self.retsets, I)
            if rs:
                lo, hi = min(rs), max(rs)
                st.setrng(I.id, lo, hi, [x for x in range(lo, hi) if x not in rs] if hi - lo < 8 else ())
        return [st]

    def memeffect(self, st, I, args, n):
        dst = args[0]
        r = self.client.deref(self, st, I, self.base_of(dst), dst, True)
        if not n.startswith('llvm.memset'):
            self.client.deref(self, st, I, self.base_of(args[1]), args[1], False)
        b = self.base_of(dst)
        for a in list(st.mem):
            if a[1] == b or (b[0] not in ('al', 'g') and a[1][0] not in ('al', 'g')) or (a[1][0] == 'al' and a[1][1] in st.esc and b[0] != 'al'):
                del st.mem[a]


_imp = {}


def important(fn):
    """Values (and local variables) the returned value is made from."""
    if fn in _imp:
        return _imp[fn]
    vals, als, work = set(), set(), [I.a[0]['v'] for I in fn.insts.values() if I.op == 'ret' and I.a and 'v' in I.a[0]]
    while work:
        v = work.pop()
        i = fn.insts.get(v)
        if i is None or v in vals:
            continue
        vals.add(v)
        ops = [x[1] for x in i.inc] if i.op == 'phi' else i.a if i.op in ('select', 'zext', 'sext', 'trunc', 'icmp', 'freeze', 'or', 'and', 'xor') else ()
        work += [x['v'] for x in ops if 'v' in x]
        if i.op == 'phi':
            # constants chosen by a test: what was tested
            for pb, x in i.inc:
                if 'v' in x:
                    continue
                up, seen = [pb], set()
                while up and len(seen) < 6:
                    pb = up.pop()
                    if pb in seen:
                        continue
                    seen.add(pb)
                    P = fn.blocks[pb]
                    t = P.term
                    if t.op == 'br' and len(t.succ) == 2 or t.op == 'switch':
                        if 'v' in t.a[0]:
                            work.append(t.a[0]['v'])
                    else:
                        up += P.preds
        if i.op == 'load' and fn.insts.get(i.a[0].get('v')) is not None and fn.insts[i.a[0]['v']].op == 'alloca' and i.a[0]['v'] not in als:
            al = i.a[0]['v']
            als.add(al)
            work += [U.a[0]['v'] for U in fn.uses.get(al, ()) if U.op == 'store' and 'v' in U.a[0]]
    _imp[fn] = (sorted(vals), sorted(als))
    return _imp[fn]


def neg(v):
    if v[0] == 'cmp':
        return ('cmp', NEG[v[1]], v[2], v[3])
    if v[0] == 'not':
        return v[1]
    if v[0] == 'c':
        return ('c', 0 if v[1] else 1)
    if v == TOP:
        return TOP
    return ('not', v)


def fold(op, a, b, ty):
    try:
        bits = int(ty[1:])
    except ValueError:
        bits = 64
    M = (1 << bits) - 1
    try:
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b if b < 64 else 0,
             'ashr': lambda: a >> b if b < 64 else 0, 'lshr': lambda: (a & M) >> b if b < 64 else 0,
             'sdiv': lambda: int(a / b) if b else None, 'udiv': lambda: (a & M) // (b & M) if b else None,
             'srem': lambda: a - int(a / b) * b if b else None, 'urem': lambda: (a & M) % (b & M) if b else None}[op]()
    except (ValueError, OverflowError):
        return None
    if r is None:
        return None
    r &= M
    if r >> (bits - 1) and bits > 1:
        r -= 1 << bits
    return ('c', r)


ALLK = 'ALL'
ALL = frozenset([ALLK])


def rpo(fn):
    seen, order = set(), []
    st = [(0, iter(fn.blocks[0].succs()))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(fn.blocks[s].succs())))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    return {b: i for i, b in enumerate(order)}


def loop_blocks(fn):
    """Blocks on some cycle (Tarjan SCC)."""
    idx, low, onst, stk, res, cnt = {}, {}, set(), [], set(), [0]
    for root in range(len(fn.blocks)):
        if root in idx:
            continue
        work = [(root, 0)]
        while work:
            v, pi = work.pop()
            if pi == 0:
                idx[v] = low[v] = cnt[0]
                cnt[0] += 1
                stk.append(v)
                onst.add(v)
            ss = fn.blocks[v].succs()
            rec = False
            for j in range(pi, len(ss)):
                w = ss[j]
                if w not in idx:
                    work.append((v, j + 1))
                    work.append((w, 0))
                    rec = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if rec:
                continue
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = stk.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in ss:
                    res.update(comp)
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    return res


# ---- module-level summaries -------------------------------------------------

def resolve_base(fn, v, depth=0):
    """Follow GEPs to the root value of an address: ('al',id) | ('g',n) | ('arg',i) | ('v',id) | other."""
    while True:
        if 'g' in v:
            return ('g', v['g'])
        if v.get('ce') == 'gep':
            v = v['base']
            continue
        if 'v' not in v:
            return ('?',)
        i = fn.insts.get(v['v'])
        if i is None:
            return ('arg', v['v'])
        if i.op == 'getelementptr':
            v = i.a[0]
            continue
        if i.op == 'alloca':
            return ('al', i.id)
        return ('v', i.id)


def static_key(fn, v):
    """Alias class of the address operand v without simulation."""
    path = []
    w = v
    while True:
        if w.get('ce') == 'gep':
            path = list(w['path']) + path
            w = w['base']
            continue
        if 'v' in w:
            i = fn.insts.get(w['v'])
            if i is not None and i.op == 'getelementptr':
                path = list(i.path) + path
                w = i.a[0]
                continue
        break
    for p in reversed(path):
        if p['k'] == 'fld':
            return (p['s'], p['f'])
    b = resolve_base(fn, v)
    if b[0] in ('g', 'al'):
        return b
    return '*'


_ms = {}


def compute_modsets(mod):
    """function -> frozenset of alias classes it (transitively) may store to."""
    if id(mod) in _ms:
        return _ms[id(mod)]
    direct = {}
    for f in mod.defs.values():
        s = set()
        for I in f.insts.values():
            if I.op == 'store':
                b = resolve_base(f, I.a[1])
                if b[0] == 'al':
                    continue
                k = static_key(f, I.a[1])
                if k == '*':
                    s.update(store_class(f, I.a[0]))
                else:
                    s.add(k)
            elif I.op == 'call' and I.cname() and I.cname().startswith(('llvm.mem', 'memcpy', 'memset', 'memmove', 'strcpy', 'strcat', 'strncpy', 'sprintf', 'fread')):
                b = resolve_base(f, I.a[0])
                if b[0] == 'al':
                    continue
                k = static_key(f, I.a[0])
                st = None
                w = I.a[0]
                if 'v' in w and w['v'] in f.insts and f.insts[w['v']].op == 'getelementptr':
                    last = f.insts[w['v']].path[-1] if f.insts[w['v']].path else None
                    if last and last['k'] == 'idx' and last['ty'].startswith('struct.'):
                        st = last['ty']
                    elif last and last['k'] == 'fld':
                        for fl in mod.structs.get(last['s'], {}).get('fields', ()):
                            if fl[0] == last['f']:
                                st = tyname(mod, fl[1])
                if st:
                    s.add((st, '*'))
                    for fl in mod.structs.get(st, {}).get('fields', ()):
                        t = tyname(mod, fl[1])
                        if t:
                            s.add((t, '*'))
                elif I.cname().startswith('llvm.mem') or I.cname().startswith('mem'):
                    sz = I.a[2].get('c') if len(I.a) > 2 else None
                    # whole-array or unknown object: kill everything of record type
                    s.update(_memall(mod, f, I))
                else:
                    s.add(k if k != '*' else '*c')
        direct[f.name] = s
    cg = mod.callgraph()
    res = {n: set(s) for n, s in direct.items()}
    ch = True
    while ch:
        ch = False
        for n in res:
            for c in cg[n]:
                if c in res and not res[c] <= res[n]:
                    res[n] |= res[c]
                    ch = True
                if c == '?' and ALLK not in res[n]:
                    res[n].add(ALLK)
                    ch = True
    r = {n: frozenset(s) for n, s in res.items()}
    _ms[id(mod)] = r
    return r


def store_class(f, v):
    """Untyped alias classes of a store of operand v."""
    if v.get('null') or 'fn' in v or 'g' in v or 'ce' in v:
        return {'*p'}
    if 'v' in v:
        i = f.insts.get(v['v'])
        ty = i.ty if i is not None else f.args[v['v']][1]
        return {'*p'} if ty == 'ptr' else {'*c'} if ty == 'i8' else {'*i'} if ty.startswith('i') else {'*'}
    return {'*i', '*c'} if 'c' in v else {'*'}


def tyname(mod, dity):
    t = dity.replace('const ', '')
    for c in ('struct.' + t, 'struct.' + t.replace('struct ', '')):
        if c in mod.structs:
            return c
    return None


def _memall(mod, f, I):
    """memcpy/memset through a plain pointer: guess the record type from the pointer's origin."""
    w = I.a[0]
    i = f.insts.get(w.get('v')) if 'v' in w else None
    if i is not None and i.op == 'load':
        g = f.insts.get(i.a[0].get('v')) if 'v' in i.a[0] else None
        if g is not None and g.op == 'getelementptr' and g.path and g.path[-1]['k'] == 'fld':
            p = g.path[-1]
            for fl in mod.structs.get(p['s'], {}).get('fields', ()):
                if fl[0] == p['f']:
                    t = fl[1].rstrip('*')
                    if t.endswith('P') and tyname(mod, t[:-1]):
                        t = t[:-1]
                    if t in ('int', 'char'):
                        return {'*i', '*c'}
                    n = tyname(mod, t)
                    if n:
                        return {(n, '*')}
    if i is None and 'v' in w:
        n = f.dity[1 + w['v']] if len(f.dity) > 1 + w['v'] else ''
        if n in ('char*', 'int*'):
            return {'*i', '*c'}
    return {ALLK}


EXT_PURE = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strstr', 'strcspn', 'malloc', 'calloc', 'realloc', 'free',
            'fprintf', 'fputs', 'fputc', 'fflush', 'fopen', 'fclose', 'fgetc', 'getc', 'ungetc', 'time', 'clock', 'tolower', 'atoi',
            '__ctype_b_loc', 'srand', 'rand', 'fwrite', 'fseek', 'ftell', 'chdir', 'printf', 'putchar', 'puts', 'strdup', 'exit', 'abort',
            'sprintf', 'strcat', 'strcpy', 'strncpy', 'snprintf', 'fgets', 'fread', 'getcwd', '__isoc99_scanf', '__isoc99_sscanf',
            '__isoc99_fscanf', 'strtol', 'labs', 'abs', 'isdigit', 'toupper'}


PURE = {'strcmp', 'strlen', 'strncmp', 'strchr', 'strrchr', 'strstr', 'strcspn', 'tolower', 'toupper', 'atoi', 'isdigit', 'abs'}
_cp = {}


def compute_captures(mod):
    """function -> set of parameter indices whose value may outlive the call (stored or returned)."""
    if id(mod) in _cp:
        return _cp[id(mod)]
    res = {n: set() for n in mod.defs}
    ch = True
    while ch:
        ch = False
        for f in mod.defs.values():
            for k in range(len(f.args)):
                if f.args[k][1] != 'ptr' or k in res[f.name]:
                    continue
                seen, work, cap = {k}, [k], False
                while work and not cap:
                    x = work.pop()
                    for U in f.uses.get(x, ()):
                        if U.op == 'store':
                            if U.a[0].get('v') == x:
                                cap = True
                        elif U.op in ('ret', 'ptrtoint'):
                            cap = True
                        elif U.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                            if U.id not in seen:
                                seen.add(U.id)
                                work.append(U.id)
                        elif U.op == 'call':
                            for j, a in enumerate(U.a):
                                if a.get('v') == x and captured(mod, res, U, j):
                                    cap = True
                if cap:
                    res[f.name].add(k)
                    ch = True
    _cp[id(mod)] = res
    return res


def captured(mod, cp, I, j):
    for c in mod.callees(I):
        if c == '?':
            return True
        if c in cp and j in cp[c]:
            return True
    return False


_cc = {}


def call_captures(mod, I):
    k = (id(mod), I.fn.name, I.id)
    if k not in _cc:
        cp = compute_captures(mod)
        _cc[k] = {j for j in range(len(I.a)) if captured(mod, cp, I, j)}
    return _cc[k]


def call_mods(mod, ms, I):
    n = I.cname()
    if n:
        if n in ms:
            return ms[n]
        if n in EXT_PURE or n.startswith('llvm.'):
            if n in ('__isoc99_fscanf', '__isoc99_sscanf', '__isoc99_scanf'):
                return frozenset(['*i', '*c'])
            return frozenset(['*c']) if n in ('sprintf', 'strcat', 'strcpy', 'strncpy', 'fgets', 'fread', '__isoc99_fscanf', '__isoc99_sscanf', '__isoc99_scanf', 'snprintf') else frozenset()
        return ALL
    r = set()
    for c in mod.callees(I):
        if c in ms:
            r |= ms[c]
        else:
            return ALL
    return frozenset(r)


_cl = {}


def clears(mod, name):
    """Pointer parameters of the function whose pointee is certainly null when it returns (given a non-null parameter)."""
    k0 = (id(mod), name)
    if k0 in _cl:
        return _cl[k0]
    _cl[k0] = frozenset()
    f = mod.defs.get(name)
    if f is None:
        return _cl[k0]
    res = set()
    for k, a in enumerate(f.args):
        if a[1] != 'ptr' or not any(I.op == 'store' and I.a[1].get('v') == k and I.a[0].get('null') or
                                    I.op == 'call' and any(x.get('v') == k for x in I.a) for I in f.insts.values()):
            continue
        inn = {0: False}    # block -> pointee certainly null
        work = [0]
        ok = True
        while work:
            b = work.pop()
            s, seen = inn[b], {}
            B = f.blocks[b]
            ret = False
            for I in B.insts:
                if I.op == 'store' and I.a[1].get('v') == k:
                    s = bool(I.a[0].get('null'))
                    seen = {}
                elif I.op == 'load' and I.a[0].get('v') == k:
                    seen[I.id] = True
                elif I.op == 'call':
                    js = [j for j, x in enumerate(I.a) if x.get('v') == k]
                    if js:
                        cs = mod.callees(I)
                        s = bool(cs) and any(all(j in clears(mod, c) for c in cs) for j in js)
                    seen = {}
                elif I.op == 'ret':
                    ret = True
            if ret and not s:
                ok = False
                break
            t = B.term
            for n, nb in enumerate(B.succs()):
                v = s
                if t.op == 'br' and len(t.succ) == 2:
                    c = f.insts.get(t.a[0].get('v'))
                    if c is not None and c.op == 'icmp' and c.pred in ('eq', 'ne') and (c.a[0].get('null') or c.a[1].get('null')):
                        x = (c.a[1] if c.a[0].get('null') else c.a[0]).get('v')
                        if (nb == t.succ[0]) == (c.pred == 'eq') and t.succ[0] != t.succ[1]:
                            if x == k:
                                continue        # the parameter itself is null: not this case
                            if x in seen:
                                v = True
                old = inn.get(nb)
                new = v if old is None else old and v
                if new != old:
                    inn[nb] = new
                    work.append(nb)
        if ok:
            res.add(k)
    _cl[k0] = frozenset(res)
    return _cl[k0]


_ccl = {}


def call_clears(mod, I):
    k = (id(mod), I.fn.name, I.id)
    if k not in _ccl:
        cs = mod.callees(I)
        _ccl[k] = frozenset.intersection(*[clears(mod, c) for c in cs]) if cs else frozenset()
    return _ccl[k]


_rs = {}


def compute_retsets(mod):
    """function -> frozenset of int constants it may return, or None (unknown)."""
    if id(mod) in _rs:
        return _rs[id(mod)]
    src = {}
    for f in mod.defs.values():
        if f.ret not in ('i32', 'i8', 'i1'):
            src[f.name] = None
            continue
        consts, deps, bad = set(), set(), False
        st = [I.a[0] for B in f.blocks for I in B.insts if I.op == 'ret' and I.a]
        seen = set()
        while st and not bad:
            v = st.pop()
            if 'c' in v:
                consts.add(v['c'])
            elif 'v' in v:
                if v['v'] in seen:
                    continue
                seen.add(v['v'])
                i = f.insts.get(v['v'])
                if i is None:
                    bad = True
                elif i.op == 'phi':
                    st += [x[1] for x in i.inc]
                elif i.op == 'select':
                    st += i.a[1:]
                elif i.op == 'zext' and f.insts.get(i.a[0].get('v')) is not None and f.insts[i.a[0]['v']].ty == 'i1':
                    consts |= {0, 1}
                elif i.op == 'icmp':
                    consts |= {0, 1}
                elif i.op == 'call':
                    cs = mod.callees(i)
                    if any(c not in mod.defs for c in cs):
                        bad = True
                    deps |= set(cs)
                else:
                    bad = True
            else:
                bad = True
        src[f.name] = None if bad else (consts, deps)
    res = {n: (None if s is None else frozenset(s[0])) for n, s in src.items()}
    ch = True
    while ch:
        ch = False
        for n, s in src.items():
            if s is None or res[n] is None:
                continue
            cur = set(res[n])
            for d in s[1]:
                if res.get(d) is None:
                    cur = None
                    break
                cur |= res[d]
            cur = None if cur is None else frozenset(cur)
            if cur != res[n]:
                res[n] = cur
                ch = True
    _rs[id(mod)] = res
    return res


def call_retset(mod, rs, I):
    r = set()
    for c in mod.callees(I):
        x = rs.get(c)
        if x is None:
            return None
        r |= x
    return r


def trail(st):
    out, t = [], st.trail
    while t:
        out.append(t[1])
        t = t[0]
    out.reverse()
    return out
