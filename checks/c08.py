"""C08: quantities that grow with the square of the graph order are computed wide enough, capped or refused."""
import ir, sim

IMAX = (1 << 31) - 1
LMAX = (1 << 63) - 1
G = 'struct.baseGraphStructure'
ARITH = ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr')
CASTS = ('sext', 'zext', 'trunc', 'freeze')
ITER = ('struct.G6ReadIterator', 'struct.G6WriteIterator')


def const(v):
    return v.get('c') if isinstance(v.get('c'), int) else None


def bits(ty):
    return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else 64


def field(f, I):
    """The structure field an integer load reads."""
    return ir.lastfield(f.insts.get(I.a[0].get('v'))) if I.op == 'load' and 'v' in I.a[0] else None


def leaves(f, v, out, depth=0):
    """What a factor is built from: fields or SSA values, below casts and arithmetic with constants."""
    if 'v' not in v:
        return out
    d = f.insts.get(v['v'])
    if d is not None and depth < 12:
        if d.op in CASTS:
            return leaves(f, d.a[0], out, depth + 1)
        if d.op in ARITH:
            for o in d.a:
                leaves(f, o, out, depth + 1)
            return out
        lf = field(f, d)
        if lf:
            out.add(lf)
            return out
    out.add(v['v'])
    return out


class Quad:
    """Values that may be of the order of the square of the graph order."""

    def __init__(self, m):
        self.m = m
        self.val, self.ret, self.par, self.arr, self.prods, self.running = set(), set(), set(), set(), [], []
        for f in m.defs.values():
            for I in f.insts.values():
                if I.op == 'mul' and all('v' in o for o in I.a):
                    self.prods.append(I)
                    self.val.add((f.name, I.id))
                elif I.op == 'store':
                    self.accumulates(f, I)
        n = -1
        while n != len(self.val) + len(self.ret) + len(self.par):
            n = len(self.val) + len(self.ret) + len(self.par)
            for f in m.defs.values():
                self.fn(f)

    def elem(self, f, v):
        """(array, element width) when v is the address of an array element selected at run time."""
        d = f.insts.get(v.get('v'))
        if d is None or d.op != 'getelementptr' or not any(p['k'] == 'idx' and 'v' in p['v'] for p in d.path) or ir.lastfield(d):
            return None
        b = d.a[0].get('v')
        l = f.insts.get(b)
        return field(f, l) if l is not None and l.op == 'load' and field(f, l) else b

    def accumulates(self, f, I):
        """A[i] = A[j] + x with x not constant: a running total kept in an array."""
        a = self.elem(f, I.a[1])
        d = f.insts.get(I.a[0].get('v'))
        while d is not None and d.op in CASTS:
            d = f.insts.get(d.a[0].get('v'))
        if a is None or d is None or d.op != 'add' or not all('v' in o for o in d.a):
            return
        ls = [f.insts.get(o['v']) for o in d.a]
        for i, l in enumerate(ls):
            while l is not None and l.op in CASTS:
                l = ls[i] = f.insts.get(l.a[0].get('v'))
        for i, l in enumerate(ls):
            if l is not None and l.op == 'load' and l.ty != 'ptr' and self.elem(f, l.a[0]) == a and 'v' in d.a[1 - i]:
                self.running.append((I, d, a))
                self.arr.add((f.name, a))

    def fn(self, f):
        for I in f.insts.values():
            k = (f.name, I.id)
            if k in self.val:
                continue
            if I.op in ARITH or I.op in ('sext', 'zext', 'phi', 'select', 'freeze'):
                # a remainder or a masked value is small
                if I.op in ('srem', 'urem'):
                    continue
                if any(self.q(f, o) for o in f.operands(I)) and I.ty != 'i1' and bits(I.ty) == 64:
                    self.val.add(k)
            elif I.op == 'call':
                if bits(I.ty) == 64 and I.ty != 'ptr' and any(c in self.ret for c in self.m.callees(I)):
                    self.val.add(k)
                for c in self.m.callees(I):
                    g = self.m.defs.get(c)
                    for i, a in enumerate(I.a):
                        if g is not None and i < len(g.args) and g.args[i][1] == 'i64' and self.q(f, a):
                            self.par.add((c, i))
            elif I.op == 'load' and I.ty == 'i64':
                a = self.elem(f, I.a[0])
                if a is not None and any(x == a and (n == f.name or isinstance(a, tuple)) for n, x in self.arr):
                    self.val.add(k)
            elif I.op == 'ret' and I.a and self.q(f, I.a[0]) and f.insts.get(I.a[0].get('v')) is not None and bits(f.insts[I.a[0]['v']].ty) == 64:
                self.ret.add(f.name)

    def q(self, f, v):
        return 'v' in v and ((f.name, v['v']) in self.val or (f.name, v['v']) in self.par)


class Ival:
    """Flow-insensitive intervals under the limits the library enforces."""

    def __init__(self, m, fields, params):
        self.m, self.fields, self.params, self.memo = m, fields, params, {}
        self.slots = {g for ts in m.slot_targets().values() for g in ts}

    def full(self, ty):
        n = bits(ty)
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1)

    def of(self, f, v):
        if 'v' not in v:
            c = const(v)
            return (c, c) if c is not None else self.full('i64')
        k = (f.name, v['v'])
        if k in self.memo:
            return self.memo[k]
        d = f.insts.get(v['v'])
        ty = d.ty if d is not None else (f.args[v['v']][1] if v['v'] < len(f.args) else 'i64')
        self.memo[k] = self.full(ty)        # a value that depends on itself is not bounded
        r = self.memo[k] = self.raw(f, v['v'], d, ty)
        return r

    def raw(self, f, k, d, ty):
        if d is None:
            return self.param(f, k, ty)
        if d.op in CASTS:
            r = self.of(f, d.a[0])
            n = self.full(ty)
            return r if n[0] <= r[0] and r[1] <= n[1] else n
        if d.op in ('phi', 'select'):
            rs = [self.of(f, o) for o in f.operands(d) if not (d.op == 'select' and o is d.a[0])]
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        if d.op in ARITH:
            a, b = self.of(f, d.a[0]), self.of(f, d.a[1])
            r = self.op(d.op, a, b)
            if r is None:
                return self.full(ty)
            n = self.full(ty)
            return r if n[0] <= r[0] and r[1] <= n[1] else n
        if d.op == 'load':
            lf = field(f, d)
            if lf in self.fields:
                return self.fields[lf]
            e = self.fields.get(('elements', self.elem(f, d)))
            if e is not None:
                return e
        if d.op == 'call':
            r = self.fields.get(('result', d.cname()))
            if r is not None:
                return r
        return self.full(ty)

    def param(self, f, k, ty):
        r = self.params.get((f.name, k))
        if r is not None or not f.name.startswith('_') or f.name in self.slots:
            return r or self.full(ty)
        rs = [self.of(g, I.a[k]) for g in self.m.defs.values() for I in g.calls() if I.cname() == f.name and k < len(I.a)]
        return (min(r[0] for r in rs), max(r[1] for r in rs)) if rs else self.full(ty)

    def elem(self, f, d):
        g = f.insts.get(d.a[0].get('v'))
        if g is not None and g.op == 'getelementptr' and not ir.lastfield(g):
            l = f.insts.get(g.a[0].get('v'))
            return field(f, l) if l is not None else None

    @staticmethod
    def op(op, a, b):
        if op == 'add':
            return (a[0] + b[0], a[1] + b[1])
        if op == 'sub':
            return (a[0] - b[1], a[1] - b[0])
        if op == 'mul':
            p = [x * y for x in a for y in b]
            return (min(p), max(p))
        if op == 'shl' and b[0] == b[1] and 0 <= b[0] < 31:
            return (a[0] << b[0], a[1] << b[0])
        if op in ('sdiv', 'udiv') and b[0] == b[1] and b[0] > 0 and (op == 'sdiv' or a[0] >= 0):
            q = lambda x: int(x / b[0]) if abs(x) < 1 << 50 else (abs(x) // b[0]) * (1 if x >= 0 else -1)
            return (q(a[0]), q(a[1]))
        if op in ('srem', 'urem') and b[0] == b[1] and b[0] > 0:
            return (0 if a[0] >= 0 else -(b[0] - 1), b[0] - 1)
        return None


class C(sim.Client):
    """Range tests that hold where products and narrowings are."""
    wants_use = True

    def __init__(self, an, f):
        self.an, self.f, self.bad, self.ok = an, f, {}, set()
        self.wide = {I.id for I in an.q.prods if I.fn is f and I.ty == 'i64'}

    def clsyms(self, cl):
        return cl or ()

    def use(self, s, st, I):
        an, f = self.an, self.f
        if I.id in self.wide:
            st.cl = (st.cl or frozenset()) | {I.id}
        elif I.op == 'icmp' and any(an.q.q(f, o) for o in I.a):
            vs = [s.ev(st, o) for o in I.a]
            st.cl = (st.cl or frozenset()) | {v[1] for v in vs if v[0] == 's'}
        elif I.op == 'mul' and I.ty == 'i32' and all('v' in o for o in I.a):
            an.count.add((f.name, I.id))
            mine = set()
            for o in I.a:
                leaves(f, o, mine)
            for w in self.wide:
                ls = set()
                for o in f.insts[w].a:
                    leaves(f, o, ls)
                if ls & mine and st.rng(('s', w, 0))[1] <= IMAX:
                    return
            if an.iv.of(f, {'v': I.id}) != an.iv.full('i32') or an.fits(f, I):
                return
            self.bad.setdefault(I.id, (I, 'a product that grows with the square of the graph size is computed in 32 bits and may wrap around', sim.trail(st)))
        elif I.op == 'trunc' and bits(I.ty) == 32 and an.q.q(f, I.a[0]):
            an.count.add((f.name, I.id))
            v = s.ev(st, I.a[0])
            d = f.insts.get(I.a[0]['v'])
            if f.name == '_getExpectedNumPaddingZeroes' and d is not None and d.op == 'sub':
                return      # six times the length computed for the order, less the number of positions: 0 to 5
            if st.rng(v)[1] <= IMAX or an.iv.of(f, I.a[0])[1] <= IMAX:
                return
            if v[0] == 's':
                for (a, b), c in st.diff.items():
                    if a == v[1] and c + v[2] <= 0 and isinstance(b, int) and an.narrow(f, b):
                        return
            self.bad.setdefault(I.id, (I, 'a quantity that grows with the square of the graph size is put into 32 bits without a test that it fits', sim.trail(st)))


class Guard(sim.Client):
    """Largest value of an argument at the calls through a function table entry."""

    def __init__(self, slot, arg):
        self.slot, self.arg, self.hi = slot, arg, None

    def call(self, s, st, I, args):
        sl = s.mod.slot_of(I)
        if sl == self.slot:
            self.hi = max(self.hi if self.hi is not None else -1, st.rng(args[self.arg])[1])


class Limit(sim.Client):
    """Largest order accepted: the argument (result not negative) or the value delivered (result OK)."""

    def __init__(self, out):
        self.out, self.hi = out, -1

    def init(self, s, st):
        for i, a in enumerate(s.fn.args):
            if a[1] == 'ptr':
                st.facts[i] = (1, sim.INF, ())

    def ret(self, s, st, I, v):
        if self.out is None:
            if st.decide('slt', v, sim.C0) is True:
                return
            self.hi = max(self.hi, st.rng(('s', 0, 0))[1])
        else:
            if st.decide('eq', v, ('c', 1)) is False:
                return
            w = st.mem.get(('a', ('s', self.out, 0), ()))
            self.hi = max(self.hi, st.rng(w)[1] if w is not None else sim.INF)

    def clsyms(self, cl):
        return (0,)


class Order(sim.Client):
    """An iterator that keeps a graph order reports success only if the order was found within the format limit."""
    wants_use = True

    def __init__(self):
        self.bad = {}
        self.sites = 0

    def init(self, s, st):
        for i, a in enumerate(s.fn.args):
            if a[1] == 'ptr':
                st.facts[i] = (1, sim.INF, ())

    def clsyms(self, cl):
        return tuple(x for x in (cl or ()) if isinstance(x, int))

    def use(self, s, st, I):
        if I.op == 'store' and 'v' in I.a[1] and not const(I.a[0]) == 0:
            lf = ir.lastfield(s.fn.insts.get(I.a[1]['v']))
            if lf and lf[0] in ITER and lf[1] == 'graphOrder' and st.const(s.ev(st, I.a[0])) != 0:
                self.sites += 1
                st.cl = (st.cl or frozenset()) | {'kept'}

    def call(self, s, st, I, args):
        if I.cname() in ('_getNumCharsForGraphOrder', '_getGraphOrder'):
            st.cl = (st.cl or frozenset()) | {I.id}

    def ret(self, s, st, I, v):
        cl = st.cl or ()
        if 'kept' in cl and (v is None or st.decide('eq', v, ('c', 1)) is not False):
            for x in cl:
                if isinstance(x, int):
                    r = st.rng(('s', x, 0))
                    n = s.fn.insts[x].cname()
                    if r[0] >= 0 if n == '_getNumCharsForGraphOrder' else r[0] == r[1] == 1:
                        return
            self.bad.setdefault(I.id, (I, sim.trail(st)))


class An:
    def __init__(self, m):
        self.m, self.q, self.count = m, Quad(m), set()

    def narrow(self, f, k):
        if k < len(f.args):
            return f.args[k][1] == 'i32'
        d = f.insts.get(k)
        while d is not None and d.op == 'sext':
            d = f.insts.get(d.a[0].get('v'))
            if d is None:
                return True
        return d is not None and d.ty == 'i32'

    def fits(self, f, I):
        r = self.iv.op(I.op, self.iv.of(f, I.a[0]), self.iv.of(f, I.a[1]))
        return r is not None and r[1] <= IMAX and r[0] >= -IMAX - 1


def run(ctx):
    m = ctx.mod()
    sim.St.keepdiff = True
    an = An(m)
    q = an.q
    ms, rs = sim.compute_modsets(m), sim.compute_retsets(m)
    K = 128 if ctx.thorough else 32

    def go(f, c):
        sim.Sim(m, f, c, K=K, modsets=ms, retsets=rs).run()
        return c

    # limits the library enforces on orders and capacities
    un = go(m.fn('gp_InitGraph'), Guard('fpInitGraph', 1)).hi
    ua = go(m.fn('gp_EnsureArcCapacity'), Guard('fpEnsureArcCapacity', 1)).hi
    if un is None or ua is None:
        raise ir.AnalysisError('gp_InitGraph or gp_EnsureArcCapacity does not dispatch')
    ctx.count('largest_order', un if un < sim.INF else -1)
    un, ua = min(un, IMAX), min(ua, IMAX)
    params = {}
    for sl, hi in (('fpInitGraph', un), ('fpEnsureArcCapacity', ua)):
        for g in m.slot_targets()[sl]:
            params[(g, 1)] = (1, hi)
    lim = max(go(m.fn('_getNumCharsForGraphOrder'), Limit(None)).hi, go(m.fn('_getGraphOrder'), Limit(1)).hi)
    ctx.count('largest_order_of_format', lim if lim < sim.INF else -1)
    lim = min(lim, IMAX)
    fields = {(G, 'N'): (0, un), (G, 'NV'): (0, un), (G, 'arcCapacity'): (0, ua), (G, 'M'): (0, ua // 2)}
    for it in ITER:
        fields[(it, 'graphOrder')] = (0, lim)
        fields[(it, 'numCharsForGraphEncoding')] = (0, lim * (lim - 1) // 12 + 1)
    fields[('elements', ('struct.G6WriteIterator', 'columnOffsets'))] = (0, lim * (lim - 1) // 2)
    # orders handed to the encoding functions
    iv = an.iv = Ival(m, fields, params)
    enc = [f for f in m.defs.values() if (f.file or '').startswith('c/graphLib/io/g6-') and f.args]
    orders, callers = set(), {}
    work = [('_getMaxEdgeCount', 0), ('_getNumCharsForGraphEncoding', 0), ('_getExpectedNumPaddingZeroes', 0)]
    while work:
        t = work.pop()
        if t in orders:
            continue
        orders.add(t)
        for f in m.defs.values():
            for I in f.calls():
                if I.cname() == t[0]:
                    ctx.count('orders_handed_on')
                    v = I.a[t[1]]
                    d = f.insts.get(v.get('v'))
                    if 'v' in v and v['v'] < len(f.args):
                        work.append((f.name, v['v']))
                    elif d is not None and d.op == 'load' and (field(f, d) or ('', ''))[0] in ITER and field(f, d)[1] == 'graphOrder':
                        pass
                    elif d is not None and d.op == 'load' and delivered(f, d):
                        pass
                    elif iv.of(f, v)[1] > lim:
                        ctx.violation('%s:order' % f.name, '%s: the order handed to %s was not tested against the limit of the format' % (f.name, t[0]), I.where())
    for t in orders:
        params[t] = (0, lim)
    iv.memo.clear()
    fields[('result', '_getMaxEdgeCount')] = (0, lim * (lim - 1) // 2)
    for f in m.defs.values():
        for I in f.insts.values():
            if I.op == 'store' and 'v' in I.a[1] and (ir.lastfield(f.insts.get(I.a[1]['v'])) or ('', ''))[1] == 'numCharsForGraphEncoding' and const(I.a[0]) is None:
                d = f.insts.get(I.a[0]['v'])
                ctx.count('encoding_lengths_kept')
                if d is None or d.cname() != '_getNumCharsForGraphEncoding':
                    ctx.violation('%s:length' % f.name, '%s: the length of the encoding kept is not the one computed for the order' % f.name, I.where())
    kept = 0
    for f in enc:
        if any(I.op == 'store' and 'v' in I.a[1] and (ir.lastfield(f.insts.get(I.a[1]['v'])) or ('', ''))[1] == 'graphOrder' and
               (ir.lastfield(f.insts.get(I.a[1]['v'])) or ('', ''))[0] in ITER and const(I.a[0]) != 0 for I in f.insts.values()):
            c = go(f, Order())
            kept += c.sites > 0
            for I, tr in c.bad.values():
                ctx.violation('%s:order' % f.name, '%s: success may be reported though the graph order kept was not tested against the limit of the format' % f.name, I.where(), tr)
    ctx.count('iterators_keeping_orders', kept)

    # products and narrowings
    fs = {I.fn for I in q.prods} | {m.defs[n] for n, _ in q.val if n in m.defs}
    for f in sorted(fs, key=lambda f: f.name):
        c = go(f, C(an, f))
        for I, what, tr in c.bad.values():
            ctx.violation('%s:%s' % (f.name, what), '%s: %s' % (f.name, what), I.where(), tr)
    for I in q.prods:
        if bits(I.ty) == 64:
            r = iv.op('mul', iv.of(I.fn, I.a[0]), iv.of(I.fn, I.a[1]))
            ctx.count('wide_products')
            if r[1] > LMAX or r[0] < -LMAX:
                ctx.violation('%s:wide' % I.fn.name, '%s: a product of quantities not known to be 32 bits wide may wrap around' % I.fn.name, I.where())
    for I, d, a in q.running:
        ctx.count('running_totals')
        if bits(d.ty) < 64:
            ctx.violation('%s:total' % I.fn.name, '%s: a running total kept in an array is computed in %d bits' % (I.fn.name, bits(d.ty)), I.where())
    ctx.count('products_and_narrowings', len(an.count))

    # sizes proportional to orders and capacities
    for f in m.defs.values():
        for I in f.insts.values():
            if I.op in ('mul', 'add', 'sub', 'shl') and I.ty == 'i32':
                rs_ = [iv.of(f, o) for o in I.a]
                if all(r != iv.full('i32') for r in rs_) and any(known(f, o, iv) for o in I.a):
                    r = iv.op(I.op, *rs_)
                    if r is None:
                        continue
                    ctx.count('linear_sizes')
                    if r[1] > IMAX and not an.q.q(f, {'v': I.id}):
                        ctx.violation('%s:size' % f.name, '%s: a size computed from the graph order or arc capacity exceeds 32 bits for the largest one accepted (%d)' % (f.name, r[1]), I.where())
    ctx.rule = ('products of two quantities are 64 bits wide or made only where a range test of the 64-bit product of the same quantities passed; 64-bit quantities of that order are narrowed '
                'only when tested, capped or bounded by the format limit; running totals in arrays are 64 bits wide; sizes linear in order or capacity fit for the largest accepted')
    ctx.assumptions.append('positions kept in a drawing are within the drawing (C06)')
    ctx.need('products_and_narrowings', 12)
    ctx.need('wide_products', 4)
    ctx.need('linear_sizes', 20)
    ctx.need('orders_handed_on', 5)
    ctx.need('iterators_keeping_orders', 2)


def delivered(f, d):
    """The load reads a local that only _getGraphOrder and constants set."""
    a = d.a[0].get('v')
    if f.insts.get(a) is None or f.insts[a].op != 'alloca':
        return False
    got = False
    for I in f.insts.values():
        if I.op == 'call' and any(o.get('v') == a for o in I.a):
            if I.cname() != '_getGraphOrder' and not (I.cname() or '').startswith('llvm.'):
                return False
            got = got or I.cname() == '_getGraphOrder'
        elif I.op == 'store' and I.a[1].get('v') == a and const(I.a[0]) is None:
            return False
    return got


def known(f, v, iv):
    """The value is an order or capacity, or computed from one."""
    return 'v' in v and any(x in iv.fields or (isinstance(x, int) and (f.name, x) in iv.params) for x in leaves(f, v, set()))
