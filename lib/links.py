"""Relational summaries of acyclic code segments: what every path leaves in the records it writes.

Values are linear forms over atoms (arguments, loads from the state the segment starts in, results of calls);
a location is a path of fields and indexes from an argument or a loaded pointer.  Nothing is bounded and no
path is solved for: paths are only told apart by which of their own tests came out true."""
import ir

MAXPATHS = 6000


def const(n):
    return (n, ())


def atom(a):
    return (0, ((a, 1),))


def lin(x, y, k=1):
    t = dict(x[1])
    for a, c in y[1]:
        t[a] = t.get(a, 0) + k * c
    return (x[0] + k * y[0], tuple(sorted(((a, c) for a, c in t.items() if c), key=repr)))


def scale(x, k):
    return (x[0] * k, tuple((a, c * k) for a, c in x[1])) if k else const(0)


def only(x):
    """The atom a value consists of, or None."""
    return x[1][0][0] if x[0] == 0 and len(x[1]) == 1 and x[1][0][1] == 1 else None


def twin(x):
    if not x[1]:
        return const(x[0] ^ 1)
    a = only(x)
    if a and a[0] == 'twin':
        return a[1]
    return atom(('twin', x))


def even(x):
    a = only(x)
    if a and a[0] == 'even':
        return x
    if a and a[0] == 'twin':
        x = min(x, a[1], key=repr)
    if not x[1]:
        return const(x[0] & ~1)
    return atom(('even', min(x, twin(x), key=repr)))


def lastname(L):
    for e in reversed(L[1]):
        if e[0] == 'f':
            return e[1]
    return field_of(L[0])


class State:
    def __init__(self):
        self.env, self.heap, self.nil, self.same, self.facts = {}, {}, {}, {}, {}
        self.gen, self.gens, self.events, self.order, self.owned = 0, {}, [], [], {}

    def copy(self):
        s = State()
        s.env, s.heap, s.nil, s.same, s.facts = dict(self.env), dict(self.heap), dict(self.nil), dict(self.same), dict(self.facts)
        s.gen, s.gens, s.events, s.order = self.gen, dict(self.gens), list(self.events), list(self.order)
        s.owned = self.owned
        return s

    def g(self, L):
        """Which state the unwritten content of a location stems from."""
        n = lastname(L)
        return self.gen * 1000 + self.gens.get(n, 0)

    def other(self, a):
        """An end of a list whose other end is known to be missing."""
        o = decode(a[1])
        return o is not None and o[0][0] == 'V' and self.nil.get(('ld', place(o[0], o[1], twin(o[2])), a[2]))

    def res(self, x):
        """The value, after what the path's tests said about it."""
        for _ in range(8):
            y = const(x[0])
            for a, c in x[1]:
                y = lin(y, self.same.get(a, const(0) if self.nil.get(a) or a[0] == 'ld' and self.nil and self.other(a) else atom(a)), c)
            if y == x:
                break
            x = y
        return x


class Seg:
    """Enumerates the acyclic paths of a function from one starting block."""

    def __init__(self, m, inline=(), changes=None, axioms=None, through=False):
        self.through = through
        self.m, self.inline, self.changes, self.axioms = m, set(inline), changes or (lambda I: False), axioms
        self.watch = None
        self.bumps = None                         # names of fields a call may change
        self.n = 0
        self.heads = {}

    # ---- values
    def val(self, f, s, v, key=()):
        if v.get('null'):
            return const(0)
        if 'c' in v:
            return const(v['c'])
        if 'v' in v:
            r = s.env.get((key, v['v']))
            if r is None:
                r = atom(('in', f.name, v['v']) if not f.isarg(v['v']) else ('arg', v['v'])) if not key else atom(('in', key, v['v']))
                s.env[(key, v['v'])] = r
            return s.res(r) if r and r[0] != 'ptr' else r
        if v.get('ce') == 'gep':
            b = self.val(f, s, v['base'], key)
            return self.gep(f, s, b, v.get('path') or (), key)
        return atom(('sym', repr(sorted(v.items(), key=repr))))

    def asptr(self, b):
        return b if b[0] == 'ptr' else ('ptr', b, ())

    def gep(self, f, s, b, path, key):
        b = self.asptr(b)
        p = list(b[2])
        for e in path:
            if e['k'] == 'fld':
                p.append(('f', e['f']))
            else:
                i = self.val(f, s, e['v'], key)
                if i[0] == 'ptr':
                    i = atom(('sym', repr(i)))
                if p and p[-1][0] == 'i' and e.get('ty') == p[-1][2]:
                    p[-1] = ('i', lin(p[-1][1], i), e.get('ty'))
                else:
                    p.append(('i', i, e.get('ty')))
        return ('ptr', b[1], tuple(p))

    def loc(self, s, p):
        """Canonical location of a pointer."""
        p = self.asptr(p)
        out = []
        for e in p[2]:
            out.append(('f', e[1]) if e[0] == 'f' else ('i', s.res(e[1])))
        # element 0 of the array a pointer points to is what it points to
        out = [e for j, e in enumerate(out) if not (e == ('i', const(0)) and (j == 0))]
        return (s.res(p[1]), tuple(out))

    def read(self, s, p, ptr=False):
        L = self.loc(s, p)
        for K, v in s.heap.items():
            if K == L or (s.res(K[0]), tuple(('i', s.res(e[1])) if e[0] == 'i' else e for e in K[1])) == L:
                return s.res(v) if v[0] != 'ptr' else v
        if self.axioms:
            v = self.axioms(s, L)
            if v is not None:
                return s.res(v)
        return s.res(atom(('ld', L, 0 if ptr else s.g(L))))

    def write(self, s, p, v, I):
        L = self.loc(s, p)
        for K in list(s.heap):
            if K != L and (s.res(K[0]), tuple(('i', s.res(e[1])) if e[0] == 'i' else e for e in K[1])) == L:
                del s.heap[K]
        s.heap[L] = v
        s.order.append((L, v, I))

    # ---- paths
    def run(self, f, start=0, state=None, init=None):
        """States at the end of every path: (state, how, block or returned value)."""
        self.out = []
        self.n = 0
        s = state or State()
        if init:
            for a, v in init.items():
                s.env[((), a)] = v
        self.walk(f, start, None, s, (), frozenset(), lambda s, how, x: self.out.append((s, how, x)), entry=True)
        return self.out

    def loopheads(self, f):
        if f.name not in self.heads:
            h, st, state = set(), [(0, iter(f.blocks[0].succs()))], {0: 1}
            while st:
                b, it = st[-1]
                for x in it:
                    if state.get(x) is None:
                        state[x] = 1
                        st.append((x, iter(f.blocks[x].succs())))
                        break
                    if state[x] == 1:
                        h.add(x)
                else:
                    state[b] = 2
                    st.pop()
            self.heads[f.name] = h
        return self.heads[f.name]

    def loopwrites(self, f, h):
        """Names of the fields a loop may write."""
        body, st = {h}, [p for p in f.blocks[h].preds]
        dom = self.reachable_from(f, h)
        st = [p for p in st if p in dom]
        while st:
            b = st.pop()
            if b not in body:
                body.add(b)
                st += [p for p in f.blocks[b].preds if p in dom]
        r = set()
        for b in body:
            for I in f.blocks[b].insts:
                if I.op == 'store':
                    g = I.a[1]
                    x = f.insts.get(g['v']) if 'v' in g and not f.isarg(g['v']) else None
                    n = None
                    while x is not None and n is None:
                        l = ir.lastfield(x) if x.op == 'getelementptr' else None
                        if l:
                            n = l[1]
                        elif x.op in ('getelementptr', 'load') and 'v' in x.a[0] and not f.isarg(x.a[0]['v']):
                            x = f.insts.get(x.a[0]['v'])
                        else:
                            break
                    r.add(n)
                elif I.op == 'call' and self.changes(I):
                    r.add('link')
        return r

    def reachable_from(self, f, h):
        seen, st = set(), [h]
        while st:
            b = st.pop()
            if b not in seen:
                seen.add(b)
                st += f.blocks[b].succs()
        return seen

    def walk(self, f, b, frm, s, key, seen, k, entry=False):
        if self.n > MAXPATHS:
            raise ir.AnalysisError('too many paths in %s' % f.name)
        head = not entry and b in self.loopheads(f)
        if head and not self.through and not key:
            self.n += 1
            return k(s, 'loop', b)
        if b in seen:
            return
        if head:
            if self.through:
                for n in self.loopwrites(f, b):
                    s.gens[n] = s.gens.get(n, 0) + 1
                    for L in list(s.heap):
                        if lastname(L) == n:
                            del s.heap[L]
                frm = None
        seen = seen | {b}
        B = f.blocks[b]
        new = {}
        for I in B.insts:
            if I.op != 'phi':
                break
            v = None
            if frm is not None:
                for pb, x in I.inc:
                    if pb == frm:
                        v = self.val(f, s, x, key)
                        s.env.pop(('bool', key, I.id), None)
                        if I.ty == 'i1' and 'v' in x and not f.isarg(x['v']):
                            s.env[('bool', key, I.id)] = x        # a condition computed earlier
            new[(key, I.id)] = v if v is not None else atom(('phi', f.name, I.id))
        s.env.update(new)
        self.block(f, B, len(new), s, key, seen, k)

    def block(self, f, B, j, s, key, seen, k):
        while j < len(B.insts):
            I = B.insts[j]
            j += 1
            op = I.op
            if op == 'alloca':
                s.env[(key, I.id)] = ('ptr', atom(('local', key, I.id)), ())
            elif op == 'getelementptr':
                s.env[(key, I.id)] = self.gep(f, s, self.val(f, s, I.a[0], key), I.path or (), key)
            elif op == 'load':
                s.env[(key, I.id)] = self.read(s, self.val(f, s, I.a[0], key), I.ty == 'ptr')
            elif op == 'store':
                self.write(s, self.val(f, s, I.a[1], key), self.val(f, s, I.a[0], key), I)
            elif op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
                s.env[(key, I.id)] = self.val(f, s, I.a[0], key)
            elif op in ('add', 'sub', 'mul', 'shl', 'xor', 'and', 'or', 'sdiv', 'udiv', 'ashr', 'lshr', 'srem', 'urem'):
                s.env[(key, I.id)] = self.arith(op, self.val(f, s, I.a[0], key), self.val(f, s, I.a[1], key))
            elif op == 'select':
                c = self.test(f, s, I.a[0], key)
                for t in ((True, False) if c is None else (c,)):
                    s2 = s.copy()
                    if c is None and not self.assume(f, s2, I.a[0], t, key):
                        continue
                    s2.env[(key, I.id)] = self.val(f, s2, I.a[1] if t else I.a[2], key)
                    self.block(f, B, j, s2, key, seen, k)
                return
            elif op == 'icmp':
                pass
            elif op == 'call':
                n = I.cname()
                args = [self.val(f, s, x, key) for x in I.a]
                if n and (n.startswith('llvm.dbg') or n.startswith('llvm.lifetime')):
                    continue
                g = self.m.defs.get(n) if n else None
                if g is not None and n in self.inline:
                    s.events.append(('enter', n, tuple(args), I))
                    key2 = key + ((f.name, I.id),)
                    for q, a in enumerate(args):
                        s.env[(key2, q)] = a

                    def back(s2, how, x, I=I, j=j):
                        if how == 'ret':
                            if x is not None:
                                s2.env[(key, I.id)] = x
                            s2.events.append(('leave', n, tuple(args), I))
                            self.block(f, B, j, s2, key, seen, k)
                        else:
                            k(s2, how, x)
                    self.walk(g, 0, None, s, key2, frozenset(), back, entry=True)
                    return
                s.events.append(('call', n or self.m.slot_of(I), tuple(args), I, self.watch(s, args) if self.watch else None))
                for a in args:                    # what a call may deliver through a reference argument
                    if a[0] == 'ptr' and (o := only(a[1])) and o[0] == 'local':
                        for L in [L for L in s.heap if L[0] == a[1]]:
                            s.heap[L] = atom(('out', I.id, key, L))
                for q in (self.bumps(I) if self.bumps else ()):
                    s.gens[q] = s.gens.get(q, 0) + 1
                    for L in [L for L in s.heap if lastname(L) == q]:
                        del s.heap[L]
                if self.watch:
                    s.events.append(('after', n, self.watch(s, args), I))
                if self.changes(I) and self.through:
                    s.gens['link'] = s.gens.get('link', 0) + 1
                    for L in list(s.heap):
                        if lastname(L) == 'link':
                            del s.heap[L]
                elif self.changes(I):
                    s2 = s.copy()
                    k(s2, 'call', I)
                    s.heap = {}
                    s.order = []
                    s.gen += 1
                    s.facts = {}
                if I.ty != 'void':
                    s.env[(key, I.id)] = atom(('ret', n, I.id, key))
            elif op == 'br':
                if len(I.succ) == 1:
                    return self.walk(f, I.succ[0], B.id, s, key, seen, k)
                c = self.test(f, s, I.a[0], key)
                for t in ((True, False) if c is None else (c,)):
                    s2 = s.copy()
                    if c is None and not self.assume(f, s2, I.a[0], t, key):
                        continue
                    self.walk(f, I.succ[0 if t else 1], B.id, s2, key, seen, k)
                return
            elif op == 'switch':
                for x in B.succs():
                    self.walk(f, x, B.id, s.copy(), key, seen, k)
                return
            elif op == 'ret':
                if not key:
                    self.n += 1
                return k(s, 'ret', self.val(f, s, I.a[0], key) if I.a else None)
            elif op == 'unreachable':
                return
            elif I.ty != 'void':
                s.env[(key, I.id)] = atom(('op', op, f.name, I.id, key))

    def arith(self, op, a, b):
        if a[0] == 'ptr' or b[0] == 'ptr':
            return atom(('op', op, repr(a), repr(b)))
        if op == 'add':
            return lin(a, b)
        if op == 'sub':
            return lin(a, b, -1)
        if op == 'mul' and not b[1]:
            return scale(a, b[0])
        if op == 'mul' and not a[1]:
            return scale(b, a[0])
        if op == 'shl' and not b[1] and 0 <= b[0] < 31:
            return scale(a, 1 << b[0])
        if op == 'xor' and b == const(1):
            return twin(a)
        if op == 'xor' and a == const(1):
            return twin(b)
        if op == 'and' and b == const(-2):
            return even(a)
        if not a[1] and not b[1]:
            try:
                return const({'xor': lambda: a[0] ^ b[0], 'and': lambda: a[0] & b[0], 'or': lambda: a[0] | b[0],
                              'ashr': lambda: a[0] >> b[0], 'lshr': lambda: a[0] >> b[0], 'sdiv': lambda: int(a[0] / b[0])}[op]())
            except Exception:
                pass
        if op in ('ashr', 'lshr') and b == const(1) or op in ('udiv',) and b == const(2):
            op, b = 'sdiv', const(2)
        return atom(('op', op, a, b))

    # ---- tests
    def cond(self, f, v):
        return f.insts.get(v['v']) if 'v' in v and not f.isarg(v['v']) else None

    def test(self, f, s, v, key):
        if 'c' in v:
            return bool(v['c'])
        I = self.cond(f, v)
        if I is None:
            return None
        if I.op == 'xor' and I.ty == 'i1' and I.a[1].get('c') in (1, -1):
            t = self.test(f, s, I.a[0], key)
            return None if t is None else not t
        if I.op == 'phi' and ('bool', key, I.id) in s.env:
            return self.test(f, s, s.env[('bool', key, I.id)], key)
        if I.op == 'phi' or I.op != 'icmp':
            x = s.env.get((key, I.id))
            if x is not None and x[0] != 'ptr' and not x[1]:
                return bool(x[0])
            return s.facts.get(('val', key, I.id))
        a, b = self.val(f, s, I.a[0], key), self.val(f, s, I.a[1], key)
        if a[0] == 'ptr' or b[0] == 'ptr':
            if b == const(0) and I.pred in ('eq', 'ne'):
                return I.pred == 'ne'
            return s.facts.get((I.pred, a, b))
        d = lin(a, b, -1)
        p = I.pred
        if not d[1]:
            c = d[0]
            r = {'eq': c == 0, 'ne': c != 0, 'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}.get(p)
            if r is not None:
                return r
        if p in ('eq', 'ne'):
            for z in (d, scale(d, -1)):
                t = s.facts.get(('zero', z))
                if t is not None:
                    return t == (p == 'eq')
            x = only(d) or only(scale(d, -1))
            if x is not None and x in s.nil:
                return s.nil[x] == (p == 'eq')
            if x is not None and x[0] == 'ld' and (o := decode(x[1])) and o[0][0] == 'V':
                y = place(o[0], o[1], twin(o[2]))          # a list has both ends or neither
                t = s.nil.get(('ld', y, x[2]))
                if t is not None and self.axioms:
                    return t == (p == 'eq')
            return None
        n = self.norm(p, d)
        if n is None:
            return s.facts.get((p, a, b))
        t = s.facts.get(('neg', n))
        if t is not None:
            return t
        t = s.facts.get(('neg', lin(const(-1), n, -1)))      # not (n < 0)  is  -n - 1 < 0
        return None if t is None else not t

    def norm(self, p, d):
        """d p 0 as a form that is negative exactly when the test holds."""
        return {'slt': d, 'sle': lin(d, const(1), -1), 'sgt': scale(d, -1), 'sge': lin(scale(d, -1), const(1), -1)}.get(p)

    def assume(self, f, s, v, t, key):
        I = self.cond(f, v)
        if I is None:
            return True
        if I.op == 'xor' and I.ty == 'i1' and I.a[1].get('c') in (1, -1):
            return self.assume(f, s, I.a[0], not t, key)
        if I.op == 'phi' and ('bool', key, I.id) in s.env:
            return self.assume(f, s, s.env[('bool', key, I.id)], t, key)
        if I.op != 'icmp':
            s.facts[('val', key, I.id)] = t
            return True
        a, b = self.val(f, s, I.a[0], key), self.val(f, s, I.a[1], key)
        p = I.pred
        if a[0] == 'ptr' or b[0] == 'ptr':
            s.facts[(p, a, b)] = t
            return True
        d = lin(a, b, -1)
        if p in ('eq', 'ne'):
            eq = t == (p == 'eq')
            s.facts[('zero', d)] = eq
            x = only(d) or only(scale(d, -1))
            if x is not None:
                s.nil[x] = eq
            elif eq:
                x, y = only(a), only(b)
                if x is not None and not (y is not None and len(repr(y)) > len(repr(x))):
                    s.same[x] = b
                elif y is not None:
                    s.same[y] = a
            return True
        n = self.norm(p, d)
        if n is not None:
            s.facts[('neg', n)] = t
        else:
            s.facts[(p, a, b)] = t
        return True


# ---- linked records
def field_of(root):
    """Name of the structure field a root pointer was loaded from."""
    a = only(root)
    if a and a[0] == 'ld' and a[1][1] and a[1][1][-1][0] == 'f':
        return a[1][1][-1][1]
    return None


def decode(L):
    """(array, index, link) of the location of a link, or None.  Arrays: arcs, vertices, list nodes."""
    root, p = L
    n = field_of(root)
    if n in ('E', 'V') and len(p) == 3 and p[0][0] == 'i' and p[1] == ('f', 'link') and p[2][0] == 'i':
        return ((n, root), p[0][1], p[2][1])
    if n in ('E', 'V') and len(p) == 2 and p[0] == ('f', 'link') and p[1][0] == 'i':
        return ((n, root), const(0), p[1][1])
    if n == 'List' and len(p) == 2 and p[0][0] == 'i' and p[1] in (('f', 'next'), ('f', 'prev')):
        return (('L', root), p[0][1], const(0 if p[1][1] == 'next' else 1))
    return None


def place(arr, x, k):
    n, root = arr
    if n == 'L':
        return (root, (('i', x), ('f', 'next' if k == const(0) else 'prev')))
    return (root, (('i', x), ('f', 'link'), ('i', k)))


def link_of(v, s):
    """For a value that is the initial content of a link: (array, index, link)."""
    a = only(v)
    if a and a[0] == 'ld':
        d = decode(a[1])
        if d is not None and a[2] == s.g(a[1]):
            return d
    return None


def axioms(s, L):
    """The lists are intact in the state a segment starts in."""
    d = decode(L)
    if d is None:
        return None
    (n, root), x, k = d
    if n == 'V':                                   # a half without neighbour on one side is an end of the list of its vertex
        w = only(x)
        if w and w[0] == 'ld' and field_of(w[1][0]) == 'E' and len(w[1][1]) == 2 and w[1][1][1] == ('f', 'neighbor') and w[2] == s.g(w[1]):
            h = twin(w[1][1][0][1])
            H = place(('E', w[1][0]), h, twin(k))
            if s.nil.get(('ld', H, s.g(H))):
                return h
        O = place((n, root), x, twin(k))
        if s.nil.get(('ld', O, s.g(O))):
            return const(0)                        # an empty list has neither end
        for h in s.owned.get(x, ()):
            H = place(('E', atom(('ld', (only(root)[1][0], only(root)[1][1][:-1] + (('f', 'E'),)), 0))), h, twin(k))
            if s.nil.get(('ld', H, s.g(H))):
                return h
    if n in 'EL':
        a = ('ld', place((n, root), x, twin(k)), s.g(L))
        if n == 'L':
            a = ('ld', a[1], s.g(a[1]))
        if s.same.get(a) == x:
            return x                               # its own neighbour on both sides
    o = link_of(x, s)
    if o is None:
        return None
    (n2, root2), y, k2 = o
    if n == n2 and n in 'EL' and root == root2 and k2 == twin(k):
        return y                                   # the neighbour of the neighbour
    if n == 'E' and n2 == 'V' and k2 == twin(k):
        return const(0)                            # the first has none before it, the last none after it
    return None
