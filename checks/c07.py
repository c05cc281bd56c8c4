"""C07: text never overruns the buffer it is put into."""
import re
import ir, sim

FORMATTED = {'sprintf': 1, 'snprintf': 2}
SCAN = {'scanf': 0, '__isoc99_scanf': 0, 'fscanf': 1, '__isoc99_fscanf': 1, 'sscanf': 1, '__isoc99_sscanf': 1}
BOUNDED = {'fgets': 1, 'sf_fgets': 1, 'getcwd': 1}         # write at most that many characters, terminator included
RAW = {'strncpy': 2, 'memcpy': 2, 'memmove': 2, 'memset': 2}
WRITERS = set(FORMATTED) | set(SCAN) | set(BOUNDED) | set(RAW) | {'strcpy', 'strcat', 'strncat', 'stpcpy', 'gets', 'vsprintf', 'vsnprintf', 'fread'}
INLINE = ('ConstructInputFilename', 'ConstructPrimaryOutputFilename')
INLINE_RECORD = ('sb_New', 'sb_Duplicate', 'sb_Free', 'sb_ClearBuf')
CALLERS_BOUND = {'sf_fgets': (0, 1)}          # memory of the caller, with room for as many characters as another argument says
# blocks that keep their size in the record: structure, block, size field, what the block has beyond that, field with the length of the text
RECORDS = {('struct.strBuf', 'buf'): ('capacity', 1, 'size'), ('struct.G6ReadIterator', 'currGraphBuff'): ('currGraphBuffSize', 0, None),
           ('struct.G6WriteIterator', 'currGraphBuff'): ('currGraphBuffSize', 0, None)}
DIGITS = '_getNumCharsToReprInt'
INTW = {'': 11, 'l': 20, 'll': 20, 'h': 6, 'hh': 4, 'z': 20}


def add(a, b, k=1):
    """Sum of linear forms (constant, {atom: coefficient}); None is unbounded."""
    if a is None or b is None:
        return None
    t = dict(a[1])
    for x, c in b[1]:
        t[x] = t.get(x, 0) + k * c
    return (a[0] + k * b[0], tuple(sorted(((x, c) for x, c in t.items() if c), key=repr)))


def num(n):
    return (n, ())


class Texts:
    """How long a text argument can be, over the whole (closed) application."""

    def __init__(self, m):
        self.m = m
        self.callers = {}
        self.rets = {}
        for f in m.defs.values():
            for I in f.calls():
                if I.cname() in m.defs:
                    self.callers.setdefault(I.cname(), []).append((f, I))

    def lit(self, v):
        t = self.m.string(v)
        return None if t is None else len(t)

    def operand(self, f, v, seen=frozenset(), known=None):
        """Upper bound of the length of the text an operand points to, or None."""
        if v.get('null'):
            return 0
        n = self.lit(v)
        if n is not None:
            return n
        if 'g' in v:
            g = self.m.globals.get(v['g'])
            return g['size'] - 1 if g and re.match(r'\[\d+ x i8\]$', g['ty']) else None
        if v.get('ce') == 'gep':
            return self.operand(f, v['base'], seen, known)
        if 'v' not in v:
            return None
        k = (f.name, v['v'], known)
        if k in seen:
            return 0
        seen = seen | {k}
        if f.isarg(v['v']):
            return self.param(f, v['v'], seen, known)
        I = f.insts[v['v']]
        if I.op in ('phi', 'select'):
            ops = [x[1] for x in I.inc] if I.op == 'phi' else I.a[1:]
            r = 0
            for o in ops:
                n = self.operand(f, o, seen, known)
                if n is None:
                    return None
                r = max(r, n)
            return r
        if I.op == 'alloca' and re.match(r'\[\d+ x i8\]$', I.aty or ''):
            return I.size - 1
        if I.op == 'getelementptr':
            return self.operand(f, I.a[0], seen, known)
        if I.op == 'call':
            n = I.cname()
            if n in self.m.defs:
                return self.returned(n, seen)
            if n in ('strchr', 'strrchr', 'strstr'):
                return self.operand(f, I.a[0], seen, known)
        if I.op == 'load' and 'g' in I.a[0]:
            g = self.m.globals.get(I.a[0]['g']) or {}
            if 'init' in g and g.get('const'):
                return self.operand(f, g['init'], seen, known)
        return None

    def maybe(self, f, v, g, known=None, seen=frozenset()):
        """The operand may be the address of global g."""
        if v.get('null'):
            return False
        if 'g' in v:
            return v['g'] == g
        if v.get('ce') == 'gep':
            return self.maybe(f, v['base'], g, known, seen)
        if 'v' not in v:
            return True
        if (f.name, v['v']) in seen:
            return False
        seen = seen | {(f.name, v['v'])}
        if f.isarg(v['v']):
            j = v['v']
            if f.addrtaken or '/graphLib/' in (f.file or '') or f.name == 'main':
                return True
            return any(self.maybe(h, I.a[j], g, None, seen) for h, I in self.sites(f, known))
        I = f.insts[v['v']]
        if I.op == 'phi':
            return any(self.maybe(f, x[1], g, known, seen) for x in I.inc)
        if I.op == 'select':
            return any(self.maybe(f, x, g, known, seen) for x in I.a[1:])
        if I.op == 'getelementptr':
            return self.maybe(f, I.a[0], g, known, seen)
        return I.op != 'alloca'

    def sites(self, f, known):
        for g, I in self.callers.get(f.name, ()):
            if any(a < len(I.a) and (I.a[a].get('null') and not isnull or not I.a[a].get('null') and 'v' not in I.a[a] and isnull) for a, isnull in known or ()):
                continue
            yield g, I

    def returned(self, n, seen):
        f = self.m.defs[n]
        r = 0
        for I in f.insts.values():
            if I.op == 'ret' and I.a:
                k = self.operand(f, I.a[0], seen)
                if k is None or any('v' in I.a[0] and f.isarg(I.a[0]['v']) for _ in (1,)):
                    return None
                r = max(r, k)
        return r

    def param(self, f, j, seen, known=None):
        """Over all call sites whose other arguments fit what is known (parameter -> is it NULL)."""
        if f.addrtaken or '/graphLib/' in (f.file or '') or f.name == 'main':
            return None
        r = 0
        for g, I in self.sites(f, known):
            k = self.operand(g, I.a[j], seen)
            if k is None:
                return None
            r = max(r, k)
        return r


class Buf(sim.Client):
    """State: content bound per buffer: ((root, linear form or 'raw'), ...), capacity of allocated blocks: ((root, form), ...),
    least length of the text in a buffer."""
    wants_use = True

    def __init__(self, ctx, m, f, tx):
        self.ctx, self.m, self.f, self.tx = ctx, m, f, tx
        self.bad, self.done = {}, set()
        self.used = set()

    def init(self, s, st):
        st.cl = ((), (), (), (), ())
        if self.f.name in CALLERS_BOUND:
            p, n = CALLERS_BOUND[self.f.name]
            self.put(st, 1, ('s', p, 0), (0, ((('n', ('s', n, 0)), 1),)))

    # ---- state
    def get(self, st, k, r):
        return dict(st.cl[k]).get(r)

    def put(self, st, k, r, v):
        d = dict(st.cl[k])
        if v is None:
            d.pop(r, None)
        else:
            d[r] = v
        cl = list(st.cl)
        cl[k] = tuple(sorted(d.items(), key=repr))
        st.cl = tuple(cl)
        if k == 0:
            self.put(st, 2, r, None)
            # sizes that mention the length of the text that was here
            for j in (1, 3):
                if any(x[0] == 'len' and self.same(x[1], r) for q, lf in st.cl[j] for x, c in lf[1]):
                    cl = list(st.cl)
                    cl[j] = tuple((q, (lf[0], tuple((x, c) for x, c in lf[1] if not (x[0] == 'len' and self.same(x[1], r))))) for q, lf in cl[j]) if j == 1 else ()
                    st.cl = tuple(cl)

    def same(self, v, r):
        q = self.root(v)
        return q is None or q[0] == r

    def clsyms(self, cl):
        out = set()
        for part in cl:
            for r, lf in part:
                sim.syms_in(r, out) if r[0] == 's' else None
                if lf != 'raw':
                    for (k, v), c in lf[1]:
                        sim.syms_in(v, out)
        return out

    def clsubst(self, cl, k, new):
        res = []
        for part in cl:
            o = []
            for r, lf in part:
                if r[0] == 's':
                    r = sim.subst(r, k, new)
                if lf != 'raw':
                    at = [((kk, sim.subst(v, k, new)), c) for (kk, v), c in lf[1]]
                    lf = None if any(v == sim.TOP for (kk, v), c in at) else (lf[0], tuple(sorted(at, key=repr)))
                if r != sim.TOP and lf is not None:
                    o.append((r, lf))
            res.append(tuple(sorted(o, key=repr)))
        return tuple(res)

    # ---- buffers
    def root(self, v):
        """(root, constant offset or None, index value) of an address."""
        if v == sim.TOP:
            return None
        if v[0] == 's':
            return (('s', v[1], 0), v[2], None) if v[2] == 0 else (('s', v[1], 0), None, None)
        if v[0] != 'a':
            return None
        b, ps = v[1], v[2]
        if b[0] == 's':
            b = ('s', b[1], 0) if b[2] == 0 else None
        if b is None or b[0] not in ('al', 'g', 's') or any(p[0] != 'i' for p in ps):
            return None
        if b[0] in ('al', 'g'):
            ps = ps[1:] if len(ps) > 1 and ps[0][1] == ('c', 0) else ps
        idx = ps[-1][1] if ps else ('c', 0)
        if len(ps) > 1:
            return (b, None, None)
        return (b, idx[1] if idx[0] == 'c' else None, idx)

    def fixed(self, r):
        """Capacity of a fixed-size buffer."""
        if r[0] == 'al':
            I = self.f.insts[r[1]]
            if re.match(r'\[\d+ x i8\]$', I.aty or ''):
                return I.size
        if r[0] == 'g':
            g = self.m.globals.get(r[1])
            if g and not g['const'] and re.match(r'\[\d+ x i8\]$', g['ty']):
                return g['size']
        return None

    def capacity(self, st, r):
        n = self.fixed(r)
        return num(n) if n is not None else self.get(st, 1, r)

    def content(self, st, r):
        c = self.get(st, 0, r)
        if c is not None:
            return c
        n = self.fixed(r)
        if n is not None:
            return 'raw' if r[0] == 'al' and r not in self.used else num(n - 1)
        return None

    # ---- forms
    def form(self, st, v, op=None, depth=0):
        """Linear form of a number: an operand followed back through sums to text lengths."""
        if depth > 40:
            return None
        if op is not None and 'v' in op and not self.f.isarg(op['v']):
            c = st.const(v)
            if c is not None:
                return num(c)
            I = self.f.insts[op['v']]
            if v[0] == 's' and v[1] != I.id and isinstance(v[1], int) and not self.f.isarg(v[1]) and v[1] in self.f.insts:
                b = self.form(st, ('s', v[1], 0), {'v': v[1]}, depth + 1)
                return add(b, num(v[2]))
            b = self.instform(st, I, depth)
            return add(b, num(v[2])) if v[0] == 's' and v[1] == I.id and v[2] else b
        c = st.const(v)
        if c is not None:
            return num(c)
        if v == sim.TOP:
            return None
        if v[0] == 's':
            return (v[2], ((('n', ('s', v[1], 0)), 1),))
        return None

    def instform(self, st, I, depth):
        s = self.s
        k = self.get(st, 4, ('s', I.id, 0))
        if k is not None:
            return k
        if I.op == 'add':
            return add(self.form(st, s.ev(st, I.a[0]), I.a[0], depth + 1), self.form(st, s.ev(st, I.a[1]), I.a[1], depth + 1))
        if I.op == 'sub':
            return add(self.form(st, s.ev(st, I.a[0]), I.a[0], depth + 1), self.form(st, s.ev(st, I.a[1]), I.a[1], depth + 1), -1)
        if I.op in ('zext', 'sext', 'trunc'):
            return self.form(st, s.ev(st, I.a[0]), I.a[0], depth + 1)
        if I.op in ('mul', 'shl'):
            a, b = [self.form(st, s.ev(st, x), x, depth + 1) for x in I.a]
            if a is None or b is None:
                return None
            if I.op == 'shl':
                return (a[0] << b[0], tuple((x, c << b[0]) for x, c in a[1])) if not b[1] else None
            if b[1]:
                a, b = b, a
            if not b[1]:
                return (a[0] * b[0], tuple((x, c * b[0]) for x, c in a[1]))
            return None
        if I.op == 'call' and I.cname() == 'strlen':
            return self.textlen(st, s.ev(st, I.a[0]), I.a[0])
        if I.op == 'call' and I.cname() in ('strcspn', 'strspn') and not self.exact:
            return self.textlen(st, s.ev(st, I.a[0]), I.a[0])
        if I.op == 'call' and I.cname() == 'fread' and not self.exact and st.const(s.ev(st, I.a[1])) == 1:
            return self.form(st, s.ev(st, I.a[2]), I.a[2], depth + 1)
        if I.op == 'call' and I.cname() == DIGITS:
            return (0, ((('dig', s.ev(st, I.a[0])), 1),))
        v = st.env.get(I.id, ('s', I.id, 0))
        if v == sim.TOP:
            return None
        c = st.const(v)
        if c is not None:
            return num(c)
        if v[0] == 's':
            return (v[2], ((('n', ('s', v[1], 0)), 1),))
        return None

    exact = False

    def textlen(self, st, v, op):
        """Upper bound of the length of a text."""
        if st.const(v) == 0:
            return num(0)
        if v != sim.TOP and v[0] == 'a' and v[1][0] == 'g':
            t = self.m.string({'g': v[1][1]})
            if t is not None:
                return num(len(t))
        if v != sim.TOP and v[0] in ('s', 'a') and (self.exact or any(x == ('len', v) for r, lf in st.cl[1] + st.cl[3] for x, c in lf[1])):
            return (0, ((('len', v), 1),))
        r = self.root(v)
        if r is not None:
            c = self.content(st, r[0])
            if c is not None and (c == 'raw' or r[1] is not None):
                return c
        if v != sim.TOP:
            p = st.mem.get(('a', ('pure', 'strlen'), (('i', v),)))
            if p is not None and st.rng(p)[1] < sim.INF:
                return num(max(0, st.rng(p)[1]))
        n = self.srclen(st, v, op)
        if n is not None:
            return num(n)
        if v == sim.TOP or v[0] not in ('s', 'a'):
            return None
        return (0, ((('len', v), 1),))

    def known(self, st):
        r = []
        for j in range(len(self.f.args)):
            c = self.s.ev(st, {'v': j})
            lo, hi, ne = st.rng(('s', j, 0)) if c == ('s', j, 0) else (0, sim.INF, ())
            if lo == hi == 0:
                r.append((j, True))
            elif lo > 0 or 0 in ne:
                r.append((j, False))
        return tuple(r)

    def srclen(self, st, v, op):
        k = None
        if v != sim.TOP and v[0] == 's' and isinstance(v[1], int):
            k = {'v': v[1]}
        elif op is not None:
            k = op
        return self.tx.operand(self.f, k, frozenset(), self.known(st)) if k is not None else None

    def le(self, st, need, cap):
        """need <= cap, where the atoms of cap count for themselves and further atoms of need by their bounds."""
        if need is None or cap is None:
            return False
        d = add(cap, need, -1)
        return self.nonneg(st, d) or any(self.nonneg(st, add(d, f)) for k, f in st.cl[3])

    def nonneg(self, st, d):
        t = d[0]
        for (k, v), c in d[1]:
            if k == 'dig':
                t += c * (1 if c > 0 else 11)
            elif k == 'len':
                if c < 0:
                    return False
            else:
                lo, hi, _ = st.rng(v)
                if c > 0:
                    if lo <= -sim.INF and self.count_field(v):
                        lo = 0
                    if lo <= -sim.INF:
                        return False
                    t += c * lo
                else:
                    if hi >= sim.INF:
                        return False
                    t += c * hi
        return t >= 0

    def count_field(self, v):
        """The order or size of a graph."""
        k = v[1] if v[0] == 's' else None
        g = self.f.insts.get(k) if isinstance(k, int) else None
        while g is not None and g.op in ('sext', 'zext') and 'v' in g.a[0]:
            g = self.f.insts.get(g.a[0]['v'])
        if g is None or g.op != 'load' or 'v' not in g.a[0]:
            return False
        a = self.f.insts.get(g.a[0]['v'])
        fl = ir.lastfield(a) if a is not None and a.op == 'getelementptr' else None
        return bool(fl) and 'baseGraphStructure' in str(fl[0]) and str(fl[1]) in ('N', 'M')

    def edge(self, s, st):
        if self.recs:
            self.s = s
            self.fact(st, s.curedge[0].term, s.curedge[1])

    def fact(self, st, t, b):
        if t.op != 'br' or len(t.succ) != 2 or t.succ[0] == t.succ[1] or 'v' not in t.a[0] or self.f.isarg(t.a[0]['v']):
            return
        c = self.f.insts[t.a[0]['v']]
        d = self.get(st, 4, ('s', ('cmp', c.id), 0))
        if c.op != 'icmp' or d is None:
            return
        pred = c.pred if b == t.succ[0] else sim.NEG[c.pred]
        if pred[1:] not in ('gt', 'ge', 'lt', 'le'):
            return
        d = d if pred[1] == 'l' else (-d[0], tuple((x, -k) for x, k in d[1]))
        if pred[2] == 't':
            d = add(d, num(1))
        if len(d[1]) > 1:
            st.cl = st.cl[:3] + (tuple(sorted(set(st.cl[3]) | {(('fact',), d)}, key=repr)),) + st.cl[4:]

    # ---- blocks with a recorded size
    def field(self, addr):
        if addr != sim.TOP and addr[0] == 'a' and addr[2] and addr[2][-1][0] == 'f':
            return addr[2][-1][1:3]
        return None

    def sibling(self, addr, f):
        return ('a', addr[1], addr[2][:-1] + (('f', addr[2][-1][1], f),))

    def open(self, st, addr, v, tag):
        """The recorded size and text length of a block found in a record."""
        S, slack, L = RECORDS[self.field(addr)]
        a = self.sibling(addr, S)
        if a not in st.mem:
            k = ('S', tag)
            self.s.retire(st, k)
            st.mem[a] = ('s', k, 0)
            st.facts[k] = (0, sim.INF, ())
        z = self.form(st, st.mem[a])
        if z is not None:
            self.put(st, 1, v, add(z, num(slack)))
        if L:
            b = self.sibling(addr, L)
            if b not in st.mem:
                k = ('L', tag)
                self.s.retire(st, k)
                st.mem[b] = ('s', k, 0)
                st.facts[k] = (0, sim.INF, ())
            l = self.form(st, st.mem[b])
            if l is not None and z is not None:
                f = add(l, z, -1)
                if f[1]:
                    st.cl = st.cl[:3] + (tuple(sorted(set(st.cl[3]) | {(('fact',), f)}, key=repr)),) + st.cl[4:]
            if l is not None:
                self.put(st, 0, v, l)

    def ret(self, s, st, I, val):
        self.s = s
        for addr, v in list(st.mem.items()):
            fl = self.field(addr)
            if fl not in RECORDS:
                continue
            S, slack, L = RECORDS[fl]
            r = self.root(v)
            if r is None or r[0][0] != 's' or st.const(v) == 0:
                continue
            cap = self.capacity(st, r[0])
            sz = st.mem.get(self.sibling(addr, S))
            z = self.form(st, sz, self.opof(sz)) if sz is not None else None
            if cap is None or z is None:
                continue
            self.seen(I, 'records_examined')
            if not self.le(st, add(z, num(slack)), cap):
                self.report('record', I, 'the %s recorded for a block can be more than the block has' % S, st)
            if L:
                l = st.mem.get(self.sibling(addr, L))
                lf = self.form(st, l, self.opof(l)) if l is not None else None
                c = self.content(st, r[0])
                if lf is not None and not self.le(st, lf, z):
                    self.report('record', I, 'the recorded %s can be more than the recorded %s' % (L, S), st)
                if lf is not None and c is not None and (c == 'raw' or not self.le(st, c, lf)):
                    self.report('record', I, 'the text in a block can be longer than the recorded %s' % L, st)

    def opof(self, v):
        return {'v': v[1]} if v is not None and v[0] == 's' and isinstance(v[1], int) else None

    def show(self, lf):
        if lf is None:
            return 'an unlimited number of'
        s = ['%d' % lf[0]] if lf[0] or not lf[1] else []
        for (k, v), c in lf[1]:
            s.append({'len': 'length of a text', 'dig': 'digits of a number', 'n': 'a number'}[k] if c == 1 else '%d x %s' % (c, k))
        return ' + '.join(s)

    # ---- format strings
    def formatted(self, st, I, args, k):
        fmts = self.m.string(I.a[k]) if k < len(I.a) else None
        v = args[k]
        if fmts is None and v != sim.TOP and v[0] == 'a' and v[1][0] == 'g' and not v[2]:
            fmts = self.m.string({'g': v[1][1]})
        self.least = 0
        if fmts is None:
            op = I.a[k]
            if 'v' in op and self.f.isarg(op['v']) and not self.tx.callers.get(self.f.name) and not self.f.addrtaken:
                return None             # nothing in this build calls the function
            return 'the format is not known here'
        tot = num(0)
        j = k + 1
        pos = 0
        for mt in re.finditer(r'%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z)?([a-zA-Z%])', fmts):
            tot = add(tot, num(mt.start() - pos))
            pos = mt.end()
            fl, w, p, ln, cv = mt.groups()
            if cv == '%':
                tot = add(tot, num(1))
                continue
            width = prec = None
            if w == '*':
                width = st.const(args[j]) if j < len(args) else None
                j += 1
                if width is None:
                    return 'a field width is not known here'
            elif w:
                width = int(w)
            if p == '*':
                prec = st.rng(args[j])[1] if j < len(args) else sim.INF
                plo = st.rng(args[j])[0] if j < len(args) else -1
                j += 1
                if prec >= sim.INF or plo < 0:
                    prec = None
            elif p is not None:
                prec = int(p or 0)
            if j >= len(args):
                return 'an argument of the format is missing'
            a, op = args[j], I.a[j]
            j += 1
            if cv in 'dicuxXof':
                self.least += 1
            if cv in 'di':
                lo, hi, _ = st.rng(a)
                n = num(INTW[ln or ''])
                if -10 ** 9 < lo and hi < 10 ** 9:
                    n = num(max(len(str(lo)), len(str(hi))))
                elif a != sim.TOP and any(x == ('dig', a) for r, lf in st.cl[1] for x, c in lf[1]):
                    n = (0, ((('dig', a), 1),))
            elif cv in 'uxXo':
                n = num(12 if not ln else 24)
            elif cv == 'c':
                n = num(1)
            elif cv in 'fF':
                n = num(20 + (6 if prec is None else prec)) if self.duration(op) else num(311 + (6 if prec is None else prec))
            elif cv in 'eEgG':
                n = num(18 + (6 if prec is None else prec))
            elif cv == 's':
                n = self.textlen(st, a, op)
                if n == 'raw':
                    return 'an unterminated text is put in'
                if prec is not None and (n is None or n[1] or n[0] > prec):
                    n = num(prec)
            else:
                return 'the conversion %%%s is not bounded' % cv
            if width and n is not None and (n[1] or n[0] < width):
                n = add(n, num(width)) if n[1] else num(width)
            if n is None:
                return 'the length of a text put in is not bounded'
            tot = add(tot, n)
        return add(tot, num(len(fmts) - pos))

    def use(self, s, st, I):
        """A parameter that never comes from a buffer differs from the buffer's address; sums compared on the way are remembered."""
        if self.recs and I.op == 'icmp' and not any(x.get('null') for x in I.a):
            self.s = s
            x, y = [self.form(st, s.ev(st, a), a) for a in I.a]
            self.put(st, 4, ('s', ('cmp', I.id), 0), add(x, y, -1))
        if self.recs and I.op in ('add', 'sub', 'mul', 'shl', 'zext', 'sext', 'trunc') and I.ty not in ('i1', 'i8'):
            self.s = s
            s.retire(st, I.id) if I.blk.id in s.inloop else None
            self.put(st, 4, ('s', I.id, 0), None)
            self.exact = True
            lf = self.instform(st, I, 0)
            self.exact = False
            if lf is not None and lf[1] and lf[1] != ((('n', ('s', I.id, 0)), 1),):
                self.put(st, 4, ('s', I.id, 0), lf)
        if I.op != 'br' or len(I.succ) != 2 or 'v' not in I.a[0]:
            return
        c = st.env.get(I.a[0]['v'])
        if not c or c[0] != 'cmp' or c[1] not in ('eq', 'ne'):
            return
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if a[0] == 's' and isinstance(a[1], int) and b[0] == 'a' and b[1][0] == 'g' and self.fixed(b[1]) is not None:
                self.s = s
                if not self.tx.maybe(self.f, {'v': a[1]}, b[1][1], self.known(st)):
                    st.env[I.a[0]['v']] = ('c', int(c[1] == 'ne'))

    def duration(self, op, d=0):
        """The value is a time measured by this program."""
        if 'v' not in op or d > 6 or self.f.isarg(op['v']):
            return False
        g = self.f.insts[op['v']]
        if g.op == 'load':
            fl = None
            a = g.a[0]
            if 'v' in a and not self.f.isarg(a['v']) and self.f.insts[a['v']].op == 'getelementptr':
                fl = ir.lastfield(self.f.insts[a['v']])
            return bool(fl and str(fl[1]) == 'duration')
        if g.op in ('fdiv', 'fsub', 'fadd', 'fmul'):
            return any(self.duration(x, d + 1) for x in g.a)
        if g.op in ('sitofp', 'uitofp'):
            return True
        return g.op == 'call' and g.cname() == 'platform_GetDuration'

    # ---- events
    def report(self, key, I, msg, st):
        self.bad.setdefault((key, I.where()), (I, msg, sim.trail(st)))

    def seen(self, I, what):
        if (I.id, what) not in self.done:
            self.done.add((I.id, what))
            self.ctx.count(what)

    def write(self, st, I, dst, total, what, nul=True, op=None):
        """total characters (without terminator) are put at dst."""
        r = self.root(dst)
        n = I.cname()
        if r is None:
            return self.report(what, I, '%s puts text into memory whose size is not known' % n, st)
        cap = self.capacity(st, r[0])
        if cap is None:
            return self.report(what, I, '%s puts text into memory whose size is not known' % n, st)
        if r[1] is None and r[0][0] == 's':
            return              # a piece of a larger block, at a running position
        self.seen(I, 'writes_examined')
        if isinstance(total, str):
            self.report(what, I, 'text is put into %s by %s, but %s' % (self.name(r[0]), n, total), st)
            self.put(st, 0, r[0], num(0) if cap is None else None)
            return
        if r[1] is None:
            off = self.form(st, r[2]) if r[2] is not None else None
        else:
            off = num(r[1])
        end = add(add(total, off), num(1 if nul else 0))
        if not self.le(st, end, cap):
            self.report(what, I, '%s can put %s characters into %s, which has room for %s' % (n, self.show(end), self.name(r[0]), self.show(cap)), st)
            self.put(st, 0, r[0], add(cap, num(-1)))
            return
        self.put(st, 0, r[0], add(end, num(-1)) if nul else 'raw')

    def name(self, r):
        if r[0] == 'al':
            return self.f.insts[r[1]].nm or 'a local buffer'
        return r[1] if r[0] == 'g' else 'the allocated block'

    def alloca(self, s, st, I):
        r = ('al', I.id)
        if self.fixed(r) is not None:
            self.put(st, 0, r, 'raw')

    def store(self, s, st, I, addr, val):
        self.s = s
        fl = self.field(addr)
        if fl:
            self.touch(st, fl, addr, I)
            return
        if addr == sim.TOP or addr[0] not in ('a', 's'):
            return
        r = self.root(addr)
        if r is not None and r[0][0] == 's' and st.const(val) == 0 and self.f.insts[I.id].a[0].get('w', 8) == 8:
            cap = self.capacity(st, r[0])
            off = num(r[1]) if r[1] is not None else self.form(st, r[2], self.opof(r[2])) if r[2] is not None else None
            if cap is not None and off is not None:
                self.seen(I, 'stores_examined')
                if not self.le(st, add(off, num(1)), cap):
                    self.report('store', I, 'the end of a text can be set at %s in a block of %s characters' % (self.show(off), self.show(cap)), st)
                elif r[2] is not None and -sim.INF < st.rng(r[2])[0] < 0:
                    self.report('store', I, 'the end of a text can be set before the memory it is in', st)
                self.put(st, 0, r[0], off)
            return
        if r is None or self.fixed(r[0]) is None:
            return
        self.seen(I, 'stores_examined')
        n = self.fixed(r[0])
        lo, hi = self.index(st, r, I)
        if lo < 0 or hi >= n:
            self.report('store', I, 'an element of %s outside its %d characters can be set' % (self.name(r[0]), n), st)
            return
        c = self.content(st, r[0])
        if st.const(val) == 0:
            # ends the text there at the latest
            if c == 'raw' or c is None or c[1] or c[0] > hi:
                self.put(st, 0, r[0], num(hi))
        elif c != 'raw' and c is not None and not c[1] and (st.const(val) is None or lo <= c[0]):
            lo_, hi_, ne = st.rng(val)
            if lo <= c[0]:
                self.put(st, 0, r[0], 'raw')

    def touch(self, st, fl, addr, I):
        """A size or text length is used: the block comes into view."""
        for k, (S, slack, L) in RECORDS.items():
            if k[0] == fl[0] and fl[1] in (S, L):
                a = self.sibling(addr, k[1])
                if a not in st.mem:
                    w = ('F', I.id)
                    self.s.retire(st, w)
                    st.mem[a] = ('s', w, 0)
                    self.open(st, a, ('s', w, 0), I.id)

    def index(self, st, r, I):
        if r[1] is not None:
            return r[1], r[1]
        if r[2] is None:
            return -1, sim.INF
        lo, hi, _ = st.rng(r[2])
        v = r[2]
        if v[0] == 's' and isinstance(v[1], int) and not self.f.isarg(v[1]) and v[1] in self.f.insts:
            g = self.f.insts[v[1]]
            while g.op in ('zext', 'sext', 'trunc') and 'v' in g.a[0] and not self.f.isarg(g.a[0]['v']):
                g = self.f.insts[g.a[0]['v']]
            if g.op == 'call' and g.cname() in ('strcspn', 'strlen', 'strspn'):
                a = self.root(self.s.ev(st, g.a[0]))
                c = self.content(st, a[0]) if a else None
                if a and c not in (None, 'raw') and a[1] == 0:
                    b = st.rng(('s', 0, 0))
                    lo = max(lo, v[2])
                    if not c[1]:
                        hi = min(hi, c[0] + v[2])
        return lo, hi

    def load(self, s, st, I, addr, val):
        self.s = s
        fl = self.field(addr)
        if fl in RECORDS and val[0] == 's' and self.capacity(st, ('s', val[1], 0)) is None:
            self.open(st, addr, ('s', val[1], 0), I.id)
            return
        if fl and self.recs:
            self.touch(st, fl, addr, I)
        if addr == sim.TOP or addr[0] != 'a' or addr[1][0] not in ('al', 'g'):
            return
        r = self.root(addr)
        if r is None or self.fixed(r[0]) is None:
            return
        self.seen(I, 'loads_examined')
        lo, hi = self.index(st, r, I)
        if lo < 0 or hi >= self.fixed(r[0]):
            self.report('load', I, 'an element of %s outside its %d characters can be read' % (self.name(r[0]), self.fixed(r[0])), st)

    def call(self, s, st, I, args):
        self.s = s
        n = I.cname()
        if n is None or n.startswith('llvm.lifetime') or n.startswith('llvm.dbg'):
            return self.pass_(s, st, I, args, ())
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memset') or n.startswith('llvm.memmove'):
            n = n[5:].split('.')[0]
        if n == 'strlen':
            self.reads(st, I, args[:1])
            lf = self.textlen(st, args[0], I.a[0])
            s.default_call(st, I, args)
            v = st.env[I.id]
            g = args[0][1][1] if args[0] != sim.TOP and args[0][0] == 'a' and args[0][1][0] == 'g' else None
            t = self.m.string({'g': g}) if g and not args[0][2] else None
            if t is not None:
                st.env[I.id] = ('c', len(t))
            elif v[0] == 's' and lf is not None and lf != 'raw':
                r = self.root(args[0])
                lo = self.get(st, 2, r[0]) if r and r[1] == 0 else None
                st.setrng(v[1], lo[0] if lo else 0, lf[0] if not lf[1] else sim.INF, ())
            return [st]
        if n in ('malloc', 'calloc', 'realloc'):
            k = {'malloc': 0, 'calloc': 0, 'realloc': 1}[n]
            self.exact = True
            lf = self.form(st, args[k], I.a[k])
            self.exact = False
            if n == 'calloc':
                a = st.const(args[1])
                b = st.const(args[0])
                lf = (lf[0] * a, tuple((x, c * a) for x, c in lf[1])) if lf is not None and a is not None else None
                if lf is None and b is not None:
                    lf = self.form(st, args[1], I.a[1])
                    lf = (lf[0] * b, tuple((x, c * b) for x, c in lf[1])) if lf is not None else None
            keep = None
            if n == 'realloc':
                keep = self.textlen(st, args[0], I.a[0])
            s.default_call(st, I, args)
            v = st.env[I.id]
            if v[0] == 's' and lf is not None:
                self.put(st, 1, ('s', v[1], 0), lf)
                self.put(st, 0, ('s', v[1], 0), keep if n == 'realloc' else num(0) if n == 'calloc' else 'raw')
            return [st]
        if n not in WRITERS:
            return self.pass_(s, st, I, args, ())
        if n in FORMATTED:
            k = FORMATTED[n]
            self.reads(st, I, args[k:])
            tot = self.formatted(st, I, args, k)
            if n == 'snprintf':
                lim = self.form(st, args[1], I.a[1])
                if isinstance(tot, str) or not self.le(st, tot, add(lim, num(-1))):
                    tot = add(lim, num(-1)) if lim is not None else 'its limit is not known here'
            s.default_call(st, I, args)
            if tot is None and not self.tx.callers.get(self.f.name):
                return [st]
            self.write(st, I, args[0], tot, n)
            r = self.root(args[0])
            if r is not None and r[1] == 0 and n == 'sprintf' and self.least:
                self.put(st, 2, r[0], num(self.least))
            return [st]
        if n in ('strcpy', 'stpcpy', 'strcat', 'strncat'):
            self.reads(st, I, args[1:2])
            tot = self.textlen(st, args[1], I.a[1])
            if n == 'strncat' and st.const(args[2]) is not None and (tot is None or tot[1] or tot[0] > st.const(args[2])):
                tot = num(st.const(args[2]))
            r = self.root(args[0])
            if 'cat' in n and r is not None:
                c = self.content(st, r[0])
                if c == 'raw':
                    self.report('unterminated', I, '%s appends to %s, which has no terminated text yet' % (n, self.name(r[0])), st)
                    c = num(0)
                tot = add(tot, c) if not isinstance(tot, str) else tot
                s.default_call(st, I, args)
                self.write(st, I, ('a', args[0][1], ()) if args[0][0] == 'a' else args[0], tot, n)
                return [st]
            s.default_call(st, I, args)
            self.write(st, I, args[0], tot if tot is not None else 'the length of the text copied is not bounded', n)
            return [st]
        if n in BOUNDED:
            lim = self.form(st, args[BOUNDED[n]], I.a[BOUNDED[n]])
            r = self.root(args[0])
            cap = self.capacity(st, r[0]) if r else None
            s.default_call(st, I, args)
            if cap is None:
                return [st]          # memory of the caller, or a block whose size is recorded elsewhere (checked below)
            b = st.copy()
            b.env[I.id] = ('c', 0)
            v = st.env.get(I.id)
            if v and v[0] == 's':
                st.setrng(v[1], 1, sim.INF, ())
            self.write(st, I, args[0], add(lim, num(-1)) if lim is not None else 'its limit is not known here', n)
            return [st, b]
        if n in RAW:
            r = self.root(args[0])
            cap = self.capacity(st, r[0]) if r else None
            if cap is None or r[0][0] == 's' and self.f.name not in CALLERS_BOUND:
                return self.pass_(s, st, I, args, (0,))
            lim = self.form(st, args[2], I.a[2])
            src = self.textlen(st, args[1], I.a[1]) if n == 'strncpy' else None
            s.default_call(st, I, args)
            short = src not in (None, 'raw') and lim is not None and self.le(st, add(src, num(1)), lim)
            self.write(st, I, args[0], lim if lim is not None else 'the amount copied is not known here', n, nul=False)
            if short:
                self.put(st, 0, r[0], src)
            elif n == 'memset' and st.const(args[1]) == 0:
                self.put(st, 0, r[0], num(0))
            return [st]
        if n == 'fread':
            r = self.root(args[0])
            cap = self.capacity(st, r[0]) if r else None
            a, b = st.const(args[1]), st.const(args[2])
            lf = self.form(st, args[2], I.a[2]) if a == 1 else self.form(st, args[1], I.a[1]) if b == 1 else None
            s.default_call(st, I, args)
            if cap is not None:
                self.write(st, I, args[0], lf if lf is not None else 'the amount read is not known here', n, nul=False)
            return [st]
        if n in SCAN:
            k = SCAN[n]
            fmt = self.m.string(I.a[k])
            if fmt is None and args[k] != sim.TOP and args[k][0] == 'a' and args[k][1][0] == 'g':
                fmt = self.m.string({'g': args[k][1][1]})
            s.default_call(st, I, args)
            if fmt is None:
                self.report('scan', I, 'the format %s reads by is not known here' % n, st)
                return [st]
            j = k + 1
            for mt in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|z)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])', fmt):
                sup, w, ln, cv = mt.groups()
                if cv == '%' or sup:
                    continue
                a = args[j] if j < len(args) else sim.TOP
                j += 1
                if cv[0] in 's[':
                    self.write(st, I, a, num(int(w)) if w else 'the format sets no limit', n)
                elif cv == 'c':
                    self.seen(I, 'reads_of_characters')
                    r = self.root(a)
                    if r is not None and self.fixed(r[0]) is not None:
                        self.write(st, I, a, num(int(w or 1)), n, nul=False)
            return [st]
        return self.pass_(s, st, I, args, ())

    def reads(self, st, I, args):
        for v in args:
            r = self.root(v) if v != sim.TOP and v[0] == 'a' else None
            if r is not None and r[0][0] == 'al' and self.fixed(r[0]) is not None and self.content(st, r[0]) == 'raw':
                self.report('unterminated', I, '%s is used as text by %s, but need not hold a terminated text' % (self.name(r[0]), I.cname()), st)

    def pass_(self, s, st, I, args, skip):
        n = I.cname()
        if n and not n.startswith('llvm.'):
            self.reads(st, I, [a for k, a in enumerate(args) if k not in skip])
        wr = self.writes.get(n) if n else None
        s.default_call(st, I, args)
        for k, a in enumerate(args):
            r = self.root(a) if a != sim.TOP else None
            if r is not None and self.capacity(st, r[0]) is not None and (n in self.m.defs and wr and k in wr):
                self.report('handed', I, '%s is handed to %s, which puts text into it without knowing its size' % (self.name(r[0]), n), st)
        # a global buffer the callee fills itself
        for r, lf in list(st.cl[0]):
            if r[0] == 'g' and n in self.globw and r[1] in self.globw[n]:
                self.put(st, 0, r, None)
        return [st]


def stores_records(f):
    """The function changes a record of a block and its size."""
    for I in f.insts.values():
        if I.op == 'store' and 'v' in I.a[1] and not f.isarg(I.a[1]['v']):
            fl = ir.lastfield(f.insts[I.a[1]['v']]) if f.insts[I.a[1]['v']].op == 'getelementptr' else None
            if fl and any(fl == k or fl[0] == k[0] and fl[1] in (v[0], v[2]) for k, v in RECORDS.items()):
                return True
    return False


def params_written(m):
    """Which functions put text through a pointer parameter with an unbounded writer."""
    res = {}
    ch = True

    def base(f, v, d=0):
        if 'v' not in v or d > 8:
            return None
        if f.isarg(v['v']):
            return v['v']
        g = f.insts[v['v']]
        if g.op in ('getelementptr', 'bitcast'):
            return base(f, g.a[0], d + 1)
        return None
    while ch:
        ch = False
        for f in m.defs.values():
            for I in f.calls():
                n = I.cname()
                ks = (0,) if n in ('strcpy', 'strcat', 'sprintf', 'stpcpy', 'gets') else res.get(n, ())
                for k in ks:
                    if k < len(I.a):
                        p = base(f, I.a[k])
                        if p is not None and p not in res.get(f.name, ()):
                            res.setdefault(f.name, set()).add(p)
                            ch = True
    return res


def globals_used(m, names):
    """Functions that (transitively) refer to the named global buffers."""
    res = {}
    for f in m.defs.values():
        s = set()
        for I in f.insts.values():
            for v in list(f.operands(I)):
                while v.get('ce') == 'gep':
                    v = v['base']
                if v.get('g') in names:
                    s.add(v['g'])
        res[f.name] = s
    ch = True
    while ch:
        ch = False
        for f in m.defs.values():
            for I in f.calls():
                x = res.get(I.cname(), set()) - res[f.name]
                if x:
                    res[f.name] |= x
                    ch = True
    return res


def run(ctx):
    ctx.rule = ('In every function with a fixed-size text buffer or a call that puts text into memory, path by path: an upper bound of the text each buffer holds is kept (literals, length tests, formats with '
                'the ranges of their arguments, appended pieces), and each call and each element set or read must stay inside the buffer; blocks allocated for a text are compared with the sum of lengths they '
                'were allocated for; a local buffer is used as text only once it holds a terminated one')
    ctx.assumptions = ['a duration printed with 3 decimals takes at most 23 characters', '%s gives the number of characters of a number' % DIGITS,]
    m = ctx.mod(drop=INLINE)
    m2 = ctx.mod(drop=INLINE + INLINE_RECORD)
    keep = {f.name for f in m.defs.values() if stores_records(f)}
    for mm in (m, m2):
        tx = Texts(mm)
        ms, rs = sim.compute_modsets(mm), sim.compute_retsets(mm)
        pw = params_written(mm)
        bufs = {n for n, g in mm.globals.items() if not g['const'] and re.match(r'\[\d+ x i8\]$', g['ty'])}
        gw = globals_used(mm, bufs)
        for f in mm.defs.values():
            if f.name in INLINE or (f.name in keep) != (mm is m2):
                continue
            cs = [I for I in f.calls() if I.cname() in WRITERS]
            al = [I for I in f.insts.values() if I.op == 'alloca' and re.match(r'\[\d+ x i8\]$', I.aty or '')]
            if not cs and not al and mm is m:
                continue
            ctx.count('functions')
            c = Buf(ctx, mm, f, tx)
            c.writes, c.globw, c.recs = pw, gw, mm is m2
            sim.Sim(mm, f, c, K=48 if ctx.thorough else 16, modsets=ms, retsets=rs).run()
            for (k, w), (I, msg, tr) in c.bad.items():
                ctx.violation('%s:%s' % (f.name, k), '%s: %s' % (f.name, msg), I.where(), tr)
    ctx.need('functions', 30)
    ctx.need('writes_examined', 60)
    ctx.need('records_examined', 4)
