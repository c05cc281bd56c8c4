"""C30: reading stops at the end of the input."""
import ir, sim
from c05 import SCANF, conversions

# reading functions: (argument holding the stream or None for the console, value(s) returned when nothing is left)
READ = {'fgets': (2, 0), 'fgetc': (0, -1), 'getc': (0, -1), '_IO_getc': (0, -1), 'getchar': (None, -1), 'fread': (3, 0),
        '__isoc99_scanf': (None, -1), '__isoc99_fscanf': (0, -1), '__isoc99_sscanf': (0, -1), 'sf_getc': (0, -1), 'sf_fgets': (2, 0)}
ITER = 'struct.G6ReadIterator'
NEXT = 'readGraphUsingG6ReadIterator'
CTYPE = ('isspace', 'isdigit', 'isalpha', 'isalnum', 'isprint', 'ispunct', 'isupper', 'islower', 'isxdigit')


def sccs(f):
    """block -> set of the blocks of its cycle (maximal)."""
    n = len(f.blocks)
    reach = []
    for b in range(n):
        seen, st = set(), list(f.blocks[b].succs())
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(f.blocks[x].succs())
        reach.append(seen)
    return {b: frozenset(x for x in reach[b] if b in reach[x]) for b in range(n) if b in reach[b]}


def natural(f):
    """[(header, blocks)] of the natural loops (reducible code)."""
    import c17
    dom = c17.doms(f)
    out = {}
    pred = {}
    for B in f.blocks:
        for s in B.succs():
            pred.setdefault(s, set()).add(B.id)
    for B in f.blocks:
        for h in B.succs():
            if h in dom[B.id]:
                body, st = {h}, [B.id]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(pred.get(x, ()))
                out.setdefault(h, set()).update(body)
    return [(h, frozenset(b)) for h, b in out.items()]


def counted(f, body):
    """The loop leaves when a counter reaches a constant."""
    for b in body:
        t = f.blocks[b].term
        if t.op != 'br' or not t.a or all(s in body for s in f.blocks[b].succs()):
            continue
        c = f.insts.get(t.a[0].get('v'))
        if c is None or c.op != 'icmp' or c.pred in ('eq', 'ne'):
            continue
        for i in (0, 1):
            p = f.insts.get(c.a[i].get('v'))
            if p is not None and p.op == 'phi' and isinstance(c.a[1 - i].get('c'), int):
                for o in f.operands(p):
                    d = f.insts.get(o.get('v'))
                    if d is not None and d.op in ('add', 'sub') and d.a[0].get('v') == p.id and isinstance(d.a[1].get('c'), int):
                        return True
    return False


class C(sim.Client):
    """Reads succeed or find nothing left; a stream where nothing was left stays that way."""

    def __init__(self, an, f):
        self.an, self.f, self.bad = an, f, {}
        self.loops = an.loops(f)
        self.ex = set()
        for b, body in self.loops:
            if counted(f, body):
                self.ex |= {I.id for x in body for I in f.blocks[x].insts}

    def init(self, s, st):
        for i, a in enumerate(self.f.args):
            if a[1] == 'ptr':
                st.facts[i] = (1, sim.INF, ())

    def clsubst(self, cl, k, new):
        return frozenset((i, sim.subst(x, k, new) if isinstance(x, tuple) else x) for i, x in cl) if cl else cl

    def clsyms(self, cl):
        r = set()
        for i, x in cl or ():
            if isinstance(x, tuple):
                sim.syms_in(x, r)
        return r

    def call(self, s, st, I, args):
        n = I.cname()
        if n in ('tolower', 'toupper') and st.const(args[0]) is not None:
            c = st.const(args[0])
            st.env[I.id] = ('c', ord(getattr(chr(c), n[2:])()) if 0 < c < 128 else c)
            return [st]
        if n not in READ and n != NEXT:
            return None
        self.an.sites.add((self.f.name, I.id))
        cl = st.cl or frozenset()
        if any(i == I.id for i, x in cl) and I.id not in self.ex:
            self.bad.setdefault(I.id, (I, sim.trail(st)))
            return []
        if n == NEXT:
            x, y = st.copy(), st.copy()
            s.default_call(x, I, args)
            s.default_call(y, I, args)
            y.cl = cl | {(I.id, I.id)}
            y.env[I.id] = ('c', 1)
            y.facts.pop(I.id, None)
            b = y.env.get(I.a[0].get('v'), s.ev(y, I.a[0]))
            b = s.ev(y, I.a[0])
            y.mem[s.gep(y, b, [{'k': 'fld', 's': ITER, 'f': 'currGraph'}])] = sim.C0
            z = y.copy()
            z.mem.pop(s.gep(y, b, [{'k': 'fld', 's': ITER, 'f': 'currGraph'}]), None)
            z.env[I.id] = ('c', 0)
            return [x, y, z]
        fi, end = READ[n]
        stream = 'console' if fi is None else args[fi]
        if n == '__isoc99_sscanf' or not isinstance(stream, (str, tuple)):
            stream = I.id
        fails = [end]
        if n in SCANF:
            fmt = self.an.m.string(I.a[SCANF[n]])
            k = len([c for c in conversions(fmt) if not c[0]]) if fmt else 1
            fails += range(0, max(k, 1) if k else 0)
        res = []
        if not any(x == stream for i, x in cl):
            x = st.copy()
            s.default_call(x, I, args)
            if n in SCANF:
                x.env[I.id] = ('c', k)
                x.facts.pop(I.id, None)
            elif n in ('fgets', 'sf_fgets'):
                x.setrng(I.id, 1, sim.INF, ())
            res.append(x)
        for v in fails:
            x = st.copy()
            s.default_call(x, I, args)
            x.cl = (x.cl or frozenset()) | {(I.id, stream)}
            x.env[I.id] = ('c', v)
            x.facts.pop(I.id, None)
            res.append(x)
        return res


class Text(sim.Client):
    """Every character read is the end of its text: loops that only characters end must not go round."""
    wants_use = True

    def use(self, s, st, I):
        if I.id not in self.ids:
            st.cl = None

    def __init__(self, f, body):
        self.f, self.body, self.bad = f, body, {}

    def init(self, s, st):
        for i, a in enumerate(self.f.args):
            if a[1] == 'ptr':
                st.facts[i] = (1, sim.INF, ())

    def load(self, s, st, I, addr, v):
        if I.id not in self.ids:
            return None
        if I.ty == 'i8':
            if st.cl == I.id:
                self.bad.setdefault(I.id, (I, sim.trail(st)))
            elif st.cl is None:
                st.cl = I.id
            return sim.C0
        if I.ty == 'i16':       # character class table entry of the end of a text
            return sim.C0
        return None

    def call(self, s, st, I, args):
        if I.id in self.ids and I.cname() in CTYPE:
            st.env[I.id] = sim.C0
            return [st]
        return None


class Ends(sim.Client):
    """A reading function reports that nothing was left."""
    wants_use = False

    def __init__(self, mode, want):
        self.mode, self.want, self.bad, self.n = mode, want, {}, 0

    def init(self, s, st):
        for i, a in enumerate(s.fn.args):
            if a[1] == 'ptr':
                st.facts[i] = (1, sim.INF, ())

    def load(self, s, st, I, addr, v):
        if self.mode == 'text' and ir.lastfield(s.fn.insts.get(I.a[0].get('v'))) == ('struct.strOrFile', 'pFile'):
            return sim.C0
        if self.mode == 'text' and I.ty == 'i8':
            return sim.C0
        if self.mode == 'text' and I.ty == 'ptr' and v[0] == 's':
            st.setrng(v[1], 1, sim.INF, ())
        return None

    def call(self, s, st, I, args):
        n = I.cname()
        if n in READ and READ[n][0] is not None:
            s.default_call(st, I, args)
            st.env[I.id] = ('c', READ[n][1])
            st.facts.pop(I.id, None)
            st.cl = 'end'
            return [st]
        return None

    def ret(self, s, st, I, v):
        if self.mode == 'file' and st.cl != 'end':
            return
        self.n += 1
        if self.want == 'iterator':
            if st.decide('eq', v, ('c', 1)) is False:
                return
            w = st.mem.get(s.gep(st, ('s', 0, 0), [{'k': 'fld', 's': ITER, 'f': 'currGraph'}]))
            ok = w is not None and (st.const(w) == 0)
        else:
            ok = st.const(v) == self.want
        if not ok:
            self.bad.setdefault(I.id, (I, sim.trail(st)))


class An:
    def __init__(self, m):
        self.m, self.sites, self._l = m, set(), {}

    def loops(self, f):
        if f.name not in self._l:
            self._l[f.name] = natural(f)
        return self._l[f.name]


def depends_on_chars_only(f, v, depth=0):
    """The condition is computed from characters of a text (and constants) only."""
    if depth > 14:
        return False
    if 'v' not in v:
        return True
    d = f.insts.get(v['v'])
    if d is None:
        return False
    if d.op == 'load':
        if d.ty == 'i8':
            return f.insts.get(d.a[0].get('v')) is None or f.insts[d.a[0]['v']].op != 'alloca'
        if d.ty == 'i16':
            return True
        return False
    if d.op == 'call':
        return d.cname() in CTYPE
    if d.op in ('icmp', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'add', 'sub', 'select', 'freeze'):
        return all(depends_on_chars_only(f, o, depth + 1) for o in f.operands(d))
    if d.op == 'phi' and d.ty == 'i1':
        return all(depends_on_chars_only(f, o, depth + 1) for o in f.operands(d))
    return False


def run(ctx):
    m = ctx.mod()
    an = An(m)
    ms, rs = sim.compute_modsets(m), sim.compute_retsets(m)
    K = 128 if ctx.thorough else 32
    for f in m.defs.values():
        if not any(I.cname() in READ or I.cname() == NEXT for I in f.calls()):
            continue
        loops = an.loops(f)
        ids = {I.id for _, body in loops for b in body for I in f.blocks[b].insts}
        rd = [I for I in f.calls() if (I.cname() in READ or I.cname() == NEXT) and I.id in ids]
        ctx.count('reads_in_loops', len(rd))
        if not rd:
            continue
        ctx.count('functions_reading_in_loops')
        c = C(an, f)
        sim.Sim(m, f, c, K=K, modsets=ms, retsets=rs).run()
        for I, tr in c.bad.values():
            ctx.violation('%s:%s repeated' % (f.name, I.cname()), '%s: after %s found nothing left to read it may be tried again without end' % (f.name, I.cname()), I.where(), tr)
    # loops that only characters of a text end
    for f in m.defs.values():
        for h, body in an.loops(f):
            ex = [f.blocks[b].term for b in body if any(s not in body for s in f.blocks[b].succs())]
            if not any(I.op == 'load' and I.ty == 'i8' for b in body for I in f.blocks[b].insts):
                continue
            if not ex or not all(t.op == 'br' and t.a and depends_on_chars_only(f, t.a[0]) for t in ex):
                continue
            ctx.count('character_loops')
            c = Text(f, body)
            c.ids = {I.id for b in body for I in f.blocks[b].insts}
            sim.Sim(m, f, c, K=K, modsets=ms, retsets=rs).run()
            for I, tr in c.bad.values():
                ctx.violation('%s:text' % f.name, '%s: a loop over a text may run past the end of the text' % f.name, I.where(), tr)
    # reading functions say so when nothing is left
    for fn, mode, want in (('sf_getc', 'file', -1), ('sf_getc', 'text', -1), ('sf_fgets', 'file', 0), ('sf_fgets', 'text', 0), (NEXT, 'file', 'iterator')):
        f = m.fn(fn)
        c = Ends(mode, want)
        sim.Sim(m, f, c, K=K, modsets=ms, retsets=rs).run()
        ctx.count('ends_of_input_reported', c.n)
        for I, tr in c.bad.values():
            ctx.violation('%s:%s end' % (fn, mode), '%s: the end of the %s is not reported' % (fn, 'text' if mode == 'text' else 'input'), I.where(), tr)
    ctx.rule = ('after a read found nothing left (or nothing of the expected form) the same read is not reached again in its loop, unless the loop leaves at a constant count; loops that only '
                'characters end are left at the end of the text; the reading functions report the end of files and texts')
    ctx.need('reads_in_loops', 12)
    ctx.need('ends_of_input_reported', 5)
