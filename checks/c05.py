"""C05: no indeterminate value is used."""
import re
import sim, fail, kinds

U = ('u',)
# external functions: argument indices read / written through (written: when the result is as stated)
READS = dict(fail.EXT_DEREF)
READS.update({'fopen': [0, 1], 'chdir': [0], 'strcpy': [1], 'strncpy': [1], 'sprintf': [1], 'snprintf': [2], 'fgets': [], 'fread': [], 'fclose': [],
              'fputs': [0], 'fputc': [], 'fgetc': [], 'getc': [], 'ungetc': [], 'putc': [], 'fwrite': [0], 'fseek': [], 'ftell': [], 'rewind': [],
              '__isoc99_fscanf': [1], '__isoc99_sscanf': [0, 1], '__isoc99_scanf': [0], 'fprintf': [1]})
WRITES = {'strcpy': 0, 'strncpy': 0, 'sprintf': 0, 'snprintf': 0, 'time': 0}
WRITES_NONNULL = {'fgets': 0, 'getcwd': 0, 'fread': 0}
SCANF = {'__isoc99_scanf': 0, '__isoc99_fscanf': 1, '__isoc99_sscanf': 1}


def conversions(fmt):
    """(suppressed?, conversion letter) of each conversion of a scanf format."""
    out = []
    for m in re.finditer(r'%(\*?)(\d*)(hh|h|ll|l|z|j)?(\[\^?\]?[^\]]*\]|.)', fmt):
        if m.group(4) != '%':
            out.append((bool(m.group(1)), m.group(4)[0]))
    return out


def cell(a):
    """The cell a pointer value designates when it is the start of a variable."""
    if a[0] == 's' and a[2] == 0:
        return ('a', a, ())
    if a[0] == 'a' and all(p == ('i', sim.C0) for p in a[2]):
        return ('a', a[1], ())
    return None


class C(sim.Client):
    wants_use = True

    def __init__(self, an, f, params=(), known=()):
        self.an, self.f, self.params, self.known = an, f, params, known
        self.bad, self.outs, self.vars = {}, [], {}

    def init(self, s, st):
        for i in self.params:
            st.mem[('a', ('s', i, 0), ())] = U
            st.facts[i] = (1, sim.INF, ())
        for i in self.known:
            st.mem[('a', ('s', i, 0), ())] = ('s', ('in', i), 0)
            st.facts[i] = (1, sim.INF, ())

    def sync(self, s, st):
        # states that differ in what is indeterminate are not joined
        u = frozenset(c[1] for c, v in st.mem.items() if v == U) | frozenset(k for k, v in st.env.items() if v == U)
        st.cl = (st.cl[0] if st.cl else None, u)

    def report(self, st, I, what, var):
        self.bad.setdefault((I.id, what), (I, what, var, sim.trail(st)))

    def alloca(self, s, st, I):
        if I.aty and I.aty.startswith('[') and I.aty.endswith(' x i8]'):
            st.mem[('a', ('al', I.id), ())] = U
            self.vars[I.id] = I

    def use(self, s, st, I):
        if I.op in ('phi', 'select', 'alloca'):
            return
        ops = list(I.a)
        if I.op == 'getelementptr' and I.path:
            ops += [p['v'] for p in I.path if p['k'] == 'idx']
        if I.op == 'store':
            b = s.base_of(s.ev(st, I.a[1]))
            if b[0] == 'al':
                ops = ops[1:]
        for o in ops:
            if 'v' in o and st.env.get(o['v']) == U:
                d = self.f.insts.get(o['v'])
                if I.op == 'call' and (I.cname() or '').startswith('llvm.'):
                    continue
                self.report(st, I, 'an indeterminate value is used', name(self.f, d))

    def load(self, s, st, I, addr, v):
        if v == U:
            return None
        c = self.base_cell(addr)
        if c is not None and addr != c and st.mem.get(c) == U:
            self.report(st, I, 'an element of an uninitialised array is read', self.varname(c))
        return None

    def base_cell(self, addr):
        if addr[0] == 'a' and addr[1][0] in ('al', 's') and addr[2] and all(p[0] == 'i' for p in addr[2]):
            return ('a', addr[1], ())
        return None

    def varname(self, c):
        if c[1][0] == 'al':
            return self.f.insts[c[1][1]].nm
        return self.f.argname(c[1][1]) if c[1][0] == 's' and isinstance(c[1][1], int) and c[1][1] < len(self.f.args) else '?'

    def call(self, s, st, I, args):
        # the variables the parameters refer to belong to the caller: only calls they are passed to reach them
        keep = {}
        for i in self.params + self.known:
            c = ('a', ('s', i, 0), ())
            if c in st.mem and not any(a == ('s', i, 0) or a[0] == 'a' and a[1] == ('s', i, 0) for a in args):
                keep[c] = st.mem[c]
        r = self.call1(s, st, I, args)
        if keep:
            if r is None:
                r = s.default_call(st, I, args)
            for x in r:
                x.mem.update(keep)
        return r

    def call1(self, s, st, I, args):
        n = I.cname() or ''
        if n.startswith('__indeterminate.'):
            st.env[I.id] = U
            self.an.sources += not self.params
            return [st]
        if n.startswith('llvm.'):
            if n.startswith(('llvm.memset', 'llvm.memcpy')) and cell(args[0]) in st.mem:
                st.mem.pop(cell(args[0]), None)
            return None
        un, kn = {}, {}
        for k, a in enumerate(args):
            c = cell(a)
            if c is not None and st.mem.get(c) == U:
                un[k] = c
            elif c is not None and c in st.mem and (c[1][0] == 'al' or c[1][0] == 's' and c[1][1] in self.known):
                kn[k] = c
            elif a[0] == 'a' and self.base_cell(a) is not None and st.mem.get(self.base_cell(a)) == U and any(
                    k in READS.get(x, ()) for x in self.an.m.callees(I)):
                self.report(st, I, 'part of an uninitialised array is read', self.varname(self.base_cell(a)))
        if n in SCANF:
            return self.scanf(s, st, I, args, un, SCANF[n])
        if not un and not any(set(kn) & self.an.scans.get(c, set()) for c in self.an.m.callees(I)):
            return None
        res = []
        outs = set()
        for c in self.an.m.callees(I):
            if c in self.an.m.defs:
                g = self.an.m.defs[c]
                ks = frozenset(k for k in un if k < len(g.args))
                bad, o = self.an.summary(c, ks, frozenset(k for k in kn if k < len(g.args)))
                for k, J in bad.items():
                    self.report(st, I, 'an uninitialised variable is read by %s (%s)' % (c, J.where()), self.varname(un[k]))
                outs |= o
            else:
                for k in un:
                    if k in READS.get(c, ()) or c in ('sprintf', 'fprintf', 'snprintf') and k > 1:
                        self.report(st, I, 'an uninitialised variable is read by %s' % c, self.varname(un[k]))
                if c in WRITES_NONNULL and WRITES_NONNULL[c] in un:
                    outs |= {((0, 0), frozenset()), ((1, sim.INF), frozenset([WRITES_NONNULL[c]]))}
                elif c in WRITES and WRITES[c] in un:
                    outs.add((None, frozenset([WRITES[c]])))
                elif c in READS or c in sim.EXT_PURE:
                    outs.add((None, frozenset()))
                else:
                    outs.add((None, frozenset(un)))
        for r, wr in sorted(outs, key=repr):
            x = st.copy()
            s.default_call(x, I, args)
            for k, c in un.items():
                if k in wr:
                    if x.mem.get(c) == U:
                        del x.mem[c]
                else:
                    x.mem[c] = U
            for k, c in kn.items():
                if ('kept', k) in wr:
                    x.mem[c] = st.mem[c]
                elif ('lost', k) in wr:
                    x.mem[c] = U
            if r is not None and I.ty != 'void':
                if r[0] == r[1]:
                    x.env[I.id] = ('c', r[0])
                    x.facts.pop(I.id, None)
                elif r[0] > -sim.INF or r[1] < sim.INF:
                    f = x.facts.get(I.id, (-sim.INF, sim.INF, ()))
                    if not x.setrng(I.id, max(f[0], r[0]), min(f[1], r[1]), f[2]):
                        continue
            res.append(x)
        return res

    def scanf(self, s, st, I, args, un, fi):
        fmt = self.an.m.string(I.a[fi])
        if fmt is None:
            fmt = '%d' * (len(args) - fi - 1)
        outs = [x for x in conversions(fmt) if not x[0]]
        if 0 in un and fi == 1 and self.f.insts.get(I.a[0].get('v')) is not None and I.cname() == '__isoc99_sscanf':
            self.report(st, I, 'an uninitialised array is read by sscanf', self.varname(un[0]))
        res = []
        for k in range(-1, len(outs) + 1):
            x = st.copy()
            s.default_call(x, I, args)
            for j in range(len(outs)):
                # what was not converted was not read: an older value must not be taken for it
                a = args[fi + 1 + j]
                c = cell(a)
                if j < k:
                    if c is not None and x.mem.get(c) == U:
                        del x.mem[c]
                elif c is not None and (c[1][0] == 'al' or c[1][0] == 's' and c[1][1] in self.params + self.known):
                    x.mem[c] = U
                else:
                    x.cl = (I.id, frozenset())
                if not self.params:
                    self.an.conv.add((self.f.name, I.id, j))
            x.env[I.id] = ('c', k)
            x.facts.pop(I.id, None)
            res.append(x)
        return res

    def ret(self, s, st, I, v):
        if st.cl is not None and st.cl[0] is not None and self.f.ret == 'i32' and v is not None:
            fv = kinds.fail_value(self.f.name)
            if fv is not None and st.rng(v)[:2] != (fv, fv):
                J = self.f.insts[st.cl[0]]
                self.bad.setdefault((J.id, 'unread'), (J, 'success may be reported though not all values were read', '?', sim.trail(st)))
        wr = frozenset(i for i in self.params if st.mem.get(('a', ('s', i, 0), ())) != U) | \
            frozenset(('kept', i) for i in self.known if st.mem.get(('a', ('s', i, 0), ())) == ('s', ('in', i), 0)) | \
            frozenset(('lost', i) for i in self.known if st.mem.get(('a', ('s', i, 0), ())) == U)
        self.outs.append((st.rng(v)[:2] if v is not None and self.f.ret != 'void' else None, wr))


def name(f, d):
    return (d.nm if d is not None else None) or '?'


class An:
    def __init__(self, m, K):
        self.m, self.K = m, K
        self.ms, self.rs = sim.compute_modsets(m), sim.compute_retsets(m)
        self.conv = set()
        self.scans = scans(m)
        self.memo, self.sources, self.active, self.hitrec, self.hits = {}, 0, set(), set(), set()

    def summary(self, fn, ks, kn=frozenset()):
        k = (fn, ks, kn)
        if k in self.memo:
            if k in self.active:
                self.hitrec.add(k)
                self.hits.add(k)
            return self.memo[k]
        self.memo[k] = ({}, set())
        f = self.m.defs[fn]
        self.active.add(k)
        outer, self.hits = self.hits, set()
        for rnd in range(8):
            c = C(self, f, tuple(sorted(ks)), tuple(sorted(kn)))
            sim.Sim(self.m, f, c, K=self.K, modsets=self.ms, retsets=self.rs).run()
            bad = {}
            for (I, what, var, tr) in c.bad.values():
                # attribute to the parameter whose pointee is read
                for i in ks:
                    if reads_param(f, I, i):
                        bad.setdefault(i, I)
            r = (bad, set(c.outs))
            if r[1] == self.memo[k][1] or k not in self.hitrec:
                self.memo[k] = r
                break
            self.memo[k] = r
        self.active.discard(k)
        self.hits.discard(k)
        r = self.memo[k]
        if self.hits:
            # rests on an unfinished recursion
            del self.memo[k]
        self.hits |= outer
        return r


def scans(m):
    """function -> parameters it passes to scanf as targets, itself or through its callees."""
    r = {n: set() for n in m.defs}
    ch = True
    while ch:
        ch = False
        for f in m.defs.values():
            for I in f.calls():
                for k, a in enumerate(I.a):
                    v = a.get('v')
                    if v is None or v >= len(f.args) or v in r[f.name]:
                        continue
                    if (I.cname() in SCANF and k > SCANF[I.cname()]) or any(k in r.get(c, ()) for c in m.callees(I)):
                        r[f.name].add(v)
                        ch = True
    return r


def reads_param(f, I, i):
    """The indeterminate operand of I derives from a load of *param i."""
    seen, work = set(), [I.id]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        if v == i:
            return True
        d = f.insts.get(v)
        if d is None:
            continue
        for o in f.operands(d):
            if 'v' in o:
                work.append(o['v'])
    return False


def creation(ctx, m):
    """The records of graphs and extensions: what one way of making them (or reinitialisation) initialises, every way does."""
    import objfx, objtypes, c12
    exts = objtypes.extensions(m)
    base = objtypes.base_table(m)
    A = objfx.Analysis(m)

    def eqs(fx, root):
        q = {(root, 'theGraph'): ('a0',)}
        for e in fx:
            if e.kind == 'store' and isinstance(e.val, dict) and len(e.path) in (2, 3) and e.path not in e.val:
                q[e.path] = {(x if x[:2] != (root, 'theGraph') else ('a0',) + x[2:]): c for x, c in e.val.items()}
        return q

    def compare(name, struct, makers, others):
        covs = []
        for what, fn, fx, root in makers + others:
            fx = [e for e in fx if e.path[0] == root]
            covs.append((what, fn, objtypes.Coverage(m, fx, struct, (root,), eqs(fx, root)), {objtypes.strip(e.path[1:]) for e in fx if e.kind == 'malloc'},
                         {objtypes.strip(e.path[1:]) for e in fx if e.kind == 'calloc'}))
        for leaf, key in objtypes.leaves(m, struct, c12.STOP):
            if leaf[0] == 'theGraph':
                continue
            done = {}
            for what, fn, cov, made, zeroed in covs:
                # what was there before the records were allocated does not count
                k = max([i for i, e in enumerate(cov.fx) if e.kind == 'malloc' and len(objtypes.strip(e.path[1:])) > 0 and leaf[:len(objtypes.strip(e.path[1:]))] == objtypes.strip(e.path[1:])], default=-1)
                late = {id(e) for e in cov.fx[k + 1:]}
                at = [e for e in cov.at(leaf) if id(e) in late]
                done[what] = any(c12.full(ctx, e, cov, covs[0][2] if not made else cov, leaf, at) for e in at)
            if not any(done.values()):
                continue
            for what, fn, cov, made, zeroed in covs[:len(makers)]:
                if not any(leaf[:len(p)] == p for p in made) or any(leaf[:len(p)] == p for p in zeroed):
                    continue
                ctx.count('created_fields')
                if not done[what]:
                    ctx.violation('create:%s:%s:%s' % (what, name, '.'.join(leaf)), '%s allocates %s of %s but does not certainly initialise all of it, as is done elsewhere' %
                                  (what, '.'.join(leaf), name), m.fn(fn).file)

    ini, rei = base['fpInitGraph'], base['fpReinitializeGraph']
    compare('the graph', 'struct.baseGraphStructure', [(ini, ini, A.must(ini), 'a0')], [(rei, rei, A.must(rei), 'a0')])
    for d in exts:
        S = d['ctx']
        A0 = objfx.Analysis(m, flags={(S, 'initialized'): 0}, attach=True)
        makers = [(d['attach'], d['attach'], A0.must(d['attach']), c12.ctxroot(m, A0, d['attach'], d))]
        ig, rg = d['slots'].get('fpInitGraph'), d['slots'].get('fpReinitializeGraph')
        if ig:
            makers.append((ig, ig, A.must(ig), c12.extroot(m, ig)))
        dup = d['call'].a[3].get('fn')
        if dup:
            fx = A0.must(dup)
            r = next((e.path[0] for e in fx if e.kind == 'copy' and len(e.path) == 1), None)
            if r:
                makers.append((dup, dup, fx, r))
        others = [(rg, rg, A.must(rg), c12.extroot(m, rg))] if rg else []
        compare(S.replace('struct.', ''), S, makers, others)


def run(ctx):
    creation(ctx, ctx.mod())
    main(ctx)
    ctx.need('created_fields', 10)


def main(ctx):
    ctx.rule = ('Every scalar local variable starts with an explicit indeterminate value and every local array starts unwritten. PathSim follows all feasible paths; scanf conversions and '
                'fgets/getcwd fork on how much they wrote, calls of functions given a reference fork on the outcomes (result, written or not) computed from the function itself. '
                'No indeterminate value may be computed with, tested, passed, returned or stored outside the variable, and no unwritten array may be read. Every function that makes a graph or an '
                'extension context (attachment, initialisation, copy) certainly initialises each field of the records it allocates that another of them, or reinitialisation, initialises.')
    ctx.assumptions = ['a write to any element initialises a local text buffer', 'local arrays of numbers are not followed', 'records on the heap are followed only as far as their makers agree on what is initialised']
    m = ctx.mod(indet=True)
    an = An(m, 64 if ctx.thorough else 16)
    for f in sorted(m.defs.values(), key=lambda f: f.name):
        ctx.count('functions_analysed')
        c = C(an, f)
        ind = sum(1 for I in f.calls() if (I.cname() or '').startswith('__indeterminate.'))
        ctx.count('local_variables', ind)
        sim.Sim(m, f, c, K=an.K, modsets=an.ms, retsets=an.rs).run()
        ctx.count('local_arrays', len(c.vars))
        for (I, what, var, tr) in c.bad.values():
            ctx.violation('%s:%s' % (f.name, var), '%s: %s (%s)' % (f.name, what, var), I.where(), tr)
    ctx.count('reference_argument_outcomes', sum(len(o) for b, o in an.memo.values()))
    ctx.count('scanned_values', len(an.conv))
    ctx.need('scanned_values', 25)
    ctx.need('local_variables', 1500)
    ctx.need('local_arrays', 30)
    ctx.need('reference_argument_outcomes', 6)
