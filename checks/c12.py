"""C12: a reinitialised graph is the same as a newly initialised one."""
import ir, sim, objfx, objtypes

# (reviewed) size and wiring of a graph: fixed by initialisation, kept by reinitialisation
KEEP = {('struct.baseGraphStructure', x) for x in ('N', 'NV', 'arcCapacity', 'extensions', 'functions')} | {
    ('struct.stack', 'capacity'), ('struct.stack', 'S'), ('struct.listCollectionRec', 'N'), ('struct.listCollectionRec', 'List')}
STOP = {('struct.baseGraphStructure', 'extensions'), ('struct.baseGraphStructure', 'functions')}


def full(ctx, e, cov, fresh, leaf, peers):
    """Does effect e (with its peers giving the same value) cover every element of the array the leaf lies in?"""
    m = ctx.mod()
    arr = objtypes.array_of(cov, e)
    if arr is None:
        p = objtypes.strip(e.path[len(cov.prefix):])
        if e.kind in ('memset', 'copy'):
            n = objtypes.alloc_len(fresh, p)
            if n is None:
                # a member of the object itself
                n = member_size(m, fresh.struct, p)
                return n is not None and e.len == {(): n}
            a = cov.canon(e.len)
            return a is not None and objfx.lin_key(a) == objfx.lin_key(n)
        return True
    ps = [objtypes.piece(m, cov, x, arr) for x in peers if objtypes.array_of(cov, x) == arr and value(x) == value(e)]
    return objtypes.covers(ps, arr, objtypes.alloc_len(fresh, arr), objtypes.elem_size(m, fresh.struct, arr))


def member_size(m, st, p):
    size = m.structs[st].get('size')
    for x in p:
        for fl in m.structs[st]['fields']:
            if fl[0] == x:
                size = fl[3]
                k, ptr = objtypes.elem(m, fl)
                st = k if k else st
                break
        else:
            return None
    return size


def value(e):
    if e.kind == 'calloc':
        return 0
    return e.val


def check(ctx, m, what, struct, fresh_fx, fp, reset_fx, rp, muts, eqf, eqr, where):
    fresh = objtypes.Coverage(m, fresh_fx, struct, fp, eqf)
    reset = objtypes.Coverage(m, reset_fx, struct, rp, eqr)
    for leaf, key in objtypes.leaves(m, struct, STOP):
        if key in KEEP or leaf[0] == 'theGraph' and len(leaf) > 1:
            continue        # fixed, or part of the graph an extension belongs to
        fns = muts.get(key, set()) | muts.get((key[0], '*'), set())
        if not fns:
            continue
        ctx.count('fields_examined')
        fe = [e for e in fresh.at(leaf) if e.kind != 'calloc' or True]
        if not fe:
            # nothing gives it a first value: an earlier graph's must not show through
            if not [e for e in reset.at(leaf) if full(ctx, e, reset, fresh, leaf, reset.at(leaf))]:
                ctx.violation('%s:%s' % (what, '.'.join(leaf)), '%s of %s is changed by %s but neither initialised nor reset by reinitialisation' %
                              ('.'.join(leaf), what, sorted(fns)[0]), where)
            continue
        fv = value(fe[-1])
        ra = reset.at(leaf)
        re_ = [e for e in ra if full(ctx, e, reset, fresh, leaf, ra)]
        name = '.'.join(leaf)
        if not re_:
            # a field every operation puts back itself needs no reset
            left = None
            for n in sorted(fns):
                r = objtypes.restores(m.defs[n], key, fv) if isinstance(fv, int) else m.defs[n]
                if r is not None:
                    left = (n, r)
                    break
            if left is None:
                ctx.count('fields_restored_by_each_operation')
                continue
            part = reset.at(leaf)
            ctx.violation('%s:%s' % (what, name), '%s of %s is changed by %s but %s by reinitialisation' %
                          (name, what, left[0], 'only partly reset' if part else 'not reset'), part[0].I.where() if part else where)
            continue
        rv = value(re_[-1])
        ctx.count('fields_reset')
        if rv != fv and not (isinstance(rv, int) and isinstance(fv, int) and (rv - fv) % (1 << 32) == 0):
            ctx.violation('%s:%s:value' % (what, name), '%s of %s is reset to %s but starts as %s' % (name, what, rv, fv), re_[-1].I.where())


class Entry(sim.Client):
    """The public operation, given an initialised graph, hands it to the graph's own reinitialisation on every path."""

    def __init__(self, m, f):
        self.m, self.f, self.bad, self.rets = m, f, {}, 0

    def init(self, s, st):
        st.facts[0] = (1, sim.INF, ())
        st.facts[('order',)] = (1, sim.INF, ())
        st.cl = 0

    def clsyms(self, cl):
        return (('order',),)

    def load(self, s, st, I, addr, val):
        if addr != sim.TOP and addr[0] == 'a' and addr[2] and addr[2][-1] == ('f', 'struct.baseGraphStructure', 'N'):
            return ('s', ('order',), 0)
        return None

    def call(self, s, st, I, args):
        if self.m.slot_of(I) == 'fpReinitializeGraph' and args and args[0] == ('s', 0, 0):
            st.cl = 1
        return None

    def ret(self, s, st, I, val):
        self.rets += 1
        if not st.cl:
            self.bad.setdefault(I.id, (I, sim.trail(st)))


def run(ctx):
    ctx.rule = ('For the graph and each extension: every field (including fields of the records and lists it owns) that some operation stores, and that has a determinate '
                'value in a new object, must certainly be given the same value, for the whole of each array, by reinitialisation (effects dominating its return; counting '
                'loops lifted to their range), unless every operation that changes it puts it back on every path.')
    ctx.assumptions = ['order, capacity, extension list and function table are fixed by initialisation (reviewed)', 'pointers are valid and the graph order is positive']
    m = ctx.mod()
    exts = objtypes.extensions(m)
    life = objtypes.lifecycle(m, exts)
    muts = objtypes.mutators(m, life)
    base = objtypes.base_table(m)
    for s in ('fpReinitializeGraph', 'fpInitGraph'):
        if s not in base:
            raise ir.AnalysisError('base %s not found' % s)
    f = m.fn('gp_ReinitializeGraph')
    c = Entry(m, f)
    sim.Sim(m, f, c, K=16).run()
    ctx.count('entry_paths', c.rets)
    for I, tr in c.bad.values():
        ctx.violation('entry', 'gp_ReinitializeGraph can return without reinitialising an initialised graph', I.where(), tr)
    ctx.need('entry_paths', 1)
    A = objfx.Analysis(m)
    ini, rei = base['fpInitGraph'], base['fpReinitializeGraph']

    def nul(e):
        # fields of objects that do not exist yet
        return e
    g0 = [e for e in A.must('gp_New')]
    root = next((e.path[0] for e in g0 if e.path[0].startswith('r') and len(e.path) == 2), None)
    fx = []
    for e in g0:
        if e.path[0] == root and e.kind in ('store', 'memset') and len(objtypes.strip(e.path)) <= 3:
            fx.append(objfx.Fx(('a0',) + e.path[1:], e.kind, e.val, e.len, e.rng, e.I))
    init = A.must(ini)
    made = {objtypes.strip(e.path) for e in init if e.kind in ('malloc', 'calloc')}
    fx = [e for e in fx if not any(e.path[:len(p)] == p for p in made)] + init

    def eqs(fxs):
        return {e.path: e.val for e in fxs if e.kind == 'store' and isinstance(e.val, dict) and len(e.path) in (2, 3) and e.path not in e.val}
    sizes = eqs(init)
    check(ctx, m, 'graph', 'struct.baseGraphStructure', fx, ('a0',), A.must(rei), ('a0',), muts, sizes, sizes, m.fn(rei).file or '')
    for d in exts:
        S = d['ctx']
        A0 = objfx.Analysis(m, flags={(S, 'initialized'): 0}, attach=True)
        att = A0.must(d['attach'])
        ap = ctxroot(m, A0, d['attach'], d)
        ig = d['slots'].get('fpInitGraph')
        ffx = [objfx.Fx(('ctx',) + e.path[1:], e.kind, e.val, e.len, e.rng, e.I) for e in att if e.path[0] == ap]
        eq = {}
        if ig:
            ip = extroot(m, ig)
            ig_fx = [e for e in A.must(ig) if e.path[0] == ip]
            ffx += [objfx.Fx(('ctx',) + e.path[1:], e.kind, e.val, e.len, e.rng, e.I) for e in ig_fx]
            eq[(ip, 'theGraph')] = ('a0',)
            for e in ig_fx:
                if e.kind == 'store' and isinstance(e.val, dict) and len(e.path) == 3:
                    eq[e.path] = e.val
        else:
            # storage made when the extension is attached to an initialised graph
            pass
        rg = d['slots'].get('fpReinitializeGraph')
        rfx, rp = [], '-'
        eqr = {}
        if rg:
            rp = extroot(m, rg)
            rfx = [e for e in A.must(rg) if e.path[0] == rp]
            eqr[(rp, 'theGraph')] = ('a0',)
            if ig:
                for k, v in list(eq.items()):
                    if k[0] == ip and len(k) == 3:
                        eqr[(rp,) + k[1:]] = {(x if x[:2] != (ip, 'theGraph') else ('a0',) + x[2:]): c for x, c in v.items()}
        eq2 = dict(eq)
        for k, v in eq.items():
            if isinstance(v, dict):
                eq2[k] = {(x if x[:2] != (ip, 'theGraph') else ('a0',) + x[2:]): c for x, c in v.items()}
        check(ctx, m, S.replace('struct.', ''), S, ffx, ('ctx',), rfx, (rp,), muts, eq2, eqr, m.fn(rg or d['attach']).file or '')
    ctx.need('fields_examined', 30)
    ctx.need('fields_reset', 25)


def ctxroot(m, A, fn, d):
    """Access path root of the context in the attach function."""
    f = m.fn(fn)
    p = A.path(f, d['call'].a[2])
    return p[0]


def extroot(m, fn):
    """Access path root of the context an overload looks up."""
    f = m.fn(fn)
    for I in f.calls():
        if I.cname() == 'gp_FindExtension' and 'v' in I.a[2]:
            return '*al%d' % I.a[2]['v']
        if I.cname() == 'gp_GetExtension':
            return 'r%d:gp_GetExtension' % I.id
    return '-'
