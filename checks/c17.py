"""C17: the function table dispatches every overridable operation, and overloads chain and unhook correctly."""
import ir, sim, objfx, objtypes

# (reviewed) _JoinBicomps runs after embedding to merge the remaining bicomps for good; extensions keep no state for those merges
DIRECT_OK = {('_JoinBicomps', '_MergeVertex')}
TBL = 'struct.graphFunctionTable'


def run(ctx):
    ctx.rule = ('Default table: the constructor and the release of all extensions certainly store a base function into each slot, each base function in exactly one slot. '
                'Attachment: the whole overload table is zeroed before any overload is put in it and before it is handed over; an overload that calls down calls the same slot of its '
                'own saved table. Every call through a table passes the graph whose table (or extension) it is. No base function or overload is called directly. Loops over tables '
                'cover all slots; attachment exchanges entries and puts the extension at the head; removal fixes the table chain up before the extension is freed; a copied '
                'extension uses the table in its own context; extension contexts are looked up with the identifier of their own type.')
    ctx.assumptions = ['reviewed direct call: ' + ', '.join('%s calls %s' % x for x in sorted(DIRECT_OK))]
    m = ctx.mod()
    A = objfx.Analysis(m)
    slots = [fl[0] for fl in m.structs[TBL]['fields']]
    size = m.structs[TBL]['size']
    exts = objtypes.extensions(m)
    base = default_table(ctx, m, A, 'gp_New', slots)
    default_table(ctx, m, A, 'gp_FreeExtensions', slots)
    over = {}                       # function -> (slot, extension)
    for d in exts:
        attach(ctx, m, A, d, slots, over)
    inv = {b: s for s, b in base.items()}
    for s, b in base.items():
        if b in over:
            ctx.violation('base:%s' % s, 'overload %s is also the default of slot %s' % (b, s), '')
    dispatch(ctx, m, A, base, inv, over, exts)
    loops(ctx, m, A, size // 8)
    mechanism(ctx, m, A)
    lookups(ctx, m, exts)
    for n, k in (('slots', 48), ('overloads', 25), ('dispatch_sites', 50), ('chain_calls', 18), ('table_loops', 2), ('context_lookups', 25)):
        ctx.need(n, k)


def default_table(ctx, m, A, fn, slots):
    t = {}
    for e in A.must(fn):
        p = objtypes.strip(e.path)
        if len(p) >= 2 and p[-2] == 'functions' and e.kind == 'store':
            t[p[-1]] = e
        elif p[-1] == 'functions' and e.kind in ('memset', 'copy'):
            t = {}
    base = {}
    for s in slots:
        ctx.count('slots')
        e = t.get(s)
        if e is None or not (isinstance(e.val, tuple) and e.val[0].startswith('fn:')):
            ctx.violation('default:%s:%s' % (fn, s), '%s does not certainly give slot %s its default function' % (fn, s), m.fn(fn).file)
            continue
        b = e.val[0][3:]
        for s2, b2 in base.items():
            if b2 == b:
                ctx.violation('default:%s:%s' % (fn, s), 'slots %s and %s both get %s' % (s2, s, b), e.I.where())
        if ctx.known_base.setdefault(s, b) != b if hasattr(ctx, 'known_base') else False:
            ctx.violation('default:%s:%s' % (fn, s), 'slot %s gets %s here, %s in the constructor' % (s, b, ctx.known_base[s]), e.I.where())
        base[s] = b
    if not hasattr(ctx, 'known_base'):
        ctx.known_base = dict(base)
    return base


def attach(ctx, m, A, d, slots, over):
    f = m.fn(d['attach'])
    D = doms(f)
    call = d['call']
    # the table handed over lies in the context handed over
    tp, cp = A.path(f, call.a[5]), A.path(f, call.a[2])
    if not (tp[:-1] == cp and tp[-1] == 'functions') and tp[0] != cp[0]:
        ctx.violation('table:%s' % d['attach'], 'the table handed over is not in the context handed over', call.where())
    zero = [I for I in f.calls() if (I.cname() or '').startswith(('llvm.memset', 'memset')) and A.path(f, I.a[0]) in (tp, cp)
            and I.a[1].get('c') == 0 and I.a[2].get('c', 0) >= m.structs[TBL]['size']]
    calloc = [I for I in f.calls() if I.cname() == 'calloc']
    stores = []
    for S in f.insts.values():
        if S.op == 'store' and 'fn' in S.a[0]:
            p = A.path(f, S.a[1])
            if p[:-1] == tp:
                stores.append((p[-1], S))
    if calloc and not zero:
        zero = calloc
    for s, S in stores:
        n = S.a[0]['fn']
        ctx.count('overloads')
        if not any(before(D, z, S) and not before(D, S, z) for z in zero):
            ctx.violation('zero:%s' % d['attach'], 'overload table of %s is not wholly zeroed before %s is put in it' % (d['ctx'], n), S.where())
        if not before(D, S, call):
            ctx.violation('late:%s:%s' % (d['attach'], s), 'overload %s is not certainly in the table when it is handed over' % n, S.where())
        if n in over and over[n] != (s, d['attach']):
            ctx.violation('twice:%s' % n, 'overload %s is installed in slots %s and %s' % (n, over[n][0], s), S.where())
        over[n] = (s, d['attach'])
    if not stores:
        raise ir.AnalysisError('no overloads recognised in %s' % d['attach'])


def doms(f):
    pred = {B.id: set() for B in f.blocks}
    for B in f.blocks:
        for s in B.succs():
            pred[s].add(B.id)
    D = {B.id: set(pred) for B in f.blocks}
    D[0] = {0}
    ch = True
    while ch:
        ch = False
        for B in f.blocks:
            if B.id == 0:
                continue
            ps = [D[p] for p in pred[B.id]]
            n = (set.intersection(*ps) if ps else set()) | {B.id}
            if n != D[B.id]:
                D[B.id] = n
                ch = True
    return D


def before(D, a, b):
    """Instruction a is certainly executed before b."""
    if a.blk is b.blk:
        return a.idx < b.idx
    return a.blk.id in D[b.blk.id]


def dispatch(ctx, m, A, base, inv, over, exts):
    cg = {}
    for f in m.defs.values():
        for I in f.calls():
            if I.cname() in m.defs:
                cg.setdefault(I.cname(), set()).add(f.name)
    ctxs = {d['ctx']: d for d in exts}
    for f in m.defs.values():
        for I in f.calls():
            n = I.cname()
            if n and (n in inv or n in over) and (f.name, n) not in DIRECT_OK:
                ctx.violation('direct:%s:%s' % (f.name, n), '%s calls %s directly instead of through slot %s, so overloads are bypassed' %
                              (f.name, n, inv.get(n) or over[n][0]), I.where())
            s = m.slot_of(I)
            if not s:
                continue
            ctx.count('dispatch_sites')
            g = f.insts[f.insts[I.callee['v']].a[0]['v']]
            p = A.path(f, {'v': g.id})
            own = p[:-2]            # object whose table it is
            arg = A.path(f, I.a[0])
            st = table_owner(f, g)
            if st in ctxs:
                # call down the chain from an overload
                ctx.count('chain_calls')
                for r in roots(f.name, cg, over):
                    if over[r][0] != s:
                        ctx.violation('chain:%s:%s' % (r, s), 'overload %s of slot %s calls down slot %s' % (r, over[r][0], s), I.where())
                    if over[r][1] != ctxs[st]['attach']:
                        ctx.violation('chain:%s:%s' % (r, st), 'overload %s calls down through the table of another extension' % r, I.where())
                ok = arg in (own + ('theGraph',), ('a0',))
            else:
                ok = arg == own or same(f, g, I.a[0])
            if not ok and own != objfx.LOSS:
                ctx.violation('graph:%s:%s' % (f.name, s), '%s calls slot %s of one graph for another' % (f.name, s), I.where())
    # address of a base function or overload used anywhere else
    for f in m.defs.values():
        for S in f.insts.values():
            if S.op == 'store' and 'fn' in S.a[0] and (S.a[0]['fn'] in inv or S.a[0]['fn'] in over):
                fld = ir.lastfield(f.insts.get(S.a[1].get('v')))
                if not fld or fld[0] != TBL:
                    ctx.violation('escape:%s:%s' % (f.name, S.a[0]['fn']), '%s keeps a pointer to %s outside the tables' % (f.name, S.a[0]['fn']), S.where())


def table_owner(f, g):
    """Struct the function table reached by GEP g is a member of."""
    r = None
    while g is not None and g.op == 'getelementptr':
        for x in g.path:
            if x['k'] == 'fld' and x['f'] == 'functions':
                r = x['s']
        if r:
            return r
        g = f.insts.get(g.a[0].get('v'))
    return r


def same(f, g, v):
    while g is not None and g.op == 'getelementptr':
        b = g.a[0]
        if b == v or ('v' in b and b.get('v') == v.get('v')):
            return True
        g = f.insts.get(b.get('v'))
    return False


def roots(n, cg, over):
    seen, work, r = set(), [n], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in over:
            r.add(x)
            continue
        work += cg.get(x, ())
    return r


def tabload(A, f, v):
    """(table path, index) when the pointer v addresses an entry of a table with a variable index."""
    g = f.insts.get(v.get('v'))
    if g is None or g.op != 'getelementptr' or len(g.path) != 1 or g.path[0]['k'] != 'idx' or 'v' not in g.path[0]['v']:
        return None
    return g.a[0], g.path[0]['v']['v']


def is_table(A, f, v, depth=0):
    """The pointer is (or may be) the address of a function table."""
    p = A.path(f, v)
    if p[-1] == 'functions':
        return True
    i = f.insts.get(v.get('v'))
    if i is not None and i.op in ('phi', 'select') and depth < 4:
        return any(is_table(A, f, x, depth + 1) for x in ([w for _, w in i.inc] if i.op == 'phi' else i.a[1:]))
    if i is None and 'v' in v and f.name:
        return any(a == 'functions' for a in [f.argname(v['v'])]) or f.args[v['v']][1] == 'ptr' and 'unction' in (f.argname(v['v']) or '')
    return False


def loops(ctx, m, A, n):
    for f in m.defs.values():
        if '/extensionSystem/' not in (f.file or ''):
            continue
        cfg = A.cfg(f)
        D, pred = A.dom(cfg)
        L = A.loops(cfg, D, pred)
        for h, (body, lat) in L.items():
            acc = []
            for b in body:
                for I in f.blocks[b].insts:
                    if I.op == 'load' or I.op == 'store':
                        t = tabload(A, f, I.a[0] if I.op == 'load' else I.a[1])
                        if t and is_table(A, f, t[0]):
                            acc.append((I, t))
            st = [(I, t) for I, t in acc if I.op == 'store']
            if not st:
                continue
            ctx.count('table_loops')
            c = A.counting(f, cfg, h, body, lat, A.exits(f, cfg))
            where = st[0][0].where()
            if c is None:
                ctx.violation('loop:%s' % f.name, 'the loop over the function table in %s does not simply count through all slots' % f.name, where)
                continue
            if c[1] != {} or c[2] != {(): n}:
                ctx.violation('loop:%s' % f.name, 'the loop over the function table covers slots [%s, %s), the table has %d' %
                              (objfx.lin_str(c[1]), objfx.lin_str(c[2]), n), where)
            for I, t in acc:
                if index_of(f, t[1]) != c[0]:
                    ctx.violation('index:%s' % f.name, 'a table entry other than the current slot is used', I.where())
            D2 = doms(f)
            for I, t in st:
                l = f.insts.get(I.a[0].get('v'))
                src = tabload(A, f, l.a[0]) if l is not None and l.op == 'load' else None
                if not src:
                    ctx.violation('entry:%s' % f.name, 'a table entry is set to something that is not a table entry', I.where())
                    continue
                if src[0] == t[0] or set(cands(A, f, src[0])) & set(cands(A, f, t[0])) - {objfx.LOSS}:
                    ctx.violation('entry:%s' % f.name, 'a table entry is set to itself', I.where())
                # the entry must be read before it is overwritten
                for J, u in st:
                    if J is not I and u[0] == src[0] and not before(D2, l, J):
                        ctx.violation('swap:%s' % f.name, 'a table entry is overwritten before it is saved', J.where())
            if len(st) == 2:
                ctx.count('exchanges')
                a, b = st
                la, lb = f.insts.get(a[0].a[0].get('v')), f.insts.get(b[0].a[0].get('v'))
                if la is not None and lb is not None and la.op == lb.op == 'load':
                    if tabload(A, f, la.a[0])[0] != b[1][0] or tabload(A, f, lb.a[0])[0] != a[1][0]:
                        ctx.violation('swap:%s' % f.name, 'table entries are not exchanged', where)
            # entries are skipped only when the extension does not overload the slot
            body_stores = {I.blk.id for I, _ in st}
            for b in body:
                t = f.blocks[b].term
                if t.op == 'br' and len(t.succ) == 2 and b != h and any(x in D2 and b in D2[x] and b != x for x in body_stores):
                    c2 = f.insts.get(t.a[0].get('v'))
                    inner = [x for x in L if x != h and b in L[x][0] and x in body]
                    if inner or c2 is None:
                        continue
                    nulls = c2.op == 'icmp' and (c2.a[0].get('null') or c2.a[1].get('null'))
                    if not nulls:
                        ctx.violation('cond:%s' % f.name, 'table entries are handled only under another condition than being overloaded', t.where())
    if not ctx.counts.get('exchanges'):
        ctx.violation('exchange', 'no operation exchanges the entries of a new extension with those of the graph, so removing the extension cannot give them back', m.fn('gp_AddExtension').file)


def tabload_arg(f, v):
    g = f.insts.get(v.get('v'))
    if g is None or g.op != 'getelementptr' or g.path[-1]['k'] != 'idx' or 'v' not in g.path[-1]['v']:
        return False
    return f.isarg(index_of(f, g.path[-1]['v']['v']))


def cands(A, f, v, depth=0):
    i = f.insts.get(v.get('v'))
    if i is not None and i.op in ('phi', 'select') and depth < 4:
        return [p for x in ([w for _, w in i.inc] if i.op == 'phi' else i.a[1:]) for p in cands(A, f, x, depth + 1)]
    return [A.path(f, v)]


def index_of(f, v):
    i = f.insts.get(v)
    while i is not None and i.op in ('sext', 'zext'):
        v = i.a[0].get('v')
        i = f.insts.get(v)
    return v


class Add(sim.Client):
    """An extension that is already there is not put on the list a second time."""

    def __init__(self, m, f):
        self.m, self.f, self.bad, self.looked = m, f, {}, 0

    def call(self, s, st, I, args):
        n = I.cname()
        if n not in ('gp_FindExtension', 'gp_GetExtension'):
            return None
        self.looked += 1
        a, b = st, st.copy()
        s.default_call(a, I, args)
        s.default_call(b, I, args)
        if n == 'gp_FindExtension':
            a.env[I.id], b.env[I.id] = ('c', 1), ('c', 0)
            a.cl = 'there'
            b.cl = 'new'
            return [a, b]
        return [a]

    def store(self, s, st, I, addr, val):
        if addr != sim.TOP and addr[0] == 'a' and addr[2] and addr[2][-1] == ('f', 'struct.baseGraphStructure', 'extensions') and st.cl != 'new':
            self.bad.setdefault((I.id, st.cl), (I, st.cl, sim.trail(st)))


def adding(ctx, m, A, f, head):
    c = Add(m, f)
    sim.Sim(m, f, c, K=16).run()
    cfg = A.cfg(f)
    D, pred = A.dom(cfg)
    L = A.loops(cfg, D, pred)
    # or it searches the list itself
    own = any(I.op == 'load' and ir.lastfield(f.insts.get(I.a[0].get('v'))) == ('struct.graphExtension', 'moduleID') and any(I.blk.id in b for b, _ in L.values())
              for I in f.insts.values())
    for I, cl, tr in c.bad.values():
        if cl == 'there' or not own:
            ctx.violation('again:%s' % f.name, '%s adds an extension that is already there, or without looking whether it is' % f.name, I.where(), tr)
    ctx.count('extension_additions')
    # the exchange of the table entries lies on every path through the linking
    fix = {I.blk.id for I in f.calls() if I.cname() and fixes(m, A, I.cname())}
    for h, (body, lat) in L.items():
        if any(I.op == 'store' and tabload(A, f, I.a[1]) and is_table(A, f, tabload(A, f, I.a[1])[0]) for b in body for I in f.blocks[b].insts):
            fix.add(h)
    succ = {B.id: B.succs() for B in f.blocks}

    def reach(frm):
        seen, work = set(), [frm]
        while work:
            b = work.pop()
            if b not in seen and b not in fix:
                seen.add(b)
                work += succ[b]
        return seen
    h = head.I.blk.id
    if h not in fix and h in reach(0) and any(f.blocks[b].term.op == 'ret' for b in reach(h)):
        ctx.violation('exchange:%s' % f.name, '%s can put an extension on the list without putting its functions into the graph\'s table' % f.name, head.I.where())


def mechanism(ctx, m, A):
    # attachment puts the new extension at the head of the list
    f = m.fn('gp_AddExtension')
    fx = A.must('gp_AddExtension')
    head = [e for e in fx if e.kind == 'store' and e.path == ('a0', 'extensions')]
    nxt = [e for e in fx if e.kind == 'store' and e.path[-1] == 'next' and e.path[0].startswith('r')]
    if not head or not nxt or nxt[-1].val != ('a0', 'extensions') or head[-1].val != nxt[-1].path[:-1]:
        ctx.violation('head:gp_AddExtension', 'a new extension is not put at the head of the graph\'s list', f.file)
    else:
        D = doms(f)
        ld = f.insts.get(nxt[-1].I.a[0].get('v'))
        if ld is not None and not before(D, ld, head[-1].I):
            ctx.violation('head:gp_AddExtension', 'the rest of the list is lost when an extension is added', head[-1].I.where())
    if head:
        adding(ctx, m, A, f, head[-1])
    for fld, k in (('context', 2), ('dupContext', 3), ('freeContext', 4), ('functions', 5)):
        e = [e for e in fx if e.kind == 'store' and e.path[-1] == fld and e.path[0].startswith('r')]
        if not e or e[-1].val != ('a%d' % k,):
            ctx.violation('field:gp_AddExtension:%s' % fld, 'the %s of a new extension is not the one given' % fld, e[-1].I.where() if e else f.file)
    # the chain: the nearest overload is the last one before the extension, over the whole list before it
    g = m.defs.get('_FindNearestOverload')
    if g:
        cfg = {B.id: B.succs() for B in g.blocks}
        D, pred = A.dom(cfg)
        L = A.loops(cfg, D, pred)
        if len(L) != 1:
            raise ir.AnalysisError('list walk of _FindNearestOverload not recognised')
        h, (body, lat) = list(L.items())[0]
        def kind(v):
            c = g.insts.get(v.get('v'))
            if c is None or c.op != 'icmp':
                return None
            for x, y in (c.a, c.a[::-1]):
                i = g.insts.get(x.get('v'))
                if i is not None and i.op == 'phi' and (y.get('v') == 1 or y.get('null')) and \
                        any(ir.lastfield(g.insts.get(g.insts[w['v']].a[0].get('v'))) == ('struct.graphExtension', 'next')
                            for pb, w in i.inc if 'v' in w and w['v'] in g.insts and g.insts[w['v']].op == 'load'):
                    return 'end'
                if i is not None and i.op == 'load' and y.get('null') and tabload_arg(g, i.a[0]):
                    return 'entry'
        for b in body:
            t = g.blocks[b].term
            k = kind(t.a[0]) if t.op == 'br' and len(t.succ) == 2 else None
            if t.op == 'br' and len(t.succ) == 2 and (k is None or k == 'entry' and any(s not in body for s in cfg[b])) or t.op == 'switch':
                ctx.violation('nearest', 'the search for the nearest overload stops or skips before the extension being removed', t.where())
            for I in g.blocks[b].insts:
                if I.op == 'select' and kind(I.a[0]) is None:
                    ctx.violation('nearest', 'the search for the nearest overload skips some overload', I.where())
        rets = [B.term.a[0] for B in g.blocks if B.term.op == 'ret']
        for v in rets:
            i = g.insts.get(v.get('v'))
            if i is None or i.op != 'phi':
                ctx.violation('nearest', 'the nearest overload is not the last one found', g.file)
    # removal: chain fixed up before the extension is freed
    for f in m.defs.values():
        if '/extensionSystem/' not in (f.file or ''):
            continue
        fixers = [I for I in f.calls() if I.cname() and fixes(m, A, I.cname())]
        frees = [I for I in f.calls() if I.cname() == '_FreeExtension']
        resets = any(e.kind == 'store' and e.path[:2] == ('a0', 'functions') for e in A.must(f.name)) if f.args else False
        for I in frees:
            ctx.count('releases')
            D = doms(f)
            if not resets and not any(before(D, x, I) for x in fixers):
                ctx.violation('unhook:%s' % f.name, 'an extension is freed in %s while its functions may still be in the tables' % f.name, I.where())
    ctx.need('releases', 2)
    # the search for the overload below walks the list up to the extension, so it is still there then
    for f in m.defs.values():
        if '/extensionSystem/' not in (f.file or ''):
            continue
        fixers = [I for I in f.calls() if I.cname() and fixes(m, A, I.cname()) and any(
            J.op == 'load' and ir.lastfield(m.defs[g].insts.get(J.a[0].get('v'))) == ('struct.graphExtension', 'next')
            for g in m.reach([I.cname()]) if g in m.defs for J in m.defs[g].insts.values())]
        if not fixers:
            continue
        succ = {B.id: B.succs() for B in f.blocks}
        for S in f.insts.values():
            if S.op != 'store' or ir.lastfield(f.insts.get(S.a[1].get('v'))) not in (('struct.graphExtension', 'next'), ('struct.baseGraphStructure', 'extensions')):
                continue
            ctx.count('unhookings')
            seen, work = set(), list(succ[S.blk.id])
            while work:
                b = work.pop()
                if b not in seen:
                    seen.add(b)
                    work += succ[b]
            for x in fixers:
                if x.blk.id in seen or x.blk.id == S.blk.id and S.blk.insts.index(S) < S.blk.insts.index(x):
                    ctx.violation('unhook:%s:order' % f.name, '%s takes the extension off the list before its entries are given back, so the search for the overload below runs past it' % f.name, S.where())
    ctx.need('unhookings', 1)
    # copies
    f = m.fn('gp_CopyExtensions')
    mk = [I for I in f.calls() if I.cname() == 'malloc']
    if not mk:
        raise ir.AnalysisError('copies of extensions not recognised')
    src = None
    got = {}
    for S in f.insts.values():
        if S.op != 'store':
            continue
        fld = ir.lastfield(f.insts.get(S.a[1].get('v')))
        if not fld or fld[0] != 'struct.graphExtension':
            continue
        b = f.insts.get(S.a[1]['v']).a[0]
        if b.get('v') not in [x.id for x in mk]:
            continue
        got[fld[1]] = S
        v = f.insts.get(S.a[0].get('v'))
        if fld[1] in ('moduleID', 'dupContext', 'freeContext'):
            lf = ir.lastfield(f.insts.get(v.a[0].get('v'))) if v is not None and v.op == 'load' else None
            if lf != fld:
                ctx.violation('copy:%s' % fld[1], 'the %s of a copied extension is not that of the original' % fld[1], S.where())
        elif fld[1] == 'context':
            if v is None or v.op != 'call':
                ctx.violation('copy:context', 'a copied extension shares the context of the original', S.where())
        elif fld[1] == 'functions':
            root = v
            while root is not None and root.op in ('getelementptr', 'bitcast'):
                root = f.insts.get(root.a[0].get('v'))
            ok = root is not None and (root.op == 'call' or root.op == 'load' and ir.lastfield(f.insts.get(root.a[0].get('v'))) == ('struct.graphExtension', 'context')
                                       and f.insts[root.a[0]['v']].a[0].get('v') in [x.id for x in mk])
            if not ok:
                ctx.violation('copy:functions', 'a copied extension uses the function table of the original\'s context', S.where())
        elif fld[1] == 'next' and v is not None and v.op == 'load' and A.path(f, S.a[0]) == ('a0', 'extensions'):
            ctx.violation('copy:order', 'extensions are copied in reverse order', S.where())
    for n in ('moduleID', 'context', 'dupContext', 'freeContext', 'functions'):
        if n not in got:
            ctx.violation('copy:%s' % n, 'the %s of a copied extension is not set' % n, f.file)
    # a copied graph has the function table of the original once its extensions are copied
    cfx = [e for e in A.must('gp_CopyGraph') if e.path[:2] == ('a0', 'functions')]
    f = m.fn('gp_CopyGraph')
    cp = [e for e in cfx if e.kind == 'copy' and e.val == ('a1', 'functions') and e.len == {(): m.structs[TBL]['size']}]
    exts = [I for I in f.calls() if I.cname() == 'gp_CopyExtensions']
    D = doms(f)
    if not cp or not exts or not all(before(D, x, cp[-1].I) for x in exts):
        ctx.violation('copygraph', 'a copied graph does not get the function table of the original after its extensions', f.file)


def fixes(m, A, n, depth=0):
    f = m.defs.get(n)
    if f is None or depth > 3 or n.startswith('_Free'):
        return False
    for I in f.insts.values():
        if I.op == 'store':
            t = tabload(A, f, I.a[1])
            if t and is_table(A, f, t[0]):
                return True
    return any(fixes(m, A, I.cname(), depth + 1) for I in f.calls() if I.cname() in m.defs)


def lookups(ctx, m, exts):
    ids = {d['ctx']: d['id'] for d in exts}
    byid = {d['id']: d for d in exts}
    for f in m.defs.values():
        for I in f.calls():
            if I.cname() not in ('gp_FindExtension', 'gp_GetExtension', 'gp_RemoveExtension'):
                continue
            l = f.insts.get(I.a[1].get('v'))
            if l is None or l.op != 'load' or 'g' not in l.a[0]:
                continue
            g = l.a[0]['g']
            ctx.count('context_lookups')
            if g not in byid:
                ctx.violation('id:%s:%s' % (f.name, g), '%s looks an extension up by %s, which no extension uses' % (f.name, g), I.where())
                continue
            if I.cname() == 'gp_RemoveExtension':
                want = [d for d in exts if d['attach'].replace('Attach', 'Detach') == f.name]
                if want and want[0]['id'] != g:
                    ctx.violation('id:%s:%s' % (f.name, g), '%s removes another extension' % f.name, I.where())
                continue
            vals = set()
            if I.cname() == 'gp_GetExtension':
                vals = {I.id}
            elif 'v' in I.a[2]:
                vals = {U.id for U in f.uses.get(I.a[2]['v'], ()) if U.op == 'load'}
            seen = set()
            while vals:
                v = vals.pop()
                if v in seen:
                    continue
                seen.add(v)
                for U in f.uses.get(v, ()):
                    if U.op in ('phi', 'bitcast', 'select'):
                        vals.add(U.id)
                    if U.op == 'getelementptr' and U.a[0].get('v') == v and U.path and U.path[0]['k'] == 'fld':
                        s = U.path[0]['s']
                        if s in ids and ids[s] != g:
                            ctx.violation('id:%s:%s' % (f.name, g), '%s uses the context of extension %s as %s' % (f.name, g, s), I.where())
    for d in exts:
        f = m.fn(d['attach'])
        if d['id'] is None:
            ctx.violation('id:%s' % d['attach'], 'extension identifier not a variable of its own', d['call'].where())
    if len(byid) != len(exts):
        ctx.violation('id', 'two extensions share an identifier', '')
