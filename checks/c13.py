"""C13: a copied graph has all the state of the original."""
import ir, sim, objfx, objtypes

G = 'struct.baseGraphStructure'
# (reviewed) tables and lists copied elsewhere (C17), and sizes that stay the destination's own
SKIP = {(G, 'extensions'), (G, 'functions'), (G, 'arcCapacity'), (G, 'N'), (G, 'NV'), ('struct.stack', 'S'), ('struct.stack', 'capacity'),
        ('struct.listCollectionRec', 'N')}
# (reviewed) work space that is rebuilt before each use
SCRATCH = {('struct.K33SearchContext', 'bin'), ('struct.K33SearchContext', 'buckets')}


def run(ctx):
    ctx.rule = ('Every field of the graph and of each extension that some operation stores must certainly be copied by the graph copy (duplicate, context duplicate): a store or block copy '
                'dominating each successful return whose source is the same field of the original, over the whole of each array (counting-loop ranges and block lengths joined and compared '
                'with the array length); elements the destination has beyond the original must be given their initial value. Copying the adjacency structure likewise covers all links, neighbours, the edge count and the free-edge list.')
    ctx.assumptions = ['both graphs have the same order (tested by the copy)', 'reviewed scratch space: ' + ', '.join('%s.%s' % x for x in sorted(SCRATCH))]
    m = ctx.mod()
    exts = objtypes.extensions(m)
    life = objtypes.lifecycle(m, exts)
    muts = objtypes.mutators(m, life | {'gp_CopyGraph', 'gp_DupGraph', 'gp_CopyAdjacencyLists'})
    A = objfx.Analysis(m)
    init = A.must(objtypes.base_table(m)['fpInitGraph'])
    sizes = {e.path: e.val for e in init if e.kind == 'store' and isinstance(e.val, dict) and len(e.path) in (2, 3) and e.path not in e.val}
    fresh = objtypes.Coverage(m, init, G, ('a0',), sizes)
    # same order: the copy's sizes are the original's
    eq = dict(sizes)
    for d, s in (('a1', 'a0'),):
        for x in ('N', 'NV'):
            eq[(d, x)] = {('a0', 'N'): 1}
        for k, v in sizes.items():
            if len(k) == 3:
                eq[(d,) + k[1:]] = v
    copy = A.must('gp_CopyGraph')
    graph(ctx, m, 'gp_CopyGraph', copy, ('a0',), ('a1',), fresh, eq, muts, None)
    stacks(ctx, m, A, copy)
    adj = {('V', 'link'), ('E', 'link'), ('E', 'neighbor'), ('M',), ('edgeHoles', 'size')}
    ae = dict(eq)
    ae.pop(('a1', 'arcCapacity'), None)
    graph(ctx, m, 'gp_CopyAdjacencyLists', A.must('gp_CopyAdjacencyLists'), ('a0',), ('a1',), fresh, ae, muts, adj)
    # a duplicate: a new graph, copied into
    f = m.fn('gp_DupGraph')
    cps = [I for I in f.calls() if I.cname() == 'gp_CopyGraph']
    cov = objfx.Analysis(m).must('gp_DupGraph')
    dup = {(e.path[1:], e.val) for e in cov if e.val and isinstance(e.val, tuple) and e.val[0] == 'a0' and e.path[0] != 'a0'}
    for e in copy:
        if isinstance(e.val, tuple) and e.val[0] == 'a1':
            ctx.count('duplicate_effects')
            if (e.path[1:], ('a0',) + e.val[1:]) not in dup:
                ctx.violation('gp_DupGraph:%s' % '.'.join(e.path[1:]), 'a duplicate does not get %s from the original' % '.'.join(e.path[1:]), f.file)
    for d in exts:
        context(ctx, m, A, d, muts)
    ctx.need('fields_examined', 60)
    ctx.need('duplicate_effects', 15)
    ctx.need('contexts', 4)


def graph(ctx, m, fn, fx, dp, sp, fresh, eq, muts, only):
    f = m.fn(fn)
    cov = objtypes.Coverage(m, fx, G, dp, eq)
    for leaf, key in objtypes.leaves(m, G, SKIP):
        if key in SKIP or not muts.get(key):
            continue
        plain = tuple(x for x in leaf if not x.startswith('#'))
        if only is not None and plain not in only:
            continue
        name = '.'.join(leaf)
        ctx.count('fields_examined')
        if 'List' in leaf:
            # a list collection: its nodes, as many as the original has
            base = leaf[:leaf.index('List')]
            if any(e.kind == 'copy' and e.path == dp + base + ('List',) and e.val == sp + base + ('List',) and
                   e.len == {sp + base + ('N',): m.structs['struct.lcnode']['size']} for e in fx):
                ctx.count('fields_copied')
            else:
                ctx.violation('%s:%s' % (fn, name), '%s is not wholly copied by %s, though %s changes it' % (name, fn, sorted(muts[key])[0]), f.file)
            continue
        good, rest = [], []
        arr = None
        for e in cov.at(leaf):
            p = objtypes.member(m, G, e, len(dp))
            a = objtypes.array_of(cov, e)
            if e.kind in ('memset', 'copy') and not any(x.startswith('[') for x in e.path) and len(p) < len(leaf) and pointer_to(m, leaf, p):
                a = p
            if from_src(m, e, p, sp, dp):
                good.append((e, a))
            elif isinstance(e.val, int) or e.kind in ('memset', 'calloc'):
                rest.append((e, a))
        where = good[0][0].I.where() if good else f.file
        if not good:
            ctx.violation('%s:%s' % (fn, name), '%s is not copied by %s, though %s changes it' % (name, fn, sorted(muts[key])[0]), where)
            continue
        ctx.count('fields_copied')
        arr = good[0][1]
        if arr is None:
            last = max(range(len(fx)), key=lambda i: (fx[i] in [g[0] for g in good], i))
            over = [e for e, a in rest if e in fx[last + 1:]]
            if over:
                ctx.violation('%s:%s:over' % (fn, name), '%s is overwritten after it was copied' % name, over[0].I.where())
            continue
        if only is not None and arr == ('E',):
            # links of the edges in use: the bound is twice the number of edges and free records
            ps = objtypes.joined([objtypes.piece(m, cov, e, arr) for e, a in good if a == arr])
            want = objfx.lin_key({(): 2, (sp[0], 'M'): 2, (sp[0], 'edgeHoles', 'size'): 2})
            cap = objfx.lin_key({(): 2, (sp[0], 'arcCapacity'): 1})
            if not any(set(lo) <= {()} and lo.get((), 0) <= 2 and objfx.lin_key(hi) in (want, cap) for lo, hi in ps):
                ctx.violation('%s:%s:range' % (fn, name), '%s of some edges in use is not copied (copied: %s)' % (name, show(ps)), where)
            continue
        if only is not None and arr == ('V',):
            ps = objtypes.joined([objtypes.piece(m, cov, e, arr) for e, a in good if a == arr])
            want = [objfx.lin_key({(): 1, ('a0', 'N'): k}) for k in (1, 2)]
            if not any(set(lo) <= {()} and lo.get((), 0) <= 1 and objfx.lin_key(hi) in want for lo, hi in ps):
                ctx.violation('%s:%s:range' % (fn, name), '%s of some vertices is not copied (copied: %s)' % (name, show(ps)), where)
            continue
        ps = [objtypes.piece(m, cov, e, arr) for e, a in good if a == arr]
        fv = [e for e in fresh.at(leaf)]
        init = [e for e, a in rest if a == arr and (e.kind in ('memset', 'calloc') or e.val == 0)]
        n = objtypes.alloc_len(fresh, arr)
        es = objtypes.elem_size(m, G, arr)
        src_n = {tuple(sp) + (k[1:] if k[:1] == ('a0',) else k): c for k, c in (n or {}).items()}
        if objtypes.covers(ps, arr, n, es):
            continue
        if arr == ('E',):
            src = objtypes.joined(ps)
            cap = objfx.lin_key({(): 2, (sp[0], 'arcCapacity'): 1})
            own = [objfx.lin_key(cov.canon({(): 2, (dp[0], 'arcCapacity'): 1})), objfx.lin_key({(): 2, (dp[0], 'arcCapacity'): 1})]
            if not any(set(lo) <= {()} and lo.get((), 0) <= 2 and objfx.lin_key(hi) == cap for lo, hi in src):
                ctx.violation('%s:%s:range' % (fn, name), '%s of some edge records is not copied (copied: %s)' % (name, show(src)), where)
                continue
            tail = objtypes.joined(ps + [objtypes.piece(m, cov, e, arr) for e in init])
            if not any(set(lo) <= {()} and lo.get((), 0) <= 2 and objfx.lin_key(hi) in own for lo, hi in tail) and \
                    not any(e.kind == 'memset' for e in init):
                ctx.violation('%s:%s:rest' % (fn, name), '%s of the edge records beyond those of the original keeps its old value' % name, where)
            continue
        ctx.violation('%s:%s:range' % (fn, name), '%s is copied for only part of the records (copied: %s)' % (name, show(objtypes.joined(ps))), where)


def show(ps):
    return ', '.join('[%s, %s)' % (objfx.lin_str(a), objfx.lin_str(b)) for a, b in ps)


def pointer_to(m, leaf, p):
    st = G
    for x in p:
        fl = next((f for f in m.structs[st]['fields'] if f[0] == x), None)
        if fl is None:
            return False
        n, ptr = objtypes.elem(m, fl)
        if x == p[-1]:
            return ptr
        st = n
    return False


def from_src(m, e, p, sp, dp):
    """The effect copies the same place of the source."""
    if not isinstance(e.val, tuple) or e.val[:len(sp)] != sp:
        if isinstance(e.val, dict) and len(e.val) == 1:
            k, c = list(e.val.items())[0]
            return c == 1 and objtypes.strip(k[len(sp):]) == objtypes.strip(e.path[len(dp):]) and k[:len(sp)] == sp
        return False
    return norm(e.val[len(sp):]) == norm(e.path[len(dp):])


def norm(p):
    return tuple(p)


def stacks(ctx, m, A, copy):
    """Stacks are copied by sp_Copy: the contents, then the size."""
    F = {('struct.stack', 'size'): 3}
    A2 = objfx.Analysis(m, flags=F)
    fx = A2.must('sp_CopyContent')
    c = [e for e in fx if e.kind == 'copy' and e.path == ('a0', 'S') and e.val == ('a1', 'S')]
    f = m.fn('sp_CopyContent')
    ctx.count('stack_copies')
    if not c or c[-1].len != {('a1', 'size'): 4}:
        ctx.violation('sp_CopyContent', 'the contents of a stack are not wholly copied', c[-1].I.where() if c else f.file)
    fx = A2.must('sp_Duplicate')
    c = [e for e in fx if e.kind == 'copy' and e.path[-1] == 'S' and e.val == ('a0', 'S')]
    f = m.fn('sp_Duplicate')
    ctx.count('stack_copies')
    if not c or c[-1].len != {('a0', 'size'): 4}:
        ctx.violation('sp_Duplicate', 'the contents of a stack are not wholly duplicated', c[-1].I.where() if c else f.file)
    if not any(e.kind == 'store' and e.path[-1] == 'size' and e.val == ('a0', 'size') for e in fx):
        ctx.violation('sp_Duplicate:size', 'the size of a duplicated stack is not set', f.file)


def context(ctx, m, A, d, muts):
    fn = d['dup']
    f = m.fn(fn)
    S = d['ctx']
    Ai = objfx.Analysis(m, flags={(S, 'initialized'): 0})
    fx = Ai.must(fn)
    root = next((e.path[0] for e in fx if e.kind == 'copy' and e.path[0].startswith('r') and len(e.path) == 1 and e.val == ('a0',)), None)
    ctx.count('contexts')
    size = m.structs[S]['size']
    new = [e for e in fx if e.kind in ('malloc', 'calloc') and e.path == ('ret',)]
    if root is None and new:
        root = 'r%d:%s' % (new[0].I.id, new[0].kind)
    whole = [i for i, e in enumerate(fx) if e.kind == 'copy' and e.path == (root,) and e.val == ('a0',) and e.len == {(): size}]
    own = [e for e in fx if e.path[0] == root]
    tg = [e for e in own if e.path == (root, 'theGraph') and e.kind == 'store' and e.val == ('a1',)]
    if not tg and any(fl[0] == 'theGraph' for fl in m.structs[S]['fields']):
        ctx.violation('%s:theGraph' % fn, 'the copied context does not refer to the new graph', f.file)
    # array lengths, in terms of the new context; the source's are the same formula of its own graph
    n_new = {objtypes.strip(e.path[1:]): e.len for e in own if e.kind in ('malloc', 'calloc')}

    def canon(l):
        """Orders of both graphs are the same."""
        if l is None:
            return None
        r = {}
        for k, c in l.items():
            if k and k[-1] in ('N', 'NV') and (k[0] in ('a0', 'a1', root)) and 'List' not in ''.join(k):
                k = ('N',)
            r[k] = r.get(k, 0) + c
        return r
    for leaf, key in objtypes.leaves(m, S, {(S, 'theGraph'), (S, 'functions')} | SCRATCH):
        if key in SKIP or not muts.get(key) and not ('List' in leaf and muts.get(('struct.lcnode', leaf[-1]))):
            continue
        name = '.'.join(leaf)
        ctx.count('fields_examined')
        top = leaf[0]
        fl = next(x for x in m.structs[S]['fields'] if x[0] == top)
        if fl[5] == 0:
            # part of the context itself: in the block copy, not overwritten
            over = [e for i, e in enumerate(fx) if e.path[0] == root and objtypes.strip(e.path[1:]) == leaf[:1] and e.kind == 'store' and whole and i > whole[-1]]
            one = [e for e in own if objtypes.strip(e.path[1:]) == leaf[:1] and e.val == ('a0',) + leaf[:1]]
            if one or whole and not over:
                ctx.count('fields_copied')
                continue
            if over and all(isinstance(e.val, int) for e in over) and all(objtypes.restores(m.defs[n], key, over[-1].val) is None for n in muts[key]):
                ctx.count('fields_restored_by_each_operation')
                continue
            ctx.violation('%s:%s' % (fn, name), '%s of the context is not copied' % name, over[0].I.where() if over else f.file)
            continue
        # owned array or list: contents copied over the original's length, the rest initialised
        cp = [e for e in own if e.kind in ('copy', 'store') and isinstance(e.val, tuple) and e.val[:1] == ('a0',) and norm(e.val[1:]) == norm(e.path[1:]) and
              objtypes.strip(e.path[1:]) in [leaf[:k] for k in range(1, len(leaf) + 1)] and len(e.path) > 1]
        cp = [e for e in cp if not (e.kind == 'store' and len(e.path) == 2)]
        if not cp:
            ctx.violation('%s:%s' % (fn, name), '%s of the context is not copied, though %s changes it' % (name, sorted(muts.get(key) or ['an operation'])[0]), f.file)
            continue
        ctx.count('fields_copied')
        e = cp[-1]
        arr = objtypes.strip(e.path[1:])
        n = n_new.get(arr)
        if n is None:
            continue
        if e.rng is None and e.kind == 'copy':
            lsrc = {(('a0',) + k[1:] if k[:1] == (root,) else k): c for k, c in n.items()}
            ok = canon(e.len) == canon(lsrc)
            if not ok and len(arr) == 2 and arr[1] == 'List':
                es = 8
                ok = e.len == {('a0', arr[0], 'N'): es}
            if not ok:
                ctx.violation('%s:%s:len' % (fn, name), '%s of the context is copied over %s bytes, the original has %s' % (name, objfx.lin_str(e.len), objfx.lin_str(lsrc)), e.I.where())
                continue
            if any('arcCapacity' in k for k in n if k):
                i = fx.index(e)
                ini = [x for x in fx[:i] if x.path[0] == root and objtypes.strip(x.path[1:]) == arr and (x.kind == 'memset' and x.val == 0 and x.len == n or x.kind == 'calloc' and x.len == n)]
                if not ini:
                    ctx.violation('%s:%s:rest' % (fn, name), '%s of the edge records beyond those of the original is not initialised' % name, e.I.where())
