"""Shape of the program's objects and which of their fields operations change."""
import ir, sim, objfx


def elem(m, fl):
    """(struct name or None, is pointer) of the type of field record fl."""
    return (fl[4] if fl[4] in m.structs else None), fl[5] > 0


def leaves(m, st, stop=(), depth=0):
    """[(path, (struct, field))] of the scalar fields reachable from one object of struct st."""
    out = []
    for fl in m.structs[st]['fields']:
        name = fl[0]
        if (st, name) in stop:
            continue
        n, ptr = elem(m, fl)
        if n and n != st and depth < 4:
            out += [((name,) + p, k) for p, k in leaves(m, n, stop, depth + 1)]
        elif not ptr:
            k = parts(fl)
            out += [((name, '#%d' % i), (st, name)) for i in range(k)] if k else [((name,), (st, name))]
    return out


def parts(fl):
    """Number of elements when the field is a small array of scalars."""
    d = fl[1].replace(' ', '')
    if d.endswith(']') and d.count('[') == 1 and d[d.index('[') + 1:-1].isdigit() and int(d[d.index('[') + 1:-1]) <= 8:
        return int(d[d.index('[') + 1:-1])
    return 0


def member(m, st, e, n):
    """Path of effect e below its first n elements, without element indices, members of small arrays named '#k'."""
    out, k, p = [], None, list(e.path[n:])
    i = 0
    while i < len(p):
        x = p[i]
        if x.startswith('['):
            if k:
                if x[1:-1].isdigit():
                    out.append('#' + x[1:-1])
                elif not (x == '[]' and e.rng and e.rng[0] == {} and e.rng[1] == {(): k}):
                    out.append('#?')
                k = None
            i += 1
            continue
        out.append(x)
        k = None
        fl = next((f for f in m.structs.get(st, {}).get('fields', ()) if f[0] == x), None)
        if fl:
            nst, ptr = elem(m, fl)
            k = 0 if nst else parts(fl)
            if k and e.kind == 'store' and i + 1 == len(p):
                out.append('#0')
            st = nst or st
        i += 1
    return tuple(out)


def strip(p):
    """Path without element indices."""
    return tuple(x for x in p if not x.startswith('['))


def mutators(m, skip):
    """(struct, field) -> functions outside skip that store it in an object they did not just make."""
    A = objfx.Analysis(m)
    out = {}
    # parameters through which a number or pointer is delivered
    dlv, ch = set(), True
    while ch:
        ch = False
        for f in m.defs.values():
            for j, a in enumerate(f.args):
                if a[1] == 'ptr' and (f.name, j) not in dlv:
                    for U in f.uses.get(j, ()):
                        if U.op == 'store' and U.a[1].get('v') == j or U.op == 'call' and any((c, i) in dlv for c in m.callees(U) for i, x in enumerate(U.a) if x.get('v') == j):
                            dlv.add((f.name, j))
                            ch = True
                            break
    for f in m.defs.values():
        if f.name in skip:
            continue
        for I in f.insts.values():
            if I.op == 'call':
                for j, x in enumerate(I.a):
                    g = f.insts.get(x.get('v'))
                    if g is not None and g.op == 'getelementptr' and any((c, j) in dlv for c in m.callees(I)):
                        k, q = sim.static_key(f, x), A.path(f, x)
                        if isinstance(k, tuple) and len(k) == 2 and not q[0].startswith('al') and not q[0].startswith('r'):
                            out.setdefault(k, set()).add(f.name)
            if I.op == 'store':
                k = sim.static_key(f, I.a[1])
                p = A.path(f, I.a[1])
                if isinstance(k, tuple) and len(k) == 2 and not p[0].startswith('al') and not p[0].startswith('r'):
                    out.setdefault(k, set()).add(f.name)
            elif I.op == 'call' and I.cname() and I.cname().startswith(('llvm.memcpy', 'llvm.memset', 'memcpy', 'memset')):
                p = A.path(f, I.a[0])
                if p[0].startswith('al') or p[0].startswith('r'):
                    continue
                g = f.insts.get(I.a[0].get('v'))
                t = None
                if g is not None and g.op == 'getelementptr' and g.path:
                    last = g.path[-1]
                    if last['k'] == 'idx':
                        t = last.get('ty')
                    else:
                        for fl in m.structs.get(last['s'], {}).get('fields', ()):
                            if fl[0] == last['f']:
                                t = elem(m, fl)[0]
                elif len(p) > 1:
                    # pointer loaded from a field: the record it points to
                    l = f.insts.get(I.a[0].get('v'))
                    if l is not None and l.op == 'load':
                        fld = ir.lastfield(f.insts.get(l.a[0].get('v')))
                        if fld:
                            for fl in m.structs.get(fld[0], {}).get('fields', ()):
                                if fl[0] == fld[1]:
                                    t = elem(m, fl)[0]
                if t and t in m.structs:
                    for fl in m.structs[t]['fields']:
                        out.setdefault((t, fl[0]), set()).add(f.name)
    return out


def extensions(m):
    """[dict(attach, ctx struct, slots {slot: fn}, id global, dup, free)] for every caller of gp_AddExtension."""
    out = []
    for f in m.defs.values():
        for I in f.calls():
            if I.cname() != 'gp_AddExtension':
                continue
            d = {'attach': f.name, 'slots': {}, 'ctx': None, 'call': I}
            for S in f.insts.values():
                if S.op == 'store' and 'fn' in S.a[0]:
                    g = f.insts.get(S.a[1].get('v'))
                    fld = ir.lastfield(g)
                    if fld and fld[0] == 'struct.graphFunctionTable':
                        d['slots'][fld[1]] = S.a[0]['fn']
                        for p in g.path:
                            if p['k'] == 'fld' and p['s'] != 'struct.graphFunctionTable':
                                d['ctx'] = p['s']
                        w = g.a[0]
                        while d['ctx'] is None and 'v' in w and w['v'] in f.insts and f.insts[w['v']].op == 'getelementptr':
                            for p in f.insts[w['v']].path:
                                if p['k'] == 'fld':
                                    d['ctx'] = p['s']
                            w = f.insts[w['v']].a[0]
            d['id'] = I.a[1].get('g')
            fns = [a['fn'] for a in I.a if 'fn' in a]
            d['dup'], d['free'] = (fns + [None, None])[:2]
            out.append(d)
    if len(out) < 4:
        raise ir.AnalysisError('only %d extensions found' % len(out))
    for d in out:
        if d['ctx'] is None:
            raise ir.AnalysisError('context of %s not recognised' % d['attach'])
    return sorted(out, key=lambda d: d['attach'])


class Coverage:
    """Which leaves of an object a list of effects covers, with what value."""

    def __init__(self, m, fx, struct, prefix, eqs=()):
        self.m, self.fx, self.struct, self.prefix, self.eqs = m, fx, struct, prefix, dict(eqs)

    def canon(self, l, fr=None):
        """Linear form with the object's own fields named from its root."""
        if l is None:
            return None
        r = {}
        for a, c in l.items():
            if a:
                for pre, to in self.eqs.items():
                    if a[:len(pre)] == pre:
                        if isinstance(to, dict):
                            if a != pre:
                                return None
                            a = to
                        else:
                            a = to + a[len(pre):]
                        break
            if isinstance(a, dict):
                for b, d in a.items():
                    r[b] = r.get(b, 0) + c * d
            else:
                r[a] = r.get(a, 0) + c
        return {x: c for x, c in r.items() if c}

    def at(self, leaf):
        """[(effect, full?)] on the leaf path."""
        out = []
        for e in self.fx:
            p = e.path
            if p[:len(self.prefix)] != self.prefix:
                continue
            s = member(self.m, self.struct, e, len(self.prefix))
            if s == leaf[:len(s)] and e.kind in ('store', 'memset', 'copy', 'calloc'):
                if e.kind == 'store' and s != leaf:
                    continue
                if e.kind == 'calloc' and s == leaf:
                    continue
                out.append(e)
        return out


def lifecycle(m, exts):
    """Functions that only build, size, reset, copy or destroy objects."""
    roots = {'gp_New', 'gp_Free', 'gp_ReinitializeGraph', 'gp_InitGraph', 'gp_EnsureArcCapacity'}
    base = {}
    for f in m.defs.values():
        for I in f.insts.values():
            if I.op == 'store' and 'fn' in I.a[0]:
                fld = ir.lastfield(f.insts.get(I.a[1].get('v')))
                if fld and fld[0] == 'struct.graphFunctionTable' and fld[1] in ('fpInitGraph', 'fpReinitializeGraph', 'fpEnsureArcCapacity'):
                    roots.add(I.a[0]['fn'])
    for d in exts:
        roots |= {d['attach'], d['dup'], d['free']}
    cg = m.callgraph()
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    res = {r for r in roots if r in m.defs}
    ch = True
    while ch:
        ch = False
        for r in list(res):
            for c in cg[r]:
                if c in m.defs and c not in res and rev[c] <= res:
                    res.add(c)
                    ch = True
    return res


def base_table(m):
    """slot -> base function, from the constructor's certain effects."""
    A = objfx.Analysis(m)
    t = {}
    for e in A.must('gp_New'):
        if e.kind == 'store' and len(e.path) == 3 and e.path[1] == 'functions' and isinstance(e.val, tuple) and e.val[0].startswith('fn:'):
            t[e.path[2]] = e.val[0][3:]
    return t


def restores(f, key, value):
    """Every store to key in f of something else is followed, on every path to a return, by a store of value."""
    good = set()
    bad = []
    for B in f.blocks:
        for I in B.insts:
            if I.op == 'store' and sim.static_key(f, I.a[1]) == key:
                (good.add(I.id) if I.a[0].get('c') == value else bad.append(I))
    for I in bad:
        # forward from I until a good store
        seen, work = set(), [(I.blk.id, I.idx + 1)]
        while work:
            b, k = work.pop()
            stop = False
            for J in f.blocks[b].insts[k:]:
                if J.id in good:
                    stop = True
                    break
                if J.op == 'ret':
                    return J
            if stop:
                continue
            for s in f.blocks[b].succs():
                if s not in seen:
                    seen.add(s)
                    work.append((s, 0))
    return None


# (reviewed) first index in use of the arrays of records; lower ones are never referred to
FIRST = {'E': 2}


def array_of(cov, e):
    """Stripped path of the array whose elements effect e ranges over."""
    out = []
    for x in e.path[len(cov.prefix):]:
        if x.startswith('['):
            return tuple(out)
        out.append(x)
    return None


def alloc_len(fresh, arr):
    """(bytes as a linear form) of the array in a new object, or None."""
    w = [x for x in fresh.fx if x.kind in ('malloc', 'calloc') and strip(x.path[len(fresh.prefix):]) == arr]
    return fresh.canon(w[-1].len) if w else None


def elem_size(m, st, arr):
    for x in arr:
        fl = next((f for f in m.structs[st]['fields'] if f[0] == x), None)
        if fl is None:
            return None
        n, ptr = elem(m, fl)
        st = n or st
        if x == arr[-1]:
            if n and fl[5] == 1:
                return m.structs[n]['size']
            return {'int': 4, 'char': 1}.get(fl[1].replace('*', '').replace(' ', '')) if fl[5] == 1 else 8
    return None


def piece(m, cov, e, arr):
    """[lo, hi) of element indices e covers, canonical linear forms."""
    es = elem_size(m, cov.struct, arr)
    if e.rng is not None:
        return cov.canon(e.rng[0]), cov.canon(e.rng[1])
    if e.kind in ('memset', 'copy', 'calloc') and not any(x.startswith('[') for x in e.path[len(cov.prefix):]):
        n = cov.canon(e.len)
        if n is None or not es or any(c % es for c in n.values()):
            return None
        return {}, {x: c // es for x, c in n.items()}
    return None


def joined(pieces):
    """Merge [lo, hi) pieces that meet exactly: [(lo, hi)]."""
    ps = [p for p in pieces if p and p[0] is not None and p[1] is not None]
    ch = True
    while ch:
        ch = False
        for a in ps:
            for b in ps:
                if a is not b and objfx.lin_key(a[1]) == objfx.lin_key(b[0]):
                    ps.remove(a)
                    ps.remove(b)
                    ps.append((a[0], b[1]))
                    ch = True
                    break
            if ch:
                break
    return ps


def covers(pieces, arr, length, es):
    """Do the pieces cover every element in use of an array of the given length in bytes?"""
    if length is None or not es or any(c % es for c in length.values()):
        return False
    want = objfx.lin_key({x: c // es for x, c in length.items()})
    first = FIRST.get(arr[-1], 1)
    for lo, hi in joined(pieces):
        if set(lo) <= {()} and lo.get((), 0) <= first and objfx.lin_key(hi) == want:
            return True
    return False
