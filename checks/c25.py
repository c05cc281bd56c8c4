"""C25: edge records and linked lists stay consistent under every operation that changes them."""
import re
import ir
import links
from links import const, twin, only, decode, place, link_of


def text(v):
    """A value in words."""
    if v[0] == 'ptr':
        return 'a pointer'
    if not v[1]:
        return str(v[0])
    def at(a):
        if a[0] == 'twin':
            return 'twin of ' + text(a[1])
        if a[0] == 'ld':
            d = decode(a[1])
            if d:
                return '%s of %s' % ({const(0): 'next/first', const(1): 'prev/last'}.get(d[2], 'link ' + text(d[2])), text(d[1]))
            p = a[1][1]
            return '.'.join(e[1] if e[0] == 'f' else '[%s]' % text(e[1]) for e in p) or 'value'
        if a[0] == 'arg':
            return 'argument %d' % a[1]
        if a[0] == 'phi':
            return 'variable'
        return str(a[0])
    return ' + '.join(([str(v[0])] if v[0] else []) + [('%d*' % c if c != 1 else '') + at(a) for a, c in v[1]])


def sibling(root, name):
    """The other record array of the same graph."""
    a = only(root)
    return links.atom(('ld', (a[1][0], a[1][1][:-1] + (('f', name),)), 0))


HEADS = ('fwdArcList', 'pertinentRoots', 'sortedDFSChildList', 'separatedDFSChildList', 'backArcList')


class Segment:
    """The obligations on one path through one segment."""

    def __init__(self, seg, s):
        self.seg, self.s = seg, s

    def get(self, arr, x, k):
        return self.s.res(self.seg.read(self.s, ('ptr', arr[1], tuple(place(arr, x, k)[1]))))

    def init(self, arr, x, k):
        L = place(arr, x, k)
        v = links.axioms(self.s, L)
        return self.s.res(v if v is not None else links.atom(('ld', L, self.s.g(L))))

    def known(self, v):
        """The path shows the value to be a record: it was tested, or used as an index."""
        return bool(v[1]) and (self.s.nil.get(only(v)) is False or v in self.indexed)

    def written(self):
        s, w = self.s, {}
        for L, v, I in s.order:
            L = (s.res(L[0]), tuple(('i', s.res(e[1])) if e[0] == 'i' else e for e in L[1]))
            d = decode(L)
            if d:
                w[d] = (v, I)
        return w

    def check(self):
        """Violated obligations: ([(text, instruction)], number of obligations)."""
        s, bad = self.s, []
        w = self.written()
        self.indexed = {x for a, x, k in w}
        swapped = {(arr, x) for arr, x, k in w if s.res(w[(arr, x, k)][0]) == self.init(arr, x, twin(k)) and
                   (arr, x, twin(k)) in w and s.res(w[(arr, x, twin(k))][0]) == self.init(arr, x, k) and
                   (arr[0] == 'V' or self.init(arr, x, k) != self.init(arr, x, twin(k)))}
        for (arr, x, k), (raw, I) in w.items():
            v = self.get(arr, x, k)
            if (arr, x) in swapped:
                continue
            src = only(v)
            if src and src[0] == 'ld' and (d := decode(src[1])) and d[0][0] == arr[0] and d[0][1] != arr[1] and d[1:] == (x, k):
                continue                          # the same link of another graph
            if arr[0] == 'V':
                ea = ('E', sibling(arr[1], 'E'))
                if v == const(0):
                    if self.get(arr, x, twin(k)) != const(0) and (raw == const(0) or link_of(raw, s)):
                        bad.append(('one end of the list of %s is emptied and the other is not' % text(x), I))
                elif self.get(ea, v, twin(k)) != const(0) and not (self.get(arr, x, twin(k)) == v and (arr, x, twin(k)) in w and (ea, v, k) not in w):
                    bad.append(('%s becomes an end of the list of %s but its link beyond that end is not cleared' % (text(v), text(x)), I))
                if self.init(arr, x, k) == const(0) and v != const(0) and (arr, x, twin(k)) not in w:
                    bad.append(('the empty list of %s gets only one of its two ends' % text(x), I))
                o = self.init(arr, x, k)
                if o != v and self.known(o) and (ea, o, twin(k)) not in w and self.get(ea, o, twin(k)) == const(0) and \
                        not any(a[0] == 'V' and k2 == k and self.get(a, y, k2) == o for a, y, k2 in w):
                    bad.append(('%s is no longer an end of the list of %s but nothing is linked beyond it' % (text(o), text(x)), I))
                continue
            o = self.init(arr, x, k)
            if o != v and self.known(o) and self.get(arr, o, twin(k)) == x:
                bad.append(('%s is no longer linked to %s but %s still is to it' % (text(x), text(o), text(o)), I))
            if v == const(0):
                if arr[0] == 'E':
                    va = ('V', sibling(arr[1], 'V'))
                    ends = [(y, k2) for a, y, k2 in w if a[0] == 'V' and self.get(a, y, k2) == x]
                    d = link_of(x, s)
                    if d and d[0][0] == 'V' and self.get(*d) == x:
                        ends.append(d[1:])
                    lone = self.get(arr, x, twin(k)) == const(0) and (arr, x, twin(k)) in w
                    if not any(k2 == twin(k) or lone for y, k2 in ends):
                        bad.append(('the link of %s is cleared but no list gets it as its end' % text(x), I))
                continue
            if self.get(arr, v, twin(k)) != x:
                bad.append(('%s is linked to %s but not back' % (text(x), text(v)), I))
        for L, (raw, I) in self.heads(w).items():
            bad.append(('a node taken out of its list stays its head', I))
        return bad, len(w), {a[0] for a, x in swapped}

    def heads(self, w):
        """Locations compared with a node this path takes out of its list, and left holding it."""
        s, r = self.s, {}
        out = {}
        for (arr, x, k), (raw, I) in w.items():
            o = self.init(arr, x, k)
            if arr[0] == 'V' or o == const(0) or o == self.get(arr, x, k) or self.init(arr, o, twin(k)) != x:
                continue
            p = self.init(arr, o, k)
            if p == const(0) or self.get(arr, p, twin(k)) != o:
                out[o] = I
        for q, t in list(s.facts.items()):
            if q[0] != 'zero':
                continue
            for L, c in q[1][1]:
                if L[0] != 'ld' or decode(L[1]) or links.lastname(L[1]) not in HEADS or abs(c) != 1:
                    continue
                N = links.lin(links.atom(L), links.scale(q[1], c), -1)
                I = out.get(N) or out.get(s.res(N))
                now = s.heap.get(L[1])
                if I is None or now is not None and now[0] == 'ptr':
                    continue
                if now is None and t or now is not None and s.res(now) in (N, s.res(N)):
                    r[L[1]] = (N, I)
                elif t and now is not None and (d := link_of(now, s)) and d[1] in (N, s.res(N)) and \
                        not any(p[0] == 'zero' and a[0] == 'ld' and (d2 := decode(a[1])) and s.res(d2[1]) in (N, s.res(N)) for p in s.facts for a, c2 in (p[1][1] if p[0] == 'zero' else ())):
                    r[L[1]] = (N, I)
        return r


def sides(S, f, changes, m):
    """Arguments used as the side of a link: each is followed with both its values."""
    r = set()
    for s, how, x in [y for b in [0] + sorted(S.loopheads(f)) for y in S.run(f, b)]:
        for L, v, I in s.order:
            d = decode(L)
            if d:
                k = d[2]
                a = only(k)
                while a and a[0] == 'twin':
                    k = a[1]
                    a = only(k)
                if a and a[0] == 'arg':
                    r.add(a[1])
    return sorted(r)


def segments(m, f, changes):
    S = links.Seg(m, changes=changes, axioms=links.axioms)
    ks = sides(S, f, changes, m)
    for n in range(1 << len(ks)):
        init = {a: const(n >> j & 1) for j, a in enumerate(ks)}
        for b in [0] + sorted(S.loopheads(f)):
            for s, how, x in S.run(f, b, init=init):
                yield S, s, how, x


INLINE = ('gp_AttachArc', 'gp_DetachArc', '_RestoreArc', '_HideEdge', '_RestoreEdge', 'gp_HideEdge', 'gp_RestoreEdge', '_InitEdgeRec')
PAIRS = (('gp_DetachArc', '_RestoreArc', 'a detached arc'), ('_HideEdge', '_RestoreEdge', 'a hidden edge'))


class Report:
    """Violations, each under a stable key."""

    def __init__(self, ctx, area):
        self.ctx, self.area = ctx, area

    def violation(self, msg, I, fn=None):
        self.ctx.violation('%s:%s:%s' % (self.area, (fn or I.fn).name, re.sub(r'[^a-z]+', '-', msg.split(': ', 1)[-1].lower())[:70]), msg, I.where())


def field(s, seg, f, *names):
    """The value of theGraph-> names... at the end of a path."""
    p = links.atom(('arg', 0))
    for n in names[:-1]:
        p = seg.read(s, ('ptr', p, (('f', n),)), True)
    return seg.read(s, ('ptr', p, (('f', names[-1]),)))


def was(*names):
    """The same at its start."""
    p = links.atom(('arg', 0))
    for n in names:
        p = links.atom(('ld', (p, (('f', n),)), 0))
    return p


def graphwrites(s):
    """What a path wrote, locals left out."""
    r = {}
    for L, v, I in s.order:
        a = only(L[0])
        if not (a and a[0] == 'local'):
            r[L] = I
    return r


def then(S, s, f, args):
    """Every way a second operation goes on after a path of a first one."""
    s = s.copy()
    s.env = {}
    return S.run(f, 0, state=s, init=dict(enumerate(args)))


def undone(seg):
    """Links that do not have their first value again."""
    bad = []
    for (arr, x, k), (raw, I) in seg.written().items():
        if seg.get(arr, x, k) != seg.init(arr, x, k):
            bad.append(('link %s of %s ends up as %s instead of what it was' % (text(k), text(x), text(seg.get(arr, x, k))), I))
    return bad


def roundtrips(ctx, m, S):
    """Restoring undoes hiding, whatever the neighbours of the two arcs are."""
    n = 0
    for a, b, what in PAIRS:
        fa, fb = m.fn(a), m.fn(b)
        args = [links.atom(('arg', j)) for j in range(len(fa.args))]
        for s, how, x in S.run(fa):
            if how != 'ret':
                continue
            for s2, how2, x2 in then(S, s, fb, args):
                if how2 != 'ret':
                    continue
                n += 1
                seg = Segment(S, s2)
                bad = undone(seg)
                for t, I in bad:
                    ctx.violation('%s: restoring %s does not undo taking it out: %s' % (I.where(), what, t), I)
    return n


def unlinked(seg, arr, e):
    """An arc taken out of its list: its two neighbours are linked to each other, or are the end of the list."""
    bad = []
    for k in (const(0), const(1)):
        o = seg.init(arr, e, k)
        if o == const(0):
            w = seg.s.res(links.atom(('ld', (arr[1], (('i', twin(e)), ('f', 'neighbor'))), seg.s.g((arr[1], (('f', 'neighbor'),))))))
            va = ('V', sibling(arr[1], 'V'))
            if seg.get(va, w, twin(k)) != seg.init(arr, e, twin(k)):
                bad.append('the end of the list of its vertex is not moved')
        elif seg.get(arr, o, twin(k)) != seg.init(arr, e, twin(k)):
            bad.append('its neighbour is not linked past it')
    return bad


def room(s, M, cap):
    """The path tests that the number of edges is below half the number of arc records."""
    cap, M = only(cap), only(M)
    for q, t in s.facts.items():
        if q[0] != 'neg':
            continue
        n = q[1] if t else links.lin(const(-1), q[1], -1)        # n < 0 holds
        c = dict(n[1])
        a = c.pop(M, 0)
        if len(c) != 1 or a <= 0:
            continue
        (h, b), = c.items()
        half = h[0] == 'op' and (h[1] in ('sdiv', 'udiv') and h[3] == const(2) or h[1] in ('ashr', 'lshr') and h[3] == const(1)) and only(h[2]) == cap
        if half and a == 1 and b == -1 and n[0] >= 0 or h == cap and a == 2 and b == -1 and n[0] >= 0:
            return True
    return False


def insertion(ctx, m, S, name):
    f = m.fn(name)
    sides_ = {'gp_AddEdge': (None, 2, None, 4), 'gp_InsertEdge': (2, 3, 5, 6)}[name]
    u, v = links.atom(('arg', 1)), links.atom(('arg', 3 if name == 'gp_AddEdge' else 4))
    n = 0
    for c in range(4):
        lu, lv = c & 1, c >> 1
        init = {sides_[1]: const(lu), sides_[3]: const(lv)}
        for s, how, x in S.run(f, init=init):
            if how != 'ret':
                continue
            n += 1
            where = '%s (%s)' % (f.name, f.file)
            anchor = f.blocks[0].insts[0]
            x = s.res(x)
            w = graphwrites(s)
            if x != const(1):
                for L, I in w.items():
                    ctx.violation('%s: %s changes the graph although it refuses the edge' % (I.where(), name), I)
                continue
            M, size = was('M'), was('edgeHoles', 'size')
            if field(s, S, f, 'M') != links.lin(M, const(1)):
                ctx.violation('%s: a successful insertion does not raise the number of edges by one' % where, anchor)
            if not room(s, M, was('arcCapacity')):
                ctx.violation('%s: an edge is inserted without a test that there is room for one' % where, anchor)
            popped = links.atom(('ld', (was('edgeHoles', 'S'), (('i', links.lin(size, const(1), -1)),)), 0))
            bound = links.lin(const(2), links.scale(links.lin(M, size), 2))
            now = field(s, S, f, 'edgeHoles', 'size')
            arr = ('E', was('E'))
            nb = {}
            for L, I in w.items():
                if L[0] == arr[1] and L[1] and L[1][-1] == ('f', 'neighbor'):
                    nb[s.res(L[1][0][1])] = s.res(s.heap[L])
            if now == links.lin(size, const(1), -1):
                rec = [popped, twin(popped)]
            else:
                rec = [s.res(bound), s.res(twin(s.res(bound)))]
                if s.res(now) != s.res(size):
                    ctx.violation('%s: the list of released pairs changes by other than one' % where, anchor)
                if s.nil.get(only(size)) is not True and s.facts.get(('neg', links.lin(const(0), size, -1))) is not False:
                    ctx.violation('%s: an unused pair is taken although a released one may exist' % where, anchor)
            if set(nb) != set(rec):
                ctx.violation('%s: the pair of records used is not the one taken (%s)' % (where, ', '.join(text(z) for z in nb)), anchor)
                continue
            if sorted(nb.values(), key=repr) != sorted([u, v], key=repr):
                ctx.violation('%s: the two halves do not name the two endpoints' % where, anchor)
                continue
            seg = Segment(S, s)
            va = ('V', was('V'))
            for z, other, a_, e_, l_ in ((u, v, 'first', sides_[0], lu), (v, u, 'second', sides_[2], lv)):
                half = [r for r in nb if nb[r] == other]
                e = s.res(links.atom(('arg', e_))) if e_ is not None else const(0)
                got = seg.get(va, z, const(l_)) if e == const(0) else seg.get(arr, e, const(l_))
                if got not in half:
                    ctx.violation('%s: the half of the edge that leads to the other endpoint is not put in its place at the %s endpoint' % (where, a_), anchor)
            extra = {L[1][-1][1] for L in w if L[1] and L[1][-1][0] == 'f'} - {'M', 'size', 'neighbor', 'link'}
            if extra:
                ctx.violation('%s: insertion changes %s as well' % (where, ', '.join(sorted(extra))), anchor)
            for t, I in seg.check()[0]:
                ctx.violation('%s: %s' % (I.where(), t), I)
    return n


def dynamic(ctx, m):
    """Insertion with growth: the edge is added again only after a refusal for room, and what the last try says is returned."""
    f = m.fn('gp_DynamicAddEdge')
    T = links.Seg(m, axioms=links.axioms)
    n = 0
    for s, how, x in T.run(f):
        c = [e for e in s.events if e[0] == 'call' and e[1] in ('gp_AddEdge', 'gp_EnsureArcCapacity')]
        if how != 'ret' or not c:
            continue
        n += 1
        r = [links.atom(('ret', e[1], e[3].id, ())) for e in c]
        for e in c:
            if e[1] == 'gp_AddEdge' and tuple(s.res(a) for a in e[2]) != tuple(links.atom(('arg', j)) for j in range(5)):
                ctx.violation('%s: the edge added is not the one asked for' % e[3].where(), e[3])
        last = [e for e in s.events if e[0] == 'call' and e[1] in m.defs and e[3].ty != 'void'][-1]
        if s.res(x) not in (s.res(r[-1]), s.res(links.atom(('ret', last[1], last[3].id, ())))):
            ctx.violation('%s: what the last step said is not returned' % c[-1][3].where(), c[-1][3])
        for a, b, e in zip(r, r[1:], c):
            want = const(-1) if e[1] == 'gp_AddEdge' else const(1)
            if s.res(a) != want and s.facts.get(('zero', links.lin(a, want, -1))) is not True:
                ctx.violation('%s: insertion goes on after another outcome than %s' % (e[3].where(), 'a refusal for room' if e[1] == 'gp_AddEdge' else 'success'), e[3])
        if c[-1][1] == 'gp_EnsureArcCapacity' and s.facts.get(('zero', links.lin(r[-1], const(1), -1))) is True:
            ctx.violation('%s: the edge is not added after room was made' % c[-1][3].where(), c[-1][3])
        if len(c) == 1 and c[0][1] == 'gp_AddEdge' and last is c[0] and s.facts.get(('zero', links.lin(r[0], const(-1), -1))) is True:
            ctx.violation('%s: no room is made after a refusal for room' % c[0][3].where(), c[0][3])
    return n


def deletion(ctx, m, S):
    f = m.fn('gp_DeleteEdge')
    e = links.atom(('arg', 1))
    n = 0
    arr = ('E', was('E'))
    M, size = was('M'), was('edgeHoles', 'size')
    for c in (0, 1):
        for s, how, x in S.run(f, init={2: const(c)}):
            if how != 'ret':
                continue
            n += 1
            anchor = f.blocks[0].insts[0]
            where = '%s (%s)' % (f.name, f.file)
            seg = Segment(S, s)
            for h in (e, twin(e)):
                for t in unlinked(seg, arr, h):
                    ctx.violation('%s: deleting an edge leaves one half in its list: %s' % (where, t), anchor)
            if s.res(x) != seg.init(arr, e, const(c)):
                ctx.violation('%s: the arc after the deleted one is not what is returned' % where, anchor)
            if field(s, S, f, 'M') != links.lin(M, const(1), -1):
                ctx.violation('%s: deleting an edge does not lower the number of edges by one' % where, anchor)
            now = field(s, S, f, 'edgeHoles', 'size')
            last = links.lin(links.lin(const(2), links.scale(links.lin(M, const(1), -1), 2)), links.scale(size, 2))    # records in use after the deletion
            inside = None
            for d, t in ((links.lin(e, last, -1), True), (links.lin(links.lin(last, const(1), -1), e, -1), False)):
                if ('neg', d) in s.facts:
                    inside = s.facts[('neg', d)] == t
            if inside is None:
                ctx.violation('%s: no test tells whether the deleted pair is the last one' % where, anchor)
            elif inside:
                top = S.read(s, ('ptr', was('edgeHoles', 'S'), (('i', size, 'i32'),)))
                if now != links.lin(size, const(1)) or s.res(top) not in (e, twin(e), links.even(e)):
                    ctx.violation('%s: the records of a deleted edge are not made available again' % where, anchor)
            elif now != size:
                ctx.violation('%s: the last pair is recorded as released although the bound already gives it back' % where, anchor)
            cleared = [q for q in s.events if q[0] == 'call' and q[1] and q[1].startswith(('memset', 'llvm.memset')) and q[2][0][0] == 'ptr' and
                       s.res(q[2][0][1]) == arr[1] and len(q[2][0][2]) == 1 and q[2][0][2][0][1] == links.even(e) and q[2][2] == const(2 * m.structs['struct.edgeRec']['size'])]
            one = {L[1][0][1] for L in graphwrites(s) if L[0] == arr[1] and L[1][-1] == ('f', 'neighbor') and s.heap[L] == const(0)}
            if not cleared and one != {e, twin(e)}:
                ctx.violation('%s: the records of a deleted edge are not cleared' % where, anchor)
    return n


def moved(ctx, m, hides):
    """Identifying and hiding vertices, undone by restoring: the stack records say what to put back where."""
    S = links.Seg(m, changes=lambda I: hides & set(m.callees(I)), axioms=links.axioms, through=True)
    S.watch = lambda s, args: S.read(s, ('ptr', S.read(s, ('ptr', args[0], (('f', 'theStack'),)), True), (('f', 'size'),))) if args and args[0] == links.atom(('arg', 0)) else None
    back = m.fn('_RestoreVertex')
    n = 0
    envs = []
    for name in ('_IdentifyVertices', '_HideVertex'):
        f = m.fn(name)
        s0 = links.State()
        for j in range(1, len(f.args) if name == '_HideVertex' else 3):
            s0.nil[('arg', j)] = False
        if name == '_IdentifyVertices':           # the arc the moved ones are put before is one of the first vertex
            s0.owned = {links.atom(('arg', 1)): [links.atom(('arg', 3))]}
        for s, how, x in S.run(f, state=s0):
            if how != 'ret' or s.res(x) != const(1):
                continue
            s.events = []
            here = dict(s.gens)
            for s2, how2, x2 in then(S, s, back, [links.atom(('arg', 0))]):
                if how2 != 'ret':
                    continue
                c = [e for e in s2.events if e[0] == 'call' and e[1] in ('_RestoreHiddenEdges', '_RestoreInternalEdges')]
                w = '%s followed by %s' % (name, back.name)
                I = back.blocks[0].insts[0]
                if not c:
                    if x2 is None or s2.res(x2) != const(0):
                        ctx.violation('%s: the hidden edges are not restored on a path that succeeds' % w, I)
                    continue
                n += 1
                if name == f.name == '_IdentifyVertices':
                    envs.append({q: s2.res(z) for q, z in s2.env.items() if isinstance(z, tuple) and z and z[0] != 'ptr'})
                if s2.res(c[-1][2][1]) != was('theStack', 'size'):
                    ctx.violation('%s: the hidden edges are not restored down to where they were begun' % w, c[-1][3])
                hidden = links.atom(('ld', (was('theStack'), (('f', 'size'),)), here.get('size', 0)))
                if s2.res(c[-1][4]) != s2.res(hidden):
                    ctx.violation('%s: the stack is not where it was when the last edge was hidden' % w, c[-1][3])
                for t, J in undone(Segment(S, s2)):
                    ctx.violation('%s: restoring a vertex does not undo taking it out: %s' % (J.where(), t), J)
                if s2.gens.get('neighbor', 0) > s.gens.get('neighbor', 0) and name == '_HideVertex':
                    ctx.violation('%s: neighbours are renamed although no vertex was identified' % w, I)
    # the arcs that lead to a vertex are renamed when its list is moved, and back again
    f = m.fn('_IdentifyVertices')
    for g in (f, back, m.fn('_MergeVertex')):
        got = renamed(m, g)
        if not got:
            ctx.violation('%s: the arcs that lead to the moved vertex are not renamed' % g.name, g.blocks[0].insts[0])
        for v, I in got:
            n += 1
            a = only(v)
            if g is not back and v != links.atom(('arg', 1)):
                ctx.violation('%s: arcs are renamed to a vertex other than the one identified with' % I.where(), I)
            if g is back and a and a[0] == 'in' and any(z is not None and z != links.atom(('arg', 2)) for z in (e.get(((), a[2])) for e in envs)):
                ctx.violation('%s: arcs of a restored vertex are renamed to another vertex' % I.where(), I)
    # everything on the stack is restored
    g = m.fn('gp_RestoreVertices')
    T = links.Seg(m, axioms=links.axioms)
    size = links.atom(('ld', (was('theStack'), (('f', 'size'),)), 0))
    for b in [0] + sorted(T.loopheads(g)):
        for s, how, x in T.run(g, b):
            if how == 'ret' and x is not None and s.res(x) == const(1):
                n += 1
                z = T.read(s, ('ptr', T.read(s, ('ptr', links.atom(('arg', 0)), (('f', 'theStack'),)), True), (('f', 'size'),)))
                if z != const(0) and s.facts.get(('zero', z)) is not True and s.facts.get(('neg', links.lin(z, const(1), -1))) is not True and s.facts.get(('neg', links.scale(z, -1))) is not False:
                    ctx.violation('%s: restoring ends with vertices left on the stack' % g.name, g.blocks[b].insts[0])
    # the arcs moved by a contraction are put beside an arc of the vertex that stays
    for g in m.defs.values():
        if not any(I.cname() == 'gp_IdentifyVertices' for I in g.calls()):
            continue
        T = links.Seg(m, axioms=links.axioms)
        for s, how, x in T.run(g):
            hid = [e for e in s.events if e[0] == 'call' and e[1] == 'gp_HideEdge']
            for e in s.events:
                if e[0] != 'call' or e[1] != 'gp_IdentifyVertices':
                    continue
                n += 1
                u, v, before = (s.res(a) for a in e[2][1:4])
                d = link_of(before, s)
                arr = ('E', was('E'))
                nb = lambda h: s.res(links.atom(('ld', (arr[1], (('i', h), ('f', 'neighbor'))), 0)))
                if d and d[0][0] == 'E' and nb(twin(d[1])) != u or d and d[0][0] == 'V' and d[1] != u:
                    ctx.violation('%s: the arcs moved are put beside an arc of another vertex' % e[3].where(), e[3])
                for h in hid[-1:]:
                    q = s.res(h[2][1])
                    if {nb(q), nb(twin(q))} != {u, v}:
                        ctx.violation('%s: the vertices identified are not the ends of the edge contracted' % e[3].where(), e[3])
    # contraction inside identification: the bottom of the hidden edges is one lower
    for s, how, x in S.run(f):
        c = [e for e in s.events if e[0] == 'call' and 'gp_ContractEdge' == e[1]]
        if how == 'ret' and c:
            n += 1
            size = links.atom(('ld', (was('theStack'), (('f', 'size'),)), s.g((was('theStack'), (('f', 'size'),)))))
            st = [(L, v, I) for L, v, I in s.order if field_array(L) == 'S' and L[1] and L[1][0][0] == 'i']
            slot = links.lin(size, const(7), -1)
            if len(st) != 1 or s.res(st[0][0][1][0][1]) != slot or s.res(st[0][1]) != links.lin(links.atom(('ld', st[0][0], s.g(st[0][0]))), const(1), -1):
                ctx.violation('%s: the edge hidden by a contraction is not counted among the hidden edges of the identification' % f.name, c[0][3])
            if s.res(x) != links.atom(('ret', 'gp_ContractEdge', c[0][3].id, ())):
                ctx.violation('%s: the result of the contraction is not returned' % f.name, c[0][3])
    return n


def renamed(m, g):
    """Values given to the neighbors of twin arcs in the loops of a function, or of one it calls: [(value in g, store)]."""
    r = []
    for h, at in [(g, None)] + [(m.defs[I.cname()], I) for I in g.calls() if I.cname() in m.defs]:
        T = links.Seg(m, axioms=links.axioms)
        for b in T.loopheads(h):
            for s, how, x in T.run(h, b):
                for L, v, I in s.order:
                    if L[1] and L[1][-1] == ('f', 'neighbor') and field_array(L) == 'E' and (only(L[1][0][1]) or ' ')[0] == 'twin':
                        a = only(v)
                        if at is not None:
                            if not a or a[0] != 'arg':
                                continue
                            o = at.a[a[1]]
                            v = links.atom(('arg', o['v']) if g.isarg(o.get('v')) else ('in', g.name, o.get('v')))
                        r.append((v, I))
    return r


def field_array(L):
    return links.field_of(L[0])


def rises(f, J, v):
    """The value a loop variable takes next is higher."""
    I = f.insts.get(v['v']) if 'v' in v and not f.isarg(v['v']) else None
    return I is not None and I.op == 'add' and I.a[0].get('v') == J.id and I.a[1].get('c', 0) > 0


def stacked(ctx, m, slots):
    """Every edge hidden is on the stack; every one popped is restored; every caller that hides, restores."""
    n = 0
    hide, show = {'gp_HideEdge'} | set(slots.get('fpHideEdge', ())), {'gp_RestoreEdge'} | set(slots.get('fpRestoreEdge', ()))
    for f in m.defs.values():
        for I in f.calls():
            if I.cname() in ('gp_HideEdge', 'gp_RestoreEdge') and f.name not in hide | show:
                n += 1
    for f in m.defs.values():
        cs = {I.cname() for I in f.calls()}
        if f.name in hide | show or not cs & {'gp_HideEdge', 'gp_RestoreEdge', 'gp_DeleteEdge'}:
            continue
        T = links.Seg(m, axioms=links.axioms)
        for b in [0] + sorted(T.loopheads(f)):
            for s, how, x in T.run(f, b):
                pushed = {s.res(v): I for L, v, I in s.order if field_array(L) == 'S' and v[0] != 'ptr'}
                for e in s.events:
                    if e[0] == 'call' and e[1] == 'gp_HideEdge' and s.res(e[2][1]) not in pushed:
                        ctx.violation('%s: an edge is hidden without being put on the stack' % e[3].where(), e[3])
                    if e[0] == 'call' and e[1] == 'gp_DeleteEdge' and s.res(e[2][1]) in pushed:
                        ctx.violation('%s: an edge put on the stack to be restored is deleted' % e[3].where(), e[3])
                    if e[0] == 'call' and e[1] == 'gp_RestoreEdge' and (a := only(s.res(e[2][1]))) and a[0] == 'ld' and links.field_of(a[1][0]) == 'S' and \
                            a[1][1] and a[1][1][0][0] == 'i' and (j := only(links.lin(a[1][1][0][1], const(a[1][1][0][1][0]), -1))) and j[0] in ('phi', 'in'):
                        J = f.insts.get(j[2])
                        if J is not None and J.op == 'phi' and any(rises(f, J, v) for pb, v in J.inc):
                            ctx.violation('%s: hidden edges are restored in the order they were hidden' % e[3].where(), e[3])
                if 'gp_RestoreEdge' in cs and how == 'loop' and b:
                    size = (was('theStack'), (('f', 'size'),))
                    now = s.heap.get(size)
                    if now is not None:
                        top = links.atom(('ld', (was('theStack', 'S'), (('i', links.lin(links.atom(('ld', size, 0)), const(1), -1)),)), 0))
                        left = links.atom(('ld', (was('theStack', 'S'), (('i', s.res(now)),)), 0)) if now[0] != 'ptr' else top
                        if not any(e[1] == 'gp_RestoreEdge' and s.res(e[2][1]) in (top, left) for e in s.events if e[0] == 'call'):
                            ctx.violation('%s: an edge is taken from the stack of hidden edges and not restored' % f.name, f.blocks[b].insts[0])
    base = {f.name for f in m.defs.values() for I in f.insts.values() if I.op == 'store' and 'v' in I.a[1] and not f.isarg(I.a[1]['v']) and
            (g := f.insts.get(I.a[1]['v'])) is not None and g.op == 'getelementptr' and (ir.lastfield(g) or (0, 0))[1] == 'size'}
    sizers, cg = set(base), m.callgraph()
    while more := {f for f in cg if f not in sizers and sizers & cg[f]}:
        sizers |= more
    for f in m.defs.values():
        if not any(I.cname() == '_HideInternalEdges' for I in f.calls()):
            continue
        T = links.Seg(m, axioms=links.axioms, through=True)
        T.watch = lambda s, args: T.read(s, ('ptr', T.read(s, ('ptr', args[0], (('f', 'theStack'),)), True), (('f', 'size'),))) if args and args[0] == links.atom(('arg', 0)) else None
        T.bumps = lambda I: ('size',) if '?' in m.callees(I) or sizers & set(m.callees(I)) else ()
        for s, how, x in T.run(f):
            h = [e for e in s.events if e[0] == 'call' and e[1] == '_HideInternalEdges']
            if how != 'ret' or not h or x is not None and s.res(x) == const(0) or overflown(s):
                continue
            ok = s.res(links.atom(('ret', '_HideInternalEdges', h[0][3].id, ())))
            n += 1
            r = [e for e in s.events if e[0] == 'call' and e[1] in ('_RestoreInternalEdges', '_RestoreHiddenEdges')]
            if not r:
                ctx.violation('%s: hidden edges are not restored on a path that succeeds' % h[0][3].where(), h[0][3])
            elif s.res(r[-1][4]) != (began := s.res([e for e in s.events if e[0] == 'after' and e[3] is h[0][3]][0][2])) and \
                    s.facts.get(('neg', links.lin(began, s.res(r[-1][4]), -1))) is not False:
                ctx.violation('%s: the stack is not where it was when the last edge was hidden' % r[-1][3].where(), r[-1][3])
            elif s.res(r[-1][2][1]) != s.res(h[0][4]):
                ctx.violation('%s: hidden edges are restored down to another place than where they begin' % r[-1][3].where(), r[-1][3])
    return n


def overflown(s):
    """The path asks whether a position read from the stack lies beyond its capacity, and goes on as if it did."""
    def names(n):
        return {lastname(a[1]): c for a, c in n[1] if a[0] == 'ld'}
    lastname = links.lastname
    for q, t in s.facts.items():
        if q[0] == 'neg' and len(q[1][1]) == 2:
            w = names(q[1])
            if set(w) == {'size', 'capacity'} and w['size'] == -w['capacity'] and \
                    (w['capacity'] == 1 and q[1][0] >= 0 and t or w['size'] == 1 and q[1][0] <= -1 and not t):
                return True
    return False


def linkers(m):
    """Functions that write links of arcs, vertices or list nodes."""
    for f in m.defs.values():
        for I in f.insts.values():
            if I.op == 'store' and 'v' in I.a[1] and not f.isarg(I.a[1]['v']):
                g = f.insts.get(I.a[1]['v'])
                hit = None
                while g is not None and g.op == 'getelementptr' and hit is None:
                    l = ir.lastfield(g)
                    if l:
                        hit = l
                        break
                    g = f.insts.get(g.a[0]['v']) if 'v' in g.a[0] and not f.isarg(g.a[0]['v']) else None
                if hit and hit[1] in ('link', 'next', 'prev') and hit[0] != 'struct.graphExtension':
                    yield f
                    break


BLANK = ('_InitEdgeRec', '_InitVertexRec')            # the values of unused records


def run(ctx):
    m = ctx.mod(thread=False)
    ctx.rule = ('Every path through every piece of code between loop heads is summarised as the record fields it writes, in terms of the state the piece starts in: '
                'links written must be mutual, list ends must have nothing beyond them, and what a link pointed to before must not point back. The edge operations '
                'are summarised whole: what a successful, refused, deleting, hiding and restoring path leaves in the counts, the records and the list of released pairs.')
    ctx.assumptions = ['Distinct symbolic records on a path are taken to be distinct unless the path tests them for equality.',
                       'The lists are intact when an operation starts.', 'Loops are not followed round; what they change is forgotten.']
    slots = m.slot_targets()
    hides = {'gp_HideEdge', 'gp_RestoreEdge', 'gp_ContractEdge', '_HideInternalEdges'} | set(slots.get('fpHideEdge', ()))
    alter = hides | {f.name for f in linkers(m)} | {'gp_AddEdge', 'gp_InsertEdge', 'gp_DeleteEdge', 'gp_DynamicAddEdge', '_RestoreHiddenEdges', '_RestoreInternalEdges'}
    R = Report(ctx, 'links')
    for f in linkers(m):
        if f.name in BLANK:
            continue
        ctx.count('functions')
        turned, turnedv, rets = False, [], 0
        for S, s, how, x in segments(m, f, lambda I: '?' in m.callees(I) or bool(alter & set(m.callees(I)))):
            bad, k, sw = Segment(S, s).check()
            ctx.count('segments')
            ctx.count('links', k)
            for t, I in bad:
                R.violation('%s: %s' % (I.where(), t), I)
            turned = turned or 'E' in sw
            if how == 'ret':
                turnedv.append('V' in sw)
        if turned and not all(turnedv):
            R.violation('%s: the arcs of a list are turned round without its two ends' % f.name, f.blocks[0].insts[0])
    S = links.Seg(m, inline=INLINE, axioms=links.axioms)
    ctx.count('restored_paths', roundtrips(Report(ctx, 'restore'), m, S))
    ctx.count('insertion_paths', insertion(Report(ctx, 'insert'), m, S, 'gp_AddEdge') + insertion(Report(ctx, 'insert'), m, S, 'gp_InsertEdge') + dynamic(Report(ctx, 'insert'), m))
    ctx.count('deletion_paths', deletion(Report(ctx, 'delete'), m, S))
    ctx.count('moved_paths', moved(Report(ctx, 'identify'), m, hides))
    ctx.count('hidings', stacked(Report(ctx, 'hide'), m, slots))
    ctx.need('functions', 18)
    ctx.need('links', 500)
    ctx.need('restored_paths', 16)
    ctx.need('insertion_paths', 60)
    ctx.need('deletion_paths', 16)
    ctx.need('moved_paths', 4)
    ctx.need('hidings', 5)
