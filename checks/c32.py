"""C32: every trip round a loop makes progress towards its end."""
import ir
from c30 import natural

PURE = ('strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strstr', 'strchr', 'strrchr', 'tolower', 'toupper', 'memcmp', 'atoi', 'abs', '__ctype_b_loc',
        '__ctype_tolower_loc', '__ctype_toupper_loc')


def base(f, v, n=0):
    """Class of the memory a pointer operand refers to: a field name, a local variable, an argument or other pointer."""
    while n < 50:
        n += 1
        if 'g' in v:
            return ('global', v['g'])
        if v.get('ce') == 'gep':
            l = ir.lastfield(v)
            if l:
                return ('field', l[1])
            v = v['base']
            continue
        if 'v' not in v or f.isarg(v['v']):
            return ('other',)
        I = f.insts.get(v['v'])
        if I is None:
            return ('other',)
        if I.op == 'alloca':
            return ('local', I.id)
        if I.op == 'getelementptr':
            l = ir.lastfield(I)
            if l:
                return ('field', l[1])
            v = I.a[0]
            continue
        if I.op == 'load':
            c = base(f, I.a[0], n)
            return ('in',) + c                    # what the pointer in that place points to
        return ('other',)
    return ('other',)


RINGS = ('fwdArcList', 'backArcList')


class Effects:
    """Classes of memory each function may write and read, through the calls it makes."""

    def __init__(self, m):
        self.m, self.w, self.r, self.x = m, {}, {}, {}
        for f in m.defs.values():
            w, r, x = set(), set(), False
            for I in f.insts.values():
                if I.op == 'store':
                    c = base(f, I.a[1])
                    if c[0] != 'local':
                        w.add(c)
                elif I.op == 'load':
                    c = base(f, I.a[0])
                    if c[0] != 'local':
                        r.add(c)
                elif I.op == 'call':
                    for n in m.callees(I):
                        if n not in m.defs and n not in PURE and not n.startswith('llvm.dbg') and not n.startswith('llvm.lifetime'):
                            if n.startswith('llvm.mem') or n in ('memset', 'memcpy', 'strcpy', 'strcat', 'strncpy', 'sprintf', 'snprintf'):
                                w |= {c for c in (base(f, I.a[0]),) if c[0] != 'local'}
                            else:
                                x = True
            self.w[f.name], self.r[f.name], self.x[f.name] = w, r, x
        cg = m.callgraph()
        ch = True
        while ch:
            ch = False
            for n in self.w:
                for g in cg[n]:
                    if g in self.w and (not self.w[g] <= self.w[n] or not self.r[g] <= self.r[n] or self.x[g] and not self.x[n]):
                        self.w[n] |= self.w[g]
                        self.r[n] |= self.r[g]
                        self.x[n] = self.x[n] or self.x[g]
                        ch = True

    def writes(self, f, I):
        """Classes an instruction may write; None for the call of something unknown."""
        if I.op == 'store':
            return {base(f, I.a[1])}
        r = set()
        for n in self.m.callees(I):
            if n in self.m.defs:
                r |= self.w[n]
            elif n.startswith('llvm.dbg') or n.startswith('llvm.lifetime') or n in PURE:
                continue
            else:
                r |= {('external',)}
        for a in I.a:
            if 'v' in a and not f.isarg(a['v']) and f.insts[a['v']].ty == 'ptr':
                c = base(f, a)
                if c[0] == 'local' and not (I.cname() or '').startswith('llvm.'):
                    r.add(c)
        return r

    def pure(self, I):
        return all(n in PURE or n in self.m.defs and not self.x[n] and not self.w[n] for n in self.m.callees(I))


class Loop:
    def __init__(self, m, E, f, h, body):
        self.m, self.E, self.f, self.h, self.body = m, E, f, h, body
        self.phis = {I.id: I for I in f.blocks[h].insts if I.op == 'phi'}
        self.exits = [(b, s) for b in body for s in f.blocks[b].succs() if s not in body]
        self.slice()

    def inside(self, v):
        I = self.f.insts.get(v.get('v')) if 'v' in v and not self.f.isarg(v['v']) else None
        return I if I is not None and I.blk.id in self.body else None

    def closure(self, roots):
        """What values in the loop are computed from: (instructions, classes of memory read, impure calls)."""
        f, seen, mem, calls = self.f, set(), set(), set()
        st = list(roots)
        while st:
            I = self.inside(st.pop())
            if I is None or I.id in seen:
                continue
            seen.add(I.id)
            if I.id in self.phis:
                continue
            if I.op == 'load':
                mem.add(base(f, I.a[0]))
            if I.op == 'call':
                if self.E.pure(I):
                    for n in self.m.callees(I):
                        mem |= self.E.r.get(n, set())
                        if n not in self.m.defs:
                            mem |= {base(f, a) for a in I.a if f.insts.get(a.get('v')) is None or f.insts[a['v']].ty == 'ptr'}
                else:
                    calls.add(I.id)
            if I.op == 'phi':
                for p in f.blocks[I.blk.id].preds:
                    t = f.blocks[p].term
                    if p in self.body and t.op in ('br', 'switch'):
                        st += list(t.a)
            st += [v for v in f.operands(I) if 'v' in v]
        return seen, mem, calls

    def slice(self):
        """What the tests that end the loop depend on, from one trip to the next."""
        f = self.f
        roots = []
        for b, s in self.exits:
            roots += f.blocks[b].term.a
        self.seen, self.mem, self.calls = self.closure(roots)
        # also what those loop variables are computed from: a variable may depend on another
        ch = True
        while ch:
            ch = False
            for p in [p for p in self.phis if p in self.seen]:
                ops = [v for b, v in self.phis[p].inc if b in self.body]
                s, mm, c = self.closure(ops)
                s |= {p}
                if not s <= self.seen or not mm <= self.mem or not c <= self.calls:
                    self.seen |= s
                    self.mem |= mm
                    self.calls |= c
                    ch = True
        self.vars = [p for p in self.phis if p in self.seen]
        self.want = self.wanted()

    def tests(self):
        """Comparisons that keep the loop going: (value, predicate that holds while it goes on, other value, comparison)."""
        f = self.f
        for b, s in self.exits:
            t = f.blocks[b].term
            if t.op != 'br' or len(t.succ) != 2:
                continue
            c, stay = self.inside(t.a[0]), t.succ[0] in self.body
            while c is not None and c.op == 'xor' and c.a[1].get('c') in (1, -1):
                c, stay = self.inside(c.a[0]), not stay
            if c is None or c.op != 'icmp':
                continue
            p = c.pred.lstrip('us') if c.pred[0] in 'us' else c.pred
            if not stay:
                p = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[p]
            yield c.a[0], p, c.a[1], c
            yield c.a[1], {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(p, p), c.a[0], c

    def plus(self, v, n=0):
        """A value as (what, constant added)."""
        c = 0
        for _ in range(20):
            I = self.inside(v)
            if I is None:
                break
            if I.op in ('add', 'sub') and 'c' in I.a[1]:
                c += I.a[1]['c'] if I.op == 'add' else -I.a[1]['c']
                v = I.a[0]
            elif I.op in ('sext', 'zext', 'trunc', 'freeze'):
                v = I.a[0]
            else:
                break
        return v, c

    def wanted(self):
        """Memory classes a test compares with something: class -> direction that ends the loop (None: either)."""
        r = {}
        for v, p, o, c in self.tests():
            I = self.inside(self.plus(v)[0])
            J = self.inside(self.plus(o)[0])
            if I is None or I.op != 'load' or J is not None and J.op == 'load' and base(self.f, J.a[0]) == base(self.f, I.a[0]):
                continue
            k = base(self.f, I.a[0])
            d = {'gt': -1, 'ge': -1, 'lt': 1, 'le': 1}.get(p)
            if p == 'ne' and o.get('c') == 0 and k == ('field', 'size'):
                d = -1
            r[k] = d if k not in r or r[k] == d else None
        return r

    def moves(self, I):
        """The instruction may change what the tests read, towards the end of the loop."""
        if I.op == 'store':
            k = base(self.f, I.a[1])
            d = self.want.get(k)
            if d is not None:
                v, c = self.plus(I.a[0])
                J = self.inside(v)
                if J is not None and J.op == 'load' and base(self.f, J.a[0]) == k and c * d < 0:
                    return False
        if I.op == 'store' or I.op == 'call':
            w = self.E.writes(self.f, I)
            if w & self.mem or ('other',) in w and any(c[0] in ('other', 'in') for c in self.mem):
                return True
        return I.op == 'call' and I.id in self.calls

    def settled(self, v, path, same):
        """The value this way round computes is the same on the next trip along it, as long as the given loop variables are."""
        f, seen, mem = self.f, set(), set()
        st, top = [(v, len(path))], True
        while st:
            v, at = st.pop()
            I = self.inside(v)
            if I is None and top:
                return False                      # a value from outside or a constant: a change
            if I is None or (I.id, at) in seen:
                continue
            seen.add((I.id, at))
            top = top and I.op == 'phi' and I.id not in self.phis
            if I.id in self.phis:
                if I.id not in same:
                    return False
                continue
            if I.op == 'phi':
                n = max([i for i in range(1, at) if path[i] == I.blk.id], default=0)
                if not n:
                    return False
                st.append(([x for b, x in I.inc if b == path[n - 1]][0], n))
                continue
            if I.op == 'alloca' or I.op == 'call' and not self.E.pure(I):
                return False
            if I.op in ('load', 'call'):
                mem |= {base(f, I.a[0])} if I.op == 'load' else self.closure([v])[1]
            st += [(x, at) for x in f.operands(I) if 'v' in x]
        return not any(J.op in ('store', 'call') and self.E.writes(f, J) & mem for b in path for J in f.blocks[b].insts)

    def invariant(self, v):
        """The value is the same on every trip."""
        I = self.inside(v)
        if I is None:
            return False                          # a value from outside or a constant: a change
        s, mem, calls = self.closure([v])
        if calls or any(p in s for p in self.phis):
            return False
        if any(self.f.insts[x].op in ('alloca',) for x in s):
            return False
        for b in self.body:
            for J in self.f.blocks[b].insts:
                if J.op in ('store', 'call') and self.E.writes(self.f, J) & mem:
                    return False
        return True

    def leaves(self, p):
        """The values a loop variable may take for the next trip, choices resolved: [(value, constant added to it)]."""
        f, out, seen = self.f, [], set()
        st = [(v, 0) for b, v in self.phis[p].inc if b in self.body]
        while st:
            v, off = st.pop()
            v, c = self.plus(v)
            off += c
            I = self.inside(v)
            if I is not None and I.id not in self.phis and I.op in ('phi', 'select'):
                if (I.id, off) in seen or sum(i == I.id for i, o in seen) > 2:
                    continue
                seen.add((I.id, off))
                st += [(x, off) for x in ([x for b, x in I.inc] if I.op == 'phi' else I.a[1:])]
            else:
                out.append((v, off))
        return out

    def norm(self, v, c=0):
        """A value as (expression, constant added), also outside the loop."""
        f = self.f
        while 'v' in v and not f.isarg(v['v']):
            I = f.insts[v['v']]
            if I.op in ('add', 'sub') and 'c' in I.a[1]:
                c += I.a[1]['c'] if I.op == 'add' else -I.a[1]['c']
            elif I.op not in ('sext', 'zext', 'trunc', 'freeze'):
                break
            v = I.a[0]
        return (None, c + v['c']) if 'c' in v else (self.expr(v), c)

    def astray(self):
        """Loop variables stepped away from the limit they are compared with, or walked back and forth: [(text, instruction)]."""
        r = []
        for p in self.vars:
            steps, links = {}, {}
            ls = self.leaves(p)
            for v, c in ls:
                I = self.inside(v)
                if v.get('v') == p and c:
                    steps[c] = self.phis[p]
                elif I is not None and I.op == 'load':
                    l, ix = self.place(I.a[0])
                    if l in ('link', 'next', 'prev') and len(ix) > (l == 'link'):
                        k = ix[-1].get('c') if l == 'link' else l
                        if k is not None and self.plus(ix[0])[0].get('v') == p:
                            links[k] = I
            dirs = {1 if c > 0 else -1 for c in steps}
            ts = [q for v, q, o, c in self.tests() if self.plus(v)[0].get('v') == p]
            want = {{'gt': -1, 'ge': -1, 'lt': 1, 'le': 1}.get(q) for q in ts} - {None}
            if want and dirs and not dirs & want and all(self.inside(v) is not None for v, c in ls):
                r.append(('a counter is stepped away from the limit it is compared with', list(steps.values())[0]))
            elif ts and len(dirs) > 1 and len(want) < 2:
                bad = [steps[c] for c in steps if (1 if c > 0 else -1) not in want] if want else list(steps.values())
                r.append(('a counter is stepped up on one way round the loop and down on another', bad[0]))
            begin = {self.norm(v) for b, v in self.phis[p].inc if b not in self.body}
            again = [v for v, c in ls if v.get('v') != p and any((k, n - t) in begin for k, n in [self.norm(v, c)] for t in [0] + list(steps))]
            if want and steps and again:
                r.append(('a counter is set back to where it started', list(steps.values())[0]))
            turn = [self.inside(v) for v, c in ls if self.inside(v) is not None and (v.get('v') != p or c)]
            if ts and turn and all(I.op == 'xor' and I.a[0].get('v') == p and 'c' in I.a[1] for I in turn) and len(self.vars) == 1:
                r.append(('a value only changes back and forth between two', turn[0]))
            if len(links) > 1 and not self.chosen(p):
                r.append(('a list is walked forwards on one way round the loop and backwards on another', list(links.values())[-1]))
        return r

    def ends(self, t):
        return t.op == 'br' and bool(t.a) and any(s not in self.body for s in t.succ)

    def constant(self, t):
        """A branch out of the loop that goes the same way on every trip."""
        if not self.ends(t) or 'c' in t.a[0]:
            return False
        return self.inside(t.a[0]) is None or self.fixed(t.a[0])

    def joined(self, b):
        """Blocks of the same condition (parts joined by && or ||)."""
        f, r = self.f, set()
        quiet = lambda x: not any(I.op == 'store' for I in f.blocks[x].insts)
        x = b
        while True:                               # parts after this one
            n = [s for s in f.blocks[x].succs() if s in self.body]
            if len(n) != 1 or n[0] == self.h or n[0] in r or not self.ends(f.blocks[n[0]].term) or not quiet(n[0]):
                break
            x = n[0]
            r.add(x)
        x = b
        while x != self.h:                        # parts before it
            n = f.blocks[x].preds
            if len(n) != 1 or n[0] in r or not self.ends(f.blocks[n[0]].term) or not quiet(x):
                break
            x = n[0]
            r.add(x)
        return r

    def idle(self):
        """The test the loop is written with has the same outcome on every trip: the branch or None."""
        f = self.f
        latch = [b for b in self.body if self.h in f.blocks[b].succs()]
        for b in {self.h} | set(latch):
            t = f.blocks[b].term
            if self.constant(t) and not any(self.ends(f.blocks[x].term) and not self.constant(f.blocks[x].term) for x in self.joined(b)):
                return t
        return None

    def expr(self, v, n=0):
        """A value written out, for comparing two places that compute the same."""
        f = self.f
        if 'v' not in v or f.isarg(v['v']) or n > 12:
            return str(sorted((k, str(x)) for k, x in v.items() if k in ('v', 'c', 'g')))
        I = f.insts[v['v']]
        if I.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.expr(I.a[0], n + 1)
        if I.op == 'load':
            return ('load', self.expr(I.a[0], n + 1))
        if I.op == 'getelementptr':
            return ('at', self.expr(I.a[0], n + 1), tuple(self.expr(e['v'], n + 1) if e['k'] == 'idx' else str(sorted((k, str(x)) for k, x in e.items())) for e in I.path))
        if I.op in ('add', 'sub', 'xor', 'and'):
            return (I.op,) + tuple(self.expr(x, n + 1) for x in I.a)
        return I.id

    def closed(self):
        """Values that this function makes the successor of the last record of a list: heads of rings made here."""
        f, r = self.f, set()
        for I in f.insts.values():
            if I.op == 'store' and 'v' in I.a[0]:
                k, ix = self.place(I.a[1])
                J = f.insts.get(self.plain(ix[0]).get('v')) if k == 'link' and len(ix) > 1 and ix[-1].get('c') == 0 else None
                if J is not None and J.op == 'load':
                    k, ix = self.place(J.a[0])
                    if k == 'link' and len(ix) > 1 and ix[-1].get('c') == 1:
                        r.add(I.a[0]['v'])
        return r

    def plain(self, v):
        while 'v' in v and not self.f.isarg(v['v']) and self.f.insts[v['v']].op in ('sext', 'zext', 'trunc', 'freeze'):
            v = self.f.insts[v['v']].a[0]
        return v

    def comes_from(self, v, ids):
        st, seen = [v], set()
        while st:
            v = st.pop()
            if 'v' not in v or v['v'] in seen:
                continue
            if v['v'] in ids:
                return True
            seen.add(v['v'])
            I = None if self.f.isarg(v['v']) else self.f.insts[v['v']]
            if I is not None and I.op == 'phi':
                st += [x for b, x in I.inc]
        return False

    def rings(self):
        """Walks of a list that is closed into a ring: [(variable, field, told when round)]."""
        f, r = self.f, []
        for p, I in self.phis.items():
            heads = []
            for b, v in I.inc:
                J = f.insts.get(v.get('v')) if b not in self.body and 'v' in v and not f.isarg(v['v']) else None
                if J is not None and J.op == 'load':
                    k = base(f, J.a[0])
                    if k[0] == 'field' and k[1] in RINGS:
                        heads.append((k[1], v))
            steps = []
            for v, c in self.leaves(p):
                J = self.inside(v)
                if J is not None and J.op == 'load':
                    if self.place(J.a[0])[0] == 'link':
                        steps.append(v)
            made = self.closed() if steps and not heads else ()
            if made and any(self.comes_from(v, made) for b, v in I.inc if b not in self.body):
                told = any(J.op == 'icmp' and J.pred in ('eq', 'ne') and any('c' not in c and self.expr(a) == self.expr(x) for x in steps for a, c in ((J.a[0], J.a[1]), (J.a[1], J.a[0])))
                           for b in self.body for J in f.blocks[b].insts)
                r.append((I, 'made here', told))
            if not heads or not steps:
                continue
            home = {self.expr(v) for k, v in heads}
            told = False
            for b in self.body:
                for J in f.blocks[b].insts:
                    if J.op == 'icmp' and J.pred in ('eq', 'ne'):
                        for a, c in ((J.a[0], J.a[1]), (J.a[1], J.a[0])):
                            if self.expr(c) in home and (a.get('v') == p or any(self.expr(a) == self.expr(x) for x in steps)):
                                told = True
            r.append((I, heads[0][0], told))
        return r

    def place(self, v):
        """(field, indices) of an address."""
        f, name, ix = self.f, None, []
        while 'v' in v and not f.isarg(v['v']):
            I = f.insts[v['v']]
            if I.op != 'getelementptr':
                break
            l = ir.lastfield(I)
            name = name or (l[1] if l else None)
            ix = [e['v'] for e in I.path if e['k'] == 'idx'] + ix
            v = I.a[0]
        return name, ix

    def chosen(self, p):
        """The loop variable is chosen between by a test with the same outcome on every trip."""
        for b in self.body:
            for I in self.f.blocks[b].insts:
                if I.op == 'select' or I.op == 'br' and I.a:
                    c = I.a[0]
                    if self.inside(c) is None or self.fixed(c):
                        return True
        return False

    def fixed(self, v):
        seen, mem, calls = self.closure([v])
        return not calls and not any(x in self.phis for x in seen) and not any(self.E.writes(self.f, J) & mem for b in self.body for J in self.f.blocks[b].insts if J.op in ('store', 'call'))

    def excused(self, path):
        """The way round is only taken as long as a test says so that looks at something this way changes."""
        f = self.f
        edges = list(zip(path, path[1:]))
        changed = set()
        for b, s in edges:
            if s == self.h:
                for p, I in self.phis.items():
                    v = [x for pb, x in I.inc if pb == b][0]
                    if p not in self.vars and v.get('v') != p and not self.invariant(v):
                        changed.add(p)
        written = set()
        for b in path:
            for I in f.blocks[b].insts:
                if I.op in ('store', 'call'):
                    written |= self.E.writes(f, I)
        sources = set()
        for p in self.vars:
            for b, v in self.phis[p].inc:
                if b in self.body:
                    sources |= {x for x in self.closure([v])[0] if f.insts[x].op != 'phi'}
        good = {b for b in self.body if any(self.moves(I) or I.id in sources and I.op in ('add', 'sub', 'load', 'getelementptr', 'call', 'select') for I in f.blocks[b].insts)}
        for b, s in edges:
            t = f.blocks[b].term
            for o in f.blocks[b].succs():
                if o == s or o not in self.body or not t.a:
                    continue
                seen, mem, calls = self.closure(t.a)
                if not (seen & changed or mem & written):
                    continue
                st, been = [o], {self.h}
                while st:
                    x = st.pop()
                    if x in been or x not in self.body:
                        continue
                    been.add(x)
                    if x in good:
                        return True
                    st += f.blocks[x].succs()
        return False

    def stuck(self):
        """A way round the loop on which nothing the tests depend on changes: [blocks] or None."""
        f = self.f
        start = (self.h, frozenset((p, p) for p in self.vars))
        st, seen = [(start, (self.h,))], {start}
        feeds, todo = set(), [x for p in self.vars for b, x in self.phis[p].inc if b in self.body]
        while todo:
            I = self.inside(todo.pop())
            if I is not None and I.op == 'phi' and I.id not in self.phis and I.id not in feeds:
                feeds.add(I.id)
                todo += [x for b, x in I.inc]
        still = {b: not any(self.moves(I) for I in f.blocks[b].insts) for b in self.body}
        if not still[self.h]:
            return None
        while st:
            (b, al), path = st.pop()
            for s in f.blocks[b].succs():
                if s not in self.body:
                    continue
                d = {a: p for a, p in al}
                if s == self.h:
                    new = {p: [x for pb, x in self.phis[p].inc if pb == b][0] for p in self.vars}
                    same = {p for p, v in new.items() if d.get(v.get('v')) == p or self.invariant(v)}
                    grow = True
                    while grow and len(same) < len(new):
                        grow = False
                        for p in set(new) - same:
                            if self.settled(new[p], path, same):
                                same.add(p)
                                grow = True
                    if len(same) == len(new) and not self.excused(list(path) + [s]):
                        return list(path) + [s]
                    continue
                if not still[s]:
                    continue
                n = dict(d)
                for I in f.blocks[s].insts:
                    if I.op == 'phi':
                        n.pop(I.id, None)
                        for pb, x in I.inc:
                            if pb == b and x.get('v') in d:
                                n[I.id] = d[x['v']]
                            if pb == b and I.id in feeds:      # ways on which it gets another value are told apart
                                n[-I.id - 1] = d.get(-x['v'] - 1, x['v']) if 'v' in x else -1
                    elif I.op in ('select',):
                        n.pop(I.id, None)
                        q = {d.get(x.get('v')) for x in I.a[1:]}
                        if q - {None}:
                            n[I.id] = (q - {None}).pop()
                    elif I.op in ('freeze', 'bitcast') and I.a[0].get('v') in n:
                        n[I.id] = n[I.a[0]['v']]
                k = (s, frozenset(n.items()))
                if k not in seen and len(seen) < 20000:
                    seen.add(k)
                    st.append((k, path + (s,)))
        return None


def stepping(m):
    """Helpers that step values of their caller given by reference: looked at together with the loops that call them."""
    r = set()
    for f in m.defs.values():
        loops = natural(f)
        ids = {b for h, body in loops for b in body}
        for I in f.calls():
            n = I.cname()
            if I.blk.id in ids and n in m.defs and n != f.name and any(
                    'v' in a and not f.isarg(a['v']) and f.insts[a['v']].op == 'alloca' and f.insts[a['v']].aty == 'i32' for a in I.a):
                r.add(n)
    for f in m.defs.values():                     # and the other helpers that are given the same values
        held = {a['v'] for I in f.calls() if I.cname() in r for a in I.a if 'v' in a and not f.isarg(a['v']) and f.insts[a['v']].op == 'alloca'}
        r |= {I.cname() for I in f.calls() if I.cname() in m.defs and any(a.get('v') in held for a in I.a if 'v' in a)}
    r |= {g for n in r for g in m.callgraph()[n] if g in m.defs and any(
        J.op == 'call' and J.cname() == g and any(m.defs[n].isarg(a['v']) for a in J.a if 'v' in a) for J in m.defs[n].calls())
        and any(J.op == 'store' and 'v' in J.a[1] and m.defs[g].isarg(J.a[1]['v']) for J in m.defs[g].insts.values())}
    return tuple(sorted(r))


def run(ctx):
    m = ctx.mod(thread=False)
    m = ctx.mod(thread=False, drop=stepping(m))
    ctx.rule = ('For every loop: no way round it leaves every value the ending tests depend on unchanged (a loop variable, memory the tests read, '
                'what a call delivers; the size of the work stack and other counters in memory count only when they move towards the limit); the test the '
                'loop is written with can change; counters are stepped towards the limit they are compared with, never both ways nor back to their start; a list is walked in '
                'one direction; a walk of a ring of edge records compares its position with where the ring starts.')
    ctx.assumptions = ['a list link read from a record leads on to another record (the list itself is well formed)',
                       'a way round the loop taken only while a test on something it changes says so is left sooner or later']
    E = Effects(m)
    for f in m.defs.values():
        for h, body in natural(f):
            L = Loop(m, E, f, h, body)
            ctx.count('loops')
            ctx.count('variables_that_end_loops', len(L.vars))
            where = f.blocks[h].term.where()
            for t, I in L.astray():
                nm = ir_name(L, I)
                ctx.violation('astray:%s:%s' % (f.name, nm), '%s: %s' % (f.name, t), I.where())
            t = L.idle()
            if t is not None:
                ctx.violation('idle:%s' % f.name, '%s: the test that ends a loop has the same outcome on every trip' % f.name, t.where())
            for I, k, told in L.rings():
                ctx.count('ring_walks')
                if not told:
                    ctx.violation('ring:%s:%s' % (f.name, k), '%s: a walk of a ring of edge records (%s) is not ended when it is back where the ring starts' % (f.name, k), where)
            p = L.stuck()
            if p:
                trail = [f.blocks[b].term.where() for b in p]
                what = sorted({L.phis[x].nm or 'a value' for x in L.vars}) + sorted({c[-1] for c in L.mem if c[0] == 'field' or len(c) > 2})
                ctx.violation('progress:%s:%s' % (f.name, ','.join(what)), '%s: a way round this loop changes nothing that its ending depends on (%s)' % (f.name, ', '.join(map(str, what)) or 'nothing'), where, trail)
    ctx.need('loops', 200)
    ctx.need('ring_walks', 5)


def ir_name(L, I):
    return {'load': 'list', 'phi': 'counter'}.get(getattr(I, 'op', ''), 'value')
