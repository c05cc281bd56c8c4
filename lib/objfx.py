"""Effects on objects: what a function certainly does to the fields of the objects it is given.

Access paths name storage relative to the parameters: ('a0','E','[]','link').
A must-effect is one whose block dominates every successful exit of the
function, on the control flow graph from which failure branches (null
pointers, graph of order 0) are pruned; effects inside a counting loop that
has no early exit are lifted to the range of the loop.  Calls to functions of
the program are expanded.
"""
import ir, sim

LOSS = ('?',)


# ---- linear forms: dict atom -> coefficient, atom () is the constant
def lin_add(a, b, k=1):
    if a is None or b is None:
        return None
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if not r[x]:
            del r[x]
    return r


def lin_mul(a, b):
    if a is None or b is None:
        return None
    if set(a) <= {()}:
        a, b = b, a
    if not set(b) <= {()}:
        return None
    k = b.get((), 0)
    return {x: c * k for x, c in a.items() if c * k}


def lin_key(a):
    return None if a is None else tuple(sorted(a.items(), key=repr))


def lin_str(a):
    if a is None:
        return '?'
    return ' + '.join('%s%s' % ('' if c == 1 and x else '%d*' % c if x else c, '.'.join(map(str, x))) for x, c in sorted(a.items(), key=repr)) or '0'


def subst_path(p, m):
    """Rewrite an access path by the parameter map m: 'a0' -> path."""
    if p and p[0] in m:
        q = m[p[0]]
        return q + p[1:] if q is not None else LOSS
    return p


def subst_lin(l, m):
    if l is None:
        return None
    r = {}
    for x, c in l.items():
        if x and x[0] in m:
            q = m[x[0]]
            if q is None:
                return None
            if isinstance(q, dict):
                if len(x) > 1:
                    return None
                for y, d in q.items():
                    r[y] = r.get(y, 0) + c * d
                continue
            x = q + x[1:]
        r[x] = r.get(x, 0) + c
    return {x: c for x, c in r.items() if c}


class Fx:
    """One certain effect."""
    __slots__ = ('path', 'kind', 'val', 'len', 'rng', 'I')

    def __init__(self, path, kind, val=None, len=None, rng=None, I=None):
        self.path, self.kind, self.val, self.len, self.rng, self.I = path, kind, val, len, rng, I

    def __repr__(self):
        r = '.'.join(self.path) + ' ' + self.kind
        if self.val is not None:
            r += ' ' + ('.'.join(self.val) if isinstance(self.val, tuple) else lin_str(self.val) if isinstance(self.val, dict) else str(self.val))
        if self.len is not None:
            r += ' len ' + lin_str(self.len)
        if self.rng:
            r += ' for [%s, %s)' % (lin_str(self.rng[0]), lin_str(self.rng[1]))
        return r


class Analysis:
    """flags: {(struct, field): int} integer fields assumed to have a value (for two-mode functions)."""

    def __init__(self, m, flags=None, attach=False):
        self.m, self.flags, self.memo, self.attach = m, flags or {}, {}, attach

    # ---- paths and linear forms
    def path(self, f, v, depth=0):
        if depth > 40:
            return LOSS
        if 'g' in v:
            return ('g:' + v['g'],)
        if 'fn' in v:
            return ('fn:' + v['fn'],)
        if v.get('null'):
            return ('null',)
        if v.get('ce') == 'gep':
            return self.ext(f, self.path(f, v['base'], depth + 1), v['path'])
        if 'v' not in v:
            return LOSS
        i = f.insts.get(v['v'])
        if i is None:
            return ('a%d' % v['v'],)
        if i.op == 'getelementptr':
            return self.ext(f, self.path(f, i.a[0], depth + 1), i.path)
        if i.op == 'bitcast':
            return self.path(f, i.a[0], depth + 1)
        if i.op == 'alloca':
            return ('al%d' % i.id,)
        if i.op == 'load':
            p = self.path(f, i.a[0], depth + 1)
            if p[0].startswith('al') and len(p) == 1:
                return ('*' + p[0],)
            return p
        if i.op in ('phi', 'select'):
            ops = [x[1] for x in i.inc] if i.op == 'phi' else i.a[1:]
            ps = set()
            for o in ops:
                if o.get('v') == i.id or o.get('null'):
                    continue
                if 'v' in o and o['v'] in f.insts and f.insts[o['v']].op in ('phi', 'select') and depth > 4:
                    return LOSS
                ps.add(self.path(f, o, depth + 5))
            return ps.pop() if len(ps) == 1 else LOSS
        if i.op == 'call':
            return ('r%d:%s' % (i.id, i.cname() or '?'),)
        return LOSS

    def ext(self, f, p, gp):
        if p == LOSS:
            return LOSS
        out = list(p)
        for k, x in enumerate(gp):
            if x['k'] == 'fld':
                out.append(x['f'])
            else:
                if k == 0 and 'c' in x['v'] and x['v']['c'] == 0:
                    continue
                out.append('[%s]' % (x['v']['c'] if 'c' in x['v'] else 'v%d' % x['v']['v'] if 'v' in x['v'] else '?'))
        return tuple(out)

    def lin(self, f, v, depth=0):
        if 'c' in v:
            return {(): v['c']} if v['c'] else {}
        if 'v' not in v or depth > 30:
            return None
        i = f.insts.get(v['v'])
        if i is None:
            eq = self.eqs(f)
            return {eq.get(v['v'], ('a%d' % v['v'],)): 1}
        if i.op in ('sext', 'zext', 'trunc'):
            return self.lin(f, i.a[0], depth + 1)
        if i.op == 'add':
            return lin_add(self.lin(f, i.a[0], depth + 1), self.lin(f, i.a[1], depth + 1))
        if i.op == 'sub':
            return lin_add(self.lin(f, i.a[0], depth + 1), self.lin(f, i.a[1], depth + 1), -1)
        if i.op == 'mul':
            return lin_mul(self.lin(f, i.a[0], depth + 1), self.lin(f, i.a[1], depth + 1))
        if i.op == 'shl' and 'c' in i.a[1]:
            return lin_mul(self.lin(f, i.a[0], depth + 1), {(): 1 << i.a[1]['c']})
        if i.op == 'load':
            p = self.path(f, i.a[0])
            return None if p == LOSS else {p: 1}
        if i.op in ('phi', 'call', 'sdiv', 'select', 'ashr', 'udiv'):
            return {('v%d' % i.id,): 1}
        return None

    def eqs(self, f):
        """Integer parameters that are stored into a field of another parameter: param -> that field."""
        k = ('eq', f.name)
        if k not in self.memo:
            r = {}
            for I in f.insts.values():
                if I.op == 'store' and 'v' in I.a[0] and f.isarg(I.a[0]['v']) and f.args[I.a[0]['v']][1] != 'ptr':
                    p = self.path(f, I.a[1])
                    if p[0].startswith(('a', '*al')) and len(p) == 2 and p[1] == 'N':
                        r[I.a[0]['v']] = p
            self.memo[k] = r
        return self.memo[k]

    # ---- pruned control flow
    def cfg(self, f):
        succ = {}
        for B in f.blocks:
            t = B.term
            ss = B.succs()
            if t.op == 'br' and len(t.succ) == 2:
                c = self.known(f, t.a[0])
                if c is not None:
                    ss = [t.succ[0] if c else t.succ[1]]
            succ[B.id] = ss
        seen, work = {0}, [0]
        while work:
            for s in succ[work.pop()]:
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        return {b: [s for s in succ[b]] for b in seen}

    def known(self, f, v):
        i = f.insts.get(v.get('v'))
        if i is None:
            return None
        if i.op == 'xor' and i.a[1].get('c') in (1, -1, True):
            k = self.known(f, i.a[0])
            return None if k is None else not k
        if i.op != 'icmp':
            return None
        l, r = i.a
        if r.get('null') or l.get('null'):
            k = f.insts.get((l if r.get('null') else r).get('v'))
            if k is not None and k.op == 'phi' and any(k.blk.id in f.blocks[pb].succs() and pb >= k.blk.id for pb, _ in k.inc):
                return None     # end of a list walk
            n = self.first_lookup(f, i, l if r.get('null') else r)
            return (i.pred == 'ne') != n
        if 'c' not in r:
            return None
        j = f.insts.get(l.get('v'))
        while j is not None and j.op in ('zext', 'sext', 'trunc'):
            j = f.insts.get(j.a[0].get('v'))
        val = None
        if j is not None and j.op == 'load':
            key = sim.static_key(f, j.a[0])
            if key in self.flags:
                val = self.flags[key]
            elif key == ('struct.baseGraphStructure', 'N') and r['c'] == 0:
                val = 7
        elif j is None and r['c'] == 0 and 'v' in l and f.isarg(l['v']) and ('a%d' % l['v']) and l['v'] in self.eqs(f):
            val = 7
        if val is None:
            return None
        return {'eq': val == r['c'], 'ne': val != r['c'], 'slt': val < r['c'], 'sle': val <= r['c'], 'sgt': val > r['c'], 'sge': val >= r['c']}.get(i.pred)

    def first_lookup(self, f, i, v):
        """The value tested is what a lookup of the extension found, in a function that attaches it: not yet there."""
        if not self.attach:
            return False
        l = f.insts.get(v.get('v'))
        if l is None:
            return False
        if l.op == 'call':
            return l.cname() == 'gp_GetExtension' or False
        if l.op != 'load' or 'v' not in l.a[0] or l.a[0]['v'] not in f.insts or f.insts[l.a[0]['v']].op != 'alloca':
            return False
        al = l.a[0]['v']
        # the last write before the load in its block (or in a chain of single predecessors)
        b, k = l.blk, l.idx - 1
        for _ in range(50):
            while k >= 0:
                J = b.insts[k]
                if J.op == 'store' and J.a[1].get('v') == al:
                    return bool(J.a[0].get('null'))
                if J.op == 'call' and any(a.get('v') == al for a in J.a):
                    return True
                k -= 1
            if len(b.preds) != 1:
                return False
            b = f.blocks[b.preds[0]]
            k = len(b.insts) - 1
        return False

    def exits(self, f, cfg):
        """Blocks from which the function succeeds: (block) list."""
        out = []
        for b in cfg:
            t = f.blocks[b].term
            if t.op != 'ret':
                continue
            if not t.a:
                out.append(b)
                continue
            work, seen = [(t.a[0], b)], set()
            while work:
                v, blk = work.pop()
                if (repr(v), blk) in seen:
                    continue
                seen.add((repr(v), blk))
                i = f.insts.get(v.get('v')) if 'v' in v else None
                if i is not None and i.op == 'phi' and self.forward(f, i.blk.id, blk):
                    for pb, x in i.inc:
                        if pb in cfg and i.blk.id in cfg[pb] and not self.nulledge(f, pb, i.blk.id, x):
                            work.append((x, pb))
                elif v.get('null') or v.get('c') == 0:
                    continue
                elif i is not None and i.op == 'load' and i.blk.id == blk and i.a[0].get('v') in f.insts and f.insts[i.a[0]['v']].op == 'alloca':
                    out += self.held(f, cfg, i.a[0]['v'], blk, i.idx - 1)
                else:
                    out.append(blk)
        return sorted(set(out))

    def nulledge(self, f, pb, b, v):
        """On the edge pb -> b the value v was just found to be null (or 0)."""
        t = f.blocks[pb].term
        if t.op != 'br' or len(t.succ) != 2 or t.succ[0] == t.succ[1] or 'v' not in v:
            return False
        c = f.insts.get(t.a[0].get('v'))
        return (c is not None and c.op == 'icmp' and c.pred in ('eq', 'ne') and c.a[0].get('v') == v['v'] and
                (c.a[1].get('null') or c.a[1].get('c') == 0) and (b == t.succ[0]) == (c.pred == 'eq'))

    def held(self, f, cfg, al, b, k, n=0):
        """Blocks from which control reaches instruction k of block b with a local that may be other than null."""
        B = f.blocks[b]
        while k >= 0:
            J = B.insts[k]
            if J.op == 'store' and J.a[1].get('v') == al:
                return [] if J.a[0].get('null') or J.a[0].get('c') == 0 else [b]
            if J.op == 'call' and any(a.get('v') == al for a in J.a):
                return [] if all(J.a[x].get('v') == al for x in sim.call_clears(self.m, J)) and sim.call_clears(self.m, J) else [b]
            k -= 1
        ps = [p for p in B.preds if p in cfg and b in cfg[p]]
        if n > 6 or any(I.op not in ('load', 'ret', 'phi', 'br') for I in B.insts) or len(B.succs()) > 1:
            return [b]
        out = []
        for p in ps:
            P = f.blocks[p]
            t = P.term
            if len(P.succs()) > 1:
                # branching on the local itself being null
                if t.op == 'br':
                    c = f.insts.get(t.a[0].get('v'))
                    if c is not None and c.op == 'icmp' and c.pred in ('eq', 'ne') and c.a[1].get('null') and c.blk.id == p:
                        l = f.insts.get(c.a[0].get('v'))
                        if l is not None and l.op == 'load' and l.a[0].get('v') == al and (b == t.succ[0]) == (c.pred == 'eq'):
                            continue
                        # stored here, then tested
                        st = [J for J in P.insts if J.op == 'store' and J.a[1].get('v') == al]
                        if st and st[-1].a[0].get('v') is not None and st[-1].a[0]['v'] == c.a[0].get('v') and (b == t.succ[0]) == (c.pred == 'eq'):
                            continue
            out += self.held(f, cfg, al, p, len(P.insts) - 1, n + 1)
        return out

    def forward(self, f, a, b):
        """Block a is b, or only passes control on to b."""
        for _ in range(8):
            B = f.blocks[a]
            if a == b:
                return B.term.op == 'ret' or all(I.op in ('phi', 'br') for I in B.insts)
            if len(B.succs()) != 1 or any(I.op not in ('phi', 'br') for I in B.insts):
                return False
            a = B.succs()[0]
        return False

    def dom(self, cfg):
        pred = {b: [] for b in cfg}
        for b, ss in cfg.items():
            for s in ss:
                pred[s].append(b)
        D = {b: set(cfg) for b in cfg}
        D[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in cfg:
                if b == 0:
                    continue
                ps = [D[p] for p in pred[b]]
                n = set.intersection(*ps) if ps else set()
                n = n | {b}
                if n != D[b]:
                    D[b] = n
                    ch = True
        return D, pred

    def loops(self, cfg, D, pred):
        """header -> (body set, latches)."""
        L = {}
        for b, ss in cfg.items():
            for h in ss:
                if h in D[b]:
                    body, work = {h, b}, [b]
                    while work:
                        x = work.pop()
                        if x == h:
                            continue
                        for p in pred[x]:
                            if p not in body:
                                body.add(p)
                                work.append(p)
                    if h in L:
                        L[h] = (L[h][0] | body, L[h][1] | {b})
                    else:
                        L[h] = (body, {b})
        return L

    def counting(self, f, cfg, h, body, latches, good):
        """(iv phi id, lo, hi) for a counting loop with header exit only, else None."""
        t = f.blocks[h].term
        if t.op != 'br' or len(t.succ) != 2:
            return None
        # early exits
        reach_good = self.coreach(cfg, good)
        for b in body:
            for s in cfg[b]:
                if s not in body and b != h and s in reach_good:
                    return None
        c = f.insts.get(t.a[0].get('v'))
        if c is None or c.op != 'icmp':
            return None
        stay = t.succ[0] in body
        pred = c.pred if stay else sim.NEG[c.pred]
        l, r = c.a
        for x, y, p in ((l, r, pred), (r, l, sim.SWAP[pred])):
            ph = f.insts.get(x.get('v'))
            off = 0
            while ph is not None and ph.op in ('sext', 'zext'):
                ph = f.insts.get(ph.a[0].get('v'))
            if ph is None or ph.op != 'phi' or ph.blk.id != h:
                continue
            lo = None
            step = None
            for pb, w in ph.inc:
                if pb in body:
                    j = f.insts.get(w.get('v'))
                    while j is not None and j.op in ('sext', 'trunc', 'zext'):
                        j = f.insts.get(j.a[0].get('v'))
                    if j is not None and j.op == 'add' and j.a[0].get('v') == ph.id and 'c' in j.a[1]:
                        step = j.a[1]['c'] if step in (None, j.a[1]['c']) else 'bad'
                    elif j is not None and j.op == 'add' and j.a[1].get('v') == ph.id and 'c' in j.a[0]:
                        step = j.a[0]['c'] if step in (None, j.a[0]['c']) else 'bad'
                    else:
                        step = 'bad'
                elif pb in cfg:
                    lo = self.lin(f, w) if lo is None else None
            hi = self.lin(f, y)
            if lo is None or hi is None:
                continue
            one = {(): 1}
            if step == 1 and p in ('slt', 'ne', 'ult'):
                return ph.id, lo, hi
            if step == 1 and p in ('sle', 'ule'):
                return ph.id, lo, lin_add(hi, one)
            if step == -1 and p in ('sgt', 'ne'):
                return ph.id, lin_add(hi, one), lin_add(lo, one)
            if step == -1 and p == 'sge':
                return ph.id, hi, lin_add(lo, one)
        return None

    def coreach(self, cfg, good):
        pred = {b: [] for b in cfg}
        for b, ss in cfg.items():
            for s in ss:
                pred[s].append(b)
        seen, work = set(good), list(good)
        while work:
            for p in pred[work.pop()]:
                if p not in seen:
                    seen.add(p)
                    work.append(p)
        return seen

    # ---- must effects
    def must(self, name, depth=0):
        """[Fx] of the named function in terms of its parameters."""
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = []
        f = self.m.defs.get(name)
        if f is None or depth > 12:
            return []
        cfg = self.cfg(f)
        good = self.exits(f, cfg)
        out = []
        if good:
            D, pred = self.dom(cfg)
            L = self.loops(cfg, D, pred)
            cnt = {h: self.counting(f, cfg, h, b, l, good) for h, (b, l) in L.items()}
            # a counter used after its loop has the loop's bound
            for h, c in list(cnt.items()):
                if c:
                    cnt[h] = (c[0],) + tuple(self.after(x, h, cnt, L) for x in c[1:])
            musts = set.intersection(*[D[g] for g in good])
            rets = [b for b in cfg if f.blocks[b].term.op == 'ret']
            if len(rets) == 1:
                musts = musts | set(rets)
            for b in cfg:
                # loops around this block
                around = [h for h, (body, l) in L.items() if b in body]
                if not around:
                    if b not in musts:
                        continue
                    ivs = {}
                else:
                    around.sort(key=lambda h: len(L[h][0]))
                    ok, ivs = True, {}
                    inner = b
                    for h in around:
                        if inner != h and cnt[h] is None:
                            ok = False
                            break
                        if inner == h:      # the header itself runs at least once
                            continue
                        if not all(inner in D[x] for x in L[h][1]):
                            ok = False
                            break
                        ivs[cnt[h][0]] = cnt[h]
                        inner = h
                    if not ok or inner not in musts:
                        continue
                for I in f.blocks[b].insts:
                    out += self.effects(f, I, ivs, depth)
        self.memo[name] = out
        return out

    def after(self, l, h, cnt, L):
        for h2, c in cnt.items():
            a = c and ('v%d' % c[0],)
            if c and l and h2 != h and h not in L[h2][0] and a in l and c[2]:
                k = l[a]
                l = lin_add({x: y for x, y in l.items() if x != a}, c[2], k)
        return l

    def norm(self, f, p, ivs):
        """Replace loop-variable indices by '[]' and return the range."""
        rng, q = None, []
        for x in p:
            if x.startswith('[v'):
                k = int(x[2:-1])
                i = f.insts.get(k)
                while i is not None and i.op in ('sext', 'zext'):
                    k = i.a[0].get('v')
                    i = f.insts.get(k)
                off = {}
                if i is not None and i.op in ('add', 'sub') and 'c' in i.a[1]:
                    off = {(): i.a[1]['c'] if i.op == 'add' else -i.a[1]['c']}
                    k = i.a[0].get('v')
                if k in ivs:
                    rng = (lin_add(ivs[k][1], off), lin_add(ivs[k][2], off))
                    q.append('[]')
                    continue
                if k is not None and f.isarg(k) and not off:
                    q.append('[a%d]' % k)
                    continue
                q.append('[?]')
                continue
            q.append(x)
        return tuple(q), rng

    def effects(self, f, I, ivs, depth):
        if I.op == 'store':
            p = self.path(f, I.a[1])
            if p == LOSS or p[0].startswith('al'):
                return []
            p, rng = self.norm(f, p, ivs)
            v = I.a[0]
            if v.get('null'):
                val = 0
            elif 'c' in v:
                val = v['c']
            else:
                val = self.path(f, v) if 'v' in v or 'g' in v or 'fn' in v else LOSS
                if 'v' in v and f.isarg(v['v']) and f.args[v['v']][1] != 'ptr':
                    val = LOSS      # a number: as a linear form
                if val == LOSS and 'v' in v:
                    val = self.lin(f, v)
                elif val != LOSS:
                    val, _ = self.norm(f, val, ivs)
            return [Fx(p, 'store', val, None, rng, I)]
        if I.op != 'call':
            return []
        n = I.cname()
        if n and n.startswith('llvm.memset') or n == 'memset':
            p, rng = self.norm(f, self.path(f, I.a[0]), ivs)
            return [Fx(p, 'memset', I.a[1].get('c'), self.lin(f, I.a[2]), rng, I)]
        if n and n.startswith(('llvm.memcpy', 'llvm.memmove')) or n in ('memcpy', 'memmove'):
            p, rng = self.norm(f, self.path(f, I.a[0]), ivs)
            s, r2 = self.norm(f, self.path(f, I.a[1]), ivs)
            return [Fx(p, 'copy', s, self.lin(f, I.a[2]), rng, I)]
        if n == 'free':
            p, rng = self.norm(f, self.path(f, I.a[0]), ivs)
            return [Fx(p, 'free', None, None, rng, I)]
        if n in ('malloc', 'calloc', 'realloc'):
            r = []
            if n == 'malloc':
                ln = self.lin(f, I.a[0])
            elif n == 'calloc':
                ln = lin_mul(self.lin(f, I.a[0]), self.lin(f, I.a[1]))
            else:
                ln = self.lin(f, I.a[1])
            # where is the block stored?
            for U in f.uses.get(I.id, ()):
                if U.op == 'store' and U.a[0].get('v') == I.id:
                    p = self.path(f, U.a[1])
                    r.append(Fx(p, n, None, ln, None, I))
            if any(U.op == 'ret' for U in f.uses.get(I.id, ())) or self.returned(f, I.id):
                r.append(Fx(('ret',), n, None, ln, None, I))
            return r
        res = []
        for c in self.m.callees(I)[:1] if n else []:
            if c not in self.m.defs:
                continue
            mp = {}
            for k, a in enumerate(I.a):
                if k < len(self.m.defs[c].args) and self.m.defs[c].args[k][1] == 'ptr':
                    p = self.path(f, a)
                    mp['a%d' % k] = None if p == LOSS else p
                else:
                    mp['a%d' % k] = self.lin(f, a)
            # an object returned by a constructor and stored in a field
            tgt = None
            for U in f.uses.get(I.id, ()):
                if U.op == 'store' and U.a[0].get('v') == I.id:
                    tgt = self.path(f, U.a[1])
            for e in self.must(c, depth + 1):
                m2 = dict(mp)
                # storage made by a constructor takes the name of the place it is stored in
                if tgt is not None:
                    for k in self.roots(e):
                        m2[k] = tgt
                if (e.path[0] == 'ret' or e.path[0].startswith('r')) and tgt is None:
                    continue
                q = self.sub(e.path, m2)
                if q == LOSS:
                    continue
                q = tuple(self.index(x, I) for x in q)
                val = e.val
                if isinstance(val, tuple):
                    if len(val) == 1 and isinstance(m2.get(val[0]), dict):
                        val = m2[val[0]]
                    else:
                        val = self.sub(val, m2)
                        if val != LOSS:
                            val, _ = self.norm(f, tuple(self.index(x, I) for x in val), ivs)
                elif isinstance(val, dict):
                    val = subst_lin(val, m2)
                q, r0 = self.norm(f, q, ivs)
                rng = e.rng and (subst_lin(e.rng[0], m2), subst_lin(e.rng[1], m2))
                res.append(Fx(q, e.kind, val, subst_lin(e.len, m2), rng or r0, e.I))
        return res

    def index(self, x, I):
        """Element index in the caller's terms: [aK] is the K-th argument of call I."""
        if not x.startswith('[a'):
            return x
        v = I.a[int(x[2:-1])]
        return '[%s]' % (v['c'] if 'c' in v else 'v%d' % v['v'] if 'v' in v else '?')

    def roots(self, e):
        r = set()
        for p in [e.path] + [x for d in (e.len, e.val if isinstance(e.val, dict) else None) + (e.rng or ()) if d for x in d]:
            if p and (p[0] == 'ret' or p[0].startswith('r') and ':' in p[0]):
                r.add(p[0])
        return r

    def sub(self, p, mp):
        if p and p[0] in mp:
            q = mp[p[0]]
            if isinstance(q, dict):
                return LOSS if len(p) > 1 else ('lin',) if q != {} else ('zero',)
            return LOSS if q is None else q + p[1:]
        if p and p[0].startswith('*a') and p[0][1:] in mp:
            q = mp[p[0][1:]]
            return LOSS if q is None or isinstance(q, dict) else q + p[1:]
        return p

    def returned(self, f, vid):
        seen, work = {vid}, [vid]
        while work:
            for U in f.uses.get(work.pop(), ()):
                if U.op == 'ret':
                    return True
                if U.op in ('phi', 'select', 'bitcast') and U.id not in seen:
                    seen.add(U.id)
                    work.append(U.id)
        return False
