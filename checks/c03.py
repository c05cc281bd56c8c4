"""C03: everything obtained is released, handed over or kept reachable, on every path."""
import ir, sim, own, fail

ALLOWED = {
    ('_FreeExtension', 'context'): 'an extension may be registered without a routine to free its context',
}


def self_link(m, S, fl):
    """The field links to another object of the same kind (a list of them is walked by the caller)."""
    for f in m.structs[S]['fields']:
        if f[0] == fl:
            t = f[1].replace('const ', '').rstrip('*').replace('struct ', '')
            return 'struct.' + t == S or 'struct.' + t.rstrip('P') == S
    return False


def overwrites(f, j, S, fl):
    """f stores to field fl of its argument j, and also uses what the field holds."""
    work, seen, st, ld = [j], {j}, False, False
    while work:
        x = work.pop()
        for U in f.uses.get(x, ()):
            if U.op in ('phi', 'select') and U.id not in seen:
                seen.add(U.id)
                work.append(U.id)
            elif U.op == 'getelementptr' and U.a[0].get('v') == x and U.path and U.path[0]['k'] == 'fld' and (U.path[0]['s'], U.path[0]['f']) == (S, fl):
                for V in f.uses.get(U.id, ()):
                    if V.op == 'store' and V.a[1].get('v') == U.id and len(U.path) == 1:
                        st = True
                    if V.op == 'load' and any(W.op in ('call', 'getelementptr', 'load') for W in f.uses.get(V.id, ())):
                        ld = True
    return st and ld


def chained(m, S, fl):
    """The field is the head of a chain of records, changed link by link."""
    for f in m.structs[S]['fields']:
        if f[0] == fl:
            t = 'struct.' + f[1].replace('const ', '').rstrip('*').replace('struct ', '').strip()
            for t in (t, t.rstrip('P')):
                if t in m.structs and any(self_link(m, t, g[0]) for g in m.structs[t]['fields']):
                    return True
    return False


def run(ctx):
    ctx.rule = ('Each call that obtains a resource (malloc/calloc/strdup/realloc/fopen, and every function inferred to hand a fresh '
                'resource to its caller by return value or output parameter) starts a tracked ownership obligation; on every feasible path '
                'to the return of the function it must be released (free, fclose, or a function inferred to release that argument), '
                'handed over (returned, stored in an output parameter or in an owning field) - else it is leaked.')
    ctx.assumptions = ['a resource stored in a field that some function frees is owned by the containing object from then on',
                       'ownership summaries are inferred from the source; recursive cycles assume no effect']
    m = ctx.mod()
    o = own.get(m, 64 if ctx.thorough else 16)
    for fn in sorted(m.defs):
        o.alloc(fn)
    for fn, c in sorted(o.leaks.items()):
        ctx.count('functions_with_obligations', 1 if c.sites else 0)
        ctx.count('acquisition_sites', len(c.sites))
        ctx.count('abstract_states', c.steps)
        for (site, kind), (I, tr) in c.lost.items():
            src = m.defs[fn].insts[site]
            nm = fail.describe(m, src)
            if (fn, nm) in ALLOWED:
                ctx.count('excepted')
                continue
            msg = 'the resource obtained from %s (%s) is %s' % (
                nm, src.where(), 'lost when its container is freed' if kind == 'container' else 'neither released nor handed over')
            ctx.violation('%s:%s' % (fn, nm), msg, I.where(), tr)
        if c.gives:
            ctx.sample({'hands_over': fn, 'how': ['return value' if k is None else 'argument %d' % k for _, k in c.gives]}, 14)
    for n, j, content, S in o.destroyers():
        ctx.count('destroyers')
        for S2, fl in sorted(x for x in o.owning if x[0] == S):
            if self_link(m, S, fl):
                continue
            ctx.count('destroyed_fields')
            outs = set()
            f = m.defs[n]
            o._run(f, own.FieldClient(o, f, j, S, fl, content, outs))
            if not any(x[3] for x in outs):
                ctx.count('not_destroyed_here')
            if (n, fl) in ALLOWED and any(x[1] == 'free' for x in outs):
                ctx.count('excepted')
                continue
            for x in outs:
                if x[1] in ('keep', 'lost') and x[3]:
                    ctx.violation('%s:%s' % (n, fl), 'the object is freed on a path that does not release its field %s' % fl, f.name, x[4])
    # a field whose old content is used must not be overwritten while it still owns that content
    for n, f in sorted(m.defs.items()):
        for j in range(len(f.args)):
            if f.args[j][1] != 'ptr':
                continue
            for S, fl in sorted(o.owning):
                if self_link(m, S, fl) or chained(m, S, fl) or not overwrites(f, j, S, fl):
                    continue
                ctx.count('overwritten_fields')
                outs = set()
                o._run(f, own.FieldClient(o, f, j, S, fl, False, outs))
                for x in outs:
                    if x[1] == 'lost' and x[5] and not x[3]:
                        ctx.violation('%s:%s:overwritten' % (n, fl), 'what field %s holds is overwritten without being released or kept' % fl, f.name, x[4])
    ctx.count('owning_fields', len(o.owning))
    ctx.count('summaries', len(o.memo_par) + len(o.memo_con))
    ctx.need('acquisition_sites', 60)
    ctx.need('owning_fields', 20)
