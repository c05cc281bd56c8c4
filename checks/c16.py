"""C16: results are a function of the inputs: no clock, random number, address or environment influences them."""
import sim, effects

RANDOM_API = {'gp_CreateRandomGraph', 'gp_CreateRandomGraphEx', '_GetRandomNumber'}
# application commands whose purpose is to generate random graphs
RANDOM_APP = {'RandomGraphs', 'RandomGraph', 'GenerateRandomGraphs', 'MakeGraph'}
CLOCKS = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'times'}
RANDS = {'rand', 'random', 'rand_r', 'drand48', 'lrand48', 'arc4random'}
OTHER = {'getenv', 'secure_getenv', 'getpid', 'getppid', 'tmpnam', 'tempnam', 'mktemp', 'getrandom', 'gethostname', 'getuid', 'setlocale', 'uname'}
SINKS = {'srand', 'sprintf', 'snprintf', 'fprintf', 'printf'}


def taint_time(f, params=frozenset(), depth=0):
    """Values and variables derived from a clock reading.  params: {(index, field or None)} already derived.
    Returns the uses that decide something, and the number of clock readings."""
    t = {k for k, fl in params if fl is None}
    mem = {(('arg', k), fl) for k, fl in params}
    src = [I for I in f.calls() if I.cname() in CLOCKS]
    if not src and not params:
        return [], 0
    ch = True

    def loc(v):
        k = sim.static_key(f, v)
        return sim.resolve_base(f, v), (k if isinstance(k, tuple) and k[0] not in ('al', 'g') else None)

    def inmem(v):
        r, k = loc(v)
        return any(r == r2 and (k == k2 or k is None or k2 is None) for r2, k2 in mem)
    while ch:
        ch = False
        for I in f.insts.values():
            if I.id in t:
                continue
            hot = False
            if I.op == 'call':
                hot = I.cname() in CLOCKS
            elif I.op == 'load':
                hot = inmem(I.a[0])
            elif I.op == 'phi':
                hot = any(v.get('v') in t for _, v in I.inc)
            elif I.op == 'store':
                l = loc(I.a[1])
                if I.a[0].get('v') in t and l[0] != ('?',) and l not in mem:
                    mem.add(l)
                    ch = True
                continue
            elif I.op == 'getelementptr':
                continue
            else:
                hot = any(a.get('v') in t for a in I.a) and I.op not in ('br', 'switch', 'ret')
            if hot:
                t.add(I.id)
                ch = True
    bad = []
    for I in f.insts.values():
        if I.op in ('br', 'switch') and I.a and I.a[0].get('v') in t:
            # choosing between two ways of printing a duration joins again in a value; a branch whose arms store or call is a decision
            if decides(f, I, t):
                bad.append((I, 'decides a branch'))
        elif I.op == 'store' and I.a[0].get('v') in t:
            r, k = loc(I.a[1])
            if r[0] != 'al' and (k is None or k[0] not in ('struct.platform_time', 'struct.testAllStats')):
                bad.append((I, 'is stored in %s' % (k,)))
        elif I.op == 'call' and I.cname() not in CLOCKS:
            n = I.cname()
            hot = set()
            for j, a in enumerate(I.a):
                if a.get('v') in t:
                    hot.add((j, None))
                elif 'v' in a:
                    r = sim.resolve_base(f, a)
                    hot |= {(j, k) for r2, k in mem if r2 == r and r[0] in ('al', 'arg')}
            if hot and n in f.mod.defs and depth < 4:
                bad += taint_time(f.mod.defs[n], frozenset(hot), depth + 1)[0]
            elif any(k is None for _, k in hot) and n not in SINKS and not (n or '').startswith('llvm.'):
                bad.append((I, 'is passed to %s' % (n or 'a function')))
        elif I.op == 'ret' and I.a and I.a[0].get('v') in t:
            bad.append((I, 'is returned'))
        elif I.op == 'getelementptr' and any(p['k'] == 'idx' and p['v'].get('v') in t for p in I.path):
            bad.append((I, 'indexes memory'))
    return bad, len(src)


def decides(f, br, t):
    """Arms that do more than compute values (store, call, return) before they join."""
    if br.op == 'switch':
        return True
    seen, work = set(), list(br.succ)
    arms = [reach_from(f, s) for s in br.succ]
    only = (arms[0] ^ arms[1]) if len(arms) == 2 else set()
    # blocks reachable from one arm only, plus the arms themselves when they do not dominate the join
    for s in br.succ:
        if len(f.blocks[s].preds) == 1:
            only.add(s)
    for b in only:
        for I in f.blocks[b].insts:
            if I.op in ('store', 'ret', 'switch') or I.op == 'call' and not (I.cname() or '').startswith('llvm.'):
                return True
    return False


def reach_from(f, b):
    seen, st = set(), [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += f.blocks[x].succs()
    return seen


def run(ctx):
    ctx.rule = ('Sources of run-to-run variation (random numbers, clocks, environment, process identity, address values, ordering comparisons of unrelated '
                'pointers) are enumerated in the whole program. In the library random numbers may only be drawn by the random graph generators and clocks may not '
                'be read at all; in the application, clock readings may only be printed or used to seed; no function outside the random graph commands reaches a generator.')
    m = ctx.mod()
    cg = m.callgraph()
    users = {}
    for f in sorted(m.defs.values(), key=lambda f: f.name):
        lib = effects.is_lib(f)
        ctx.count('functions')
        for I in f.insts.values():
            if I.op == 'call':
                n = I.cname()
                if n in RANDS or n in CLOCKS or n in OTHER or n == 'srand':
                    ctx.count('variation_sources')
                if n in OTHER:
                    ctx.violation('%s:%s' % (f.name, n), '%s depends on the environment through %s' % (f.name, n), I.where())
                if n in RANDS:
                    users.setdefault(f.name, I)
                if lib and n in CLOCKS:
                    ctx.violation('%s:%s' % (f.name, n), 'library function %s reads the clock' % f.name, I.where())
                if n == 'srand':
                    if lib:
                        ctx.violation('%s:srand' % f.name, 'library function %s reseeds the random number generator' % f.name, I.where())
            elif I.op == 'ptrtoint':
                # differences between pointers into one string (strchr(s) - s) are the only address arithmetic allowed
                us = f.uses.get(I.id, ())
                if not all(U.op == 'sub' for U in us):
                    ctx.violation('%s:address' % f.name, '%s uses the numeric value of an address' % f.name, I.where())
                ctx.count('address_values')
            elif I.op == 'icmp' and I.pred in ('ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'):
                if all(isptr(f, a) for a in I.a):
                    ctx.count('pointer_orderings')
                    if sim.resolve_base(f, I.a[0]) != sim.resolve_base(f, I.a[1]):
                        ctx.violation('%s:ordering' % f.name, '%s orders two unrelated addresses' % f.name, I.where())
        bad, n = taint_time(f)
        ctx.count('clock_readings', n)
        for I, why in bad:
            ctx.violation('%s:clock' % f.name, 'a clock reading in %s %s' % (f.name, why), I.where())
    # who draws random numbers
    for f in users:
        if f not in RANDOM_API:
            ctx.violation('%s:rand' % f, '%s draws random numbers' % f, users[f].where())
    rnd = {n for n in RANDS}
    reach = {}
    ch = True
    drawing = set(users)
    while ch:
        ch = False
        for n, cs in cg.items():
            if n not in drawing and n in m.defs and cs & drawing:
                drawing.add(n)
                ch = True
    for n in sorted(drawing):
        f = m.defs[n]
        if effects.is_lib(f) and n not in RANDOM_API:
            ctx.violation('%s:random' % n, 'library function %s depends on random numbers' % n, f.name)
        if not effects.is_lib(f):
            ctx.count('application_functions_reaching_random_numbers')
            if n not in RANDOM_APP and not (cg[n] & drawing <= RANDOM_APP | {'RandomGraphs', 'RandomGraph', 'callRandomGraphs', 'callRandomMaxPlanarGraph',
                                            'callRandomNonplanarGraph', 'commandLine', 'legacyCommandLine', 'menu'}):
                ctx.violation('%s:random' % n, '%s depends on random numbers' % n, f.name)
    ctx.need('variation_sources', 5)
    ctx.need('functions', 300)


def isptr(f, v):
    if 'g' in v or v.get('null') or v.get('ce') == 'gep':
        return True
    if 'v' in v:
        i = f.insts.get(v['v'])
        return (i.ty if i is not None else f.args[v['v']][1]) == 'ptr'
    return False
