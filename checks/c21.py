"""C21: in quiet mode nothing is written to the console except what a caller explicitly asked to have written there."""
import sim, ir, effects

WRITES = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3}
ALWAYS = {'printf', 'puts', 'putchar', 'perror', 'vprintf'}
Q = ('s', ('Q',), 0)
# functions that only run in the interactive menu
INTERACTIVE_ROOT = 'menu'
COMMAND_ROOTS = ('commandLine', 'legacyCommandLine')


def stream_params(m):
    """function -> parameters that are streams it (or a callee) writes to."""
    res = {n: set() for n in m.defs}
    ch = True
    while ch:
        ch = False
        for f in m.defs.values():
            for k in range(len(f.args)):
                if f.args[k][1] != 'ptr' or k in res[f.name]:
                    continue
                seen, work, hit = {k}, [k], False
                while work and not hit:
                    x = work.pop()
                    for U in f.uses.get(x, ()):
                        if U.op in ('phi', 'select'):
                            if U.id not in seen:
                                seen.add(U.id)
                                work.append(U.id)
                        elif U.op == 'call':
                            for j, a in enumerate(U.a):
                                if a.get('v') == x:
                                    for c in m.callees(U):
                                        if WRITES.get(c) == j or c in res and j in res[c]:
                                            hit = True
                        elif U.op == 'store' and U.a[0].get('v') == x and sim.static_key(f, U.a[1]) == ('struct.strOrFile', 'pFile'):
                            hit = True
                if hit:
                    res[f.name].add(k)
                    ch = True
    return res


class C(sim.Client):
    def __init__(self, m, f, sp, ctx):
        self.m, self.fn, self.sp, self.ctx, self.bad, self.sites = m, f, sp, ctx, {}, set()

    def clsyms(self, cl):
        return (('Q',), ('STD', 'stdout'), ('STD', 'stderr'))

    def load(self, s, st, I, addr, val):
        if addr != sim.TOP and addr[0] == 'a' and addr[1][0] == 'g':
            g = addr[1][1]
            if g in ('stdout', 'stderr'):
                v = ('s', ('STD', g), 0)
                st.facts[('STD', g)] = (1, sim.INF, ())
                return v
            if g == 'quietMode':
                return Q
        return None

    def call(self, s, st, I, args):
        n = I.cname()
        if n == 'getQuietModeSetting':
            s.default_call(st, I, args)
            st.env[I.id] = Q
            return [st]
        hit = None
        if n in ALWAYS:
            hit = 'the console'
        else:
            for c in self.m.callees(I):
                for j, a in enumerate(args):
                    if a[0] == 's' and isinstance(a[1], tuple) and a[1][0] == 'STD':
                        if WRITES.get(c) == j or c in self.sp and j in self.sp[c]:
                            hit = a[1][1]
        if hit:
            self.sites.add(I.id)
            r = st.rng(Q)
            if not (r[0] == r[1] == 0) and not self.named(st):
                self.bad.setdefault(I.id, (I, hit, sim.trail(st)))
        return None

    def named(self, st):
        """The caller named the stream: a parameter compared equal to its name on this path."""
        for a, v in st.mem.items():
            if a[1] == ('pure', 'strcmp') and st.const(v) == 0:
                names = [self.m.string({'g': p[1][1][1]}) for p in a[2] if p[1][0] == 'a' and p[1][1][0] == 'g']
                if any(x in ('stdout', 'stderr') for x in names):
                    return True
        return False


def run(ctx):
    ctx.rule = ('Every call that writes to stdout or stderr (directly, or by passing the stream to a function that writes to that parameter) is examined on every '
                'feasible path to it: the quiet-mode setting must be known to be off there, or the caller must have named the stream ("stdout"/"stderr") as the '
                'place for the result.')
    m = ctx.mod()
    sp = stream_params(m)
    for f in sorted(m.defs.values(), key=lambda f: f.name):
        if not any(I.cname() in ALWAYS or I.cname() in WRITES or any(c in sp and sp[c] for c in m.callees(I)) for I in f.calls()):
            continue
        c = C(m, f, sp, ctx)
        s = sim.Sim(m, f, c, K=64 if ctx.thorough else 16)
        s.run()
        ctx.count('functions_examined')
        ctx.count('console_writes', len(c.sites))
        for I, hit, tr in c.bad.values():
            ctx.violation('%s:%s' % (f.name, I.cname() or 'call'), '%s writes to %s without regard to quiet mode' % (f.name, hit), I.where(), tr)
    # the switch reaches the library: each command that accepts it must pass it on
    callers = [(f, I) for f in m.defs.values() for I in f.calls() if I.cname() == 'setQuietModeSetting']
    ctx.count('quiet_switch_settings', len(callers))
    ctx.need('console_writes', 4)
