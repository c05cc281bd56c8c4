"""C22: command lines run the command they name, and the exit status tells its result."""
import ir, sim, kinds

MERGE = ('commandLine', 'legacyCommandLine', 'callRandomGraphs', 'callSpecificGraph', 'callRandomMaxPlanarGraph', 'callRandomNonplanarGraph',
         'callTransformGraph', 'callTestAllGraphs', 'runQuickRegressionTests')
# command -> possible results
CMD = {'SpecificGraph': (1, -1, 0), 'RandomGraph': (1, -1, 0), 'RandomGraphs': (1, 0), 'TransformGraph': (1, 0), 'TestAllGraphs': (1, 0),
       'runSpecificGraphTests': (0, -1), 'helpMessage': (1,), 'menu': (0,), 'gp_Embed': (1, -1, 0)}
LIB = {'gp_Read': (1, -1, 0), 'gp_Write': (1, 0), 'gp_SortVertices': (1, 0)}
# commands that work through many graphs or none, and so have no verdict of their own
MANY = {'RandomGraphs', 'TransformGraph', 'TestAllGraphs', 'testAllGraphs'}

I_, O_, P_ = 'in.txt', 'out.txt', 'out2.txt'
N0 = None
# command line -> (command, arguments as texts, characters, numbers or None) or 'error'
CASES = []
for q in ((), ('-q',)):
    for l in 'p4':
        c = '-' + l
        CASES += [(('-s',) + q + (c, I_, O_), ('SpecificGraph', (ord(l), I_, O_, N0, N0, N0, N0))),
                  (('-s',) + q + (c, I_, O_, P_), ('SpecificGraph', (ord(l), I_, O_, P_, N0, N0, N0))),
                  (('-s',) + q + (c, I_), 'error'),
                  (('-r',) + q + (c, '10', '7'), ('RandomGraphs', (ord(l), 10, 7))),
                  (('-r',) + q + (c, '10'), 'error'),
                  (('-t',) + q + (c, I_, O_), ('TestAllGraphs', (c, I_, O_, N0))),
                  (('-t',) + q + (c, I_), 'error')]
    CASES += [(('-rm',) + q + ('9', O_), ('RandomGraph', (ord('p'), 0, 9, O_, N0))),
              (('-rm',) + q + ('9', O_, P_), ('RandomGraph', (ord('p'), 0, 9, O_, P_))),
              (('-rm',) + q + ('9',), 'error'),
              (('-rn',) + q + ('9', O_), ('RandomGraph', (ord('p'), 1, 9, O_, N0))),
              (('-rn',) + q + ('9', O_, P_), ('RandomGraph', (ord('p'), 1, 9, O_, P_))),
              (('-rn',) + q + ('9',), 'error'),
              (('-x',) + q + ('-a', I_, O_), ('TransformGraph', ('-a', I_, N0, N0, O_, N0))),
              (('-x',) + q + ('-g', I_, O_), ('TransformGraph', ('-g', I_, N0, N0, O_, N0))),
              (('-x',) + q + ('-a', I_), 'error'),
              (('-test',) + q, ('runSpecificGraphTests', ('samples',))),
              (('-test',) + q + ('dir',), ('runSpecificGraphTests', ('dir',)))]
    for o in ('-s', '-r', '-t', '-x', '-rm', '-rn', '-z', '-', '-S', '-he', '-rx'):
        CASES.append(((o,) + q, 'error'))
    for o in ('-z', '-rx', '-S'):
        CASES.append(((o,) + q + ('-p', I_, O_), 'error'))
CASES += [(('-h',), ('helpMessage', (N0,))), (('-help',), ('helpMessage', (N0,))), (('-h', '-menu'), ('helpMessage', ('-menu',))), (('-help', '-menu'), ('helpMessage', ('-menu',))),
          (('-i',), ('helpMessage', ('-i',))), (('-info',), ('helpMessage', ('-info',))), ((), ('menu', ())),
          ((I_, O_), ('legacy', (I_, O_, None))), ((I_, O_, '-n', P_), ('legacy', (I_, O_, P_))), ((I_, O_, '-x', P_), ('legacy', (I_, O_, None))), ((I_,), ('legacy', (I_, None, None)))]


class Args(sim.Client):
    """Evaluates main() for one command line.  State: (command and result, ...), quiet mode set, failed."""

    def __init__(self, m, f, words):
        self.m, self.f, self.words = m, f, ('planarity',) + words
        self.rets = []

    def init(self, s, st):
        st.facts[0] = (len(self.words), len(self.words), ())
        st.facts[1] = (1, sim.INF, ())
        for i in range(len(self.words)):
            st.facts[('argv', i)] = (1, sim.INF, ())
        st.cl = ((), False, False)

    def text(self, v):
        """The text an address points to: literals and command line arguments."""
        off = 0
        if isinstance(v, tuple) and v[0] == 'a' and len(v[2]) == 1 and v[2][0][0] == 'i' and v[2][0][1][0] == 'c':
            off, v = v[2][0][1][1], v[1] if v[1][0] == 's' else ('a', v[1], ())
        t = None
        if isinstance(v, tuple) and v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'argv' and v[2] == 0:
            t = self.words[v[1][1]]
        elif isinstance(v, tuple) and v[0] == 'a' and v[1][0] == 'g' and not v[2]:
            t = self.m.string({'g': v[1][1]})
        return t[off:] if t is not None and off <= len(t) else None

    def load(self, s, st, I, addr, val):
        if addr == sim.TOP:
            return None
        b, p = (addr[1], addr[2]) if addr[0] == 'a' else (addr, ())
        if b == ('s', 1, 0):
            k = 0 if not p else st.const(p[0][1]) if len(p) == 1 and p[0][0] == 'i' else None
            if k is None:
                return None
            return ('s', ('argv', k), 0) if 0 <= k < len(self.words) else ('c', 0)
        t = self.text(('a', b, ()) if b[0] == 'g' else b)
        if t is not None and I.ty == 'i8':
            k = 0 if not p else st.const(p[0][1]) if len(p) == 1 and p[0][0] == 'i' else None
            if k is not None and 0 <= k <= len(t):
                return ('c', ord(t[k]) if k < len(t) else 0)
        return None

    def val(self, st, v):
        t = self.text(v)
        if t is not None:
            return t
        c = st.const(v)
        return None if c == 0 else c if c is not None else '?'

    def call(self, s, st, I, args):
        n = I.cname()
        done, quiet, failed = st.cl
        if n in ('strcmp', 'strncmp'):
            a, b = self.text(args[0]), self.text(args[1])
            k = st.const(args[2]) if n == 'strncmp' else 10 ** 6
            if a is not None and b is not None and k is not None:
                a, b = a[:k], b[:k]
                st.env[I.id] = ('c', (a > b) - (a < b))
                return [st]
        if n == 'strlen' and self.text(args[0]) is not None:
            st.env[I.id] = ('c', len(self.text(args[0])))
            return [st]
        if n in ('strchr', 'strrchr') and self.text(args[0]) is not None and st.const(args[1]) is not None:
            t, c = self.text(args[0]), st.const(args[1]) & 255
            k = len(t) if c == 0 else t.find(chr(c)) if n == 'strchr' else t.rfind(chr(c))
            if k < 0:
                st.env[I.id] = ('c', 0)
                return [st]
        if n in ('atoi', 'strtol') and self.text(args[0]) is not None:
            t = self.text(args[0])
            d = ''.join(c for i, c in enumerate(t) if c.isdigit() or i == 0 and c == '-')
            st.env[I.id] = ('c', int(d) if d.strip('-') else 0)
            return [st]
        if n == 'setQuietModeSetting':
            st.cl = (done, st.const(args[0]) != 0, failed)
        if n == 'gp_New':
            s.default_call(st, I, args)
            a, b = st, st.copy()
            a.setrng(I.id, 1, sim.INF, ())
            b.env[I.id] = ('c', 0)
            b.cl = (done, quiet, True)
            return [a, b]
        if n in CMD or n in LIB:
            vs = tuple(self.val(st, a) for a in args)
            res = []
            for r in CMD.get(n) or LIB[n]:
                x = st.copy()
                s.default_call(x, I, args)
                x.env[I.id] = ('c', r)
                x.facts.pop(I.id, None)
                x.cl = (done + ((n, vs, r),), x.cl[1], failed or n in LIB and r == 0)
                res.append(x)
            return res
        return None

    def ret(self, s, st, I, val):
        lo, hi, ne = st.rng(val)
        self.rets.append((st.cl, lo if lo == hi else None, I, sim.trail(st)))


def expect(done, want, words):
    """(wrong, expected kind of exit status)"""
    cmds = [d for d in done if d[0] in CMD]
    if want == 'error':
        run = [d for d in cmds if d[0] != 'helpMessage']
        return ('runs %s although the command line is not usable' % run[0][0] if run else None), 'error'
    name, args = want
    if name == 'legacy':
        rd = [d for d in done if d[0] == 'gp_Read']
        em = [d for d in done if d[0] == 'gp_Embed']
        wr = [d for d in done if d[0] == 'gp_Write']
        oth = [d for d in cmds if d[0] != 'gp_Embed']
        if oth:
            return 'runs %s' % oth[0][0], None
        if len(rd) != 1 or rd[0][1][1] != args[0]:
            return 'does not read the file named first', None
        if rd[0][2] == 0:
            return ('goes on after the file could not be read' if em or wr else None), 'error'
        if len(em) != 1 or em[0][1][1] != 1:
            return 'does not make one planarity test', None
        r = em[0][2]
        out = args[1] if r == 1 else args[2] if r == -1 else None
        fl = any(d[2] == 0 for d in done if d[0] in LIB)
        if [w[1][1] for w in wr] != ([out] if out and not any(d[2] == 0 for d in done if d[0] == 'gp_SortVertices') else []):
            return 'writes %s, not %s, for a result that is %s' % (', '.join(str(w[1][1]) for w in wr) or 'nothing', out or 'nothing', {1: 'OK', -1: 'NONEMBEDDABLE', 0: 'NOTOK'}[r]), None
        return None, 'error' if r == 0 or fl or r == 1 and not out else 0
    if len(cmds) != 1:
        return 'runs %s, not %s' % (' and '.join(d[0] for d in cmds) or 'nothing', name), None
    d = cmds[0]
    if d[0] != name:
        return 'runs %s, not %s' % (d[0], name), None
    if d[1] != tuple(a if a != 0 else None for a in args):
        return 'runs %s with arguments %s, not %s' % (name, d[1], args), None
    if name == 'runSpecificGraphTests':
        return None, 0 if d[2] == 0 else 'error'
    if name == 'menu':
        return None, 0
    return None, {1: 0, -1: 1, 0: 'error'}[d[2]]


class Verdict(sim.Client):
    """Which verdict of an embedding a command hands on.  State: verdict of the last embedding."""

    def __init__(self, m, f, rs):
        self.m, self.f, self.rs = m, f, rs
        self.bad = {}

    def init(self, s, st):
        st.cl = None

    def call(self, s, st, I, args):
        n = I.cname()
        if n == 'gp_Embed':
            rs = (1, -1, 0)
        elif n == 'gp_TestEmbedResultIntegrity':
            v = args[2]
            a, b = st, st.copy()
            for x, r in ((a, v), (b, ('c', 0))):
                s.default_call(x, I, args)
                x.env[I.id] = r
                x.facts.pop(I.id, None)
            return [a, b]
        elif n and I.ty == 'i32' and (n in kinds.STATUS or -1 in (self.rs.get(n) or ()) and n in self.m.defs) and n not in kinds.NEG1:
            r = self.rs.get(n)
            rs = tuple(x for x in (1, -1, 0) if r is None or x in r)
            if n in MANY:
                rs = (1, 0)
            if len(rs) < 2:
                return None
        else:
            return None
        out = []
        for r in rs:
            x = st.copy()
            s.default_call(x, I, args)
            x.env[I.id] = ('c', r)
            x.facts.pop(I.id, None)
            if n == 'gp_Embed' or n in CMD and CMD[n] == (1, -1, 0):
                x.cl = r
            out.append(x)
        return out

    def ret(self, s, st, I, val):
        lo, hi, ne = st.rng(val)
        maybe = lambda c: lo <= c <= hi and c not in ne
        if maybe(-1) and (st.cl != -1 or self.f.name in MANY):
            self.bad.setdefault('verdict', (I, 'reports NONEMBEDDABLE %s' % ('for a whole file or run' if st.cl == -1 else 'although no algorithm found that'), sim.trail(st)))
        if maybe(1) and st.cl == -1 and self.f.name not in MANY:
            self.bad.setdefault('lost', (I, 'reports OK although the graph was found not embeddable', sim.trail(st)))


def run(ctx):
    ctx.rule = ('main(), with the command line processing merged into it, is evaluated for each documented form of the command line, with and without -q, and for unusable ones: the command run, its arguments, '
                'quiet mode, and the exit status for each possible result must be the documented ones. In each command, NONEMBEDDABLE is returned only for the verdict of an algorithm on the one graph, and that '
                'verdict is not lost')
    ctx.assumptions = ['the table of command lines in checks/c22.py is that of the help text (reviewed)']
    m = ir.load(drop=MERGE)
    f = m.fn('main')
    ms, rs = sim.compute_modsets(m), sim.compute_retsets(m)
    for n in list(CMD) + list(LIB):
        m.fn(n)
    for words, want in CASES:
        ctx.count('command_lines')
        c = Args(m, f, words)
        sim.Sim(m, f, c, K=64, modsets=ms, retsets=rs).run()
        line = 'planarity ' + ' '.join(words)
        if not c.rets:
            raise ir.AnalysisError('no outcome for %s' % line)
        for (done, quiet, failed), r, I, tr in c.rets:
            ctx.count('outcomes')
            bad, code = expect(done, want, words) if not (failed and not done) else (None, 'error')
            if bad:
                ctx.violation('run:%s' % line, 'the command line "%s" %s' % (line, bad), f.file, tr)
                continue
            if quiet != (len(words) > 1 and words[1] == '-q'):
                ctx.violation('quiet:%s' % line, 'the command line "%s" %s quiet mode' % (line, 'turns on' if quiet else 'does not turn on'), f.file, tr)
            if r is None:
                ctx.violation('status:%s' % line, 'the exit status of "%s" is not determined by the result' % line, I.where(), tr)
                continue
            what = ', '.join('%s gives %d' % (d[0], d[2]) for d in done if d[0] in CMD) or 'nothing run'
            if code == 'error' and (r & 255) in (0, 1) or code != 'error' and (r & 255) != code:
                ctx.violation('status:%s' % line, 'the exit status of "%s" is %d, not %s (%s)' % (line, r & 255, code, what), I.where(), tr)
    m = ctx.mod()
    ms, rs = sim.compute_modsets(m), sim.compute_retsets(m)
    for n in ('SpecificGraph', 'RandomGraph', 'RandomGraphs', 'TransformGraph', 'TestAllGraphs', 'testAllGraphs'):
        f = m.fn(n)
        ctx.count('commands')
        c = Verdict(m, f, rs)
        sim.Sim(m, f, c, K=96 if ctx.thorough else 24, modsets=ms, retsets=rs).run()
        for k, (I, msg, tr) in c.bad.items():
            ctx.violation('%s:%s' % (n, k), '%s %s' % (n, msg), I.where(), tr)
    ctx.need('outcomes', 80)
