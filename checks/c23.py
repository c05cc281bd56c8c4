"""C23: a command letter means the same algorithm, format and verdict everywhere."""
import ir, sim, c18

# letter -> (mode, extension it needs, text of the verdict when the result is OK / when it is not)
ALG = {'p': ('EMBEDFLAGS_PLANAR', None, 'is planar', 'is not planar'),
       'o': ('EMBEDFLAGS_OUTERPLANAR', None, 'is outerplanar', 'is not outerplanar'),
       'd': ('EMBEDFLAGS_DRAWPLANAR', 'gp_AttachDrawPlanar', 'is planar', 'is not planar'),
       '2': ('EMBEDFLAGS_SEARCHFORK23', 'gp_AttachK23Search', 'has no subgraph homeomorphic to K_{2,3}', 'has a subgraph homeomorphic to K_{2,3}'),
       '3': ('EMBEDFLAGS_SEARCHFORK33', 'gp_AttachK33Search', 'has no subgraph homeomorphic to K_{3,3}', 'has a subgraph homeomorphic to K_{3,3}'),
       '4': ('EMBEDFLAGS_SEARCHFORK4', 'gp_AttachK4Search', 'has no subgraph homeomorphic to K_4', 'has a subgraph homeomorphic to K_4')}
NAMES = {'p': 'PlanarEmbed', 'o': 'OuterplanarEmbed', 'd': 'DrawPlanar', '2': 'K23Search', '3': 'K33Search', '4': 'K4Search'}
FORMAT = {'g': ('WRITE_G6', 'G6'), 'a': ('WRITE_ADJLIST', 'AdjList'), 'm': ('WRITE_ADJMATRIX', 'AdjMat')}
ATTACH = {x[1] for x in ALG.values() if x[1]}
STR = ('GetAlgorithmChoices', 'GetSupportedOutputFormats')


def macro(name):
    import subprocess, os
    src = '#include "%s"\nMODEVAL %s\n' % (os.path.join(ir.REPO, 'c/graphLib/graph.h'), name)
    out = subprocess.run(['clang-18', '-E', '-P', '-x', 'c', '-'], input=src, capture_output=True, text=True).stdout
    for l in out.splitlines():
        if l.startswith('MODEVAL'):
            try:
                return int(eval(l[8:], {}))
            except Exception:
                break
    raise ir.AnalysisError('%s is not a known constant' % name)


class C(sim.Client):
    """Runs a function with the command letter fixed, evaluating tests of literals."""

    def __init__(self, an, f, param, letter, deep=False, fixed=()):
        self.an, self.m, self.f, self.param, self.letter, self.deep = an, an.m, f, param, letter, deep
        self.fixed = dict(fixed)
        self.rets, self.embeds, self.writes, self.texts = [], [], [], []

    def init(self, s, st):
        st.cl = ()
        if self.param is not None and not self.deep:
            st.facts[self.param] = (ord(self.letter), ord(self.letter), ())
        for i, v in self.fixed.items():
            st.facts[i] = (v, v, ())
        for i, a in enumerate(self.f.args):
            if a[1] == 'ptr' and i not in self.fixed and self.deep:
                st.facts.setdefault(i, (0, sim.INF, ()))

    def load(self, s, st, I, addr, val):
        if self.deep and addr != sim.TOP and addr[0] == 'a' and addr[1] == ('s', self.param, 0) or self.deep and addr == ('s', self.param, 0):
            p = addr[2] if addr[0] == 'a' else ()
            if not p:
                return ('c', ord('-'))
            if len(p) == 1 and p[0][0] == 'i':
                k = st.const(p[0][1])
                if k in (0, 1, 2):
                    return ('c', ord(('-' + self.letter + '\0')[k]))
        return None

    def literal(self, st, v):
        if isinstance(v, tuple) and v[0] == 'a' and v[1][0] == 'g' and not v[2]:
            return self.m.string({'g': v[1][1]})
        return None

    def call(self, s, st, I, args):
        n = I.cname()
        an = self.an
        if n in STR and an.lit.get(n):
            st.env[I.id] = ('a', ('g', an.lit[n]), ())
            return [st]
        if n == 'strchr':
            t, c = self.literal(st, args[0]), st.const(args[1])
            if t is not None and c is not None:
                st.env[I.id] = ('c', 0) if not (c == 0 or chr(c & 255) in t) else args[0]
                return [st]
        if n == 'tolower' and st.const(args[0]) is not None:
            c = st.const(args[0])
            st.env[I.id] = ('c', ord(chr(c).lower()) if 0 < c < 128 else c)
            return [st]
        if n in ('GetEmbedFlags', 'GetAlgorithmName', 'GetTransformationName') and self.f.name != n:
            c = st.const(args[0])
            if c is not None:
                r = an.value(n, chr(c & 255))
                if r is not None:
                    st.env[I.id] = r
                    return [st]
        if n in ATTACH or n in an.makers:
            s.default_call(st, I, args)
            a, b = st, st.copy()
            if I.ty == 'ptr':
                b.env[I.id] = ('c', 0)
                a.setrng(I.id, 1, sim.INF, ())
            else:
                a.env[I.id], b.env[I.id] = ('c', 1), ('c', 0)
            if n in ATTACH:
                a.cl = tuple(sorted(set(st.cl) | {n}))
            else:
                c = st.const(args[an.makers[n]])
                if c is None:
                    a.cl = tuple(sorted(set(st.cl) | {'unknown'}))
                else:
                    a.cl = tuple(sorted(set(st.cl) | set(an.made(n, chr(c & 255)))))
            return [a, b]
        if n == 'gp_Embed':
            self.embeds.append((I, st.const(args[1]), st.cl, sim.trail(st)))
        if n in ('gp_Write', 'gp_WriteToString'):
            self.writes.append((I, st.const(args[2]), sim.trail(st)))
        if n in ('sprintf', 'snprintf'):
            k = 1 if n == 'sprintf' else 2
            t = self.literal(st, args[k])
            if t is not None:
                vals = [self.literal(st, a) for a in args[k + 1:]]
                out, j = '', 0
                for part in t.split('%s'):
                    out += part
                    if j < t.count('%s'):
                        out += vals[j] if j < len(vals) and vals[j] is not None else '?'
                    j += 1
                self.texts.append((I, out, sim.trail(st)))
        else:
            for a in args:          # texts copied, joined or shown as they are
                t = self.literal(st, a)
                if t:
                    self.texts.append((I, t, sim.trail(st)))
        return None

    def ret(self, s, st, I, val):
        self.rets.append((I, val, st.const(val) if val is not None else None, self.literal(st, val), st.cl, st.rng(val) if val is not None else None))


class An:
    def __init__(self, m):
        self.m, self.lit, self.memo, self.makers = m, {}, {}, {}
        self.ms, self.rs = sim.compute_modsets(m), sim.compute_retsets(m)
        for n in STR:
            rs = {v.get('g') for I in m.fn(n).insts.values() if I.op == 'ret' for v in I.a}
            if len(rs) != 1 or None in rs:
                raise ir.AnalysisError('%s does not return one literal' % n)
            self.lit[n] = rs.pop()
        # functions given a letter that attach
        for f in m.defs.values():
            if (f.file or '').startswith('c/planarityApp') and any(I.cname() in ATTACH for I in f.calls()) and not any(I.cname() == 'gp_Embed' for I in f.calls()):
                k = self.letter_param(f)
                if k is None:
                    raise ir.AnalysisError('%s attaches algorithms without a command letter' % f.name)
                self.makers[f.name] = k

    def letter_param(self, f):
        ks = [i for i, a in enumerate(f.args) if a[1] == 'i8']
        return ks[0] if len(ks) == 1 else None

    def run(self, f, letter, deep=None, fixed=()):
        p = deep if deep is not None else self.letter_param(f)
        if p is None:
            raise ir.AnalysisError('%s has no command letter' % f.name)
        c = C(self, f, p, letter, deep is not None, fixed)
        sim.Sim(self.m, f, c, K=6, modsets=self.ms, retsets=self.rs).run()
        return c

    def value(self, n, letter):
        k = (n, letter)
        if k not in self.memo:
            rs = {x[1] for x in self.run(self.m.fn(n), letter).rets}
            self.memo[k] = rs.pop() if len(rs) == 1 else None
        return self.memo[k]

    def made(self, n, letter):
        """What the function attaches whenever it succeeds."""
        k = ('made', n, letter)
        if k not in self.memo:
            r = set()
            for I, v, c, t, cl, g in self.run(self.m.fn(n), letter).rets:
                if c == 0 or g and g[0] == g[1] == 0:
                    continue
                r.add(cl)
            self.memo[k] = set().union(*map(set, r)) | ({'nothing'} if () in r and len(r) > 1 else set())
        return self.memo[k]


def run(ctx):
    ctx.rule = ('for each command letter, the functions of the application are evaluated with the letter fixed: mode, name and verdict texts are those of its algorithm, every embedding uses that mode with exactly the '
                'extension the mode needs attached, letters that are not offered embed nothing; each output format letter writes its format')
    ctx.assumptions = ['the meaning of each letter is the reviewed table in checks/c23.py (from the documentation of the command line)']
    m = ctx.mod()
    an = An(m)
    modes = c18.macros()
    choices = m.string({'g': an.lit['GetAlgorithmChoices']})
    formats = m.string({'g': an.lit['GetSupportedOutputFormats']})
    if sorted(choices) != sorted(ALG):
        ctx.violation('choices', 'the letters offered are "%s", not each of "%s" once' % (choices, ''.join(sorted(ALG))), m.fn('GetAlgorithmChoices').file)
    if sorted(formats) != sorted(FORMAT):
        ctx.violation('formats', 'the format letters offered are "%s", not each of "%s" once' % (formats, ''.join(sorted(FORMAT))), m.fn('GetSupportedOutputFormats').file)
    # descriptions shown to the user
    for fn, fmt in (('GetAlgorithmFlags', '-%s = '), ('GetAlgorithmSpecifiers', '%s. ')):
        f = m.fn(fn)
        t = next((m.string(v) for I in f.insts.values() if I.op == 'ret' for v in I.a if m.string(v)), None)
        if t is None:
            raise ir.AnalysisError('%s does not return a literal' % fn)
        for l in ALG:
            ctx.count('descriptions')
            want = {'p': 'Planar embedding', 'o': 'Outerplanar embedding', 'd': 'Planar graph drawing', '2': 'K_{2,3}', '3': 'K_{3,3}', '4': 'K_4'}[l]
            ls = [x for x in t.splitlines() if x.strip().startswith(fmt % (l if fmt[0] == '-' else l.upper()))]
            if len(ls) != 1 or want not in ls[0]:
                ctx.violation('%s:%s' % (fn, l), 'the description of letter %s is not that of its algorithm' % l, f.file)
    for l, (mode, ext, yes, no) in sorted(ALG.items()):
        E = modes.get(mode)
        if E is None:
            raise ir.AnalysisError('%s not known' % mode)
        v = an.value('GetEmbedFlags', l)
        ctx.count('table_entries')
        if v != ('c', E):
            ctx.violation('mode:%s' % l, 'letter %s has embedding mode %s, not %s' % (l, v[1] if v else 'unknown', mode), m.fn('GetEmbedFlags').file)
        v = an.value('GetAlgorithmName', l)
        t = m.string({'g': v[1][1]}) if v and v[0] == 'a' and v[1][0] == 'g' else None
        ctx.count('table_entries')
        if t != NAMES[l]:
            ctx.violation('name:%s' % l, 'letter %s is named "%s", not "%s"' % (l, t, NAMES[l]), m.fn('GetAlgorithmName').file)
        for n in sorted(an.makers):
            got = an.made(n, l)
            ctx.count('attachments')
            if got != ({ext} if ext else set()):
                ctx.violation('attach:%s:%s' % (n, l), '%s attaches %s for letter %s, not %s' % (n, ', '.join(sorted(got)) or 'nothing', l, ext or 'nothing'), m.fn(n).file)
        for f in m.defs.values():
            if (f.file or '').startswith('c/planarityApp') and any(I.cname() == 'gp_Embed' for I in f.calls()) and an.letter_param(f) is not None:
                c = an.run(f, l)
                if not c.embeds:
                    ctx.violation('%s:%s:none' % (f.name, l), '%s does not run the algorithm of letter %s' % (f.name, l), f.file)
                for I, e, cl, tr in c.embeds:
                    ctx.count('embeddings')
                    if e != E:
                        ctx.violation('%s:%s:mode' % (f.name, l), '%s embeds with mode %s for letter %s, not %s' % (f.name, e, l, mode), I.where(), tr)
                    if set(cl) != ({ext} if ext else set()):
                        ctx.violation('%s:%s:ext' % (f.name, l), '%s embeds for letter %s with %s attached, not %s' % (f.name, l, ', '.join(cl) or 'nothing', ext or 'nothing'), I.where(), tr)
        w = m.fn('WriteAlgorithmResults')
        p = an.letter_param(w)
        rp = [i for i, a in enumerate(w.args) if a[1] == 'i32' and w.argname(i) in ('Result', 'result')] or [1]
        for r, want in ((1, yes), (-1, no)):
            c = an.run(w, l, fixed={rp[0]: r})
            ts = {t for I, t, tr in c.texts if 'planar.' in t or 'homeomorphic' in t or 'unrecognized' in t}
            ctx.count('verdicts')
            if len(ts) != 1 or ts.pop().strip().rstrip('.') != want:
                ctx.violation('verdict:%s:%d' % (l, r), 'the verdict for letter %s and result %s is not "%s"' % (l, {1: 'OK', -1: 'NONEMBEDDABLE'}[r], want), w.file)
        vs = {t.strip() for r in (1,) for I, t, tr in an.run(w, l, fixed={rp[0]: r}).texts if "Algorithm '" in t}
        if not any("'%s'" % NAMES[l] in t for t in vs):
            ctx.violation('verdict:%s:name' % l, 'the report for letter %s does not name its algorithm' % l, w.file)
    # letters that are not offered
    for l in 'xqgam1':
        for f in m.defs.values():
            if (f.file or '').startswith('c/planarityApp') and any(I.cname() == 'gp_Embed' for I in f.calls()) and an.letter_param(f) is not None:
                if f.internal or f.name == 'testAllGraphs':
                    continue            # given letters that its caller has checked
                ctx.count('refused_letters')
                c = an.run(f, l)
                for I, e, cl, tr in c.embeds:
                    ctx.violation('%s:%s:offered' % (f.name, l), '%s embeds for letter %s, which is not offered' % (f.name, l), I.where(), tr)
    # output formats
    T = m.fn('TransformGraph')
    for l, (mode, name) in sorted(FORMAT.items()):
        E = macro(mode)
        c = an.run(T, l, deep=0)
        for I, v, tr in c.writes:
            ctx.count('format_writes')
            if v != E:
                ctx.violation('format:%s' % l, 'format letter %s writes with mode %s, not %s' % (l, v, mode), I.where(), tr)
        if not c.writes:
            ctx.violation('format:%s:none' % l, 'format letter %s writes nothing' % l, T.file)
        v = an.value('GetTransformationName', l)
        t = m.string({'g': v[1][1]}) if v and v[0] == 'a' and v[1][0] == 'g' else None
        if t != name:
            ctx.violation('formatname:%s' % l, 'format letter %s is named "%s", not "%s"' % (l, t, name), m.fn('GetTransformationName').file)
    c = an.run(T, 'x', deep=0)
    for I, v, tr in c.writes:
        ctx.violation('format:x', 'TransformGraph writes for a format letter that is not offered', I.where(), tr)
    for n, k in (('embeddings', 24), ('attachments', 6), ('verdicts', 12), ('format_writes', 3), ('refused_letters', 6)):
        ctx.need(n, k)
