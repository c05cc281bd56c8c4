"""C18: an attached extension leaves other algorithms and operations unchanged."""
import os, subprocess
import ir, sim, objtypes, c17

# life-cycle and bookkeeping slots: extend the base in every mode
ALWAYS = {'fpInitGraph', 'fpReinitializeGraph', 'fpSortVertices', 'fpReadPostprocess', 'fpWritePostprocess',
          'fpHideEdge', 'fpRestoreEdge', 'fpHideVertex', 'fpRestoreVertex', 'fpContractEdge', 'fpIdentifyVertices', 'fpMarkDFSPath'}
# (reviewed) extensions with storage per edge do not support growing the capacity
REFUSE = {'fpEnsureArcCapacity'}
# (reviewed) steps that an extension replaces when its own algorithm runs; all other overloads add to the base step
REPLACES = {(e, s) for e in ('gp_AttachK23Search', 'gp_AttachK33Search', 'gp_AttachK4Search')
            for s in ('fpHandleBlockedBicomp', 'fpEmbedPostprocess', 'fpCheckEmbeddingIntegrity', 'fpCheckObstructionIntegrity')} | {
    ('gp_AttachDrawPlanar', 'fpCheckObstructionIntegrity')}
MODES = {'gp_AttachK23Search': 'EMBEDFLAGS_SEARCHFORK23', 'gp_AttachK33Search': 'EMBEDFLAGS_SEARCHFORK33',
         'gp_AttachK4Search': 'EMBEDFLAGS_SEARCHFORK4', 'gp_AttachDrawPlanar': 'EMBEDFLAGS_DRAWPLANAR'}
CTX, BASE = ('s', ('CTX',), 0), ('s', ('BASE',), 0)


def macros():
    h = os.path.join(ir.REPO, 'c/graphLib/graph.h')
    txt = subprocess.run(['clang-18', '-E', '-dM', h], capture_output=True, text=True).stdout
    names = [l.split()[1] for l in txt.splitlines() if l.startswith('#define EMBEDFLAGS_')]
    src = '#include "%s"\n' % h + ''.join('MODEVAL %s : %s\n' % (n[11:] and '"%s"' % n, n) for n in names)
    out = subprocess.run(['clang-18', '-E', '-P', '-x', 'c', '-'], input=src, capture_output=True, text=True).stdout
    r = {}
    for l in out.splitlines():
        if l.startswith('MODEVAL'):
            n, v = l[8:].split(' : ')
            try:
                r[n.strip('"')] = int(eval(v, {}))
            except Exception:
                pass
    return r


class C(sim.Client):
    def __init__(self, m, f, ext, slot, mode, strict, ms):
        self.m, self.f, self.ext, self.slot, self.mode, self.strict, self.ms = m, f, ext, slot, mode, strict, ms
        self.bad = {}
        self.rets = 0

    def init(self, s, st):
        st.cl = (0,)

    def clsyms(self, cl):
        return (('CTX',), ('BASE',))

    def err(self, key, I, msg, st):
        self.bad.setdefault(key, (I, msg, sim.trail(st)))

    def edge(self, s, st):
        if st.cl[0]:
            g = st.rng(BASE)
            st.cl = (st.cl[0], g[0], g[1])

    def load(self, s, st, I, addr, val):
        if self.mode is not None and addr != sim.TOP and addr[0] == 'a' and addr[2] and addr[2][-1] == ('f', 'struct.baseGraphStructure', 'embedFlags'):
            return ('c', self.mode)
        return None

    def store(self, s, st, I, addr, val):
        if self.strict and not (addr[0] == 'a' and addr[1][0] == 'al'):
            self.err('store', I, 'changes the graph or its own state', st)

    def call(self, s, st, I, args):
        n = I.cname()
        if n in ('gp_FindExtension', 'gp_GetExtension'):
            r = s.default_call(st, I, args)
            st.facts[('CTX',)] = (1, sim.INF, ())
            if n == 'gp_GetExtension':
                st.env[I.id] = CTX
            else:
                s.do_store(st, args[2], CTX, 'p')
                st.env[I.id] = ('c', 1)
            return r
        if n and n.startswith('llvm.'):
            return None
        sl = self.m.slot_of(I)
        if sl and c17.table_owner(self.f, self.f.insts[self.f.insts[I.callee['v']].a[0]['v']]) == self.ext['ctx']:
            if sl == self.slot:
                st.cl = (min(st.cl[0] + 1, 2),)
                if st.cl[0] > 1:
                    self.err('twice', I, 'calls the base step more than once', st)
                if self.strict:
                    for k, a in enumerate(args):
                        if a != ('s', k, 0):
                            self.err('arg%d' % k, I, 'does not pass parameter %s on to the base step' % (self.f.argname(k) or k), st)
                r = s.default_call(st, I, args)
                if I.ty != 'void':
                    g = st.rng(st.env[I.id])
                    st.env[I.id] = BASE
                    st.facts[('BASE',)] = g if isinstance(g, tuple) and len(g) == 3 else (g[0], g[1], ())
                return r
            self.err('other:%s' % sl, I, 'calls another step (%s)' % sl, st)
        if self.strict:
            mods = set()
            for c in self.m.callees(I):
                if c not in self.m.defs:
                    mods.add(c)
                else:
                    x = self.ms.get(c)
                    mods |= {'*'} if x is None else set(x)
            if mods:
                self.err('call:%s' % n, I, 'calls %s' % (n or 'another step'), st)
        return None

    def ret(self, s, st, I, val):
        self.rets += 1
        n = st.cl[0]
        if val is None or self.f.ret == 'void':
            if n != 1:
                self.err('none', I, 'does not carry out the base step', st)
            return
        if n == 0:
            r = st.rng(val)
            if self.strict or r[0] <= 1 <= r[1] and not (1 in (r[2] or ())):
                self.err('none', I, 'returns without carrying out the base step', st)
            return
        if val == BASE or val[0] == 's' and st.dub(val, BASE) == 0 and st.dub(BASE, val) == 0:
            return
        c, b = st.const(val), st.rng(BASE)
        if c is not None and b[0] == b[1] == c:
            return
        if c == 0 and (not self.strict or not (b[0] <= 1 <= b[1])):
            # failure: of the base step (whose other results are failures) or of the extension's own part
            if not self.strict or b[0] >= 0:
                return
        if not self.strict and b[0] == b[1] == 1:
            return      # the extension's own result on top of a successful base step
        self.err('result', I, 'does not return the result of the base step', st)


class Refuse(C):
    """A step that is refused fails and leaves everything as it was."""

    def ret(self, s, st, I, val):
        self.rets += 1
        if val is not None and st.rng(val)[:2] != (0, 0):
            self.err('result', I, 'reports success without carrying out the step', st)


def refusal(ctx, m, f, d, slot, ms):
    c = Refuse(m, f, d, slot, None, True, ms)
    sim.Sim(m, f, c, K=16).run()
    ctx.count('refused_steps')
    for key, (I, msg, tr) in c.bad.items():
        ctx.violation('%s:%s' % (f.name, key), '%s %s' % (f.name, msg), I.where(), tr)


def run(ctx):
    ctx.rule = ('Each overload is simulated path by path with the embedding mode fixed to every mode other than its extension\'s own (and its context present): on every path to '
                'a return it must call the same slot of its saved table exactly once with its own parameters unchanged, return that result, and change nothing else. Overloads of life-cycle '
                'and bookkeeping steps, and those that add to a step in their own mode, must call the base step exactly once on every path that returns success, in every mode.')
    ctx.assumptions = ['reviewed: steps replaced in the own mode: %s' % ', '.join('%s/%s' % (e[9:], s) for e, s in sorted(REPLACES)),
                       'reviewed: extensions with per-edge storage refuse to grow the edge capacity']
    m = ctx.mod()
    exts = objtypes.extensions(m)
    M = macros()
    for d in exts:
        if MODES.get(d['attach']) not in M:
            raise ir.AnalysisError('mode of %s not known' % d['attach'])
    ms = sim.compute_modsets(m)
    vals = sorted(set(M.values()))
    for d in exts:
        own = M[MODES[d['attach']]]
        for slot, fn in sorted(d['slots'].items()):
            f = m.fn(fn)
            ctx.count('overloads')
            if slot in REFUSE:
                if not any(m.slot_of(I) for g in m.reach([fn]) if g in m.defs for I in m.defs[g].calls()):
                    refusal(ctx, m, f, d, slot, ms)
                continue
            modes = [None] if slot in ALWAYS else [v for v in vals if v != own]
            if slot not in ALWAYS and (d['attach'], slot) not in REPLACES:
                modes.append(own)
            for v in modes:
                c = C(m, f, d, slot, v, slot not in ALWAYS and v != own, ms)
                sim.Sim(m, f, c, K=64 if ctx.thorough else 16).run()
                ctx.count('overload_mode_pairs')
                ctx.count('return_paths', c.rets)
                for key, (I, msg, tr) in c.bad.items():
                    nm = next((n for n, x in sorted(M.items()) if x == v), None)
                    ctx.violation('%s:%s' % (fn, key), '%s %s%s' % (fn, msg, ' in mode %s' % nm if nm else ''), I.where(), tr)
    ctx.need('overloads', 25)
    ctx.need('overload_mode_pairs', 100)
    ctx.need('return_paths', 100)
