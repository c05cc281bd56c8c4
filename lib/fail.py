"""Failure exploration: make one fallible call fail, follow every path to the exit."""
import sim, kinds

# external functions that dereference a pointer argument unconditionally (arg index list)
EXT_DEREF = {'strlen': [0], 'strcmp': [0, 1], 'strncmp': [0, 1], 'strchr': [0], 'strrchr': [0], 'strstr': [0, 1], 'strcspn': [0, 1],
             'strcpy': [0, 1], 'strncpy': [0, 1], 'strcat': [0, 1], 'sprintf': [0, 1], 'snprintf': [0], 'fprintf': [0, 1], 'fputs': [0, 1],
             'fputc': [1], 'fclose': [0], 'fgetc': [0], 'getc': [0], 'ungetc': [1], 'fgets': [0, 2], 'fread': [0, 3], 'fwrite': [0, 3],
             'fseek': [0], 'ftell': [0], 'atoi': [0], '__isoc99_sscanf': [0, 1], '__isoc99_fscanf': [0, 1], 'strdup': [0],
             'vfprintf': [0, 1], 'putc': [1], 'strtol': [0], 'rewind': [0]}

# calls whose argument carries a status that the callee must hand back (slot -> argument index)
CARRIER = {'fpEmbedPostprocess': 2}


class NullSummaries:
    """(function, per-pointer-argument nullness) -> does it dereference a null argument?"""

    def __init__(self, mod):
        self.mod = mod
        self.ms, self.rs = sim.compute_modsets(mod), sim.compute_retsets(mod)
        self.memo = {}

    def derefs(self, name, shape):
        if name in EXT_DEREF:
            return [i for i in EXT_DEREF[name] if i < len(shape) and shape[i] == 'N']
        f = self.mod.defs.get(name)
        if f is None or 'N' not in shape:
            return []
        k = (name, shape)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []  # recursion: optimistic
        hit = []
        outer = self

        class C(sim.Client):
            def init(self, s, st):
                for i, c in enumerate(shape):
                    if i >= len(f.args):
                        break
                    if c == 'N':
                        st.env[i] = sim.C0
                    elif c == 'P':
                        st.facts[i] = (1, sim.INF, ())

            def deref(self, s, st, I, base, addr, w):
                if base == sim.C0:
                    hit.append(I)
                    return False

            def call(self, s, st, I, args):
                if any(a == sim.C0 for a in args):
                    sh = shape_of(st, I, args, f)
                    for c in outer.mod.callees(I):
                        # only values that came in as null count: literal NULL arguments are the callee's business
                        if outer.derefs(c, sh):
                            hit.append(I)
                            return []
                return None
        try:
            sim.Sim(self.mod, f, C(), K=8, modsets=self.ms, retsets=self.rs).run()
        except RuntimeError:
            pass
        self.memo[k] = hit
        return hit


def shape_of(st, I, args, fn):
    r = []
    for op, v in zip(I.a, args):
        isptr = False
        if 'v' in op:
            d = fn.insts.get(op['v'])
            isptr = (d.ty if d is not None else fn.args[op['v']][1]) == 'ptr'
        else:
            isptr = op.get('null') or 'g' in op or 'fn' in op or 'ce' in op
        if not isptr:
            r.append('.')
        elif v == sim.C0:
            r.append('N')
        elif st.rng(v)[0] > 0 or 0 in st.rng(v)[2]:
            r.append('P')
        else:
            r.append('?')
    return tuple(r)


class FailClient(sim.Client):
    """Fork a failing outcome at each fallible call; check how it ends."""

    def __init__(self, mod, nulls, want_fail):
        self.mod, self.nulls, self.want = mod, nulls, want_fail
        self.rs = sim.compute_retsets(mod)
        self.srcs = {}
        self.null = {}
        self.rets = {}
        self.carrier = {}

    def sources(self, I):
        fvs = set()
        for c in self.mod.callees(I):
            fv = self.want(c)
            if fv is not None and (c not in self.rs or self.rs[c] is None or fv in self.rs[c]):
                fvs.add(fv)
        return fvs

    def call(self, s, st, I, args):
        if st.cl is not None:
            if any(a == sim.C0 for a in args):
                sh = shape_of(st, I, args, s.fn)
                for c in self.mod.callees(I):
                    d = self.nulls.derefs(c, sh)
                    if d:
                        self.null.setdefault(st.cl, (I, c, d[0], sim.trail(st)))
                        return []
            slot = self.mod.slot_of(I)
            k = CARRIER.get(slot)
            if k is not None and 'v' in I.a[k] and st.const(args[k]) == s_fail(self, st):
                # the status travels as an argument; the callee's own contract is checked separately
                s.default_call(st, I, args)
                st.env[I.id] = ('c', st_fail(st))
                st.facts.pop(I.id, None)
                self.carrier.setdefault(I.id, slot)
                return [st]
            return None
        fvs = self.sources(I)
        if not fvs:
            return None
        self.srcs[I.id] = I
        fv = min(fvs)
        f = st.copy()
        s.default_call(f, I, args)
        f.env[I.id] = ('c', fv)
        f.facts.pop(I.id, None)
        f.cl = (I.id, fv)
        f.trail = (None, (I.where(), 'fails'))
        s.default_call(st, I, args)
        return [st, f]

    def deref(self, s, st, I, base, addr, w):
        if st.cl is not None and base == sim.C0:
            self.null.setdefault(st.cl, (I, None, None, sim.trail(st)))
            return False

    def ret(self, s, st, I, v):
        if st.cl is not None:
            self.rets.setdefault(st.cl, []).append((I, v, st.rng(v) if v is not None else None, sim.trail(st), st))


def s_fail(c, st):
    return st.cl[1]


def st_fail(st):
    return st.cl[1]


def describe(mod, I):
    return I.cname() or mod.slot_of(I) or '/'.join(mod.callees(I))


_run = {}


def explore(mod, want, tag, K=16):
    """Run the failure exploration on every function; returns {fname: client}."""
    k = (id(mod), tag, K)
    if k in _run:
        return _run[k]
    nulls = NullSummaries(mod)
    ms, rs = sim.compute_modsets(mod), sim.compute_retsets(mod)
    out = {}
    for f in sorted(mod.defs.values(), key=lambda f: (f.file or '', f.defline)):
        c = FailClient(mod, nulls, want)
        s = sim.Sim(mod, f, c, K=K, modsets=ms, retsets=rs)
        s.run()
        c.steps = s.steps
        out[f.name] = c
    _run[k] = out
    return out
