"""Shared effect queries over the program."""
import sim


def is_lib(f):
    return (f.file or '').startswith('c/graphLib')


def global_writes(mod):
    """global -> [(function, instruction)] that may store into it (directly or through a call given its address)."""
    import ir
    out = {}
    wp = writes_params(mod)

    def globs(v):
        if 'g' in v:
            return [v['g']]
        if v.get('ce') == 'gep':
            return globs(v['base'])
        return []

    for f in mod.defs.values():
        roots = {}
        ch = True
        while ch:
            ch = False
            for I in f.insts.values():
                if I.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                    ops = I.a if I.op != 'phi' else [x[1] for x in I.inc]
                    if I.op == 'getelementptr':
                        ops = I.a[:1]
                    s = set(roots.get(I.id, ()))
                    for v in ops:
                        s |= set(globs(v))
                        if 'v' in v:
                            s |= roots.get(v['v'], set())
                    if s != roots.get(I.id, set()):
                        roots[I.id] = s
                        ch = True

        def of(v):
            r = set(globs(v))
            if 'v' in v:
                r |= roots.get(v['v'], set())
            return r
        for I in f.insts.values():
            if I.op == 'store':
                for g in of(I.a[1]):
                    out.setdefault(g, []).append((f, I))
                for g in of(I.a[0]):
                    out.setdefault(g, []).append((f, I))   # address escapes
            elif I.op == 'call':
                for j, a in enumerate(I.a):
                    for g in of(a):
                        if any(c not in wp or j in wp[c] for c in mod.callees(I) if not readonly_ext(c, j)):
                            out.setdefault(g, []).append((f, I))
            elif I.op == 'ret' and I.a:
                for g in of(I.a[0]):
                    out.setdefault(g, []).append((f, I))
    return out


READONLY = {'strlen': None, 'strcmp': None, 'strncmp': None, 'strchr': None, 'strrchr': None, 'strstr': None, 'strcspn': None, 'fputs': {0},
            'fopen': None, 'atoi': None, 'chdir': None, 'puts': None, 'strdup': None, 'strspn': None, 'printf': None,
            'strcpy': {1}, 'strcat': {1}, 'strncpy': {1}, 'memcpy': {1}, 'llvm.memcpy.p0.p0.i64': {1}, 'fwrite': {0}}


def readonly_ext(c, j):
    if c in READONLY:
        return READONLY[c] is None or j in READONLY[c]
    if c == 'fprintf':
        return j >= 1
    if c == 'sprintf':
        return j >= 1
    if c == 'snprintf':
        return j >= 2
    if c in ('__isoc99_fscanf', '__isoc99_sscanf'):
        return j <= 1
    if c == '__isoc99_scanf':
        return j == 0
    return False


def writes_params(mod):
    """function -> parameters through which it may store, or which it lets escape."""
    res = {n: set() for n in mod.defs}
    ch = True
    while ch:
        ch = False
        for f in mod.defs.values():
            for k in range(len(f.args)):
                if f.args[k][1] != 'ptr' or k in res[f.name]:
                    continue
                seen, work, hit = {k}, [k], False
                while work and not hit:
                    x = work.pop()
                    for U in f.uses.get(x, ()):
                        if U.op == 'store':
                            hit = True
                        elif U.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                            if U.id not in seen:
                                seen.add(U.id)
                                work.append(U.id)
                        elif U.op in ('ret', 'ptrtoint'):
                            hit = True
                        elif U.op == 'call':
                            for j, a in enumerate(U.a):
                                if a.get('v') == x:
                                    for c in mod.callees(U):
                                        if readonly_ext(c, j):
                                            continue
                                        if c not in res or j in res[c]:
                                            hit = True
                if hit:
                    res[f.name].add(k)
                    ch = True
    return res
