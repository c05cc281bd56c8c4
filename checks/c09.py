"""C09: public operations recognise a missing (NULL) argument before using it."""
import fail, sim

# (function, parameter) -> result for a NULL argument: 0 / -1 failure, 1 nothing to do, None any.
# Every public operation of the library whose documentation or code treats NULL as an invalid or empty argument.
F, E, OKV, ANY = 0, -1, 1, None
CONTRACT = {
    'LCFree': {0: ANY}, 'sp_Free': {0: ANY}, 'sb_Free': {0: ANY}, 'sf_Free': {0: ANY}, 'sb_ClearBuf': {0: ANY},
    'sb_ConcatString': {1: OKV, 0: ANY}, 'sb_ConcatChar': {0: ANY}, 'sb_Copy': {0: F, 1: F}, 'sb_Duplicate': {0: F}, 'sb_TakeString': {0: F},
    'sb_ReadSkipInteger': {0: ANY}, 'sb_ReadSkipWhitespace': {0: ANY},
    'sf_New': {0: ANY, 1: ANY}, 'sf_fgets': {0: F, 2: F}, 'sf_fputs': {0: E, 1: E}, 'sf_getc': {0: ANY}, 'sf_ungetc': {1: E},
    'allocateG6ReadIterator': {0: F, 1: F}, 'allocateG6WriteIterator': {0: F, 1: F},
    'beginG6ReadIterationFromG6FilePath': {1: F}, 'beginG6ReadIterationFromG6FilePointer': {1: F}, 'beginG6ReadIterationFromG6String': {1: F},
    'beginG6WriteIterationToG6FilePath': {1: F}, 'beginG6WriteIterationToG6FilePointer': {1: F}, 'beginG6WriteIterationToG6String': {1: F},
    'endG6ReadIteration': {0: OKV}, 'endG6WriteIteration': {0: OKV}, 'freeG6ReadIterator': {0: OKV}, 'freeG6WriteIterator': {0: OKV},
    'getGraphBuff': {0: F}, 'getNumGraphsRead': {0: F}, 'getNumGraphsWritten': {0: F}, 'getOrderOfGraphToRead': {0: F},
    'getOrderOfGraphToWrite': {0: F}, 'getPointerToGraphReadIn': {0: F}, 'getPointerToGraphToWrite': {0: F},
    'gp_AddEdge': {0: F}, 'gp_DynamicAddEdge': {0: F}, 'gp_InsertEdge': {0: F}, 'gp_EnsureArcCapacity': {0: F},
    'gp_InitGraph': {0: F}, 'gp_ReinitializeGraph': {0: ANY}, 'gp_Free': {0: ANY},
    'gp_CopyAdjacencyLists': {0: F, 1: F}, 'gp_CopyExtensions': {0: F, 1: F}, 'gp_CopyGraph': {0: F, 1: F},
    'gp_CreateDFSTree': {0: F}, 'gp_SortVertices': {0: F}, 'gp_LowpointAndLeastAncestor': {0: F}, 'gp_LeastAncestor': {0: F},
    'gp_Embed': {0: F}, 'gp_TestEmbedResultIntegrity': {0: F, 1: F},
    'gp_GetVertexDegree': {0: F}, 'gp_GetVertexInDegree': {0: F}, 'gp_GetVertexOutDegree': {0: F},
    'gp_Read': {0: F, 1: F}, 'gp_ReadFromString': {0: F, 1: F}, 'gp_Write': {0: F, 1: F}, 'gp_WriteToString': {0: F, 1: F},
    'gp_AddExtension': {0: F, 1: F, 2: F, 3: F, 4: F, 5: F}, 'gp_FindExtension': {0: F, 2: ANY}, 'gp_GetExtension': {0: ANY},
    'gp_RemoveExtension': {0: F}, 'gp_FreeExtensions': {0: ANY},
    'gp_AttachK23Search': {0: ANY}, 'gp_DetachDrawPlanar': {0: ANY}, 'gp_DetachK23Search': {0: ANY}, 'gp_DetachK33Search': {0: ANY}, 'gp_DetachK4Search': {0: ANY},
    'gp_DrawPlanar_RenderToFile': {0: F}, 'gp_DrawPlanar_RenderToString': {0: F, 1: F},
}


class C(sim.Client):
    def __init__(self, m, f, i, nulls):
        self.m, self.f, self.i, self.nulls = m, f, i, nulls
        self.bad, self.rets = [], []

    def init(self, s, st):
        for i, a in enumerate(self.f.args):
            if a[1] == 'ptr':
                if i == self.i:
                    st.env[i] = sim.C0
                else:
                    st.facts[i] = (1, sim.INF, ())

    def deref(self, s, st, I, base, addr, w):
        if base == sim.C0:
            self.bad.append((I, None, sim.trail(st)))
            return False

    def call(self, s, st, I, args):
        if any(a == sim.C0 for a in args):
            sh = fail.shape_of(st, I, args, self.f)
            for c in self.m.callees(I):
                d = self.nulls.derefs(c, sh)
                if d:
                    self.bad.append((I, c, sim.trail(st)))
                    return []

    def ret(self, s, st, I, v):
        if v is not None:
            self.rets.append((I, st.rng(v)[:2], sim.trail(st)))


def run(ctx):
    ctx.rule = ('Each pointer argument of each public operation in the contract table is made NULL (the other pointers are not): PathSim follows every feasible path; no path '
                'may dereference it, in the operation or in any function it is handed to, and every return must give the result the contract states.')
    ctx.assumptions = ['a reference to a NULL pointer variable given as an argument is not a NULL argument', 'contract table in checks/c09.py']
    m = ctx.mod()
    nulls = fail.NullSummaries(m)
    for fn, ps in sorted(CONTRACT.items()):
        f = m.defs.get(fn)
        if f is None:
            ctx.count('operations_not_found')
            continue
        ctx.count('operations')
        for i, want in sorted(ps.items()):
            if i >= len(f.args) or f.args[i][1] != 'ptr':
                ctx.count('arguments_not_found')
                continue
            ctx.count('null_arguments')
            c = C(m, f, i, nulls)
            sim.Sim(m, f, c, K=64 if ctx.thorough else 16, modsets=nulls.ms, retsets=nulls.rs).run()
            nm = '%s:arg%d' % (fn, i)
            ctx.sample('%s argument %d' % (fn, i))
            if c.bad:
                I, callee, tr = c.bad[0]
                ctx.violation(nm, 'argument %d of %s is used when it is NULL%s' % (i + 1, fn, ', by %s' % callee if callee else ''), I.where(), tr)
            elif want is not None:
                for I, r, tr in c.rets:
                    ctx.count('returns')
                    if r != (want, want):
                        ctx.violation(nm + ':result', '%s returns %s for NULL argument %d' % (fn, 'success' if want != 1 else 'failure', i + 1), I.where(), tr)
                        break
    ctx.need('operations', 60)
    ctx.need('null_arguments', 75)
