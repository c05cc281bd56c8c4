"""C01: a failed internal step is never reported as success."""
import sim, fail, kinds

# (enclosing function, failing callee): reason the failure is legitimately not the caller's failure
ALLOWED = {
    ('sp_Copy', 'sp_CopyContent'): 'in-place copy too small: falls back to a fresh duplicate, whose failure is reported',
    ('_Log', 'fopen'): 'debug trace file (LOGGING builds only): absence of the log is not an operation failure',
    ('sf_Free', 'sf_closeFile'): 'destructor: nothing can be reported after release',
    ('menu', 'RandomGraph'): 'interactive menu: the command itself reports to the user',
    ('menu', 'RandomGraphs'): 'interactive menu: the command itself reports to the user',
    ('menu', 'SpecificGraph'): 'interactive menu: the command itself reports to the user',
    ('TransformGraphMenu', 'TransformGraph'): 'interactive menu: prints an error message',
    ('TestAllGraphsMenu', 'TestAllGraphs'): 'interactive menu: prints an error message',
    ('SaveAsciiGraph', 'fopen'): 'void helper: prints an error message',
    ('_ReduceExternalFacePathToEdge', 'gp_AddEdge'): 'two arc pairs were deleted just before: a free slot exists',
    ('_ReduceXYPathToEdge', 'gp_InsertEdge'): 'two arc pairs were deleted just before: a free slot exists',
    ('_K4_ReducePathToEdge', 'gp_InsertEdge'): 'two arc pairs were deleted just before: a free slot exists',
    ('_TestSubgraph', 'gp_SortVertices'): 'toggles a sort already done once: its DFS-numbering precondition holds',
    ('RandomGraphs', 'gp_Write'): 'optional side output: reported to the user once, the algorithm results are unaffected',
    ('SaveAsciiGraph', 'fclose'): 'void helper: prints an error message',
    ('_Log', 'fclose'): 'debug trace file (LOGGING builds only)',
    ('gp_Read', 'fclose'): 'closing a file opened for reading loses nothing',
    ('ReadTextFileIntoString', 'fclose'): 'closing a file opened for reading loses nothing',
    ('TextFileMatchesString', 'fclose'): 'closing a file opened for reading loses nothing',
    ('TextFilesEqual', 'fclose'): 'closing a file opened for reading loses nothing',
    ('BinaryFilesEqual', 'fclose'): 'closing a file opened for reading loses nothing',
    ('ReinitializeGraph', 'MakeGraph'): 'NULL is handed back through the out parameter, which the caller tests',
}
# functions that answer "no" (0) when they cannot obtain what they compare
ZERO_IS_NO = {'TextFileMatchesString', 'TextFilesEqual', 'BinaryFilesEqual'}


def run(ctx):
    ctx.rule = ('For every call that can report failure (status-returning functions, allocators, file opens; direct or '
                'through the function table, plus fclose/fputs of the C library) PathSim makes that call fail and follows every feasible path: the enclosing '
                'function must return its own failure value on each of them (dropped, masked, overwritten or '
                'mis-compared results are violations).')
    ctx.assumptions = ['return-value conventions in lib/kinds.py (reviewed)', 'functions not listed there are inlined into their callers',
                       'exceptions listed in checks/c01.py, one reason each']
    m = ctx.mod()
    res = fail.explore(m, kinds.fail_value, 'all', 64 if ctx.thorough else 16)
    used = set()
    carriers = set()
    for fn, c in res.items():
        if c.srcs:
            ctx.count('functions_with_fallible_calls')
        ctx.count('functions_analysed')
        ctx.count('fallible_call_sites', len(c.srcs))
        ctx.count('abstract_states', c.steps)
        carriers.update(c.carrier.values())
        fv = kinds.fail_value(fn)
        if fn in ZERO_IS_NO:
            fv = 0
        for cl, rets in c.rets.items():
            src = m.defs[fn].insts[cl[0]]
            callee = fail.describe(m, src)
            ctx.count('failure_exit_paths', len(rets))
            for I, v, rng, tr, st in rets:
                if fn in kinds.NEG1:
                    bad = rng[1] >= 0
                elif fv is None:
                    bad = True
                else:
                    bad = not (rng[0] == rng[1] == fv)
                if not bad:
                    continue
                if (fn, callee) in ALLOWED:
                    used.add((fn, callee))
                    ctx.count('excepted_paths')
                    break
                kind = 'absorbed by %s' % fn if fv is None and fn not in kinds.NEG1 else 'not reported by %s' % fn
                ctx.violation('%s:%s' % (fn, callee), 'failure of %s (%s) is %s: returns %s' % (callee, src.where(), kind, show(v, rng)),
                              I.where(), tr)
                break
    # carriers: the callee hands the failing status back
    for slot in sorted(carriers):
        k = fail.CARRIER[slot]
        for t in sorted(m.slot_targets().get(slot, ())):
            f = m.defs[t]
            ctx.count('status_carrier_targets')

            class C(sim.Client):
                def init(self, s, st):
                    st.env[k] = ('c', 0)

                def call(self, s, st, I, args):
                    sl = m.slot_of(I)
                    if sl == slot and st.const(args[k]) == 0:
                        s.default_call(st, I, args)
                        st.env[I.id] = ('c', 0)
                        st.facts.pop(I.id, None)
                        return [st]

                def ret(self, s, st, I, v):
                    if st.const(v) != 0:
                        ctx.violation('%s:carrier' % t, '%s is given a failed status and may return %s' % (t, show(v, st.rng(v))),
                                      I.where(), sim.trail(st))
            sim.Sim(m, f, C()).run()
    ctx.sample({'example': 'each of the %d fallible call sites was made to fail in turn' % ctx.counts['fallible_call_sites']})
    for fn in ('gp_Embed', 'gp_Read', 'gp_CopyGraph', '_DrawPlanar_InitGraph'):
        c = res.get(fn)
        if c:
            ctx.sample({'function': fn, 'fallible_calls': sorted(fail.describe(m, I) for I in c.srcs.values())})
    ctx.need('fallible_call_sites', 450)
    ctx.need('functions_with_fallible_calls', 120)


def show(v, rng):
    if rng and rng[0] == rng[1]:
        return str(rng[0])
    return 'a value that may be a success'
