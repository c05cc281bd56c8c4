"""C02: the result of every allocation / file open / constructor is tested before it is dereferenced."""
import sim, fail, kinds

ALLOWED = {}


def run(ctx):
    ctx.rule = ('Every call that may yield NULL on failure (malloc, calloc, realloc, strdup, fopen and the library constructors) is '
                'made to return NULL in turn; PathSim follows every feasible path and no path may dereference the null value, '
                'directly, through an address computed from it, or by passing it to a function that dereferences that argument '
                '(callee summaries are computed per null/non-null argument shape).')
    ctx.assumptions = ['external functions dereference the arguments listed in lib/fail.py EXT_DEREF',
                       'recursive calls are assumed not to add null dereferences']
    m = ctx.mod()
    res = fail.explore(m, kinds.fail_value, 'all', 64 if ctx.thorough else 16)
    for fn, c in res.items():
        ctx.count('functions_analysed')
        ptr = 0
        for i, I in c.srcs.items():
            if I.ty == 'ptr':
                ptr += 1
                ctx.sample({'function': fn, 'nullable_call': '%s at %s' % (fail.describe(m, I), I.where())})
        ctx.count('nullable_call_sites', ptr)
        ctx.count('other_fallible_call_sites', len(c.srcs) - ptr)
        if ptr:
            ctx.count('functions_with_nullable_calls')
        for cl, (I, callee, J, tr) in c.null.items():
            src = m.defs[fn].insts[cl[0]]
            nm = fail.describe(m, src)
            if (fn, nm) in ALLOWED:
                continue
            msg = 'after %s fails (%s) a null pointer is %s' % (
                nm, src.where(), 'passed to %s, which dereferences it at %s' % (callee, J.where() if hasattr(J, 'where') else 'its body')
                if callee else 'dereferenced')
            ctx.violation('%s:%s' % (fn, nm), msg, I.where(), tr)
    ctx.need('nullable_call_sites', 60)
    ctx.need('functions_with_nullable_calls', 30)
