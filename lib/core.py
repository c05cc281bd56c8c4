"""Check driver: run one property's analysis, write evidence, print the verdict."""
import importlib, json, os, sys, time, traceback
import ir

VERIF = ir.VERIF
KF = os.path.join(VERIF, 'known_findings.json')


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol, self.counts, self.samples, self.notes = [], {}, [], []
        self.assumptions, self.rule, self.analysed = [], '', []
        self.seen = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def mod(self, **kw):
        return ir.load(**dict(dict(thread=True), **kw))

    def violation(self, key, msg, where='', trail=()):
        """key: stable identity (no line numbers)."""
        if (key, where) in self.seen:
            return
        self.seen.add((key, where))
        self.viol.append({'key': key, 'msg': msg, 'where': where, 'path': list(trail)})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum):
        """Fail as analysis-broken when fewer instances were found than confirmed by hand."""
        if self.counts.get(name, 0) < minimum:
            raise ir.AnalysisError('%s: %d instances, expected at least %d' % (name, self.counts.get(name, 0), minimum))

    def sample(self, s, n=8):
        if len(self.samples) < n:
            self.samples.append(s)


def load_known(prop):
    if not os.path.exists(KF):
        return {}
    d = json.load(open(KF))
    return {e['key']: e for e in d.get('findings', []) if e['property'] == prop}


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    t = time.time()
    ctx = Ctx(prop, tier)
    try:
        importlib.import_module(prop.lower()).run(ctx)
    except ir.AnalysisError as e:
        if not ctx.viol:
            print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
            return 2
        ctx.notes.append('stopped early: %s' % e)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % prop)
        return 2
    known = load_known(prop)
    if not ctx.thorough and any(v['key'] not in known for v in ctx.viol):
        # look again with more states kept apart before reporting
        import sim
        sim.KSCALE = 2
        c2 = Ctx(prop, 'thorough')
        try:
            importlib.import_module(prop.lower()).run(c2)
            ctx = c2
        except ir.AnalysisError as e:
            if c2.viol:
                ctx = c2
                ctx.notes.append('stopped early: %s' % e)
        except Exception:
            traceback.print_exc()
    new, old = [], []
    for v in ctx.viol:
        (old if v['key'] in known else new).append(v)
    wall = time.time() - t
    cov = {'explanation': ctx.rule, 'counts': ctx.counts, 'samples': ctx.samples,
           'known_findings': sorted(set(v['key'] for v in old))}
    cov.update({k: v for k, v in ctx.counts.items() if isinstance(v, int)})
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions, 'wall_s': round(wall, 3), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for k in sorted(set(v['key'] for v in old)):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]['what']))
    if new:
        rp = os.path.join(VERIF, 'evidence', prop + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1, default=str)
        for v in new[:40]:
            print('  %s: %s [%s]' % (v['where'], v['msg'], v['key']))
            for p in v['path'][:40]:
                print('      via %s' % (p,))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s tier=%s %s wall=%.1fs' % (prop, tier, ' '.join('%s=%s' % kv for kv in sorted(ctx.counts.items())), wall))
    return 0
