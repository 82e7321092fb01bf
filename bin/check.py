#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [-v]   decides one property of /repo's current source."""
import glob, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, 'engine'), os.path.join(VERIF, 'checks')]
import rules
from prog import AnalysisBroken


def registry():
    import reg
    for f in sorted(glob.glob(os.path.join(VERIF, 'checks', 'c_*.py'))):
        importlib.import_module(os.path.basename(f)[:-3])
    return reg.CHECKS


def findings():
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            if l.startswith('finding:'):
                d = {}
                rest = l[len('finding:'):].strip()
                # finding: property=<id> key=<key> :: <what fails>
                head, _, what = rest.partition(' :: ')
                p, _, k = head.partition(' key=')
                d['property'] = p.replace('property=', '').strip()
                d['key'], d['what'] = k.strip(), what
                out.append(d)
    return out


def main(argv):
    args = [a for a in argv if not a.startswith('-')]
    verbose = '-v' in argv
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    checks = registry()
    pids = sorted(checks) if args == ['all'] else args
    rc = 0
    for pid in pids:
        if pid not in checks:
            print('no check for', pid)
            return 3
        rc = max(rc, one(pid, checks[pid], tier, seed, verbose))
    return rc


def one(pid, c, tier, seed, verbose):
    t0 = time.time()
    ctx = rules.Ctx(pid, tier)
    try:
        P = ctx.load(*c['sources'])
        c['fn'](ctx, P)
        if not ctx.obs:
            raise AnalysisBroken('no obligations were generated')
        if len(ctx.obs) < c.get('min', 1):
            raise AnalysisBroken('only %d obligations generated, at least %d expected' % (len(ctx.obs), c['min']))
    except AnalysisBroken as e:
        if not ctx.viol:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            if verbose:
                traceback.print_exc()
            return 2
        ctx.notes.append('analysis stopped: %s' % e)
    except Exception as e:
        if not ctx.viol:
            print('ANALYSIS-BROKEN property=%s internal error: %s: %s' % (pid, type(e).__name__, str(e)[:500]))
            traceback.print_exc()
            return 2
        ctx.notes.append('analysis stopped: %s' % e)
    known = {f['key']: f for f in findings() if f['property'] == pid}
    new = [v for v in ctx.viol if v['key'] not in known]
    old = [v for v in ctx.viol if v['key'] in known]
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[v['key']]['what'] or v['msg']))
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    per = {}
    for rule, where, ok in ctx.obs:
        a = per.setdefault(rule, [0, 0])
        a[0] += 1
        a[1] += ok
    samples, seen = [], {}
    for rule, where, ok in ctx.obs:
        if seen.get(rule, 0) < 3:
            seen[rule] = seen.get(rule, 0) + 1
            samples.append('%s | %s | %s' % (rule, where, 'holds' if ok else 'violated'))
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=c.get('assume', []) + ctx.assume,
              coverage=dict(explanation=c['explain'], obligations=len(ctx.obs), discharged=sum(1 for o in ctx.obs if o[2]),
                            distinct=len({(a, b) for a, b, _ in ctx.obs}),
                            by_rule={k: dict(checked=v[0], held=v[1]) for k, v in sorted(per.items())},
                            analysed=ctx.analysed, translation_units=len(P.tus) if ctx.P else 0, functions_resolved=len(P.fns) if ctx.P else 0,
                            known_findings=[v['key'] for v in old], notes=ctx.notes, samples=samples[:40]))
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    if verbose:
        print(pid, json.dumps(ev['coverage']['by_rule']), json.dumps(ctx.analysed)[:400])
    if new:
        rp = os.path.join(evd, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('rule: %s\nwhere: %s\nat: %s\n%s\nkey: %s\n' % (v['rule'], v['where'], v['at'], v['msg'], v['key']))
                for t in v['trace']:
                    f.write('    %s\n' % t)
                f.write('\n')
        for v in new[:12]:
            print('%s: [%s] %s -- %s  (key %s)' % (v['at'] or '-', v['rule'], v['where'][:200], v['msg'][:400], v['key'][:200]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %d obligations hold (%.1fs)%s' % (pid, len(ctx.obs), time.time() - t0, ', %d known findings' % len(old) if old else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
