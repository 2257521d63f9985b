"""Runs one check: reports, known findings, evidence, exit status."""
import sys, os, time, json, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.setrecursionlimit(20000)
import ir


class Ctx:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.reports = []
        s.cov = {}
        s.expl = ''
        s.assumptions = []
        s.level = 'other'

    def violation(s, key, loc, msg, trace=()):
        """key: names the construct, without line numbers"""
        if key not in [r['key'] for r in s.reports]:
            s.reports.append({'key': key, 'loc': loc, 'message': msg, 'trace': list(trace)})

    def cover(s, **kw):
        for k, v in kw.items():
            s.cov[k] = v

    def need(s, n, what, at_least=1):
        if n < at_least:
            raise ir.Broken('found %d %s, expected at least %d: the anchors of this check are gone' % (n, what, at_least))

    def explain(s, txt): s.expl = ' '.join(txt.split())

    def assume(s, *t): s.assumptions += t


def known(pid):
    r = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    for l in open(p):
        if l.startswith('finding: property=%s ' % pid):
            rest = l.split(' ', 2)[2]
            key, _, what = rest.partition(' :: ')
            r[key.strip()[4:]] = what.strip()
    return r


def how(pid):
    sys.path.insert(0, os.path.join(ROOT, 'tools'))
    import props
    p = ([p for p in props.P if p["id"] == pid] or [{"how": "?", "note": "?"}])[0]
    return ' '.join((p['how'] + ' ' + p['note']).split())


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t = time.time()
    ctx = Ctx(pid, tier)
    try:
        importlib.import_module(pid.lower()).run(ctx)
    except ir.Broken as e:
        print('ERROR: %s: cannot decide: %s' % (pid, e))
        if not any(r['key'] not in known(pid) for r in ctx.reports): sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ERROR: %s: the check itself failed' % pid)
        sys.exit(2)
    kn = known(pid)
    new = []
    for r in ctx.reports:
        if r['key'] in kn:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[r['key']], r['loc']))
        else:
            new.append(r)
    cov = dict(ctx.cov)
    if ctx.level == 'other':
        cov['explanation'] = ctx.expl if len(ctx.expl) > 5 else how(pid)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': ctx.level, 'coverage': cov,
          'wall_s': round(time.time() - t, 2), 'violations': len(new), 'assumptions': ctx.assumptions}
    ed = os.environ.get('SLIMCC_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(ed, pid + '.report.json')
    if os.path.exists(rp): os.unlink(rp)
    print('%s: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in ctx.cov.items() if isinstance(v, (int, float)))))
    if new:
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
        for r in new:
            print('  %s: %s [%s]' % (r['loc'], r['message'], r['key']))
            for x in r['trace']: print('      ' + x)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
