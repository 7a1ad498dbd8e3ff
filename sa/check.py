"""usage: check.py PROPERTY [quick|thorough]"""
import json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prog import Program, AnalysisBroken, VERIF, REPO
from core import Ctx
import registry


def known():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> key=<key> <what fails>
                parts = l[len('finding: '):].split(' ', 2)
                res.append((parts[0].split('=', 1)[1], parts[1].split('=', 1)[1], parts[2]))
    return res


def out_of_time(sig, frame):
    raise AnalysisBroken('time budget used up')


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    entry = registry.RULES[pid]
    try:
        P = Program()
    except AnalysisBroken as e:
        print('ANALYSIS-ERROR property=%s %s' % (pid, e))
        sys.exit(2)
    ctx = Ctx(P, pid, tier)
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, out_of_time)
    budget = 600 if tier == 'quick' else 780
    for name, f in entry['rules']:
        ctx.rule = name
        signal.alarm(max(10, int(budget - (time.time() - t0))))
        try:
            f(ctx)
        except AnalysisBroken as e:
            # what the rule is about was not found, or not understood: said so, never passed off as a verdict
            ctx.unk(f.__module__, 'the rule could not be applied to this tree', str(e))
        except Exception as e:
            if os.environ.get('SA_VERBOSE'):
                traceback.print_exc()
            ctx.unk(f.__module__, 'the rule could not be applied to this tree', 'the analysis stopped: %s %s' % (type(e).__name__, str(e)[:200]))
        finally:
            signal.alarm(0)
    n = {'ok': 0, 'bad': 0, 'unknown': 0}
    for o in ctx.obs:
        n[o[3]] += 1
    if n['ok'] + n['bad'] == 0:
        print('ANALYSIS-ERROR property=%s no obligation could be decided: %s' % (pid, '; '.join(o[4] for o in ctx.obs)[:500]))
        sys.exit(2)
    kf = [k for k in known() if k[0] == pid]
    bad, found = [], set()
    for o in ctx.obs:
        if o[3] != 'bad':
            continue
        key = finding_key(o)
        m = [k for k in kf if k[1] == key]
        if m:
            if key not in found:
                found.add(key)
                print('KNOWN-FINDING: property=%s %s' % (pid, m[0][2]))
        else:
            bad.append(o)
    fs = sorted(ctx.stats())
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(time.time() - t0, 2),
              assumptions=entry.get('assumptions', []), violations=len(bad),
              coverage=dict(explanation=entry['explanation'], rules=[r[0] for r in entry['rules']], obligations=len(ctx.obs), discharged=n['ok'],
                            undecided=n['unknown'], known_findings=len(found), functions_analysed=len(fs), functions=fs[:400],
                            abstract_paths=ctx.paths, translation_units=len(P.units),
                            samples=[dict(rule=o[0], where=o[1], obligation=o[2], verdict=o[3]) for o in (sample(ctx.obs))],
                            undecided_list=[dict(rule=o[0], where=o[1], obligation=o[2], why=o[4]) for o in ctx.obs if o[3] == 'unknown'][:50]))
    ed = os.environ.get('SA_EVID') or os.path.join(VERIF, 'evidence')     # development only
    os.makedirs(ed, exist_ok=True)
    json.dump(ev, open(os.path.join(ed, pid + '.json'), 'w'), indent=1)
    if os.environ.get('SA_VERBOSE'):
        for o in ctx.obs:
            if o[3] != 'ok' or os.environ['SA_VERBOSE'] == '2':
                print('  [%s] %s | %s | %s | %s' % (o[3], o[0], o[1], o[2], o[4]))
    for o in ctx.obs:
        if o[3] == 'unknown':
            print('UNDECIDED property=%s %s: %s (%s)' % (pid, o[1], o[2], o[4]))
    if bad:
        rp = os.path.join(ed, pid + '.violation.json')
        json.dump([dict(rule=o[0], where=o[1], obligation=o[2], detail=o[4]) for o in bad], open(rp, 'w'), indent=1)
        for o in bad[:20]:
            print('  rule %s at %s: %s%s' % (o[0], o[1], o[2], ' -- ' + o[4] if o[4] else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    print('property=%s held: %d obligations, %d discharged, %d undecided, %d functions, %d abstract paths, %.1f s' %
          (pid, len(ctx.obs), n['ok'], n['unknown'], len(fs), ctx.paths, time.time() - t0))


def finding_key(o):
    import hashlib, re
    # the construct, without line numbers
    w = re.sub(r':\d+ ', ' ', o[1])
    return hashlib.sha256(('%s|%s|%s' % (o[0], w, o[2])).encode()).hexdigest()[:12]


def sample(obs):
    res, seen = [], {}
    for o in obs:
        k = (o[0], o[1].split(' ')[-1])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 2:
            res.append(o)
    return res[:40]


if __name__ == '__main__':
    main()
