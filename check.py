#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]

exit 0  the property's obligations are discharged on the current /repo tree
exit 1  + 'VIOLATION property=<id> replay=<path>' : a construct breaks it
exit 2  the analysis itself is broken (anchor vanished, unreadable program, limits)
"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)

import ctx as ctxmod  # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == 'selftest':
        import build
        build.selftest()
        print('tools present')
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    props = {}
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        if l.strip():
            d = json.loads(l)
            props[d['id']] = d
    mod = importlib.import_module(pid.lower())
    cx = ctxmod.Ctx(pid, tier, HERE)
    try:
        mod.check(cx)
        if not cx.violations:
            cx.finish_floor(getattr(mod, 'FLOOR', 1))
    except ctxmod.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if not cx.violations:
            return 2
    except Exception as e:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s %s: %s' % (pid, type(e).__name__, e))
        if not cx.violations:
            return 2
    known = cx.load_known()
    new = []
    for v in cx.violations:
        if v['key'] in known:
            if v['key'] not in cx.printed:
                cx.printed.add(v['key'])
                print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[v['key']], v['where']))
        else:
            new.append(v)
    ev = cx.evidence(mod, time.time() - t0, new)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s: [%s] %s\n    key=%s\n' % (v['where'], v['rule'], v['msg'], v['key']))
                for x in v.get('path', []):
                    f.write('      %s\n' % (x,))
        for v in new[:20]:
            print('%s: [%s] %s' % (v['where'], v['rule'], v['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d (%s, %.1fs)' % (pid, len(cx.obligations), tier, time.time() - t0))
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
