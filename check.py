#!/usr/bin/env python3
"""Run the static check of one property against the source in /repo.

    check.py <ID> [--thorough]     exit 0: holds; exit 1: VIOLATION line printed
    check.py --list
"""
import json, os, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'sa')]
sys.setrecursionlimit(20000)


class Report:
    """What a check found: violations (a stable key naming rule and construct, and details), what it could
    not decide, and what it covered."""

    def __init__(self, pid, thorough):
        self.pid, self.thorough = pid, thorough
        self.violations, self.undecided, self.cov, self.assume = {}, [], {}, []
        self.explanation = ''

    def bad(self, key, text, *details):
        self.violations.setdefault(key, (text, [d for d in details if d]))

    def skip(self, what):
        self.undecided.append(what)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n


def known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith(f'known: property={pid} key='):
                k, _, txt = line[len(f'known: property={pid} key='):].partition(' :: ')
                out[k.strip()] = txt.strip()
    return out


def main():
    import props
    if '--list' in sys.argv:
        for k in sorted(props.REGISTRY):
            print(k, props.REGISTRY[k].__name__)
        return 0
    pid = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    t0 = time.time()
    rep = Report(pid, thorough)
    import harness
    harness.main_alarm()
    try:
        props.REGISTRY[pid](rep)
    except (Exception, harness.TaskTimeout):
        # the source could not be analysed: the property is undecided on this tree, not violated
        rep.skip('analysis failed: ' + traceback.format_exc(limit=-4))
    signal.alarm(0)
    kn = known(pid)
    new = {k: v for k, v in rep.violations.items() if k not in kn}
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = dict(rep.cov)
    cov['explanation'] = rep.explanation or 'static analysis of the source'
    cov['undecided'] = len(rep.undecided)
    if rep.undecided:
        cov['undecided_constructs'] = rep.undecided[:40]
    doc = dict(property=pid, tier='thorough' if thorough else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
               level='other', coverage=cov, assumptions=rep.assume, wall_s=round(time.time() - t0, 3),
               violations=len(new))
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)
        f.write('\n')
    for k in sorted(rep.violations):
        if k in kn:
            print(f'KNOWN-FINDING: property={pid} {kn[k] or rep.violations[k][0]}')
    for u in rep.undecided[:10]:
        print('undecided:', str(u)[:400])
    if new:
        path = os.path.join(ev, pid + '-violation.txt')
        with open(path, 'w') as f:
            for k, (text, det) in sorted(new.items()):
                f.write(f'{k}\n  {text}\n')
                for d in det:
                    f.write(f'    {d}\n')
        for k, (text, det) in sorted(new.items())[:20]:
            print(f'{k}: {text}')
            for d in det[:6]:
                print('    ' + str(d))
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'{pid}: holds on everything analysed ({json.dumps({k: v for k, v in rep.cov.items() if isinstance(v, int)})},'
          f' {time.time() - t0:.1f} s)')
    return 0


if __name__ == '__main__':
    sys.exit(main())
