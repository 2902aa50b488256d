"""
Runs the check of one property.

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: error of the harness
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
KNOWN = os.path.join(HERE, 'known-findings.txt')


def known_findings(pid):
    """{regression name: description} of the open findings"""
    r = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('open: property=%s case=' % pid):
                    rest = line.split('case=', 1)[1]
                    name, _, text = rest.partition(' ')
                    r[name] = text
    except FileNotFoundError:
        pass
    return r


def save_replay(pid, data):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.blake2b(json.dumps(data, sort_keys=True, default=repr).encode('utf8', 'backslashreplace'), digest_size=5).hexdigest()
    path = os.path.join(d, '%s-%s.json' % (pid, h))
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=repr)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
    args = ap.parse_args()
    pid = args.property.upper()
    t0 = time.monotonic()

    from tlv import engine
    try:
        from tlv.rt import REPO, Violation
        mod = importlib.import_module('props.' + pid.lower())
    except ImportError as e:
        # the code under test can not even be imported
        traceback.print_exc()
        return 2
    prop = mod.P()

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        if 'regression' in data:
            f = dict(prop.regressions())[data['regression']]
            try:
                f()
            except Violation as e:
                print(e)
                print('VIOLATION property=%s replay=%s' % (pid, args.replay))
                return 1
            print('not reproduced')
            return 0
        status, case, msg = engine.run_case(prop, engine.Source(None, data['choices']))
        print('\n'.join(case.text))
        print(status, msg)
        if status == 'violation':
            print('VIOLATION property=%s replay=%s' % (pid, args.replay))
            return 1
        return 0

    thorough = args.tier == 'thorough'
    violations = []
    known = known_findings(pid)
    nreg = 0
    samples = []
    for name, f in prop.regressions():
        nreg += 1
        try:
            f()
        except Violation as e:
            if name in known:
                print('KNOWN-FINDING: property=%s %s' % (pid, known[name]))
                continue
            path = save_replay(pid, {'property': pid, 'regression': name, 'message': str(e)})
            print(e)
            violations.append(path)
            break

    st = engine.Stats()
    if not violations:
        n = args.cases or (prop.thorough if thorough else prop.quick)
        budget = prop.thorough_s if thorough else prop.quick_s
        guided = (args.procs // 2 if thorough else 1) if prop.guided else 0
        st = engine.explore(prop, args.seed, n, budget, args.procs, guided, os.path.join(os.path.realpath(REPO), 'typedload'))
        if st.error:
            print(st.error, file=sys.stderr)
            return 2
        if st.failure:
            rec, msg = st.failure
            best, r = engine.shrink(prop, rec)
            text = []
            if r:
                rec, (msg, case) = best, r
                text = case.text
            print('\n'.join(text))
            print(msg)
            violations.append(save_replay(pid, {
                'property': pid, 'seed': args.seed, 'choices': rec, 'message': msg, 'case': text}))

    if nreg:
        samples = ['fixed cases: ' + ', '.join(n for n, _ in prop.regressions())]
    ev = {
        'property': pid,
        'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick',
        'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': st.evals + nreg,
            'distinct_nontrivial': len(st.keys),
            'rule': ' '.join(prop.rule.split()),
            'samples': st.samples[:4] + samples,
            'cases': st.cases,
            'discarded': st.discards,
            'inconclusive_timeouts': st.timeouts,
            'stopped_by_budget': st.stopped_early,
            'labels': dict(sorted(st.labels.items())),
            'guided_corpus': st.corpus,
            'guided_arcs': st.arcs,
            'fixed_cases': nreg,
        },
        'assumptions': list(getattr(prop, 'assumptions', ())),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(violations),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d cases, %d evaluations, %d distinct non-trivial, %d fixed cases, %d discarded, %.1fs%s' % (
        pid, st.cases, st.evals, len(st.keys), nreg, st.discards, ev['wall_s'],
        ' (stopped by the time budget)' if st.stopped_early else ''))
    for path in violations:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
