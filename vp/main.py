import sys, os, json, time, argparse, importlib, tempfile, shutil, signal, resource, traceback, random

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
from vp import core
from vp.core import Violation, HarnessError, Hang, Stop, Ctx, canon, casehash

SHRINK_S = {'quick': 45, 'thorough': 180}
BUDGET_S = {'quick': 400, 'thorough': 3000}     # backstop per shard: stops generating, never a verdict


def load_check(pid):
    mod = importlib.import_module('checks.' + pid.lower())
    return mod.CHECK


def known_entries(pid):
    """`known: property=<id> sub=<sub> case=<json> :: what` lines of known_findings.txt"""
    res = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(fn):
        return res
    for l in open(fn, encoding='utf-8'):
        l = l.strip()
        if not l.startswith('known: '):
            continue
        head, what = l[7:].rsplit(' :: ', 1)
        p, s, c = head.split(' ', 2)
        if p.split('=', 1)[1] != pid:
            continue
        res.append((s.split('=', 1)[1], json.loads(c.split('=', 1)[1]), what))
    return res


def corpus_cases(pid, sub):
    """Committed regression cases (shrunk failures of earlier, since repaired, defects)"""
    fn = os.path.join(VERIF, 'corpus', pid + '.jsonl')
    if os.path.exists(fn):
        for l in open(fn, encoding='utf-8'):
            if l.strip():
                d = json.loads(l)
                if d['sub'] == sub:
                    yield d['case']


def _onalarm(signum, frame):
    raise Hang()


def run_case(sub, case, ctx):
    """Decide one case. Returns None if it holds, else a message."""
    ctx.reset()
    signal.setitimer(signal.ITIMER_PROF, sub.cpu, 0.5)
    try:
        sub.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except (HarnessError, AssertionError):
        raise
    except Exception as e:
        # what the code answered is of no use at all (None for a string, say): the checks use
        # nothing of it that the unchanged tree does not give on every input
        signal.setitimer(signal.ITIMER_PROF, 0)
        last = traceback.extract_tb(e.__traceback__)[-1]
        return "what the code gave cannot be used: {}: {} (at {}:{})".format(
            type(e).__name__, str(e)[:300], os.path.basename(last.filename), last.lineno)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def shard_main(check, sub, shard, tier, seed, scale, outfile, scratch):
    """Body of one forked worker: run corpus + generated cases of one sub-check."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    signal.signal(signal.SIGPROF, _onalarm)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    sys.setrecursionlimit(5000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    sys.stdout = open(1, 'w', closefd=False)
    ctx = Ctx(scratch)
    known = {(s, canon(c)) for s, c, w in known_entries(check.pid)}
    st = dict(evaluations=0, hashes=set(), labels={}, samples=[], failure=None, skipped=0, known=0, error=None)
    t0 = time.time()
    state = dict(first=None, best=None)

    def one(case):
        if time.time() - t0 > BUDGET_S[tier] and state['first'] is None:
            st['skipped'] += 1
            return
        if state['first'] is not None and time.time() - state['first'] > SHRINK_S[tier]:
            raise Stop()
        key = canon(case)
        if (sub.name, key) in known:
            st['known'] += 1
            return
        case = json.loads(key)          # the case is exactly what a replay file can carry
        try:
            msg = run_case(sub, case, ctx)
        except Hang:
            state['best'] = (case, "no answer after {} s of processor time".format(sub.cpu))
            raise Stop()
        st['evaluations'] += 1
        for l in ctx.labels:
            st['labels'][l] = st['labels'].get(l, 0) + 1
        if ctx.nontriv:
            h = casehash(case)
            if h not in st['hashes']:
                st['hashes'].add(h)
                if len(st['samples']) < 3 or (len(st['samples']) < 5 and random.Random(h).random() < 0.01):
                    if len(key) < 3000:
                        st['samples'].append(case)
        if msg is not None:
            if state['first'] is None:
                state['first'] = time.time()
            if state['best'] is None or len(key) <= len(canon(state['best'][0])):
                state['best'] = (case, msg)
            raise Violation(msg)

    try:
        if shard == 0:
            fixed = sub.fixed() if callable(sub.fixed) else sub.fixed
            for c in list(corpus_cases(check.pid, sub.name)) + list(fixed):
                one(c)
        n = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, int(n * scale))
        if sub.strategy is not None:
            strat = sub.strategy()
            hseed = (seed * 1000003 + shard * 7919 + sum(map(ord, sub.name)) * 104729) & 0x7fffffff

            def test(case):
                one(case)
            test = given(strat)(test)
            test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                            phases=(Phase.generate, Phase.shrink), print_blob=False,
                            suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(hseed)(test)
            test()
    except Stop:
        pass
    except Violation:
        pass
    except BaseException as e:
        if state['best'] is None:
            st['error'] = "".join(traceback.format_exception(e))[-4000:]
    if state['best'] is not None:
        st['failure'] = dict(case=state['best'][0], msg=state['best'][1])
    st['hashes'] = sorted(st['hashes'])
    st['wall'] = time.time() - t0
    with open(outfile, 'w', encoding='utf-8') as f:
        json.dump(st, f)


def replay(check, path):
    d = json.load(open(path, encoding='utf-8'))
    sub = [s for s in check.subs if s.name == d['sub']][0]
    signal.signal(signal.SIGPROF, _onalarm)
    scratch = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        try:
            msg = run_case(sub, d['case'], Ctx(scratch))
        except Hang:
            msg = "no answer after {} s of processor time".format(sub.cpu)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is None:
        print("holds: property={} sub={} replay={}".format(check.pid, sub.name, path))
        return 0
    print("sub={} {}".format(sub.name, msg))
    print("VIOLATION property={} replay={}".format(check.pid, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--sub')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    t0 = time.time()
    check = load_check(args.pid)
    if args.replay:
        return replay(check, args.replay)

    top = tempfile.mkdtemp(prefix='vp-{}-'.format(check.pid))
    tasks = []
    for sub in check.subs:
        if args.sub and sub.name != args.sub:
            continue
        for s in range(sub.qshards if tier == 'quick' else sub.tshards):
            tasks.append((sub, s))
    running, results, err = {}, [], None
    queue = list(tasks)
    known_lines = []
    try:
        # listed findings: say what still fails; they never turn into a verdict
        for sname, case, what in known_entries(check.pid):
            known_lines.append("KNOWN-FINDING: property={} {}".format(check.pid, what))
        sys.stdout.flush()
        while queue or running:
            while queue and len(running) < args.jobs:
                sub, s = queue.pop(0)
                out = os.path.join(top, '{}-{}.json'.format(sub.name, s))
                scratch = os.path.join(top, '{}-{}.d'.format(sub.name, s))
                os.mkdir(scratch)
                pid = os.fork()
                if pid == 0:
                    try:
                        shard_main(check, sub, s, tier, args.seed, args.scale, out, scratch)
                        os._exit(0)
                    except BaseException:
                        traceback.print_exc()
                        os._exit(3)
                running[pid] = (sub, s, out)
            pid, status = os.wait()
            if pid not in running:
                continue
            sub, s, out = running.pop(pid)
            if os.path.exists(out):
                d = json.load(open(out, encoding='utf-8'))
                d['sub'], d['shard'] = sub.name, s
                results.append(d)
                if d['error']:
                    err = "{} shard {}: {}".format(sub.name, s, d['error'])
            else:
                err = "{} shard {} ended with status {}".format(sub.name, s, status)
    finally:
        shutil.rmtree(top, ignore_errors=True)

    results.sort(key=lambda d: (d['sub'], d['shard']))
    fails = [d for d in results if d['failure']]
    hashes, persub = set(), {}
    for d in results:
        p = persub.setdefault(d['sub'], dict(evaluations=0, nontrivial=set(), labels={}, skipped=0, wall_s=0))
        p['evaluations'] += d['evaluations']
        p['nontrivial'].update(d['hashes'])
        p['skipped'] += d['skipped']
        p['wall_s'] = round(max(p['wall_s'], d['wall']), 1)
        for l, n in d['labels'].items():
            p['labels'][l] = p['labels'].get(l, 0) + n
        hashes.update((d['sub'], h) for h in d['hashes'])
    samples = []
    for d in results:
        for c in d['samples'][:2]:
            if sum(1 for x in samples if x['sub'] == d['sub']) < 3:
                samples.append(dict(sub=d['sub'], case=c))
    evals = sum(p['evaluations'] for p in persub.values())
    for p in persub.values():
        p['distinct_nontrivial'] = len(p.pop('nontrivial'))
        p['labels'] = dict(sorted(p['labels'].items()))
    ev = dict(property=check.pid, tier=tier, seed=args.seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=check.rule,
                            samples=samples or ['(none)'], sub_checks=persub,
                            known_excluded=sum(d['known'] for d in results)),
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(fails))
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, check.pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write('\n')
    for l in known_lines:
        print(l)
    for name, p in persub.items():
        print("{} {}: {} cases, {} distinct non-trivial, {:.1f}s{}".format(
            check.pid, name, p['evaluations'], p['distinct_nontrivial'], p['wall_s'],
            " ({} not run: time)".format(p['skipped']) if p['skipped'] else ""))
        if args.v:
            for l, n in p['labels'].items():
                print("    {}: {}".format(l, n))
    if fails:
        rdir = os.path.join(evdir, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for d in sorted(fails, key=lambda d: len(canon(d['failure']['case']))):
            if d['sub'] in seen:
                continue
            seen.add(d['sub'])
            rp = os.path.join(rdir, '{}-{}.json'.format(check.pid, d['sub']))
            with open(rp, 'w', encoding='utf-8') as f:
                json.dump(dict(property=check.pid, sub=d['sub'], message=d['failure']['msg'],
                               case=d['failure']['case']), f, indent=1)
                f.write('\n')
            print("{}: {}\n  case: {}".format(d['sub'], d['failure']['msg'][:1500], canon(d['failure']['case'])[:1500]))
            print("VIOLATION property={} replay={}".format(check.pid, rp))
        return 1
    if err:
        print("CHECK ERROR (no verdict): " + err, file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
