"""Runs one property check: generates cases, farms them out to worker processes,
collects observations, writes evidence and replays, prints the verdict.

  python -m vp.runner C01 [--tier quick|thorough] [--replay FILE] [--jobs N]

Exit: 0 held; 1 violated (with a VIOLATION line); 3 inconclusive.
"""
import argparse
import hashlib
import importlib
import json
import os
import queue
import signal
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
PYTHON = os.environ.get('VP_PYTHON', '/opt/venv/bin/python')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')
MAX_VIOLATIONS = 5


class Ctx:
    """What a case reports. One per case."""

    def __init__(self):
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.evals = 0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ran(self, n=1):
        """n oracle evaluations (executions judged)."""
        self.evals += n

    def sig(self, *parts):
        """Marks a distinct non-trivial situation."""
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def viol(self, msg, key=None, **detail):
        """key: mechanism, matched against known-findings.txt."""
        self.violations.append({'msg': str(msg)[:2000], 'key': key,
                                'detail': {k: repr(v)[:1000] for k, v in detail.items()}})

    def check(self, cond, msg, key=None, **detail):
        self.evals += 1
        if not cond:
            self.viol(msg, key, **detail)
        return cond

    def result(self):
        return {'counts': self.counts, 'sigs': sorted(self.sigs), 'evals': self.evals,
                'samples': self.samples, 'violations': self.violations}


UNINTERPRETABLE = (LookupError, ValueError, TypeError)
NEVER = (UnicodeError, json.JSONDecodeError)


def in_repo(tb):
    """Whether an exception's innermost non-library frames are arroba's."""
    files = [f.filename for f in traceback.extract_tb(tb)]
    last = None
    for f in files:
        if f.startswith(REPO + '/'):
            last = 'repo'
        elif f.startswith(VERIF + '/'):
            last = 'verif'
    return last == 'repo'


class CpuExceeded(Exception):
    """A case burnt far more CPU time than any case of its kind needs."""


def on_cpu(*_):
    raise CpuExceeded('still running after using far more CPU time than it needs')


def run_one(mod, case):
    ctx = Ctx()
    err = None
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU', 200))
    try:
        mod.run_case(case, ctx)
    except Exception as e:
        tb = ''.join(traceback.format_exception(e))[-3000:]
        # exceptions out of arroba from calls that must succeed, and answers from
        # it that cannot be interpreted, are violations. anything about the
        # harness itself (imports, missing attributes, watchdogs) is not
        if in_repo(e.__traceback__) or (isinstance(e, UNINTERPRETABLE) and not isinstance(e, NEVER)):
            ctx.viol(f'operation that must succeed raised {type(e).__name__}: {e}',
                     key=getattr(e, 'vp_key', None), traceback=tb)
        else:
            err = tb
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    res = ctx.result()
    res['error'] = err
    return res


def run_isolated(mod, case):
    """Runs a case in a forked child, so that threads and module state it leaves
    behind don't matter."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, on_cpu)
            data = json.dumps(run_one(mod, case), default=repr).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {**Ctx().result(), 'error': f'child died {case}'}
    return json.loads(data)


def worker(prop):
    """Reads cases as JSON lines on stdin, writes results as JSON lines on fd 3."""
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)  # library prints go to stderr
    mod = importlib.import_module(f'vp.checks.{prop.lower()}')
    signal.signal(signal.SIGPROF, on_cpu)
    if hasattr(mod, 'setup'):
        mod.setup()
    out.write('ready\n')
    out.flush()
    run = run_isolated if getattr(mod, 'ISOLATE', False) else run_one
    for line in sys.stdin:
        res = run(mod, json.loads(line))
        out.write(json.dumps(res, default=repr) + '\n')
        out.flush()
    os._exit(0)


def load_findings(prop):
    """{key: text} of open findings."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('finding: '):
                fields = line.split(' ', 3)
                p, k = fields[1].partition('=')[2], fields[2].partition('=')[2]
                if p == prop:
                    out[k] = fields[3]
    return out


class Pool:
    def __init__(self, prop, jobs, case_timeout):
        self.prop, self.jobs, self.case_timeout = prop, jobs, case_timeout

    def spawn(self):
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPATH=VERIF)
        p = subprocess.Popen([PYTHON, '-m', 'vp.runner', '--worker', self.prop],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=self.errlog, cwd=VERIF, env=env, text=True,
                             start_new_session=True)
        return p

    def run(self, cases, deadline, on_result):
        """on_result(case, result or None if hung/died) -> True to stop."""
        import tempfile
        self.errlog = tempfile.TemporaryFile('w+')
        todo = iter(cases)
        lock = threading.Lock()
        stop = threading.Event()

        def take():
            with lock:
                return next(todo, None)

        def serve():
            p = None
            while not stop.is_set() and time.time() < deadline:
                case = take()
                if case is None:
                    break
                if p is None:
                    p = self.spawn()
                    line = self.readline(p, 180)
                    if line != 'ready\n':
                        with lock:
                            if on_result(case, None, 'worker did not start: ' + self.tail()):
                                stop.set()
                        self.kill(p)
                        p = None
                        stop.set()
                        break
                try:
                    p.stdin.write(json.dumps(case) + '\n')
                    p.stdin.flush()
                    line = self.readline(p, self.case_timeout)
                except (BrokenPipeError, OSError):
                    line = ''
                if line and line.startswith('{'):
                    with lock:
                        if on_result(case, json.loads(line), None):
                            stop.set()
                else:
                    why = 'hung' if line is None else 'worker died'
                    self.kill(p)
                    p = None
                    with lock:
                        if on_result(case, None, why + ': ' + self.tail()):
                            stop.set()
            if p:
                p.stdin.close()
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    self.kill(p)

        threads = [threading.Thread(target=serve) for _ in range(self.jobs)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    @staticmethod
    def kill(p):
        """Also ends processes it forked."""
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def tail(self):
        try:
            self.errlog.seek(0)
            return self.errlog.read()[-2000:]
        except (OSError, ValueError):
            return ''

    @staticmethod
    def readline(p, timeout):
        """A line from the worker, '' on EOF, None on timeout."""
        q = queue.Queue()
        t = threading.Thread(target=lambda: q.put(p.stdout.readline()), daemon=True)
        t.start()
        try:
            return q.get(timeout=timeout)
        except queue.Empty:
            return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--worker')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VP_JOBS') or min(8, os.cpu_count() or 4)))
    args = ap.parse_args()
    if args.worker:
        return worker(args.worker)

    prop = args.prop
    start = time.time()
    # the parent only needs the module's metadata and case generator, which
    # must not import arroba
    mod = importlib.import_module(f'vp.checks.{prop.lower()}')

    if args.replay:
        case = json.load(open(args.replay))['case']
        cases = [case]
    else:
        cases = list(mod.cases(args.tier, args.seed))
        assert cases

    known = load_findings(prop)
    limit = getattr(mod, 'DEADLINE', {}).get(args.tier) or (420 if args.tier == 'quick' else 3600)
    totals = {'counts': {}, 'sigs': set(), 'evals': 0, 'samples': [], 'cases': 0}
    violations, found, errors = [], {}, []

    def on_result(case, res, why):
        if res is None:
            errors.append((case, why))
            return len(errors) >= 3
        totals['cases'] += 1
        for k, n in res['counts'].items():
            totals['counts'][k] = totals['counts'].get(k, 0) + n
        totals['sigs'].update(res['sigs'])
        totals['evals'] += res['evals']
        if len(totals['samples']) < 4:
            totals['samples'].extend({'case': case, **s} if isinstance(s, dict) else {'case': case, 'sample': s}
                                     for s in res['samples'][:1])
        if res['error']:
            errors.append((case, res['error']))
        for v in res['violations']:
            if v['key'] and v['key'] in known:
                found.setdefault(v['key'], (case, v))
            else:
                violations.append((case, v))
        return len(violations) >= MAX_VIOLATIONS or len(errors) >= 3

    Pool(prop, args.jobs, getattr(mod, 'CASE_TIMEOUT', 240)).run(
        cases, start + limit, on_result)

    for key, (case, v) in sorted(found.items()):
        print(f'KNOWN-FINDING: property={prop} {known[key]}')

    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    seen = set()
    for case, v in violations:
        name = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', f'{prop}-{name}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': case, 'seed': args.seed,
                       'violations': [x for c, x in violations if c is case]}, f, indent=1)
        if path not in seen and len(seen) < 3:
            seen.add(path)
            print(f'VIOLATION property={prop} replay={path}')
            print('  ' + v['msg'][:600] + (f' [{v["key"]}]' if v['key'] else ''))
            for k, d in list(v["detail"].items())[:4]:
                print(f'    {k}: {d[-400:]}')

    missing = [c for c in getattr(mod, 'REQUIRED', ()) if not totals['counts'].get(c)]
    coverage = {
        'evaluations': totals['evals'],
        'distinct_nontrivial': len(totals['sigs']),
        'rule': mod.RULE,
        'samples': totals['samples'] or [{'case': cases[0]}],
        'cases_planned': len(cases),
        'cases_run': totals['cases'],
        'observed': dict(sorted(totals['counts'].items())),
        'known_findings_seen': sorted(found),
    }
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': args.seed, 'level': mod.LEVEL,
        'coverage': coverage, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(time.time() - start, 2), 'violations': len(violations),
    }
    if not args.replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(evidence, f, indent=1, default=repr)

    print(f'{prop} {args.tier} seed={args.seed}: {totals["cases"]}/{len(cases)} cases, '
          f'{totals["evals"]} evaluations, {len(totals["sigs"])} distinct, '
          f'{len(violations)} violations, {len(errors)} errors, {time.time() - start:.1f}s')
    print('  observed: ' + json.dumps(coverage['observed']))
    if violations:
        return 1
    if errors:
        for case, why in errors[:3]:
            print(f'INCONCLUSIVE {prop}: {json.dumps(case)[:300]}\n{why[-2500:]}')
            break
        return 3
    if not args.replay and (missing or not totals['sigs'] or totals['cases'] < max(1, len(cases) // 10)):
        print(f'INCONCLUSIVE {prop}: monitor not reached: {missing or "too few cases"}')
        return 3
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc or 0)
