"""Decides one property by generated-input search.

    python -m vf.run C09 [--tier quick|thorough] [--seed N] [--scale X] [--sub NAME]
    python -m vf.run --replay FILE

Each sub-check of the property is split into shards which run in parallel processes; a shard is a pure function of the
code, VERIF_SEED and the shard number. A failing case is shrunk, written to a replay file which `--replay` runs
without Hypothesis, and reported as VIOLATION.
"""
import argparse
import base64
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env, fresh

PURITY_PROP = 'C32'
CASE_CPU_S = 90          # CPU seconds after which a single case counts as not terminating (typical: milliseconds)
SHRINK_S = 40
BAD_RESULT = (AttributeError, TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError, AssertionError)


class Hang(BaseException):
    pass


def _seed_for(seed, ident, shard):
    h = hashlib.sha256(('%s|%s|%s' % (seed, ident, shard)).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def _files_of(prop):
    with open(os.path.join(env.VERIF, 'properties.jsonl')) as f:
        for line in f:
            d = json.loads(line)
            if d['id'] == prop:
                return d['anchors']['files'], d
    raise SystemExit('unknown property %s' % prop)


def classify(e):
    """'violation' or 'error' (a fault of the harness) for an exception raised by an oracle."""
    from .core import Violation, PurityViolation
    if isinstance(e, (Violation, PurityViolation)):
        return 'violation'
    tb, through_repo = e.__traceback__, False
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(env.REPO + os.sep):
            through_repo = True
        tb = tb.tb_next
    if through_repo and not isinstance(e, (MemoryError, ImportError)):
        return 'violation'
    if through_repo and isinstance(e, ImportError):
        return 'violation'
    if isinstance(e, BAD_RESULT):
        return 'violation'       # the result could not be used: wrong type or structure
    return 'error'


def describe(e):
    from .core import Violation, PurityViolation
    if isinstance(e, (Violation, PurityViolation)):
        return str(e)
    last = traceback.extract_tb(e.__traceback__)
    where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(last[-4:]))
    return 'unexpected %s: %s (%s)' % (type(e).__name__, e, where)


def run_case(sub, case, purity):
    """Run an oracle on one case. Returns None or (kind, message)."""
    from .core import ctx, Violation, PurityViolation
    ctx.purity = purity
    ctx.nontrivial = False
    try:
        sub.fn(case)
    except PurityViolation as e:
        return 'violation', str(e)
    except Exception as e:
        if purity:
            # only purity is decided here; whether the results are right is decided by the other properties
            return ('error', describe(e)) if isinstance(e, (MemoryError,)) else None
        return classify(e), describe(e) if classify(e) == 'violation' else traceback.format_exc()
    return None


def _start_monitor(lines):
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    root = env.REPO + os.sep

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(root):
            lines.add((f[len(root):], line))
        return mon.DISABLE
    try:
        mon.use_tool_id(3, 'vf')
        mon.register_callback(3, mon.events.LINE, on_line)
        mon.set_events(3, mon.events.LINE)
    except ValueError:
        pass


def worker(sub, purity, shard, n, seed, out_path):
    """Runs in its own process; writes its result to out_path."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    import hypothesis.internal.conjecture.engine as engine
    from .core import answer, ctx
    engine.MAX_SHRINKING_SECONDS = SHRINK_S
    lines = set()
    _start_monitor(lines)
    ident = sub.id + ('/purity' if purity else '')
    st = {'evals': 0, 'nt': set(), 'labels': {}, 'samples': [], 'nts': 0}
    fail_rec = {}
    recent = []
    ctx.reset_run()
    if purity:
        ctx.server = fresh.Server(answer)
    labels = ctx.labels
    crash_file = out_path + '.case' if (sub.crashy or purity) else None

    def on_hang(signum, frame):
        raise Hang()
    signal.signal(signal.SIGVTALRM, on_hang)

    def body(case):
        text = json.dumps(case)
        st['evals'] += 1
        if crash_file:
            with open(crash_file, 'w') as f:
                f.write(text)
        recent.append(text)
        if len(recent) > 400:
            del recent[:100]
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            r = run_case(sub, json.loads(text), purity)
        except Hang:
            write({'hang': True, 'case': json.loads(text), 'message': 'no result after %d s of CPU time' % CASE_CPU_S})
            os._exit(0)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if ctx.nontrivial:
            h = hashlib.blake2b(text.encode(), digest_size=8).digest()
            if h not in st['nt']:
                st['nt'].add(h)
                if len(st['samples']) < 2 and len(text) < 1500 or st['evals'] > 100 and len(st['samples']) < 3 and len(text) < 3000:
                    st['samples'].append(json.loads(text))
        if r is not None:
            kind, msg = r
            fail_rec.update(kind=kind, message=msg, case=json.loads(text), history=[json.loads(t) for t in recent[-65:-1]])
            raise RuntimeError(msg if kind == 'violation' else 'HARNESS ' + msg)

    def write(extra):
        res = {'sub': sub.id, 'evals': st['evals'], 'labels': labels, 'samples': st['samples'],
               'nt': base64.b64encode(b''.join(sorted(st['nt']))).decode(), 'lines': sorted(lines), 'calls': ctx.calls, 'fresh': ctx.fresh}
        res.update(extra)
        with open(out_path + '.tmp', 'w') as f:
            json.dump(res, f)
        os.replace(out_path + '.tmp', out_path)

    test = hypothesis.seed(_seed_for(seed, ident, shard))(
        settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False, print_blob=False,
                 verbosity=Verbosity.quiet, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])(
            given(sub.strategy)(body)))
    try:
        test()
    except BaseException as e:  # the failure itself is in fail_rec; anything else is the harness's fault
        if fail_rec:
            write({'fail': fail_rec})
        else:
            write({'error': traceback.format_exc()})
    else:
        if fail_rec:
            # failed once and passed when repeated: the outcome depends on earlier cases
            fail_rec['history_dependent'] = True
            write({'fail': fail_rec})
        else:
            write({})


def preload():
    """The libraries which the code under test imports inside functions, so that no fresh process has to load them."""
    for m in ('cv2', 'decimal', 'scipy.linalg', 'scipy.sparse.linalg', 'scipy.spatial', 'sklearn.decomposition', 'plumbum.cli.terminal', 'simplejson'):
        try:
            __import__(m)
        except ImportError:
            pass


def job_process(sub, purity, shard, n, seed, out_path):
    pid = os.fork()
    if pid:
        return pid
    code = 0
    try:
        os.setpgid(0, 0)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)      # CHOLMOD prints warnings from C
        worker(sub, purity, shard, n, seed, out_path)
    except BaseException:
        traceback.print_exc()
        code = 3
    finally:
        os._exit(code)


def write_replay(prop, rec):
    d = os.path.join(env.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    env.setup()
    from . import registry
    from .core import answer, ctx
    subs = registry.load(None if rec['purity'] else rec['sub'].split('.')[0])
    s = [x for x in subs if x.id == rec['sub']][0]
    if s.prepare:
        s.prepare(None)
    ctx.reset_run()
    if rec['purity']:
        preload()
        ctx.server = fresh.Server(answer)
        ctx.always = True
    r = run_case(s, rec['case'], rec['purity'])
    if r is None and rec.get('history'):
        ctx.reset_run()
        for c in rec['history'] + [rec['case']]:
            r = run_case(s, c, rec['purity'])
    if r is None:
        print('replay of %s: held' % path)
        return 0
    print('%s\n%s' % (rec['sub'], r[1]))
    if r[0] == 'violation':
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    return 2


def known_findings(prop):
    """Lines `known: property=<id> sub=<sub> match=<regex> -- <what fails>` of KNOWN_FINDINGS.txt."""
    out = []
    path = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) sub=(\S+) match=(.*?) -- (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def _with_asan():
    """Start again with the address sanitizer's runtime, if there is one and it works."""
    from . import cholmod_build
    lib = cholmod_build.libasan()
    if not lib:
        return
    e = dict(os.environ, VF_ASAN='1', LD_PRELOAD=lib, PYTHONMALLOC='malloc', ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0')
    try:
        ok = subprocess.run([sys.executable, '-c', 'import numpy, scipy.sparse'], env=e, capture_output=True, timeout=120).returncode == 0
    except (OSError, subprocess.SubprocessError):
        ok = False
    if ok:
        os.execve(sys.executable, [sys.executable, '-W', 'ignore', '-m', 'vf.run'] + sys.argv[1:], e)


# the quick tier runs twice the listed number of cases, except where these are slow
SLOW = ('C28', 'C29', 'C32', 'C33')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--sub')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--timing', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    if a.replay:
        with open(a.replay) as f:
            prop = json.load(f)['property']
    if prop == 'C28' and 'VF_ASAN' not in os.environ:
        _with_asan()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    t0 = time.time()
    files, info = _files_of(prop)
    try:
        env.setup()
        from . import registry
        subs = registry.load(None if prop == PURITY_PROP else prop)
    except Exception as e:
        if classify(e) == 'violation' and not isinstance(e, BAD_RESULT):
            path = write_replay(prop, {'property': prop, 'sub': prop + '.import', 'purity': False, 'case': None, 'message': describe(e)})
            traceback.print_exc()
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        raise
    purity = prop == PURITY_PROP
    subs = [s for s in subs if (s.purity if purity else s.prop == prop)] + ([s for s in subs if s.prop == prop] if purity else [])
    if a.sub:
        subs = [s for s in subs if s.id == a.sub or s.name == a.sub]
    if not subs:
        raise SystemExit('no sub-checks for %s' % prop)
    ncpu = a.jobs or min(8, os.cpu_count() or 1)
    if purity:
        preload()
    scratch = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    jobs = []
    try:
        for s in {id(s.prepare): s for s in subs if s.prepare}.values():
            s.prepare(scratch)
        for s in subs:
            pur = purity and s.prop != prop
            n = s.n if not pur else max(40, s.n // 12)
            n = int(n * a.scale * (s.thorough if a.tier == 'thorough' else 1 if prop in SLOW else 2))
            shards = s.shards or (max(1, min(8 if a.tier == 'quick' else 64, n // 150)) if not pur else max(1, min(8, n // 120)))
            for k in range(shards):
                jobs.append((s, pur, k, max(1, n // shards)))
        jobs.sort(key=lambda j: j[2])
        results, running, fails, errors = [], {}, [], []
        todo = list(enumerate(jobs))
        timing = {}
        while todo or running:
            while todo and len(running) < ncpu and not fails and not errors:
                i, (s, pur, k, n) = todo.pop(0)
                out = os.path.join(scratch, 'job%d' % i)
                pid = job_process(s, pur, k, n, a.seed, out)
                running[pid] = (s, pur, k, n, out, time.time())
            if (fails or errors) and not running:
                break
            if not running:
                continue
            pid, status = os.wait()
            if pid not in running:
                continue
            s, pur, k, n, out, started = running.pop(pid)
            timing[s.id] = timing.get(s.id, 0) + time.time() - started
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                base = {'property': prop, 'sub': s.id, 'purity': pur, 'seed': a.seed, 'shard': k}
                if 'hang' in r:
                    fails.append(dict(base, case=r['case'], message=r['message']))
                elif 'fail' in r:
                    fr = r['fail']
                    if fr['kind'] == 'violation':
                        rec = dict(base, case=fr['case'], message=fr['message'])
                        if fr.get('history_dependent') or pur:
                            rec['history'] = fr['history']
                        known = [kf for kf in known_findings(prop) if kf[1] == s.id and re.search(kf[2], fr['message'])]
                        if not known:
                            fails.append(rec)
                    else:
                        errors.append('%s: %s\ncase: %s' % (s.id, fr['message'], json.dumps(fr['case'])[:2000]))
                elif 'error' in r:
                    errors.append('%s: %s' % (s.id, r['error']))
            elif os.WIFSIGNALED(status) and (s.crashy or pur) and os.path.exists(out + '.case') and os.WTERMSIG(status) != signal.SIGKILL:
                with open(out + '.case') as f:
                    case = json.load(f)
                fails.append({'property': prop, 'sub': s.id, 'purity': pur, 'seed': a.seed, 'shard': k, 'case': case,
                              'message': 'the process was ended by signal %d' % os.WTERMSIG(status)})
            else:
                errors.append('%s shard %d: worker ended with status %d' % (s.id, k, status))
            if fails:
                for p in list(running):
                    try:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                    except (OSError, ChildProcessError):
                        pass
                running.clear()
                break
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)

    nt, labels, samples, lines, evals, calls, per = set(), {}, [], set(), 0, 0, {}
    for r in results:
        b = base64.b64decode(r['nt'])
        nt.update((r['sub'], b[i:i + 8]) for i in range(0, len(b), 8))
        evals += r['evals']
        calls += r['calls']
        per[r['sub']] = per.get(r['sub'], 0) + r['evals']
        for k, v in r['labels'].items():
            labels[r['sub'] + ':' + k] = labels.get(r['sub'] + ':' + k, 0) + v
        if len([x for x in samples if x['check'] == r['sub']]) < (1 if purity else 2):
            samples.extend({'check': r['sub'], 'case': c} for c in r['samples'][:1])
        lines.update(tuple(x) for x in r['lines'])
    import importlib
    mod = None
    try:
        mod = importlib.import_module('vf.props.' + prop.lower())
    except ImportError:
        pass
    rule = (getattr(mod, 'RULE', None) or 'a case is non-trivial when its oracle reached the comparison for inputs in general position') + \
        ' Cases are Hypothesis draws; distinct ones are counted by a hash of the whole case, per sub-check.'
    covered = {}
    for f in files:
        got = sorted(l for (g, l) in lines if g == f)
        if got:
            covered[f] = len(got)
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(nt), 'rule': rule, 'samples': samples[:60],
            'cases_per_check': per, 'classes': dict(sorted(labels.items())), 'calls_of_the_code_under_test_via_harness': calls,
            'lines_executed_in_anchored_files': covered,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fails),
    }
    with open(os.path.join(env.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if a.timing:
        for k, v in sorted(timing.items(), key=lambda kv: -kv[1]):
            print('%-40s %7.1f cpu-s %8d cases' % (k, v, per.get(k, 0)))
        print(json.dumps(ev['coverage']['classes'], indent=0))
    for kf in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf[3]))
    for rec in fails[:1]:
        path = write_replay(prop, rec)
        print('%s: %s' % (rec['sub'], rec['message']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if fails:
        return 1
    if errors:
        for e in errors[:2]:
            sys.stderr.write('harness error (1 of %d): %s\n' % (len(errors), e[-3000:]))
        return 2
    print('%s held: %d cases, %d distinct and non-trivial, %.1f s' % (prop, evals, len(nt), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
