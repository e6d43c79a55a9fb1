#!/usr/bin/env python3
"""Entry point of every check.

    python3 run.py C03                 run the check of property C03 (tier from VERIF_TIER, default quick)
    python3 run.py C03 --tier thorough
    python3 run.py C03 --replay FILE   run one recorded case again
    python3 run.py all                 run every registered check

The check itself runs in fresh interpreter processes (shards) of the virtualenv the repository uses, with the
working tree at /repo (or $VERIF_REPO) at the front of the module path, in a scratch directory that is removed
afterwards. Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Anything else: the check
itself is broken.
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


def child_env(scratch, shard):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'METATAB', 'METAPACK'))}
    d = os.path.join(scratch, 's%d' % shard)
    os.makedirs(os.path.join(d, 'cache'), exist_ok=True)
    os.makedirs(os.path.join(d, 'tmp'), exist_ok=True)
    env.update(PYTHONHASHSEED=str(shard), PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore',
               PYTHONUTF8='1', METAPACK_CACHE=os.path.join(d, 'cache'), METATAB_CACHE=os.path.join(d, 'cache'),
               TMPDIR=os.path.join(d, 'tmp'), HOME=d, VERIF_SHARD_DIR=d, LC_ALL='C.UTF-8')
    return env, d


def run_check(pid, tier, seed, shards, replay=None):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        procs = []
        for i in range(shards):
            env, d = child_env(scratch, i)
            out = os.path.join(d, 'result.json')
            cmd = [PYTHON, os.path.join(HERE, 'vlib', 'shard.py'), pid, '--tier', tier, '--seed', str(seed),
                   '--shard', str(i), '--shards', str(shards), '--out', out]
            if replay:
                cmd += ['--replay', os.path.abspath(replay)]
            log = open(os.path.join(d, 'log'), 'wb')
            procs.append((subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT,
                                           stdin=subprocess.DEVNULL, start_new_session=True), out, d))
        results, broken = [], []
        deadline = t0 + (820 if tier == 'quick' else 6 * 3600)
        for p, out, d in procs:
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            if rc != 0 or not os.path.exists(out):
                with open(os.path.join(d, 'log'), 'rb') as f:
                    broken.append((rc, f.read()[-4000:].decode('utf8', 'replace')))
        return finish(pid, tier, seed, shards, results, broken, time.time() - t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def finish(pid, tier, seed, shards, results, broken, wall, replay):
    failures = [f for r in results for f in r['failures']]
    known = sorted({k for r in results for k in r['known']})

    if not replay:
        write_evidence(pid, tier, seed, shards, results, failures, wall)

    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))

    if failures:
        f = min(failures, key=lambda f: len(json.dumps(f['case'])))
        if replay:
            path = os.path.abspath(replay)
        else:
            h = hashlib.sha1(json.dumps([f['check'], f['case']], sort_keys=True).encode()).hexdigest()[:12]
            rd = os.environ.get('VERIF_REPLAYS') or os.path.join(HERE, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s-%s.json' % (pid, f['check'], h))
            with open(path, 'w') as out:
                json.dump(dict(property=pid, check=f['check'], case=f['case'], error=f['error'], seed=seed), out,
                          indent=1)
        print('--- %s / %s: minimal failing case found:' % (pid, f['check']))
        print(json.dumps(f['case'])[:3000])
        print(f['error'][-2500:])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1

    if broken:
        for rc, log in broken:
            print('BROKEN check %s: shard ended with %s\n%s' % (pid, rc, log), file=sys.stderr)
        return 2

    n = sum(sum(c['evaluations'] for c in r['checks'].values()) for r in results)
    print('OK property=%s tier=%s seed=%s cases=%d wall=%.1fs' % (pid, tier, seed, n, wall))
    return 0


def write_evidence(pid, tier, seed, shards, results, failures, wall):
    checks, seen = {}, set()
    for r in results:
        for name, c in r['checks'].items():
            m = checks.setdefault(name, dict(evaluations=0, nontrivial=0, excluded=0, labels={}, rule=c['rule'],
                                             samples=[], stopped_early=False, hashes=set()))
            m['evaluations'] += c['evaluations']
            m['nontrivial'] += c['nontrivial']
            m['excluded'] += c['excluded']
            m['stopped_early'] |= c['stopped_early']
            m['hashes'].update(c['hashes'])
            for k, v in c['labels'].items():
                m['labels'][k] = m['labels'].get(k, 0) + v
            if len(m['samples']) < 2:
                m['samples'] += c['samples'][:2]
    samples = []
    for name, m in checks.items():
        m['distinct_nontrivial'] = len(m['hashes'])
        for h in m.pop('hashes'):
            seen.add((name, h))
        for s in m.pop('samples'):
            samples.append(dict(check=name, case=s))
        m['labels'] = dict(sorted(m['labels'].items()))
    rule = ' || '.join('%s: %s' % (n, m['rule']) for n, m in checks.items())
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(m['evaluations'] for m in checks.values()),
                            distinct_nontrivial=len(seen), rule=rule, samples=samples[:12],
                            shards=shards, checks=checks),
              assumptions=['Cases are generated by Hypothesis from VERIF_SEED; the oracle is code in /verif.',
                           'No network; files are read and written only inside a scratch directory.'],
              wall_s=round(wall, 2), violations=len(failures))
    d = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--self-test', action='store_true', help='see that the interpreter and its libraries are there')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--shards', type=int, default=int(os.environ.get('VERIF_SHARDS') or 0))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.self_test:
        code = ('import sys, tempfile; sys.path.insert(0, %r); from vlib import shard; import rowgenerators, yaml\n'
                'with tempfile.TemporaryDirectory() as d:\n'
                '    shard.import_hypothesis(d); import hypothesis; print("hypothesis", hypothesis.__version__)' % HERE)
        return subprocess.call([PYTHON, '-W', 'ignore', '-c', code])
    shards = 1 if a.replay else (a.shards or max(1, min(8, os.cpu_count() or 1)))
    ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props')) if f.startswith('c') and
                 f.endswith('.py')) if a.property == 'all' else [a.property.upper()]
    rc = 0
    for pid in ids:
        rc = max(rc, run_check(pid, a.tier, a.seed, shards, a.replay))
        sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
