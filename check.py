#!/usr/bin/env python3
"""Runs the check of one property: `check.py C01 [--tier quick|thorough]`.

Exit 0: the property held on everything explored. Exit 1 with a line
`VIOLATION property=<id> replay=<path>`: it is broken. Anything else is an error of the check.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
import build  # noqa: E402
import harness  # noqa: E402
import props  # noqa: E402

ENV = dict(os.environ)
ENV.update(
    ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:'
                 'detect_stack_use_after_return=1:handle_abort=1:quarantine_size_mb=16:'
                 'malloc_context_size=6:disable_coredump=1',
    UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99',
    LC_ALL='C', TZ='UTC')
for k in list(ENV):
    if k.startswith('RCUTILS_'):
        del ENV[k]


def load_findings():
    """Lines `finding: property=<id> key=<violation key> <what fails>`; `fixed:` lines suppress nothing."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def read_jsonl(path):
    if not os.path.exists(path):
        return []
    return [json.loads(x) for x in open(path, errors='replace') if x.strip()]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = next(x for x in props.PROPS if x['id'] == pid)
    t0 = time.time()
    try:
        exes = [(h, harness.exe_for(h)) for h in [p['harness']] + p['also']]
    except build.BuildError as e:
        print('BUILD ERROR: %s' % e)
        return 2
    built = time.time()
    out = os.path.join(HERE, 'build', 'run-%s-%d' % (pid, os.getpid()))
    if any(h.startswith('files') for h, _ in exes) and os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK):
        # many small files: memory is several times faster than the disk
        out = '/dev/shm/verif-run-%s-%d' % (pid, os.getpid())
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        return explore(pid, tier, seed, p, exes, out, t0, built)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def command(exe, pid, tier, out):
    return [exe, '--prop', pid, '--tier', tier, '--out', out]


def replay(exe, pid, tier, out, task, choices, limit=150):
    """Returns ('violated', key, msg) / ('ok',) / ('crash', summary) for one choice list run alone."""
    try:
        r = subprocess.run(command(exe, pid, tier, out) + ['--replay', task, ','.join(map(str, choices))],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                           env=ENV, timeout=limit, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return ('crash', 'hang', '')
    m = re.search(r'^VIOLATED (\S+?): (.*)$', r.stdout, re.M)
    if m and r.returncode == 1:
        return ('violated', m.group(1), r.stdout)
    if r.returncode == 0 and re.search(r'^no violation', r.stdout, re.M):
        return ('ok', '', r.stdout)
    return ('crash', 'crash', r.stdout)


def run_harness(exe, pid, tier, out, deadline, extra=()):
    cmd = command(exe, pid, tier, out) + ['--deadline', str(deadline)] + list(extra)
    log = open(os.path.join(out, 'main.log'), 'w')
    pr = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, stdin=subprocess.DEVNULL,
                          start_new_session=True)
    try:
        rc = pr.wait(timeout=deadline + 250)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, signal.SIGKILL)
        pr.wait()
        rc = None
    log.close()
    return rc


def explore(pid, tier, seed, p, exes, out, t0, built):
    deadline = p['deadline'][0 if tier == 'quick' else 1]
    # with findings on record, a failure must not end the search for others
    more = ['--all'] if any(k[0] == pid for k in load_findings()) else []
    results, confirmed = [], []
    for h, exe in exes:
        sub = os.path.join(out, h)
        os.makedirs(sub)
        rc = run_harness(exe, pid, tier, sub, max(20, deadline - (time.time() - built)), more)
        if rc != 0:
            print(open(os.path.join(sub, 'main.log'), errors='replace').read()[-4000:])
            print('ERROR: harness %s ended with %r' % (h, rc))
            return 2
        a, b = read_jsonl(os.path.join(sub, 'results.jsonl')), read_jsonl(os.path.join(sub, 'confirmed.jsonl'))
        for r in a:
            r['task'] = r['name']
            if len(exes) > 1:
                r['name'] = h + ': ' + r['name']
        for f in [f for r in a for f in r['found']] + [c['found'] for c in b]:
            f['harness'] = h
        results += a
        confirmed += b
    exes = dict(exes)
    errors = ['%s: %s' % (r['name'], r['cap']) for r in results if r['cap'].startswith('DIVERGENCE')]
    violations = []      # (found, detail text)
    unconfirmed = []
    seen = set()
    nreplayed = 0
    listed = {k[1] for k in load_findings() if k[0] == pid}
    for c in confirmed:
        f = c['found']
        if (f['harness'], f['task'], f['key']) in seen and len(seen) > 6:
            continue
        seen.add((f['harness'], f['task'], f['key']))
        (violations if c['confirmed'] >= 2 else unconfirmed).append((f, c['log']))
        nreplayed += 2
    for r in results:
        for f in r['found']:
            if sum(v[0]['key'] not in listed for v in violations) >= 12:
                break
            if f['key'] in listed and sum(v[0]['key'] == f['key'] for v in violations) >= 2:
                continue
            if (f['harness'], f['task'], f['key']) in seen:
                continue
            seen.add((f['harness'], f['task'], f['key']))
            # the same choices must give the same verdict, alone, twice
            v = [replay(exes[f['harness']], pid, tier, out, f['task'], f['choices']) for _ in range(2)]
            nreplayed += 2
            if all(x[0] in ('violated', 'crash') for x in v):
                violations.append((f, v[0][2]))
            else:
                unconfirmed.append((f, v[0][2]))
    if not violations and unconfirmed:
        # The failure may need what earlier executions of the same process left behind (global state of
        # the library): explore that task again from a fresh process and see whether it fails the same way.
        for f, detail in unconfirmed[:4]:
            o2 = os.path.join(out, 'again')
            shutil.rmtree(o2, ignore_errors=True)
            os.makedirs(o2)
            run_harness(exes[f['harness']], pid, tier, o2, 120, ['--only', f['task'], '--workers', '1'])
            again = [x for r in read_jsonl(os.path.join(o2, 'results.jsonl')) for x in r['found']
                     if x['key'] == f['key']]
            again += [c['found'] for c in read_jsonl(os.path.join(o2, 'confirmed.jsonl'))
                      if c['found']['key'] == f['key']]
            if again:
                g = again[0]
                g['harness'] = f['harness']
                g['msg'] += ' (needs the preceding executions of the same task in one process)'
                violations.append((g, detail))
                break
        else:
            errors.append('unconfirmed: ' + json.dumps(unconfirmed[0][0])[:1500] + unconfirmed[0][1][-1500:])
    findings = load_findings()
    new, known = [], {}
    for f, detail in violations:
        hit = next((k for k in findings if k[0] == pid and k[1] == f['key']), None)
        if hit:
            known[hit[1]] = hit
        else:
            new.append((f, detail))
    execs = sum(r['execs'] for r in results)
    trans = sum(r['transitions'] for r in results)
    states = sum(r['states'] for r in results)
    outcomes = sum(r['outcomes'] for r in results)
    samples = []
    for r in results:
        for s in r['samples']:
            if len(samples) < 12 and not any(x['scenario'] == r['name'] for x in samples[-1:]):
                samples.append(dict(scenario=r['name'], case=s[:600]))
    caps = sorted({'%s: %s' % (r['name'], r['cap']) for r in results if r['cap']})
    per = {}
    for r in results:
        d = per.setdefault(r['name'], dict(executions=0, states=0, distinct_outcomes=0, depth=0, complete=True))
        d['executions'] += r['execs']
        d['states'] += r['states']
        d['distinct_outcomes'] += r['outcomes']
        d['depth'] = max(d['depth'], r['depth'])
        d['complete'] = d['complete'] and r['complete']
    complete = all(r['complete'] for r in results)
    if execs == 0:
        errors.append('nothing was explored')
    nstates = sum(max(r['states'], r['outcomes']) for r in results)
    cov = dict(transitions=trans, exhaustive=complete, scenarios=per, samples=samples,
               caps=caps)
    if p['level'] == 'model_checking':
        # every transition of the explored state graph is an execution of the real code
        cov.update(states=nstates, traces_validated_against_impl=execs)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=nstates, rule=p['rule'] or
                   'a case is one complete choice list; distinct and non-trivial: its observed outcome differs')
    ev = dict(property=pid, tier=tier, seed=seed, level=p['level'], coverage=cov,
              assumptions=[p['note']], wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    print('%s [%s]: %d executions, %d transitions, %d states, %d distinct outcomes, complete=%s; build %.1fs, '
          'total %.1fs' % (pid, tier, execs, trans, states, outcomes, complete, built - t0, time.time() - t0))
    for c in caps:
        print('  cap: ' + c[:300])
    for k in known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if new:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, (f, detail) in enumerate(new):
            name = '%s-%d' % (pid, i)
            path = os.path.join(d, name + '.txt')
            with open(path, 'w') as fh:
                fh.write('property %s violated: %s\n' % (pid, f['msg']))
                fh.write('scenario: %s\nchoices: %s\n' % (f['task'], ','.join(map(str, f['choices']))))
                fh.write('replay: cd /verif && python3 replay.py %s\n' % os.path.relpath(path, HERE))
                fh.write('steps:\n')
                for s in f.get('trace', []):
                    fh.write('  ' + s + '\n')
                fh.write('output of the replay:\n' + detail[:8000] + '\n')
            with open(os.path.join(d, name + '.json'), 'w') as fh:
                json.dump(dict(property=pid, tier=tier, harness=f['harness'], task=f['task'], choices=f['choices'], key=f['key'],
                               msg=f['msg']), fh)
            print('  %s: %s' % (f['key'], f['msg'][:700]))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, HERE)))
        return 1
    for e in errors:
        print('ERROR: ' + e[:3000])
    return 2 if errors else 0


if __name__ == '__main__':
    sys.exit(main())
