#!/usr/bin/env python3
"""Decide one property: check.py <property> [entry ...]

Builds the IR of krill-sync from /repo's current tree, runs the symbolic
executor on the property's harness entries, replays every counterexample as
compiled code, and writes evidence/<property>.json. See DESIGN.md."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED') or 1)
JOBS = int(os.environ.get('VERIF_JOBS') or os.cpu_count() or 4)
ENGINE = f'{V}/build/engine/release/engine'
NATIVE = f'{V}/build/ntarget/release/vnative'
LL = f'{V}/build/vharness.ll'


def engine(entry, fix, secs, out):
    cmd = [ENGINE, '--ll', LL, '--entry', entry, '--out', out, '--jobs', str(JOBS), '--time', str(secs),
           '--stop-viol', '200', '--query-ms', '60000']
    for k, v in fix.items():
        cmd += ['--fix', f'{k}={v}']
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        log = p.communicate(timeout=secs + 60)[0]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        log = p.communicate()[0] + '\nkilled: time'
        rc = 2
    tot = dict(entry=entry, fixed=fix, rc=rc, wall=round(time.time() - t, 1), violations=[], samples=[], functions={},
               covers={}, bad_msgs={}, assert_ids={}, viol_ids={})
    parts = []
    if os.path.exists(out):
        try:
            parts = json.load(open(out))
        except ValueError:
            rc = tot['rc'] = 2
    if not parts:
        tot['rc'] = rc or 2
        d, b = os.path.split(out)
        for f in os.listdir(d):
            if f.startswith(b + '.part'):
                try:
                    parts.append(json.load(open(f'{d}/{f}')))
                except ValueError:
                    pass
    for o in parts:
        for k, v in o.items():
            if k in ('wall', 'fork_prof', 'step_prof', 'nfuncs'):
                continue
            if k == 'max_query':
                tot[k] = max(tot.get(k, 0), v)
            elif isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                for a, b in v.items():
                    tot[k][a] = tot[k].get(a, 0) + b
            elif isinstance(v, list):
                tot[k] += v
    tot['log'] = '\n'.join(log.splitlines()[-12:])
    return tot


def native(entry, inputs):
    """Run the entry as compiled code; (failed ids, covers, finished)."""
    d = tempfile.mkdtemp(prefix='vnat')
    try:
        f = f'{d}/in'
        open(f, 'w').write('\n'.join(f'{k}={v}' for k, v in inputs.items()) + '\n')
        os.mkdir(f'{d}/s')
        os.chmod(d, 0o755)
        try:
            r = subprocess.run([NATIVE, entry, f, f'{d}/s'], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=120, errors='replace',
                               env={k: v for k, v in os.environ.items() if not k.startswith('RUST_')})
        except subprocess.TimeoutExpired:
            return [], set(), 'timeout'
        fails, cov, end = [], set(), None
        for l in r.stdout.splitlines():
            if l.startswith('NATIVE fail '):
                fails.append(l[12:])
            elif l.startswith('NATIVE cover '):
                cov.add(l[13:])
            elif l.startswith('NATIVE assume-failed'):
                end = 'assume-failed'
            elif l.startswith('NATIVE done'):
                end = end or 'done'
        return fails, cov, end or f'exit {r.returncode}: {r.stderr[-300:]}'
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


def known(prop):
    """Listed findings: {(assertion, entry-or-*): text}."""
    out = {}
    for l in open(f'{V}/known-findings.txt'):
        m = re.match(r'finding: property=(\S+) id=(\S+) entry=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop:
            out[(m.group(2), m.group(3))] = m.group(4)
    return out


def main():
    prop = sys.argv[1]
    chk = CHECKS[prop]
    t0 = time.time()
    b = subprocess.run([f'{V}/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0:
        print(b.stdout[-3000:])
        print(f'ERROR property={prop} the harness does not build')
        return 2
    build_s = round(time.time() - t0, 1)
    entries = [e for e in chk['entries'] if e.get(TIER, True)]
    if len(sys.argv) > 2:
        entries = [e for e in entries if e['name'] in sys.argv[2:]]
    budget = 780 if TIER == 'quick' else 6 * 3600
    res, errors, notes = [], [], []
    viol, repro, kf = [], [], known(prop)
    replaydir = f'{V}/build/replay'
    os.makedirs(replaydir, exist_ok=True)
    validated = mism = 0
    samples = []
    rnd = random.Random(SEED)
    tmp = tempfile.mkdtemp(prefix='vchk')
    fns = {}
    for e in entries:
        secs = min(e.get('secs', 300) if TIER == 'quick' else e.get('tsecs', 3600), budget - (time.time() - t0))
        if secs < 5:
            errors.append(f"{e['name']}: no time left")
            continue
        fix = dict(e.get('fix', {}) if TIER == 'quick' else e.get('tfix', {}))
        r = engine(e['name'], fix, secs, f'{tmp}/{e["name"]}.json')
        res.append(r)
        for k, v in r.pop('functions').items():
            fns[k] = fns.get(k, 0) + v
        print(f"{prop} {e['name']} {fix or ''}: {r.get('paths', 0)} paths, {r.get('asserts', 0)} assertions, "
              f"{r.get('queries', 0)} queries, {r.get('bad', 0)} undecided, {r['wall']} s", flush=True)
        if r['rc'] != 0:
            errors.append(f"{e['name']}: engine failed: {r['log'][-800:]}")
        if r.get('bad', 0) or r.get('unknown', 0):
            errors.append(f"{e['name']}: {r.get('bad', 0)} paths undecided, {r.get('unknown', 0)} queries unknown: {dict(list(r['bad_msgs'].items())[:4])}")
        if not r['viol_ids']:
            miss = [c for c in e.get('covers', []) if not r['covers'].get(c)]
            if miss:
                errors.append(f"{e['name']}: not reached: {miss}")
        # counterexamples, replayed as compiled code
        tried = {}
        found = set()
        for v in r.pop('violations'):
            if tried.get(v['id'], 0) >= 12 or v['id'] in found:
                continue
            tried[v['id']] = tried.get(v['id'], 0) + 1
            inp = dict(v['inputs'])
            fails, cov, end = native(e['name'], inp)
            ok = v['id'] in fails
            if not ok and not fails:
                # the order of directory entries, and with it operation
                # numbers, can differ: look at the neighbouring operations
                near = [k for k in inp if re.match(r'(crash|fault)\d*_at', k)]
                cands = [{**inp, k: inp[k] + d} for k in near for d in (1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6) if inp[k] + d >= 0]
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    for c, (f2, _, _) in zip(cands, ex.map(lambda c: native(e['name'], c), cands)):
                        if f2:
                            inp, fails, ok = c, f2, True
                            break
            if fails:
                found.update(fails)
                found.add(v['id'])
                repro.append((e['name'], fails[0], inp, v['trace']))
            else:
                viol.append((e['name'], v['id'], inp, end))
        # the encoding against compiled code on paths of this run
        ss = []
        for s in r.pop('samples'):
            ls = s.split('\n')
            ss.append((dict((l.rsplit('=', 1)[0], int(l.rsplit('=', 1)[1])) for l in ls if not l.startswith('#')),
                       {l[1:] for l in ls if l.startswith('#')}))
        rnd.shuffle(ss)
        ss.sort(key=lambda s: len(s[1]), reverse=True)
        byc = {}
        for s in ss:
            byc.setdefault(frozenset(s[1]), []).append(s)
        pick = []
        want = e.get('samples', 24) * (1 if TIER == 'quick' else 4)
        while len(pick) < want and any(byc.values()):
            for k in byc:
                if byc[k] and len(pick) < want:
                    pick.append(byc[k].pop())
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (inp, cov), (fails, ncov, end) in zip(pick, ex.map(lambda s: native(e['name'], s[0]), pick)):
                if fails:
                    repro.append((e['name'], fails[0], inp, ['(found when replaying a path)']))
                elif end == 'done' and ncov == cov:
                    validated += 1
                else:
                    mism += 1
                    if len(notes) < 5:
                        notes.append(f"path differs as compiled code: {e['name']} {inp} {sorted(cov)} {sorted(ncov)} {end}")
        samples += [dict(entry=e['name'], inputs=i, reached=sorted(c)) for i, c in pick[:2]]
    shutil.rmtree(tmp, ignore_errors=True)
    shown, out, nknown = set(), [], 0
    for n, (entry, vid, inp, trace) in enumerate(repro):
        if (vid, entry) in kf or (vid, '*') in kf:
            nknown += 1
            t = kf.get((vid, entry)) or kf.get((vid, '*'))
            if t not in shown:
                shown.add(t)
                print(f'KNOWN-FINDING: property={prop} {t}')
            continue
        if (entry, vid) in shown:
            continue
        shown.add((entry, vid))
        f = f'{replaydir}/{prop}-{len(out)}.txt'
        open(f, 'w').write(f'# {V}/replay.sh {f}\n#entry {entry}\n#violates {vid}\n' + ''.join(f'{k}={v}\n' for k, v in inp.items())
                           + ''.join(f'# {l}\n' for l in trace[-60:]))
        out.append(f)
        print(f'{entry}: {vid}: {json.dumps(inp)}')
        print(f'VIOLATION property={prop} replay={f}')
    for entry, vid, inp, end in viol:
        errors.append(f'{entry}: counterexample for {vid} does not reproduce ({end}): {json.dumps(inp)}')
    sums = lambda k: sum(r.get(k, 0) for r in res)
    if not sums('paths') and not out:
        errors.append('nothing explored')
    if not sums('asserts') and not out:
        errors.append('no assertion reached')
    if mism > max(2, validated // 5):
        errors.append(f'{mism} of {mism + validated} paths differ as compiled code: {notes[:1]}')
    own = {k: v for k, v in fns.items() if 'krill_sync' in k or k.startswith('m::') or 'vharness::m' in k}
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level=chk.get('level', 'model_checking'),
        coverage=dict(
            states=sums('paths'), transitions=sums('steps'), traces_validated_against_impl=validated,
            exhaustive=not errors and not out, samples=samples[:8],
            explanation='states: feasible symbolic paths to the end of the harness, each standing for all input values that '
                        'take it; transitions: LLVM instructions executed symbolically; traces validated: paths whose model '
                        'was run as compiled code with the same outcome and witnesses',
            bounds=chk['bounds'], entries=[{k: v for k, v in r.items() if k not in ('log',)} for r in res],
            assertions_checked=sums('asserts'), assertions_with_symbolic_condition=sums('asserts_sym'),
            queries_discharged=sums('queries'), solver_answers=dict(sat=sums('sat'), unsat=sums('unsat'), unknown=sums('unknown')),
            queries_answered_from_cache=sums('cache_hits'), solver_s=round(sums('solver_time'), 1),
            infeasible_paths=sums('infeasible'), undecided_paths=sums('bad'), traces_differing=mism, build_s=build_s,
            functions_encoded=len(fns), functions_of_krill_sync=dict(sorted(own.items(), key=lambda x: -x[1])[:150]),
            known_findings_seen=nknown, notes=notes, errors=errors),
        assumptions=COMMON_ASSUMPTIONS + chk.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(out))
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for x in notes[:2]:
        print('note:', x)
    for x in errors:
        print('INCONCLUSIVE:' if out else 'ERROR:', x)
    if out:
        return 1
    if errors:
        return 2
    print(f'{prop}: held on {sums("paths")} paths ({TIER}), {validated} paths agree with compiled code, {ev["wall_s"]} s')
    return 0


sys.exit(main())
