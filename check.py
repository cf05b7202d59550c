#!/usr/bin/env python3
"""check.py ID  -- decides one property of /repo's current tree.

1. builds the harness against /repo, while TLC checks the models that belong to the property;
2. lets the harness execute the real code: on the cases the models enumerate and on generated ones;
3. has TLC judge the recorded behaviour against the trace specifications.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the machinery itself failed."""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time, struct
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, 'spec')
CORES = os.cpu_count() or 8
sys.path.insert(0, V)
from checks import CHECKS, LEVEL

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Tool(Exception):
    pass

def sources():
    h = hashlib.sha256()
    for top in [os.path.join(V, 'harness', 'src')] + sorted(glob.glob('/repo/smdiff-*')):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x != 'target')
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read())
    return h.hexdigest()

def build():
    env = dict(os.environ)
    # cargo goes by the files' times; what decides here is what the files say
    stamp, now = os.path.join(V, 'target', 'sources.sha256'), sources()
    if not (os.path.exists(stamp) and open(stamp).read() == now):
        for d in glob.glob(os.path.join(V, 'target', 'release', '.fingerprint', 'smd*')):
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(stamp):
            os.remove(stamp)
    sh = 'if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi; cd %s/harness && exec cargo build --release --offline --target-dir %s/target' % (V, V)
    t = time.time()
    r = subprocess.run(['bash', '-c', sh], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Tool('build failed\n' + r.stdout[-3000:])
    with open(stamp, 'w') as f:
        f.write(now)
    log('build %.1fs' % (time.time() - t))

# ------------------------------------------------------------------------------------------------
# TLC

def tlc(work, name, module, cfg, env=None, workers=CORES, extra=(), timeout=800, heap='6g'):
    md = os.path.join(work, 'md_' + name)
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss16m -XX:+UseParallelGC' % heap
    out = os.path.join(work, name + '.tlc')
    cmd = ['tlc', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md, '-config', cfg] + list(extra) + [module]
    with open(out, 'w') as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
    shutil.rmtree(md, ignore_errors=True)
    txt = open(out, errors='replace').read()
    m = None
    for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', txt):
        pass
    st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return rc, txt, st

def apalache(work, m, tier):
    """Unbounded integers: every step has to come out as written, a control as an error."""
    done = []
    for k, a in enumerate(m['apalache']):
        out = os.path.join(work, '%s_%d.apa' % (m['module'], k))
        cmd = ['apalache-mc', 'check', '--out-dir=' + os.path.join(work, 'apa_%s_%d' % (m['module'], k)), '--init=' + a['init'], '--inv=' + a['inv'], '--length=%d' % a['length'], m['module'] + '.tla']
        with open(out, 'w') as f:
            p = subprocess.Popen(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(240 if tier == 'quick' else 900)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        txt = open(out, errors='replace').read()
        got = 'proved' if 'The outcome is: NoError' in txt else 'refuted' if 'The outcome is: Error' in txt else None
        if got is None:
            # no verdict on the specification says nothing about the code
            log('apalache gave no verdict on %s: %s' % (m['module'], txt[-400:]))
        elif got != ('refuted' if a.get('control') else 'proved'):
            raise Tool('%s: %s of %s is %s' % (m['module'], a['inv'], a['init'], got))
        done.append(dict(init=a['init'], inv=a['inv'], length=a['length'], outcome=got or 'no verdict', control=bool(a.get('control'))))
    return done

TRACE_TIMEOUT = 700
LONG_RECORD, PART_BYTES = 400_000, 200_000_000
REJ = re.compile(r'<<"REJECT", (\d+), (.*)>>\s*$', re.M)

def validate(work, kind, lines, stats, depth=0, tag='', timeout=TRACE_TIMEOUT):
    """TLC judges recorded behaviour (lines whose ids are unique); returns the rejected ids with what TLC said."""
    if not lines:
        return {}
    mod = 'Trace' + kind.capitalize()
    path = os.path.join(work, 'trace_%s%s.ndjson' % (kind, tag))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    rc, txt, st = tlc(work, 'trace_%s%s' % (kind, tag), mod + '.tla', mod + '.cfg', {'TRACE': path}, timeout=timeout, heap='14g')
    os.unlink(path)
    rej = {int(a): b for a, b in REJ.findall(txt)}
    if rc != 0 or 'No error has been found' not in txt:
        at = re.findall(r'^(?:/\\ )?cid = (\d+)', txt, re.M)
        if rc == 'timeout' or not at or depth > 6:
            if rej:
                # what TLC has rejected so far stays rejected
                log('TLC did not finish on %s: %s' % (kind, rc))
                return rej
            raise Tool('TLC failed on %s: %s\n%s' % (kind, rc, txt[-2500:]))
        # the specification cannot make sense of this record at all; go on without it
        i = json.loads(lines[int(at[-1]) - 1])['id']
        stats['undefined'].add((kind, i))
        log('record %d: %s' % (i, ' '.join(l for l in txt.splitlines() if l.startswith('Error'))[:600]))
        if depth < 4:
            rej.update(validate(work, kind, [l for k, l in enumerate(lines) if k != int(at[-1]) - 1], stats, depth + 1, tag + 'x'))
        return rej
    stats['states'] += st[1]
    stats['transitions'] += st[0]
    stats['validated'] += len(lines)
    return rej

# ------------------------------------------------------------------------------------------------
# Harness

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def shard(work, suite, s, seed, lo, n, weight, secs, cases, hang, lost):
    """One worker process after the other until the shard is done; a case on which a worker dies or
    stalls is recorded as lost and left out."""
    out = os.path.join(work, '%s_%d' % (suite + ('g' if cases else ''), s))
    prog = out + '.prog'
    start = lo + s
    end = time.time() + secs
    while start < lo + n:
        left = int(end - time.time())
        if left <= 0:
            break
        cmd = [os.path.join(V, 'target/release/smdh'), 'run', suite, '--seed', str(seed), '--from', str(start), '--to', str(lo + n), '--step', str(CORES),
               '--out', out, '--prog', prog, '--weight', str(weight), '--secs', str(left)]
        if cases:
            cmd += ['--cases', cases]
        if os.path.exists(prog):
            os.unlink(prog)
        err = open(out + '.err', 'a')
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, preexec_fn=limits, start_new_session=True, cwd=work)
        last, since = None, time.time()
        outcome = None
        while True:
            try:
                rc = p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = struct.unpack('<Q', open(prog, 'rb').read(8))[0]
            except Exception:
                cur = None
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > hang:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, outcome = None, 'hang'
                break
        err.close()
        try:
            at = struct.unpack('<Q', open(prog, 'rb').read(8))[0]
        except Exception:
            at = None
        if rc == 0:
            break
        if at is None or at == (1 << 64) - 1:
            raise Tool('worker for %s failed before its first case: %s' % (suite, open(out + '.err').read()[-1500:]))
        lost.append((suite, at, outcome or 'crash', bool(cases)))
        if len(lost) > 200:
            break
        start = at + CORES

def run_suite(work, suite, seed, lo, n, weight, secs, cases=None, hang=25):
    lost = []
    with ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(shard, work, suite, s, seed, lo, n, weight // CORES, secs, cases, hang, lost) for s in range(CORES)]
        for f in fs:
            f.result()
    return lost

# ------------------------------------------------------------------------------------------------

def known(pid):
    k = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            k.append((m.group(2), m.group(3)))
    return k

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(V, 'work', pid + '_' + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    stats = dict(states=0, transitions=0, validated=0, undefined=set(), models=[])
    violations = []

    # --- build and models side by side
    models = [m for m in c.get('models', []) if tier in m.get('tiers', ('quick', 'thorough'))]
    def model(m):
        cfg = m['cfg'] + ('_t' if tier == 'thorough' and os.path.exists(os.path.join(SPEC, m['cfg'] + '_t.cfg')) else '') + '.cfg'
        name = m['module'] + '_' + m['cfg']
        t = time.time()
        if m.get('apalache'):
            m = dict(m, symbolic=apalache(work, m, tier))
            log('model %s %.1fs' % (name, time.time() - t))
            return m, (0, 0), None
        rc, txt, st = tlc(work, name, m['module'] + '.tla', cfg, workers=m.get('workers', 4), timeout=m.get('timeout', 600 if tier == 'quick' else 3000), extra=m.get('extra', []))
        if m.get('control'):
            # a deliberately wrong variant: the invariants must be able to tell
            if 'is violated' not in txt:
                raise Tool('control %s is not caught: %s\n%s' % (name, rc, txt[-2000:]))
            return m, st, None
        if rc != 0 or ('No error has been found' not in txt and not m.get('simulate')):
            raise Tool('model %s fails on its own: %s\n%s' % (name, rc, txt[-3000:]))
        cases = None
        if m.get('emits'):
            cases = os.path.join(work, name + '.cases')
            seen = set()
            with open(cases, 'w') as f:
                for l in txt.splitlines():
                    if l.startswith('<<"CASE", "'):
                        s = json.loads(l[len('<<"CASE", '):l.rindex('>>')])
                        if s not in seen:
                            seen.add(s)
                            f.write(s + '\n')
            if not seen:
                raise Tool('model %s emitted no cases' % name)
            st = st + (len(seen),)
        os.unlink(os.path.join(work, name + '.tlc'))
        log('model %s %s %.1fs' % (name, st, time.time() - t))
        return m, st, cases
    with ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build)
        fm = [ex.submit(model, m) for m in models]
        fb.result()
        res = [f.result() for f in fm]
    for m, st, cases in res:
        stats['states'] += st[1]
        stats['transitions'] += st[0]
        if m.get('symbolic'):
            stats['models'].append(dict(module=m['module'], config='apalache', transitions=0, states=0, cases=0, checks=m['what'], symbolic=m['symbolic']))
            continue
        stats['models'].append(dict(module=m['module'], config=m['cfg'], transitions=st[0], states=st[1], cases=st[2] if len(st) > 2 else 0, checks=m['what']))

    # --- execute the real code
    lost = []
    for m, st, cases in res:
        if cases:
            for s in m['emits']:
                lost += run_suite(work, s, seed, 0, st[2], m.get('weight', 400_000), 300, cases)
    for su in c['suites']:
        n, weight = su[tier]
        t = time.time()
        lost += run_suite(work, su['name'], seed, 0, n, weight, su.get('secs', 120 if tier == 'quick' else 2400), hang=su.get('hang', 25))
        log('suite %s %.1fs' % (su['name'], time.time() - t))
    sums, keys, samples, crash_of = [], set(), [], {}
    kinds = {}
    for f in sorted(os.listdir(work)):
        p = os.path.join(work, f)
        if f.endswith('.sum'):
            for l in open(p):
                s = json.loads(l)
                samples += s.pop('samples')[:1]
                sums.append(s)
        elif f.endswith('.keys'):
            b = open(p, 'rb').read()
            keys.update(struct.unpack('<%dQ' % (len(b) // 8), b))
        elif f.endswith('.ndjson'):
            kinds.setdefault(f.split('.')[1], []).append(p)
    if lost:
        p = os.path.join(work, 'lost_0.outcome.ndjson')
        with open(p, 'w') as f:
            for i, (s, at, o, g) in enumerate(lost):
                f.write(json.dumps(dict(id=i, suite=s, case=at, outcome=o, generated=g, tag=o)) + '\n')
        kinds['outcome'] = [p]

    # --- TLC judges
    suspicious = sum(s['suspicious'] for s in sums)
    for kind, files in sorted(kinds.items()):
        t = time.time()
        before = stats['validated']
        rows = [(f, l) for f in files for l in open(f).read().splitlines()]
        lines = [re.sub(r'"id":\s*\d+', '"id":%d' % i, l, count=1) for i, (f, l) in enumerate(rows)]
        # what fits into TLC's memory at once; a second helping only while there is nothing to report yet
        rej, part, parts, size = {}, [], [], 0
        for l, (f, _) in zip(lines, rows):
            if '.heavy.' in f or len(l) > LONG_RECORD:
                continue
            if size + len(l) > PART_BYTES:
                parts.append(part)
                part, size = [], 0
            part.append(l)
            size += len(l)
        for n, part in enumerate(parts + [part]):
            if rej:
                break
            if n:
                log('validate %s: part %d' % (kind, n))
            rej.update(validate(work, kind, part, stats, tag='p%d' % n if n else ''))
        # large suspicious records one by one, the smallest first, and only while there is nothing to report yet
        heavy = sorted((json.loads(l).get('w', 0) + len(l), i) for i, (f, l) in enumerate(rows) if '.heavy.' in f or len(l) > LONG_RECORD)
        if heavy:
            log('%s: %d large records' % (kind, len(heavy)))
        stuck = None
        for n, (w, i) in enumerate(heavy):
            if rej or n >= 6 or time.time() - t0 > (600 if tier == 'quick' else 3000):
                break
            try:
                rej.update(validate(work, kind, [lines[i]], stats, tag='h%d' % i, timeout=200 if tier == 'quick' else 1000))
            except Tool as e:
                stuck = e
        if stuck and not rej:
            raise stuck
        log('validate %s: %d records, %d rejected, %.1fs' % (kind, stats['validated'] - before, len(rej), time.time() - t))
        want = dict(rej)
        for k, i in stats['undefined']:
            if k == kind and i not in want:
                want[i] = 'the specification is undefined on this record'
        for i in sorted(want):
            f, l = rows[i]
            r = json.loads(l)
            violations.append((kind, r['id'], want[i], os.path.basename(f), r))
    undefined = [v for v in violations if v[2].startswith('the specification is undefined')]
    # records the specification is undefined on only count together with the monitor's suspicion
    if undefined and not suspicious:
        raise Tool('the specification is undefined on record(s) %s' % [u[1] for u in undefined[:5]])

    # --- report
    kn = known(pid)
    found, new = {}, []
    for v in violations:
        kind, i, said, fn, r = v
        key = '%s:%s' % (kind, r.get('tag', ''))
        hit = [d for k, d in kn if k == key or k == r.get('finding')]
        if hit:
            found[hit[0]] = found.get(hit[0], 0) + 1
        else:
            new.append(v)
    for k, d in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    rdir = os.path.join(V, 'replays', pid)
    lines = []
    if new:
        os.makedirs(rdir, exist_ok=True)
    for kind, i, said, fn, r in new[:8]:
        path = os.path.join(rdir, '%s_%s_%d.json' % (tier, kind, i))
        json.dump(dict(property=pid, suite=fn.split('_')[0], from_model=fn.split('_')[0].endswith('g'), seed=seed, case=i // 64 if kind != 'outcome' else r['case'], judged_by='spec/Trace%s.tla' % kind.capitalize(), said=said,
                       rerun='target/release/smdh run %s --seed %d --from %d --to %d --out OUT' % (fn.split('_')[0] if kind != 'outcome' else r['suite'], seed, i // 64, i // 64 + 1), record=r), open(path, 'w'))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        log('rejected: %s %s record %d: %s' % (fn, r.get('tag', ''), i, said[:300]))
    tot = lambda k: sum(s[k] for s in sums)
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL(pid), wall_s=round(time.time() - t0, 1),
              assumptions=c.get('assumptions', []),
              coverage=dict(states=stats['states'], transitions=stats['transitions'], traces_validated_against_impl=stats['validated'],
                            samples=(samples or ['-'])[:3], models=stats['models'], executed_cases=tot('cases'), recorded_behaviours=tot('records'),
                            evaluations=tot('records'), distinct_nontrivial=len(keys), rule=c['rule'], suspicious_for_the_monitor=suspicious, lost=len(lost)),
              violations=len(new))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    print('%s %s: %d model states, %d real executions, %d records judged by TLC, %d violations (%.0fs)' % (
        pid, tier, sum(m['states'] for m in stats['models']), tot('cases'), stats['validated'], len(new), time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if new else 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except Tool as e:
        log('TOOL FAILURE:', e)
        sys.exit(2)
