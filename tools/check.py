#!/usr/bin/env python3
"""python3 tools/check.py <property>: decide one property on /repo's current source.

The verifier decides: the functions are extracted from the sources, every obligation of their contracts goes to Verus.
A harness over the real code runs beside it: it looks for the input behind a failed obligation, and it is the bounded
stand-in for whatever the extraction cannot take in.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, props
from gen import HERE, REPO
from cxxast import Unsupported

CXX = ['g++', '-O1', '-w', '-fPIC', '-frounding-math', '-D_GLIBCXX_ASSERTIONS', '-DU_HAVE_ELF_H=1', '-DU_HAVE_ATOMIC=1']
BASE = 'grammar inclass lexentry lexicon metarule metasection outclass rule rulesection search token tokenizer utils trieutf8 utf8iterator md5'.split()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def build_harness(spec, work):
    """Compile the harness against the current sources; -> (path, error)."""
    src = os.path.join(REPO, 'src')
    objs, jobs = [], []
    for n in spec.get('srcs', BASE):
        f = n if '.' in n else n + '.cpp'
        o = os.path.join(work, f.replace('/', '_') + '.o')
        objs.append(o)
        if f.endswith('.c'):
            jobs.append(['gcc', '-O1', '-w', '-fPIC', *spec.get('cflags', []), '-I', src, '-c', os.path.join(src, f), '-o', o])
        else:
            jobs.append(CXX + ['-std=c++14', '-I', src, '-c', os.path.join(src, f), '-o', o])
    for n in spec.get('hsrcs', []):
        o = os.path.join(work, n.replace('/', '_') + '.o')
        objs.append(o)
        jobs.append(['gcc', '-O1', '-w', '-fPIC', *spec.get('cflags', []), '-I', src, '-I', os.path.join(HERE, 'harness'), '-c', os.path.join(HERE, 'harness', n), '-o', o])
    h = os.path.join(HERE, 'harness', spec['harness'])
    ho = os.path.join(work, 'harness.o')
    jobs.insert(0, CXX + ['-std=c++17', '-fno-access-control', '-I', src, '-I', os.path.join(HERE, 'harness'), '-c', h, '-o', ho])
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(sh, jobs))
    for j, r in zip(jobs, rs):
        if r.returncode:
            return None, 'cannot compile %s: %s' % (os.path.basename(j[-3]), r.stderr.decode('utf8', 'replace')[:1500])
    exe = os.path.join(work, 'harness')
    icu = subprocess.check_output(['pkg-config', '--libs', 'icu-uc', 'icu-io']).decode().split()
    r = sh(['g++', ho] + objs + ['-o', exe] + spec.get('ldflags', []) + ['-lboost_regex', '-lboost_serialization'] + icu)
    if r.returncode:
        return None, 'cannot link: ' + r.stderr.decode('utf8', 'replace')[:1500]
    return exe, None


def run_harness(exe, seed, tier, work, tag, limit):
    out = os.path.join(work, 'out-%s.json' % tag)
    env = dict(os.environ, HARNESS_DIR=os.path.join(HERE, 'harness'), REPO_DIR=REPO, TMPDIR=work)
    d = os.path.join(work, 'cwd-' + tag)
    os.makedirs(d, exist_ok=True)
    try:
        p = sh([exe, str(seed), tier, out], timeout=limit, cwd=d, env=env)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return {'witness': False, 'error': 'time limit of the harness', 'evaluations': 0, 'distinct': 0, 'samples': [], 'rule': ''}
    try:
        j = json.load(open(out))
    except (OSError, ValueError):
        return {'witness': False, 'error': 'harness ended with %s without an answer' % rc, 'evaluations': 0, 'distinct': 0, 'samples': [], 'rule': ''}
    j['seed'], j['tier'] = seed, tier
    return j


def build_modules(spec):
    prog = gen.program()
    mods = []
    for m in spec.get('modules', []):
        try:
            roots = m["roots"] if m.get("roots") else gen.roots_of(m["vcs"])
            mods.append((m, gen.Module(prog, m["vcs"], roots, m.get('tags', ()), name=m['name'], own=m.get('own')), None))
        except Unsupported as e:
            mods.append((m, None, str(e)))
        except Exception as e:      # a shape of the source the extractor does not know
            mods.append((m, None, 'extraction failed: %s: %s' % (type(e).__name__, e)))
    return mods


def where(f):
    """The function or lemma a failed obligation belongs to."""
    m = re.match(r'(lemma \S+|.*?\)): ', f['obligation'] + ': ')
    return m.group(1) if m else f['obligation']


def run_module(m, mod, work, tier):
    path = os.path.join(work, m['name'] + '.rs')
    open(path, 'w').write(mod.text())
    args = []
    t0 = time.time()
    res = gen.run_verus(path, args, timeout=400, threads=4)
    status, fails = gen.verdict(mod, res)
    # A proof may depend on the solver's luck: what was not proved is tried again with another seed.  A function counts as
    # proved when one of the runs proved it.
    for seed, limit in ((7, '60'), (23, '60')):
        if status not in ('limit', 'failed') or (seed == 23 and status == 'failed') or time.time() - t0 > 300:
            break
        r2 = gen.run_verus(path, ['--rlimit', limit, '--smt-option', 'smt.random_seed=%d' % seed], timeout=400, threads=8)
        st2, f2 = gen.verdict(mod, r2)
        if st2 == 'ok':
            status, fails, res = st2, f2, r2
        elif r2['timeout']:
            break
        elif res['timeout']:        # the first run says nothing about single functions
            status, fails, res = st2, f2, r2
        elif st2 in ('limit', 'failed'):
            both = {where(f) for f in fails} & {where(f) for f in f2}
            if st2 == 'failed':     # more precise than a limit
                left = [f for f in f2 if where(f) in both]
            else:
                left = [f for f in fails if where(f) in both]
            status, fails, res = (st2 if left else 'ok'), left, r2
    vac = None
    if status == 'ok':
        vt, names = mod.vacuity()
        vp = os.path.join(work, m['name'] + '_vac.rs')
        open(vp, 'w').write(vt)
        vres = gen.run_verus(vp, ['--verify-module', 'vac', '--rlimit', '5'], timeout=300, threads=4)
        bad = set()
        lines = vt.split('\n')
        hit = set()
        for d in vres['diags']:
            for s in d.get('spans', []):
                ln = lines[s['line_start'] - 1] if s['line_start'] <= len(lines) else ''
                mm = re.search(r'proof fn (vac_\w+)', ln)
                if mm:
                    hit.add(mm.group(1))
        missing = [k for n, k in names if n not in hit]
        vac = {'checked': len(names), 'vacuous': missing}
        if vres['timeout'] or not vres['diags']:
            vac = {'checked': 0, 'vacuous': [], 'note': 'vacuity run gave no answer'}
    return status, fails, res, vac


def scan_known(pid):
    fixed, find = [], []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'^(fixed|finding): property=(\S+)\s+(.*)$', ln.strip())
            if m and m.group(2) == pid:
                (fixed if m.group(1) == 'fixed' else find).append(m.group(3))
    return fixed, find


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    spec = props.PROPS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    keep = os.path.join(HERE, 'work', pid)
    os.makedirs(keep, exist_ok=True)
    try:
        return decide(pid, spec, tier, seed, work, keep, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, spec, tier, seed, work, keep, t0):
    ex = cf.ThreadPoolExecutor(8)
    fut_h = ex.submit(build_harness, spec, work) if spec.get('harness') else None
    fut_c = ex.submit(spec['extra'], REPO, work, tier) if spec.get('extra') else None
    prog_error = None
    mods = []
    if spec.get('modules'):
        try:
            mods = build_modules(spec)
        except Exception as e:
            prog_error = '%s: %s' % (type(e).__name__, str(e)[:1500])
    futs = [(m, mod, err, ex.submit(run_module, m, mod, work, tier) if mod else None) for m, mod, err in mods]
    exe, herr = fut_h.result() if fut_h else (None, 'no harness')
    bounded = None
    if exe:
        bounded = run_harness(exe, seed, tier, work, 'main', 300 if tier == 'quick' else 700)
    obligations = discharged = 0
    borrowed = []
    functions, trusted, lemmas, unreached, failures, solver, notes, backends, vacuity = [], [], [], [], [], [], [], [], []
    cmd = ''
    for m, mod, err, fut in futs:
        if fut is None:
            unreached.append({'module': m['name'], 'reason': err})
            continue
        status, fails, res, vac = fut.result()
        cmd = ' '.join(res['cmd'][:1] + ['<module extracted from %s/src>' % REPO] + res['cmd'][1:-1])
        s = res.get('summary') or {}
        vr = s.get('verification-results') or {}
        solver.append(dict(gen.times(res), module=m['name'], back_end='Verus %s, Z3' % ((s.get('verus') or {}).get('version', '')), wall_s=round(res['time'], 2),
                           verified_items=vr.get('verified'), errors=vr.get('errors')))
        if vac:
            vacuity.append(dict(vac, module=m['name']))
            for k in vac['vacuous']:
                notes.append('precondition of %s not shown satisfiable' % k)
        notes += ['%s: %s' % (m['name'], n) for n in sorted(mod.ex.notes)]
        if status in ('ok', 'failed', 'limit'):
            n = mod.nob + len(mod.lemmas)
            obligations += n
            bad = {f['obligation'] for f in fails}
            discharged += n - min(n, len(bad))
            functions += [k for k in mod.verified if k not in functions]
            trusted += [k for k in mod.trusted if k not in trusted]
            borrowed += [k for k in mod.elsewhere if k not in borrowed]
            lemmas += [k for k in mod.lemmas if k not in lemmas]
            for f in fails:
                failures.append(dict(f, module=m['name'], kind='not discharged within the resource limit' if status == 'limit' else 'rejected'))
        else:
            unreached.append({'module': m['name'], 'reason': 'the extracted text is outside the verifier\'s language: ' + '; '.join(str(f.get('message')) for f in fails)[:600]})
    # contracts used in one module and proved in another: every one has to be proved in this run
    for k in borrowed:
        if k not in functions and k not in trusted:
            if spec.get('proved_by'):
                trusted.append('%s (proved by the checks of %s)' % (k, ', '.join(spec['proved_by'])))
                continue
            if not any(u['module'] != 'cover' for u in unreached):
                unreached.append({'module': 'cover', 'reason': 'the contract of %s was used but no module of this check proves it' % k})
            trusted.append(k)
    if fut_c:
        c = fut_c.result()
        obligations += c['obligations']
        discharged += c['discharged']
        functions += c['functions']
        trusted += c.get('trusted', [])
        failures += c['failures']
        unreached += c['unreached']
        solver.append(c['solver'])
        vacuity.append(c['vacuity'])
        notes += c.get('notes', [])
        cmd = (cmd + ' ; ' if cmd else '') + c['cmd']
    if prog_error:
        unreached.append({'module': 'all', 'reason': 'sources not extracted: ' + prog_error})
    witness = bounded if bounded and bounded.get('witness') else None
    # a failed obligation without an input yet: look harder
    if failures and not witness and exe:
        seeds = [seed * 1000 + k for k in range(1, 8)]
        fs = [ex.submit(run_harness, exe, s, 'thorough', work, 's%d' % s, 330) for s in seeds]
        for f in cf.as_completed(fs):
            j = f.result()
            if j.get('witness'):
                witness = j
                break
    fixed, findings = scan_known(pid)
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, f))
    violation = None
    if witness:
        violation = 'VIOLATION property=%s replay=%s' % (pid, os.path.join(keep, 'replay.json'))
    elif failures:
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.join(keep, 'replay.json'))
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': cmd or 'none',
        'trusted_base': (['Verus and Z3', 'clang 18 AST (front end of the extraction)', 'tools/cpp2verus.py and tools/prelude.rs (translation and model of the C++ library)'] if spec.get('modules') else ['CBMC 6.11.0: goto-cc, goto-instrument --dfcc, cbmc']) + spec.get('trusted', []) + ['assumed contract: ' + k for k in trusted],
        'functions_under_contract': functions, 'lemmas': lemmas, 'theorems': [l for l in lemmas if l.startswith(pid + '_')], 'solver': solver,
        'vacuity': vacuity,
        'outside_the_verifier': unreached,
        'failed_obligations': [f['obligation'] for f in failures],
    }
    if bounded:
        cov['bounded_stand_in'] = {'note': 'bounded: runs of the real code against an independent oracle, never counted as proved', 'evaluations': bounded.get('evaluations', 0),
                                   'distinct_nontrivial': bounded.get('distinct', 0), 'rule': bounded.get('rule', ''), 'samples': bounded.get('samples', [])[:5], 'error': bounded.get('error')}
        cov['evaluations'] = bounded.get('evaluations', 0)
        cov['distinct_nontrivial'] = bounded.get('distinct', 0)
        cov['rule'] = bounded.get('rule', '') or 'see bounded_stand_in'
        cov['samples'] = bounded.get('samples', [])[:5] or ['none']
    elif spec.get('harness'):
        cov['bounded_stand_in'] = {'note': 'not run', 'error': herr}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof') if obligations else 'exploration', 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + sorted(set(notes)), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    if not obligations and bounded:
        cov['explanation'] = 'no obligation could be generated from this source; only the bounded stand-in ran'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d functions, %d lemmas; harness %s cases; %.1f s' % (
        pid, obligations, discharged, len(functions), len(lemmas), bounded.get('evaluations') if bounded else 'no', time.time() - t0))
    for u in unreached:
        print('outside the verifier (bounded stand-in only): %s: %s' % (u['module'], str(u['reason'])[:300]))
    for n in vacuity:
        if n['vacuous']:
            print('vacuous: %s' % n['vacuous'])
    if herr and spec.get('harness'):
        print('harness not built: %s' % herr[:600])
    if bounded and bounded.get('error'):
        print('harness: %s' % bounded['error'])
    for f in failures[:10]:
        print('obligation not discharged: %s (%s)' % (f['obligation'], f.get('message')))
    if violation:
        rep = {'property': pid, 'seed': seed, 'tier': tier, 'failed_obligations': failures,
               'witness': witness, 'how_to_replay': 'build harness/%s against /repo/src (tools/check.py %s) and run it with seed %s tier %s; the case is number %s' % (
                   spec.get('harness'), pid, (witness or {}).get('seed'), (witness or {}).get('tier'), (witness or {}).get('case')) if witness else 'run the verifier again: python3 tools/check.py %s' % pid}
        with open(os.path.join(keep, 'replay.json'), 'w') as f:
            json.dump(rep, f, indent=1)
        if witness:
            print('witness: %s\n  expected: %s\n  got: %s\n  input: %s' % (witness['what'], witness['expected'][:500], witness['got'][:500], witness['input'][:1500]))
        print(violation)
        return 1
    if not obligations and not bounded:
        print('no answer: nothing could be built from the sources')
        return 2
    if not failures and not obligations and bounded and bounded.get('error'):
        print('no answer: %s' % bounded['error'])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
