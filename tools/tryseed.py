"""python3 tools/tryseed.py <id>... : confirm planted bugs in a scratch copy and run the check of their property on it (development aid)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('utf8', 'replace')


full = '--tests' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
if not ids:
    ids = sorted(os.listdir(os.path.join(HERE, 'seeded')))
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    R = '/tmp/seed-' + i
    shutil.rmtree(R, ignore_errors=True)
    sh('cp -a /repo %s' % R)
    demo = 'cd %s && REPO=%s bash %s/demo.sh' % (R, R, d)
    rc0, o0 = sh(demo)
    rc, o = sh('git apply %s/patch.diff' % d, cwd=R)
    if rc:
        print(i, 'PATCH DOES NOT APPLY', o)
        continue
    rc, o = sh('make -j8 && make -C test -j8 all && make -C tester -j8 all && rm -f address_standardizer.o std_pg_hash.o address_standardizer2-2.0.so && make -f Makefile.pg PG_CONFIG=/usr/bin/pg_config with_llvm=no -j8', cwd=R + '/src')
    if rc:
        print(i, 'DOES NOT BUILD', o[-800:])
        continue
    rc1, o1 = sh(demo)
    t = ''
    if full:
        lg = R + '/_logs'
        os.makedirs(lg, exist_ok=True)
        open(R + '/_rt.py', 'w').write(open('/opt/vp/run_tests.py').read().replace('/repo', R).replace('\npatterns()', ''))
        rc, o = sh('python3 %s/_rt.py %s' % (R, lg))
        ok = {l[5:] for l in o.split('\n') if l.startswith('PASS ')}
        bad = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ok]
        t = ' tests: %s' % (bad or 'pass')
    env = dict(os.environ, VERIF_REPO=R, VERIF_SEED='1', VERIF_TIER='quick')
    rc2, o2 = sh('python3 tools/check.py %s' % meta['property'], cwd=HERE, env=env)
    v = [l for l in o2.split('\n') if l.startswith('VIOLATION')]
    obl = [l for l in o2.split('\n') if l.startswith('obligation') or l.startswith('outside') or l.startswith('witness')]
    print(i, meta['property'], 'demo %d->%d' % (rc0, rc1), 'check rc', rc2, v, t)
    if rc0 or not rc1:
        print('   DEMO:', o0[-300:], '|', o1[-300:])
    for l in obl[:3]:
        print('    ', l[:220])
    if rc2 not in (0, 1):
        print(o2[-1500:])
    shutil.rmtree(R, ignore_errors=True)
