"""Contracts of the C files: goto-cc, goto-instrument --dfcc and CBMC on the unmodified file of /repo/src.

A contract file in cbmc/ includes the source as it is, models what the file calls outside itself, and holds the contracts and a
harness for each.  Every harness ends in a canary that has to fail: it shows that the precondition can be met and the call returns.
"""
import concurrent.futures as cf
import os, re, resource, subprocess, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['--unwinding-assertions', '--pointer-check', '--bounds-check', '--no-standard-checks', '--slice-formula', '--no-malloc-may-fail']
UNWIND = 36
SPEC = {
    'cache': {
        'trusted': ['the PostgreSQL functions (memory contexts, hash table, ereport), getMd5, getLexiconPtr, getGrammarPtr, freeLexiconPtr, freeGrammarPtr, strcmp and strdup as modelled in cbmc/cache.c'],
        'jobs': [('h_is', 'IsInStdPortalCache', 'IsIn_contract', [], None), ('h_from', 'GetStdFromPortalCache', 'GetStdFrom_contract', [], None), ('h_create', 'CreateStd', 'CreateStd_contract', [], None),
                 ('h_portal', 'GetStdPortalCache', 'GetStdPortalCache_contract', [], None), ('h_first', 'GetStdUsingFCInfo', 'GetStdUsing_contract', [], 0)] +
                [('h_add', 'AddToStdPortalCache', 'AddTo_contract', [], i) for i in range(4)] +
                [('h_get', 'GetStdUsingFCInfo', 'GetStdUsing_contract', [('AddToStdPortalCache', 'AddTo_contract')], i) for i in range(4)]},
    'functions': {
        'trusted': ['the PostgreSQL functions (palloc, pfree, pstrdup, texts, tuples, set-returning calls, ereport), GetStdUsingFCInfo (C17), std_standardize_ptrs, std_parse_address, std_match_address and serialize_lexicon (C24) as modelled in cbmc/functions.c'],
        'long': ('h_parse', 'h_match'),
        'bounded': 'giving up the records at the end of a set: sets of at most 3 records (every other call: any number, up to a million)',
        'jobs': [(h, f, 'set_contract', [], i, 8) for i in (2, 1, 0, 3, 4, 5, 6) for h, f in (('h_parse', 'as_parse'), ('h_match', 'as_match'))] +
                [('h_text', 'text2char', 'text2char_contract', [], None), ('h_free', 'stdaddr_free', 'stdaddr_free_contract', [], None), ('h_compile', 'as_compile_lexicon', 'as_compile_contract', [], None),
                 ('h_standardize', 'as_standardize', 'as_standardize_contract', [], None)]},
}
LINE = re.compile(r'^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


def job(name, j, repo, work, budget):
    h, fn, contract, repl, slot = j[:5]
    unwind = j[5] if len(j) > 5 else UNWIND
    label = h + ('' if slot is None else '_slot%d' % slot)
    gb, gi = (os.path.join(work, '%s.%s.%s' % (name, label, e)) for e in ('gb', 'i.gb'))
    inc = subprocess.check_output(['pg_config', '--includedir-server']).decode().strip()
    ver = re.sub(r'^PostgreSQL (\d+)[.](\d+).*$', r'\1\2', subprocess.check_output(['pg_config', '--version']).decode().strip())
    out = {'label': label, 'function': fn, 'ok': 0, 'bad': [], 'canary': False, 'error': None, 'time': 0.0}
    t0 = time.time()
    try:
        p = subprocess.run(['goto-cc', '-std=gnu99', '-DPGSQL_VERSION=' + ver, '-D__builtin_constant_p(x)=1', '-I', inc, '-I', os.path.join(repo, 'src'), '--function', h] +
                           ([] if slot is None else ['-DSLOT=%d' % slot]) + [os.path.join(HERE, 'cbmc', name + '.c'), '-o', gb], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if p.returncode or not os.path.exists(gb):
            out['error'] = 'goto-cc: ' + p.stdout.decode('utf8', 'replace')[-600:]
            return out
        p = subprocess.run(['goto-instrument', '--no-malloc-may-fail', '--dfcc', h, '--enforce-contract', '%s/%s' % (fn, contract)] +
                           [a for f, c in repl for a in ('--replace-call-with-contract', '%s/%s' % (f, c))] + [gb, gi], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if p.returncode or not os.path.exists(gi):
            out['error'] = 'goto-instrument: ' + p.stdout.decode('utf8', 'replace')[-600:]
            return out
        p = subprocess.run(['cbmc', gi, '--unwind', str(unwind)] + FLAGS + (['--sat-solver', 'cadical'] if label == 'h_parse_slot2' else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget, preexec_fn=limit)
        txt = p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        out['error'] = 'no answer within %d s' % budget
        return out
    finally:
        out['time'] = round(time.time() - t0, 2)
    if 'VERIFICATION' not in txt or 'VERIFICATION ERROR' in txt:
        out['error'] = 'cbmc: ' + txt[-400:]
        return out
    for ln in txt.split('\n'):
        m = LINE.match(ln)
        if not m:
            continue
        pid, no, desc, st = m.groups()
        if 'canary' in desc:
            out['canary'] = st == 'FAILURE'
        elif 'unwinding assertion' in desc and st != 'SUCCESS':
            out['error'] = 'cbmc: a loop is not unrolled completely within %d' % unwind
            return out
        elif st == 'SUCCESS':
            out['ok'] += 1
        else:
            out['bad'].append((pid, no, desc, st))
    out['bad'].sort(key=lambda b: b[3] != 'FAILURE')
    if not out['bad'] and not out['ok']:
        out['error'] = 'cbmc: no obligations'
    return out


def run(name, repo, work, tier):
    spec = SPEC[name]
    with cf.ThreadPoolExecutor(8) as ex:
        # the long ones first
        js = sorted(spec['jobs'], key=lambda j: (j[0] not in spec.get('long', ('h_add', 'h_get')), ))
        rs = list(ex.map(lambda j: job(name, j, repo, work, 600), js))
    r = {'obligations': 0, 'discharged': 0, 'functions': [], 'trusted': list(spec['trusted']), 'failures': [], 'unreached': [], 'notes': [], 'vacuity': {'module': 'cbmc/' + name, 'checked': 0, 'vacuous': []},
         'cmd': 'goto-cc --function <harness> cbmc/%s.c ; goto-instrument --dfcc <harness> --enforce-contract <function>/<contract> ; cbmc --unwind %d %s' % (name, UNWIND, ' '.join(FLAGS)),
         'solver': {'module': 'cbmc/' + name, 'back_end': 'CBMC 6.11.0 (dfcc contracts), MiniSat (h_parse_slot2: CaDiCaL)', 'wall_s': round(sum(x['time'] for x in rs), 2), 'runs': {x['label']: x['time'] for x in rs}}}
    for x in rs:
        if x['error']:
            r['unreached'].append({'module': 'cbmc/%s %s' % (name, x['label']), 'reason': x['error']})
            continue
        n = x['ok'] + len(x['bad'])
        r['obligations'] += n
        r['discharged'] += x['ok']
        if x['function'] not in r['functions']:
            r['functions'].append(x['function'])
        r['vacuity']['checked'] += 1
        if not x['canary'] and not x['bad']:
            r['vacuity']['vacuous'].append('%s (%s)' % (x['function'], x['label']))
        for pid, no, desc, st in x['bad'][:6]:
            r['failures'].append({'obligation': '%s (%s): [%s] %s' % (x['function'], x['label'], pid, desc), 'message': st, 'cpp_line': no, 'module': 'cbmc/' + name, 'kind': 'rejected'})
    return r


if __name__ == '__main__':
    import json, sys, tempfile
    w = tempfile.mkdtemp()
    print(json.dumps(run(sys.argv[1], os.environ.get('VERIF_REPO', '/repo'), w, 'quick'), indent=1))
