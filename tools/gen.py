"""Assemble a Verus module from /repo's current sources and the contracts, run Verus, map failures to obligations."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cpp2verus as c
from cpp2verus import HANDLES, Contract, Extractor, FnTr, load_contracts, fname, rt, fld, lit_name, norm_float, cstring
from cxxast import CT, Unsupported, Program, inner

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CONTRACTS = os.path.join(HERE, 'contracts')
VERUS = os.environ.get('VERIF_VERUS', 'verus')

JOBS = [tuple(l.split('/')) for l in (
    'search.cpp/Search search.cpp/MatchResult inclass.cpp/InClass outclass.cpp/OutClass token.cpp/Token '
    'rule.cpp/Rule lexentry.cpp/LexEntry lexentry.cpp/operator<< lexicon.cpp/operator<< lexicon.cpp/Lexicon grammar.cpp/Grammar metarule.cpp/MetaRule '
    'metasection.cpp/MetaSection rulesection.cpp/RuleSection grammar.cpp/SectionPtr utils.cpp/Utils '
    'trieutf8.cpp/TrieUtf8 utf8iterator.cpp/Utf8 utf8iterator.cpp/CodePoint tokenizer.cpp/Tokenizer md5.cpp/md5 '
    'as_wrapper.cpp/standardize_addr as_wrapper.cpp/parse_addr as_wrapper.cpp/match_addr as_wrapper.cpp/std_standardize as_wrapper.cpp/std_parse_address as_wrapper.cpp/getGrammarPtr as_wrapper.cpp/getLexiconPtr as_wrapper.cpp/freeGrammarPtr as_wrapper.cpp/freeLexiconPtr as_wrapper.cpp/getGrammarMd5 as_wrapper.cpp/getLexiconMd5 as_wrapper.cpp/getMd5 as_wrapper.cpp/serialize_lexicon as_wrapper.cpp/STDADDR as_wrapper.cpp/TOKENS as_wrapper.cpp/MTOKEN').split()]


def program():
    p = Program(os.path.join(REPO, 'src'))
    p.load(JOBS)
    return p


def uses(path):
    out = []
    for ln in open(path):
        m = re.match(r'^@@uses\s+(.*)$', ln)
        if m:
            out += m.group(1).split()
    return out


def vc_closure(names):
    order, seen = [], set()

    def go(n):
        if n in seen:
            return
        seen.add(n)
        p = os.path.join(CONTRACTS, n + '.vc')
        for u in uses(p):
            go(u)
        order.append(p)
    for n in names:
        go(n)
    return order


def roots_of(names):
    out = []
    for v in names:
        _, cs = load_contracts(os.path.join(CONTRACTS, v + '.vc'))
        out += list(cs)
    return out


def rust_lit(raw):
    return 'seq![%s]' % ', '.join(('%dint' % (b - 256 if b >= 128 else b)).replace('-', '0int - ') for b in raw)


class Module:
    def __init__(self, prog, vcs, roots, tags=(), name='module', own=None):
        """own: the contract files whose functions and lemmas are proved here; those of the others are used as
        contracts only and have to be proved by another module of the same check."""
        self.p, self.name = prog, name
        self.own = set(own) if own else None
        self.origin = {}        # key -> contract file
        self.elsewhere = []     # keys used by contract, proved in another module
        self.specs, self.cons = [], {}
        self.paths = vc_closure(vcs)
        for path in self.paths:
            sp, cs = load_contracts(path)
            self.specs += [(path, s) for s in sp]
            for k, con in cs.items():
                self.cons[k] = con
                self.origin[k] = os.path.basename(path)[:-3]
        self.ex = Extractor(prog, self.cons)
        self.roots = list(roots)
        self.tags = set(tags)
        self.lines, self.marks = [], {}
        self.verified = []      # keys with discharged bodies
        self.trusted = []       # keys with assumed contracts
        self.lemmas = []
        self.nob = 0
        self.build()

    def mine(self, vc):
        return self.own is None or vc in self.own

    def lits(self, text):
        return re.sub(r'#"((?:[^"\\]|\\.)*)"', lambda m: self.ex.lit(cstring('"' + m.group(1) + '"')), text)

    def flits(self, text):
        return re.sub(r'#f(-?[\d.]+)\b', lambda m: self.ex.flit(m.group(1)), text)

    def sp(self, text):
        return re.sub(r'reveal\((lit_\w+)\(\)\)', r'reveal(\1)', self.flits(self.lits(self.enums(text))))

    def enums(self, text):
        def rep(m):
            d = self.p.enums.get(m.group(1) + '::Type') or {}
            for e, dd in self.p.enums.items():
                if e.startswith(m.group(1) + '::') and m.group(2) in dd:
                    v = dd[m.group(2)]
                    return '(0int - %d)' % -v if v < 0 else '%dint' % v
            raise Unsupported('enum constant %s::%s is gone' % (m.group(1), m.group(2)))
        return re.sub(r'#([A-Z]\w*)::(\w+)', rep, text)

    def build(self):
        # specs first: they may name literals and classes
        for con in self.cons.values():
            con.header = self.sp(con.header)
            for k in list(con.blocks):
                con.blocks[k] = self.sp(con.blocks[k])
        spectexts = []
        for path, s in self.specs:
            m = re.match(r'//@tag (.*)\n?', s)
            if m and not (set(m.group(1).split()) & self.tags):
                continue
            s = self.sp(s)
            if not self.mine(os.path.basename(path)[:-3]):
                # lemmas of another module: their bodies are proved there
                s = re.sub(r'(?m)^(?<!#\[via_fn\]\n)(\s*(?:pub )?(?:broadcast )?proof fn \w+)', r'#[verifier::external_body] \1', s)
            spectexts.append((path, s))
            for nm in re.findall(r'\b([A-Z]\w*)\b', s):
                if nm in self.p.classes:
                    self.ex.cls(nm)
            if self.mine(os.path.basename(path)[:-3]):
                for nm in re.findall(r'(?m)^\s*(?:pub )?(?:broadcast )?proof fn (\w+)', s):
                    self.lemmas.append(nm)
        # functions
        done, order, work = {}, [], list(self.roots)
        while work:
            k = work.pop(0)
            if k in done:
                continue
            con = self.cons.get(k)
            if con is None:
                raise Unsupported('no contract for %s' % k)
            f = self.p.funcs.get(k)
            if f is None:
                f = self.locate(k)
            if f is None:
                raise Unsupported('function %s is not in the sources' % k)
            tr = FnTr(self.ex, f, con)
            try:
                if 'trusted' in con.opts or not self.mine(self.origin[k]):
                    s, h = tr.header(external=True)
                    done[k] = (s, h, None, tr)
                else:
                    s, h, lines = tr.translate()
                    done[k] = (s, h, lines, tr)
            except Unsupported as e:
                raise Unsupported('%s: %s' % (k, e))
            order.append(k)
            for cal in sorted(tr.calls):
                if cal not in done:
                    work.append(cal)
        self.order, self.done = order, done
        # emit
        out = self.lines
        handles = any('Handle' in t for t in [x[1] for x in spectexts] + [done[k][0] for k in order])
        if handles:
            for cn in HANDLES:
                self.ex.cls(cn)
        def put(t):
            out.extend(t.split('\n'))
        put('#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code)]')
        put('use vstd::prelude::*;')
        put('use vstd::relations::*;')
        put('verus! {')
        put('broadcast use vstd::group_vstd_default;')
        put(open(os.path.join(HERE, 'tools', 'prelude.rs')).read())
        for cn in sorted(self.ex.used_classes):
            fs = []
            for n, t in self.p.allfields(cn):
                try:
                    fs.append('pub %s: %s' % (fld(n), rt(t)))
                except Unsupported:
                    fs.append('pub %s: int' % fld(n))
            if not fs:
                fs.append('pub nothing_: int')
            put('#[verifier::ext_equal]\npub struct %s { %s }' % (cn, ', '.join(fs)))
        if handles:
            put('pub enum Handle { Null, %s }' % ', '.join('%s(%s)' % (cn, cn) for cn in HANDLES))
            for cn in HANDLES:
                put('pub open spec fn handle_%s(h: Handle) -> Option<%s> { match h { Handle::%s(x) => Some(x), _ => None } }' % (cn, cn, cn))
                put('pub open spec fn handle_of_%s(x: Option<%s>) -> Handle { match x { Some(y) => Handle::%s(y), None => Handle::Null } }' % (cn, cn, cn))
        for path, s in spectexts:
            self.mark_spec(path, s)
        for k in order:
            s, h, lines, tr = done[k]
            self.emit_fn(k, s, h, lines, tr)
        # literals last (any order is fine in Rust)
        ens = []
        for raw, i in sorted(self.ex.lits.items(), key=lambda kv: kv[1]):
            nm = 'lit_%s' % lit_name(raw)
            put('#[verifier::opaque] pub open spec fn %s() -> Str { %s }' % (nm, rust_lit(raw) if raw else 'Seq::<int>::empty()'))
            ens.append('lit_code(%s()) == %d, %s().len() == %d' % (nm, i, nm, len(raw)))
            if len(raw) <= 1:
                ens.append('%s() == %s' % (nm, rust_lit(raw) if raw else 'Seq::<int>::empty()'))
        put('pub uninterp spec fn lit_code(s: Str) -> int;')
        put('// distinct string literals are distinct strings')
        put('#[verifier::external_body] pub proof fn lits() %s {}' % ('ensures ' + ', '.join(ens) if ens else ''))
        for v in sorted(self.ex.floats):
            put('pub uninterp spec fn %s() -> F;' % self.ex.flit(v)[:-2])
        put('fn main() {}')
        put('} // verus!')

    def locate(self, key):
        """A contract key whose parameter list changed only in spelling."""
        m = re.match(r'^(?:(\w+)::)?(\S+?)\((.*)\)$', key)
        if not m:
            return None
        cand = self.p.byname.get((m.group(1), m.group(2)), [])
        return None if len(cand) != 1 else None

    def mark_spec(self, path, s):
        cur = None
        for ln in s.split('\n'):
            m = re.match(r'^\s*(?:pub )?(?:broadcast )?(?:open |closed |uninterp )?(?:proof|spec) fn (\w+)', ln)
            if m:
                cur = m.group(1)
            self.lines.append(ln)
            self.marks[len(self.lines)] = ('lemma %s' % cur if cur else 'specification', None, 'lemma')

    def emit_fn(self, k, s, h, lines, tr):
        external = lines is None
        L = self.lines
        if external:
            (self.trusted if 'trusted' in self.cons[k].opts else self.elsewhere).append(k)
            L.append('#[verifier::external_body]')
        else:
            self.verified.append(k)
            rl = self.cons[k].opts.get('rlimit')
            if rl:
                L.append('#[verifier::rlimit(%s)]' % rl)
            if 'spinoff' in self.cons[k].opts:
                L.append('#[verifier::spinoff_prover]')
        if 'no_decreases' in self.cons[k].opts:
            L.append('#[verifier::exec_allows_no_decreases_clause]')
        L.append(s)
        self.marks[len(L)] = ('%s: body' % k, None, 'body')
        mode = ''
        for ln in h.split('\n'):
            if not ln.strip():
                continue
            m = re.match(r'^\s*(requires|ensures|decreases)\b', ln)
            if m:
                mode = m.group(1)
            L.append('    ' + ln.strip())
            kind = {'ensures': 'postcondition', 'requires': 'precondition', 'decreases': 'termination measure'}.get(mode, 'contract')
            txt = re.sub(r'^(requires|ensures|decreases)\s*', '', ln.strip())
            self.marks[len(L)] = ('%s: %s of %s: %s' % (k, kind, k, txt), None, kind)
            if mode == 'ensures' and txt:
                self.nob += 1
        if external:
            L.append('{ unimplemented!() }')
            return
        L.append('{')
        for nm in self.cons[k].opts.get('hide', '').split():
            L.append('    hide(%s);' % nm)
        L.append('    broadcast use containers;')
        L.append('    proof { lits(); }')
        for text, ob, no in lines:
            for part in text.rstrip('\n').split('\n'):
                L.append('    ' + part)
                self.marks[len(L)] = ('%s: %s' % (k, ob) if ob else '%s: proof step `%s`' % (k, part.strip()[:160]), no, 'ob' if ob else 'step')
            if ob:
                self.nob += 1
        L.append('}')

    def text(self):
        return '\n'.join(self.lines) + '\n'

    # -------------------------------------------------------------- vacuity
    def vacuity(self):
        """A module in which every lemma must fail: preconditions and axioms are satisfiable."""
        out = []
        cut = None
        L = list(self.lines)
        end = max(i for i, l in enumerate(L) if l.startswith('fn main()'))
        extra = []
        names = []
        for k in self.order:
            s, h, lines, tr = self.done[k]
            m = re.search(r'(?ms)^\s*requires\b(.*?)(?=^\s*(?:ensures|decreases)\b|\Z)', h)
            req = re.sub(r'\s*\n\s*', ' ', m.group(1).strip()) if m else ''
            ps = re.sub(r'\) -> \(ret: .*$', ')', s[s.index('('):])
            nm = 'vac_' + fname(k)
            names.append((nm, k))
            extra.append('proof fn %s%s %s { broadcast use containers; lits(); assert(false); }' % (nm, ps, 'requires ' + req if req else ''))
        extra.append('proof fn vac_axioms(s: Set<int>, x: int, t: Set<Str>, y: Str, m: Map<Str, Seq<int>>) { broadcast use containers; lits(); axiom_set_items(s); axiom_set_idx(s, x); axiom_strset_items(t); axiom_strset_idx(t, y); axiom_map_keys(m); axiom_map_idx(m, y); axiom_str_cmp(y, map_keys(m)[0]); assert(false); }')
        names.append(('vac_axioms', 'the axioms of the prelude'))
        # bodies are not needed
        body = []
        skip = False
        txt = '\n'.join(L[:end])
        return txt + '\nmod vac {\nuse super::*;\n' + '\n'.join(extra) + '\n}\nfn main() {}\n} // verus!\n', names


FAIL = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|'
                  r'could not prove termination|decreases not satisfied|recommendation not met|possible|'
                  r'assertion not satisfied|loop ensures not satisfied|assert.* failed|split .*failure|failed|unable to prove|not satisfied')
LIMIT = re.compile(r'[Rr]esource limit|rlimit|timed out|timeout|unknown')


def run_verus(path, args=(), timeout=600, threads=8):
    cmd = [VERUS, '--output-json', '--time-expanded', '--error-format=json', '--triggers-mode', 'silent', '--multiple-errors', '20',
           '--num-threads', str(threads), *args, path]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, RUST_MIN_STACK=str(1 << 30)))
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'diags': [], 'summary': None, 'time': time.time() - t0, 'cmd': cmd, 'rc': None, 'stderr': ''}
    err = p.stderr.decode('utf8', 'replace')
    diags = []
    for ln in err.split('\n'):
        if ln.startswith('{'):
            try:
                diags.append(json.loads(ln))
            except ValueError:
                pass
    try:
        summ = json.loads(p.stdout.decode('utf8', 'replace'))
    except ValueError:
        summ = None
    return {'timeout': False, 'diags': diags, 'summary': summ, 'time': time.time() - t0, 'cmd': cmd, 'rc': p.returncode, 'stderr': err}


def verdict(mod, res):
    """-> (status, failures)  status: ok | failed | limit | broken"""
    if res['timeout']:
        return 'limit', [{'obligation': 'verifier time limit', 'message': 'timeout'}]
    fails, limits, broken = [], [], []
    for d in res['diags']:
        if d.get('level') != 'error':
            continue
        msg = d.get('message', '')
        if msg.startswith('aborting due to') or msg.startswith('verification results'):
            continue
        spans = d.get('spans', [])
        names = []
        for s in sorted(spans, key=lambda s: (not s.get('is_primary'),)):
            mk = mod.marks.get(s['line_start'])
            if mk:
                names.append((mk, s.get('label'), s['line_start']))
        entry = {'message': msg, 'lines': [s['line_start'] for s in spans], 'rendered': d.get('rendered', '')[:3000]}
        pick = None
        for mk, lab, no in names:
            if lab and 'failed' in lab:
                pick = mk
        # an unsatisfied precondition of a call is named after the call, with the clause
        if 'precondition' in msg:
            call = [mk for mk, lab, no in names if mk[2] == 'ob' and 'precondition of' in mk[0]]
            cl = [mk for mk, lab, no in names if mk[2] == 'precondition']
            if call:
                pick = (call[0][0] + (' — ' + cl[0][0].split(': ', 2)[-1] if cl else ''), call[0][1], 'ob')
        if pick is None and names:
            pick = names[0][0]
        entry['obligation'] = pick[0] if pick else msg
        entry['cpp_line'] = pick[1] if pick else None
        if LIMIT.search(msg):
            limits.append(entry)
        elif d.get('code') is None and FAIL.search(msg) and spans:
            fails.append(entry)
        else:
            broken.append(entry)
    if broken:
        return 'broken', broken
    if fails:
        return 'failed', fails + limits
    if limits:
        return 'limit', limits
    s = res['summary'] or {}
    vr = s.get('verification-results') or {}
    if vr.get('success') and vr.get('errors') == 0 and vr.get('verified', 0) > 0:
        return 'ok', []
    return 'broken', [{'obligation': 'verifier did not answer', 'message': res['stderr'][-800:]}]


def times(res):
    t = ((res.get('summary') or {}).get('times-ms') or {})
    smt = t.get('smt') or {}
    return {'total_ms': t.get('total'), 'smt_ms': smt.get('total'), 'smt_run_ms': smt.get('smt-run')}


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('vcs', nargs='+')
    ap.add_argument('--roots', nargs='*', default=None)
    ap.add_argument('--own', nargs='*', default=None)
    ap.add_argument('--tags', nargs='*', default=[])
    ap.add_argument('-o', default='/tmp/w/m.rs')
    ap.add_argument('--vac', action='store_true')
    ap.add_argument('--all-tags', action='store_true')
    ap.add_argument('--show', default=None)
    ap.add_argument('--verus', nargs='*', default=[])
    a = ap.parse_args()
    os.makedirs(os.path.dirname(a.o), exist_ok=True)
    prog = program()
    vcs = a.vcs
    roots = a.roots
    if roots is None:
        roots = []
        for v in vcs:
            _, cs = load_contracts(os.path.join(CONTRACTS, v + '.vc'))
            roots += list(cs)
    m = Module(prog, vcs, roots, a.tags, own=a.own)
    t = m.text()
    open(a.o, 'w').write(t)
    if a.vac:
        t, names = m.vacuity()
        open(a.o, 'w').write(t)
    if a.show:
        i = [k for k, l in enumerate(m.lines) if fname(a.show) + '(' in l and l.startswith('fn ')]
        for k in range(i[0], len(m.lines)):
            print(k + 1, m.lines[k])
            if m.lines[k] == '}':
                break
    res = run_verus(a.o, a.verus)
    st, fl = verdict(m, res)
    print(st, (res['summary'] or {}).get('verification-results'), times(res), '%.1fs' % res['time'], 'obligations', m.nob)
    if a.vac:
        print('vac', len(names)); print(sorted({f['obligation'] for f in fl})[:3], len(fl)); sys.exit()
    for f in fl[:25]:
        print('-', f['obligation'], '| C++ line', f.get('cpp_line'), '|', f['message'], f.get('lines'))
        if os.environ.get('V'):
            print(f.get('rendered', '')[:1200])
    for x in sorted(m.ex.notes):
        print('note:', x)
