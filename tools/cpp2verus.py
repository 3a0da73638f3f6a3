"""Mechanical extraction of the C++ functions under contract into Verus.

Every run takes clang's AST of /repo's current sources and writes, for each
function under contract, a Verus function over ghost values whose statements
are the C++ statements one for one (see DESIGN.md, "What the extraction does").
The contracts (side files in /verif/contracts) are attached to that text; Verus
discharges the obligations.  A construct outside the dialect raises Unsupported.
"""
import re
from cxxast import CT, Unsupported, inner, Program, Func

RUST_KW = {'in', 'match', 'type', 'let', 'fn', 'mod', 'ref', 'move', 'use', 'where', 'loop', 'impl', 'trait',
           'self', 'super', 'box', 'final', 'old', 'as', 'dyn', 'enum', 'pub', 'struct', 'spec', 'proof', 'exec',
           'ghost', 'tracked', 'open', 'closed', 'assert', 'assume', 'requires', 'ensures', 'invariant', 'decreases',
           'forall', 'exists', 'choose', 'int', 'nat', 'real', 'seq', 'set', 'map', 'is', 'has', 'end', 'static',
           'const', 'mut', 'yield', 'async', 'await', 'try', 'abstract', 'virtual', 'priv', 'unsafe', 'crate'}

FRESH_OK = True


class V:
    """A translated expression: text, type, and what it designates."""
    __slots__ = ('e', 't', 'lv', 'bind', 'ent', 'npos', 'throws')

    def __init__(self, e, t, lv=None, bind=None, ent=None, npos=False):
        self.e, self.t, self.lv, self.bind, self.ent, self.npos = e, t, lv, bind, ent, npos


class LV:
    __slots__ = ('root', 'rt', 'path')

    def __init__(self, root, rt, path=()):
        self.root, self.rt, self.path = root, rt, tuple(path)

    def type(self):
        return self.path[-1][-1] if self.path else self.rt

    def ext(self, *step):
        return LV(self.root, self.rt, self.path + (step,))

    def rd(self):
        e = self.root
        for s in self.path:
            e = step_rd(e, s)
        return e

    def wr(self, val):
        def up(e, path):
            if not path:
                return val
            s = path[0]
            sub = up(step_rd(e, s), path[1:])
            if s[0] == 'f':
                return '%s { %s: %s, ..%s }' % (s[1], s[2], sub, e)
            if s[0] == 'i':
                return '%s.update(%s, %s)' % (e, s[1], sub)
            if s[0] == 'm':
                return '%s.insert(%s, %s)' % (e, s[1], sub)
            if s[0] == 'p':
                return '(%s, %s.1)' % (sub, e) if s[1] == 0 else '(%s.0, %s)' % (e, sub)
            if s[0] == 'd':
                return 'Some(%s)' % sub
            if s[0] == 'h':
                return 'handle_of_%s(%s)' % (s[1], sub)
            raise Unsupported('assignment through ' + s[0])
        return up(self.root, self.path)

    def roots(self):
        return {self.root}


def step_rd(e, s):
    if s[0] == 'f':
        return '%s.%s' % (e, s[2])
    if s[0] in ('i', 'm'):
        return '%s[%s]' % (e, s[1])
    if s[0] == 'p':
        return '%s.%d' % (e, s[1])
    if s[0] == 'd':
        return '%s->0' % e
    if s[0] == 'h':
        return 'handle_%s(%s)' % (s[1], e)
    raise Unsupported(s[0])


# constants of boost the sources mention; the flags only tune captures, not whether a match exists
LIBCONST = {'token_compress_on': '0', 'token_compress_off': '1', 'icase': '1', 'match_extra': '0', 'match_default': '0'}

# classes of the objects handed out as void *
HANDLES = ('Grammar', 'Lexicon')

# structures a pointer to which is the start of a block of several
ARRAYS = ('TOKENS', 'MTOKEN')

INT = CT('int', bits=32)
U64 = CT('int', bits=64, signed=False)
CHAR = CT('int', bits=8)
BOOL = CT('bool')
STR = CT('str')
VOID = CT('void')
MAXU64 = '0x1_0000_0000_0000_0000int'


def rt(t):
    """Verus type of a C++ type."""
    k = t.k
    if k in ('int', 'enum', 'iter'):
        return 'int'
    if k == 'striter':
        return 'StrIt'
    if k == 'bool':
        return 'bool'
    if k == 'str':
        return 'Str'
    if k == 'float':
        return 'F'
    if k in ('vec', 'arr'):
        return 'Seq<%s>' % rt(t.a[0])
    if k == 'set':
        return 'Set<%s>' % rt(t.a[0])
    if k == 'map':
        return 'Map<%s, %s>' % (rt(t.a[0]), rt(t.a[1]))
    if k == 'pair':
        return '(%s, %s)' % (rt(t.a[0]), rt(t.a[1]))
    if k == 'cls':
        return t.name
    if k == 'stream':
        return 'Stream'
    if k == 'archive':
        return 'Archive'
    if k == 'regex':
        return 'Regex'
    if k == 'smatch':
        return 'SMatch'
    if k == 'submatch':
        return '(int, int)'
    if k == 'ptr':
        x = t.a[0]
        if x.k == 'cls' and x.name in ('MetaSection', 'RuleSection'):
            return 'int'
        if x.k == 'int' and x.bits == 8:
            return 'Str' if x.const else 'CStr'
        if x.k == 'cls' and x.name in ARRAYS:
            return 'Option<Seq<%s>>' % x.name
        if x.k == 'cls':
            return 'Option<%s>' % x.name
        if x.k == 'void':
            return 'Handle'
    if k == 'other' and t.name in ('UErrorCode',):
        return 'int'
    if k == 'void':
        return '()'
    if k == 'exnflag':
        return 'Option<(Str, int)>'
    raise Unsupported('type %r' % t)


def default(t):
    k = t.k
    if k == 'str':
        return 'Seq::<int>::empty()'
    if k == 'vec':
        return 'Seq::<%s>::empty()' % rt(t.a[0])
    if k == 'set':
        return 'Set::<%s>::empty()' % rt(t.a[0])
    if k == 'map':
        return 'Map::<%s, %s>::empty()' % (rt(t.a[0]), rt(t.a[1]))
    if k == 'stream':
        return 'stream_of(Seq::<int>::empty())'
    return None


def sani(s):
    return re.sub(r'\W+', '_', s).strip('_')


class Contract:
    def __init__(self, key):
        self.key = key
        self.params = []
        self.header = ''
        self.blocks = {}     # ('entry',), ('loop',k), ...
        self.vars = {}
        self.opts = {}
        self.file = None
        self.line = 0


def load_contracts(path):
    """-> (list of spec texts, {key: Contract})"""
    specs, cons, cur, buf, mode = [], {}, None, [], None

    def flush():
        nonlocal buf
        if mode is None:
            pass
        elif mode == 'spec':
            specs.append('\n'.join(buf))
        elif mode == 'fn':
            hdr = []
            for ln in buf:
                m = re.match(r'^\s*params:\s*(.*)$', ln)
                if m:
                    cur.params = m.group(1).split()
                    continue
                m = re.match(r'^\s*(vars|opt):\s*(.*)$', ln)
                if m:
                    for part in m.group(2).split(';'):
                        nm, _, val = part.strip().partition(' ')
                        if nm:
                            (cur.vars if m.group(1) == 'vars' else cur.opts)[nm] = val.strip()
                    continue
                hdr.append(ln)
            cur.header = '\n'.join(hdr)
        else:
            cur.blocks[mode] = cur.blocks.get(mode, '') + '\n'.join(buf) + '\n'
        buf = []

    for no, ln in enumerate(open(path).read().split('\n'), 1):
        m = re.match(r'^@@(\w+)\s*(.*)$', ln)
        if m:
            flush()
            d, rest = m.group(1), m.group(2).strip()
            if d == 'spec':
                mode = 'spec'
                buf = ['//@tag ' + rest] if rest else []
            elif d == 'fn':
                cur = Contract(rest)
                cur.file, cur.line = path, no
                cons[rest] = cur
                mode = 'fn'
            elif d in ('loop', 'loopbody', 'loopend', 'afterloop', 'before', 'beforeinc', 'break'):
                mode = (d, int(rest))
            elif d == 'atcall':
                mode = (d, rest)
            elif d in ('entry', 'return', 'returnif', 'throw'):
                mode = (d, 0)
            elif d in ('end', 'uses'):
                mode = None
            else:
                raise SystemExit('%s:%d: unknown directive %s' % (path, no, d))
        else:
            buf.append(ln)
    flush()
    return specs, cons


VARCHECK = set()     # names of locals in contracts that could not be found by their type (diagnostics)


class Sink:
    """Where statements go; nested for guarded sub-expressions."""

    def __init__(self):
        self.lines = []      # (text, obligation or None)
        self.effects = 0
        self.assigned = set()


class Extractor:
    """Extraction of a set of functions, with shared literals and classes."""

    def __init__(self, prog, contracts, externs=None):
        self.p = prog
        self.cons = contracts
        self.lits = {}       # bytes -> index
        self.regexes = {}
        self.floats = {}
        self.used_classes = []
        self.calls = {}      # caller key -> set of callee keys
        self.throwing = {}
        self.externs = externs or {}
        self.dropped = []
        self.notes = set()
        self.selffault = {k.split('(')[0] for k, c in contracts.items() if 'faults' in c.opts and '::' not in k.split('(')[0]}
        self.inlined = {}
        self.lang = {}

    # -- literals
    def lit(self, raw):
        if raw not in self.lits:
            self.lits[raw] = len(self.lits) + 1
        return 'lit_%s()' % lit_name(raw)

    def flit(self, v):
        v = norm_float(v)
        self.floats.setdefault(v, len(self.floats))
        return 'flit_%s()' % re.sub(r'\W', lambda m: {'.': 'p', '-': 'm', '+': ''}.get(m.group(0), '_'), v)

    def cls(self, name):
        if name not in self.used_classes:
            flds = self.p.allfields(name)
            self.used_classes.append(name)
            for _, t in flds:
                self.touch(t)
        return name

    def touch(self, t):
        if t.k == 'cls':
            self.cls(t.name)
        for x in t.a:
            self.touch(x)

    def throws(self, key, seen=None):
        if key in self.throwing:
            return self.throwing[key]
        f = self.p.funcs[key]
        self.throwing[key] = False
        r = contains_throw(f.body)
        if not r:
            con = self.cons.get(key)
            if con and 'throws' in con.opts:
                r = True
        if not r:
            for c in self.callees(f):
                if self.throws(c):
                    r = True
        self.throwing[key] = r
        return r

    def callees(self, f):
        out = []

        def walk(n, intry):
            if n.get('kind') == 'CXXTryStmt' and catches(n):
                walk(inner(n)[0], True)
                for h in inner(n)[1:]:
                    walk(h, intry)
                return
            if n.get('kind') in ('CXXMemberCallExpr', 'CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr') and not intry:
                try:
                    g = self.resolve_static(n)
                except Unsupported:
                    g = None
                if g is not None and g.key != f.key:
                    out.append(g.key)
            for c in inner(n):
                walk(c, intry)
        walk(f.body, False)
        return out

    def resolve_static(self, n):
        """Best-effort resolution of a call node to a program function."""
        if n['kind'] == 'CXXMemberCallExpr':
            me = strip(inner(n)[0])
            if me['kind'] != 'MemberExpr':
                return None
            obj = inner(me)
            if not obj:
                return None
            ot = self.p.T(obj[0]['type'])
            if ot.k == 'ptr':
                ot = ot.a[0]
            if ot.k != 'cls':
                return None
            return self.pick(ot.name, me['name'], [self.p.T(a['type']) for a in inner(n)[1:]], quiet=True)
        if n['kind'] == 'CallExpr':
            c = strip(inner(n)[0])
            if c['kind'] == 'DeclRefExpr':
                rd = c['referencedDecl']
                args = [self.p.T(a['type']) for a in inner(n)[1:]]
                if rd['kind'] == 'FunctionDecl':
                    return self.pick(None, rd['name'], args, quiet=True)
                if rd['kind'] == 'CXXMethodDecl':
                    cand = [cls for (cls, nm) in self.p.byname if nm == rd['name'] and cls]
                    for cl in cand:
                        g = self.pick(cl, rd['name'], args, quiet=True, sig=rd['type']['qualType'])
                        if g is not None:
                            return g
            return None
        t = self.p.T(n['type'])
        if t.k == 'cls' and t.name in self.p.classes:
            args = [self.p.T(a['type']) for a in inner(n) if a['kind'] != 'CXXDefaultArgExpr']
            if len(args) == 1 and args[0].k == 'cls' and args[0].name == t.name:
                return None
            return self.pick(t.name, t.name, args, quiet=True)
        return None

    def pick(self, cls, name, args, quiet=False, sig=None, const=None):
        cs = list(self.p.byname.get((cls, name), []))
        c = cls
        while not cs and c:
            bases = self.p.classes.get(c, {}).get('bases') or []
            if not bases:
                break
            c = bases[0].split('<')[0].split('::')[-1]
            cs = list(self.p.byname.get((c, name), []))
        cs2 = [f for f in cs if len(f.params) == len(args)]
        if not cs2:
            cs2 = [f for f in cs if len(f.params) > len(args) and all(default_arg(f, i) is not None for i in range(len(args), len(f.params)))]
        if sig is not None and len(cs2) > 1:
            x = [f for f in cs2 if f.node['type']['qualType'].replace(' ', '') == sig.replace(' ', '')]
            cs2 = x or cs2
        if len(cs2) > 1:
            x = [f for f in cs2 if all(compat(pt, at) for (_, pt, _), at in zip(f.params, args))]
            cs2 = x or cs2
        if len(cs2) > 1:
            x = [f for f in cs2 if all(pt.key() == at.key() for (_, pt, _), at in zip(f.params, args))]
            cs2 = x or cs2
        if len(cs2) == 1:
            return cs2[0]
        if not cs2:
            if quiet:
                return None
            raise Unsupported('no body for %s::%s/%d' % (cls, name, len(args)))
        if quiet:
            return cs2[0]
        raise Unsupported('ambiguous call %s::%s' % (cls, name))


def is_inserter(f):
    return f.name == 'operator<<' and not f.cls and len(f.params) == 2 and f.params[0][1].k == 'stream'


def default_arg(f, i):
    ps = [c for c in inner(f.node) if c['kind'] == 'ParmVarDecl']
    if i < len(ps) and ps[i].get('init') and inner(ps[i]):
        return inner(ps[i])[0]
    return None


def compat(pt, at):
    if pt.k == at.k:
        if pt.k in ('cls', 'enum'):
            return pt.name == at.name
        if pt.a and at.a:
            return all(compat(x, y) for x, y in zip(pt.a, at.a))
        return True
    if pt.k == 'str' and (at.k == 'ptr' or at.k == 'arr'):
        return True
    if pt.k in ('int', 'float') and at.k in ('int', 'float', 'bool', 'enum'):
        return False
    return 'other' in (pt.k, at.k) or 'iter' in (pt.k, at.k)


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                        'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr'):
        n = inner(n)[0]
    return n


def handler_kind(h):
    """Which exceptions a handler takes: 0 runtime_error, 1 every std::exception, 2 all, None: another type."""
    v = [c for c in h.get('inner') or [] if c.get('kind') == 'VarDecl']
    if not v:
        return 2
    q = v[0]['type']['qualType'].replace('const ', '').replace('&', '').strip()
    return {'std::runtime_error': 0, 'std::exception': 1}.get(q)


def catches(n):
    return any(handler_kind(h) is not None for h in inner(n)[1:])


NOTHROW = {'size', 'length', 'empty', 'c_str', 'data', 'begin', 'end', 'cbegin', 'cend', 'clear', 'strdup', 'calloc', 'malloc', 'free', 'back', 'front',
           'operator[]', 'operator++', 'operator!=', 'operator==', 'operator*', 'operator->', 'operator<', 'what'}


def may_fail(n, own=()):
    """Does the expression call anything that could throw?  (own: functions whose contracts say what happens when they fail)"""
    k = n.get('kind')
    if k == 'LambdaExpr':
        return False
    if k in ('CallExpr', 'CXXOperatorCallExpr'):
        c = strip(inner(n)[0])
        if (c.get('referencedDecl') or {}).get('name') not in NOTHROW | set(own):
            return True
        if 'basic_string' in (n.get('type') or {}).get('qualType', '') and k == 'CXXOperatorCallExpr' and '&' not in n['type']['qualType']:
            return True
    elif k == 'CXXMemberCallExpr':
        me = strip(inner(n)[0])
        if me.get('kind') != 'MemberExpr' or me.get('name') not in NOTHROW:
            return True
    elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXNewExpr'):
        return True
    return any(may_fail(c, own) for c in inner(n))


def contains_throw(n, intry=False):
    k = n.get('kind')
    if k == 'CXXThrowExpr':
        return True
    if k == 'CXXTryStmt':
        # a handler that rethrows still throws; the body's throws are caught
        return any(contains_throw(h) for h in (inner(n)[1:] if catches(n) else inner(n)))
    if k == 'LambdaExpr':
        return False
    return any(contains_throw(c) for c in inner(n))


def lit_name(raw):
    s = raw.decode('latin1')
    if re.fullmatch(r'[A-Za-z0-9_]{1,24}', s):
        return 's_' + s
    if s == '':
        return 'e_empty'
    return 'x_' + ''.join('%02x' % c for c in raw[:28]) + ('_%d' % (sum((i + 1) * c for i, c in enumerate(raw)) % 1000003) if len(raw) > 28 else '')


def once_per_state(lines):
    """A fault may strike at every statement.  What its handlers do depends only on the variables they read, so a fault point
    needs no text of its own when one that comes before it on every path has the same text and nothing it reads changed since."""
    def braces(t):
        low = d = 0
        for c in t:
            d += (c == '{') - (c == '}')
            low = min(low, d)
        return low, d
    n = len(lines)
    bal = [braces(x[0]) for x in lines]
    leaves_, stack = [False] * n, [[]]          # lines of blocks that end in a return change nothing for what comes after
    for i in range(n):
        low, d = bal[i]
        for _ in range(-low):
            b = stack.pop() if len(stack) > 1 else []
            if b and lines[b[-1]][0].startswith('return '):
                for k in b:
                    leaves_[k] = True
        for _ in range(d - low):
            stack.append([])
        if low == 0 and d == 0:
            stack[-1].append(i)
    sets = lambda k: set(re.findall(r'(\w+) = ', lines[k][0])) if not lines[k][0].startswith('let ') and not leaves_[k] else set()
    out, marks, depth, i = [], [], 0, 0        # marks: (depth, text, variables)
    while i < n:
        t = lines[i][0]
        m = re.fullmatch(r'let f_\d+ = any_bool\(\);', t)
        g = m and i + 1 < n and re.match(r'if truth\(Ghost\((?:(%s@)|\(.* && %s@\))\)\) \{' % ((t.split()[1],) * 2), lines[i + 1][0])
        if g:
            j, d = i + 1, 0
            while True:
                d += bal[j][1]
                j += 1
                if d <= 0:
                    break
            block = '\n'.join(x[0] for x in lines[i:i + 1] + lines[i + 2:j])
            own = {}
            for v in re.findall(r'let (?:ghost )?(?:mut )?(\w+)', block):
                own.setdefault(v, 'own_%d' % len(own))
            key = re.sub(r'\w+', lambda k: own.get(k.group(0), k.group(0)), block)
            if not any(k == key for _, k, _ in marks):
                marks.append((depth, key, set(re.findall(r'\w+', key))))
                # (a guarded fault may as well strike always)
                out += lines[i:i + 1] + [('if truth(Ghost(%s@)) {' % t.split()[1],) + tuple(lines[i + 1][1:])] + lines[i + 2:j]
            i = j
            continue
        low, d = bal[i]
        marks = [k for k in marks if k[0] <= depth + low and not (sets(i) & k[2])]
        if re.match(r'(#\[.*\]\s*)?while\b|loop\b', t):
            j, e = i, 0
            while j < n and not (e > 0 and e + bal[j][1] <= 0):
                e += bal[j][1]
                j += 1
            changed = set().union(*[sets(k) for k in range(i, j)])
            marks = [k for k in marks if not (changed & k[2])]
        depth += d
        out.append(lines[i])
        i += 1
    return out


def norm_float(v):
    f = float(v)
    return repr(f)


def cstring(value):
    """clang prints a string literal's source spelling."""
    import ast
    s = value
    m = re.match(r'^(?:u8)?"', s)
    if not m:
        raise Unsupported('string literal ' + s[:20])
    body = s[m.end():-1]
    out = bytearray()
    i = 0
    bs = body.encode('utf8')
    esc = {ord('n'): 10, ord('t'): 9, ord('r'): 13, ord('v'): 11, ord('f'): 12, ord('a'): 7, ord('b'): 8,
           ord('\\'): 92, ord('"'): 34, ord("'"): 39, ord('?'): 63}
    while i < len(bs):
        c = bs[i]
        if c != 92:
            out.append(c)
            i += 1
            continue
        i += 1
        c = bs[i]
        if c in b'01234567':
            j = i
            while j < len(bs) and j < i + 3 and bs[j] in b'01234567':
                j += 1
            out.append(int(bs[i:j], 8) & 255)
            i = j
        elif c == ord('x'):
            j = i + 1
            while j < len(bs) and bs[j] in b'0123456789abcdefABCDEF':
                j += 1
            out.append(int(bs[i + 1:j], 16) & 255)
            i = j
        elif c in esc:
            out.append(esc[c])
            i += 1
        else:
            raise Unsupported('escape in literal')
    return bytes(out)


def schar(b):
    return b - 256 if b >= 128 else b


class Ret(Exception):
    pass


class FnTr:
    """Translate one function under contract."""

    def __init__(self, ex, f, con):
        self.ex, self.f, self.con = ex, f, con
        self.p = ex.p
        self.sink = Sink()
        self.env = {}
        self.names = []          # visible (cxxname, V) in scope order
        self.n = 0
        self.loopno = 0
        self.guards = []
        self.inline_stack = []
        self.retk = None
        self.calls = set()
        self.loopstack = []
        self.trystack = []
        self.lineno = None
        self.varids = {}
        self.ob = 0
        self.unnamed_obs = []
        self.statics = {}
        self.moved = set()
        self.curexn = []        # exceptions of the handlers being translated
        self.nest = 0
        self.faults = False

    # ------------------------------------------------------------ output
    def emit(self, s, ob=None, effect=True):
        self.sink.lines.append((s, ob, self.lineno))
        if effect:
            self.sink.effects += 1

    def proof(self, s):
        self.emit('proof { %s }' % s)

    def oblige(self, cond, what):
        if self.guards:
            cond = '(%s) ==> (%s)' % (' && '.join('(%s)' % g for g in self.guards), cond)
        self.emit('proof { assert(%s); }' % cond, ob=what, effect=False)

    def fresh(self, base):
        self.n += 1
        return '%s_%d' % (base, self.n)

    def let(self, e, t, base='t'):
        nm = self.fresh(base)
        self.emit('let ghost %s: %s = %s;' % (nm, rt(t), e), effect=False)
        return nm

    def letmut(self, e, t, base):
        nm = self.fresh(base)
        self.ex.touch(t)
        self.emit('let ghost mut %s: %s = %s;' % (nm, rt(t), e), effect=False)
        return nm

    def assign(self, lv, e):
        self.sink.assigned.add(lv.root)
        self.proof('%s = %s;' % (lv.root, lv.wr(e)))

    # ------------------------------------------------------------ contract text
    def subst(self, text, scope=None, loops=None, header=False):
        scope = scope if scope is not None else list(self.names)
        loops = loops if loops is not None else list(self.loopstack)
        con = self.con

        actual = {q[0] for q in self.f.params} | {'fault', 'this'}

        def typed(nm):
            # renamed local: the variable of the recorded type
            want = con.vars.get(nm)
            if want:
                ty, ordn = (want.split('#') + ['1'])[:2]
                c = []
                for cx, v, own in scope:
                    if own and not cx.startswith("__") and rt_safe(v.t) == ty and cx not in con.params and cx not in actual:
                        if v.lv is not None and not v.lv.path and v.lv.root not in c:
                            c.append(v.lv.root)
                if len(c) >= int(ordn):
                    return c[int(ordn) - 1]

        def look(nm):
            for cx, v, own in reversed(scope):
                if cx == nm and own:
                    r = v.lv.rd() if v.lv is not None else v.e
                    if VARCHECK and nm not in con.params and typed(nm) != r:
                        c = []
                        for cx2, v2, own2 in scope:
                            if own2 and not cx2.startswith('__') and rt_safe(v2.t) == rt_safe(v.t) and cx2 not in con.params and cx2 not in actual and v2.lv is not None and not v2.lv.path and v2.lv.root not in c:
                                c.append(v2.lv.root)
                        VARCHECK.add((self.f.key, nm, con.vars.get(nm), '%s#%s' % (rt_safe(v.t), c.index(r) + 1 if r in c else '?')))
                    return r
            r = typed(nm)
            if r is not None:
                return r
            raise Unsupported('contract of %s names local %s, which the code no longer has' % (self.f.key, nm))

        def rep(m):
            nm = m.group(1)
            if nm == 'ret':
                return self.retexpr()
            mm = re.fullmatch(r'i(\d*)', nm)
            if mm and loops:
                L = loops[-1] if not mm.group(1) else [x for x in loops if x['no'] == int(mm.group(1))][-1]
                if L.get('i') is None:
                    raise Unsupported('loop %d has no index' % L['no'])
                return L['i']
            mm = re.fullmatch(r'seq(\d*)', nm)
            if mm and loops:
                L = loops[-1] if not mm.group(1) else [x for x in loops if x['no'] == int(mm.group(1))][-1]
                if L.get('seq') is None:
                    raise Unsupported('loop %d has no sequence' % L['no'])
                return L['seq']
            return look(nm)

        t = re.sub(r'\$\$(\w+)', lambda m: '%s@' % self.pname(m.group(1)), text)
        if header:
            t = re.sub(r"\$(\w+)'", lambda m: self.outexpr(m.group(1)), t)
            t = re.sub(r'\$throws\b', '(ret@ is Threw)', t)
            t = re.sub(r'\$msg\b', 'ret@->msg', t)
            t = re.sub(r'\$fault\b', lambda m: self.faultexpr(), t)
            t = re.sub(r'\$ret\b', lambda m: self.retexpr(), t)
            t = re.sub(r'\$(\w+)', lambda m: '%s@' % self.pname(m.group(1)), t)
        else:
            t = re.sub(r"\$(\w+)'", r'$\1', t)
            t = re.sub(r'\$var_(\w+)', lambda m: look(m.group(1)), t)   # a local named like an index
            t = re.sub(r'\$(\w+)', rep, t)
        return t

    def pname(self, nm):
        if nm not in self.cparams:
            raise Unsupported('contract of %s: no parameter %s' % (self.f.key, nm))
        return 'p_' + nm

    def payload(self):
        return 'ret@->val' if self.canthrow else 'ret@'

    def retexpr(self):
        base = self.payload()
        if not self.outs and not self.faults:
            return base
        if self.retT.k == 'void':
            raise Unsupported('void has no $ret')
        return base + '.0'

    def faultexpr(self):
        if not self.faults:
            raise Unsupported('$fault of %s' % self.f.key)
        n = (0 if self.retT.k == 'void' else 1) + len(self.outs)
        return self.payload() + ('.%d' % n if n else '')

    def outexpr(self, nm):
        base = self.payload()
        k = [o[0] for o in self.outs]
        if nm not in k:     # the source does not change it: it leaves as it came
            return '%s@' % self.pname(nm)
        j = k.index(nm) + (0 if self.retT.k == 'void' else 1)
        if len(self.outs) == 1 and self.retT.k == 'void' and not self.faults:
            return base
        return base + '.%d' % j

    # ------------------------------------------------------------ function
    def sig(self):
        """Shape of the Verus function for this C++ function."""
        f = self.f
        con = self.con
        ps = []
        self.outs = []      # (contract name, CT)
        self.this = None
        names = list(con.params) if con else []
        hasthis = f.cls and not f.static and not f.ctor
        if f.static and f.cls and uses_statics(f, self.static_fields(f.cls)):
            hasthis = True
        need = (1 if hasthis else 0) + len(f.params)
        if not names:
            names = (['this'] if hasthis else []) + [sani(n) for n, _, _ in f.params]
        if len(names) != need:
            raise Unsupported('%s: parameters changed' % f.key)
        self.cparams = names
        i = 0
        self.retT = f.ret if not f.ctor else CT('cls', name=f.cls)
        if is_striter(self.retT):
            self.retT = CT('striter', [STR])
        if is_inserter(f):      # returns its first argument
            self.retT = CT('void')
        if hasthis:
            t = CT('cls', name=f.cls)
            ps.append((names[0], t))
            if not f.const:
                self.outs.append((names[0], t))
            i = 1
        for (n, t, _id), nm in zip(f.params, names[i:]):
            if is_striter(t):
                t = CT('striter', [STR], ref=t.ref, const=t.const)
            ps.append((nm, t.strip()))
            if t.ref and not t.const and not (con and ('in_' + nm) in con.opts):
                self.outs.append((nm, t.strip()))
            elif out_pointer(t):
                self.outs.append((nm, t.a[0].strip()))
        self.faults = bool(con and 'faults' in con.opts)
        self.canthrow = self.ex.throws(f.key) or self.faults
        parts = ([] if self.retT.k == 'void' else [rt(self.retT.strip())]) + [rt(t) for _, t in self.outs]
        if self.faults:
            parts.append('bool')
        if self.retT.k == 'void' and not parts:
            rty = '()'
        elif len(parts) == 1:
            rty = parts[0]
        else:
            rty = '(%s)' % ', '.join(parts)
        if self.canthrow:
            rty = 'Exc<%s>' % rty
        self.rty = rty
        self.ps = ps
        for _, t in ps:
            self.ex.touch(t.a[0].strip() if out_pointer(t) else t)
        self.ex.touch(self.retT)
        for _, t in self.outs:
            self.ex.touch(t)
        return 'fn %s(%s) -> (ret: Ghost<%s>)' % (
            fname(f.key), ', '.join('p_%s: Ghost<%s>' % (n, rt_param(t)) for n, t in ps), rty)

    def static_fields(self, cls):
        c = self.p.classes.get(cls) or {}
        return c.get('statics') or []

    def header(self, external=False):
        s = self.sig()
        h = self.subst(self.con.header, header=True)
        if external:
            h = re.sub(r'(?ms)^\s*decreases\b.*?(?=^\s*(?:requires|ensures)\b|\Z)', '', h)
        return s, h

    def translate(self):
        f, con = self.f, self.con
        s, h = self.header()
        self.canreturn = True
        # parameters
        i = 0
        hasthis = len(self.ps) > len(f.params)
        if hasthis:
            nm = self.letmut('p_%s@' % self.ps[0][0], self.ps[0][1], 'v_this')
            self.this = LV(nm, self.ps[0][1])
            self.names.append((self.ps[0][0], V(nm, self.ps[0][1], self.this), True))
            self.outlv = {self.ps[0][0]: self.this}
            i = 1
        else:
            self.outlv = {}
        for (cn, t, pid), (nm, pt) in zip(f.params, self.ps[i:]):
            t2 = pt
            outp = nm in [o[0] for o in self.outs] and t.k == 'ptr'
            if outp:
                t2 = pt.a[0].strip()
            v = self.letmut('p_%s@' % nm, t2, 'v_' + sani(cn))
            lv = LV(v, t2)
            if t2.k == 'striter':
                self.env[pid] = self.stored(lv)
            elif outp:
                self.env[pid] = V('&' + v, pt, None, bind=lv)     # pointer to an out parameter
            else:
                self.env[pid] = V(v, t2, lv)
            self.names.append((nm, V(v, t2, lv), True))
            if cn != nm:
                self.names.append((cn, V(v, t2, lv), True))
            self.outlv[nm] = lv
        if f.ctor:
            t = CT('cls', name=f.cls)
            nm = self.letmut(self.ctor_init_value(f.cls), t, 'v_this')
            self.this = LV(nm, t)
            self.names.append(('this', V(nm, t, self.this), True))
            self.ctor_inits(f, self.this)
        if self.faults:
            self.faultv = self.letmut('false', BOOL, 'fault')
            self.names.append(('fault', V(self.faultv, BOOL, LV(self.faultv, BOOL)), True))
            self.hidden = getattr(self, 'hidden', set()) | {self.faultv}
        self.block_text(('entry', 0))
        body = f.body
        term = False
        if body['kind'] == 'CXXTryStmt':
            term = self.stmt(body)
        else:
            term = self.stmts(inner(body))
        if not term:
            if self.retT.k == 'void' or f.ctor:
                self.do_return(None)
            else:
                raise Unsupported('%s: control may reach the end' % f.key)
        return s, h, once_per_state(self.sink.lines) if self.faults else self.sink.lines

    def ctor_init_value(self, cls):
        self.ex.cls(cls)
        fs = self.p.allfields(cls)
        parts = []
        for n, t in fs:
            parts.append('%s: %s' % (fld(n), self.field_default(t)))
        return '%s { %s }' % (cls, ', '.join(parts))

    def field_default(self, t):
        d = default(t)
        if d is not None:
            return d
        if t.k == 'cls':
            return self.ctor_init_value(t.name)
        return 'arbitrary()'

    def ctor_inits(self, f, this):
        for c in inner(f.node):
            if c['kind'] != 'CXXCtorInitializer':
                continue
            ini = inner(c)
            if 'anyInit' in c:
                nm = c['anyInit']['name']
                t = dict(self.p.allfields(f.cls)).get(nm)
                if t is None:
                    raise Unsupported('ctor initializer ' + nm)
                if ini and ini[0]['kind'] == 'CXXDefaultInitExpr':
                    raise Unsupported('default member initializer')
                v = self.ex_(ini[0])
                self.assign(this.ext('f', f.cls, fld(nm), t), self.conv(v, t).e)
            elif 'baseInit' in c:
                if ini and 'iterator<' not in c['baseInit'].get('qualType', ''):
                    v = self.ex_(ini[0])
                    if v.t.k == 'cls':
                        for n, t in self.p.allfields(v.t.name):
                            self.assign(this.ext('f', f.cls, fld(n), t), '%s.%s' % (v.e, fld(n)))

    def block_text(self, key, scope=None, loops=None):
        t = self.con.blocks.get(key)
        if t and t.strip() and not self.inline_stack:
            self.ghost(self.subst(t, scope, loops))

    def at_call(self, name, more=()):
        """Proof text just before every call of a function."""
        t = self.con.blocks.get(('atcall', name))
        if t and t.strip():
            for a, b in more:
                t = t.replace('$' + a, b)
            self.ghost(self.subst(t))

    def ghost(self, t):
        """Proof text: leading `let ghost` lines stay in scope, the rest is one proof block."""
        lines = [l for l in t.split('\n') if l.strip()]
        while lines and re.match(r'\s*let ghost\b', lines[0]):
            self.emit(lines.pop(0), effect=False)
        if lines:
            self.emit('proof {\n%s\n}' % '\n'.join(lines), effect=False)

    # ------------------------------------------------------------ returns
    def do_return(self, v):
        if self.inline_stack:
            raise Unsupported('return in inlined code')
        f = self.f
        parts = []
        if f.ctor:
            parts = [self.this.rd()]
        else:
            if is_inserter(f) and v is not None and (v.lv is None or v.lv.rd() != self.outlv[self.outs[0][0]].rd()):
                raise Unsupported('inserter returns another stream')
            if self.retT.k != 'void':
                if v is None:
                    raise Unsupported('return without value')
                parts = [self.conv(v, self.retT).e]
        for nm, t in self.outs:
            parts.append(self.outlv[nm].rd())
        if self.faults:
            parts.append(self.faultv)
        e = '()' if not parts else (parts[0] if len(parts) == 1 else '(%s)' % ', '.join(parts))
        if self.canthrow:
            e = 'Exc::Val { val: %s }' % e
        if ('return', 0) in self.con.blocks:
            nm = None
            if self.retT.k != 'void' and not f.ctor:
                nm = self.let(parts[0], self.retT.strip(), 'ret')
            text = self.con.blocks[('return', 0)]
            if nm:
                text = re.sub(r'\$ret\b', nm, text)
            self.ghost(self.subst(text))
        if ('returnif', 0) in self.con.blocks:      # only where every name is in scope
            try:
                text = self.con.blocks[('returnif', 0)]
                if '$ret' in text:      # only where a value is returned
                    if not parts or parts[0] == 'None':
                        text = ''
                    else:
                        text = re.sub(r'\$ret\b', lambda m: self.let(parts[0], self.retT.strip(), 'ret'), text)
                text = self.subst(text)
            except Unsupported:
                text = None
            if text:
                self.ghost(text)
        self.emit('return Ghost(%s);' % e)

    def do_throw(self, msg, kind='0int'):
        fr = self.trystack[-1] if self.trystack else None
        if fr is not None and len(self.inline_stack) != fr['inline']:
            raise Unsupported('throw from inlined code inside a try block')
        if fr is not None and fr['flag'] is None:
            # every handler leaves the function: run it here
            self.trystack.pop()
            try:
                self.handlers(fr, msg, kind)
            finally:
                self.trystack.append(fr)
            return
        if fr is not None:
            if (self.nest, len(self.loopstack)) != fr['depth']:
                raise Unsupported('throw from a nested statement of a try block')
            self.sink.assigned.add(fr['flag'])
            self.proof('%s = Some((%s, %s));' % (fr['flag'], msg, kind))
            fr['thrown'] = True
            return
        if self.inline_stack and not self.ex.throws(self.f.key):
            raise Unsupported('throw from inlined code')
        self.emit('return Ghost(Exc::Threw { msg: %s, kind: %s });' % (msg, kind))

    def handlers(self, fr, msg, kind):
        """The handler that takes the exception; all of them leave the function."""
        closes = 0
        done = False
        for h in fr['hs']:
            hk = handler_kind(h)
            if hk is None:
                continue
            lit = re.fullmatch(r'(\d)int', kind)
            if lit:
                if int(lit.group(1)) > hk:
                    continue
            elif hk < 2:
                self.emit('if truth(Ghost(%s <= %d)) {' % (kind, hk), effect=False)
                closes += 1
            term = self.run_handler(h, msg, kind)
            if not term and fr['flag'] is None:
                raise Unsupported('handler falls through')
            if lit or hk == 2:
                done = True
                break
            self.emit('} else {', effect=False)
        if not done:
            self.do_throw(msg, kind)
        for _ in range(closes):
            self.emit('}', effect=False)

    def run_handler(self, h, msg, kind):
        v = [c for c in h.get('inner') or [] if c.get('kind') == 'VarDecl']
        def go():
            if v and v[0].get('id'):
                m = self.let(msg, STR, 'what')
                k = self.fresh('kind')
                self.emit('let ghost %s: int = %s;' % (k, kind), effect=False)
                self.env[v[0]['id']] = V(m, CT('exn'))
                self.curexn.append((m, k))
            else:
                self.curexn.append((msg, kind))
            try:
                return self.stmt([c for c in inner(h) if c['kind'] == 'CompoundStmt'][0])
            finally:
                self.curexn.pop()
        return self.scoped(go)

    def fault_point(self, s):
        """Before a statement of a function with faults: anything it calls may throw anything."""
        if not self.faults or self.inline_stack or self.curexn or not may_fail(s, self.ex.selffault):
            return
        if self.trystack and self.trystack[-1]['flag'] is not None:
            return      # a try block that goes on after its handlers: the exceptions of its calls are modelled themselves
        m, k = self.fresh('why'), self.fresh('kind')
        self.emit('let %s = any_bool();' % self.fresh('f'), effect=False)
        self.emit('if truth(Ghost(f_%d@)) {' % self.n, effect=False)
        self.emit('let ghost %s: Str = arbitrary(); let ghost %s: int = arbitrary();' % (m, k), effect=False)
        fr = self.trystack[-1] if self.trystack else None
        if fr is not None and fr['flag'] is not None:
            if (self.nest, len(self.loopstack)) != fr['depth']:
                raise Unsupported('fault in a nested statement of a try block')
            self.sink.assigned |= {self.faultv, fr['flag']}
            self.proof('%s = true; %s = Some((%s, %s));' % (self.faultv, fr['flag'], m, k))
            self.emit('} else {', effect=False)
            fr['opens'] += 1
            return
        old = self.faultv
        self.faultv = 'true'
        try:
            self.do_throw(m, k)
        finally:
            self.faultv = old
        self.emit('}', effect=False)

    # ------------------------------------------------------------ statements
    def stmts(self, lst):
        """Translate a statement list; True when it never falls through."""
        mark = len(self.names)
        term = False
        for i, s in enumerate(lst):
            if self.inline_stack and self.inline_stack[-1]['k'] is not None and has_return(s) and s['kind'] != 'ReturnStmt':
                term = self.inline_tail(s, lst[i + 1:])
                break
            if self.stmt(s):
                term = True
                break
        if not (len(lst) == 1 and lst[0]['kind'] == 'CompoundStmt'):
            self.lastscope = list(self.names)       # what proof text at the end of a loop body may name
        del self.names[mark:]
        return term

    def inline_tail(self, s, rest):
        """A statement containing a return, inside an inlined function."""
        if s['kind'] == 'CompoundStmt':
            return self.stmts(inner(s) + rest)
        if s['kind'] == 'IfStmt':
            raw = s['inner']
            j = 0
            if s.get('hasInit') or s.get('hasVar'):
                raise Unsupported('if with declaration')
            c = self.ex_(raw[0])
            els = raw[2] if s.get('hasElse') else None
            self.emit('if truth(Ghost(%s)) {' % self.boolean(c))
            t1 = self.scoped(lambda: self.stmts([raw[1]] + rest) if not is_terminator(raw[1]) else self.stmts([raw[1]]))
            self.emit('} else {')
            t2 = self.scoped(lambda: self.stmts(([els] if els else []) + rest))
            self.emit('}')
            return t1 and t2
        if s['kind'] == 'SwitchStmt':
            return self.switch(s, rest)
        raise Unsupported('return inside %s of an inlined function' % s['kind'])

    def scoped(self, fn):
        env = dict(self.env)
        mark = len(self.names)
        r = fn()
        del self.names[mark:]
        self.env = env
        return r

    def stmt(self, s):
        k = s['kind']
        ln = (s.get('range') or {}).get('begin', {})
        if 'line' in ln:
            self.lineno = ln['line']
        if k == 'IfStmt':
            self.fault_point(s['inner'][0])
        elif k == 'CXXForRangeStmt':
            self.fault_point([c for c in s['inner'] if c.get('kind') == 'DeclStmt'][0])
        elif k in ('ForStmt', 'WhileStmt', 'SwitchStmt'):
            for c in s['inner'][:-1]:
                if c.get('kind') and may_fail(c, self.ex.selffault):
                    self.fault_point(c)
                    break
        elif k not in ('CompoundStmt', 'CXXTryStmt', 'NullStmt'):
            self.fault_point(s)
        if k == 'CompoundStmt':
            return self.scoped(lambda: self.stmts(inner(s)))
        if k == 'NullStmt':
            return False
        if k == 'DeclStmt':
            for d in inner(s):
                self.decl(d)
            return False
        if k == 'ReturnStmt':
            ch = inner(s)
            if self.inline_stack:
                fr = self.inline_stack[-1]
                if fr['k'] is None:
                    raise Unsupported('return in inlined code')
                if ch:
                    v = self.ex_(ch[0])
                    if fr['ret'] is not None:
                        self.assign(fr['ret'], self.conv(v, fr['rt']).e)
                return True
            v = self.ex_(ch[0]) if ch else None
            if v is not None and v.t.k == 'void':
                v = None
            self.do_return(v)
            return True
        if k == 'IfStmt':
            return self.ifstmt(s)
        if k == 'ForStmt':
            return self.forstmt(s)
        if k == 'WhileStmt':
            return self.whilestmt(s)
        if k == 'CXXForRangeStmt':
            return self.rangefor(s)
        if k == 'SwitchStmt':
            return self.switch(s, [])
        if k == 'BreakStmt':
            L = self.loopstack[-1] if self.loopstack else None
            if L is None or L.get('inlinedepth', 0) != len(self.inline_stack):
                raise Unsupported('break outside a loop')
            L['broke'] = True
            if not self.inline_stack:
                self.block_text(('break', L['no']), loops=self.loopstack)
            self.emit('break;')
            return True
        if k == 'ContinueStmt':
            L = self.loopstack[-1] if self.loopstack else None
            if L is None:
                raise Unsupported('continue outside a loop')
            L['continued'] = True
            L['inc']()
            self.emit('continue;')
            return True
        if k == 'CXXTryStmt':
            return self.trystmt(s)
        if k in ('ExprWithCleanups', 'CXXThrowExpr') or True:
            e = strip(s)
            if e['kind'] == 'CXXThrowExpr':
                self.throw(e)
                return True
            if is_log(e):
                self.ex.dropped.append('%s: output to a standard stream' % self.f.key)
                return False
            if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'GotoStmt', 'DoStmt'):
                if k == 'DoStmt':
                    raise Unsupported('do statement')
                raise Unsupported(k)
            self.ex_(s, void=True)
            return False

    def throw(self, e):
        ch = inner(e)
        if not ch:
            if not self.curexn:
                raise Unsupported('rethrow')
            self.do_throw(*self.curexn[-1])
            return
        x = strip(ch[0])
        q = x['type']['qualType']
        kind = 0 if 'runtime_error' in q else (1 if re.search(r'exception|_error|bad_', q) else 2)
        msg = 'Seq::<int>::empty()'
        while x['kind'] in ('CXXFunctionalCastExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr') and inner(x):
            x = strip(inner(x)[0])
            t = self.p.T(x['type'])
            if t.k in ('str', 'ptr', 'arr'):
                break
        if self.p.T(x['type']).k in ('str', 'ptr', 'arr'):
            msg = self.conv(self.ex_(x), STR).e
        self.do_throw(msg, '%dint' % kind)

    def decl(self, d):
        k = d['kind']
        if k != 'VarDecl':
            if k in ('TypedefDecl', 'UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'EnumDecl', 'UsingDirectiveDecl'):
                return
            raise Unsupported('declaration ' + k)
        q = d['type']['qualType']
        t = self.p.T(d['type'])
        init = inner(d)
        init = [c for c in init if not c['kind'].endswith('Attr')]
        isref = q.rstrip().endswith('&')
        nm = d['name']
        if d.get('storageClass') == 'static' and not (t.const and init):
            if not init or not self.readonly(d['id']):
                raise Unsupported('static local')
        if not init:
            if t.k == 'cls':
                val = self.construct(t, [], None).e
            else:
                val = default(t) or 'arbitrary()'
            if t.k == 'iter':
                self.env[d['id']] = V(None, t)
                v = self.letmut('arbitrary()', INT, 'v_' + sani(nm))
                self.bindvar(d, nm, V(v, t, LV(v, t)))
                return
            if t.k == 'smatch':
                val = 'arbitrary()'
            v = self.letmut(val, t, 'v_' + sani(nm))
            self.bindvar(d, nm, V(v, t, LV(v, t)))
            return
        v = self.ex_(init[0], want=t)
        if isref:
            if v.lv is None and v.ent is None:
                # a reference to a temporary: materialise it
                x = self.letmut(v.e, v.t, 'v_' + sani(nm))
                self.bindvar(d, nm, V(x, v.t, LV(x, v.t), bind=v.bind))
                return
            self.env[d['id']] = self.pin(v)
            self.names.append((nm, self.env[d['id']], not self.inline_stack))
            return
        if v.t.k == 'iter' and (t.k in ('iter', 'other', 'auto')):
            x = self.letmut(v.e, INT, 'v_' + sani(nm))
            self.bindvar(d, nm, V(x, v.t, LV(x, v.t), bind=v.bind))
            return
        if v.ent is not None:
            v = self.plain(v)
        tt = t if t.k != 'other' else v.t
        if t.k == 'ptr' and v.t.k == 'ptr':
            tt = v.t
        if t.k == 'ptr' and v.t.k == 'ptr' and t.a[0].k == 'cls' and t.a[0].const and v.bind is not None and not t.const and rt(t).startswith('Option'):
            x = self.letmut('Some(%s)' % v.bind.rd(), t.strip(), 'v_' + sani(nm))
            self.bindvar(d, nm, V(x, t.strip(), LV(x, t.strip())))
            return
        tt = tt.strip()
        if v.t.k in ('vec', 'set', 'map', 'cls', 'pair', 'smatch', 'submatch', 'regex') and tt.k in ('other',):
            tt = v.t.strip()
        e = self.conv(v, tt).e
        x = self.letmut(e, tt, 'v_' + sani(nm))
        self.bindvar(d, nm, V(x, tt, LV(x, tt), bind=v.bind if tt.k in ('iter', 'ptr', 'smatch', 'archive') else None, npos=v.npos))

    def readonly(self, did):
        """The variable is only ever read in the function: each use is converted to a const value or reference."""
        def walk(n, ok):
            if n.get('kind') == 'DeclRefExpr' and (n.get('referencedDecl') or {}).get('id') == did:
                return ok
            r = True
            for c in inner(n):
                k = n.get('kind') == 'ImplicitCastExpr' and (n.get('castKind') == 'LValueToRValue' or self.p.T(n['type']).const)
                r = walk(c, k or (ok and n.get('kind') in ('ParenExpr',))) and r
            return r
        return walk((self.p.funcs[self.inline_stack[-1]['key']] if self.inline_stack else self.f).body, False)

    def bindvar(self, d, nm, v):
        self.env[d['id']] = v
        self.names.append((nm, v, not self.inline_stack))

    def pin(self, v, soft=False):
        """Freeze the index expressions of an lvalue a reference is bound to."""
        if v.ent is not None:
            c, key = v.ent
            k2 = self.let(key, c.type().a[0], 'key')
            return V(v.e, v.t, None, ent=(c, k2))
        path = []
        for s in v.lv.path:
            if s[0] in ('i', 'm') and not re.fullmatch(r'\d+(int)?', s[1]) and not (soft and re.fullmatch(r'\w+', s[1])):
                ty = INT if s[0] == 'i' else None
                nm = self.fresh('ix')
                self.emit('let ghost %s = %s;' % (nm, s[1]), effect=False)
                path.append((s[0], nm) + s[2:])
            else:
                path.append(s)
        lv = LV(v.lv.root, v.lv.rt, path)
        return V(lv.rd(), v.t, lv, bind=v.bind)

    def plain(self, v):
        if v.ent is not None:
            c, key = v.ent
            return V('(%s, %s[%s])' % (key, c.rd(), key), v.t)
        return v

    def boolean(self, v):
        if v.t.k == 'bool':
            return v.e
        if v.t.k in ('int', 'enum'):
            return '(%s != 0)' % v.e
        if v.t.k == 'stream':
            return '!%s.fail' % v.e
        if v.t.k == 'ptr':
            r = rt(v.t)
            if r == 'int':
                return '(%s != -1)' % v.e
            if r.startswith('Option') or r == 'CStr':
                return '(%s is Some)' % v.e
        raise Unsupported('condition of type %r' % v.t)

    def ifstmt(self, s):
        raw = s['inner']
        j = 0
        if s.get('hasInit'):
            raise Unsupported('if with init')
        if s.get('hasVar'):
            self.stmt(raw[0])
            j = 1
        c = self.ex_(raw[j])
        e = self.boolean(c)
        if 'flat_ifs' in self.con.opts and not s.get('hasElse'):
            self.nest += 1
            t1, sk = self.sub(lambda: self.scoped(lambda: self.stmts([raw[j + 1]])))
            self.nest -= 1
            flat = None if t1 else self.flat(sk.lines)
            if flat is not None:
                g = self.let_any(e)
                for text, ob, no in flat:
                    self.sink.lines.append((text.replace('@GUARD@', g), ob, no))
            else:
                self.emit('if truth(Ghost(%s)) {' % e)
                self.sink.lines += sk.lines
                self.emit('}')
            self.sink.effects += sk.effects
            self.sink.assigned |= sk.assigned
            return False
        self.emit('if truth(Ghost(%s)) {' % e)
        self.nest += 1
        t1 = self.scoped(lambda: self.stmts([raw[j + 1]]))
        t2 = False
        if s.get('hasElse'):
            self.emit('} else {')
            t2 = self.scoped(lambda: self.stmts([raw[j + 2]]))
        self.nest -= 1
        self.emit('}')
        return t1 and t2 and bool(s.get('hasElse'))

    def flat(self, lines):
        """The body of an if as guarded straight-line text: elements and fields get a conditional value."""
        out, i, hit, told = [], 0, False, set()
        while i < len(lines):
            text, ob, no = lines[i]
            t = text.strip()
            if t in told:       # asked already, and nothing changed since
                i += 1
                continue
            m = re.fullmatch(r'proof \{ assert\((.*)\); \}', t, re.S)
            u = re.fullmatch(r'proof \{ (\w+) = \1\.update\((\d+int), (.*)\); \}', t, re.S)
            w = re.fullmatch(r'proof \{ (\w+) = Some\((\w+) \{ (\w+): (.*), \.\.\1->0 \}\); \}', t, re.S)
            if m:
                out.append(('proof { assert(@GUARD@ ==> (%s)); }' % m.group(1), ob, no))
                told.add(t)
            elif u:
                x, k = u.group(1), u.group(2)
                # (the assertion keeps the elements that stay at hand for the solver)
                out.append(('proof { let was = %s; %s = %s.update(%s, if @GUARD@ { %s } else { %s[%s] }); assert(%s.len() == was.len() && forall|j: int| 0 <= j < was.len() && j != %s ==> #[trigger] %s[j] == was[j]); }' % (x, x, x, k, u.group(3), x, k, x, k, x), ob, no))
                hit, told = True, set()
            elif w:
                x, ty, f, v = w.groups()
                out.append(('proof { %s = if %s is Some { Some(%s { %s: if @GUARD@ { %s } else { %s->0.%s }, ..%s->0 }) } else { %s }; }' % (x, x, ty, f, v, x, f, x, x), ob, no))
                hit, told = True, set()
            elif re.fullmatch(r'let (\w+) = any_bool\(\);', t) and i + 1 < len(lines):
                f = t.split()[1]
                if lines[i + 1][0].strip() != 'if truth(Ghost(%s@)) {' % f:
                    return None
                out.append(lines[i])
                out.append(('if truth(Ghost((@GUARD@ && %s@))) {' % f,) + tuple(lines[i + 1][1:]))
                i += 2
                depth = 1
                while depth:
                    if i >= len(lines):
                        return None
                    z = lines[i][0].strip()
                    depth += z.endswith('{') and not z.startswith('}')
                    depth -= z == '}'
                    out.append(lines[i])
                    i += 1
                if not any(z[0].strip().startswith('return ') for z in out[-8:]):
                    return None
                continue
            else:
                return None
            i += 1
        return out if hit else None

    def switch(self, s, rest):
        raw = [c for c in s['inner'] if c.get('kind')]
        if s.get('hasInit') or s.get('hasVar'):
            raise Unsupported('switch with declaration')
        v = self.ex_(raw[0])
        x = self.let(v.e, v.t.strip(), 'sw')
        body = raw[1]
        groups = []   # (labels or None, [stmts])
        pend = []

        def add(st):
            nonlocal pend
            if st['kind'] == 'CaseStmt':
                ch = inner(st)
                lab = self.constval(ch[0])
                groups.append(([lab], []))
                if len(ch) > 1:
                    add(ch[-1])
            elif st['kind'] == 'DefaultStmt':
                groups.append((None, []))
                add(inner(st)[0])
            else:
                if not groups:
                    raise Unsupported('statement before case')
                groups[-1][1].append(st)
        for st in inner(body):
            add(st)
        # bodies with fallthrough
        full = []
        for i, (lab, sts) in enumerate(groups):
            b, j, done = [], i, False
            while j < len(groups) and not done:
                for st in groups[j][1]:
                    if st['kind'] == 'BreakStmt':
                        done = True
                        break
                    b.append(st)
                    if st['kind'] in ('ReturnStmt',) or (st['kind'] == 'CompoundStmt' and ends_break(st)):
                        done = True
                        break
                    if st['kind'] == 'ContinueStmt' or strip(st)['kind'] == 'CXXThrowExpr':
                        done = True
                        break
                j += 1
            full.append((lab, [debreak(z) for z in b]))
        for _, b in full:
            for st in b:
                if has_loose_break(st):
                    raise Unsupported('break nested in a switch case')
        labelled = [(l, b) for l, b in full if l is not None]
        deflt = [b for l, b in full if l is None]
        # merge equal bodies
        arms = []
        for l, b in labelled:
            if arms and [id(z) for z in arms[-1][1]] == [id(z) for z in b]:
                arms[-1][0].extend(l)
            else:
                arms.append((list(l), b))
        if len(arms) > 3 and not any(jumps(st) for _, b in full for st in b):
            # no arm leaves the switch early: one arm after the other, the selector does not change
            self.nest += 1
            for l, b in arms:
                self.emit('if truth(Ghost((%s))) {' % ' || '.join('%s == %s' % (x, z) for z in l))
                self.scoped(lambda: self.stmts(b))
                self.emit('}')
            if deflt and deflt[0]:
                self.emit('if truth(Ghost((%s))) {' % ' && '.join('%s != %s' % (x, z) for l, _ in arms for z in l))
                self.scoped(lambda: self.stmts(deflt[0]))
                self.emit('}')
            self.nest -= 1
            return self.stmts(rest)
        depth = 0
        terms = []
        self.nest += 1
        for l, b in arms:
            self.emit('if truth(Ghost((%s))) {' % ' || '.join('%s == %s' % (x, z) for z in l))
            terms.append(self.scoped(lambda: self.stmts(b + rest)))
            self.emit('} else {')
            depth += 1
        terms.append(self.scoped(lambda: self.stmts((deflt[0] if deflt else []) + rest)))
        for _ in range(depth):
            self.emit('}')
        self.nest -= 1
        return all(terms)

    def constval(self, n):
        n = strip(n)
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'EnumConstantDecl':
            return self.enumconst(n)
        if n['kind'] == 'IntegerLiteral':
            return n['value']
        if n['kind'] == 'CharacterLiteral':
            if n['type']['qualType'] == 'char' and n['value'] > 127:
                raise Unsupported('case label above 127')
            return str(n['value'])
        if n['kind'] == 'UnaryOperator' and n['opcode'] == '-':
            return '(0int - %s)' % self.constval(inner(n)[0])
        raise Unsupported('case label ' + n['kind'])

    def enumconst(self, n):
        rd = n['referencedDecl']
        q = rd['type']['qualType'].replace('enum ', '')
        t = self.p.T(q)
        es = [t.name] if t.k == 'enum' else []
        es += [e for e in self.p.enums if e.endswith('::' + q)]
        for e in es:
            if rd['name'] in self.p.enums.get(e, {}):
                v = self.p.enums[e][rd['name']]
                return '(0int - %d)' % -v if v < 0 else '%d' % v
        if rd['name'] in LIBCONST:
            return LIBCONST[rd['name']]
        if rd['name'].startswith('match_'):
            return 'match_flag(%d)' % __import__('zlib').crc32(rd['name'].encode())
        hits = [d[rd['name']] for e, d in self.p.enums.items() if rd['name'] in d]
        if len(hits) == 1:
            return '(0int - %d)' % -hits[0] if hits[0] < 0 else '%d' % hits[0]
        raise Unsupported('enum constant ' + rd['name'])

    # ------------------------------------------------------------ loops
    def trystmt(self, s):
        body, hs = inner(s)[0], inner(s)[1:]
        fr = {'hs': hs, 'flag': None, 'opens': 0, 'thrown': False, 'inline': len(self.inline_stack), 'depth': (self.nest, len(self.loopstack))}
        if not all(leaves([c for c in inner(h) if c['kind'] == 'CompoundStmt'][0]) for h in hs):
            fr['flag'] = self.letmut('None', CT('exnflag'), 'exn')
            self.hidden = getattr(self, 'hidden', set()) | {fr['flag']}
        self.trystack.append(fr)
        try:
            if fr['flag'] is None:
                return self.stmt(body)
            # after a statement that threw the rest of the block is skipped
            def go():
                for st in inner(body):
                    if self.stmt(st):
                        raise Unsupported('try block that leaves the function')
            self.scoped(go)
        finally:
            self.trystack.pop()
        for _ in range(fr['opens']):
            self.emit('}', effect=False)
        x = fr['flag']
        self.emit('if truth(Ghost(%s is Some)) {' % x, effect=False)
        self.nest += 1
        self.handlers(fr, '(%s->0).0' % x, '(%s->0).1' % x)
        self.nest -= 1
        self.emit('}', effect=False)
        return False

    def sub(self, fn):
        """Run fn with a fresh sink; return (result, sink)."""
        old = self.sink
        self.sink = Sink()
        try:
            r = fn()
            return r, self.sink
        finally:
            self.sink = old

    def splice(self, sk):
        self.sink.lines += sk.lines
        self.sink.effects += sk.effects
        self.sink.assigned |= sk.assigned

    def loop(self, cond_fn, body_fn, inc_fn, idx=None, seq=None, bound=None):
        """General loop.  cond_fn() -> bool text (may emit); idx: var text of the counter."""
        self.loopno += 1
        no = self.loopno
        owned = not self.inline_stack
        L = {'no': no, 'i': idx, 'seq': seq, 'inc': None, 'inlinedepth': len(self.inline_stack)}
        scope = list(self.names)
        self.block_text(('before', no))
        # condition, evaluated once before and once per iteration
        cnd, pre = self.sub(cond_fn)
        hoisted = pre.effects > 0
        self.splice(pre)
        extra = []
        if hoisted:
            cv = self.letmut(cnd, BOOL, 'go')
            cond = cv
        else:
            cond = cnd

        def inc():
            sc = L.pop('endscope', None) or list(self.names)
            if owned and ('beforeinc', no) in self.con.blocks:
                self.ghost(self.subst(self.con.blocks[('beforeinc', no)], sc, loops=self.loopstack))
            inc_fn()
            if owned and ('loopend', no) in self.con.blocks:
                self.ghost(self.subst(self.con.blocks[('loopend', no)], sc, loops=self.loopstack))
            c2, sk = self.sub(cond_fn)
            self.splice(sk)
            if hoisted:
                self.sink.assigned.add(cv)
                self.proof('%s = %s;' % (cv, c2))
        L['inc'] = inc
        self.loopstack.append(L)

        def body():
            if owned:
                self.block_text(('loopbody', no), loops=self.loopstack)
            self.lastscope = None
            term = self.scoped(body_fn)
            if not term:
                L['endscope'] = self.lastscope
                inc()
            return term
        snap = self.ob
        term, bs = self.sub(body)
        # auto invariants
        mod = bs.assigned
        lin = linear_counters(bs.lines, mod)
        inits = {}
        invs = []
        for v, step in lin.items():
            if v not in {nm for nm in self.visible_roots()}:
                continue
            inits[v] = self.fresh(v + '_0')
            self.emit('let ghost %s = %s;' % (inits[v], v), effect=False)
        prim = idx if (idx in inits) else None
        if prim is None and inits and not L.get('continued'):
            prim = sorted(inits)[0]
        if prim is not None:
            s0 = lin[prim]
            if s0 > 0:
                invs.append('%s <= %s' % (inits[prim], prim))
            else:
                invs.append('%s >= %s' % (inits[prim], prim))
            for v in inits:
                if v != prim and not L.get('continued'):
                    invs.append('(%s - %s) * (%d) == (%s - %s) * (%d)' % (v, inits[v], s0, prim, inits[prim], lin[v]))
        auto_dec = None
        if idx in inits and bound is not None and lin[idx] == 1 and not mentions(bound, mod):
            invs.append('(%s <= %s ==> %s <= %s)' % (inits[idx], bound, idx, bound))
            auto_dec = '%s - %s' % (bound, idx)
        elif idx is not None and bound is not None and lin.get(idx) == -1 and not mentions(bound, mod):
            invs.append('(%s >= %s ==> %s >= %s)' % (inits[idx], bound, idx, bound))
            auto_dec = '%s - %s' % (idx, bound)
        if hoisted:
            invs.append('%s == (%s)' % (cv, cnd)) if not re.search(r'\bt_\d+|\br_\d+', cnd) else None
        clauses = []
        text = self.con.blocks.get(('loop', no), '') if owned else ''
        text = self.subst(text, scope=scope, loops=self.loopstack) if text.strip() else ''
        self.loopstack.pop()
        m = re.search(r'(?m)^\s*decreases\b', text)
        dec = None
        if m:
            dec = text[m.end():].strip().rstrip(',')
            text = text[:m.start()]
        else:
            dec = auto_dec
        if dec is None:
            self.ex.notes.add('termination of a loop in %s is not proved' % self.f.key)
            self.emit('#[verifier::exec_allows_no_decreases_clause]', effect=False)
        self.emit('#[verifier::loop_isolation(false)]', effect=False)
        self.emit('while truth(Ghost(%s))' % cond)
        text = text.strip()
        if re.search(r'\binvariant_except_break\b|(?m:^\s*ensures\b)', text) or (L.get('broke') and invs):
            self.sink.lines.insert(len(self.sink.lines) - 1, ('#[verifier::allow_complex_invariants]', None, self.lineno))
        if invs:
            if re.search(r'\binvariant_except_break\b', text):
                text = text.replace('invariant_except_break', 'invariant_except_break\n%s' % ''.join('        %s,\n' % i for i in invs), 1)
            elif re.search(r'\binvariant\b', text) and not L.get('broke'):
                text = re.sub(r'\binvariant\b', lambda mm: 'invariant\n%s' % ''.join('        %s,\n' % i for i in invs), text, count=1)
            elif L.get('broke') and re.search(r'\binvariant\b', text):
                text = 'invariant_except_break\n%s' % ''.join('        %s,\n' % i for i in invs) + text
            else:
                text = ('invariant_except_break\n' if L.get('broke') else 'invariant\n') + ''.join('        %s,\n' % i for i in invs) + text
        for ln in text.split('\n'):
            if ln.strip():
                x = ln.strip()
                ob = None if re.match(r'^(invariant|ensures|invariant_except_break|decreases)$', x) else 'loop %d invariant: %s' % (no, x)
                self.emit('    ' + x, ob=ob, effect=False)
        if dec is not None:
            self.emit('    decreases %s,' % dec, ob='loop %d termination' % no, effect=False)
        self.emit('{')
        self.splice(bs)
        self.emit('}')
        if owned:
            self.loopstack.append(L)
            self.block_text(('afterloop', no), loops=self.loopstack)
            self.loopstack.pop()

    def visible_roots(self):
        out = set()
        for v in list(self.env.values()):
            if v.lv is not None:
                out.add(v.lv.root)
        for _, v, _ in self.names:
            if v.lv is not None:
                out.add(v.lv.root)
        out |= getattr(self, 'hidden', set())
        return out

    def forstmt(self, s):
        raw = s['inner']
        init, cvar, cond, inc, body = raw[0], raw[1], raw[2], raw[3], raw[4]
        if cvar.get('kind'):
            raise Unsupported('for with condition variable')

        def go():
            if init.get('kind'):
                self.stmt(init)
            idx, bound, seq = self.cond_shape(cond) if cond.get('kind') else (None, None, None)
            self.loop(lambda: self.boolean(self.ex_(cond)) if cond.get('kind') else 'true',
                      lambda: self.stmts([body]),
                      lambda: self.ex_(inc, void=True) if inc.get('kind') else None,
                      idx, seq, bound)
        self.scoped(go)
        return False

    def whilestmt(self, s):
        raw = [c for c in s['inner'] if c.get('kind')]
        if s.get('hasVar'):
            raise Unsupported('while with declaration')
        cond, body = raw
        idx, bound, seq = self.cond_shape(cond)
        self.loop(lambda: self.boolean(self.ex_(cond)), lambda: self.stmts([body]), lambda: None, idx, seq, bound)
        return False

    def cond_shape(self, cond):
        """Recognise i < E, i != E, it != c.end(): the counter, its bound, the sequence walked."""
        n = strip(cond)
        if n['kind'] == 'BinaryOperator' and n['opcode'] == '&&':
            return self.cond_shape(inner(n)[0])
        a = b = op = None
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('<', '!=', '<=', '>', '>='):
            a, b, op = inner(n)[0], inner(n)[1], n['opcode']
        elif n['kind'] == 'CXXOperatorCallExpr':
            cal = strip(inner(n)[0])
            nm = cal.get('referencedDecl', {}).get('name', '')
            if nm in ('operator!=', 'operator<') and len(inner(n)) == 3:
                a, b, op = inner(n)[1], inner(n)[2], nm[8:]
        if a is None:
            return None, None, None
        if op in ('>', '>='):
            sa = strip(a)
            if sa['kind'] == 'DeclRefExpr' and strip(b)['kind'] != 'DeclRefExpr':
                pass
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        sa, sb = strip(a), strip(b)
        if op == '!=' and sb['kind'] == 'DeclRefExpr' and sa['kind'] != 'DeclRefExpr':
            a, b, sa, sb = b, a, sb, sa
        if sa['kind'] == 'DeclRefExpr':
            (va, _), (vb, _) = self.sub(lambda: self.ex_(a)), self.sub(lambda: self.ex_(b))
            if va.lv is None or va.lv.path:
                return None, None, None
            seq = None
            if va.t.k == 'iter' and va.bind is not None:
                seq = self.items(va.bind)
                bound = vb.e
            else:
                bound = vb.e if op != '<=' else '(%s + 1)' % vb.e
                m = re.fullmatch(r'(.*)\.len\(\) as int\)?', vb.e)
                m = re.fullmatch(r'\((.*)\.len\(\) as int\)', vb.e)
                if m:
                    seq = m.group(1)
            return va.lv.root, bound, seq
        return None, None, None

    def rangefor(self, s):
        raw = [c for c in s['inner'] if c.get('kind')]
        # DeclStmt(range) DeclStmt(begin) DeclStmt(end) cond inc DeclStmt(var) body
        rng = [d for d in raw if d['kind'] == 'DeclStmt'][0]
        var = raw[-2]
        body = raw[-1]
        rinit = inner(inner(rng)[0])[0]
        vd = inner(var)[0]

        def go():
            r = self.ex_(rinit)
            if r.t.k not in ('vec', 'set', 'map', 'str', 'arr'):
                raise Unsupported('range-for over %r' % r.t)
            if r.lv is None:
                x = self.letmut(r.e, r.t, 'rng')
                lv = LV(x, r.t)
            else:
                lv = self.pin(r).lv
            i = self.letmut('0int', INT, 'i')
            self.hidden = getattr(self, 'hidden', set()) | {i}
            seq = self.items(lv)
            bound = '(%s.len() as int)' % seq

            def body_fn():
                q = vd['type']['qualType'].rstrip()
                if r.t.k in ('vec', 'str', 'arr'):
                    el = lv.ext('i', i, elem(r.t))
                    v = V(el.rd(), elem(r.t), el)
                    if q.endswith('&'):
                        v = self.pin(v)
                elif r.t.k == 'set':
                    v = V('%s[%s]' % (seq, i), r.t.a[0])
                    x = self.let(v.e, v.t.strip(), 'el')
                    v = V(x, v.t, None)
                else:
                    kx = self.let('%s[%s]' % (seq, i), r.t.a[0], 'key')
                    v = V(kx, CT('pair', [r.t.a[0], r.t.a[1]]), None, ent=(lv, kx))
                nm = vd['name']
                if q.endswith('&') or v.ent is not None:
                    self.env[vd['id']] = v
                    self.names.append((nm, v, not self.inline_stack))
                else:
                    x = self.letmut(v.e, v.t.strip(), 'v_' + sani(nm))
                    self.bindvar(vd, nm, V(x, v.t.strip(), LV(x, v.t.strip())))
                return self.stmts([body])

            def inc_fn():
                self.sink.assigned.add(i)
                self.proof('%s = %s + 1;' % (i, i))
            self.loop(lambda: '%s < %s' % (i, bound), body_fn, inc_fn, i, seq, bound)
        self.scoped(go)
        return False

    # ------------------------------------------------------------ containers
    def items(self, lv):
        """The sequence an iterator over this container walks."""
        t = lv.type()
        if t.k in ('vec', 'str', 'arr'):
            return lv.rd()
        if t.k == 'set':
            return '%s(%s)' % ('set_items' if rt(t.a[0]) == 'int' else 'strset_items', lv.rd())
        if t.k == 'map':
            return 'map_keys(%s)' % lv.rd()
        raise Unsupported('iteration over %r' % t)

    def size(self, v):
        t = v.t
        if t.k in ('vec', 'str', 'arr', 'set'):
            return '(%s.len() as int)' % v.e
        if t.k == 'map':
            return '(map_keys(%s).len() as int)' % v.e
        raise Unsupported('size of %r' % t)

    # ------------------------------------------------------------ expressions
    def conv(self, v, t):
        """Convert a value to type t where C++ would."""
        v = self.plain(v)
        if t is None:
            return v
        a, b = v.t.k, t.k
        if a == 'iter' and b == 'striter':
            if v.bind is None or v.bind.type().k != 'str':
                raise Unsupported('iterator of an unknown string')
            return V('StrIt { base: %s, pos: %s }' % (v.bind.rd(), v.e), t)
        if a == 'iter' and b == 'cls':
            f = self.ex.pick(t.name, t.name, [v.t], quiet=True)
            if f is not None:
                return self.call_vals(f, [v])
        if a == b == 'ptr' and {rt_safe(v.t), rt_safe(t)} == {'CStr', 'Str'}:
            if rt(t) == 'CStr':
                return V('Some(%s)' % v.e, t)
            self.oblige('%s is Some' % v.e, 'the text is not null')
            return V('%s->0' % v.e, t)
        if a == b:
            if a == 'float' and v.t.bits != t.bits and v.t.bits and t.bits:
                return V('f%dto%d(%s)' % (v.t.bits, t.bits, v.e), t)
            return v
        if b == 'str' and a in ('ptr', 'arr'):
            r = rt(v.t)
            if r == 'CStr':
                if v.e.startswith('Some('):
                    return V('%s->0' % v.e, t)
                self.oblige('%s is Some' % v.e, 'the text is not null')
                return V('%s->0' % v.e, t)
            return V(v.e, t)
        if b == 'str' and a == 'submatch':
            return V(v.e, t)
        if b == 'int' and a == 'bool':
            return V('(if %s { 1int } else { 0int })' % v.e, t)
        if b == 'bool':
            return V(self.boolean(v), t)
        if a in ('int', 'enum', 'iter') and b in ('int', 'enum', 'iter'):
            return V(v.e, t, npos=v.npos, bind=v.bind)
        if b == 'float' and a in ('int', 'enum'):
            m = re.fullmatch(r'\(?(-?\d+)(?:int)?\)?', v.e)
            if m:
                return V(self.ex.flit(m.group(1)), t)
            return V('f_of_int%d(%s)' % (t.bits, v.e), t)
        if b in ('other', 'auto') or a == 'other':
            return v
        if b == 'ptr' and rt(t) == 'CStr' and (a in ('arr', 'str') or (a == 'ptr' and rt(v.t) == 'Str')):
            return V('Some(%s)' % v.e, t)
        if b == 'ptr' and a == 'ptr':
            return v
        if b == 'ptr' and rt(t) == 'Str' and a in ('arr', 'str'):
            return V(v.e, t)
        if b == 'cls' and a == 'cls':
            return v
        if b == 'ptr' and a == 'int' and re.fullmatch(r'\(?0(int)?\)?', v.e):
            return V(self.null(t), t)
        raise Unsupported('conversion %r -> %r' % (v.t, t))

    def null(self, t):
        r = rt(t)
        if r == 'int':
            return '(-1)'
        if r == 'Handle':
            return 'Handle::Null'
        return 'None'

    def ex_(self, n, void=False, want=None):
        m = getattr(self, 'x_' + n['kind'], None)
        if m is None:
            raise Unsupported('expression %s in %s' % (n['kind'], self.f.key))
        if n['kind'] in ('UnaryOperator', 'CXXOperatorCallExpr') and void:
            return m(n, void=True)
        if n['kind'] in ('CXXConstructExpr', 'InitListExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                         'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'CXXTemporaryObjectExpr', 'ParenExpr') and want is not None:
            return m(n, want=want)
        return m(n)

    def pass_(self, n, want=None, void=False):
        return self.ex_(inner(n)[0], want=want)

    x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ParenExpr = x_ConstantExpr = pass_
    x_CXXStdInitializerListExpr = pass_

    def x_ImplicitCastExpr(self, n, want=None):
        ck = n.get('castKind')
        if ck == 'NullToPointer':
            t = self.p.T(n['type'])
            return V(self.null(t) if t.k == 'ptr' else 'None', t)
        v = self.ex_(inner(n)[0], want=want)
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase',
                  'ConstructorConversion', 'UserDefinedConversion', 'BitCast'):
            return v
        if ck == 'ArrayToPointerDecay':
            return v
        if ck in ('IntegralCast', 'IntegralToFloating', 'IntegralToBoolean', 'FloatingCast', 'PointerToBoolean'):
            t = self.p.T(n['type'])
            if ck == 'FloatingCast' and inner(n)[0]['kind'] == 'FloatingLiteral':
                return V(v.e, t)
            r = self.conv(v, t)
            if ck == 'IntegralCast' and t.k == 'int' and t.bits == 8 and v.t.k == 'int' and v.t.bits > 8 and not lit_nonneg(v.e):
                return V('%s(%s)' % ('to_schar' if t.signed else 'to_uchar', v.e), t)
            if ck == 'IntegralCast' and v.t.k == 'int' and v.t.bits == 8 and v.t.signed and t.k == 'int' and not t.signed:
                if t.bits == 8:
                    return V('to_uchar(%s)' % v.e, t)
                return V('wrap%d(%s)' % (t.bits, v.e), t)
            if ck == 'IntegralCast' and v.t.k == 'int' and t.k == 'int' and not t.signed and v.t.signed and not lit_nonneg(v.e):
                self.oblige('0 <= %s' % v.e, 'conversion of a negative value to an unsigned type')
            return V(r.e, t, npos=v.npos)
        raise Unsupported('cast ' + str(ck))

    def x_CXXStaticCastExpr(self, n):
        c = strip(inner(n)[0])
        if c['kind'] == 'CallExpr' and (strip(inner(c)[0]).get('referencedDecl') or {}).get('name') == 'calloc':
            return self.calloc(self.p.T(n['type']), [strip(a) for a in inner(c)[1:]])
        v = self.ex_(inner(n)[0])
        t = self.p.T(n['type'])
        if t.k == 'ptr' and v.t.k == 'ptr' and rt_safe(v.t) == 'Handle' and t.a[0].k == 'cls':
            if t.a[0].name not in HANDLES:
                raise Unsupported('cast of a handle')
            lv = v.lv or LV(self.letmut(v.e, v.t, 'h'), v.t)
            lv = lv.ext('h', t.a[0].name, t)
            return V(lv.rd(), t, lv)
        if t.k == 'ptr' and v.t.k == 'ptr' and rt_safe(t) == 'Handle' and v.t.a[0].k == 'cls':
            if v.t.a[0].name not in HANDLES:
                raise Unsupported('cast to a handle')
            return V('handle_of_%s(%s)' % (v.t.a[0].name, v.e), t)
        if t.k == 'float' and v.t.k == 'float':
            return self.conv(v, t)
        if t.k == 'int' and t.bits == 8 and v.t.k == 'int' and v.t.bits != 8:
            return V('%s(%s)' % ('to_schar' if t.signed else 'to_uchar', v.e), t)
        return self.conv(v, t)

    x_CStyleCastExpr = x_CXXStaticCastExpr

    def calloc(self, t, args):
        """(T *) calloc( sizeof(T), n ): n zeroed structures."""
        sz = [a for a in args if a['kind'] == 'UnaryExprOrTypeTraitExpr' and a.get('name') == 'sizeof']
        if t.k != 'ptr' or t.a[0].k != 'cls' or len(sz) != 1 or len(args) != 2:
            raise Unsupported('calloc')
        other = [a for a in args if a is not sz[0]][0]
        st = self.p.T(sz[0]['argType']) if sz[0].get('argType') else self.p.T(inner(sz[0])[0]['type'])
        self.oblige('true' if st.key() == t.a[0].key() else 'false', 'the allocated block holds the structures it is used for')
        nv = self.ex_(other)
        self.ex.cls(t.a[0].name)
        z = '%s { %s }' % (t.a[0].name, ', '.join('%s: %s' % (fld(n), self.zero(ft)) for n, ft in self.p.allfields(t.a[0].name)))
        self.ex.notes.add('memory suffices: calloc and strdup do not fail')
        if t.a[0].name in ARRAYS:
            return V('Some(Seq::new((%s) as nat, |z_: int| %s))' % (nv.e, z), t)
        self.oblige('%s == 1' % nv.e, 'one structure is allocated')
        return V('Some(%s)' % z, t)

    def zero(self, t):
        if t.k in ('int', 'enum'):
            return '0int'
        if t.k == 'bool':
            return 'false'
        if t.k == 'float':
            return self.ex.flit('0.0')
        if t.k == 'ptr':
            return 'None'
        raise Unsupported('zeroed %r' % t)

    def lib_strdup(self, args, n):
        v, = self.argv(args)
        self.ex.notes.add('memory suffices: calloc and strdup do not fail')
        return V('Some(%s)' % self.conv(v, STR).e, CT('ptr', [CT('int', bits=8)]))

    def x_CXXFunctionalCastExpr(self, n, want=None):
        t = self.p.T(n['type'])
        v = self.ex_(inner(n)[0])
        return self.conv(v, t)

    def x_IntegerLiteral(self, n):
        return V(n['value'] + 'int', self.p.T(n['type']))

    def x_CharacterLiteral(self, n):
        v = n['value']
        if n['type']['qualType'] == 'char' and v > 127:     # a plain char is signed
            v = (v & 255) - (256 if v & 128 else 0)
        return V('(0int - %dint)' % -v if v < 0 else '%dint' % v, CHAR)

    def x_CXXBoolLiteralExpr(self, n):
        return V('true' if n['value'] else 'false', BOOL)

    def x_FloatingLiteral(self, n):
        return V(self.ex.flit(n['value']), self.p.T(n['type']))

    def x_StringLiteral(self, n):
        return V(self.ex.lit(cstring(n['value'])), CT('ptr', [CT('int', bits=8, const=True)]))

    def x_CXXNullPtrLiteralExpr(self, n):
        return V('None', self.p.T(n['type']))

    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            t = self.p.T(rd['type'])
            return V(self.enumconst(n), t if t.k == 'enum' else CT('enum', name=rd['type']['qualType']))
        if rd['id'] in self.env:
            v = self.env[rd['id']]
            if v.lv is not None and v.lv.root in self.moved:
                raise Unsupported('a pointer is used after its object went to another owner')
            return self.rdv(v)
        if rd['kind'] == 'VarDecl':
            nm = rd['name']
            if nm == 'npos':
                return V('npos()', U64, npos=True)
            if self.this is not None:
                sf = dict(self.static_fields(self.this.rt.name))
                if nm in sf:
                    lv = self.this.ext('f', self.this.rt.name, fld(nm), sf[nm])
                    return V(lv.rd(), sf[nm], lv)
            g = self.p.globals.get(nm)
            if g is None:
                try:
                    self.p.load([(self.curfile(), nm)])
                    g = self.p.globals.get(nm)
                except Unsupported:
                    g = None
            if g is not None:
                t = self.p.T(g['type'])
                ini = inner(g)
                if t.const or (t.k == 'ptr' and t.a[0].const):
                    return self.conv(self.ex_(ini[0]), t)
            if nm in ('match_default',):
                return V('0int', INT)
        raise Unsupported('reference to %s %s' % (rd['kind'], rd.get('name')))

    def rdv(self, v):
        if v.lv is not None:
            return V(v.lv.rd(), v.t, v.lv, v.bind, npos=v.npos)
        return v

    def x_CXXThisExpr(self, n):
        if self.this is None:
            raise Unsupported('this')
        return V(self.this.rd(), CT('ptr', [self.this.type()]), None, bind=self.this)

    def deref(self, v):
        """*v"""
        if v.t.k == 'iter':
            if v.bind is None:
                raise Unsupported('iterator over an unknown container')
            c = v.bind
            t = c.type()
            its = self.items(c)
            self.oblige('0 <= %s < %s.len()' % (v.e, its), 'dereferenced iterator is within the container')
            if t.k in ('vec', 'str', 'arr'):
                lv = c.ext('i', v.e, elem(t))
                return V(lv.rd(), elem(t), lv)
            if t.k == 'set':
                return V('%s[%s]' % (its, v.e), t.a[0])
            key = '%s[%s]' % (its, v.e)
            return V(key, CT('pair', [t.a[0], t.a[1]]), None, ent=(c, key))
        if v.t.k == 'ptr':
            if v.bind is not None:
                if v.e and v.e.startswith('?'):
                    pass
                return V(v.bind.rd(), v.bind.type(), v.bind)
            x = v.t.a[0]
            if x.k == 'cls' and x.name in ('MetaSection', 'RuleSection'):
                fldn = 'metas_' if x.name == 'MetaSection' else 'rules_'
                own = self.owner_of(fldn)
                self.oblige('0 <= %s < %s.len()' % (v.e, own.rd()), 'pointer to a %s is valid' % x.name)
                lv = own.ext('i', v.e, CT('cls', name=x.name))
                return V(lv.rd(), lv.type(), lv)
            if x.k == 'cls' and v.lv is not None:
                self.oblige('%s is Some' % v.e, 'dereferenced pointer is not null')
                lv = v.lv.ext('d', x)
                return V(lv.rd(), x, lv)
        raise Unsupported('dereference of %r' % v.t)

    def owner_of(self, fldn):
        if self.this is None:
            raise Unsupported('section pointer without an owner')
        base = self.root_this or self.this
        fs = dict(self.p.allfields(base.type().name))
        if fldn not in fs:
            raise Unsupported('section pointer outside a grammar')
        return base.ext('f', base.type().name, fldn, fs[fldn])

    @property
    def root_this(self):
        for fr in self.inline_stack:
            if fr.get('this') is not None:
                # outermost
                return fr['this']
        return self.this

    def x_MemberExpr(self, n):
        ch = inner(n)
        nm = n['name']
        if not ch:
            raise Unsupported('member ' + nm)
        b = self.ex_(ch[0])
        return self.member(b, nm, n.get('isArrow'))

    def member(self, b, nm, arrow):
        if arrow and b.ent is None:
            b = self.deref(b)
        if b.ent is not None:
            c, key = b.ent
            if nm == 'first':
                return V(key, c.type().a[0])
            if nm == 'second':
                lv = c.ext('m', key, c.type().a[1])
                return V(lv.rd(), lv.type(), lv)
        if b.t.k == 'pair':
            j = {'first': 0, 'second': 1}[nm]
            if b.lv is not None:
                lv = b.lv.ext('p', j, b.t.a[j])
                return V(lv.rd(), lv.type(), lv)
            return V('%s.%d' % (b.e, j), b.t.a[j])
        if b.t.k == 'submatch':
            if nm in ('first', 'second', 'matched'):
                if nm == 'matched':
                    return V('(%s.0 >= 0)' % b.e, BOOL)
                return V('%s.%d' % (b.e, 0 if nm == 'first' else 1), CT('iter', [STR]), bind=b.bind)
        if b.t.k != 'cls':
            raise Unsupported('member %s of %r' % (nm, b.t))
        fs = dict(self.p.allfields(b.t.name))
        if nm not in fs:
            sf = dict(self.static_fields(b.t.name))
            if nm in sf:
                fs = sf
            else:
                raise Unsupported('field %s::%s' % (b.t.name, nm))
        self.ex.cls(b.t.name)
        if b.lv is not None:
            lv = b.lv.ext('f', b.t.name, fld(nm), fs[nm])
            if fs[nm].k == 'striter':
                return self.stored(lv)
            return V(lv.rd(), fs[nm], lv)
        if fs[nm].k == 'striter':
            x = self.letmut('%s.%s' % (b.e, fld(nm)), fs[nm], 'it')
            return self.stored(LV(x, fs[nm]))
        return V('%s.%s' % (b.e, fld(nm)), fs[nm])

    def stored(self, lv):
        """An iterator kept in a field or parameter: position and the string it walks."""
        p = lv.ext('f', 'StrIt', 'pos', INT)
        return V(p.rd(), CT('iter', [STR]), p, bind=lv.ext('f', 'StrIt', 'base', STR))

    # operators ---------------------------------------------------------
    def x_UnaryOperator(self, n, void=False):
        op = n['opcode']
        if op == '!':
            v = self.ex_(inner(n)[0])
            return V('!(%s)' % self.boolean(v), BOOL)
        if op == '-':
            x = strip(inner(n)[0])
            if x['kind'] == 'FloatingLiteral':
                return V(self.ex.flit('-' + str(x['value'])), self.p.T(n['type']))
            v = self.ex_(inner(n)[0])
            m = re.fullmatch(r'(\d+)int', v.e)
            if v.t.k == 'float':
                raise Unsupported('float negation')
            return V('(-%s)' % v.e, v.t)
        if op in ('++', '--'):
            v = self.ex_(inner(n)[0])
            return self.incdec(v, op, n.get('isPostfix'), void)
        if op == '~':
            v = self.ex_(inner(n)[0])
            if not (v.t.k == 'int' and v.t.signed):
                raise Unsupported('complement of an unsigned value')
            return V('(-1 - %s)' % v.e, v.t)
        if op == '*':
            return self.deref(self.ex_(inner(n)[0]))
        if op == '&':
            v = self.ex_(inner(n)[0])
            if v.t.k == 'cls' and v.t.name in ('MetaSection', 'RuleSection') and v.lv is not None:
                last = v.lv.path[-1] if v.lv.path else None
                if last and last[0] == 'i':
                    return V(last[1], CT('ptr', [v.t]))
            if v.lv is not None:
                return V('&' + v.lv.root, CT('ptr', [v.t]), None, bind=v.lv)
            raise Unsupported('address-of')
        raise Unsupported('unary ' + op)

    def incdec(self, v, op, post, void):
        if v.lv is None:
            raise Unsupported('increment of a non-lvalue')
        if v.t.k not in ('int', 'iter'):
            raise Unsupported('increment of %r' % v.t)
        if v.t.k == 'iter' and v.bind is not None:
            its = self.items(v.bind)
            if op == '++':
                self.oblige('0 <= %s < %s.len()' % (v.e, its), 'incremented iterator is not past the end')
            else:
                self.oblige('0 < %s <= %s.len()' % (v.e, its), 'decremented iterator is not at the beginning')
        elif op == '--' and not v.t.signed and v.t.k == 'int':
            self.oblige('%s > 0' % v.e, 'unsigned decrement does not wrap')
        if post and not void:
            old = self.let(v.e, INT)
            self.assign(v.lv, '%s %s 1' % (v.e, op[0]))
            return V(old, v.t, None, v.bind)
        self.assign(v.lv, '%s %s 1' % (v.e, op[0]))
        return self.rdv(V(v.e, v.t, v.lv, v.bind))

    def effects_between(self, fn):
        """Evaluate fn; tell whether it emitted assignments."""
        a0, e0 = len(self.sink.lines), self.sink.effects
        r = fn()
        return r, self.sink.effects > e0

    def pair_eval(self, a, b):
        va = self.ex_(a)
        m = len(self.sink.lines)
        vb, sk = self.sub(lambda: self.ex_(b))
        if sk.effects and not re.fullmatch(r'[\w()]*', va.e):
            if va.t.k in ('stream',):
                pass
            else:
                x = self.let(self.plain(va).e, va.t.strip())
                va = V(x, va.t, va.lv, va.bind)
        self.splice(sk)
        return va, vb

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = inner(n)
        if op in ('&&', '||'):
            return self.shortcircuit(op, a, b)
        if op == '=':
            vb = self.ex_(b)
            va = self.ex_(a)
            return self.assign_v(va, vb)
        if op == ',':
            self.ex_(a, void=True)
            return self.ex_(b)
        va, vb = self.pair_eval(a, b)
        if va.t.k == 'archive':
            return self.archive_op(op, va, vb)
        return self.binop(op, va, vb, self.p.T(n['type']))

    def archive_op(self, op, va, vb):
        """ar << x, ar >> x and ar & x inside the member templates of a class, and of a whole object outside them."""
        if va.lv is None:
            raise Unsupported('operation on a temporary archive')
        t = vb.t.strip()
        if op == '<<' and t.k == 'cls':
            f = next((g for nm in ('save', 'serialize') for g in self.p.byname.get((t.name, nm), []) if len(g.params) == 2 and g.params[0][1].k == 'archive'), None)
            if f is None:
                raise Unsupported('saving of ' + t.name)
            at = CT('archive', name='Archive')
            m = self.letmut('archive_new()', at, 'ar')
            self.call_values(f, [vb, V(m, at, LV(m, at)), V(str(self.p.class_version(t.name)), INT)])
            e = 'object::<%s>(%d, %s.items, %s)' % (rt(t), self.p.class_version(t.name), m, vb.e)
        elif op == '<<':
            self.oblige('!%s.loading' % va.lv.rd(), 'the archive is written to')
            e = 'item::<%s>(%s)' % (rt(t), vb.e)
        elif op in ('>>', '&'):
            if vb.lv is None:
                raise Unsupported('archive operation on a temporary')
            if op == '>>':
                self.oblige('%s.loading' % va.lv.rd(), 'the archive is read from')
            r = self.fresh('ar')
            self.emit('let %s = archive_%s::<%s>(Ghost(%s), Ghost(%s));' % (r, 'read' if op == '>>' else 'amp', rt(t), va.lv.rd(), vb.lv.rd()))
            self.assign(va.lv, '%s@.1' % r)
            self.assign(vb.lv, '%s@.2' % r)
            self.propagate('%s@.0' % r)
            return self.rdv(va)
        else:
            raise Unsupported('operator%s on an archive' % op)
        self.assign(va.lv, 'archive_put(%s, %s)' % (va.lv.rd(), e))
        if va.bind is not None:
            self.assign(va.bind, 'Stream { rest: %s.rest + item_text(%s), ..%s }' % (va.bind.rd(), e, va.bind.rd()))
        return self.rdv(va)

    def assign_v(self, va, vb):
        if va.lv is None:
            raise Unsupported('assignment to a non-lvalue')
        t = va.t
        if t.k == 'iter':
            if vb.bind is None:
                raise Unsupported('iterator assigned from an unknown container')
            if va.lv.path and va.lv.path[-1][:2] == ('f', 'StrIt'):
                whole = LV(va.lv.root, va.lv.rt, va.lv.path[:-1])
                self.assign(whole, 'StrIt { base: %s, pos: %s }' % (vb.bind.rd(), vb.e))
                return self.stored(whole)
            self.assign(va.lv, vb.e)
            # rebind
            for d, v in list(self.env.items()):
                if v.lv is not None and v.lv.root == va.lv.root and not v.lv.path:
                    if v.bind is not None and v.bind.rd() != vb.bind.rd():
                        raise Unsupported('iterator moved to another container')
                    v.bind = vb.bind
            return va
        self.assign(va.lv, self.conv(vb, t).e)
        if t.k == 'ptr' and rt(t).startswith('Option') and vb.lv is not None and not t.a[0].const:
            # the object has a new owner
            if vb.lv.path:
                raise Unsupported('an owned pointer is copied')
            self.moved.add(vb.lv.root)
        return self.rdv(va)

    def binop(self, op, va, vb, t):
        va, vb = self.plain(va), self.plain(vb)
        if op in ('==', '!='):
            if va.t.k == 'ptr' or vb.t.k == 'ptr':
                return self.ptrcmp(op, va, vb)
            if va.t.k == 'float' or vb.t.k == 'float':
                va, vb = self.arith(va, vb)
                e = 'feq(%s, %s)' % (va.e, vb.e)
                return V(e if op == '==' else '!%s' % e, BOOL)
            if va.t.k == 'bool' and vb.t.k == 'int':
                va = self.conv(va, INT)
            if vb.t.k == 'bool' and va.t.k == 'int':
                vb = self.conv(vb, INT)
            return V('(%s %s %s)' % (va.e, op, vb.e), BOOL)
        if op in ('<', '>', '<=', '>='):
            if va.t.k == 'float' or vb.t.k == 'float':
                va, vb = self.arith(va, vb)
                f = {'<': 'fgt(%s, %s)' % (vb.e, va.e), '>': 'fgt(%s, %s)' % (va.e, vb.e),
                     '<=': 'fge(%s, %s)' % (vb.e, va.e), '>=': 'fge(%s, %s)' % (va.e, vb.e)}[op]
                return V(f, BOOL)
            return V('(%s %s %s)' % (va.e, op, vb.e), BOOL)
        if va.t.k == 'iter' and vb.t.k in ('int', 'iter'):
            if op in '+-':
                return V('(%s %s %s)' % (va.e, op, vb.e), va.t if vb.t.k == 'int' else INT, None, va.bind)
        if va.t.k == 'float' or vb.t.k == 'float' or t.k == 'float':
            va, vb = self.arith(va, vb, t)
            fn = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}.get(op)
            if not fn:
                raise Unsupported('float ' + op)
            bits = va.t.bits or 64
            return V('%s%d(%s, %s)' % (fn, bits, va.e, vb.e), CT('float', bits=bits))
        if t.k in ('int', 'enum', 'other'):
            uns = t.k == 'int' and not t.signed
            if op == '+':
                if va.npos or vb.npos:
                    return V('uadd(%s, %s)' % (va.e, vb.e), t)
                return V('(%s + %s)' % (va.e, vb.e), t)
            if op == '-':
                if uns:
                    if va.npos:
                        return V('usub(%s, %s)' % (va.e, vb.e), t, npos=True)
                    self.oblige('%s >= %s' % (va.e, vb.e), 'unsigned subtraction does not wrap')
                return V('(%s - %s)' % (va.e, vb.e), t)
            if op == '*':
                self.oblige('%s * %s < %s' % (va.e, vb.e, MAXU64 if t.bits == 64 else '0x8000_0000int'), 'multiplication does not overflow')
                return V('(%s * %s)' % (va.e, vb.e), t)
            if op in ('/', '%'):
                self.oblige('%s != 0' % vb.e, 'division by a non-zero value')
                if not uns and not lit_nonneg(va.e):
                    self.oblige('0 <= %s && 0 < %s' % (va.e, vb.e), 'division of non-negative values')
                return V('(%s %s %s)' % (va.e, op, vb.e), t)
            if op == '<<':
                self.oblige('0 <= %s < %d' % (vb.e, (va.t.bits or 32) - (1 if va.t.signed else 0)), 'shift amount is below the width')
                return V('(%s * pow2i(%s))' % (va.e, vb.e), t)
            if op == '>>':
                self.oblige('0 <= %s < %d && 0 <= %s' % (vb.e, va.t.bits or 32, va.e), 'shift of a non-negative value by less than the width')
                return V('(%s / pow2i(%s))' % (va.e, vb.e), t)
            if op in ('&', '|', '^'):
                w = max(va.t.bits or 32, vb.t.bits or 32, 32)
                if w != 32:
                    raise Unsupported('bit operation on %d bits' % w)
                sg = 's' if t.k == 'int' and t.signed else 'u'
                return V('%s%s(%s, %s)' % ({'&': 'band', '|': 'bor', '^': 'bxor'}[op], sg, va.e, vb.e), t)
        if t.k == 'ptr':
            raise Unsupported('pointer arithmetic')
        raise Unsupported('operator %s on %r, %r' % (op, va.t, vb.t))

    def arith(self, va, vb, t=None):
        bits = max([v.t.bits for v in (va, vb) if v.t.k == 'float'] or [64])
        if t is not None and t.k == 'float' and t.bits:
            bits = max(bits, t.bits)
        ft = CT('float', bits=bits)
        return self.conv(va, ft), self.conv(vb, ft)

    def ptrcmp(self, op, va, vb):
        def isnull(v):
            return v.e in ('None', '(-1)') or re.fullmatch(r'\(?0(int)?\)?', v.e or '')
        if isnull(vb) or isnull(va):
            x = va if isnull(vb) else vb
            if x.bind is not None and x.e.startswith('&'):
                return V('false' if op == '==' else 'true', BOOL)
            e = self.boolean(x)
            return V('!(%s)' % e if op == '==' else e, BOOL)
        if va.t.k in ('str',) or vb.t.k in ('str',) or (rt(va.t) == 'Str' and rt(vb.t) == 'Str' and va.t.k != vb.t.k):
            return V('(%s %s %s)' % (va.e, op, vb.e), BOOL)
        if rt(va.t) == rt(vb.t) == 'int':
            return V('(%s %s %s)' % (va.e, op, vb.e), BOOL)
        raise Unsupported('pointer comparison')

    def shortcircuit(self, op, a, b):
        va = self.ex_(a)
        ea = self.boolean(va)
        g = ea if op == '&&' else '!(%s)' % ea
        self.guards.append(g)
        vb, sk = self.sub(lambda: self.ex_(b))
        self.guards.pop()
        eb = self.boolean(vb)
        if sk.effects:
            # the right side has effects: evaluate it only when C++ does
            x = self.letmut(ea, BOOL, 'sc')
            saved = self.guards
            self.guards = []
            vb, sk = self.sub(lambda: self.ex_(b))
            self.guards = saved
            self.emit('if truth(Ghost(%s)) {' % (x if op == '&&' else '!' + x))
            self.splice(sk)
            self.sink.assigned.add(x)
            self.proof('%s = %s;' % (x, self.boolean(vb)))
            self.emit('}')
            return V(x, BOOL)
        self.splice(sk)
        return V('(%s %s %s)' % (ea, op, eb), BOOL)

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        a, b = inner(n)
        vb = self.ex_(b)
        va = self.ex_(a)
        t = va.t
        if t.k == 'float':
            ct = self.p.T(n.get('computeResultType') or n['type'])
            r = self.binop(op, va, vb, ct if ct.k == 'float' else t)
            r = self.conv(r, t)
        else:
            r = self.binop(op, va, vb, t)
        self.assign(va.lv, r.e)
        return self.rdv(va)

    def x_ConditionalOperator(self, n, want=None):
        c, a, b = inner(n)
        vc = self.ex_(c)
        ec = self.boolean(vc)
        self.guards.append(ec)
        va, s1 = self.sub(lambda: self.ex_(a))
        self.guards[-1] = '!(%s)' % ec
        vb, s2 = self.sub(lambda: self.ex_(b))
        self.guards.pop()
        if s1.effects or s2.effects:
            t = self.p.T(n['type'])
            x = self.letmut('arbitrary()', t, 'ce')
            saved, self.guards = self.guards, []
            self.emit('if truth(Ghost(%s)) {' % ec)
            va, s1 = self.sub(lambda: self.ex_(a))
            self.splice(s1)
            self.sink.assigned.add(x)
            self.proof('%s = %s;' % (x, self.conv(va, t).e))
            self.emit('} else {')
            vb, s2 = self.sub(lambda: self.ex_(b))
            self.splice(s2)
            self.proof('%s = %s;' % (x, self.conv(vb, t).e))
            self.emit('}')
            self.guards = saved
            return V(x, t)
        self.splice(s1)
        self.splice(s2)
        t = self.p.T(n['type'])
        if t.k in ('str', 'float', 'int', 'bool', 'enum'):
            va, vb = self.conv(va, t), self.conv(vb, t)
        else:
            va, vb = self.plain(va), self.plain(vb)
            t = va.t
        return V('(if %s { %s } else { %s })' % (ec, va.e, vb.e), t, None, va.bind if t.k == 'iter' else None)

    # construction ------------------------------------------------------
    def x_CXXConstructExpr(self, n, want=None):
        t = self.p.T(n['type'])
        args = [a for a in inner(n) if a['kind'] != 'CXXDefaultArgExpr']
        return self.construct(t, args, n, want)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, n, want=None):
        t = self.p.T(n['type'])
        if t.k in ('vec', 'arr', 'set') or (want is not None and want.k in ('vec', 'set', 'arr')):
            tt = t if t.k in ('vec', 'arr', 'set') else want
            vs = [self.conv(self.ex_(c), elem(tt) if tt.k != 'set' else tt.a[0]).e for c in inner(n)]
            return V('seq![%s]' % ', '.join(vs), CT('vec', [tt.a[0]]))
        ch = inner(n)
        if len(ch) == 1:
            return self.ex_(ch[0], want=want)
        raise Unsupported('initializer list')

    def x_CXXScalarValueInitExpr(self, n):
        t = self.p.T(n['type'])
        return V('0int' if t.k == 'int' else default(t), t)

    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr

    def construct(self, t, args, n, want=None):
        if t.k == 'other' and want is not None:
            t = want
        if t.k == 'iter' and not args:
            return V('arbitrary()', t)
        if len(args) == 1:
            at = self.p.T(args[0]['type'])
            # copy or move
            if at.k == t.k and t.k in ('str', 'vec', 'set', 'map', 'pair', 'iter', 'stream', 'regex', 'smatch', 'submatch') or \
                    (at.k == t.k == 'cls' and at.name == t.name):
                v = self.ex_(args[0], want=t)
                if t.k == 'set' and v.t.k == 'vec':
                    return V('%s.to_set()' % v.e, t)
                return V(self.plain(v).e, v.t if v.t.k != 'other' else t, v.lv if t.k == 'iter' else None, v.bind, npos=v.npos)
            if at.k in ('iter', 'other') or t.k in ('iter', 'other'):
                v = self.ex_(args[0], want=t)
                if v.t.k == 'iter':
                    return v
                if v.t.k == t.k and t.k != 'cls':
                    return V(self.plain(v).e, v.t, None, v.bind)
                if t.k == 'other':
                    return v
        if t.k == 'str':
            if not args:
                return V(default(t), t)
            vs = [self.ex_(a) for a in args]
            if len(vs) == 1:
                if vs[0].t.k == 'submatch':
                    return self.submatch_str(vs[0])
                return self.conv(vs[0], STR)
            if len(vs) == 2 and vs[0].t.k == 'iter':
                c = vs[0].bind
                self.oblige('0 <= %s <= %s <= %s.len()' % (vs[0].e, vs[1].e, c.rd()), 'string range is ordered')
                return V('%s.subrange(%s, %s)' % (c.rd(), vs[0].e, vs[1].e), STR)
            if len(vs) == 2 and vs[0].t.k == 'int' and vs[1].t.k == 'int':
                return V('str_rep(%s, %s)' % (vs[0].e, vs[1].e), STR)
            if len(vs) == 3 and vs[0].t.k == 'str':
                self.oblige('%s <= %s.len()' % (vs[1].e, vs[0].e), 'substring start is within the string')
                return V('str_sub(%s, %s, %s)' % (vs[0].e, vs[1].e, vs[2].e), STR)
            raise Unsupported('string constructor')
        if t.k == 'vec':
            if not args:
                return V(default(t), t)
            vs = [self.ex_(a, want=t if i == 0 else None) for i, a in enumerate(args)]
            if len(vs) == 1 and vs[0].t.k == 'vec':
                return V(vs[0].e, t)
            if len(vs) == 1 and vs[0].t.k == 'int':
                raise Unsupported('vector(n)')
            if len(vs) == 2 and vs[0].t.k == 'iter':
                c = vs[0].bind
                if c is None:
                    raise Unsupported('vector range')
                self.oblige('0 <= %s <= %s <= %s.len()' % (vs[0].e, vs[1].e, self.items(c)), 'copied range is ordered')
                return V('%s.subrange(%s, %s)' % (self.items(c), vs[0].e, vs[1].e), t)
            if len(vs) == 2 and vs[0].t.k in ('int',):
                return V('seq_rep(%s, %s)' % (vs[0].e, self.conv(vs[1], t.a[0]).e), t)
            raise Unsupported('vector constructor')
        if t.k in ('set', 'map'):
            if not args:
                return V(default(t), t)
            if t.k == 'set' and len(args) == 1:
                v = self.ex_(args[0], want=t)
                if v.t.k == 'vec':
                    return V('%s.to_set()' % v.e, t)
                return V(v.e, t)
            raise Unsupported('container constructor')
        if t.k == 'stream':
            if not args:
                return V(default(t), t)
            v = self.ex_(args[0])
            return V('stream_of(%s)' % self.conv(v, STR).e, t)
        if t.k == 'archive':
            args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
            v = self.ex_(args[0]) if len(args) == 1 else None
            if v is None or v.lv is None or v.t.k != 'stream' or t.name not in ('text_iarchive', 'text_oarchive'):
                raise Unsupported('archive constructor')
            if t.name == 'text_oarchive':
                self.assign(v.lv, 'Stream { rest: %s.rest + archive_head(), ..%s }' % (v.lv.rd(), v.lv.rd()))
                return V('archive_new()', t, bind=v.lv)
            r = self.fresh('ar')
            self.emit('let %s = archive_open(Ghost(%s));' % (r, v.lv.rd()))
            self.assign(v.lv, '%s@.1' % r)
            self.propagate('%s@.0' % r)
            return V('%s@.0->val' % r, t)
        if t.k == 'smatch':
            return V('arbitrary()', t)
        if t.k == 'regex':
            if not args:
                return V('arbitrary()', t)
            return self.ex_(args[0])
        if t.k == 'cls':
            f = self.ex.pick(t.name, t.name, [self.p.T(a['type']) for a in args], quiet=True)
            if f is None:
                if not args and not self.p.byname.get((t.name, t.name)):
                    return V(self.ctor_init_value(t.name), t)
                raise Unsupported('constructor of ' + t.name)
            return self.call(f, None, args)
        if t.k == 'pair':
            vs = [self.ex_(a) for a in args]
            return V('(%s)' % ', '.join(self.conv(v, x).e for v, x in zip(vs, t.a)), t)
        raise Unsupported('construction of %r' % t)

    def x_CXXNewExpr(self, n):
        t = self.p.T(n['type'])
        ch = inner(n)
        if t.k != 'ptr' or t.a[0].k != 'cls' or n.get('isArray') or not rt(t).startswith('Option'):
            raise Unsupported('new')
        v = self.ex_(ch[0]) if ch else self.construct(t.a[0], [], None)
        if v.t.k != 'cls':
            raise Unsupported('new')
        self.ex.notes.add('an object made by new is owned by the one pointer it was last assigned to (use of the old pointer afterwards is refused)')
        return V('Some(%s)' % v.e, CT('ptr', [t.a[0]]), None)

    def x_CXXDeleteExpr(self, n):
        c = strip(inner(n)[0])
        v = self.ex_(c)
        if v.t.k != 'ptr' or v.t.a[0].k != 'cls' or not rt(v.t).startswith('Option') or n.get('isArray'):
            raise Unsupported('delete')
        if v.lv is not None and v.lv.path and v.lv.path[-1][0] == 'h':
            h = LV(v.lv.root, v.lv.rt, v.lv.path[:-1]).rd()
            self.oblige('%s is Some || %s is Null' % (v.e, h), 'what is deleted is an object of its class, or null')
        return V('()', VOID)

    # calls -------------------------------------------------------------
    def x_CallExpr(self, n):
        c = strip(inner(n)[0])
        args = [a for a in inner(n)[1:] if a['kind'] != 'CXXDefaultArgExpr']
        if c['kind'] == 'DeclRefExpr':
            rd = c['referencedDecl']
            nm = rd['name']
            lib = getattr(self, 'lib_' + nm, None)
            f = None
            if rd['kind'] == 'CXXMethodDecl':
                f = self.static_callee(rd, n)
                if f is None and (n.get('type') is not None) and lib is None:
                    raise Unsupported('call of static %s' % nm)
            elif rd['kind'] == 'FunctionDecl':
                f = self.ex.pick(None, nm, [self.p.T(a['type']) for a in args], quiet=True)
                if f is None and lib is None:
                    f = self.lazy(nm, args)
            if f is not None and (lib is None or f.key in self.ex.cons):
                return self.call(f, None, args)
            if lib is not None:
                return lib(args, n)
            raise Unsupported('call of %s' % nm)
        raise Unsupported('indirect call')

    def curcls(self):
        for fr in reversed(self.inline_stack):
            return self.p.funcs[fr['key']].cls
        return self.f.cls

    def curfile(self):
        for fr in reversed(self.inline_stack):
            return self.p.funcs[fr['key']].file
        return self.f.file

    def lazy(self, nm, args):
        """A free helper the extraction has not seen: load it from the caller's file."""
        try:
            self.p.load([(self.curfile(), nm)])
        except Unsupported:
            return None
        return self.ex.pick(None, nm, [self.p.T(a['type']) for a in args], quiet=True)

    def static_callee(self, rd, n):
        args = [self.p.T(a['type']) for a in inner(n)[1:] if a['kind'] != 'CXXDefaultArgExpr']
        sig = rd['type']['qualType']
        # the class the source text names, or the class we are in
        q = self.p.qualifier(strip(inner(n)[0]), self.curfile(), rd['name'])
        if q is not None:
            q = q or (self.curcls() or '')
            g = self.ex.pick(q, rd['name'], args, quiet=True, sig=sig)
            if g is not None:
                return g
        best = None
        for (cl, nm), fs in self.p.byname.items():
            if nm != rd['name'] or not cl:
                continue
            for f in fs:
                if not f.static:
                    continue
                if self.same_sig(f, sig) and len(f.params) == len(args):
                    if best is not None and best is not f:
                        # ambiguous across classes: use this's class
                        if self.this is not None and self.this.type().name == cl:
                            best = f
                        continue
                    best = f
        return best

    def same_sig(self, f, sig):
        m1 = re.match(r'^(.*?)\((.*)\)', sig)
        m2 = re.match(r'^(.*?)\((.*)\)', f.node['type']['qualType'])
        if not m1 or not m2:
            return False
        from cxxast import split_targs
        t1 = [self.p.T(x).key() for x in split_targs(m1.group(2)) if x != 'void']
        t2 = [self.p.T(x).key() for x in split_targs(m2.group(2)) if x != 'void']
        if t1 != t2:
            return False
        return True

    def x_CXXMemberCallExpr(self, n):
        me = strip(inner(n)[0])
        args = [a for a in inner(n)[1:] if a['kind'] != 'CXXDefaultArgExpr']
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + me['kind'])
        obj = inner(me)
        if not obj:
            raise Unsupported('member call without object')
        b = self.ex_(obj[0])
        if me.get('isArrow'):
            if b.t.k == 'ptr' and b.bind is not None and strip(obj[0])['kind'] == 'CXXThisExpr':
                b = V(self.this.rd(), self.this.type(), self.this)
            else:
                b = self.deref(b)
        nm = me['name']
        if b.t.k == 'cls':
            f = self.ex.pick(b.t.name, nm, [self.p.T(a['type']) for a in args], quiet=False)
            return self.call(f, b, args, isarrow=me.get('isArrow'))
        if b.t.k == 'submatch' and (nm == 'str' or nm.startswith('operator ')):
            return self.submatch_str(b)
        if b.t.k == 'exn' and nm == 'what':
            return V(b.e, CT('ptr', [CT('int', bits=8, const=True)]))
        h = getattr(self, 'm_' + b.t.k, None)
        if h is None:
            raise Unsupported('method %s of %r' % (nm, b.t))
        if b.ent is not None:
            b = self.plain(b)
        return h(b, nm, args, n)

    def x_CXXOperatorCallExpr(self, n, void=False):
        ch = inner(n)
        nm = strip(ch[0]).get('referencedDecl', {}).get('name', '')
        op = nm[len('operator'):]
        args = ch[1:]
        if op == '*' and len(args) == 1:
            v = self.ex_(args[0])
            if v.t.k == 'cls':
                return self.opcall(op, args, n)
            return self.deref(v)
        if op == '->' and len(args) == 1:
            v = self.ex_(args[0])
            if v.t.k == 'iter':
                d = self.deref(v)
                return V('&', CT('ptr', [d.t]), None, bind=d.lv) if d.lv is not None else V(d.e, CT('ptrval', [d.t]), None, ent=d.ent)
            raise Unsupported('operator->')
        if op in ('++', '--'):
            v = self.ex_(args[0])
            if v.t.k == 'cls':
                return self.opcall(op, args, n)
            return self.incdec(v, op, len(args) == 2, void)
        if op == '=':
            t0 = self.p.T(args[0]['type'])
            vb = self.ex_(args[1], want=t0)
            va = self.ex_(args[0])
            if va.t.k == 'str' and vb.t.k == 'submatch':
                vb = self.submatch_str(vb)
            if va.t.k == 'set' and vb.t.k == 'vec':
                vb = V('%s.to_set()' % vb.e, va.t)
            return self.assign_v(va, vb)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            va, vb = self.pair_eval(args[0], args[1])
            if va.t.k == 'cls':
                return self.opcall(op, args, n)
            if va.t.k == 'str' or vb.t.k == 'str':
                va, vb = self.conv(va, STR), self.conv(vb, STR)
                if op in ('==', '!='):
                    return V('(%s %s %s)' % (va.e, op, vb.e), BOOL)
                f = {'<': 'str_lt(%s, %s)' % (va.e, vb.e), '>': 'str_lt(%s, %s)' % (vb.e, va.e),
                     '<=': '!str_lt(%s, %s)' % (vb.e, va.e), '>=': '!str_lt(%s, %s)' % (va.e, vb.e)}[op]
                return V(f, BOOL)
            if va.t.k == 'iter' and vb.t.k == 'iter':
                if va.bind is not None and vb.bind is not None and va.bind.rd() != vb.bind.rd():
                    if va.bind.type().k != vb.bind.type().k:
                        raise Unsupported('comparison of iterators of different containers')
                    self.oblige('%s == %s' % (va.bind.rd(), vb.bind.rd()), 'compared iterators belong to the same container')
                return V('(%s %s %s)' % (va.e, op, vb.e), BOOL)
            if va.t.k in ('vec', 'set', 'map') and op in ('==', '!='):
                return V('(%s %s %s)' % (va.e, op, vb.e), BOOL)
            raise Unsupported('operator%s on %r' % (op, va.t))
        if op == '[]':
            va, vb = self.pair_eval(args[0], args[1])
            return self.index(va, vb)
        if op in ('+', '+='):
            va, vb = self.pair_eval(args[0], args[1])
            if va.t.k == 'iter':
                if op == '+=':
                    self.assign(va.lv, '%s + %s' % (va.e, vb.e))
                    return self.rdv(va)
                return V('(%s + %s)' % (va.e, vb.e), va.t, None, va.bind)
            if va.t.k == 'cls':
                return self.opcall(op, args, n)
            a, b = self.tostr(va), self.tostr(vb)
            if op == '+':
                return V('(%s + %s)' % (a, b), STR)
            self.assign(va.lv, '%s + %s' % (va.e, b))
            return self.rdv(va)
        if op == '-':
            va, vb = self.pair_eval(args[0], args[1])
            if va.t.k == 'iter':
                return V('(%s - %s)' % (va.e, vb.e), INT if vb.t.k == 'iter' else va.t, None, va.bind)
        if op == '>>':
            va, vb = self.pair_eval(args[0], args[1])
            if va.t.k == 'archive':
                return self.archive_op(op, va, vb)
            if va.t.k == 'stream' and vb.t.k == 'str':
                return self.stream_read(va, 'word_read(%s, %s)' % (va.e, vb.e), vb)
        if op == '!':
            v = self.ex_(args[0])
            return V('!(%s)' % self.boolean(v), BOOL)
        if op == '<<':
            va = self.ex_(args[0])
            if va.t.k == 'stream':
                return self.stream_write(va, args[1])
            if va.t.k == 'archive':
                return self.archive_op(op, va, self.ex_(args[1]))
            raise Unsupported('operator<< on %r' % va.t)
        return self.opcall(op, args, n)

    def opcall(self, op, args, n):
        va = self.ex_(args[0])
        if va.t.k == 'cls':
            f = self.ex.pick(va.t.name, 'operator' + op, [self.p.T(a['type']) for a in args[1:]], quiet=True)
            if f is not None:
                return self.call(f, va, args[1:])
        if op == '|=' and '_match_flags' in repr(va.t) and va.lv is not None:
            vb = self.ex_(args[1])
            self.assign(va.lv, 'flag_or(%s, %s)' % (va.e, vb.e))
            return self.rdv(va)
        raise Unsupported('operator%s on %r' % (op, va.t))

    def stream_write(self, va, arg):
        if va.lv is None:
            raise Unsupported('output to a temporary stream')
        v = self.ex_(arg)
        if v.t.k == 'cls':
            f = self.ex.pick(None, 'operator<<', [CT('stream'), v.t], quiet=True)
            if f is None or f.params[1][1].strip().key() != v.t.strip().key():
                raise Unsupported('operator<< for ' + v.t.name)
            self.call_values(f, [va, v])
            return self.rdv(va)
        if v.t.k == 'int' and v.t.bits != 8:
            e = 'int_to_str(%s)' % v.e
        elif v.t.k == 'bool':
            e = 'if %s { seq![49int] } else { seq![48int] }' % v.e
        elif v.t.k in ('str', 'int') or v.t.k == 'ptr':
            e = self.tostr(v)
        elif v.t.k == 'float':
            e = 'float_to_str(%s)' % v.e
        else:
            raise Unsupported('output of %r' % v.t)
        self.assign(va.lv, 'Stream { rest: %s.rest + (%s), ..%s }' % (va.e, e, va.e))
        return self.rdv(va)

    def call_values(self, f, vals):
        """Call of a function under contract with evaluated arguments."""
        if f.key not in self.ex.cons:
            raise Unsupported('call of %s, which has no contract' % f.key)
        sub = FnTr(self.ex, f, self.ex.cons[f.key])
        sub.sig()
        if sub.canthrow or sub.retT.k != 'void' or len(sub.ps) != len(vals):
            raise Unsupported('call of ' + f.key)
        self.calls.add(f.key)
        r = self.fresh('r')
        self.emit('let %s = %s(%s);' % (r, fname(f.key), ', '.join('Ghost(%s)' % self.conv(v, t).e for v, (_, t) in zip(vals, sub.ps))), ob='precondition of %s' % f.key)
        names = [nm for nm, _ in sub.ps]
        for j, (nm, _) in enumerate(sub.outs):
            lv = vals[names.index(nm)].lv
            if lv is None:
                raise Unsupported('call of ' + f.key)
            self.assign(lv, r + '@' if len(sub.outs) == 1 else '%s@.%d' % (r, j))

    def tostr(self, v):
        if v.t.k == 'int' and v.t.bits == 8:
            return 'seq![%s]' % v.e
        if v.t.k == 'submatch':
            return self.submatch_str(v).e
        return self.conv(v, STR).e

    def submatch_str(self, v):
        if v.bind is None:
            raise Unsupported('sub-match')
        return V('submatch_text(%s, %s)' % (v.bind.rd(), v.e), STR)

    def index(self, va, vb):
        if va.t.k in ('vec', 'arr'):
            if va.lv is None:
                self.oblige('0 <= %s < %s.len()' % (vb.e, va.e), 'index is within the vector')
                return V('%s[%s]' % (va.e, vb.e), elem(va.t))
            self.oblige('0 <= %s < %s.len()' % (vb.e, va.e), 'index is within the vector')
            lv = va.lv.ext('i', vb.e, elem(va.t))
            return V(lv.rd(), elem(va.t), lv)
        if va.t.k == 'str':
            # s[s.size()] is the terminating zero
            self.oblige('0 <= %s <= %s.len()' % (vb.e, va.e), 'index is within the string')
            if va.lv is not None:
                lv = va.lv.ext('i', vb.e, CHAR)
                return V('str_at(%s, %s)' % (va.e, vb.e), CHAR, lv)
            return V('str_at(%s, %s)' % (va.e, vb.e), CHAR)
        if va.t.k == 'map':
            k = self.conv(vb, va.t.a[0]).e
            if va.lv is None:
                raise Unsupported('operator[] of a temporary map')
            d = default(va.t.a[1]) or ('0int' if va.t.a[1].k in ('int', 'enum') else None)
            if d is None and va.t.a[1].k == 'ptr' and rt(va.t.a[1]).startswith('Option'):
                d = 'None'
            if d is None:
                raise Unsupported('default map value')
            kx = self.let(k, va.t.a[0], 'key')
            # operator[] inserts a default element when the key is absent
            self.sink.assigned.add(va.lv.root)
            self.proof('if !%s.dom().contains(%s) { %s = %s; }' % (va.e, kx, va.lv.root, va.lv.wr('%s.insert(%s, %s)' % (va.e, kx, d))))
            lv = va.lv.ext('m', kx, va.t.a[1])
            return V(lv.rd(), va.t.a[1], lv)
        if va.t.k == 'smatch':
            return V('%s.groups[%s]' % (va.e, vb.e), CT('submatch'), None, bind=va.bind)
        raise Unsupported('index of %r' % va.t)

    def call_vals(self, f, vals):
        nodes = [{'kind': 'TranslatedExpr', 'val': v, 'type': {'qualType': ''}} for v in vals]
        return self.call(f, None, nodes)

    def x_TranslatedExpr(self, n):
        return n['val']

    def call(self, f, obj, args, isarrow=False):
        if len(args) < len(f.params):
            more = [default_arg(f, i) for i in range(len(args), len(f.params))]
            if None in more:
                raise Unsupported('default arguments of ' + f.key)
            args = list(args) + more
        if f.key in self.ex.cons:
            return self.call_contract(f, obj, args)
        return self.call_inline(f, obj, args)

    def call_contract(self, f, obj, args):
        sub = FnTr(self.ex, f, self.ex.cons[f.key])
        sub.sig()
        self.calls.add(f.key)
        vals = []
        outlv = {}
        i = 0
        if len(sub.ps) > len(f.params):
            if obj is None:
                if self.this is not None and self.this.type().name == f.cls:
                    obj = V(self.this.rd(), self.this.type(), self.this)
                else:
                    raise Unsupported('static state of ' + f.cls)
            if obj.t.k == 'cls' and obj.t.name != f.cls:
                raise Unsupported('call through a base class')
            vals.append(obj.e)
            outlv[sub.ps[0][0]] = obj.lv
            i = 1
        evs = []
        for a, (_, pt, _), (nm, t) in zip(args, f.params, sub.ps[i:]):
            v, sk = self.sub(lambda: self.ex_(a, want=t))
            if sk.effects:
                for j, e in enumerate(vals):
                    if not re.fullmatch(r'[\w()]*', e) or True:
                        vals[j] = self.let_any(e)
            self.splice(sk)
            if nm in [o[0] for o in sub.outs] and pt.k == 'ptr':
                if v.bind is None:
                    raise Unsupported('pointer argument')
                vals.append(v.bind.rd())
                outlv[nm] = v.bind
            else:
                vals.append(self.conv(v, t).e)
                outlv[nm] = v.lv
        if len(args) != len(f.params):
            raise Unsupported('default arguments of ' + f.key)
        r = self.fresh('r')
        self.at_call(f.name)
        self.emit('let %s = %s(%s);' % (r, fname(f.key), ', '.join('Ghost(%s)' % e for e in vals)), ob='precondition of %s' % f.key)
        pay = r + '@'
        if sub.canthrow:
            # propagate the exception
            # what it could change is unknown afterwards
            self.propagate(r + '@', [outlv[nm] for nm, t in sub.outs if outlv.get(nm) is not None])
            pay = '%s@->val' % r
        nret = 0 if (sub.retT.k == 'void') else 1
        tot = nret + len(sub.outs) + (1 if sub.faults else 0)
        if sub.faults and self.faults:
            self.assign(LV(self.faultv, BOOL), '%s || %s.%d' % (self.faultv, pay, tot - 1) if tot > 1 else '%s || %s' % (self.faultv, pay))
        elif sub.faults:
            raise Unsupported('call of a function with faults')
        for j, (nm, t) in enumerate(sub.outs):
            if outlv.get(nm) is None:
                if f.cls and sub.ps and nm == sub.ps[0][0] and len(sub.ps) > len(f.params):
                    continue          # method on a temporary
                raise Unsupported('non-const reference argument of ' + f.key)
            e = pay if tot == 1 else '%s.%d' % (pay, nret + j)
            self.assign(outlv[nm], e)
        if not nret:
            return V('()', VOID)
        e = pay if tot == 1 else pay + '.0'
        if sub.retT.k == 'striter':
            x = self.letmut(e, sub.retT, 'it')
            return self.stored(LV(x, sub.retT))
        return V(e, sub.retT.strip())

    def propagate(self, r, lost=()):
        self.emit('if truth(Ghost(%s is Threw)) {' % r)
        fr = self.trystack[-1] if self.trystack else None
        if fr is not None and fr['flag'] is not None:
            for lv in lost:
                self.assign(lv, 'arbitrary()')
            self.do_throw('%s->msg' % r, '%s->kind' % r)
            self.emit('} else {')
            fr['opens'] += 1
        else:
            self.do_throw('%s->msg' % r, '%s->kind' % r)
            self.emit('}')

    def let_any(self, e):
        nm = self.fresh('t')
        self.emit('let ghost %s = %s;' % (nm, e), effect=False)
        return nm

    def call_inline(self, f, obj, args):
        if len(self.inline_stack) > 12 or any(fr['key'] == f.key for fr in self.inline_stack) or f.key == self.f.key:
            raise Unsupported('recursion through %s, which has no contract' % f.key)
        if len(args) != len(f.params):
            raise Unsupported('default arguments of ' + f.key)
        self.ex.inlined.setdefault(self.f.key, set()).add(f.key)
        env = {}
        for a, (cn, pt, pid) in zip(args, f.params):
            v = self.ex_(a, want=pt.strip())
            if pt.ref and (v.lv is not None or v.ent is not None):
                env[pid] = self.pin(v, soft=True)
            elif v.t.k == 'iter':
                x = self.letmut(v.e, INT, 'a_' + sani(cn))
                env[pid] = V(x, v.t, LV(x, v.t), bind=v.bind)
            elif pt.k == 'ptr' and v.bind is not None:
                env[pid] = v
            else:
                t = pt.strip() if pt.k != 'other' else v.t
                x = self.letmut(self.conv(v, t).e, t, 'a_' + sani(cn))
                env[pid] = V(x, t, LV(x, t))
        this = None
        saved_this = self.this
        if f.ctor:
            t = CT('cls', name=f.cls)
            nm = self.letmut(self.ctor_init_value(f.cls), t, 'obj')
            this = LV(nm, t)
        elif f.cls and not f.static:
            if obj is None:
                this = self.this
            elif obj.lv is not None:
                this = self.pin(obj, soft=True).lv
            else:
                nm = self.letmut(obj.e, obj.t, 'obj')
                this = LV(nm, obj.t)
        body = inner(f.body) if f.body['kind'] == 'CompoundStmt' else None
        if body is None:
            raise Unsupported('inlined function with try body')
        saved_env, saved_names = self.env, list(self.names)
        rtype = CT('cls', name=f.cls) if f.ctor else f.ret
        frame = {'key': f.key, 'k': True, 'ret': None, 'rt': rtype.strip(), 'this': self.this}
        self.env = dict(saved_env)
        self.env.update(env)
        self.inline_stack.append(frame)
        self.this = this
        try:
            if f.ctor:
                self.ctor_inits(f, this)
                self.stmts(body)
                return V(this.rd(), rtype, None)
            nonnull = [s for s in body if s['kind'] != 'NullStmt']
            if len(nonnull) == 1 and nonnull[0]['kind'] == 'ReturnStmt':
                v = self.ex_(inner(nonnull[0])[0], want=rtype.strip()) if inner(nonnull[0]) else V('()', VOID)
                if v.t.k == 'iter' or rtype.ref or v.ent is not None:
                    return v
                if rtype.k == 'other':
                    return V(v.e, v.t, None, v.bind)
                c = self.conv(v, rtype.strip())
                return V(c.e, rtype.strip() if rtype.k != 'ptr' else c.t, None, v.bind if rtype.k == 'ptr' else None, npos=v.npos)
            if rtype.k != 'void':
                if rtype.ref:
                    # return *this and the like
                    last = nonnull[-1]
                    if last['kind'] == 'ReturnStmt' and not any(has_return(s) for s in nonnull[:-1]):
                        mark = len(self.names)
                        for s in nonnull[:-1]:
                            self.stmt(s)
                        return self.ex_(inner(last)[0])
                    raise Unsupported('reference-returning inlined function')
                nm = self.letmut('arbitrary()', rtype.strip(), 'iret')
                frame['ret'] = LV(nm, rtype.strip())
            # a single return at the end keeps iterators and lvalues precise
            self.stmts(body)
            if frame['ret'] is not None:
                return V(frame['ret'].rd(), rtype.strip(), frame['ret'])
            return V('()', VOID)
        finally:
            self.inline_stack.pop()
            self.this = saved_this
            self.env = saved_env
            self.names = saved_names

    # library: methods ---------------------------------------------------
    def argv(self, args, ts=()):
        out = []
        for i, a in enumerate(args):
            v = self.ex_(a, want=ts[i] if i < len(ts) else None)
            out.append(v)
        return out

    def m_vec(self, b, nm, args, n):
        el = elem(b.t)
        if nm in ('size', 'length'):
            return V(self.size(b), U64)
        if nm == 'empty':
            return V('(%s.len() == 0)' % b.e, BOOL)
        if nm in ('begin', 'cbegin'):
            return V('0int', CT('iter', [b.t]), None, self.need_lv(b))
        if nm in ('end', 'cend'):
            lv = self.need_lv(b)
            return V('(%s.len() as int)' % lv.rd(), CT('iter', [b.t]), None, lv)
        if nm in ('push_back', 'emplace_back'):
            v, = self.argv(args, [el])
            if nm == 'emplace_back' and v.t.k != el.k:
                raise Unsupported('emplace_back')
            self.assign(b.lv, '%s.push(%s)' % (b.lv.rd(), self.conv(v, el).e))
            return V('()', VOID)
        if nm == 'clear':
            self.assign(b.lv, default(b.t))
            return V('()', VOID)
        if nm in ('reserve', 'shrink_to_fit'):
            self.argv(args)
            return V('()', VOID)
        if nm in ('front', 'back'):
            self.oblige('%s.len() > 0' % b.e, '%s() of a non-empty container' % nm)
            ix = '0int' if nm == 'front' else '(%s.len() - 1)' % b.e
            if b.lv is None:
                return V('%s[%s]' % (b.e, ix), el)
            lv = b.lv.ext('i', ix, el)
            return V(lv.rd(), el, lv)
        if nm == 'pop_back':
            self.oblige('%s.len() > 0' % b.e, 'pop_back() of a non-empty container')
            self.assign(b.lv, '%s.drop_last()' % b.e)
            return V('()', VOID)
        if nm == 'at':
            v, = self.argv(args)
            return self.index(b, v)
        if nm == 'erase':
            vs = self.argv(args)
            if len(vs) == 1:
                self.oblige('0 <= %s < %s.len()' % (vs[0].e, b.e), 'erased position is within the container')
                x = self.let(vs[0].e, INT)
                self.assign(b.lv, '%s.remove(%s)' % (b.e, x))
                return V(x, CT('iter', [b.t]), None, b.lv)
            raise Unsupported('range erase')
        if nm == 'insert':
            vs = self.argv(args)
            if len(vs) == 3 and vs[1].t.k == 'iter' and vs[1].bind is not None:
                src = self.items(vs[1].bind)
                self.oblige('0 <= %s <= %s <= %s.len() && 0 <= %s <= %s.len()' % (vs[1].e, vs[2].e, src, vs[0].e, b.e), 'inserted range is valid')
                self.assign(b.lv, 'seq_insert(%s, %s, %s.subrange(%s, %s))' % (b.e, vs[0].e, src, vs[1].e, vs[2].e))
                return V(vs[0].e, CT('iter', [b.t]), None, b.lv)
            if len(vs) == 2 and vs[0].t.k == 'iter':
                self.oblige('0 <= %s <= %s.len()' % (vs[0].e, b.e), 'insert position is valid')
                self.assign(b.lv, '%s.insert(%s, %s)' % (b.e, vs[0].e, self.conv(vs[1], el).e))
                return V(vs[0].e, CT('iter', [b.t]), None, b.lv)
            raise Unsupported('vector insert')
        if nm == 'resize':
            v = self.argv(args)
            if len(v) == 1 and el.k in ('str', 'vec', 'set'):
                self.assign(b.lv, 'seq_resize(%s, %s, %s)' % (b.e, v[0].e, default(el)))
                return V('()', VOID)
        if nm == 'swap':
            v, = self.argv(args)
            x = self.let(b.e, b.t)
            self.assign(b.lv, v.e)
            self.assign(v.lv, x)
            return V('()', VOID)
        raise Unsupported('vector::' + nm)

    m_arr = m_vec

    def need_lv(self, b):
        if b.lv is not None:
            return b.lv
        x = self.letmut(b.e, b.t, 'tmp')
        return LV(x, b.t)

    def m_set(self, b, nm, args, n):
        el = b.t.a[0]
        it = CT('iter', [b.t])
        if nm == 'size':
            return V('(%s.len() as int)' % b.e, U64)
        if nm == 'empty':
            return V('(%s.len() == 0)' % b.e, BOOL)
        if nm in ('begin', 'cbegin'):
            return V('0int', it, None, self.need_lv(b))
        if nm in ('end', 'cend'):
            lv = self.need_lv(b)
            return V('(%s.len() as int)' % self.items(lv), it, None, lv)
        if nm == 'clear':
            self.assign(b.lv, default(b.t))
            return V('()', VOID)
        if nm == 'find':
            v, = self.argv(args)
            lv = self.need_lv(b)
            return V('%s(%s, %s)' % ('set_pos' if rt(el) == 'int' else 'strset_pos', lv.rd(), self.conv(v, el).e), it, None, lv)
        if nm == 'count':
            v, = self.argv(args)
            return V('(if %s.contains(%s) { 1int } else { 0int })' % (b.e, self.conv(v, el).e), U64)
        if nm in ('insert', 'emplace'):
            vs = self.argv(args)
            if len(vs) == 1 and vs[0].t.k != 'iter':
                self.assign(b.lv, '%s.insert(%s)' % (b.e, self.conv(vs[0], el).e))
                return V('arbitrary()', CT('other', name='insert-result'))
            if len(vs) == 2 and vs[0].t.k == 'iter' and vs[0].bind is not None and vs[0].e == '0int' and vs[1].e.endswith('.len() as int)'):
                src = vs[0].bind
                s = src.rd() if src.type().k == 'set' else '%s.to_set()' % src.rd()
                self.assign(b.lv, '%s.union(%s)' % (b.e, s))
                return V('()', VOID)
            raise Unsupported('set insert')
        if nm == 'erase':
            v, = self.argv(args)
            if v.t.k == 'iter':
                its = self.items(b.lv)
                self.oblige('0 <= %s < %s.len()' % (v.e, its), 'erased position is within the container')
                self.assign(b.lv, '%s.remove(%s[%s])' % (b.e, its, v.e))
            else:
                self.assign(b.lv, '%s.remove(%s)' % (b.e, self.conv(v, el).e))
            return V('arbitrary()', CT('other', name='erase-result'))
        raise Unsupported('set::' + nm)

    def m_map(self, b, nm, args, n):
        it = CT('iter', [b.t])
        kt, vt = b.t.a
        if nm == 'size':
            return V(self.size(b), U64)
        if nm == 'empty':
            return V('(map_keys(%s).len() == 0)' % b.e, BOOL)
        if nm in ('begin', 'cbegin'):
            return V('0int', it, None, self.need_lv(b))
        if nm in ('end', 'cend'):
            lv = self.need_lv(b)
            return V('(map_keys(%s).len() as int)' % lv.rd(), it, None, lv)
        if nm == 'clear':
            self.assign(b.lv, default(b.t))
            return V('()', VOID)
        if nm == 'find':
            v, = self.argv(args)
            lv = self.need_lv(b)
            return V('map_pos(%s, %s)' % (lv.rd(), self.conv(v, kt).e), it, None, lv)
        if nm == 'count':
            v, = self.argv(args)
            return V('(if %s.dom().contains(%s) { 1int } else { 0int })' % (b.e, self.conv(v, kt).e), U64)
        if nm == 'at':
            v, = self.argv(args)
            k = self.conv(v, kt).e
            self.oblige('%s.dom().contains(%s)' % (b.e, k), 'map::at key is present')
            lv = b.lv.ext('m', k, vt)
            return V(lv.rd(), vt, lv)
        if nm == 'erase':
            v, = self.argv(args)
            if v.t.k == 'iter':
                its = self.items(b.lv)
                self.oblige('0 <= %s < %s.len()' % (v.e, its), 'erased position is within the container')
                self.assign(b.lv, '%s.remove(%s[%s])' % (b.e, its, v.e))
            else:
                self.assign(b.lv, '%s.remove(%s)' % (b.e, self.conv(v, kt).e))
            return V('arbitrary()', CT('other', name='erase-result'))
        raise Unsupported('map::' + nm)

    def m_str(self, b, nm, args, n):
        if nm in ('size', 'length'):
            return V('(%s.len() as int)' % b.e, U64)
        if nm == 'empty':
            return V('(%s.len() == 0)' % b.e, BOOL)
        if nm == 'c_str' or nm == 'data':
            return V(b.e, CT('ptr', [CT('int', bits=8, const=True)]))
        if nm == 'clear':
            self.assign(b.lv, default(b.t))
            return V('()', VOID)
        if nm in ('begin', 'cbegin'):
            return V('0int', CT('iter', [b.t]), None, self.need_lv(b))
        if nm in ('end', 'cend'):
            lv = self.need_lv(b)
            return V('(%s.len() as int)' % lv.rd(), CT('iter', [b.t]), None, lv)
        if nm == 'push_back':
            v, = self.argv(args)
            self.assign(b.lv, '%s.push(%s)' % (b.e, v.e))
            return V('()', VOID)
        if nm == 'pop_back':
            self.oblige('%s.len() > 0' % b.e, 'pop_back() of a non-empty string')
            self.assign(b.lv, '%s.drop_last()' % b.e)
            return V('()', VOID)
        if nm in ('back', 'front'):
            self.oblige('%s.len() > 0' % b.e, '%s() of a non-empty string' % nm)
            return V('%s[%s]' % (b.e, '0' if nm == 'front' else b.e + '.len() - 1'), CHAR)
        if nm == 'substr':
            vs = self.argv(args)
            if not vs:
                return V(b.e, STR)
            self.oblige('0 <= %s <= %s.len()' % (vs[0].e, b.e), 'substr start is within the string')
            if len(vs) == 1:
                return V('%s.subrange(%s, %s.len() as int)' % (b.e, vs[0].e, b.e), STR)
            return V('str_sub(%s, %s, %s)' % (b.e, vs[0].e, vs[1].e), STR)
        if nm == 'append':
            v = self.argv(args)
            if len(v) == 1:
                self.assign(b.lv, '%s + %s' % (b.e, self.tostr(v[0])))
                return self.rdv(b)
            raise Unsupported('append')
        if nm == 'assign':
            v = self.argv(args)
            if len(v) == 1:
                self.assign(b.lv, self.tostr(v[0]))
                return self.rdv(b)
            raise Unsupported('assign')
        if nm == 'resize':
            v, = self.argv(args)
            self.oblige('0 <= %s' % v.e, 'resize to a non-negative size')
            self.assign(b.lv, 'str_resize(%s, %s)' % (b.e, v.e))
            return V('()', VOID)
        if nm == 'reserve':
            self.argv(args)
            return V('()', VOID)
        if nm in ('find', 'find_first_of'):
            vs = self.argv(args)
            if len(vs) == 1 or (len(vs) == 2 and lit_nonneg(vs[1].e) and vs[1].e.startswith('0')):
                x = vs[0]
                fn = 'str_find' if nm == 'find' else 'str_find_first_of'
                e = 'seq![%s]' % x.e if x.t.k == 'int' else self.conv(x, STR).e
                return V('%s(%s, %s)' % (fn, b.e, e), U64, npos=True)
            if len(vs) == 2:
                x = vs[0]
                e = 'seq![%s]' % x.e if x.t.k == 'int' else self.conv(x, STR).e
                if nm == 'find':
                    return V('find_from(%s, %s, %s)' % (b.e, e, vs[1].e), U64, npos=True)
                return V('first_in(%s, %s, %s, true)' % (b.e, e, vs[1].e), U64, npos=True)
            raise Unsupported('find with position')
        if nm in ('find_first_not_of', 'find_last_not_of'):
            vs = self.argv(args)
            if len(vs) == 1:
                x = vs[0]
                e = 'seq![%s]' % x.e if x.t.k == 'int' else self.conv(x, STR).e
                return V('str_%s(%s, %s)' % (nm, b.e, e), U64, npos=True)
            raise Unsupported(nm)
        if nm == 'compare':
            vs = self.argv(args)
            if len(vs) == 3:
                return V('str_cmp(str_sub(%s, %s, %s), %s)' % (b.e, vs[0].e, vs[1].e, self.conv(vs[2], STR).e), INT)
            if len(vs) == 1:
                return V('str_cmp(%s, %s)' % (b.e, self.conv(vs[0], STR).e), INT)
        if nm == 'erase':
            vs = self.argv(args)
            if all(v.t.k == 'int' for v in vs) and 1 <= len(vs) <= 2:
                self.oblige('0 <= %s <= %s.len()' % (vs[0].e, b.e), 'erase position is within the string')
                if len(vs) == 1:
                    self.assign(b.lv, '%s.subrange(0, %s)' % (b.e, vs[0].e))
                else:
                    self.assign(b.lv, 'str_erase(%s, %s, %s)' % (b.e, vs[0].e, vs[1].e))
                return self.rdv(b)
        if nm == 'at':
            v, = self.argv(args)
            return self.index(b, v)
        raise Unsupported('string::' + nm)

    def m_stream(self, b, nm, args, n):
        if nm == 'eof':
            return V('%s.eof' % b.e, BOOL)
        if nm == 'fail':
            return V('%s.fail' % b.e, BOOL)
        if nm == 'good':
            return V('(!%s.fail && !%s.eof)' % (b.e, b.e), BOOL)
        if nm == 'operator bool':
            return V('!%s.fail' % b.e, BOOL)
        if nm == 'clear':
            if b.lv is None:
                raise Unsupported('stream clear')
            self.assign(b.lv, 'Stream { eof: false, fail: false, ..%s }' % b.e)
            return V('()', VOID)
        if nm == 'str':
            v = self.argv(args)
            if len(v) == 1:
                self.assign(b.lv, 'Stream { rest: %s, ..%s }' % (self.conv(v[0], STR).e, b.e))
                return V('()', VOID)
            if not v and b.t.name in ('ostringstream', 'basic_ostringstream'):
                return V('%s.rest' % b.e, STR)
        raise Unsupported('stream::' + nm)

    def stream_read(self, s, e, dst):
        """e: (Stream, Str) text; assigns both."""
        x = self.fresh('t')
        self.emit('let ghost %s = %s;' % (x, e), effect=False)
        if s.lv is None or dst.lv is None:
            raise Unsupported('stream extraction')
        self.assign(s.lv, x + '.0')
        self.assign(dst.lv, x + '.1')
        return self.rdv(s)

    def m_smatch(self, b, nm, args, n):
        if nm == 'size':
            return V('(%s.groups.len() as int)' % b.e, U64)
        raise Unsupported('smatch::' + nm)

    # library: functions -------------------------------------------------
    def lib_getline(self, args, n):
        vs = self.argv(args)
        delim = vs[2].e if len(vs) == 3 else '10int'
        if vs[0].t.k != 'stream':
            raise Unsupported('getline')
        return self.stream_read(vs[0], 'line_read(%s, %s, %s)' % (vs[0].e, vs[1].e, delim), vs[1])

    def lib_to_string(self, args, n):
        v, = self.argv(args)
        return V('int_to_str(%s)' % v.e, STR)

    def lib_move(self, args, n):
        return self.argv(args)[0]

    lib_forward = lib_move

    def lib_atof(self, args, n):
        v, = self.argv(args)
        return V('atof_val(%s)' % self.conv(v, STR).e, CT('float', bits=64))

    def lib_make_u32regex(self, args, n):
        vs = self.argv(args)
        ic = 'false'
        e = self.conv(vs[0], STR).e
        if len(vs) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr':
            if not self.mentions(args[1], 'icase'):
                raise Unsupported('flags of make_u32regex')
            ic = 'true'
        return V('re_make(%s, %s)' % (e, ic), CT('regex'))

    @staticmethod
    def mentions(n, name):
        if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('name') == name:
            return True
        return any(FnTr.mentions(c, name) for c in n.get('inner', []) if isinstance(c, dict))

    def flagged(self, vs, k, args):
        """The expression argument k, read with the match flags that may follow it."""
        r = vs[k].e
        if len(vs) > k + 1 and args[k + 1].get('kind') != 'CXXDefaultArgExpr':
            if vs[k + 1].e != '0':
                r = 're_with(%s, %s)' % (r, vs[k + 1].e)
        return r

    def lib_u32regex_match(self, args, n):
        vs = self.argv(args)
        # (str, re) | (str, what, re[, flags]) | (start, end, what, re, flags)
        if vs[0].t.k == 'str':
            if vs[1].t.k == 'regex':
                return V('re_match(%s, %s)' % (vs[1].e, vs[0].e), BOOL)
            if vs[1].t.k == 'smatch' and vs[2].t.k == 'regex':
                lv = self.need_lv(vs[0])
                rx = self.flagged(vs, 2, args)
                self.set_smatch(vs[1], 're_match_groups(%s, %s)' % (rx, vs[0].e), lv, 're_match(%s, %s)' % (rx, vs[0].e))
                return V('re_match(%s, %s)' % (rx, vs[0].e), BOOL)
        if vs[0].t.k == 'iter' and vs[2].t.k == 'smatch':
            c = vs[0].bind
            sub = '%s.subrange(%s, %s)' % (c.rd(), vs[0].e, vs[1].e)
            rx = self.flagged(vs, 3, args)
            cond = 're_match(%s, %s)' % (rx, sub)
            g = 'shift_groups(re_match_groups(%s, %s), %s)' % (rx, sub, vs[0].e)
            cx = self.let(cond, BOOL)
            self.set_smatch(vs[2], g, c, cx)
            return V(cx, BOOL)
        raise Unsupported('u32regex_match form')

    def set_smatch(self, v, groups, base, cond):
        for d, w in list(self.env.items()):
            if w.lv is not None and v.lv is not None and w.lv.root == v.lv.root:
                w.bind = base
        v.bind = base
        self.sink.assigned.add(v.lv.root)
        self.proof('if %s { %s = SMatch { groups: %s }; }' % (cond, v.lv.root, groups))

    def lib_u32regex_search(self, args, n):
        vs = self.argv(args)
        if vs[0].t.k == 'iter' and vs[2].t.k == 'smatch':
            c = vs[0].bind
            sub = '%s.subrange(%s, %s)' % (c.rd(), vs[0].e, vs[1].e)
            rx = self.flagged(vs, 3, args)
            cond = 're_search(%s, %s)' % (rx, sub)
            g = 'shift_groups(re_search_groups(%s, %s), %s)' % (rx, sub, vs[0].e)
            self.set_smatch(vs[2], g, c, cond)
            return V(cond, BOOL)
        raise Unsupported('u32regex_search form')

    def lib_u32regex_replace(self, args, n):
        vs = self.argv(args)
        return V('re_replace(%s, %s, %s)' % (vs[1].e, vs[0].e, self.conv(vs[2], STR).e), STR)

    def lib_split(self, args, n):
        vs = self.argv(args)
        if vs[0].t.k == 'vec' and vs[1].t.k == 'str' and len(vs) >= 3 and vs[2].t.k == 'isany':
            comp = len(vs) > 3 and vs[3].e == '0'
            self.assign(vs[0].lv, 'str_split(%s, %s, %s)' % (vs[1].e, vs[2].e, 'true' if comp else 'false'))
            return V('()', VOID)
        raise Unsupported('split')

    def lib_trim_if(self, args, n):
        vs = self.argv(args)
        if vs[1].t.k == 'isany':
            self.assign(vs[0].lv, 'str_trim(%s, %s)' % (vs[0].e, vs[1].e))
            return V('()', VOID)
        raise Unsupported('trim_if')

    def lib_join(self, args, n):
        vs = self.argv(args)
        if vs[0].t.k != 'vec' or vs[0].t.a[0].k != 'str':
            raise Unsupported('join')
        return V('str_join(%s, %s)' % (vs[0].e, self.conv(vs[1], STR).e), STR)

    def lib_is_any_of(self, args, n):
        v, = self.argv(args)
        return V(self.conv(v, STR).e, CT('isany'))

    def x_ArraySubscriptExpr(self, n):
        a, b = inner(n)
        va, vb = self.pair_eval(a, b)
        if va.t.k == 'ptr' and va.t.a[0].k == 'cls' and va.t.a[0].name in ARRAYS and va.lv is not None:
            self.oblige('%s is Some' % va.e, 'dereferenced pointer is not null')
            el = va.t.a[0]
            lv = va.lv.ext('d', CT('arr', [el]))
            self.oblige('0 <= %s < %s.len()' % (vb.e, lv.rd()), 'index is within the allocated block')
            lv = lv.ext('i', vb.e, el)
            return V(lv.rd(), el, lv)
        return self.index(va, vb)

    def lib_sort(self, args, n):
        vs = [self.ex_(a) for a in args[:2]]
        c = vs[0].bind
        if len(args) != 3 or c is None or vs[1].bind is None or c.rd() != vs[1].bind.rd() or c.type().k != 'vec':
            raise Unsupported('sort')
        self.oblige('%s == 0 && %s == %s.len()' % (vs[0].e, vs[1].e, c.rd()), 'the whole sequence is sorted')
        el = elem(c.type()).strip()
        f = strip(args[2])
        while f['kind'] in ('CXXConstructExpr', 'UnaryOperator') and inner(f):
            f = strip(inner(f)[0])
        if f['kind'] == 'DeclRefExpr':
            g = self.ex.pick(None, f['referencedDecl']['name'], [el, el], quiet=True) or self.lazy(f['referencedDecl']['name'], [{'type': {'qualType': el.name or ''}}] * 2)
            if g is None:
                raise Unsupported('comparison function of sort')
            pids, body = [p[2] for p in g.params], g.body
        elif f['kind'] == 'LambdaExpr':
            m = [x for r in inner(f) if r['kind'] == 'CXXRecordDecl' for x in inner(r) if x['kind'] == 'CXXMethodDecl' and x.get('name') == 'operator()']
            if not m:
                raise Unsupported('comparison function of sort')
            pids = [x['id'] for x in inner(m[0]) if x['kind'] == 'ParmVarDecl']
            body = [x for x in inner(m[0]) if x['kind'] == 'CompoundStmt'][0]
        else:
            raise Unsupported('comparison function of sort')
        sts = [x for x in inner(body) if x['kind'] != 'NullStmt']
        if len(sts) != 1 or sts[0]['kind'] != 'ReturnStmt' or len(pids) != 2:
            raise Unsupported('comparison function of sort')
        save = dict(self.env)
        self.env[pids[0]], self.env[pids[1]] = V('a_', el), V('b_', el)
        v, sk = self.sub(lambda: self.ex_(inner(sts[0])[0]))
        self.env = save
        if sk.lines:
            raise Unsupported('comparison function of sort')
        r = self.fresh('sorted')
        cmp = self.fresh('cmp')
        self.emit('let ghost %s = |a_: %s, b_: %s| %s;' % (cmp, rt(el), rt(el), self.boolean(v)), effect=False)
        self.at_call('sort', [('cmp', cmp)])
        self.emit('let %s = std_sort::<%s>(Ghost(%s), Ghost(%s));' % (r, rt(el), c.rd(), cmp), ob='the comparison of sort is a strict weak order')
        self.assign(c, r + '@')
        return V('()', VOID)

    lib_stable_sort = lib_sort


def out_pointer(t):
    return t.k == 'ptr' and not t.a[0].const and t.a[0].k in ('ptr', 'int') and not (t.a[0].k == 'int' and t.a[0].bits == 8)


def rt_param(t):
    return rt(t.a[0].strip()) if out_pointer(t) else rt(t)


def uses_statics(f, sf):
    names = {n for n, _ in sf}

    def go(n):
        r = n.get('referencedDecl') or {}
        if r.get('name') in names and r.get('kind') == 'VarDecl':
            return True
        return any(go(c) for c in inner(n))
    return bool(names) and f.body is not None and go(f.body)


def is_striter(t):
    return t.k == 'iter' and (t.a[0].k == 'str' or (t.a[0].k == 'other' and 'string' in t.a[0].name))


def rt_safe(t):
    try:
        return rt(t)
    except Unsupported:
        return '?'


def fld(n):
    return n + '_' if n in RUST_KW else n


OPS = {'++': '_inc', '--': '_dec', '==': '_eq', '!=': '_ne', '*': '_star', '=': '_assign', '<<': '_shl', '>>': '_shr',
       '<': '_lt', '>': '_gt', '[]': '_idx', '+': '_plus', '()': '_call'}


def fname(key):
    key = re.sub(r'operator([^\w\s(]+|\(\))', lambda m: 'operator' + OPS.get(m.group(1), '_op'), key)
    return 'f_' + sani(key)


def elem(t):
    if t.k in ('vec', 'arr'):
        return t.a[0].strip() if t.a[0].const else t.a[0]
    if t.k == 'str':
        return CHAR
    raise Unsupported('element of %r' % t)


def lit_nonneg(e):
    return bool(re.fullmatch(r'\d+(int)?', e))


def has_return(n):
    if n.get('kind') == 'ReturnStmt':
        return True
    if n.get('kind') == 'LambdaExpr':
        return False
    return any(has_return(c) for c in inner(n))


def is_terminator(n):
    if n.get('kind') == 'ReturnStmt':
        return True
    if n.get('kind') == 'CompoundStmt':
        ch = inner(n)
        return bool(ch) and is_terminator(ch[-1])
    if n.get('kind') == 'IfStmt' and n.get('hasElse'):
        raw = n['inner']
        return is_terminator(raw[-2]) and is_terminator(raw[-1])
    return False


def leaves(n):
    """Every path through the statement ends in return or throw."""
    k = n.get('kind')
    if k == 'ReturnStmt':
        return True
    if k == 'CompoundStmt':
        return any(leaves(c) for c in inner(n))
    if k == 'IfStmt' and n.get('hasElse'):
        return leaves(n['inner'][-2]) and leaves(n['inner'][-1])
    if k == 'CXXTryStmt':
        return all(leaves(c) for c in [inner(n)[0]] + [x for h in inner(n)[1:] for x in inner(h) if x['kind'] == 'CompoundStmt'])
    try:
        return strip(n)['kind'] == 'CXXThrowExpr'
    except (IndexError, KeyError):
        return False


def ends_break(n):
    ch = inner(n)
    if not ch:
        return False
    k = ch[-1]['kind']
    if k == 'CompoundStmt':
        return ends_break(ch[-1])
    return k in ('BreakStmt', 'ReturnStmt', 'ContinueStmt')


def debreak(n):
    if n['kind'] == 'CompoundStmt':
        ch = inner(n)
        if ch and ch[-1]['kind'] == 'BreakStmt':
            m = dict(n)
            m['inner'] = ch[:-1]
            return m
        if ch and ch[-1]['kind'] == 'CompoundStmt':
            m = dict(n)
            m['inner'] = ch[:-1] + [debreak(ch[-1])]
            return m
    return n


def jumps(n):
    if not isinstance(n, dict):
        return False
    if n.get('kind') in ('ReturnStmt', 'ContinueStmt', 'BreakStmt', 'CXXThrowExpr', 'GotoStmt'):
        return True
    return any(jumps(c) for c in n.get('inner', []))


def has_loose_break(n):
    k = n.get('kind')
    if k == 'BreakStmt':
        return True
    if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt', 'LambdaExpr'):
        return False
    return any(has_loose_break(c) for c in inner(n))


def is_log(e):
    """A statement that only writes to std::cerr, std::cout or std::clog."""
    if e['kind'] != 'CXXOperatorCallExpr':
        return False
    nm = strip(inner(e)[0]).get('referencedDecl', {}).get('name')
    if nm != 'operator<<':
        return False
    l = strip(inner(e)[1])
    if l['kind'] == 'DeclRefExpr':
        return l['referencedDecl'].get('name') in ('cerr', 'cout', 'clog')
    return is_log(l)


def linear_counters(lines, mod):
    """Variables whose only assignment in the loop body is one x = x + c at its top level."""
    count, step, depth = {}, {}, 0
    for s, _, _ in lines:
        m = re.match(r'^proof \{ (\w+) = (.*); \}$', s)
        if m:
            v = m.group(1)
            count[v] = count.get(v, 0) + 1
            mm = re.fullmatch(r'%s ([+-]) (\d+)(?:int)?' % re.escape(v), m.group(2)) or \
                re.fullmatch(r'\(%s ([+-]) (\d+)(?:int)?\)' % re.escape(v), m.group(2))
            if mm and depth == 0:
                step[v] = int(mm.group(1) + mm.group(2))
            else:
                step[v] = None
        elif re.match(r'^proof \{ if ', s):
            m = re.search(r'\{ (\w+) = ', s[9:])
            if m:
                step[m.group(1)] = None
                count[m.group(1)] = 9
        t = s
        if t.startswith('proof {'):
            continue
        depth += t.count('{') - t.count('}')
    return {v: c for v, c in step.items() if c and count.get(v) == 1 and v in mod}


def mentions(text, names):
    return any(re.search(r'\b%s\b' % re.escape(x), text) for x in names)
