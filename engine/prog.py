"""Loading of the resolved program: builds/uses the extractor, parses TUs, merges them."""
import hashlib, json, os, re, subprocess, sys, tempfile
from functools import lru_cache
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'xtract')


class AnalysisBroken(Exception):
    """the analysis could not be carried out (vanished anchor, parse failure): neither pass nor violation"""


def build_tool():
    src = os.path.join(VERIF, 'tool', 'xtract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    stamp = TOOL + '.stamp'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    inc = subprocess.run(['llvm-config', '--includedir'], capture_output=True, text=True).stdout.strip() or '/usr/lib/llvm-18/include'
    tmp = TOOL + '.%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-fno-rtti', '-O1', '-w', '-I' + inc, src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-L/usr/lib/x86_64-linux-gnu', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor: ' + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    open(stamp, 'w').write(h)


def clang_flags(std='gnu++20'):
    # what GCC, with which the library is built, only warns about is no error
    return ['-std=' + std, '-DNDEBUG', '-Wno-invalid-constexpr', '-I' + os.path.join(REPO, 'sdk/include'),
            '-I' + os.path.join(REPO, 'sdk/src'), '-w', '-fsyntax-only',
            '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']


def _state_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'sdk/include'), os.path.join(REPO, 'sdk/src'), os.path.join(VERIF, 'spec')):
        for d, dn, fs in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    h.update(open(os.path.join(VERIF, 'tool', 'xtract.cpp'), 'rb').read())
    return h.hexdigest()[:20]


def extract(src):
    """src: absolute path. returns parsed JSON (cached by the content of every source involved)."""
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    key = _state_hash() + '-' + re.sub(r'\W+', '_', src)
    out = os.path.join(cache, key + '.json')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        for std in ('gnu++20', 'gnu++2b'):      # the latter allows more in constexpr functions, as GCC does
            cmd = [TOOL, tmp, src, '--root', os.path.join(REPO, 'sdk'), '--root', os.path.join(VERIF, 'spec'),
                   '--excl', 'datetime/date.h', '--'] + clang_flags(std)
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
            if not r.returncode and os.path.exists(tmp):
                break
        else:
            raise AnalysisBroken('cannot analyse %s:\n%s' % (src, (r.stderr or r.stdout)[-3000:]))
        os.replace(tmp, out)
    return json.load(open(out))


_qn_cache = {}


def strip_targs(q):
    r = _qn_cache.get(q)
    if r is not None:
        return r
    out = []
    depth = 0
    i = 0
    s = q
    # keep operator<, operator<<, operator<=>, operator-> intact
    m = re.search(r'operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)', s)
    keep = (m.start(), m.end()) if m else None
    while i < len(s):
        if keep and i == keep[0] and depth == 0:
            out.append(s[keep[0]:keep[1]])
            i = keep[1]
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>' and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = ''.join(out)
    r = r.replace('__cxx11::', '').replace('chrono::_V2::', 'chrono::').replace('std::_V2::', 'std::').replace('__debug::', '')
    _qn_cache[q] = r
    return r


class Prog:
    def __init__(self):
        self.fns, self.refs, self.recs, self.globals = {}, {}, {}, {}
        self.tus = []

    def add(self, src, d):
        tu = len(self.tus)
        self.tus.append(src)
        for k, f in d['fns'].items():
            if f is None:
                continue
            if k not in self.fns:
                f['tu'] = tu
                f['fid'] = k
                f['sq'] = strip_targs(f['qn'])
                self.fns[k] = f
        for k, r in d['refs'].items():
            if k not in self.refs:
                r['sq'] = strip_targs(r['qn'])
                r['fid'] = k
                self.refs[k] = r
        for k, r in d['recs'].items():
            if k not in self.recs or (r.get('fields') is not None and self.recs[k].get('fields') is None):
                r['tu'] = tu
                self.recs[k] = r
            elif r.get('methods'):
                have = set(self.recs[k].get('methods') or [])
                self.recs[k].setdefault('methods', []).extend(m for m in r['methods'] if m not in have)
        for k, g in d['globals'].items():
            g['tu'] = tu
            self.globals[(tu, int(k))] = g

    def by_qn(self, qn, cls=None, pred=None):
        out = []
        for k, f in self.fns.items():
            if f['sq'] == qn and (pred is None or pred(f)):
                out.append(f)
        return out

    def ref(self, fid):
        return self.refs.get(fid)

    def overriders(self, fid):
        out = []
        for k, r in self.refs.items():
            seen, work = set(), list(r.get('overrides') or [])
            while work:
                o = work.pop()
                if o in seen:
                    continue
                seen.add(o)
                work.extend((self.refs.get(o) or {}).get('overrides') or [])
            if fid in seen:
                out.append(k)
        return out


def load(sources):
    """sources: paths relative to /repo/sdk/src ('x.cpp'), or spec files ('spec:x.cpp')"""
    build_tool()
    paths = []
    for s in sources:
        if s.startswith('spec:'):
            paths.append(os.path.join(VERIF, 'spec', s[5:]))
        else:
            paths.append(os.path.join(REPO, 'sdk/src', s))
    for p in paths:
        if not os.path.exists(p):
            raise AnalysisBroken('source %s is missing' % p)
    with ThreadPoolExecutor(8) as ex:
        ds = list(ex.map(extract, paths))
    P = Prog()
    for p, d in zip(paths, ds):
        P.add(p, d)
    return P


# ---------------- type helpers ----------------

_targ_cache = {}


@lru_cache(None)
def split_targs(t):
    """'std::pair<int, foo<a,b>>' -> ('std::pair', ['int','foo<a,b>'])"""
    r = _targ_cache.get(t)
    if r is not None:
        return r
    i = t.find('<')
    if i < 0 or not t.rstrip().endswith('>'):
        r = (t, [])
    else:
        name, body = t[:i], t.rstrip()[i + 1:-1]
        args, depth, cur = [], 0, ''
        for j, c in enumerate(body):
            if c in '<([{':
                depth += 1
            elif c in '>)]}' and not (c == '>' and j and body[j - 1] == '-'):
                depth -= 1
            if c == ',' and depth == 0:
                args.append(cur.strip())
                cur = ''
            else:
                cur += c
        if cur.strip():
            args.append(cur.strip())
        r = (name, args)
    _targ_cache[t] = r
    return r


@lru_cache(None)
def bare(t):
    """strip cv/ref"""
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:]
        if t.startswith('volatile '):
            t = t[9:]
        if t.endswith(' const') and not t.endswith('*const'):
            t = t[:-6]
        if t == o:
            return t


@lru_cache(None)
def is_ref(t):
    return t.rstrip().endswith('&')


INTS = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'wchar_t': (32, True), 'char8_t': (8, False), 'char16_t': (16, False), 'char32_t': (32, False)}
FLOATS = {'float', 'double', 'long double'}
