"""Loads the resolved program of /repo: builds the extractor if needed, runs it on every translation
unit of the current working tree and merges the results."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    pass


def tool_path():
    src = os.path.join(VERIF, 'tool', 'extract.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, '.cache'), os.path.join(tempfile.gettempdir(), 'verif-sa-cache')):
        p = os.path.join(d, 'extract-' + h)
        if os.access(p, os.X_OK):
            return p
    for d in (os.path.join(VERIF, '.cache'), os.path.join(tempfile.gettempdir(), 'verif-sa-cache')):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, 'tmp-%d' % os.getpid())
            open(t, 'w').close()
            os.unlink(t)
        except OSError:
            continue
        p = os.path.join(d, 'extract-' + h)
        tmp = p + '.%d' % os.getpid()
        cmd = ['g++', '-std=c++17', '-O0', '-fno-rtti', '-DNDEBUG', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
               '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
               LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise AnalysisBroken('extractor does not build: ' + r.stdout.decode()[-2000:])
        os.rename(tmp, p)
        return p
    raise AnalysisBroken('no writable cache directory')


def sources(repo=None):
    repo = repo or REPO
    res = []
    for pat in ('typelib/**/*.cc', 'lang/**/*.cc', 'bindings/ruby/ext/*.cc'):
        res += glob.glob(os.path.join(repo, pat), recursive=True)
    return sorted(set(os.path.realpath(x) for x in res))


def ruby_flags():
    res = []
    for d in sorted(glob.glob('/usr/include/ruby-*')):
        res = ['-I' + d] + ['-I' + x for x in glob.glob('/usr/include/*/' + os.path.basename(d))]
    return res


def all_repo_files(repo):
    res = []
    for pat in ('typelib', 'lang', 'bindings/ruby/ext'):
        for dp, dn, fn in os.walk(os.path.join(repo, pat)):
            for f in fn:
                if f.endswith(('.cc', '.hh', '.h', '.tcc', '.hpp', '.cpp', '.c')):
                    res.append(os.path.join(dp, f))
    return sorted(res)


class Functions(dict):
    """functions by key; lambdas are found by their key, but are listed as a part of the function they are written in"""

    def values(self):
        return [f for f in dict.values(self) if not islambda(f)]

    def items(self):
        return [(k, f) for k, f in dict.items(self) if not islambda(f)]

    def __iter__(self):
        return iter([k for k, f in self.items()])

    def keys(self):
        return list(self)

    def everything(self):
        return {k: f for k, f in dict.items(self)}


def islambda(f):
    return (f.get('cls') or '').startswith('lambda@')


class Program:
    def __init__(self, repo=None):
        self.repo = os.path.realpath(repo or REPO)
        self.functions = Functions()
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.types = {}
        self.units = []
        self.load()
        for f in self.functions.everything().values():
            if 'body' in f:
                for n in walk(f['body']):
                    if n.get('k') in ('for', 'while'):
                        head_condition(n)
                    elif n.get('k') == 'lambda' and 'body' in self.functions.get(n.get('fn'), {}):
                        n['body'] = self.functions[n['fn']]['body']      # read as a part of the function it is written in
        self.index()

    def load(self):
        tool = tool_path()
        files = sources(self.repo)
        if len(files) < 15:
            raise AnalysisBroken('only %d translation units found under %s' % (len(files), self.repo))
        inst = os.path.join(VERIF, 'tool', 'instances.cc')
        files.append(inst)
        h = hashlib.sha256(open(tool, 'rb').read() + open(inst, 'rb').read())
        for f in all_repo_files(self.repo):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        stamp = h.hexdigest()[:24]
        cdir = os.environ.get('SA_CACHE')   # development only; registered commands never set it
        if cdir:
            cf = os.path.join(cdir, stamp + '.json')
            if os.path.exists(cf):
                d = json.load(open(cf))
                for k in ('functions', 'records', 'enums', 'globals', 'types', 'units'):
                    setattr(self, k, d[k] if k != 'functions' else Functions(d[k]))
                return
        out = tempfile.mkdtemp(prefix='sa-')
        try:
            def run(f):
                o = os.path.join(out, hashlib.md5(f.encode()).hexdigest() + '.json')
                flags = ['-x', 'c++', '-std=gnu++11', '-DNDEBUG', '-I' + self.repo, '-I/usr/include/libxml2', '-w',
                         '-DTYPELIB_HARDCODED_PLUGIN_PATH="/usr/local/lib/typelib"',
                         '-resource-dir', LLVM + '/lib/clang/18']
                if '/bindings/ruby/' in f:
                    flags += ruby_flags()
                r = subprocess.run([tool, self.repo, o, f, self.repo + '/_build,' + self.repo + '/test', '--'] + flags,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=out)
                if f == inst and (r.returncode or not os.path.exists(o)):
                    return f, None       # the rules that need the instances say so
                if r.returncode or not os.path.exists(o):
                    raise AnalysisBroken('cannot parse %s: %s' % (f, r.stdout.decode()[-1500:]))
                d = json.load(open(o))
                os.unlink(o)
                if d['errors']:
                    raise AnalysisBroken('errors while parsing %s: %s' % (f, r.stdout.decode()[-1500:]))
                return f, d
            with ThreadPoolExecutor(8) as ex:
                for f, d in ex.map(run, files):
                    if d is None:
                        continue
                    self.units.append(os.path.relpath(f, self.repo))
                    for fn in d['functions']:
                        k = fn['key']
                        if k not in self.functions or ('body' in fn and 'body' not in self.functions[k]):
                            fn['unit'] = os.path.relpath(f, self.repo)
                            self.functions[k] = fn
                    for r in d['records']:
                        self.records.setdefault(r['qn'], r)
                    for e in d['enums']:
                        self.enums.setdefault(e['qn'] + '@' + e['file'] + ':' + str(e['line']) if '(anonymous' in e['qn'] or not e['qn'] else e['qn'], e)
                    for g in d['globals']:
                        if g['qn'] not in self.globals or g.get('init'):
                            self.globals[g['qn']] = g
                    for t, v in d['types'].items():
                        if v is not None and (t not in self.types or 'size' not in self.types[t]):
                            self.types[t] = v
        finally:
            shutil.rmtree(out, ignore_errors=True)
        if cdir:
            os.makedirs(cdir, exist_ok=True)
            with open('%s.%d' % (cf, os.getpid()), 'w') as fd:
                json.dump({k: getattr(self, k) if k != 'functions' else self.functions.everything() for k in ('functions', 'records', 'enums', 'globals', 'types', 'units')}, fd)
            os.rename(fd.name, cf)

    def shadowed(self):
        """a field that hides one of a base class gets a name of its own"""
        new = {}
        for q, r in self.records.items():
            mine = {f['n'] for f in r['fields'] if f['n']}
            if not mine:
                continue
            todo, seen = [b['n'] for b in r['bases']], set()
            while todo:
                b = todo.pop()
                if b in seen or b not in self.records:
                    continue
                seen.add(b)
                for x in mine & {f['n'] for f in self.records[b]['fields']}:
                    new[(q, x)] = x + '@' + q.rsplit('::', 1)[-1]
                todo += [c['n'] for c in self.records[b]['bases']]
        if not new:
            return
        names = {x for q, x in new}
        for q, r in self.records.items():
            for f in r['fields']:
                f['n'] = new.get((q, f['n']), f['n'])
        for f in self.functions.values():
            for i in f.get('inits') or []:
                if i.get('f') in names:
                    i['f'] = new.get((f.get('cls'), i['f']), i['f'])
            for n in walk([f.get('body'), f.get('inits')]):
                if n.get('k') == 'mem' and n.get('n') in names:
                    n['n'] = new.get((n.get('cls'), n['n']), n['n'])

    def index(self):
        self.shadowed()
        self.by_qn = {}
        for k, f in self.functions.items():
            self.by_qn.setdefault(f['qn'], []).append(f)
        self.subs = {}
        for r in self.records.values():
            for b in r['bases']:
                self.subs.setdefault(b['n'], set()).add(r['qn'])
        self.overriders = {}      # key -> keys of direct overriders
        self.method = {}          # key -> (record, method)
        for r in self.records.values():
            for m in r['methods']:
                self.method[m['key']] = (r, m)
                for o in m['ov']:
                    self.overriders.setdefault(o, set()).add(m['key'])

    # -- queries
    def fn(self, qn, nparams=None, ptypes=None, const=None):
        """the functions of that qualified name"""
        res = []
        for f in self.by_qn.get(qn, []):
            if nparams is not None and len(f['params']) != nparams:
                continue
            if ptypes is not None and not all(p in t['t'] for p, t in zip(ptypes, f['params'])):
                continue
            res.append(f)
        return res

    def all_subs(self, qn):
        res, todo = set(), [qn]
        while todo:
            x = todo.pop()
            for s in self.subs.get(x, ()):
                if s not in res:
                    res.add(s); todo.append(s)
        return res

    def all_bases(self, qn):
        res, todo = [], [qn]
        while todo:
            x = todo.pop()
            r = self.records.get(x)
            if r:
                for b in r['bases']:
                    if b['n'] not in res:
                        res.append(b['n']); todo.append(b['n'])
            elif x in self.types:
                for b in self.types[x].get('bases', []):
                    if b not in res:
                        res.append(b)
        return res

    def all_overriders(self, key):
        res, todo = set(), [key]
        while todo:
            for o in self.overriders.get(todo.pop(), ()):
                if o not in res:
                    res.add(o); todo.append(o)
        return res

    def type(self, t):
        return self.types.get(t) or {}

    def strip(self, t):
        """type behind references / pointers / const"""
        ti = self.type(t)
        while ti.get('k') in ('ref', 'ptr'):
            t = ti['to']; ti = self.type(t)
        return t


def only(b):
    """the statement a block consists of"""
    while isinstance(b, dict) and b.get('k') == 'block' and len(b['b']) == 1:
        b = b['b'][0]
    return b


def head_condition(n):
    """for (;;) { if (!c) break; ... }  is  while (c) { ... }"""
    c = n.get('c')
    if n.get('cv') or c is not None and not (c.get('k') == 'int' and c.get('v')):
        return
    b = n.get('b')
    if not isinstance(b, dict):
        return
    ss = b['b'] if b.get('k') == 'block' else [b]
    if not ss or ss[0].get('k') != 'if' or ss[0].get('cv') or ss[0].get('init'):
        return
    i = ss[0]

    def leaves(x):
        x = only(x)
        return isinstance(x, dict) and x.get('k') == 'break'

    if leaves(i['a']):
        n['c'] = {'k': 'un', 'op': '!', 'a': i['c'], 't': 'bool', 'l': i['l']}
        rest = ([i['b']] if i.get('b') else []) + ss[1:]
    elif i.get('b') and leaves(i['b']):
        n['c'] = i['c']
        rest = [i['a']] + ss[1:]
    else:
        return
    n['b'] = {'k': 'block', 'b': rest, 'l': b['l']}


def walk(node):
    """all dict nodes below (expressions and statements)"""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            yield n
            for v in n.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            stack.extend(n)


if __name__ == '__main__':
    import time
    t = time.time()
    p = Program()
    print(len(p.units), 'units', len(p.functions), 'functions', len(p.records), 'records', len(p.types), 'types', time.time() - t)
