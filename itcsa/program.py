"""Front end: compiles the working tree of /repo to LLVM IR and loads it."""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys

REPO = os.environ.get("ITCSA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")


class CheckError(Exception):
    """An error of the check itself (never a verdict)."""


def strip_targs(s):
    """std::vector<int>::push_back -> std::vector::push_back"""
    out = []
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<' and not s.startswith('operator<', max(0, i - 8)):
            depth += 1
        elif c == '>' and depth > 0 and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def targs(ctx):
    """template arguments of the outermost template-id in ctx, as strings"""
    i = ctx.find('<')
    if i < 0:
        return []
    depth = 0
    cur = ''
    res = []
    for ch in ctx[i:]:
        if ch in '<({':
            depth += 1
            if depth == 1 and ch == '<':
                continue
        elif ch in '>)}':
            depth -= 1
            if depth == 0:
                res.append(cur.strip())
                break
        elif ch == ',' and depth == 1:
            res.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return res


class Fn:
    __slots__ = ('name', 'dem', 'ctx', 'base', 'cls', 'decl', 'nounwind', 'noreturn', 'ret', 'retsz', 'nargs',
                 'argtys', 'sret', 'file', 'line', 'blocks', 'repo', 'live', 'preds', 'header', 'model', 'is_user',
                 'byval', 'ditypes', 'calllive')

    def __init__(self, name, j, files):
        self.name = name
        self.dem = j['dem']
        self.ctx = j.get('ctx', '')
        self.base = j.get('base', '')
        self.cls = strip_targs(self.ctx)
        self.decl = j['decl']
        self.nounwind = j['nounwind']
        self.noreturn = j['noreturn']
        self.ret = j['ret']
        self.retsz = j['retsz']
        self.nargs = j['nargs']
        self.argtys = j['argtys']
        self.sret = j['sret']
        self.byval = j.get('byval', [])
        self.ditypes = j.get('ditypes', [])
        self.calllive = {}
        self.file = files[j['file']] if 'file' in j else ''
        self.line = j.get('line', 0)
        self.blocks = j.get('blocks')
        self.repo = self.file.startswith(REPO + '/')
        self.is_user = self.ctx.startswith('user::')
        self.live = None
        self.preds = None
        self.header = None
        self.model = None

    def __repr__(self):
        return self.dem

    def short(self):
        d = self.dem
        if len(d) > 90:
            d = strip_targs(d)
        return d if len(d) <= 140 else d[:137] + '...'

    def ret_type(self):
        return self.ditypes[0] if self.ditypes else ''

    # ---- lazily computed control-flow information
    def succs(self, b):
        t = self.blocks[b][-1]
        op = t[0]
        if op == 'br':
            return [t[5]] if t[4] is None else [t[5], t[6]]
        if op == 'switch':
            return [t[5]] + [c[1] for c in t[6]]
        if op == 'invoke':
            return [t[7], t[8]]
        return []

    def call_live(self, b, ip):
        """values needed after the call at (b, ip) returns"""
        n = len(self.blocks)
        out = set()
        for s in self.succs(b):
            out |= self.live[s]
            for ins in self.blocks[s]:
                if ins[0] != 'phi':
                    break
                for pb, o in ins[4]:
                    if pb == b:
                        collect(o, out, None)
        for ins in reversed(self.blocks[b][ip + 1:]):
            out.discard(ins[1])
            for o in ins[4:]:
                collect(o, out, None)
        return frozenset(out)

    def prepare(self):
        if self.live is not None:
            return
        n = len(self.blocks)
        succ = [self.succs(b) for b in range(n)]
        preds = [0] * n
        for b in range(n):
            for s in set(succ[b]):
                preds[s] += 1
        self.preds = preds
        # loop headers: targets of back edges in a DFS
        header = [False] * n
        color = [0] * n
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                if color[s] == 1:
                    header[s] = True
            else:
                color[b] = 2
                stack.pop()
        self.header = header
        # liveness of SSA values at block entry
        use = []
        deff = []
        phiuse = [set() for _ in range(n)]  # uses on the edge out of a block
        for b in range(n):
            u = set()
            d = set()
            for ins in self.blocks[b]:
                if ins[0] == 'phi':
                    for pb, o in ins[4]:
                        collect(o, phiuse[pb], None)
                else:
                    for o in ins[4:]:
                        collect(o, u, d)
                d.add(ins[1])
            use.append(u)
            deff.append(d)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set(phiuse[b])
                for s in succ[b]:
                    out |= live[s]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        # values needed at block entry (before phis): live + phi inputs are read from the predecessor
        self.live = [frozenset(x) for x in live]


def collect(o, u, d):
    if isinstance(o, list):
        if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int):
            if d is None or o[1] not in d:
                u.add(o[1])
            return
        for x in o:
            if isinstance(x, list):
                collect(x, u, d)


class Program:
    def __init__(self, j):
        self.files = j['files']
        self.globals = j['globals']
        self.structs = j['structs']
        self.fns = {n: Fn(n, f, self.files) for n, f in j['functions'].items()}
        self.records = {}
        for r in j['records']:
            self.records.setdefault(strip_targs(r['name']), []).append(r)
        self._recfor = {}
        self._mutexoff = {}
        self.by_dem = None

    def loc(self, ins):
        l = ins[2]
        if not l:
            return ''
        f = self.files[l[1]]
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        elif f.startswith(VERIF + '/'):
            f = f[len(VERIF) + 1:]
        return '%s:%d' % (f, l[0])

    def loc_repo(self, ins):
        l = ins[2]
        return bool(l) and self.files[l[1]].startswith(REPO + '/')

    # ---- layouts
    def record_for(self, llname):
        """debug-info record of an LLVM struct type"""
        if llname in self._recfor:
            return self._recfor[llname]
        res = None
        base = re.sub(r'^(struct|class|union)\.', '', llname)
        base = re.sub(r'(\.\d+)?(@\d+)?$', '', base)
        base = re.sub(r'\.base$', '', base)
        size = self.structs.get(llname, {}).get('size')
        cands = self.records.get(base)
        if not cands:
            last = base.split('::')[-1]
            cands = [r for n, rs in self.records.items() if n.split('::')[-1] == last for r in rs]
        exact = [r for r in cands if r['size'] == size]
        # ambiguous local structs: compare member offsets with the element offsets
        if len(exact) > 1:
            offs = [o for o, _ in self.structs[llname]['elems']]
            best = [r for r in exact if all(m[1] in offs for m in r['members'])]
            exact = best or exact
        if exact:
            res = exact[0]
        elif cands:
            res = cands[0]
        self._recfor[llname] = res
        return res

    def is_repo_struct(self, llname):
        b = re.sub(r'^(struct|class|union)\.', '', llname)
        if b.startswith('std::') or b.startswith('__gnu_cxx') or b.startswith('user::') or b.startswith('anon') \
                or b.startswith('_') or b.startswith('pthread'):
            return False
        return True

    def sizeof(self, tname):
        """size of a C++ type by its spelling"""
        if not hasattr(self, '_sizes'):
            self._sizes = {'unsignedlong': 8, 'long': 8, 'int': 4, 'unsignedint': 4, 'bool': 1, 'char': 1,
                           'unsignedchar': 1, 'double': 8, 'float': 4}
            for rs in self.records.values():
                for r in rs:
                    self._sizes.setdefault(r['name'].replace(' ', ''), r['size'])
        t = tname.replace(' ', '')
        if t.endswith('*'):
            return 8
        return self._sizes.get(t)

    def elem_at(self, llname, off):
        """(element offset, element type) of the element containing byte off"""
        s = self.structs.get(llname)
        if not s:
            return None
        best = None
        for o, t in s['elems']:
            if o <= off:
                if best is None or o >= best[0]:
                    # prefer non-empty element at same offset
                    if best is not None and o == best[0] and self.tsize(t) == 0:
                        continue
                    best = (o, t)
        return best

    def tsize(self, t):
        if t in self.structs:
            return self.structs[t]['size']
        m = re.match(r'\[(\d+)x(.*)\]$', t)
        if m:
            return int(m.group(1)) * self.tsize(m.group(2))
        if t == 'ptr':
            return 8
        m = re.match(r'i(\d+)$', t)
        if m:
            return (int(m.group(1)) + 7) // 8
        return 0

    def direct_mutex(self, llname):
        """offset of a std::mutex directly contained (or through a base class) in the struct, else None"""
        if llname in self._mutexoff:
            return self._mutexoff[llname]
        r = None
        self._mutexoff[llname] = None
        for o, t in self.structs.get(llname, {}).get('elems', []):
            if re.match(r'class\.std::(recursive_|timed_|shared_)?mutex(\.\d+)?$', t):
                r = o
                break
        if r is None:
            # a base class sub-object counts as direct
            rec = self.record_for(llname)
            bases = {m[1] for m in rec['members'] if m[0] == '<base>'} if rec else set()
            for o, t in self.structs.get(llname, {}).get('elems', []):
                if o in bases and t in self.structs and self.is_repo_struct(t):
                    q = self.direct_mutex(t)
                    if q is not None:
                        r = o + q
                        break
        self._mutexoff[llname] = r
        return r

    def find_dtor(self, tname):
        """destructor function of a type named as in demangled names, or None"""
        if self.by_dem is None:
            self.by_dem = {}
            for f in self.fns.values():
                if f.base.startswith('~') and not f.decl:
                    self.by_dem.setdefault(f.ctx, f)
        return self.by_dem.get(tname)


def sources():
    cpps = sorted(glob.glob(REPO + '/threadpp/**/*.cpp', recursive=True))
    return cpps


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/threadpp/**/*', recursive=True))
    files += sorted(glob.glob(VERIF + '/driver/*')) + [VERIF + '/tool/irdump.cpp']
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


CXXFLAGS = ['-std=c++17', '-I' + REPO, '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-c', '-emit-llvm', '-w']


def build(out):
    """compile everything to IR in directory out, return the joined dump"""
    os.makedirs(out, exist_ok=True)
    srcs = sources()
    if not srcs:
        raise CheckError('no sources found under %s/threadpp' % REPO)
    procs = []
    bcs = []
    for i, f in enumerate(srcs + [VERIF + '/driver/driver.cpp']):
        bc = os.path.join(out, '%d_%s.bc' % (i, os.path.basename(f)))
        bcs.append(bc)
        procs.append((f, subprocess.Popen(['clang++'] + CXXFLAGS + [f, '-o', bc], stderr=subprocess.PIPE)))
    for f, p in procs:
        err = p.communicate()[1]
        if p.returncode:
            raise CheckError('cannot compile %s:\n%s' % (f, err.decode()[:3000]))
    tool = os.path.join(BUILD, 'irdump')
    if not os.path.exists(tool):
        raise CheckError('build/irdump is missing: run setup.sh')
    procs = []
    for i, bc in enumerate(bcs):
        cmd = 'opt -passes=sroa %s -o %s.s && %s %s.s %d > %s.json' % (bc, bc, tool, bc, i, bc)
        procs.append((bc + '.json', subprocess.Popen(['bash', '-c', cmd])))
    res = []
    for js, p in procs:
        if p.wait():
            raise CheckError('cannot dump ' + js)
        with open(js) as fh:
            res.append(json.load(fh))
    return join(res)


def reindex_locs(o, m):
    for f in o.values():
        if 'file' in f:
            f['file'] = m[f['file']]
        for b in f.get('blocks') or ():
            for ins in b:
                if ins[2]:
                    ins[2] = [ins[2][0], m[ins[2][1]]]


def join(mods):
    """link the dumps of several modules by name"""
    res = dict(functions={}, globals={}, structs={}, records=[], files=[])
    recs = set()
    fidx = {}
    for m in mods:
        fm = []
        for f in m['files']:
            if f not in fidx:
                fidx[f] = len(res['files'])
                res['files'].append(f)
            fm.append(fidx[f])
        reindex_locs(m['functions'], fm)
        for n, f in m['functions'].items():
            old = res['functions'].get(n)
            if old is None or old['decl'] and not f['decl']:
                res['functions'][n] = f
        for n, g in m['globals'].items():
            old = res['globals'].get(n)
            if old is None or not old.get('init') and g.get('init'):
                res['globals'][n] = g
        res['structs'].update(m['structs'])
        for r in m['records']:
            k = json.dumps([r['name'], r['size'], r['members']])
            if k not in recs:
                recs.add(k)
                res['records'].append(r)
    for m in mods:
        for a, t in m.get('aliases', {}).items():
            if t in res['functions']:
                old = res['functions'].get(a)
                if old is None or old['decl']:
                    res['functions'][a] = res['functions'][t]
    return res


def load(keep=None):
    """compile the current working tree and load it"""
    import tempfile
    import shutil
    os.makedirs(BUILD, exist_ok=True)
    d = keep or tempfile.mkdtemp(prefix='ir_', dir=BUILD)
    try:
        return Program(build(d))
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)
