"""Native side: compiles /repo's current library sources together with a generated registry of its public
functions (signatures taken from the AST) and talks to the resulting process."""
import os, re, subprocess, hashlib, math, shutil, select, threading, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from frontend import REPO, SRC, UNITS, HERE, ty

CLASSES = ('MathUtils', 'Polynomials', 'KnotVectorUtils', 'ControlPointsUtils', 'Interpolation', 'Intersection', 'Projection',
           'ValidationUtils', 'BezierCurve', 'BezierSurface', 'BsplineCurve', 'BsplineSurface', 'NurbsCurve', 'NurbsSurface',
           'NurbsVolume', 'Matrix4d', 'UV', 'UVW', 'XYZ', 'XYZW')
CXX = 'g++'
FLAGS = ['-std=c++17', '-O1', '-fno-access-control', '-D_GLIBCXX_ASSERTIONS', '-w', '-I' + REPO + '/' + SRC + '/include', '-I' + HERE + '/native',
         '-isystem', '/usr/include/eigen3']
BAD = ('void *', 'array<', 'IntegrationFunction', '::operator()', 'std::function')


class NativeError(Exception):
    pass


def is_static(prog, m):
    for u in prog.units.values():
        for n in u.byid.values():
            if n.get('mangledName') == m and n['kind'] == 'CXXMethodDecl' and n.get('storageClass') == 'static':
                return True
    return False


def statics(prog):
    s = set()
    for u in prog.units.values():
        for n in u.byid.values():
            if n.get('kind') == 'CXXMethodDecl' and n.get('storageClass') == 'static' and n.get('mangledName'):
                s.add(n['mangledName'])
    return s


def gen(prog):
    st = statics(prog)
    parts = [[] for _ in range(7)]
    k = 0
    for q in sorted(prog.byqual):
        cls = q.split('::')[0] if '::' in q else None
        base = cls
        if cls is not None and base not in CLASSES and base != 'LnvGlue':
            continue
        name = q.split('::')[-1]
        if cls is None and not name.startswith('operator'):
            continue
        for m in prog.byqual[q]:
            n = prog.defs[m][1]
            t = n['type']['qualType'].replace('LNLib::', '')
            if any(b in t for b in BAD):
                continue
            if '(' not in t or t.startswith('auto'):
                continue
            rt, ps = t[:t.index('(')].strip(), t[t.index('('):]
            if n['kind'] == 'CXXConstructorDecl':
                np = sum(1 for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl')
                pt = [c['type']['qualType'] for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
                line = 'reg("%s", +[](%s) { return %s(%s); });' % (
                    m, ', '.join('%s a%d' % (x.replace('LNLib::', ''), i) for i, x in enumerate(pt)), name, ', '.join('a%d' % i for i in range(np)))
            elif cls is None:
                line = 'reg("%s", static_cast<%s (*)%s>(&LNLib::%s));' % (m, rt, ps, name)
            elif m in st:
                line = 'reg("%s", static_cast<%s (*)%s>(&%s));' % (m, rt, ps, q)
            else:
                line = 'regm("%s", static_cast<%s (%s::*)%s>(&%s));' % (m, rt, cls, ps, q)
            if cls == 'LnvGlue':
                parts[6].append(line)
                continue
            parts[k % 6].append(line)
            k += 1
    return ['#include "rt.h"\n%svoid reg_all%d() {\n%s\n}\n' % (('#define LNV_NO_PRIVATE\n' if prog.noprivate else '') + '#include "glue.h"\n' if i == 6 and p else '', i, '\n'.join(p)) for i, p in enumerate(parts)]


def build(prog, outdir, only=None):
    """compile; objects are cached by the hash of their preprocessed inputs within outdir"""
    os.makedirs(outdir, exist_ok=True)
    hh = hashlib.sha256()
    inc = REPO + '/' + SRC + '/include'
    for f in sorted(os.listdir(inc)):
        hh.update(open(inc + '/' + f, 'rb').read())
    for f in ('rt.h', 'AllLN.h', 'glue.h'):
        hh.update(open(HERE + '/native/' + f, 'rb').read())
    hdr = hh.hexdigest()
    jobs = []
    for nm, p in UNITS.items():
        if p and nm not in ('OctreeCollector', 'Octree'):
            jobs.append((nm, open(REPO + '/' + p).read(), REPO + '/' + p))
    known = {os.path.basename(j[2]) for j in jobs}
    for root, ds, fs in os.walk(REPO + '/' + SRC):
        for f in fs:
            if f.endswith('.cpp') and f not in known:
                jobs.append((f[:-4], open(root + '/' + f).read(), root + '/' + f))
    for i, src in enumerate(gen(prog)):
        pth = outdir + '/reg%d.cpp' % i
        open(pth, 'w').write(src)
        jobs.append(('reg%d' % i, src, pth))
    jobs.append(('main', open(HERE + '/native/main.cpp').read(), HERE + '/native/main.cpp'))
    weight = {'MathUtils': 0, 'NurbsCurve': 1, 'NurbsSurface': 1, 'NurbsVolume': 2}
    jobs.sort(key=lambda j: weight.get(j[0], 3))

    def one(j):
        nm, src, pth = j
        h = hashlib.sha256((hdr + src).encode()).hexdigest()[:20]
        o = outdir + '/%s-%s.o' % (nm, h)
        if not os.path.exists(o):
            for attempt in range(4):
                r = subprocess.run([CXX] + FLAGS + ['-c', pth, '-o', o + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                bad = {int(x) for x in re.findall(r'%s:(\d+):' % re.escape(pth), r.stdout.decode(errors='replace'))} if nm.startswith('reg') else ()
                if not r.returncode or not bad:
                    break
                # an entry that cannot be registered (e.g. a helper that is not reachable from outside) is left out
                ls = open(pth).read().split('\n')
                open(pth, 'w').write('\n'.join(l if i + 1 not in bad or not l.startswith('reg') else '' for i, l in enumerate(ls)))
            if r.returncode and nm == 'reg6':
                open(pth, 'w').write('void reg_all6() {}\n')
                r = subprocess.run([CXX] + FLAGS + ['-c', pth, '-o', o + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise NativeError('compile %s: %s' % (nm, r.stdout.decode()[-3000:]))
            os.rename(o + '.tmp', o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    hx = hashlib.sha256(' '.join(sorted(objs)).encode()).hexdigest()[:16]
    exe = outdir + '/driver-' + hx
    if not os.path.exists(exe):
        r = subprocess.run([CXX] + objs + ['-o', exe + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise NativeError('link: ' + r.stdout.decode()[-3000:])
        os.rename(exe + '.tmp', exe)
    return exe


def enc(v, out):
    if v is None:
        out.append('_')
    elif isinstance(v, bool):
        out.append('1' if v else '0')
    elif isinstance(v, int):
        out.append(str(v))
    elif isinstance(v, float):
        out.append('nan' if v != v else 'inf' if v == math.inf else '-inf' if v == -math.inf else v.hex())
    elif isinstance(v, tuple):
        for x in v:
            enc(float(x), out)
    elif isinstance(v, list):
        out.append(str(len(v)))
        for x in v:
            enc(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            enc(x, out)
    else:
        enc(float(v), out)


class Proc:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def call(self, key, args, timeout=4):
        """returns ('ok', ret, outs, this) | ('exc', type) | ('crash', what) | ('nofn',)"""
        if self.p is None:
            self.start()
        t = [key, str(timeout)]
        for a in args:
            enc(a, t)
        try:
            self.p.stdin.write((' '.join(t) + '\n').encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline().decode()
        except BrokenPipeError:
            line = ''
        if not line:
            rc = self.p.wait()
            self.p = None
            return ('crash', 'timeout' if rc == -14 else 'signal %d' % -rc)
        line = line.strip()
        if line == 'NOFN':
            return ('nofn',)
        if line.startswith('EXC '):
            return ('exc', line[4:])
        r = eval(line, {'nan': math.nan, 'inf': math.inf, '__builtins__': {}, 'True': True, 'False': False, 'None': None})
        return ('ok',) + r

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
