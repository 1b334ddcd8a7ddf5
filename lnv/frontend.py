"""Extraction of the verified text: clang's AST of /repo's current sources.

Nothing is rewritten by hand.  For every translation unit of the library (and one
instantiation unit of our own for the header-only templates) we ask clang for the
JSON dump of its *semantic* AST restricted to namespace LNLib, and index functions,
classes, enums and constants.  What the extraction drops: comments, formatting, the
text of exception messages, attributes/export macros, and everything outside
namespace LNLib (std:: and Eigen:: are modelled or assumed by stdlib.py)."""
import json, os, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('LNV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = '/usr/bin/clang++-18'
SRC = 'src/LNLib'

UNITS = {
    'Polynomials': SRC + '/Algorithm/Polynomials.cpp',
    'KnotVectorUtils': SRC + '/Algorithm/KnotVectorUtils.cpp',
    'ControlPointsUtils': SRC + '/Algorithm/ControlPointsUtils.cpp',
    'Interpolation': SRC + '/Algorithm/Interpolation.cpp',
    'Intersection': SRC + '/Algorithm/Intersection.cpp',
    'Projection': SRC + '/Algorithm/Projection.cpp',
    'ValidationUtils': SRC + '/Algorithm/ValidationUtils.cpp',
    'Integrator': SRC + '/Algorithm/Integrator.cpp',
    'Octree': SRC + '/Algorithm/Octree/Octree.cpp',
    'OctreeCollector': SRC + '/Algorithm/Octree/OctreeCollector.cpp',
    'Voronoi': SRC + '/Algorithm/Voronoi.cpp',
    'BezierCurve': SRC + '/Geometry/Curve/BezierCurve.cpp',
    'NurbsCurve': SRC + '/Geometry/Curve/NurbsCurve.cpp',
    'NurbsSurface': SRC + '/Geometry/Surface/NurbsSurface.cpp',
    'NurbsVolume': SRC + '/Geometry/Volume/NurbsVolume.cpp',
    'Matrix4d': SRC + '/Mathematics/Math/Matrix4d.cpp',
    'UV': SRC + '/Mathematics/Math/UV.cpp',
    'UVW': SRC + '/Mathematics/Math/UVW.cpp',
    'XYZ': SRC + '/Mathematics/Math/XYZ.cpp',
    'XYZW': SRC + '/Mathematics/Math/XYZW.cpp',
    'MathUtils': SRC + '/Mathematics/Utils/MathUtils.cpp',
    'inst': None,   # our own instantiation unit
    'glue': None,   # call sequences over the pointer-based octree interface
}


class ExtractionError(Exception):
    pass


def clang_json(path, filt='LNLib', more=()):
    cmd = [CLANG, '-std=c++17', *more, '-fsyntax-only', '-w', '-fno-access-control', '-I' + REPO + '/' + SRC + '/include', '-I' + HERE + '/native',
           '-isystem', '/usr/include/eigen3', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + filt, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractionError('clang failed on %s: %s' % (path, r.stderr.decode()[-2000:]))
    return r.stdout.decode('utf-8', 'replace')


def parse_many(s):
    d = json.JSONDecoder(); i = 0; out = []; n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


def ty(node):
    t = node.get('type')
    if not t:
        return ''
    return t.get('desugaredQualType', t['qualType'])


FUNK = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class Unit:
    def __init__(self, name, roots):
        self.name = name
        self.roots = roots
        self.byid = {}
        self.parentclass = {}
        for r in roots:
            self.walk(r, None, None)
        # definitions given out of class: link to class through previousDecl/parentDeclContextId

    def walk(self, n, cls, ns):
        k = n.get('kind')
        if k is None:
            return
        i = n.get('id')
        if i is not None and (k.endswith('Decl')):
            old = self.byid.get(i)
            if old is None or len(n.get('inner', ())) >= len(old.get('inner', ())):
                self.byid[i] = n
            if cls is not None:
                self.parentclass[i] = cls
        c = cls
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            c = n
        for x in n.get('inner', ()):
            self.walk(x, c, ns)


class Program:
    """Index over all translation units."""

    def __init__(self, names=None):
        names = names or list(UNITS)
        self.noprivate = False
        self.units = {}
        paths = {}
        for nm in names:
            p = UNITS[nm]
            paths[nm] = (REPO + '/' + p) if p else HERE + '/native/%s.cpp' % nm
        order = sorted(names, key=lambda n: n != 'MathUtils')
        with ThreadPoolExecutor(8) as ex:
            def one(n):
                try:
                    return clang_json(paths[n])
                except ExtractionError:
                    if n == 'glue':     # private members renamed: the contracts on them cannot be run
                        try:
                            self.noprivate = True
                            return clang_json(paths[n], more=('-DLNV_NO_PRIVATE',))
                        except ExtractionError:     # interface of the octree changed
                            return ''
                    raise
            outs = dict(zip(order, ex.map(one, order)))
        self.sha = {}
        self.defs = {}       # mangled -> (unit, node)
        self.byqual = {}     # 'Class::Name' or 'Name' -> [mangled]
        self.classes = {}    # class name -> (unit, node)
        self.enums = {}
        for nm in names:
            u = Unit(nm, parse_many(outs[nm]))
            outs[nm] = None
            self.units[nm] = u
            for i, n in u.byid.items():
                k = n['kind']
                if k in FUNK and n.get('mangledName'):
                    body = any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ()))
                    if body and not n.get('isImplicit') and not n.get('explicitlyDefaulted'):
                        m = n['mangledName']
                        if m not in self.defs:
                            self.defs[m] = (u, n)
                            q = self.qual(u, n)
                            self.byqual.setdefault(q, []).append(m)
                elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                    if n.get('completeDefinition') and n.get('name'):
                        cn = self.clsname(n)
                        if cn not in self.classes:
                            self.classes[cn] = (u, n)
        for nm, pth in paths.items():
            try:
                self.sha[nm] = hashlib.sha256(open(pth, 'rb').read()).hexdigest()[:16]
            except OSError:
                self.sha[nm] = '?'

    @staticmethod
    def clsname(n):
        nm = n.get('name', '')
        if n['kind'] == 'ClassTemplateSpecializationDecl':
            args = []
            for c in n.get('inner', ()):
                if c.get('kind') == 'TemplateArgument' and 'type' in c:
                    args.append(c['type']['qualType'].replace('LNLib::', ''))
            nm += '<' + ','.join(args) + '>'
        return nm

    def qual(self, u, n):
        cls = u.parentclass.get(n['id'])
        if cls is None and n.get('previousDecl'):
            cls = u.parentclass.get(n['previousDecl'])
        if cls is None and n.get('parentDeclContextId'):
            p = u.byid.get(n['parentDeclContextId'])
            if p is not None and p['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                cls = p
        return (self.clsname(cls) + '::' if cls else '') + n['name']

    def find(self, qual, sig=None):
        """mangled names of definitions 'Class::Fn' whose type contains sig."""
        out = []
        for m in self.byqual.get(qual, ()):
            if sig is None or sig in self.defs[m][1]['type']['qualType']:
                out.append(m)
        return out


    def extra(self, unit, name, kinds, sig=None):
        """a declaration outside namespace LNLib (file-static / anonymous helper): second clang pass"""
        key = (unit.name, name)
        cache = self.__dict__.setdefault('_extra', {})
        base = unit.name.split('+')[0]
        if key not in cache:
            pth = UNITS.get(base)
            pth = (REPO + '/' + pth) if pth else HERE + '/native/%s.cpp' % base
            roots = parse_many(clang_json(pth, name))
            u = Unit(base + '+' + name, roots)
            cache[key] = u
            self.units[u.name] = u
            for i, n in u.byid.items():
                if n['kind'] in FUNK and n.get('mangledName') and any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ())):
                    m = n['mangledName']
                    if m not in self.defs:
                        self.defs[m] = (u, n)
                        self.byqual.setdefault(self.qual(u, n), []).append(m)
        u = cache[key]
        from interp import norm_sig
        for i, n in u.byid.items():
            if n['kind'] in kinds and n.get('name') == name:
                if n['kind'] in FUNK:
                    if not any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ())):
                        continue
                    if sig and norm_sig(n['type']['qualType']) != sig:
                        continue
                elif not n.get('inner'):
                    continue
                return n, u
        return None, None


if __name__ == '__main__':
    import time
    t = time.time()
    p = Program()
    print(time.time() - t, len(p.defs), len(p.classes))
    for q in sorted(p.byqual):
        print(q, [p.defs[m][1]['type']['qualType'][:90] for m in p.byqual[q]])
