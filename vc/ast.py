"""Mechanical extraction of /repo's current sources: clang 18 parses each translation unit (wrapped in one
namespace so that only repository declarations are dumped) and its JSON AST is indexed here.  Nothing of the
repository's text is rewritten; what is dropped: OpenMP pragmas (sequential semantics), comments, and the
bodies of everything outside /repo (standard library, MPI, PETSc), which appear as external calls."""
import json, os, subprocess, hashlib, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(os.path.dirname(HERE), 'frontend', 'shim')

PRE = '''#include <bits/stdc++.h>
#include <mpi.h>
#include <omp.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <limits.h>
#include <stddef.h>
#include <inttypes.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
%s
namespace TYCHO_VERIF {
#include "%s"
}
'''


class ExtractError(Exception):
    pass


_flags = None


def mpi_flags():
    global _flags
    if _flags is None:
        out = subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True).stdout.split()
        _flags = out
    return _flags


def dump(src):
    src, _, omp = src.partition('#')        # 'file#omp': with OpenMP directives as AST nodes
    path = os.path.join(REPO, src)
    if src.startswith('@'):        # /verif/frontend wrapper that only includes and instantiates repository code
        path = os.path.join(os.path.dirname(SHIM), src[1:])
    if not os.path.exists(path):
        raise ExtractError('no such source file ' + src)
    util = src.startswith('util/')
    pre = '' if util else '#include <petscksp.h>\n'
    text = open(path).read()
    if 'petsc' not in text.lower() and 'Krylov' not in text:
        pre = ''
    with tempfile.TemporaryDirectory(prefix='vcast') as d:
        tu = os.path.join(d, 'tu.cc')
        open(tu, 'w').write(PRE % (pre, path))
        cmd = ['clang++-18', '-fsyntax-only', '-w', '-std=c++11', '-include', 'cstdint',
               '-DASSERT_ON=1', '-DUSE_PETSC=1', '-DPARALLEL_MESH_READ_SERIAL_ONLY' if util else '-DVERIF_DUMMY',
               '-I' + SHIM, '-I' + REPO + '/src', '-I' + REPO + '/util', '-I/usr/lib/petsc/include', '-I/usr/include/petsc'] + mpi_flags() + \
              (['-fopenmp'] if omp else []) + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=TYCHO_VERIF', tu]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise ExtractError('clang failed on %s: %s' % (src, p.stderr[:800]))
        dec = json.JSONDecoder()
        s = p.stdout
        i = s.find('{')
        docs = []
        while 0 <= i < len(s):
            o, j = dec.raw_decode(s, i)
            docs.append(o)
            i = s.find('{', j)
        return docs


class Func(object):
    def __init__(self, qname, node, tu, record=None):
        self.qname = qname
        self.node = node
        self.tu = tu
        self.record = record
        self.params = [c for c in node.get('inner', []) if c['kind'] == 'ParmVarDecl']
        self.body = None
        self.inits = []
        for c in node.get('inner', []):
            if c['kind'] == 'CompoundStmt':
                self.body = c
            elif c['kind'] == 'CXXTryStmt':
                self.body = c
            elif c['kind'] == 'CXXCtorInitializer':
                self.inits.append(c)
        self.kind = node['kind']
        self.name = node.get('name')
        self.static = node.get('storageClass') == 'static'

    def sig(self):
        return self.node.get('type', {}).get('qualType', '')


class Record(object):
    def __init__(self, qname, node, tu):
        self.qname, self.node, self.tu = qname, node, tu
        self.fields = []     # (name, type)
        self.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in node.get('bases', [])]
        self.methods = []


class TU(object):
    """index of one translation unit"""

    def __init__(self, src):
        self.src = src
        self.ids = {}
        self.canon = {}
        self.funcs = {}      # qname -> [Func with body]
        self.by_id = {}      # id -> Func (any decl)
        self.records = {}
        self.enums = {}      # constant id -> value
        self.enum_names = {}
        self.globals = {}    # name -> VarDecl node
        self.typedefs = {}
        for d in dump(src):
            self._walk(d, [], None, None)
        # map declarations to definitions
        self.defn = {}
        for q, fs in self.funcs.items():
            for f in fs:
                self.defn[self._root(f.node['id'])] = f
        self.text_hash = None

    def _root(self, i):
        seen = set()
        while i in self.canon and i not in seen:
            seen.add(i)
            i = self.canon[i]
        return i

    def resolve(self, declid):
        """definition for a referenced function declaration id"""
        return self.defn.get(self._root(declid))

    def _walk(self, n, scope, record, tmpl):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n:
            self.ids[n['id']] = n
            if 'previousDecl' in n:
                self.canon[n['id']] = n['previousDecl']
        name = n.get('name')
        if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
            sc = scope + ([name] if name and name != 'TYCHO_VERIF' else [])
            for c in n.get('inner', []):
                self._walk(c, sc, None, tmpl)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = name or ('anon@' + n['id'])
            if k == 'ClassTemplateSpecializationDecl':
                targs = []
                for c in n.get('inner', []):
                    if c['kind'] == 'TemplateArgument':
                        targs.append(c.get('type', {}).get('qualType', '?'))
                nm = '%s<%s>' % (nm, ','.join(targs))
            q = '::'.join(scope + [nm])
            if n.get('completeDefinition') or k == 'ClassTemplateSpecializationDecl':
                r = Record(q, n, self)
                self.records[q] = r
                for c in n.get('inner', []):
                    if c['kind'] == 'FieldDecl':
                        r.fields.append((c.get('name'), c['type']))
                        self.ids[c['id']] = c
                    else:
                        self._walk(c, scope + [nm], r, tmpl)
            else:
                for c in n.get('inner', []):
                    self._walk(c, scope + [nm], None, tmpl)
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c['kind'] == 'ClassTemplateSpecializationDecl':
                    self._walk(c, scope, None, None)
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                    if first:
                        first = False
                        continue
                    self._walk(c, scope, record, None)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            sc = scope
            if 'parentDeclContextId' in n and record is None:
                p = self.ids.get(n['parentDeclContextId'])
                rq = None
                for q, r in self.records.items():
                    if r.node['id'] == n['parentDeclContextId']:
                        rq = q
                        record = r
                if rq:
                    sc = rq.split('::')
            q = '::'.join(sc + [name or '?'])
            f = Func(q, n, self, record)
            self.by_id[n['id']] = f
            if record is not None:
                record.methods.append(f)
            if f.body is not None:
                self.funcs.setdefault(q, []).append(f)
            for c in f.params:
                self.ids[c['id']] = c
        elif k == 'EnumDecl':
            nxt = 0
            for c in n.get('inner', []):
                if c['kind'] == 'EnumConstantDecl':
                    v = _const_value(c)
                    if v is None:
                        v = nxt
                    nxt = v + 1
                    self.enums[c['id']] = v
                    self.enum_names[c.get('name')] = v
                    self.ids[c['id']] = c
        elif k == 'VarDecl':
            q = '::'.join(scope + [name or '?'])
            self.globals[n['id']] = (q, n)
            self.ids[n['id']] = n
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[name] = n['type'].get('desugaredQualType', n['type']['qualType'])

    def find(self, qname, nparams=None):
        fs = self.funcs.get(qname, [])
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        return fs


def _const_value(n):
    for c in n.get('inner', []):
        if c.get('kind') == 'ConstantExpr' and 'value' in c:
            return int(c['value'])
        v = _const_value(c)
        if v is not None:
            return v
    return None


def line_of(n):
    for key in ('loc', 'range'):
        d = n.get(key, {})
        if key == 'range':
            d = d.get('begin', {})
        for dd in (d, d.get('expansionLoc', {}), d.get('spellingLoc', {})):
            if 'line' in dd:
                return dd['line']
    return None


_tus = {}


def load(src):
    if src not in _tus:
        _tus[src] = TU(src)
    return _tus[src]
