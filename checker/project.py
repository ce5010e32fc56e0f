"""Load /repo's sources and resolve names, classes and functions statically."""
import ast
import builtins
import importlib
import os
import sqlite3
import sys


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (a vanished anchor, unparsable file)."""


class FuncInfo:
    __slots__ = ('name', 'node', 'module', 'cls', 'decorators', 'is_gen', 'qualname',
                 'kind', 'is_cm', 'alts', 'is_prop', 'setter', 'cond', 'locals', 'under')

    def __init__(self, name, node, module, cls, qualname):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.qualname = qualname
        self.alts = []          # alternative definitions (conditional defs)
        self.cond = None
        self.under = None      # conditions a top-level definition depends on
        self.setter = None
        self.locals = local_names(node)
        self.is_gen = contains_yield(node)
        decs = []
        for d in getattr(node, 'decorator_list', []):
            decs.append(dotted(d.func if isinstance(d, ast.Call) else d) or '?')
        self.decorators = decs
        last = [d.split('.')[-1] for d in decs]
        self.is_cm = 'contextmanager' in last
        self.is_prop = 'property' in last or 'cached_property' in last
        if 'staticmethod' in last:
            self.kind = 'static'
        elif 'classmethod' in last:
            self.kind = 'class'
        else:
            self.kind = 'plain'

    @property
    def where(self):
        return f'{self.module.relpath}:{getattr(self.node, "lineno", 0)}'

    def __repr__(self):
        return f'<Func {self.module.name}:{self.qualname}>'


class ClassInfo:
    __slots__ = ('name', 'node', 'module', 'methods', 'attrs', 'bases', 'is_dataclass', 'fields')

    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}          # class attribute name -> expr
        self.bases = node.bases
        self.is_dataclass = False
        self.fields = []         # dataclass fields [(name, default expr)]

    @property
    def where(self):
        return f'{self.module.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<Class {self.module.name}.{self.name}>'


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.is_pkg = is_pkg
        self.names = {}     # name -> ('func', FuncInfo) | ('class', ClassInfo) | ('import', dotted) | ('expr', node)

    def __repr__(self):
        return f'<Module {self.name}>'


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f'{b}.{node.attr}' if b else None
    return None


class _YieldFinder(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Yield(self, node):
        self.found = True

    def visit_YieldFrom(self, node):
        self.found = True

    def visit_FunctionDef(self, node):
        pass

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_Lambda = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef


def contains_yield(node):
    f = _YieldFinder()
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        f.visit(s)
    return f.found


class _LocalFinder(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.nonlocals = set()

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.names.add(node.id)

    def visit_Global(self, node):
        self.nonlocals.update(node.names)

    visit_Nonlocal = visit_Global

    def visit_FunctionDef(self, node):
        self.names.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.names.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_Import(self, node):
        for a in node.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, node):
        for a in node.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.names.add(node.name)
        self.generic_visit(node)

    def _comp(self, node):
        # comprehension variables are local to the comprehension, walrus is not
        for sub in ast.walk(node):
            if isinstance(sub, ast.NamedExpr):
                self.names.add(sub.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def local_names(node):
    f = _LocalFinder()
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        f.visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        f.names.add(x.arg)
    if a.vararg:
        f.names.add(a.vararg.arg)
    if a.kwarg:
        f.names.add(a.kwarg.arg)
    return f.names - f.nonlocals


class Project:
    def __init__(self, root='/repo', pkgdir='src/toron', pkg='toron'):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        base = os.path.join(root, pkgdir)
        if not os.path.isdir(base):
            raise AnalysisBroken(f'no package directory {base}')
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, base)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join([pkg] + parts)
                with open(path, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisBroken(f'cannot parse {path}: {e}')
                self.modules[name] = Module(name, path, os.path.relpath(path, root), tree, is_pkg)
        self.functions = []
        self.classes = []
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        self._mro_cache = {}

    # -- collection -------------------------------------------------
    def _collect(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, None, m.names, s, s.name)
            elif isinstance(s, ast.ClassDef):
                m.names[s.name] = ('class', self._make_class(m, s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ('import', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                modname = self.resolve_from(m, s)
                for a in s.names:
                    m.names[a.asname or a.name] = ('import', f'{modname}.{a.name}' if modname else a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('expr', s.value)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    m.names[s.target.id] = ('expr', s.value)
            elif isinstance(s, ast.AugAssign):
                if isinstance(s.target, ast.Name):
                    m.names[s.target.id] = ('unknown', None)
            elif isinstance(s, ast.If):
                old = self._cond
                self._cond = old + (ast.unparse(s.test),)
                self._collect(m, s.body)
                self._cond = old
                self._collect(m, s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(m, s.body)
                for h in s.handlers:
                    self._collect_soft(m, h.body)
                self._collect(m, s.orelse)
                self._collect(m, s.finalbody)
            elif isinstance(s, ast.With):
                self._collect(m, s.body)

    _cond = ()      # conditions around the current top-level statement

    def _collect_soft(self, m, body):
        saved = dict(m.names)
        self._collect(m, body)
        for k, v in saved.items():
            if m.names.get(k) is not v:
                m.names[k] = v

    def _add_func(self, m, cls, table, node, qual):
        fi = FuncInfo(node.name, node, m, cls, qual)
        fi.under = ' and '.join(self._cond) or None
        last = [d.split('.')[-1] for d in fi.decorators]
        if 'overload' in last:
            return
        if any(d.endswith('.setter') for d in fi.decorators):
            old = table.get(node.name)
            old = old[1] if isinstance(old, tuple) else old
            if old is not None:
                old.setter = fi
                self.functions.append(fi)
                return
        self.functions.append(fi)
        old = table.get(node.name)
        if isinstance(old, tuple):
            old = old[1] if old[0] == 'func' else None
        if isinstance(old, FuncInfo):
            # conditional (or re-) definition: keep every variant
            old.alts.append(fi)
            return
        table[node.name] = ('func', fi) if cls is None else fi

    def _make_class(self, m, node):
        ci = ClassInfo(node.name, node, m)
        self.classes.append(ci)
        for d in node.decorator_list:
            n = dotted(d.func if isinstance(d, ast.Call) else d) or ''
            if n.split('.')[-1] == 'dataclass':
                ci.is_dataclass = True
        self._collect_class(m, ci, node.body)
        return ci

    def _collect_class(self, m, ci, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._add_func(m, ci, ci.methods, s, f'{ci.name}.{s.name}')
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        ci.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name):
                    ann = ast.unparse(s.annotation)
                    if ci.is_dataclass and not ann.startswith('ClassVar'):
                        ci.fields.append((s.target.id, s.value))
                    elif s.value is not None:
                        ci.attrs[s.target.id] = s.value
            elif isinstance(s, ast.If):
                self._collect_class(m, ci, s.body)
                self._collect_class(m, ci, s.orelse)

    # -- resolution --------------------------------------------------
    def resolve_from(self, m, node):
        if not node.level:
            return node.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        if node.module:
            parts = parts + node.module.split('.')
        return '.'.join(parts)

    def lookup(self, modname, name, _depth=0):
        """Resolve *name* in module; returns (kind, payload) or None."""
        if _depth > 12:
            return None
        m = self.modules.get(modname)
        if m is None:
            return None
        ent = m.names.get(name)
        if ent is None:
            sub = self.modules.get(f'{modname}.{name}')
            if sub:
                return ('module', sub)
            star = m.names.get('*')
            if star and star[0] == 'import':
                lib = star[1][:-2]
                if lib in self.modules:
                    return self.lookup(lib, name, _depth + 1)
                if lib in sys.stdlib_module_names and hasattr(importlib.import_module(lib), name) \
                        and not hasattr(builtins, name):
                    return ('ext', f'{lib}.{name}')
            return None
        if ent[0] == 'import':
            return self.lookup_dotted(ent[1], _depth + 1)
        if ent[0] == 'expr':
            return ('expr', (m, ent[1], name))
        return ent

    def lookup_dotted(self, dn, _depth=0):
        if dn in self.modules:
            return ('module', self.modules[dn])
        if dn.split('.')[0] != self.pkg:
            return ('ext', dn)
        mod, _, name = dn.rpartition('.')
        if mod in self.modules:
            r = self.lookup(mod, name, _depth + 1)
            if r:
                return r
        return ('ext', dn)

    def cls(self, modname, name):
        r = self.lookup(modname, name)
        if not r or r[0] != 'class':
            raise AnalysisBroken(f'anchor vanished: class {modname}.{name}')
        return r[1]

    def func(self, modname, name):
        r = self.lookup(modname, name)
        if not r or r[0] != 'func':
            raise AnalysisBroken(f'anchor vanished: function {modname}.{name}')
        return r[1]

    def base_infos(self, ci):
        out = []
        for b in ci.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            dn = dotted(b)
            if not dn:
                continue
            head, *rest = dn.split('.')
            r = self.lookup(ci.module.name, head)
            for x in rest:
                if r and r[0] == 'module':
                    r = self.lookup(r[1].name, x)
                elif r and r[0] == 'ext':
                    r = ('ext', f'{r[1]}.{x}')
                else:
                    r = None
            if r is None:
                r = ('ext', dn)
            out.append(r)
        return out

    def mro(self, ci):
        """Linearised project classes, followed by external base names."""
        if ci in self._mro_cache:
            return self._mro_cache[ci]
        out = [ci]
        ext = []
        for r in self.base_infos(ci):
            if r[0] == 'class':
                o, e = self.mro(r[1])
                for x in o:
                    if x not in out:
                        out.append(x)
                ext.extend(e)
            elif r[0] == 'ext':
                ext.append(r[1])
        self._mro_cache[ci] = (out, ext)
        return out, ext

    def find_method(self, ci, name, after=None):
        classes, _ = self.mro(ci)
        if after is not None and after in classes:
            classes = classes[classes.index(after) + 1:]
        for c in classes:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, ci, name):
        for c in self.mro(ci)[0]:
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def dataclass_fields(self, ci):
        out = []
        seen = set()
        for c in reversed(self.mro(ci)[0]):
            for f in c.fields:
                if f[0] in seen:
                    out = [x for x in out if x[0] != f[0]]
                seen.add(f[0])
                out.append(f)
        return out

    def is_dataclass(self, ci):
        return any(c.is_dataclass for c in self.mro(ci)[0])

    # -- exceptions -----------------------------------------------------
    def exc_ancestors(self, name):
        """All ancestor names of exception class *name* (project or builtin)."""
        out = {name}
        if name.startswith('sqlite3.'):
            c = getattr(sqlite3, name[8:], None)
            if isinstance(c, type):
                for k in c.__mro__:
                    out.add(('sqlite3.' + k.__name__) if k.__module__ == 'sqlite3' else k.__name__)
            return out
        c = getattr(builtins, name, None)
        if isinstance(c, type):
            return {k.__name__ for k in c.__mro__}
        for ci in self.classes:
            if ci.name == name:
                cl, ext = self.mro(ci)
                for k in cl:
                    out.add(k.name)
                for e in ext:
                    out |= self.exc_ancestors(e.split('.')[-1] if not e.startswith('sqlite3.') else e)
                break
        else:
            out |= {'Exception', 'BaseException'}
        return out
