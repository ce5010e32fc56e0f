"""The tables of a space, as declared in the source."""
import ast

from .project import AnalysisBroken
from .sqlmini import ident, paren_list, read_name, split_statements, tokenize


class Col:
    def __init__(self, name, toks):
        self.name = name
        ups = [t.up for t in toks]
        self.type = ups[0] if ups and ups[0] not in ('PRIMARY', 'NOT', 'CHECK', 'DEFAULT') else ''
        text = ' '.join(ups)
        self.pk = 'PRIMARY KEY' in text
        self.autoincrement = 'AUTOINCREMENT' in ups
        self.notnull = 'NOT NULL' in text or self.pk
        self.toks = toks
        self.text = text
        self.checks = []
        for i, u in enumerate(ups):
            if u == 'CHECK':
                parts, _ = paren_list(toks, i + 1)
                self.checks.append(' '.join(t.up for p in parts for t in p))
        self.ref = ref_of(toks)


def ref_of(toks):
    ups = [t.up for t in toks]
    if 'REFERENCES' not in ups:
        return None
    i = ups.index('REFERENCES')
    name, j = read_name(toks, i + 1)
    cols = []
    if j < len(toks) and toks[j].t == '(':
        parts, j = paren_list(toks, j)
        cols = [ident(p[0]) for p in parts if p]
    rest = ' '.join(ups[j:])
    act = None
    if 'ON DELETE' in rest:
        act = rest.split('ON DELETE', 1)[1].split()[0]
        if act in ('SET', 'NO'):
            act = ' '.join(rest.split('ON DELETE', 1)[1].split()[:2])
    return {'table': name, 'cols': cols, 'on_delete': act, 'deferred': 'INITIALLY DEFERRED' in rest}


class Table:
    def __init__(self, name, site, func):
        self.name = name
        self.site = site
        self.func = func
        self.cols = []
        self.fks = []       # (column, ref)
        self.uniques = []
        self.checks = []

    def col(self, name):
        for c in self.cols:
            if c.name == name:
                return c
        return None


def table_of(text, site, func):
    toks = tokenize(text)
    ups = [t.up for t in toks]
    i = ups.index('TABLE') + 1
    if ups[i:i + 3] == ['IF', 'NOT', 'EXISTS']:
        i += 3
    name, i = read_name(toks, i)
    if i >= len(toks) or toks[i].t != '(':
        return None
    parts, _ = paren_list(toks, i)
    t = Table(name, site, func)
    for p in parts:
        if not p:
            continue
        u = p[0].up
        if u == 'FOREIGN':
            k = next(j for j, x in enumerate(p) if x.t == '(')
            cs, _ = paren_list(p, k)
            for c in cs:
                t.fks.append((ident(c[0]), ref_of(p)))
        elif u == 'UNIQUE' or u == 'PRIMARY':
            k = next((j for j, x in enumerate(p) if x.t == '('), None)
            if k is not None:
                cs, _ = paren_list(p, k)
                t.uniques.append(tuple(ident(c[0]) for c in cs if c))
        elif u == 'CHECK':
            cs, _ = paren_list(p, 1)
            t.checks.append(' '.join(x.up for q in cs for x in q))
        elif u == 'CONSTRAINT':
            continue
        else:
            c = Col(ident(p[0]), p[1:])
            t.cols.append(c)
            if c.ref:
                t.fks.append((c.name, c.ref))
            if 'UNIQUE' in [x.up for x in p]:
                t.uniques.append((c.name,))
    return t


def strings(node):
    for x in ast.walk(node):
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            yield x


def create_tables(proj, modname):
    """Every CREATE TABLE written as a constant in a module."""
    m = proj.modules[modname]
    out = []
    for fn in ast.walk(m.tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for c in strings(fn):
            if 'CREATE' not in c.value.upper() or 'TABLE' not in c.value.upper():
                continue
            for stmt in split_statements(c.value):
                toks = tokenize(stmt)
                ups = [t.up for t in toks[:3]]
                if ups[:2] == ['CREATE', 'TABLE']:
                    t = table_of(stmt, f'{m.relpath}:{c.lineno}', fn.name)
                    if t is not None:
                        out.append(t)
    return out


LABEL_TABLES = ('label_index', 'label_location', 'label_structure')


class Schema:
    def __init__(self, proj):
        self.tables = {}
        for t in create_tables(proj, 'toron.dal1.schema'):
            if t.name not in self.tables:
                self.tables[t.name] = t
        if len(self.tables) < 8:
            raise AnalysisBroken(f'only {len(self.tables)} tables found in the schema')

    @staticmethod
    def field(c):
        if c is None:
            return False
        if c.pk and c.type == 'INTEGER':
            return 'int'        # a rowid
        return c.notnull

    def notnull(self, ev):
        """For a SELECT of one table: per column whether it cannot be NULL (the last entry holds for the rest)."""
        if ev.verb != 'SELECT' or len(ev.reads) != 1 or not ev.cols:
            return None
        t = self.tables.get(ev.reads[0])
        if t is None:
            return None
        if ev.cols == ['*']:
            r = [self.field(c) for c in t.cols]
            return tuple(r + [t.name in LABEL_TABLES])
        if '*' in ev.cols:
            return None
        r = []
        for c in ev.cols:
            col = t.col(c.split('.')[-1].strip())
            r.append(self.field(col))
        return tuple(r + [False])
