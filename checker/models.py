"""Models of built-ins and library functions for the abstract interpreter."""
import ast

from .sqlmini import parse, split_statements, template
from .values import (C, U, S, Tup, Ref, Fn, Cls, Mod, Ext, GenV, ItV, ExcV, Obj, V,
                     NONE, TRUE, FALSE, EMPTY, tags_of)

GENERIC_EXC = frozenset(['ValueError', 'TypeError', 'KeyError', 'IndexError', 'AttributeError', 'OverflowError',
                         'UnicodeEncodeError', 'UnicodeDecodeError', 'OSError', 'FileNotFoundError',
                         'JSONDecodeError', 'ZeroDivisionError', 'BrokenPipeError', 'ImportError'])

EXT_CONST = {
    'os.name': C('posix'),
    'os.sep': C('/'),
    'sys.platform': C('linux'),
    'sqlite3.sqlite_version_info': U(tags=['sqlite_version']),
    'sqlite3.sqlite_version': U(kind='str'),
    'sys.version_info': U(tags=['py_version']),
    'math.inf': C(float('inf')),
    'os.W_OK': C(2), 'os.R_OK': C(4), 'os.X_OK': C(1), 'os.F_OK': C(0),
    'os.O_RDONLY': C(0), 'os.O_RDWR': C(2), 'os.O_WRONLY': C(1),
    'typing.TYPE_CHECKING': FALSE,
    'sqlite3.PARSE_DECLTYPES': C(1),
    'os.environ': U(),
    'sys.argv': U(), 'sys.stdin': U(), 'sys.stdout': U(), 'sys.stderr': U(),
}

LISTS = ('list', 'set', 'tuple')


# pure value classes whose contents no rule looks into
OPAQUE = {('toron._utils', 'BitFlags')}


class Monitor:
    """Base monitor: observes, never interferes."""
    want_q = False
    escapes = False  # doubling quotes removes other tags
    single = None   # a tag that only one item can have
    prop = '?'

    relate_loops = False    # keep track of which collections turned out empty
    mark_order = False      # note slicing, sorting and reversing in the tags of elements

    tag_ifexp = False       # constants chosen by a condition carry the tags of the condition

    def __init__(self, eng=None):
        self.eng = eng

    def initial(self):
        return ()

    def on_unbound(self, e, st, act):
        pass

    def lazy_tags(self, o, name):
        return EMPTY

    def on_compare(self, e, op, a, b, r, st, act):
        return None

    def watches(self, name):
        return False

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        return None

    fault_names = ('?BaseException',)
    fault_integrity = False

    def may_fault(self, name, node, act, st):
        return True

    def on_fault(self, exc, name, st, node, act):
        pass

    def intercept(self, fn, args, kw, st, act, node, rs):
        return None

    def intercept_class(self, ci, args, kw, st, act, node, rs):
        return None

    def on_enter(self, fi, act, st):
        pass

    def on_lazy(self, ref, st, act, node):
        pass

    def loop_begin(self, elem, node, st, act, src):
        return None

    def iter_begin(self, tok, st):
        pass

    def iter_end(self, tok, st):
        pass

    def loop_end(self, tok, st, kind):
        pass

    def cursor_rows(self, ev, st):
        return None     # or the exact rows of the query

    def iter_rows(self, ref, o, st, act, node):
        pass

    def on_setattr(self, ref, o, name, v, st, act, node):
        pass

    def on_branch(self, s, b, st, act):
        pass

    def on_handler(self, h, e, st, act):
        pass

    def for_begin(self, s, v, st, act):
        pass

    def for_end(self, s, st, act):
        pass

    def with_unknown(self, v, st, act, node):
        pass

    def on_sql(self, ev, cur, st, act, node, rs):
        return None

    def after_sql(self, ev, cur, st, act, node):
        pass

    def row_tags(self, ev):
        return EMPTY

    def fetch_cases(self, ev, how, st):
        """[(value, fn(st))] to split the outcome of a fetch by, or None"""
        return None

    def never_empty(self, ev):
        """Does this query return at least one row (the undefined record)?"""
        return ev is not None and ev.verb == 'SELECT' and ev.reads == ['label_index'] and not ev.wheretext \
            and not any(t.up in ('LIMIT', 'GROUP', 'HAVING', 'WHERE', 'EXCEPT', 'JOIN') for t in ev.toks)

    def on_collect(self, v, st):
        """*v* was appended to a list, set or tuple."""

    def on_atom(self, e, v, b, st, act):
        """A condition without and, or, not turned out to be *b*."""

    def absorbed(self, v, st):
        """Tags for a list whose item *v* is merged with the others."""
        return EMPTY

    def on_subscript(self, base, key, result, st):
        return result

    def on_conn(self, what, ref, args, st, act, node):
        pass


class NullMonitor(Monitor):
    pass


FAULTY = ('sqlite3.', 'os.', 'conn.', 'cursor.', 'tempfile.', 'shutil.', 'open', 'builtins.open')
SAFE = ('os.path.', 'os.fspath', 'os.fsdecode', 'os.getpid', 'os.umask', 'os.fsencode')


def may_raise(name):
    if name.startswith(SAFE):
        return False
    return name.startswith(FAULTY)


# ------------------------------------------------------------ isinstance
def type_names(t, st, eng):
    if isinstance(t, Tup):
        out = set()
        for x in t.items:
            n = type_names(x, st, eng)
            if n is None:
                return None
            out |= n
        return out
    if isinstance(t, C) and isinstance(t.v, tuple):
        return None
    if isinstance(t, Ext):
        return {t.name.split('.')[-1]}
    if isinstance(t, Cls):
        return {t.ci.name}
    return None


GROUPS = {
    'str': {'str', 'Sequence', 'Iterable', 'Collection', 'Hashable', 'Container', 'Sized', 'Reversible'},
    'int': {'int', 'Number', 'Integral', 'Real', 'Hashable'},
    'count': {'int', 'Number', 'Integral', 'Real', 'Hashable'},
    'bool': {'bool', 'int', 'Number', 'Integral', 'Real', 'Hashable'},
    'float': {'float', 'Number', 'Real', 'Hashable'},
    'bytes': {'bytes', 'Sequence', 'Iterable', 'Collection', 'Hashable'},
    'list': {'list', 'Sequence', 'MutableSequence', 'Iterable', 'Collection', 'Sized', 'Container'},
    'tuple': {'tuple', 'Sequence', 'Iterable', 'Collection', 'Hashable', 'Sized', 'Container'},
    'set': {'set', 'Set', 'MutableSet', 'Iterable', 'Collection', 'Sized', 'Container'},
    'dict': {'dict', 'Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized', 'Container'},
    'counter': {'Counter', 'dict', 'Mapping', 'MutableMapping', 'Iterable', 'Collection'},
}
BUILTIN_TYPES = {'str', 'int', 'float', 'bytes', 'list', 'tuple', 'set', 'dict', 'bool', 'Mapping', 'Sequence',
                 'Set', 'Counter', 'Number'}


def isinstance_(eng, v, t, st):
    names = type_names(t, st, eng)
    if names is None:
        return None
    from .interp import kind_of
    k = kind_of(v)
    if isinstance(v, C) and v.v is None:
        return 'NoneType' in names
    if isinstance(v, Tup):
        k = 'tuple'
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is None:
            return None
        if o.kind == 'inst' and o.cls is not None:
            cl, ext = eng.proj.mro(o.cls)
            have = {c.name for c in cl} | {e.split('.')[-1] for e in ext}
            if names & have:
                return True
            if eng.proj.find_method(o.cls, '__iter__') and names & {'Iterable'}:
                return True
            if eng.proj.find_method(o.cls, '__next__') and names & {'Iterator'}:
                return True
            if ext and any(e not in ('object', 'abc.ABC') and not e.startswith('typing') for e in ext):
                return None
            return False
        if o.kind in ('cursor', 'conn', 'ext'):
            return None
        k = o.kind
    if isinstance(v, GenV):
        return bool(names & {'Iterator', 'Iterable', 'Generator'})
    if isinstance(v, ItV):
        return bool(names & {'Iterator', 'Iterable'})
    if isinstance(v, (Fn,)):
        return bool(names & {'Callable'}) or (False if names <= BUILTIN_TYPES else None)
    if isinstance(v, Cls):
        return bool(names & {'type', 'Callable'}) or (False if names <= BUILTIN_TYPES else None)
    if isinstance(v, ExcV):
        m = eng.match(v, list(names))
        return m
    if k in GROUPS:
        if names & GROUPS[k]:
            return True
        if names <= BUILTIN_TYPES | {'NoneType', 'Iterator', 'Generator', 'Callable', 'Iterable', 'Sequence', 'Mapping',
                                      'Sized', 'Container', 'Collection', 'MutableSequence', 'MutableMapping', 'Set'}:
            return False
        if isinstance(v, U):
            return None
        return False
    if isinstance(v, U):
        if names and all(('type', n) in v.excl for n in names):
            return False
        if isinstance(v.sym, tuple) and v.sym and v.sym[0] == 'super':
            return None
    return None


def b_isinstance(eng, fv, args, kw, st, act, rs, node):
    if len(args) != 2 or any(isinstance(a, tuple) for a in args):
        return [(U(), st)]
    r = isinstance_(eng, args[0], args[1], st)
    return [(C(r) if r is not None else U(kind='bool'), st)]


def b_issubclass(eng, fv, args, kw, st, act, rs, node):
    if len(args) == 2 and isinstance(args[0], Cls):
        names = type_names(args[1], st, eng)
        if names:
            cl, ext = eng.proj.mro(args[0].ci)
            have = {c.name for c in cl} | {e.split('.')[-1] for e in ext}
            if names & have:
                return [(TRUE, st)]
    return [(U(kind='bool'), st)]


# ---------------------------------------------------------------- helpers
def arg(args, kw, i, name, default=None):
    if i < len(args):
        a = args[i]
        if isinstance(a, tuple):
            return a[1]
        return a
    return kw.get(name, default)


def atags(eng, args, kw, st):
    t = EMPTY
    for a in args:
        t = t | eng.tags(a[1] if isinstance(a, tuple) else a, st)
    for v in kw.values():
        t = t | eng.tags(v, st)
    return t


def unknown(kind=None, notnone=False):
    def f(eng, fv, args, kw, st, act, rs, node):
        eng.lex_raise(GENERIC_EXC, st, act, rs, node)
        t = atags(eng, args, kw, st)
        if fv.self_ is not None:
            t = t | eng.tags(fv.self_, st)
        return [(U(t, kind=kind, notnone=notnone), st)]
    return f


def const(v):
    def f(eng, fv, args, kw, st, act, rs, node):
        return [(v, st)]
    return f


def alloc_ext(eng, fv, args, kw, st, act, rs, node):
    t = atags(eng, args, kw, st)
    if eng.fault and may_raise(fv.name):
        eng.fault_raise(st, act, rs, node, fv.name)
    return [(eng.alloc(st, act, node, Obj('ext', None, {}, t | {'ext:' + fv.name}), 'ext'), st)]


def fold(f):
    """Constant-fold a pure function when every argument is constant."""
    def g(eng, fv, args, kw, st, act, rs, node):
        a = ([fv.self_] if fv.self_ is not None else []) + list(args)
        if not kw and all(isinstance(x, C) for x in a):
            try:
                return [(C(f(*[x.v for x in a])), st)]
            except Exception as e:
                rs.append((ExcV(type(e).__name__, None, eng.where(node, act)), st))
                return []
        return None
    return g


# --------------------------------------------------------------- builtins
def b_len(eng, fv, args, kw, st, act, rs, node):
    v = arg(args, kw, 0, 'obj')
    if isinstance(v, Tup):
        return [(C(len(v.items)), st)]
    if isinstance(v, C):
        try:
            return [(C(len(v.v)), st)]
        except TypeError:
            return [(U(kind='int'), st)]
    from .interp import truth
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is not None and o.kind in LISTS and 'exact' in o.attrs:
            return [(C(len(o.attrs['exact'].items)), st)]
        if o is not None and o.kind in ('dict', 'counter') and o.attrs.get('rest') is None:
            return [(C(sum(1 for k in o.attrs if isinstance(k, tuple))), st)]
        if o is not None and o.kind == 'inst' and o.cls is not None:
            fi = eng.proj.find_method(o.cls, '__len__')
            if fi is not None:
                return eng.call_fn(Fn(fi, v), [], {}, st, act, rs, node)
    t = truth(v, st, eng)
    if t is False:
        return [(C(0), st)]
    return [(U(eng.tags(v, st), truth=t, kind='count', sym=('len',)), st)]


def b_tuple(eng, fv, args, kw, st, act, rs, node):
    if not args:
        return [(Tup(()), st)]
    v = arg(args, kw, 0, 'iterable')
    if isinstance(v, Tup):
        return [(v, st)]
    if isinstance(v, U) and v.kind == 'row':
        return [(v, st)]
    out = []
    for r, s in eng.to_list(v, st, act, rs, node, 'tuple'):
        o = eng.hget(s, r)
        if 'exact' in o.attrs and not o.tags:
            out.append((o.attrs['exact'], s))
        else:
            out.append((r, s))
    return out


def mk_array(eng, fv, args, kw, st, act, rs, node):
    return mk_list('list')(eng, fv, list(args[1:]), kw, st, act, rs, node)


def mk_list(kind):
    def f(eng, fv, args, kw, st, act, rs, node):
        if not args:
            return [(eng.newlist(st, act, node, items=(), kind=kind), st)]
        v = arg(args, kw, 0, 'iterable')
        if isinstance(v, C) and isinstance(v.v, str):
            return [(eng.newlist(st, act, node, items=[C(x) for x in v.v], kind=kind), st)]
        out = []
        for r, s in eng.to_list(v, st, act, rs, node, kind):
            if kind == 'list' and isinstance(v, Ref):
                o = eng.hget(s, r)
            if kind == 'set':
                o = eng.hget(s, r)
                if o.kind != 'set':
                    s.heap[r.id] = Obj('set', o.cls, dict(o.attrs), o.tags)
            out.append((r, s))
        return out
    return f


def b_sorted(eng, fv, args, kw, st, act, rs, node):
    v = arg(args, kw, 0, 'iterable')
    out = []
    for r, s in eng.to_list(v, st, act, rs, node, 'list'):
        o = eng.hget(s, r)
        if o.kind != 'list' or 'exact' in o.attrs:
            a = dict(o.attrs)
            if 'exact' in a:
                items = a['exact'].items
                try:
                    if all(isinstance(x, C) for x in items) and not kw:
                        a['exact'] = Tup(sorted(items, key=lambda c: c.v))
                    elif eng.monitor.mark_order:
                        a['exact'] = Tup(tuple(mark(x, 'sorted') for x in items))
                except TypeError:
                    pass
            o = Obj('list', None, a, o.tags)
        t = frozenset(['sorted']) if not kw or set(kw) <= {'key'} else EMPTY
        e = o.attrs.get('elem')
        s.heap[r.id] = mark_sorted(o, t)
        out.append((r, s))
    return out


def mark(v, tag):
    if isinstance(v, U):
        return v.with_(tags=v.tags | {tag})
    if isinstance(v, S):
        return S(tuple(mark(p, tag) if isinstance(p, V) else p for p in v.parts))
    return v


def mark_sorted(o, t):
    a = dict(o.attrs)
    if t and isinstance(a.get('elem'), S):
        a['elem'] = mark(a['elem'], 'sorted')
    if t and isinstance(a.get('elem'), U):
        a['elem'] = U(a['elem'].tags | t, a['elem'].truth, a['elem'].notnone, a['elem'].sym, a['elem'].excl,
                      a['elem'].kind)
    return Obj(o.kind, o.cls, a, o.tags)


def b_dict(eng, fv, args, kw, st, act, rs, node):
    base = Obj('dict', None, {('k', k): v for k, v in kw.items() if k != '**'})
    if '**' in kw:
        base = base.setitems({'rest': kw['**']})
    if not args:
        return [(eng.alloc(st, act, node, base, 'dict'), st)]
    v = arg(args, kw, 0, 'mapping')
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is not None and o.kind in ('dict', 'counter'):
            b = Obj('dict', None, {k: x for k, x in o.attrs.items() if k != 'default'}, o.tags)
            b = b.setitems(base.attrs)
            return [(eng.alloc(st, act, node, b, 'dict'), st)]
    if isinstance(v, (GenV, ItV, Tup)) or isinstance(v, Ref):
        return eng.to_dict(v, st, act, rs, node, base)
    t = eng.tags(v, st)
    b = base.setitems({'rest': U(t)})
    return [(eng.alloc(st, act, node, b.addtags(t), 'dict'), st)]


def used_once(fi, name):
    """The local *name* is read at one place only, which is not inside a loop over it (so nothing more is taken
    from an iterator bound to it)."""
    n = sum(1 for x in ast.walk(fi.node) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load))
    if n != 1:
        return False
    # the binding must be as often executed as the use: both in the same block
    for b in ast.walk(fi.node):
        for f in ('body', 'orelse', 'finalbody'):
            blk = getattr(b, f, None)
            if not isinstance(blk, list):
                continue
            bound = [i for i, x in enumerate(blk) if isinstance(x, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name for t in x.targets)]
            if bound and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load)
                             for x in blk[bound[-1] + 1:] if not isinstance(x, (ast.For, ast.While))
                             for y in ast.walk(x)):
                return True
    return False


def b_next(eng, fv, args, kw, st, act, rs, node):
    v = arg(args, kw, 0, 'iterator')
    default = args[1] if len(args) > 1 else None
    held = bool(getattr(node, 'args', None)) and isinstance(node.args[0], (ast.Name, ast.Attribute))
    if held and isinstance(node.args[0], ast.Name) and used_once(act.fi, node.args[0].id):
        held = False
    if isinstance(v, (GenV, ItV)) and not held:
        token = ('next', id(node), act.fid)

        def on(x, s):
            s.pend = s.pend + ((token, 'v', x),)
            return [('close', None, s)]
        out = []
        rs2 = []
        for kind, s in eng.iterate(v, st, act, rs2, on, node):
            if kind == 'closed' and s.pend and s.pend[-1][0] == token:
                x = s.pend[-1][2]
                s.pend = s.pend[:-1]
                out.append((x, s))
            elif kind == 'done':
                if default is not None:
                    out.append((default, s))
                else:
                    rs.append((ExcV('StopIteration', None, eng.where(node, act)), s))
        for e, s in rs2:
            if s.pend and s.pend[-1][0] == token:
                s.pend = s.pend[:-1]
            rs.append((e, s))
        return out
    if isinstance(v, (GenV, ItV)):
        # the iterator lives on: look at its first element on a copy
        eng.mute += 1
        saved = eng.monitor
        vals = []
        try:
            s2 = st.fork()
            token = ('peek', id(node), act.fid)

            def on2(x, s):
                vals.append((x, s))
                s.pend = s.pend + ((token, 'v', x),)
                return [('close', None, s)]
            eng.monitor = NullMonitor(eng)
            eng.monitor.row_tags = saved.row_tags
            eng.iterate(v, s2, act, [], on2, node)
        finally:
            eng.mute -= 1
            eng.monitor = saved
        r = U()
        if vals:
            good = [x for x, s in vals if isinstance(x, (C, U, S)) or
                    (isinstance(x, Tup) and all(isinstance(y, (C, U, S)) for y in x.items))]
            if len(good) == len(vals):
                r = eng.joinall(good)
            else:
                t = EMPTY
                for x, s in vals:
                    t = t | eng.tags(x, s)
                r = U(t)
        out = [(r, st)]
        if default is not None:
            out.append((default, st.fork()))
        else:
            rs.append((ExcV('StopIteration', None, eng.where(node, act)), st.fork()))
        return out
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is not None and o.kind == 'inst' and o.cls is not None:
            nx = eng.proj.find_method(o.cls, '__next__')
            if nx is not None:
                rs2 = []
                out = eng.call_fn(Fn(nx, v), [], {}, st, act, rs2, node)
                for e, s in rs2:
                    if e.name == 'StopIteration' and default is not None:
                        out.append((default, s))
                    else:
                        rs.append((e, s))
                return out
        if o is not None and o.kind == 'cursor':
            row = row_value(eng, v, o, st)
            out = [(row, st)]
            s2 = st.fork()
            if default is not None:
                out.append((default, s2))
            else:
                rs.append((ExcV('StopIteration', None, eng.where(node, act)), s2))
            return out
    if isinstance(v, C) and v.v is None:
        rs.append((ExcV('TypeError', None, eng.where(node, act)), st))
        return []
    out = [(elem_of(eng, v, st), st)]
    if default is not None:
        out.append((default, st.fork()))
    else:
        rs.append((ExcV('StopIteration', None, eng.where(node, act)), st.fork()))
    return out


def elem_of(eng, v, st):
    from .interp import elem_u, list_elem
    if isinstance(v, U):
        if v.sym and v.sym[0] == 'rep':
            return C(v.sym[1])
        return elem_u(v)
    if isinstance(v, Tup):
        return eng.joinall(v.items) if v.items else U()
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is not None and o.kind in LISTS:
            e, _ = list_elem(o)
            return e if e is not None else U(o.tags)
    if isinstance(v, C) and isinstance(v.v, str) and v.v:
        return C(v.v[0]) if len(set(v.v)) == 1 else U(kind='str')
    return U(eng.tags(v, st))


def quant(isany):
    def f(eng, fv, args, kw, st, act, rs, node):
        v = arg(args, kw, 0, 'iterable')
        token = ('quant', id(node), act.fid)

        def on(x, s):
            res = []
            for b, _, s2 in eng.split(x, s, None, act):
                if b == isany:
                    s2.pend = s2.pend + ((token, 'v', None),)
                    res.append(('close', None, s2))
                else:
                    res.append(('resume', NONE, s2))
            return res
        out = []
        rs2 = []
        for kind, s in eng.iterate(v, st, act, rs2, on, node):
            if kind == 'closed' and s.pend and s.pend[-1][0] == token:
                s.pend = s.pend[:-1]
                out.append((C(isany), s))
            elif kind == 'done':
                out.append((C(not isany), s))
        for e, s in rs2:
            if s.pend and s.pend[-1][0] == token:
                s.pend = s.pend[:-1]
            rs.append((e, s))
        t = [x for x in out if x[0].v]
        n = [x for x in out if not x[0].v]
        return [(C(True), s) for s in eng.reduce([s for _, s in t])] + \
               [(C(False), s) for s in eng.reduce([s for _, s in n])]
    return f


def b_consume(kind=None, first=False):
    """sum/min/max: consume, result carries provenance of the elements."""
    def f(eng, fv, args, kw, st, act, rs, node):
        if len(args) > 1 and not first:
            return [(U(atags(eng, args, kw, st), kind=kind), st)]
        v = arg(args, kw, 0, 'iterable')
        out = []
        for r, s in eng.to_list(v, st, act, rs, node, 'list', 'agg'):
            t = eng.tags(r, s) | atags(eng, args[1:], kw, s)
            o = eng.hget(s, r)
            s.heap.pop(r.id, None)
            out.append((U(t, kind=kind), s))
        eng.lex_raise(('ValueError',), st, act, rs, node)
        return out
    return f


def b_bool(eng, fv, args, kw, st, act, rs, node):
    if not args:
        return [(FALSE, st)]
    out = []
    v = args[0]
    expr = node.args[0] if isinstance(node, ast.Call) and node.args else None
    from .interp import truth
    t = truth(v, st, eng)
    if t is not None:
        return [(C(t), st)]
    return [(U(eng.tags(v, st), kind='bool'), st)]


def conv(kind, py):
    def f(eng, fv, args, kw, st, act, rs, node):
        if not args:
            return [(C(py()), st)]
        v = arg(args, kw, 0, 'x')
        if isinstance(v, C) and not kw and len(args) == 1:
            try:
                return [(C(py(v.v)), st)]
            except Exception as e:
                rs.append((ExcV(type(e).__name__, None, eng.where(node, act)), st))
                return []
        eng.lex_raise(('ValueError', 'TypeError', 'OverflowError'), st, act, rs, node)
        t = eng.tags(v, st)
        tr = v.truth if isinstance(v, U) and v.kind in ('int', 'count', 'float') else None
        return [(U(t, truth=tr, kind=kind), st)]
    return f


def b_str(eng, fv, args, kw, st, act, rs, node):
    if not args:
        return [(C(''), st)]
    v = args[0]
    if isinstance(v, tuple):
        v = v[1]
    if isinstance(v, C):
        return [(C(str(v.v)), st)]
    if isinstance(v, S) or (isinstance(v, U) and v.kind == 'str'):
        return [(v, st)]
    if isinstance(v, ExcV):
        return [(U(eng.tags(v.msg, st) if isinstance(v.msg, V) else EMPTY, kind='str'), st)]
    return [(U(eng.tags(v, st), kind='str'), st)]


def b_repr(eng, fv, args, kw, st, act, rs, node):
    return [(U(atags(eng, args, kw, st) | {'repr'}, kind='str'), st)]


def b_range(eng, fv, args, kw, st, act, rs, node):
    if all(isinstance(a, C) and isinstance(a.v, int) for a in args) and args:
        r = range(*[a.v for a in args])
        if len(r) <= 12:
            return [(Tup([C(i) for i in r]), st)]
    pos = len(args) == 1 and isinstance(args[0], U) and eng.sign(args[0]) == 2
    sym = ('to_len',) if pos and args[0].sym == ('len+1',) else None
    return [(eng.newlist(st, act, node, elem=U(atags(eng, args, kw, st), kind='int', sym=sym), ne=pos), st)]


def b_iter(eng, fv, args, kw, st, act, rs, node):
    v = arg(args, kw, 0, 'it')
    if len(args) == 2:
        return [(ItV('calliter', args), st)]
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is not None and o.kind == 'inst' and o.cls is not None:
            it = eng.proj.find_method(o.cls, '__iter__')
            if it is not None:
                return eng.call_fn(Fn(it, v), [], {}, st, act, rs, node)
    return [(v, st)]


def lazy(op):
    def f(eng, fv, args, kw, st, act, rs, node):
        a = [ItV('star', (x[1],)) if isinstance(x, tuple) else x for x in args]
        return [(ItV(op, a + [Tup((C(k), v)) for k, v in sorted(kw.items())]), st)]
    return f


def b_getattr(eng, fv, args, kw, st, act, rs, node):
    if len(args) >= 2 and isinstance(args[1], C) and isinstance(args[1].v, str):
        rs2 = []
        r = eng.getattr(args[0], args[1].v, st, act, rs2, node)
        if r:
            return r
    return [(U(atags(eng, args, kw, st)), st)]


def b_hasattr(eng, fv, args, kw, st, act, rs, node):
    v = args[0] if args else None
    if isinstance(v, Ref) and isinstance(args[1], C):
        o = eng.hget(st, v)
        if o is not None and o.kind == 'inst' and o.cls is not None and '*lazy' not in o.attrs:
            if args[1].v in o.attrs or eng.proj.find_method(o.cls, args[1].v) or \
                    eng.proj.find_class_attr(o.cls, args[1].v):
                return [(TRUE, st)]
        if o is not None and o.kind in LISTS + ('dict', 'counter'):
            return [(C(hasattr({'list': list, 'set': set, 'tuple': tuple}.get(o.kind, dict), args[1].v)), st)]
    return [(U(kind='bool'), st)]


def b_type(eng, fv, args, kw, st, act, rs, node):
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Ref):
            o = eng.hget(st, v)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                return [(Cls(o.cls), st)]
    return [(U(), st)]


def b_open(eng, fv, args, kw, st, act, rs, node):
    if eng.fault:
        eng.fault_raise(st, act, rs, node, 'builtins.open')
    eng.lex_raise(GENERIC_EXC, st, act, rs, node)
    return [(eng.alloc(st, act, node, Obj('ext', None, {}, atags(eng, args, kw, st) | {'ext:open'}), 'ext'), st)]


# ------------------------------------------------------------ lazy iterators
def iter_it(eng, v, st, act, rs, handler, node):
    op, a = v.op, [x for x in v.args if isinstance(x, V)]
    if op == 'reversed':
        o = eng.hget(st, a[0]) if isinstance(a[0], Ref) else None
        x = a[0] if isinstance(a[0], Tup) else (o.attrs.get('exact') if o is not None else None)
        if isinstance(x, Tup):
            return eng.iterate(Tup(tuple(reversed(x.items))), st, act, rs, handler, node)
        if eng.monitor.mark_order:
            return eng.iterate(a[0], st, act, rs,
                               lambda v, s: handler(mark(v, 'reversed'), s), node)
    if op in ('reversed', 'copy', 'iter', 'star'):
        return eng.iterate(a[0], st, act, rs, handler, node)
    if op == 'enumerate':
        return eng.iterate(a[0], st, act, rs, lambda x, s: handler(Tup((U(kind='int'), x)), s), node)
    if op in ('islice', 'compress_', 'takewhile', 'dropwhile', 'tee'):
        def may(x, s):
            # an islice may stop early: treat the end of input as possible anyway
            return handler(x, s)
        return eng.iterate(a[0], st, act, rs, may, node)
    if op == 'compress':
        def sel(x, s):
            s2 = s.fork()
            return handler(x, s) + [('resume', NONE, s2)]
        return eng.iterate(a[0], st, act, rs, sel, node)
    if op == 'filter':
        def flt(x, s):
            out = []
            if isinstance(a[0], C):
                for b, x2, s2 in eng.split(x, s, None, act):
                    out += handler(x2, s2) if b else [('resume', NONE, s2)]
                return out
            rs2 = []
            for r, s2 in eng.call(a[0], [x], {}, s, act, rs2, node):
                for b, _, s3 in eng.split(r, s2, None, act):
                    out += handler(x, s3) if b else [('resume', NONE, s3)]
            out += [('throw', e, s2) for e, s2 in rs2]
            return out
        return eng.iterate(a[1], st, act, rs, flt, node)
    if op == 'map':
        def mp(x, s):
            out = []
            rs2 = []
            for r, s2 in eng.call(a[0], [x], {}, s, act, rs2, node):
                out += handler(r, s2)
            # an exception inside the mapped function ends the iteration
            for e, s2 in rs2:
                out.append(('throw', e, s2))
            return out
        src = a[1]
        if len(a) > 2:
            src = ItV('zip', a[1:])

            def mp(x, s, mp0=mp):
                out = []
                rs2 = []
                items = list(x.items) if isinstance(x, Tup) else [x]
                for r, s2 in eng.call(a[0], items, {}, s, act, rs2, node):
                    out += handler(r, s2)
                return out + [('throw', e, s2) for e, s2 in rs2]
        return eng.iterate(src, st, act, rs, mp, node)
    if op == 'starmap':
        def sm(x, s):
            out, rs2 = [], []
            items = list(x.items) if isinstance(x, Tup) else [('*', elem_of(eng, x, s), False)]
            for r, s2 in eng.call(a[0], items, {}, s, act, rs2, node):
                out += handler(r, s2)
            return out + [('throw', e, s2) for e, s2 in rs2]
        return eng.iterate(a[1], st, act, rs, sm, node)
    if op == 'chain':
        cur = [st]
        out = []
        for x in a:
            if isinstance(x, ItV) and x.op == 'star':
                x = ItV('from_iterable', x.args) if False else x.args[0]
                nxt = []
                for s in cur:
                    for k, s2 in eng.iterate(x, s, act, rs, handler, node):
                        if k == 'done':
                            nxt.append(s2)
                        else:
                            out.append((k, s2))
                cur = nxt
                continue
            nxt = []
            for s in cur:
                for k, s2 in eng.iterate(x, s, act, rs, handler, node):
                    if k == 'done':
                        nxt.append(s2)
                    else:
                        out.append((k, s2))
            cur = nxt
        return [('done', s) for s in cur] + out
    if op == 'from_iterable':
        token = ('fi', id(node), act.fid)

        def outer(x, s):
            res = []
            rs2 = []
            for k, s2 in eng.iterate(x, s, act, rs2, handler, node):
                if k == 'done':
                    res.append(('resume', NONE, s2))
                else:
                    res.append(('close', None, s2))
            res += [('throw', e, s2) for e, s2 in rs2]
            return res
        return eng.iterate(a[0], st, act, rs, outer, node)
    if op in ('zip', 'zip_longest'):
        a = [x for x in a if not (isinstance(x, Tup) and len(x.items) == 2 and isinstance(x.items[0], C)
                                  and x.items[0].v in ('fillvalue', 'strict'))]
        exact = [eng.seq_of(x, st) if not isinstance(x, U) else None for x in a]
        if a and all(q is not None and q[0] is not None for q in exact):
            n = min(len(q[0]) for q in exact)
            items = [Tup([q[0][i] for q in exact]) for i in range(n)]
            return eng.iter_exact(items, st, act, rs, handler)
        # iterate the first effectful one, the others contribute an element
        main = next((i for i, x in enumerate(a) if isinstance(x, (GenV, ItV)) or
                     (isinstance(x, Ref) and (eng.hget(st, x) or Obj('', None)).kind in ('cursor', 'inst'))), None)
        others = [i for i, x in enumerate(a) if i != main and isinstance(x, (GenV, ItV))]
        if main is None:
            items = Tup([elem_of(eng, x, st) for x in a])
            return eng.iter_unknown(items, st, act, rs, handler, node)

        def zp(x, s):
            states = [([], s)]
            for i, y in enumerate(a):
                nxt = []
                for vals, s2 in states:
                    if i == main:
                        nxt.append((vals + [x], s2))
                    elif isinstance(y, (GenV, ItV)):
                        for v2, s3 in gen_elem(eng, y, s2, act, node):
                            nxt.append((vals + [v2], s3))
                    else:
                        nxt.append((vals + [elem_of(eng, y, s2)], s2))
                states = nxt
            out = []
            for vals, s2 in states:
                out += handler(Tup(vals), s2)
            return out
        return eng.iterate(a[main], st, act, rs, zp, node)
    if op == 'groupby':
        src = a[0]
        out = []

        def grp(x, s):
            rs2 = []
            keys = [(U(eng.tags(x, s)), s)]
            f = a[1] if len(a) > 1 else None
            if isinstance(f, Tup):
                f = f.items[1]
            if f is not None and not isinstance(f, C):
                keys = eng.call(f, [x], {}, s, act, rs2, node)
            res = []
            for k, s2 in keys:
                if eng.monitor.single and eng.monitor.single in eng.tags(x, s2):   # (there is one such item)
                    g = Tup((x,))
                else:
                    g = eng.newlist(s2, act, node, elem=x, ne=True, kind='tuple', extra='grp')
                res += handler(Tup((k, g)), s2)
            return res + [('throw', e, s2) for e, s2 in rs2]
        return eng.iterate(src, st, act, rs, grp, node)
    if op == 'repeat':
        if len(a) > 1 and isinstance(a[1], C) and isinstance(a[1].v, int) and a[1].v < 12:
            return eng.iter_exact([a[0]] * a[1].v, st, act, rs, handler)
        return eng.iter_unknown(a[0], st, act, rs, handler, node)
    if op in ('combinations', 'permutations', 'combinations_with_replacement'):
        e = elem_of(eng, a[0], st) if not isinstance(a[0], (GenV, ItV)) else U()
        n = a[1].v if len(a) > 1 and isinstance(a[1], C) and isinstance(a[1].v, int) else None
        if n == 0:
            return eng.iter_exact([Tup(())], st, act, rs, handler)
        el = Tup([e] * n) if n is not None and n < 5 else U(eng.tags(e, st))
        # 0 <= r <= len(items): there is at least one combination
        ne = len(a) > 1 and isinstance(a[1], U) and a[1].sym == ('to_len',)
        return eng.iter_unknown(el, st, act, rs, handler, node, ne)
    if op == 'product':
        el = Tup([elem_of(eng, x, st) if not isinstance(x, (GenV, ItV)) else U() for x in a])
        return eng.iter_unknown(el, st, act, rs, handler, node)
    if op == 'items':
        return eng.iter_unknown(Tup((U(eng.tags(a[0], st)), elem_of(eng, a[0], st))), st, act, rs, handler, node)
    t = EMPTY
    for x in a:
        t = t | eng.tags(x, st)
    return eng.iter_unknown(U(t), st, act, rs, handler, node)


def gen_elem(eng, g, st, act, node):
    """One element of a secondary iterator (its effects are followed once)."""
    token = ('ge', id(node), act.fid, id(g))
    out = []

    def on(x, s):
        s.pend = s.pend + ((token, 'v', x),)
        return [('close', None, s)]
    for k, s in eng.iterate(g, st, act, [], on, node):
        if k == 'closed' and s.pend and s.pend[-1][0] == token:
            x = s.pend[-1][2]
            s.pend = s.pend[:-1]
            out.append((x, s))
    return out or [(U(), st)]


# -------------------------------------------------------------------- str
def s_join(eng, fv, args, kw, st, act, rs, node):
    sep = fv.self_
    v = arg(args, kw, 0, 'iterable')
    if isinstance(v, U) and v.sym and v.sym[0] == 'rep' and isinstance(sep, C):
        return [(C(sep.v.join([v.sym[1]] * 2)), st)]
    if isinstance(v, ItV) and v.op == 'repeat' and isinstance(v.args[0], C) and isinstance(sep, C):
        return [(C(sep.v.join([v.args[0].v] * 2)), st)]
    if isinstance(v, U):
        return [(eng.mkstr((U(v.tags, kind='str'),), st), st)]
    out = []
    for r, s in eng.to_list(v, st, act, rs, node, 'list', 'join'):
        o = eng.hget(s, r)
        parts = []
        if 'exact' in o.attrs:
            items = list(o.attrs['exact'].items)
        else:
            e = o.attrs.get('elem') or U(o.tags)
            items = [e, e]
            if isinstance(e, U) and e.sym and e.sym[0] == 'split' and isinstance(sep, C) and sep.v == e.sym[1] * 2:
                q = 'dq' if e.sym[1] == '"' else 'sq'
                s.heap.pop(r.id, None)
                out.append((U({q}, kind='str', sym=(q,)), s))
                continue
        for i, x in enumerate(items):
            if i:
                parts.append(sep)
            parts.append(x if not isinstance(x, (Ref, Tup)) else U(eng.tags(x, s), kind='str'))
        s.heap.pop(r.id, None)
        out.append((eng.mkstr(parts, s), s))
    return out


def s_format(eng, fv, args, kw, st, act, rs, node):
    return [(U(eng.tags(fv.self_, st) | atags(eng, args, kw, st) | {'fmt'}, kind='str'), st)]


def s_replace(eng, fv, args, kw, st, act, rs, node):
    v = fv.self_
    if isinstance(v, C) and all(isinstance(a, C) for a in args):
        try:
            return [(C(v.v.replace(*[a.v for a in args])), st)]
        except Exception:
            pass
    t = eng.tags(v, st) | atags(eng, args, kw, st)
    if len(args) >= 2 and isinstance(args[0], C) and isinstance(args[1], C):
        if eng.monitor.escapes and args[0].v + args[1].v in ('"""', "'''"):
            q = 'dq' if args[0].v == '"' else 'sq'
            return [(U({q}, kind='str', sym=(q,)), st)]
        if args[0].v == '"' and args[1].v == '""':
            return [(U(t | {'dq'}, kind='str'), st)]
        if args[0].v == "'" and args[1].v == "''":
            return [(U(t | {'sq'}, kind='str'), st)]
    return [(U(t, kind='str'), st)]


def s_split(eng, fv, args, kw, st, act, rs, node):
    v = fv.self_
    if isinstance(v, C) and all(isinstance(a, C) for a in args) and not kw:
        try:
            name = fv.name.rsplit('.', 1)[-1]
            return [(eng.newlist(st, act, node, items=[C(x) for x in getattr(v.v, name)(*[a.v for a in args])]), st)]
        except Exception:
            pass
    t = eng.tags(v, st)
    if eng.monitor.escapes and len(args) == 1 and isinstance(args[0], C) and args[0].v in ('"', "'") and fv.name.endswith('.split'):
        return [(eng.newlist(st, act, node, elem=U(t, kind='str', sym=('split', args[0].v)), ne=True), st)]
    return [(eng.newlist(st, act, node, elem=U(t, kind='str'), ne=True), st)]


def s_pure(name):
    def f(eng, fv, args, kw, st, act, rs, node):
        v = fv.self_
        if isinstance(v, C) and all(isinstance(a, C) for a in args) and not kw:
            try:
                return [(C(getattr(v.v, name)(*[a.v for a in args])), st)]
            except Exception as e:
                rs.append((ExcV(type(e).__name__, None, eng.where(node, act)), st))
                return []
        k = 'str' if name not in ('startswith', 'endswith', 'isdigit', 'isalnum', 'find', 'index', 'count', 'encode',
                                  'isidentifier', 'isdecimal', 'isnumeric', 'isspace', 'isalpha') else None
        if name == 'encode':
            k = 'bytes'
            eng.lex_raise(('UnicodeEncodeError',), st, act, rs, node)
        if name.startswith('is') or name in ('startswith', 'endswith'):
            k = 'bool'
        if name == 'index':
            eng.lex_raise(('ValueError',), st, act, rs, node)
        return [(U(eng.tags(v, st) | atags(eng, args, kw, st), kind=k), st)]
    return f


def int_to_bytes(eng, fv, args, kw, st, act, rs, node):
    v = fv.self_
    if isinstance(v, C) and all(isinstance(a, C) for a in list(args) + list(kw.values())):
        try:
            return [(C(v.v.to_bytes(*[a.v for a in args], **{k: a.v for k, a in kw.items()})), st)]
        except (OverflowError, TypeError, ValueError) as e:
            rs.append((ExcV(type(e).__name__, None, eng.where(node, act)), st))
            return []
    return [(U(eng.tags(v, st), kind='bytes'), st)]


def s_partition(eng, fv, args, kw, st, act, rs, node):
    v = fv.self_
    if isinstance(v, C) and all(isinstance(a, C) for a in args):
        return [(Tup([C(x) for x in getattr(v.v, fv.name.rsplit('.', 1)[-1])(args[0].v)]), st)]
    e = U(eng.tags(v, st), kind='str')
    return [(Tup((e, e, e)), st)]


# ------------------------------------------------------------- list / set
def list_append(eng, fv, args, kw, st, act, rs, node):
    eng.list_append(st, fv.self_, arg(args, kw, 0, 'x'))
    return [(NONE, st)]


def list_extend(eng, fv, args, kw, st, act, rs, node):
    ref = fv.self_
    outs = [st]
    for v in args:
        if isinstance(v, tuple):
            v = v[1]

        def on(x, s):
            eng.list_append(s, ref, x)
            return [('resume', NONE, s)]
        nxt = []
        for s in outs:
            if isinstance(v, U):
                from .interp import elem_u
                eng.list_append(s, ref, elem_u(v))
                o = eng.hget(s, ref)
                if 'ne' in o.attrs:
                    s.heap[ref.id] = o.setitems({'ne': False})
                nxt.append(s)
                continue
            nxt += [x for _, x in eng.iterate(v, s, act, rs, on, node)]
        outs = nxt
    return [(NONE, s) for s in outs]


def list_pop(eng, fv, args, kw, st, act, rs, node):
    from .interp import list_elem
    o = eng.hget(st, fv.self_)
    if 'exact' in o.attrs and o.kind == 'list':
        items = list(o.attrs['exact'].items)
        i = args[0].v if args and isinstance(args[0], C) else (-1 if not args else None)
        if not items:
            rs.append((ExcV('IndexError', None, eng.where(node, act)), st))
            return []
        if isinstance(i, int):
            try:
                x = items.pop(i)
            except IndexError:
                return []
            st.heap[fv.self_.id] = o.setitems({'exact': Tup(items)})
            return [(x, st)]
    e, _ = list_elem(o)
    st.heap[fv.self_.id] = Obj(o.kind, o.cls, {'elem': e if e is not None else U(), 'ne': False}, o.tags)
    return [(e if e is not None else U(o.tags), st)]


def list_insert(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    if 'exact' in o.attrs and isinstance(args[0], C) and isinstance(args[0].v, int):
        items = list(o.attrs['exact'].items)
        items.insert(args[0].v, args[1])
        st.heap[fv.self_.id] = o.setitems({'exact': Tup(items)})
    else:
        eng.list_append(st, fv.self_, args[1])
    return [(NONE, st)]


def list_remove(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    if 'exact' in o.attrs and args and isinstance(args[0], C):
        items = list(o.attrs['exact'].items)
        if args[0] in items:
            items.remove(args[0])
            st.heap[fv.self_.id] = o.setitems({'exact': Tup(items)})
            return [(NONE, st)]
    from .interp import list_elem
    e, _ = list_elem(o)
    eng.lex_raise(('ValueError', 'KeyError'), st, act, rs, node)
    if e is not None:
        st.heap[fv.self_.id] = Obj(o.kind, o.cls, {'elem': e, 'ne': False}, o.tags)
    return [(NONE, st)]


def set_op(name):
    def f(eng, fv, args, kw, st, act, rs, node):
        parts = []
        base = fv.self_
        if name in ('union', '__or__'):
            srcs = [base] + [a[1] if isinstance(a, tuple) else a for a in args]
        else:
            srcs = [base]
        outs = [(None, [], st)]
        t = atags(eng, args, kw, st) if name != 'difference' else eng.tags(base, st)
        for a in args:
            if isinstance(a, (GenV, ItV)):
                nx = []
                for r, s in eng.to_list(a, st, act, rs, node, 'list', 'so'):
                    st = s
        els = []
        for x in srcs:
            q = eng.seq_of(x, st)
            if q is not None:
                els += list(q[0] or ()) + ([q[1]] if q[1] is not None else [])
            else:
                els.append(U(eng.tags(x, st)))
        o = eng.hget(st, base) if isinstance(base, Ref) else None
        if name in ('union',) and all(isinstance(x, C) for x in els):
            items = []
            for x in els:
                if x not in items:
                    items.append(x)
            return [(eng.newlist(st, act, node, items=items, kind='set'), st)]
        e = eng.joinall(els) if els else None
        if e is None:
            return [(eng.newlist(st, act, node, items=(), kind='set'), st)]
        ne = name in ('union', '__or__') and any(eng.seq_ne(x, st) for x in srcs)
        return [(eng.newlist(st, act, node, elem=e, ne=ne, kind='set', tags=EMPTY), st)]
    return f


def any_update(eng, fv, args, kw, st, act, rs, node):
    ref = fv.self_
    o = eng.hget(st, ref) if isinstance(ref, Ref) else None
    if o is None:
        return [(NONE, st)]
    if o.kind in ('set', 'list'):
        return list_extend(eng, fv, args, kw, st, act, rs, node)
    outs = [st]
    for v in args:
        if isinstance(v, tuple):
            v = v[1]
        nxt = []
        for s in outs:
            if isinstance(v, (GenV, ItV)):
                if o.kind == 'counter':
                    def on(x, s2):
                        o2 = eng.hget(s2, ref)
                        s2.heap[ref.id] = eng.dict_set(o2, x, U(kind='count', truth=True))
                        return [('resume', NONE, s2)]
                else:
                    def on(x, s2):
                        res = []
                        for (a, b), s3 in eng.unpack(x, 2, s2, act):
                            s3.heap[ref.id] = eng.dict_set(eng.hget(s3, ref), a, b)
                            res.append(('resume', NONE, s3))
                        return res
                nxt += [x for _, x in eng.iterate(v, s, act, rs, on, node)]
            else:
                s.heap[ref.id] = eng.dict_update(eng.hget(s, ref), v, s)
                nxt.append(s)
        outs = nxt
    for s in outs:
        for k, v in kw.items():
            if k != '**':
                s.heap[ref.id] = eng.dict_set(eng.hget(s, ref), C(k), v)
    return [(NONE, s) for s in outs]


def list_copy(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    return [(eng.alloc(st, act, node, Obj(o.kind, o.cls, dict(o.attrs), o.tags), 'copy'), st)]


def clear(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    if o.kind in LISTS:
        st.heap[fv.self_.id] = Obj(o.kind, o.cls, {'exact': Tup(())})
    elif o.kind in ('dict', 'counter'):
        st.heap[fv.self_.id] = Obj(o.kind, o.cls, {k: v for k, v in o.attrs.items() if k == 'default'})
    return [(NONE, st)]


def noop(eng, fv, args, kw, st, act, rs, node):
    return [(NONE, st)]


# -------------------------------------------------------------------- dict
def d_get(eng, fv, args, kw, st, act, rs, node):
    ref = fv.self_
    o = eng.hget(st, ref)
    k = arg(args, kw, 0, 'key')
    d = arg(args, kw, 1, 'default', NONE)
    if o.kind == 'counter' and isinstance(k, C):
        v = o.attrs.get(('k', k.v)) or o.attrs.get('rest')
        return [(v if v is not None else d, st)]
    if isinstance(k, C):
        v = o.attrs.get(('k', k.v))
        if v is not None:
            return [(v, st)]
        if o.attrs.get('rest') is None:
            return [(d, st)]
        v, s2 = o.attrs['rest'], st.fork()
        if isinstance(v, U) and v.sym is not None:
            v = v.with_(sym=v.sym + (k.v,))
            st.heap[ref.id] = o.setitems({('k', k.v): v})
        return [(v, st), (d, s2)]
    vals = [x for kk, x in o.attrs.items() if isinstance(x, V) and kk != 'default']
    out = [(x, st if i == 0 else st.fork()) for i, x in enumerate(vals[:6])]
    if len(vals) > 6:
        out = [(eng.joinall(vals), st)]
    if not vals:
        return [(d, st)]
    out.append((d, st.fork()))
    return out


def d_items(which):
    def f(eng, fv, args, kw, st, act, rs, node):
        o = eng.hget(st, fv.self_)
        items = [(C(k[1]), v) for k, v in o.attrs.items() if isinstance(k, tuple) and k[0] == 'k' and isinstance(v, V)]
        rest = o.attrs.get('rest')
        if which == 'keys':
            els = [k for k, _ in items]
        elif which == 'values':
            els = [v for _, v in items]
        else:
            els = [Tup((k, v)) for k, v in items]
        if rest is None:
            return [(eng.newlist(st, act, node, items=els, kind='set' if which == 'keys' else 'list', extra='di'), st)]
        rk = U(o.tags)
        e = {'keys': rk, 'values': rest, 'items': Tup((rk, rest))}[which]
        for x in els:
            from .interp import join
            if which == 'items' and isinstance(e, Tup):
                e = Tup((join(e.items[0], x.items[0]), join(e.items[1], x.items[1])))
            else:
                e = join(e, x)
        return [(eng.newlist(st, act, node, elem=e, ne=bool(items) or bool(o.attrs.get('ne')),
                             kind='set' if which == 'keys' else 'list', extra='di'), st)]
    return f


def d_pop(eng, fv, args, kw, st, act, rs, node):
    out = d_get(eng, fv, args, kw, st, act, rs, node) if len(args) > 1 else \
        eng.dict_get(fv.self_, eng.hget(st, fv.self_), args[0], st, act, rs, node)
    res = []
    for v, s in out:
        o = eng.hget(s, fv.self_)
        if isinstance(args[0], C):
            s.heap[fv.self_.id] = o.drop(('k', args[0].v))
        res.append((v, s))
    return res


def d_setdefault(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    d = arg(args, kw, 1, 'default', NONE)
    k = args[0]
    if isinstance(k, C) and ('k', k.v) in o.attrs:
        return [(o.attrs[('k', k.v)], st)]
    st.heap[fv.self_.id] = eng.dict_set(o, k, d)
    return [(d, st)]


def mk_counter(eng, fv, args, kw, st, act, rs, node):
    o = Obj('counter', None, {})
    if args:
        v = arg(args, kw, 0, 'it')
        out = []
        if isinstance(v, Ref) and (eng.hget(st, v) or o).kind in ('dict', 'counter'):
            oo = eng.hget(st, v)
            return [(eng.alloc(st, act, node, Obj('counter', None, dict(oo.attrs)), 'counter'), st)]
        for r, s in eng.to_list(v, st, act, rs, node, 'list', 'cnt'):
            t = eng.tags(r, s)
            out.append((eng.alloc(s, act, node, Obj('counter', None, {'rest': U(kind='count')}, t), 'counter'), s))
        return out
    for k, v in kw.items():
        o = o.setitems({('k', k): v})
    return [(eng.alloc(st, act, node, o, 'counter'), st)]


def mk_defaultdict(eng, fv, args, kw, st, act, rs, node):
    a = {}
    if args and not (isinstance(args[0], C) and args[0].v is None):
        a['default'] = args[0]
    return [(eng.alloc(st, act, node, Obj('dict', None, a), 'ddict'), st)]


# -------------------------------------------------------------- dataclasses
def dc_replace(eng, fv, args, kw, st, act, rs, node):
    v = args[0]
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is not None and o.kind == 'inst':
            kw = dict(kw)
            more = kw.pop('**', None)
            attrs = dict(o.attrs)
            if more is not None:
                attrs = {k: eng.joinall([x, more]) if isinstance(x, V) else x for k, x in attrs.items()}
            return [(eng.alloc(st, act, node, Obj('inst', o.cls, {**attrs, **kw}, o.tags), 'replace'), st)]
    return [(U(atags(eng, args, kw, st)), st)]


def dc_asdict(eng, fv, args, kw, st, act, rs, node):
    v = args[0]
    if isinstance(v, Ref):
        o = eng.hget(st, v)
        if o is not None and o.kind == 'inst':
            names = [f for f, _ in eng.proj.dataclass_fields(o.cls)] if o.cls else list(o.attrs)
            if fv.name.endswith('astuple'):
                return [(Tup([o.attrs.get(n, U()) for n in names]), st)]
            return [(eng.alloc(st, act, node, Obj('dict', None, {('k', n): o.attrs.get(n, U()) for n in names}),
                               'asdict'), st)]
    return [(U(atags(eng, args, kw, st)), st)]


def t_cast(eng, fv, args, kw, st, act, rs, node):
    return [(args[1], st)] if len(args) > 1 and not isinstance(args[1], tuple) else [(U(), st)]


def cm_lazy(op):
    def f(eng, fv, args, kw, st, act, rs, node):
        return [(ItV(op, [a for a in args if isinstance(a, V)] or [NONE]), st)]
    return f


def get_logger(eng, fv, args, kw, st, act, rs, node):
    return [(Ext('logging.Logger'), st)]


# ------------------------------------------------------------------ sqlite
def sq_connect(eng, fv, args, kw, st, act, rs, node):
    if eng.fault:
        eng.fault_raise(st, act, rs, node, fv.name)
    db = arg(args, kw, 0, 'database')
    a = {'tx': FALSE, 'fk': FALSE}
    if isinstance(db, V):
        a['db'] = db
    if 'factory' in kw:
        a['factory'] = kw['factory']
    ref = eng.alloc(st, act, node, Obj('conn', None, a), 'conn', cap=4)
    eng.monitor.on_conn('open', ref, (args, kw), st, act, node)
    return [(ref, st)]


def conn_cursor(eng, fv, args, kw, st, act, rs, node):
    if eng.fault:
        eng.fault_raise(st, act, rs, node, 'conn.cursor')
    ref = eng.alloc(st, act, node, Obj('cursor', None, {'conn': fv.self_}), 'cursor', cap=6)
    eng.monitor.on_conn('cursor', ref, fv.self_, st, act, node)
    return [(ref, st)]


def conn_close(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    f = o.attrs.get('factory') if o is not None else None
    if fv.name == 'conn.close' and isinstance(f, Cls):
        fi = eng.proj.find_method(f.ci, 'close')
        if fi is not None:
            return eng.call_fn(Fn(fi, fv.self_), [], {}, st, act, rs, node)
    eng.monitor.on_conn('close', fv.self_, None, st, act, node)
    return [(NONE, st)]


def cursor_close(eng, fv, args, kw, st, act, rs, node):
    eng.monitor.on_conn('curclose', fv.self_, None, st, act, node)
    if isinstance(fv.self_, Ref):
        st.iters = tuple(x for x in st.iters if x[0] != fv.self_.id)
    return [(NONE, st)]


def conn_tx(verb):
    def f(eng, fv, args, kw, st, act, rs, node):
        o = eng.hget(st, fv.self_)
        if o is not None and o.attrs.get('tx') == FALSE:
            return [(NONE, st)]
        return run_sql(eng, fv.self_, None, C(verb), None, st, act, rs, node) and \
            [(NONE, s) for _, s in [(None, st)]]
    return f


def conn_execute(eng, fv, args, kw, st, act, rs, node):
    ref = eng.alloc(st, act, node, Obj('cursor', None, {'conn': fv.self_}), 'cursor', cap=4)
    return cur_execute(eng, Ext('cursor.' + fv.name.rsplit('.', 1)[-1], ref), args, kw, st, act, rs, node)


def conn_backup(eng, fv, args, kw, st, act, rs, node):
    if eng.fault:
        eng.fault_raise(st, act, rs, node, 'conn.backup')
    eng.monitor.on_conn('backup', fv.self_, arg(args, kw, 0, 'target'), st, act, node)
    return [(NONE, st)]


def param_lookup(eng, st, act, rs):
    def look(params, key, npos=None):
        if params is None:
            return None
        if isinstance(key, int):
            if isinstance(params, Tup):
                return params.items[key] if key < len(params.items) else None
            if isinstance(params, C) and isinstance(params.v, tuple):
                return C(params.v[key]) if key < len(params.v) else None
            if isinstance(params, Ref):
                o = eng.hget(st, params)
                if o is not None and o.kind in LISTS:
                    if 'exact' in o.attrs:
                        it = o.attrs['exact'].items
                        return it[key] if key < len(it) else None
                    if 'head' in o.attrs:
                        h, t = o.attrs['head'].items, o.attrs['tail'].items
                        if key < len(h):
                            return h[key]
                        if npos is not None and npos - key <= len(t):
                            return t[key - npos]
                    return o.attrs.get('elem')
            return U(eng.tags(params, st))
        if isinstance(params, Ref):
            o = eng.hget(st, params)
            if o is not None and o.kind == 'dict':
                return o.attrs.get(('k', key)) or o.attrs.get('rest')
        return U(eng.tags(params, st))
    return look


def cur_execute(eng, fv, args, kw, st, act, rs, node):
    name = fv.name.rsplit('.', 1)[-1]
    cur = fv.self_
    sql = arg(args, kw, 0, 'sql')
    params = arg(args, kw, 1, 'parameters')
    if name == 'executemany' and params is not None:
        outs = []
        # every element is one execution
        states = []

        def on(x, s):
            res = []
            rs2 = []
            for _, s2 in run_sql(eng, cur, cur, sql, x, s, act, rs2, node, 'executemany'):
                res.append(('resume', NONE, s2))
            return res + [('throw', e, s2) for e, s2 in rs2]
        for k, s in eng.iterate(params, st, act, rs, on, node):
            outs.append((cur, s))
        return outs
    if name == 'executescript':
        text, holes = template(sql)
        cur_o = eng.hget(st, cur)
        states = [st]
        c = cur_o.attrs.get('conn') if cur_o is not None else None
        co = eng.hget(st, c) if isinstance(c, Ref) else None
        if co is not None and co.attrs.get('tx') == TRUE:
            states = [s for _, s in run_one(eng, cur, 'COMMIT', [], None, st, act, rs, node, 'executescript')]
        for stmt in split_statements(text):
            nxt = []
            for s in states:
                nxt += [x for _, x in run_one(eng, cur, stmt, holes, None, s, act, rs, node, 'executescript')]
            states = nxt
        return [(cur, s) for s in states]
    return run_sql(eng, cur, cur, sql, params, st, act, rs, node)


def run_sql(eng, where, cur, sql, params, st, act, rs, node, how='execute'):
    if isinstance(sql, U) and sql.sym and sql.sym[0] == 'sqlset':
        outs = []
        return outs
    text, holes = template(sql)
    return run_one(eng, cur if cur is not None else where, text, holes, params, st, act, rs, node, how)


def run_one(eng, cur, text, holes, params, st, act, rs, node, how):
    look = param_lookup(eng, st, act, rs)
    ev = parse(text, holes, params, look)
    ev.site = eng.where(node, act)
    ev.how = how
    eng.stats['sql'] += 1
    eng.sql_sites.add((ev.site, ev.verb, ev.table or ev.pragma or ''))
    eng.sites[ev.site] = ev
    o = eng.hget(st, cur) if isinstance(cur, Ref) else None
    connref = None
    if o is not None and o.kind == 'cursor':
        connref = o.attrs.get('conn')
    elif o is not None and o.kind == 'conn':
        connref = cur
    conn = eng.hget(st, connref) if isinstance(connref, Ref) else None
    ev.conn = connref
    ev.cur = cur
    tx = conn.attrs.get('tx') if conn is not None and conn.kind == 'conn' else None
    ev.intx = None if tx is None or not isinstance(tx, C) else tx.v
    st.note(f'{ev.site} {ev.verb} {ev.table or ev.pragma or ""}'.strip())
    r = eng.monitor.on_sql(ev, cur, st, act, node, rs)
    if r is not None:
        return r
    # failures before the statement took effect
    if eng.fault:
        eng.fault_raise(st, act, rs, node, 'sql:' + ev.verb)
    if ev.verb in ('INSERT', 'UPDATE') and (not eng.fault or eng.monitor.fault_integrity):
        rs.append((ExcV('sqlite3.IntegrityError', U(), ev.site), st.fork()))
    if eng.fault == 0:
        wanted = {n for ns in eng.soft_wanted for n in ns if n.startswith('sqlite3.')}
        for n in sorted(wanted):
            if n != 'sqlite3.IntegrityError':
                rs.append((ExcV(n, U(), ev.site), st.fork()))
    if ev.verb == 'BEGIN' and ev.intx is True or ev.verb in ('COMMIT', 'ROLLBACK') and ev.intx is False:
        rs.append((ExcV('sqlite3.OperationalError', None, ev.site), st))
        return []
    # effects
    if conn is not None and conn.kind == 'conn':
        if ev.verb == 'BEGIN':
            st.heap[connref.id] = conn.setitems({'tx': TRUE})
        elif ev.verb in ('COMMIT', 'ROLLBACK'):
            st.heap[connref.id] = conn.setitems({'tx': FALSE})
        elif ev.verb == 'PRAGMA' and ev.pragma == 'foreign_keys' and ev.arg is not None:
            on = ev.arg.upper() in ('ON', '1', 'TRUE', 'YES')
            if ev.intx is not True:
                st.heap[connref.id] = conn.setitems({'fk': C(on)})
    if o is not None and o.kind == 'cursor':
        t = eng.monitor.row_tags(ev)
        if eng.monitor.want_q:
            t = t | {'Q:' + ev.site}
        o = eng.hget(st, cur)
        nn = eng.schema.notnull(ev)
        a = {'q': ev.site, 'rt': U(t, excl=[('.nn', nn)] if nn else EMPTY)} if (ev.verb in ('SELECT', 'PRAGMA')) else {'q': None, 'rt': U()}
        if ev.verb == 'INSERT':
            a['ins'] = U(frozenset(['rowid:' + (ev.table or '?')]))
        st.heap[cur.id] = o.setitems(a)
    eng.monitor.after_sql(ev, cur, st, act, node)
    return [(cur, st)]


def row_value(eng, ref, o, st):
    rt = o.attrs.get('rt')
    if not isinstance(rt, U):
        return U(truth=True, kind='row')
    return U(rt.tags, truth=True, kind='row', excl=rt.excl)


def cur_fetchone(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    row = row_value(eng, fv.self_, o, st)
    if eng.fault:
        eng.fault_raise(st, act, rs, node, 'cursor.fetchone')
    q = o.attrs.get('q')
    ev = eng.sites.get(q)
    cs = eng.monitor.fetch_cases(ev, 'one', st) if ev is not None else None
    if cs is not None:
        return fork_cases(cs, st)
    if ev is not None and (ev.verb == 'PRAGMA' and ev.pragma not in ('table_info', 'foreign_key_check') or
                           (ev.verb == 'SELECT' and not ev.wheretext and len(ev.cols) == 1 and
                            any(ev.cols[0].upper().startswith(x) for x in ('COUNT', 'MAX', 'MIN', 'SUM', 'EXISTS',
                                                                            'NOT EXISTS', 'TOTAL')))):
        return [(row, st)]
    if ev is not None and ev.verb == 'SELECT' and ev.cols and any(
            ev.cols[0].upper().startswith(x) for x in ('COUNT', 'EXISTS', 'NOT EXISTS', 'MAX', 'MIN', 'TOTAL')):
        return [(row, st)]
    if eng.monitor.never_empty(ev):
        return [(row, st)]
    return [(row, st), (NONE, st.fork())]


def fork_cases(cs, st):
    out = []
    for i, (v, f) in enumerate(cs):
        s = st.fork() if i + 1 < len(cs) else st
        if f is not None:
            f(s)
        out.append((v, s))
    return out


def cur_fetchall(eng, fv, args, kw, st, act, rs, node):
    o = eng.hget(st, fv.self_)
    row = row_value(eng, fv.self_, o, st)
    if eng.fault:
        eng.fault_raise(st, act, rs, node, 'cursor.fetchall')
    ev = eng.sites.get(o.attrs.get('q'))
    cs = eng.monitor.fetch_cases(ev, 'all', st) if ev is not None else None
    if cs is not None:
        return [(eng.newlist(s, act, node, items=tuple(v)), s) for v, s in fork_cases(cs, st)]
    ne = eng.monitor.never_empty(ev)
    return [(eng.newlist(st, act, node, elem=row, ne=ne), st)]


def sqlmethod(f):
    return f


def q_method(name):
    """A method on a value we know nothing about."""
    return None


EXT = {
    'builtins.isinstance': b_isinstance, 'builtins.issubclass': b_issubclass,
    'builtins.len': b_len, 'builtins.tuple': b_tuple, 'builtins.list': mk_list('list'),
    'builtins.set': mk_list('set'), 'builtins.frozenset': mk_list('set'), 'builtins.sorted': b_sorted,
    'builtins.dict': b_dict, 'builtins.next': b_next, 'builtins.any': quant(True), 'builtins.all': quant(False),
    'builtins.sum': b_consume(first=True), 'builtins.min': b_consume(), 'builtins.max': b_consume(),
    'builtins.bool': b_bool, 'builtins.int': conv('int', int), 'builtins.float': conv('float', float),
    'builtins.str': b_str, 'builtins.repr': b_repr, 'builtins.range': b_range, 'builtins.iter': b_iter,
    'builtins.zip': lazy('zip'), 'builtins.enumerate': lazy('enumerate'), 'builtins.map': lazy('map'),
    'builtins.filter': lazy('filter'), 'builtins.reversed': lazy('reversed'),
    'builtins.getattr': b_getattr, 'builtins.hasattr': b_hasattr, 'builtins.type': b_type,
    'builtins.hash': unknown('int'), 'builtins.abs': unknown(), 'builtins.round': unknown(),
    'builtins.id': unknown('int'), 'builtins.print': noop, 'builtins.open': b_open,
    'builtins.callable': unknown('bool'), 'builtins.bytes': unknown('bytes'),
    'builtins.super': unknown(), 'builtins.vars': unknown(), 'builtins.object': unknown(),
    'builtins.__import__': unknown(),
    'itertools.chain': lazy('chain'), 'itertools.chain.from_iterable': lazy('from_iterable'),
    'array.array': mk_array,
    'itertools.compress': lazy('compress'), 'itertools.groupby': lazy('groupby'),
    'itertools.islice': lazy('islice'), 'itertools.repeat': lazy('repeat'),
    'itertools.zip_longest': lazy('zip_longest'), 'itertools.combinations': lazy('combinations'),
    'itertools.product': lazy('product'), 'itertools.starmap': lazy('starmap'),
    'itertools.takewhile': lazy('takewhile'), 'itertools.tee': unknown(),
    'collections.Counter': mk_counter, 'collections.defaultdict': mk_defaultdict,
    'collections.OrderedDict': b_dict,
    'contextlib.closing': cm_lazy('closing'), 'contextlib.suppress': cm_lazy('suppress'),
    'contextlib.nullcontext': cm_lazy('nullcontext'),
    'dataclasses.replace': dc_replace, 'dataclasses.asdict': dc_asdict, 'dataclasses.astuple': dc_asdict,
    'typing.cast': t_cast, 'logging.getLogger': get_logger,
    'warnings.warn': noop,
    'os.fsdecode': unknown('str'), 'os.path.abspath': unknown('str'), 'os.path.realpath': unknown('str'),
    'os.path.dirname': unknown('str'), 'os.path.basename': unknown('str'), 'os.path.normpath': unknown('str'),
    'os.path.exists': unknown('bool'), 'os.path.isfile': unknown('bool'), 'os.access': unknown('bool'),
    'os.path.join': unknown('str'), 'os.getcwd': unknown('str'), 'os.fspath': unknown('str'),
    'json.dumps': unknown('str'), 'json.loads': unknown(), 'math.isnan': unknown('bool'),
    'math.isinf': unknown('bool'),
    'sqlite3.connect': sq_connect,
    'super.__init__': noop, 'super.__new__': None, 'super.__init_subclass__': noop,
    'conn.cursor': conn_cursor, 'conn.close': conn_close, 'super.close': conn_close,
    'conn.execute': conn_execute, 'conn.executescript': conn_execute, 'conn.executemany': conn_execute,
    'conn.backup': conn_backup,
    'cursor.execute': cur_execute, 'cursor.executemany': cur_execute, 'cursor.executescript': cur_execute,
    'cursor.fetchone': cur_fetchone, 'cursor.fetchall': cur_fetchall, 'cursor.fetchmany': cur_fetchall,
    'cursor.close': cursor_close,
    'list.append': list_append, 'list.extend': list_extend, 'list.pop': list_pop, 'list.insert': list_insert,
    'list.remove': list_remove, 'list.sort': noop, 'list.reverse': noop, 'list.copy': list_copy, 'list.clear': clear,
    'list.index': unknown('int'), 'list.count': unknown('int'), 'tuple.index': unknown('int'),
    'tuple.count': unknown('int'),
    'set.add': list_append, 'set.update': any_update, 'set.discard': list_remove, 'set.remove': list_remove,
    'set.union': set_op('union'), 'set.difference': set_op('difference'), 'set.intersection': set_op('intersection'),
    'set.symmetric_difference': set_op('symmetric'), 'set.copy': list_copy, 'set.pop': list_pop, 'set.clear': clear,
    'set.issubset': unknown('bool'), 'set.issuperset': unknown('bool'), 'set.isdisjoint': unknown('bool'),
    'dict.get': d_get, 'dict.items': d_items('items'), 'dict.keys': d_items('keys'), 'dict.values': d_items('values'),
    'dict.pop': d_pop, 'dict.update': any_update, 'dict.setdefault': d_setdefault, 'dict.copy': list_copy,
    'dict.clear': clear,
    'counter.get': d_get, 'counter.items': d_items('items'), 'counter.keys': d_items('keys'),
    'counter.values': d_items('values'), 'counter.update': any_update, 'counter.pop': d_pop,
    'counter.most_common': unknown(), 'counter.copy': list_copy, 'counter.clear': clear,
    'str.join': s_join, 'str.format': s_format, 'str.replace': s_replace, 'str.split': s_split,
    'str.rsplit': s_split, 'str.splitlines': s_split, 'str.partition': s_partition, 'str.rpartition': s_partition,
    'bytes.join': unknown('bytes'), 'int.to_bytes': int_to_bytes,
}
for _n in ('strip lstrip rstrip lower upper title casefold startswith endswith isdigit isalnum find index count '
           'encode isidentifier isdecimal isnumeric isspace isalpha ljust rjust center zfill removesuffix '
           'removeprefix capitalize expandtabs swapcase translate').split():
    EXT['str.' + _n] = s_pure(_n)
for _n in 'info warning error debug critical exception log addHandler setLevel'.split():
    EXT['logging.Logger.' + _n] = noop
EXT = {k: v for k, v in EXT.items() if v is not None}


def super_new(eng, fv, args, kw, st, act, rs, node):
    c = args[0] if args else fv.self_
    if isinstance(c, Cls):
        return [(eng.alloc(st, act, node, Obj('inst', c.ci, {}), 'new'), st)]
    return [(U(), st)]


EXT['super.__new__'] = super_new
EXT['cls.__new__'] = super_new
EXT['builtins.object.__new__'] = super_new


def m_query(f):
    return f


# methods on wholly unknown receivers that must still behave sensibly
METHODS = {
    'join': s_join, 'replace': s_replace, 'format': s_format, 'split': s_split,
}

FUNCS = {}
