"""Abstract values.  All values are immutable and hashable."""

EMPTY = frozenset()


NOREF = ((), ())


class V:
    __slots__ = ('_h', '_r')

    def refs(self):
        """(heap ids, frame ids) this value holds directly."""
        return NOREF

    def _key(self):
        raise NotImplementedError

    def __eq__(self, other):
        if self is other:
            return True
        if type(self) is not type(other):
            return False
        return self._key() == other._key()

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self._key()))
            return self._h


class C(V):
    """A known constant."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def _key(self):
        return (type(self.v).__name__, self.v)

    def __repr__(self):
        return f'C({self.v!r})'


NONE, TRUE, FALSE = C(None), C(True), C(False)


class U(V):
    """An unknown value with provenance tags and what is known about it."""
    __slots__ = ('tags', 'truth', 'notnone', 'sym', 'excl', 'kind')

    def __init__(self, tags=EMPTY, truth=None, notnone=False, sym=None, excl=EMPTY, kind=None):
        self.tags = frozenset(tags)
        self.truth = truth
        self.notnone = notnone or truth is True or kind in ('str', 'int', 'count', 'bool', 'list', 'row')
        self.sym = sym
        self.excl = frozenset(excl)
        self.kind = kind

    def _key(self):
        return (self.tags, self.truth, self.notnone, self.sym, self.excl, self.kind)

    def with_(self, **k):
        d = dict(tags=self.tags, truth=self.truth, notnone=self.notnone, sym=self.sym,
                 excl=self.excl, kind=self.kind)
        d.update(k)
        return U(**d)

    def __repr__(self):
        b = []
        if self.kind:
            b.append(self.kind)
        if self.sym:
            b.append('~' + str(self.sym))
        if self.tags:
            b.append('{' + ','.join(sorted(map(str, self.tags))) + '}')
        if self.truth is not None:
            b.append('T' if self.truth else 'F')
        return 'U(' + ' '.join(b) + ')'


class S(V):
    """A string template: constant pieces and holes."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def _key(self):
        return self.parts

    def __repr__(self):
        return 'S(' + ''.join(p if isinstance(p, str) else '{' + repr(p) + '}' for p in self.parts) + ')'


def union_refs(vals):
    ids, fids = [], []
    for v in vals:
        if isinstance(v, V):
            a, b = v.refs()
            ids += a
            fids += b
    if not ids and not fids:
        return NOREF
    return (tuple(set(ids)), tuple(set(fids)))


class RV(V):
    """A value that holds other values."""
    __slots__ = ()

    def parts_(self):
        return ()

    def refs(self):
        try:
            return self._r
        except AttributeError:
            r = union_refs(self.parts_())
            env = getattr(self, 'env', None)
            if env:
                r = (r[0], tuple(set(r[1]) | set(env)))
            self._r = r
            return r


class Tup(RV):
    __slots__ = ('items',)

    def parts_(self):
        return self.items

    def __init__(self, items):
        self.items = tuple(items)

    def _key(self):
        return self.items

    def __repr__(self):
        return f'Tup{self.items!r}'


class Ref(V):
    __slots__ = ('id',)

    def refs(self):
        return ((self.id,), ())

    def __init__(self, id):
        self.id = id

    def _key(self):
        return self.id

    def __repr__(self):
        return f'Ref({self.id})'


class Fn(RV):
    """A project function, possibly bound, with its closure."""
    def parts_(self):
        return (self.self_,)

    __slots__ = ('fi', 'self_', 'env')

    def __init__(self, fi, self_=None, env=None):
        self.fi = fi
        self.self_ = self_
        self.env = env          # (fid, snapshot tuple) | None

    def _key(self):
        return (id(self.fi), self.self_, self.env)

    def __repr__(self):
        return f'Fn({self.fi.qualname})'


class Cls(V):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def _key(self):
        return id(self.ci)

    def __repr__(self):
        return f'Cls({self.ci.name})'


class Mod(V):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def _key(self):
        return self.m.name

    def __repr__(self):
        return f'Mod({self.m.name})'


class Ext(RV):
    """An external (non-project) name; *self_* is the receiver of a method."""
    def parts_(self):
        return (self.self_,)

    __slots__ = ('name', 'self_')

    def __init__(self, name, self_=None):
        self.name = name
        self.self_ = self_

    def _key(self):
        return (self.name, self.self_)

    def __repr__(self):
        return f'Ext({self.name})'


class GenV(RV):
    """A generator that was created but not (completely) run."""
    def parts_(self):
        return [x for _, x in self.vars]

    __slots__ = ('fi', 'vars', 'env', 'site', 'cm', 'started')

    def __init__(self, fi, vars, env, site, cm=False, started=False):
        self.fi = fi
        self.vars = tuple(vars)       # ((name, value), ...)
        self.env = env
        self.site = site
        self.cm = cm
        self.started = started

    def _key(self):
        return (id(self.fi), self.vars, self.env, self.site, self.cm, self.started)

    def __repr__(self):
        return f'Gen({self.fi.qualname})'


class ItV(RV):
    """A lazy builtin iterator (chain, zip, map ...) over other values."""
    def parts_(self):
        return self.args

    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = tuple(args)

    def _key(self):
        return (self.op, self.args)

    def __repr__(self):
        return f'It({self.op},{self.args!r})'


class ExcV(RV):
    """An exception. *name* may be '?Exception' (any) or '?BaseException'."""
    def parts_(self):
        return (self.msg,)

    __slots__ = ('name', 'msg', 'site', 'excl')

    def __init__(self, name, msg=None, site=None, excl=EMPTY):
        self.name = name
        self.msg = msg
        self.site = site
        self.excl = excl      # handler classes it is known not to match

    def _key(self):
        return (self.name, self.msg, self.excl)

    def __repr__(self):
        return f'Exc({self.name})'


class Obj:
    """A heap object (treated as immutable: replace, never mutate)."""
    __slots__ = ('kind', 'cls', 'attrs', 'tags', '_h', '_r')

    def refs(self):
        try:
            return self._r
        except AttributeError:
            self._r = union_refs(self.attrs.values())
            return self._r

    def __init__(self, kind, cls=None, attrs=None, tags=EMPTY):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs or {}
        self.tags = frozenset(tags)

    def set(self, **kw):
        a = dict(self.attrs)
        a.update(kw)
        return Obj(self.kind, self.cls, a, self.tags)

    def setitems(self, items):
        a = dict(self.attrs)
        a.update(items)
        return Obj(self.kind, self.cls, a, self.tags)

    def drop(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return Obj(self.kind, self.cls, a, self.tags)

    def addtags(self, tags):
        if tags <= self.tags:
            return self
        return Obj(self.kind, self.cls, self.attrs, self.tags | tags)

    def key(self):
        try:
            return self._h
        except AttributeError:
            self._h = (self.kind, id(self.cls), frozenset(self.attrs.items()), self.tags)
            return self._h

    def __repr__(self):
        n = self.cls.name if self.cls is not None else self.kind
        return f'<{n} {self.attrs}>'


def tags_of(v, st=None, _d=0):
    """All provenance tags reachable from *v* (through the heap when *st* is given)."""
    if isinstance(v, U):
        return v.tags
    if isinstance(v, S):
        out = EMPTY
        for p in v.parts:
            if not isinstance(p, str):
                out |= tags_of(p, st, _d + 1)
        return out
    if isinstance(v, Tup):
        out = EMPTY
        for p in v.items:
            out |= tags_of(p, st, _d + 1)
        return out
    if isinstance(v, (ItV,)):
        out = EMPTY
        for p in v.args:
            out |= tags_of(p, st, _d + 1)
        return out
    if isinstance(v, GenV):
        out = EMPTY
        for _, p in v.vars:
            if not isinstance(p, Ref) or _d < 2:
                out |= tags_of(p, st, _d + 1)
        return out
    if isinstance(v, Ref) and st is not None and _d < 5:
        o = st.heap.get(v.id)
        if o is None:
            return EMPTY
        out = o.tags
        if o.kind in ('list', 'tuple', 'dict', 'set', 'counter', 'inst'):
            if o.kind == 'inst' and o.attrs.get('_cursor') is not None:
                return out
            for k, p in o.attrs.items():
                if isinstance(p, V):
                    out |= tags_of(p, st, _d + 1)
        return out
    if isinstance(v, ExcV) and v.msg is not None:
        return tags_of(v.msg, st, _d + 1) if isinstance(v.msg, V) else EMPTY
    return EMPTY


def row_nn(v):
    """Which fields of a row value cannot be None (the last entry holds for all further ones)."""
    for x in v.excl:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == '.nn':
            return x[1]
    return None


def nn_at(nn, i):
    if not isinstance(nn, tuple) or not isinstance(i, int) or i < 0:
        return False
    return bool(nn[i] if i < len(nn) else nn[-1])


def kind_at(nn, i):
    """The type of a field, where the table declaration fixes it."""
    if not isinstance(nn, tuple) or not isinstance(i, int) or i < 0:
        return None
    k = nn[i] if i < len(nn) else nn[-1]
    return k if isinstance(k, str) else None
