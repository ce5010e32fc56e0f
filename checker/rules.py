"""Monitors and helpers shared by several checks."""
from .models import Monitor
from .values import C, GenV, ItV, Obj, Ref, S, Tup, U, V, ExcV

NONE_ = frozenset()


def in_class(act, cname):
    for fi in act.stack:
        if fi.cls is not None and fi.cls.name == cname:
            return True
    return act.fi is not None and act.fi.cls is not None and act.fi.cls.name == cname


class SpaceMonitor(Monitor):
    """Knows which connections belong to a space (opened by the connector)."""

    def __init__(self, eng=None):
        super().__init__(eng)
        self.foreign = set()

    def on_conn(self, what, ref, args, st, act, node):
        if what == 'open':
            if not in_class(act, 'DataConnector'):
                self.foreign.add(ref.id)

    def is_space(self, ev):
        return not (isinstance(ev.conn, Ref) and ev.conn.id in self.foreign)

    def count(self, what, n=1):
        d = self.eng.stats.setdefault('counts', {})
        d[what] = d.get(what, 0) + n


def retag_value(v, f):
    """*v* with every tag set mapped through *f* (shared structure is kept)."""
    if isinstance(v, U):
        t = f(v.tags)
        return v if t is v.tags else v.with_(tags=t)
    if isinstance(v, Tup):
        items = [retag_value(x, f) for x in v.items]
        return v if all(a is b for a, b in zip(items, v.items)) else Tup(items)
    if isinstance(v, S):
        parts = [p if isinstance(p, str) else retag_value(p, f) for p in v.parts]
        return v if all(a is b for a, b in zip(parts, v.parts)) else S(parts)
    if isinstance(v, ItV):
        args = [retag_value(x, f) for x in v.args]
        return v if all(a is b for a, b in zip(args, v.args)) else ItV(v.op, args)
    if isinstance(v, GenV):
        vs = [(n, retag_value(x, f)) for n, x in v.vars]
        if all(a[1] is b[1] for a, b in zip(vs, v.vars)):
            return v
        return GenV(v.fi, vs, v.env, v.site, v.cm, v.started)
    return v


def retag_state(st, f):
    for fid, vs in list(st.fr.items()):
        new = None
        for k, v in vs.items():
            if isinstance(v, V):
                w = retag_value(v, f)
                if w is not v:
                    if new is None:
                        new = dict(vs)
                    new[k] = w
        if new is not None:
            st.fr[fid] = new
    for rid, o in list(st.heap.items()):
        new = None
        for k, v in o.attrs.items():
            if isinstance(v, V):
                w = retag_value(v, f)
                if w is not v:
                    if new is None:
                        new = dict(o.attrs)
                    new[k] = w
        t = f(o.tags) if o.tags else o.tags
        if new is not None or t is not o.tags:
            st.heap[rid] = Obj(o.kind, o.cls, new if new is not None else o.attrs, t)
    p = tuple((a, b, retag_value(c, f) if isinstance(c, V) else c) for a, b, c in st.pend)
    if p != st.pend:
        st.pend = p


class FeedMonitor(SpaceMonitor):
    """Follows loops over the rows of a query of interest and tells whether
    *every* element was consumed (fed to a digest, or kept in a collection).

    ``st.mon`` is a namedtuple with the fields ``loops`` (tuple of
    (token, consumed)) and ``partial`` (some element was passed over).
    """
    feed_tag = 'IDS'
    feed_calls = ('update',)
    LF, PF = 'loops', 'partial'     # names of the two fields

    def fset(self, st, loops, partial=None):
        kw = {self.LF: loops}
        if partial is not None:
            kw[self.PF] = partial
        st.mon = st.mon._replace(**kw)

    def loop_begin(self, elem, node, st, act, src):
        if self.feed_tag in self.eng.tags(elem, st):
            return self.eng.where(node, act) + f'/{len(act.stack)}' + \
                ('/part' if src is not None and 'part' in src[1].tags else '')
        return None

    def iter_begin(self, tok, st):
        ls = getattr(st.mon, self.LF)
        for i, (t, _) in enumerate(ls):
            if t == tok:
                ls = ls[:i]
                break
        self.fset(st, ls + ((tok, False),))

    def iter_end(self, tok, st):
        ls = getattr(st.mon, self.LF)
        for i, (t, fed) in enumerate(ls):
            if t == tok:
                self.fset(st, ls[:i], getattr(st.mon, self.PF) or not fed)
                return

    def loop_end(self, tok, st, kind):
        ls = getattr(st.mon, self.LF)
        for i, (t, fed) in enumerate(ls):
            if t == tok:
                ls = ls[:i]
                break
        self.fset(st, ls, getattr(st.mon, self.PF) or kind == 'closed' or tok.endswith('/part'))

    def fed(self, st):
        ls = getattr(st.mon, self.LF)
        if ls and not all(f for _, f in ls):
            self.fset(st, tuple((t, True) for t, _ in ls))

    def on_collect(self, v, st):
        if st.mon and getattr(st.mon, self.LF) and self.feed_tag in self.eng.tags(v, st):
            self.fed(st)

    def watches(self, name):
        return name.rsplit('.', 1)[-1] in self.feed_calls

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        if name.rsplit('.', 1)[-1] in self.feed_calls and st.mon and getattr(st.mon, self.LF):
            if any(self.feed_tag in self.eng.tags(a, st) for a in args if isinstance(a, V)):
                self.fed(st)
        return None


def prop_key(eng, ev, st):
    """The property a statement on main.property writes: constant | None."""
    v = ev.colvals.get('key', ev.colvals.get(0)) if ev.verb == 'INSERT' else ev.where.get('key')
    return literal(v)


def prop_value(ev):
    return ev.colvals.get('value', ev.colvals.get(1))


def literal(v):
    """The constant a bound value or literal expression stands for, or None."""
    if isinstance(v, C):
        return v.v
    if isinstance(v, tuple) and len(v) > 1 and isinstance(v[1], str):
        x = v[1].strip()
        if len(x) > 1 and x[0] == "'" and x[-1] == "'" and "'" not in x[1:-1].replace("''", ''):
            return x[1:-1].replace("''", "'")
        try:
            return int(x)
        except ValueError:
            return None
    return None


class Tok:
    """A loop of interest; *did* is set once an iteration consumed its element."""
    __slots__ = ('site', 'did', 'part')

    def __init__(self, site):
        self.site = site
        self.part = False
        self.did = False


class ForAllMonitor(SpaceMonitor):
    """Decides "every element of this query was treated" for loops that update
    or delete what they read.

    ``st.mon.loops`` is a tuple of (site, kind, consumed, partial).  Subclasses
    implement ``kind_of_loop(elem_tags)`` and ``all_done(kind, st, tok)``.
    """

    def kind_of_loop(self, tags, elem, st):
        return None

    def loop_begin(self, elem, node, st, act, src):
        k = self.kind_of_loop(self.eng.tags(elem, st), elem, st)
        if k is None:
            return None
        t = Tok(self.eng.where(node, act) + f'/{len(act.stack)}')
        t.part = bool(src is not None and 'part' in src[1].tags)
        return (t, k)

    def iter_begin(self, tok, st):
        t, k = tok
        m = st.mon
        ls = m.loops
        part = False
        for i, x in enumerate(ls):
            if x[0] == t.site:
                part = x[3]
                ls = ls[:i]
                break
        st.mon = m._replace(loops=ls + ((t.site, k, False, part),))

    def iter_end(self, tok, st):
        t, k = tok
        m = st.mon
        for i, x in enumerate(m.loops):
            if x[0] == t.site:
                if x[2]:
                    t.did = x[2]
                st.mon = m._replace(loops=m.loops[:i] + ((t.site, k, False, x[3] or not x[2]),))
                return

    def loop_end(self, tok, st, kind):
        t, k = tok
        m = st.mon
        part = kind == 'closed' or t.part
        ls = m.loops
        for i, x in enumerate(ls):
            if x[0] == t.site:
                part = part or x[3]
                ls = ls[:i]
                break
        if ls is not m.loops:
            st.mon = m._replace(loops=ls)
        if t.did and not part:
            self.all_done(k, st, t)

    def consume(self, st, kind, what=True):
        m = st.mon
        if any(x[1] == kind and not x[2] for x in m.loops):
            st.mon = m._replace(loops=tuple((a, b, c or (what if b == kind else False), d) for a, b, c, d in m.loops))

    def all_done(self, kind, st, tok):
        pass


class FlagMonitor(SpaceMonitor):
    """A stored flag of a group (weight group, link) says that every index record
    has a related row (weight, mapping) in the group.

    ``low``   '' | 'one' | 'all': groups whose flag may now be wrongly set
    ``high``  '' | 'one' | 'all': groups whose flag may now be wrongly unset
    ``fresh`` answer of the completeness question, None after a change
    """
    M = None
    group_table = group_key = flag = rel_table = inst = what = None
    extra_state = ()

    def initial(self):
        return self.M((), '', '', None, *self.extra_state)

    # -- the completeness question
    def question(self, ev):
        """None | (positive, wrapped): positive: rows/flag mean complete."""
        if ev is None or ev.verb != 'SELECT' or not {'label_index', self.rel_table} <= set(ev.reads):
            return None
        cached = getattr(ev, 'question_', 0)
        if cached != 0:
            return cached
        r = ev.question_ = self._question(ev)
        return r

    def _question(self, ev):
        ups = [t.up for t in ev.toks]
        text = ' '.join(ups)
        if not (('NOT' in ups and 'EXISTS' in ups) or 'EXCEPT' in ups or 'NOT IN (' in text
                or ('LEFT' in ups and 'IS NULL' in text)):
            return None
        first = ups[1:4]
        if first[:2] == ['NOT', 'EXISTS']:
            r = (True, True)
        elif first[:1] == ['EXISTS']:
            r = (False, True)
        elif first[:1] == ['COUNT']:
            r = (False, True)
        else:
            r = (False, False)
        problem = None
        k = self.group_key.upper()
        if not any(ups[i].split('.')[-1] == k and ups[i + 1] in ('=', 'IS', '==') and
                   (ups[i + 2][:1] in '?:@$') or ups[i][:1] in '?:@$' and ups[i + 1] == '=' and
                   ups[i + 2].split('.')[-1] == k for i in range(len(ups) - 2)):
            problem = f'does not restrict the {self.rel_table} rows to the {self.what} asked about'
        zero = any(ups[i].split('.')[-1] == 'INDEX_ID' and (ups[i + 1], ups[i + 2]) in
                   (('!=', '0'), ('<>', '0'), ('>', '0'), ('>=', '1')) for i in range(len(ups) - 2)) or \
            '0 != ' in text or '0 < ' in text
        if not zero:
            problem = 'does not leave out the undefined record (index_id 0), or leaves out more'
        if self.missing_side(ups):
            problem = self.missing_side(ups)
        ev.problem_ = problem
        return r

    def missing_side(self, ups):
        """The records looked for must come from label_index, the excluded ones from the related table."""
        def at(name):
            return min((i for i, u in enumerate(ups) if u.split('.')[-1] == name or u == name), default=10 ** 6)
        if 'EXCEPT' in ups:
            i = ups.index('EXCEPT')
        else:
            i = max((j for j, u in enumerate(ups) if u in ('EXISTS', 'IN', 'LEFT')), default=0)
        if not at('LABEL_INDEX') < i < at(self.rel_table.upper()):
            return f'looks for {self.rel_table} rows without an index record instead of the reverse'
        return None

    def fetch_cases(self, ev, how, st):
        q = self.question(ev)
        if q is None:
            return None
        pos, wrapped = q

        def ans(x):
            def f(s):
                s.mon = s.mon._replace(fresh=x)
            return f
        one, zero = Tup((C(1),)), Tup((C(0),))
        if wrapped:
            cs = [(one, ans(pos)), (zero, ans(not pos))]
        else:
            cs = [(one, ans(pos)), (None, ans(not pos))]
        if how == 'all':
            return [((v,) if v is not None else (), f) for v, f in cs]
        return [(v if v is not None else C(None), f) for v, f in cs]

    # -- loops over all groups
    def row_tags(self, ev):
        if ev.verb == 'SELECT' and ev.reads == [self.group_table] and not ev.wheretext and \
                not any(x.up in ('LIMIT', 'WHERE', 'HAVING') for x in ev.toks):
            return frozenset(['GROUPS'])
        return frozenset()

    def loop_begin(self, elem, node, st, act, src):
        if 'GROUPS' not in self.eng.tags(elem, st):
            return None
        if not (isinstance(elem, Ref) and st.heap.get(elem.id) is not None and st.heap[elem.id].kind == 'inst'):
            return None
        o = st.heap[elem.id]
        return (self.eng.where(node, act) + f'/{len(act.stack)}', elem, o.attrs.get(self.flag),
                bool(src is not None and 'part' in src[1].tags))

    def iter_begin(self, tok, st):
        site, elem, orig, _ = tok
        o = st.heap.get(elem.id)
        if o is not None and orig is not None and o.attrs.get(self.flag) is not orig:
            st.heap[elem.id] = o.setitems({self.flag: orig})
        m = st.mon
        missed = NONE_
        ls = m.loops
        for i, x in enumerate(ls):
            if x[0] == site:
                missed = x[2]
                ls = ls[:i]
                break
        # (site, what was settled for this group, what was missed for some group)
        st.mon = m._replace(loops=ls + ((site, NONE_, missed),), fresh=None)

    def iter_end(self, tok, st):
        site, elem, _, _ = tok
        m = st.mon
        for i, x in enumerate(m.loops):
            if x[0] == site:
                d = set(x[1])
                o = st.heap.get(elem.id)
                k = truth_of(o.attrs.get(self.flag)) if o is not None else None
                if k is False or m.fresh is True:
                    d.add('low')
                if k is True or m.fresh is False:
                    d.add('high')
                st.mon = m._replace(loops=m.loops[:i] + ((site, NONE_, x[2] | (self.kinds - d)),), fresh=None)
                return

    def loop_end(self, tok, st, kind):
        site = tok[0]
        m = st.mon
        ls = m.loops
        missed = NONE_
        for i, x in enumerate(ls):
            if x[0] == site:
                missed = x[2]
                ls = ls[:i]
                break
        if kind == 'closed' or tok[3]:
            missed = self.kinds
        st.mon = m._replace(loops=ls, **{k: '' for k in self.kinds - missed})

    kinds = frozenset(['low', 'high'])

    def did(self, st, what):
        m = st.mon
        if m.loops:
            m = m._replace(loops=tuple((a, b | what, c) for a, b, c in m.loops))
        for k in what:
            if getattr(m, k) != 'all':
                m = m._replace(**{k: ''})
        st.mon = m

    # -- events
    def change(self, ev, st):
        """(low, high) raised by a statement, None when irrelevant."""
        if ev.table == 'label_index':
            if ev.verb == 'INSERT':
                return 'all', ''
            if ev.verb == 'DELETE':
                return '-', 'all'
        elif ev.table == self.rel_table:
            if ev.verb == 'INSERT':
                return '', 'one'
            if ev.verb == 'DELETE':
                return 'one', ''
            if ev.verb == 'UPDATE' and ('index_id' in ev.cols or self.group_key in ev.cols):
                return '', ''
        return None

    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        ch = self.change(ev, st)
        m = st.mon
        if self.question(ev) is not None:
            self.count('questions')
            if ev.problem_:
                self.eng.report('flag-question-wrong', node, act,
                                f'the completeness question of a {self.what} {ev.problem_}', st,
                                key=(ev.site, ev.problem_))
        if ch is not None:
            self.count('relevant_changes')
            lo, hi = ch
            low = m.low
            if lo == '-':
                low = '' if low == 'one' else low       # they belonged to the deleted record
            elif lo and low != 'all':
                low = lo
            high = m.high
            if hi and high != 'all':
                high = hi
            st.mon = m._replace(low=low, high=high, fresh=None)
        elif ev.table == self.group_table and ev.verb == 'UPDATE' and self.flag in ev.cols:
            self.count('flag_updates')
            v = ev.colvals.get(self.flag)
            t = truth_of(v)
            if t is False:
                self.did(st, {'low', 'high'} if m.fresh is False else {'low'})
            elif t is True:
                if m.fresh is True:
                    self.did(st, {'low', 'high'})
                elif not self.was_set(st) or m.low or m.fresh is False:
                    self.eng.report('flag-set-unchecked', node, act,
                                    f'a {self.what} is marked complete although it is not known that every index record '
                                    f'has a {self.rel_table} row in it after the change', st, key=(self.eng.entry,))
            elif m.fresh is not None:
                # unchanged or user-given value: nothing is settled
                pass
            self.group_updated(ev, st, act, node)
        elif ev.verb == 'ROLLBACK':
            st.mon = self.initial()
        elif ev.verb == 'COMMIT':
            self.settle(st, act, node)
        else:
            self.other_event(ev, st, act, node)

    def group_updated(self, ev, st, act, node):
        pass

    def other_event(self, ev, st, act, node):
        pass

    def insts(self, st):
        for o in st.heap.values():
            if o.kind == 'inst' and o.cls is not None and o.cls.name == self.inst:
                yield truth_of(o.attrs.get(self.flag))

    def was_set(self, st):
        return any(t is True for t in self.insts(st))

    def settle(self, st, act, node):
        m = st.mon
        low, high = m.low, m.high
        if low == 'one' and (m.fresh is True or any(t is False for t in self.insts(st))):
            low = ''
        if high == 'one' and (m.fresh is False or any(t is True for t in self.insts(st))):
            high = ''
        if low:
            self.eng.report('flag-stays-set', node, act,
                            f'the operation can leave an index record without a {self.rel_table} row in a {self.what} that '
                            'stays marked complete', st, key=(self.eng.entry, 'low'))
        if high:
            self.eng.report('flag-not-set', node, act,
                            f'the operation can complete a {self.what} ({self.rel_table} rows for every index record) '
                            'without marking it complete', st, key=(self.eng.entry, 'high'))
        st.mon = self.initial()

    def at_return(self, name, v, st, act, node):
        self.settle(st, act, node)


def truth_of(v):
    if isinstance(v, C):
        return bool(v.v)
    if isinstance(v, U):
        return v.truth
    return None
