"""What the stored properties say about labels, and where that came from.

Tags: ``L`` a label name taken from a stored property, not yet matched with the
columns there are now; ``COLS`` a name of a current label column; ``K:key`` the
property a name was read from; ``RAW`` a definition that has not been reduced;
``WHOLE`` result of reducing definitions together with the one of all columns.
"""
import ast
from collections import namedtuple

from .frame import EngineCheck
from .rules import SpaceMonitor, literal, prop_key, prop_value, retag_state
from .values import C, NONE, Ref, Tup, U, V

KEYS = ('partition_definitions', 'label_display_order')
DEFS = KEYS[0]
MIN_FUNC = 'find_minimal_partition_generating_set'
NO = frozenset()
OLD = frozenset(['COLS', 'WHOLE', 'HAS-WHOLE'])
M = namedtuple('M', 'changes written absent saved valid')


def last(n):
    return (n or '').split('.')[-1].strip('"').lower()


def age(tags):
    if OLD & tags:
        tags = (tags - OLD) | {'COLS-OLD'}
    if 'FC' in tags:
        tags = (tags - {'FC'}) | {'L'}
    return tags


def columns(tags):
    """Are these the names of the label columns, and nothing else?"""
    return 'COLS' in tags and not ({'MIN', 'RAW', 'L', 'F', 'FC'} & tags) and not args_of(tags)


def args_of(tags):
    return frozenset(t for t in tags if t.startswith('arg:'))


class LabelRefMonitor(SpaceMonitor):
    mark_order = True

    def initial(self):
        e = self.eng.entry
        absent = KEYS if '[empty]' in e else KEYS[1:] if '[no order]' in e else ()
        return M(NO, (), frozenset(absent), None, '?')

    # -- where values come from
    def row_tags(self, ev):
        if ev.verb == 'SELECT' and ev.reads == ['property'] and self.is_space(ev):
            k = literal(ev.where.get('key'))
            if k in KEYS:
                return frozenset(['L', 'RAW', 'K:' + k])
        if ev.verb == 'PRAGMA' and ev.pragma == 'table_info':
            return frozenset(['COLS'])
        return NO

    def fetch_cases(self, ev, how, st):
        if how == 'one' and ev.verb == 'SELECT' and ev.reads == ['property'] and self.is_space(ev):
            k = literal(ev.where.get('key'))
            if k in KEYS and st.mon and k not in dict(st.mon.written):
                if k in st.mon.absent:
                    return [(NONE, None)]
                t = self.row_tags(ev)
                v = U(t, notnone=True)
                if k == DEFS:
                    v = Tup((Tup((U(t, kind='str'), U(t, kind='str'))),))
                return [(Tup((v,)), None)]
        return None

    def mine(self, v, st):
        return self.eng.tags(v, st) if isinstance(v, V) else NO

    def on_compare(self, e, op, a, b, r, st, act):
        ta, tb = self.mine(a, st), self.mine(b, st)
        if isinstance(op, (ast.In, ast.NotIn)):
            cols, arg = columns(tb), bool(args_of(tb))
            if args_of(ta) and cols and not r:
                def g(bo, s):
                    ok = bo is isinstance(op, ast.In)
                    if s.mon and (s.mon.valid != 'bad'):
                        s.mon = s.mon._replace(valid='ok' if ok else 'bad')
                return g
            if 'L' in ta and (cols or arg):
                def f(bo, s):
                    if (bo is isinstance(op, ast.In)) == cols:
                        self.clean(e.left, a, s, act, 'FC' if cols else 'F')
                return f
        elif isinstance(op, (ast.Eq, ast.NotEq)) and 'L' in ta and args_of(tb):
            def h(bo, s):
                if bo is isinstance(op, ast.NotEq):
                    self.clean(e.left, a, s, act)
            return h
        return None

    def clean(self, node, v, st, act, how='F'):
        if isinstance(v, U):
            self.eng.refine(node, v, v.with_(tags=(v.tags - {'L'}) | {how}), st, act)

    def watches(self, name):
        return name.rsplit('.', 1)[-1] in ('get', 'intersection', '__and__', 'difference', '__sub__', 'issubset')

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        m = name.rsplit('.', 1)[-1]
        me = getattr(fv, 'self_', None)
        if me is None or not args or not isinstance(args[0], V) or not self.watches(name):
            return None
        ts, ta = self.mine(me, st), self.mine(args[0], st)
        if m == 'get':
            if 'L' not in ta or 'L' in ts or len(args) < 2:
                return None
            o = self.eng.hget(st, me) if isinstance(me, Ref) else None
            if o is not None and o.kind == 'dict':
                ts = NO
                for k, v in o.attrs.items():
                    if isinstance(v, V) and k != 'default':
                        ts |= self.mine(v, st)
            if not ts:
                return None
            return [(U((ta | ts) - {'L'} | {'F'}, kind='str'), st)]
        if m in ('intersection', '__and__') and ('L' in ts or 'L' in ta) and (columns(ts) or columns(ta)):
            e = U((ts | ta) - {'L'} | {'FC'}, kind='str')
            return [(self.eng.newlist(st, act, node, elem=e, kind='set'), st)]
        if m in ('difference', '__sub__'):
            if 'L' in ts and args_of(ta):
                e = U(ts - {'L'} | {'F'}, kind='str')
                return [(self.eng.newlist(st, act, node, elem=e, kind='set'), st)]
            if args_of(ts) and columns(ta):
                s2 = st.fork()
                if st.mon.valid != 'bad':
                    st.mon = st.mon._replace(valid='ok')
                s2.mon = s2.mon._replace(valid='bad')
                return [(self.eng.newlist(st, act, node, items=(), kind='set'), st),
                        (self.eng.newlist(s2, act, node, elem=U(ts, kind='str'), ne=True, kind='set'), s2)]
        if m == 'issubset' and args_of(ts) and columns(ta):
            s2 = st.fork()
            if st.mon.valid != 'bad':
                st.mon = st.mon._replace(valid='ok')
            s2.mon = s2.mon._replace(valid='bad')
            return [(C(True), st), (C(False), s2)]
        return None

    def absorbed(self, v, st):
        if isinstance(v, Ref):
            t = self.mine(v, st)
            if columns(t) and not any(p.startswith('part:') and p != 'part:1:None' for p in t):
                return frozenset(['HAS-WHOLE'])
        return NO

    def on_subscript(self, base, key, result, st):
        if 'L' in self.mine(key, st) and args_of(base.tags) and 'L' not in base.tags:
            return result.with_(tags=result.tags - {'L'} | {'F'})
        return result

    # -- names an operation was given
    def loop_begin(self, elem, node, st, act, src):
        if st.mon and st.mon.valid in ('?', 'unchecked') and args_of(self.mine(elem, st)):
            st.mon = st.mon._replace(valid='empty')
            return 'arg'
        return None

    def iter_begin(self, tok, st):
        if st.mon.valid == 'empty':
            st.mon = st.mon._replace(valid='unchecked')

    # -- reducing definitions
    def intercept(self, fn, args, kw, st, act, node, rs):
        if fn.fi.name != MIN_FUNC or not st.mon:
            return None
        outs, tags = [st], NO
        vals = [a[1] if isinstance(a, tuple) else a for a in args]
        lists = []
        for v in vals:
            if type(v).__name__ in ('GenV', 'ItV'):
                rs_ = self.eng.to_list(v, st, act, rs, node, 'list', 'fm')
                if not rs_:
                    return []
                v, st = rs_[0]
            lists.append(v)
        whole = False
        for v in lists:
            tags |= self.mine(v, st)
            q = self.eng.seq_of(v, st)
            for x in (q[0] or ()) if q is not None else ():
                if self.absorbed(x, st):
                    whole = True
            whole = whole or 'HAS-WHOLE' in (q[3] if q is not None else NO)
        tags = (tags - {'RAW', 'WHOLE', 'HAS-WHOLE'}) | {'MIN'}
        if whole:
            tags |= {'WHOLE'}
            self.eng.stats.setdefault('counts', {})
            self.count('reductions')
        inner = self.eng.newlist(st, act, node, elem=U(tags, kind='str'), kind='set', extra='fm')
        return [(self.eng.newlist(st, act, node, elem=inner, ne=True, kind='list', extra='fl'), st)]

    # -- changes
    def changed(self, kind, new, old, st):
        retag_state(st, age)
        m = st.mon
        st.mon = m._replace(changes=m.changes | {(kind, new, old)},
                            written=tuple((k, age(t)) for k, t in m.written))

    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev) or ev.temp or not st.mon:
            return
        m = st.mon
        if ev.verb == 'BEGIN':
            st.mon = m._replace(saved=(m.changes, m.written))
        elif ev.verb == 'ROLLBACK' and not ev.arg:
            if m.saved is not None:
                st.mon = m._replace(changes=m.saved[0], written=m.saved[1], saved=None)
        elif ev.verb == 'COMMIT':
            self.settle(st, act, node, 'is committed')
        elif ev.verb == 'ALTER' and last(ev.table) == 'label_index' and \
                ev.conflict in ('ADD_COLUMN', 'DROP_COLUMN', 'RENAME_COLUMN'):
            self.count('label_changes')
            names = [args_of(self.mine(h, st)) for h in ev.holes] + [NO, NO]
            if ev.conflict == 'RENAME_COLUMN':
                self.changed('RENAME', names[1], names[0], st)
            else:
                self.changed(ev.conflict[:-7], NO, names[0], st)
        elif ev.verb == 'ALTER' and ev.conflict == 'RENAME_TABLE' and last(ev.arg) == 'label_index':
            self.count('label_changes')
            self.changed('REBUILD', NO, NO, st)
        elif ev.is_write and last(ev.table) == 'property':
            k = prop_key(self.eng, ev, st)
            if k in KEYS:
                self.count('reference_writes')
                w = dict(m.written)
                if ev.verb == 'DELETE':
                    w[k] = NO
                elif ev.verb == 'UPDATE' and k in m.absent and k not in w:
                    return      # there is nothing to update
                else:
                    w[k] = self.mine(prop_value(ev), st)
                st.mon = m._replace(written=tuple(sorted(w.items())))

    def settle(self, st, act, node, how):
        if st.mon.changes or st.mon.written:
            self.judge(st, act, node)
        st.mon = st.mon._replace(changes=NO, written=(), saved=None)

    def judge(self, st, act, node):
        raise NotImplementedError

    def at_return(self, name, v, st, act, node):
        if st.mon:
            self.settle(st, act, node, 'completes')


class LabelRefCheck(EngineCheck):
    """Spaces with both properties, without a display order, and without labels."""

    def variants(self, name):
        if any(w in name for w in ('label', 'column', 'partition')):
            return (None, 'no order', 'empty')
        return (None,)

    def arg_value(self, method, name, ann, variant):
        return U(sym=('param', name), tags=['arg:' + name, 'RAW'])
