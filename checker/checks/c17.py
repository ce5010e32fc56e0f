"""C17: names are validated before they become labels or attributes."""
import ast
from collections import namedtuple

from ..frame import LEGACY, EngineCheck, called_names, reaching
from ..project import AnalysisBroken
from ..rules import SpaceMonitor, literal, prop_key, prop_value
from ..values import C, NONE, Ref, Tup, U, V

# cur: loops over given names: (token, kinds tested in this iteration, kinds tested in every one so far or None)
# facts: (arguments, kinds); bad: arguments for which a conflict was found
M = namedtuple('M', 'cur facts bad attrs')
NO = frozenset()
COMMON = frozenset(['domain', 'index_id', 'value', 'weight'])
RES, COLS, ATTR, SELF = 'reserved names', 'label columns', 'attributes', 'the other names'
LABEL_TABLES = ('label_index', 'label_location', 'label_structure')
PROP = 'registered_attributes'


def last(n):
    return (n or '').split('.')[-1].strip('"').lower()


ALTER = ('lower', 'upper', 'casefold', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'removeprefix',
         'removesuffix', 'swapcase')


def args_of(tags):
    a = frozenset(t for t in tags if t.startswith('arg:'))
    return (a | {'VAL'}) if a and 'VAL' in tags else (a | {'KEY'} if a and 'KEY' in tags else a)


class NameMonitor(SpaceMonitor):
    def initial(self):
        return M((), NO, NO, 'no attributes' not in self.eng.entry)

    # -- what names are compared with
    def row_tags(self, ev):
        if ev.verb == 'SELECT' and ev.reads == ['property'] and self.is_space(ev) and literal(ev.where.get('key')) == PROP:
            return frozenset([ATTR])
        if ev.verb == 'PRAGMA' and ev.pragma == 'table_info':
            return frozenset([COLS])
        return NO

    def fetch_cases(self, ev, how, st):
        if how == 'one' and ATTR in self.row_tags(ev) and st.mon:
            if not st.mon.attrs:
                return [(NONE, None)]
            return [(Tup((U([ATTR], notnone=True),)), None)]
        return None

    def mine(self, v, st):
        return self.eng.tags(v, st) if isinstance(v, V) else NO

    def kinds(self, v, st):
        """What does a test against this collection rule out?"""
        t = self.mine(v, st)
        if args_of(t):
            q = self.eng.seq_of(v, st)
            return frozenset([SELF]) if q is not None else NO
        out = set()
        q = self.eng.seq_of(v, st)
        if q is not None:
            items = list(q[0] or ())
            out |= {('name', x.v) for x in items if isinstance(x, C)}
            if q[0] is not None and not items and isinstance(v, Ref):
                out.add(SELF)
        elif isinstance(v, C) and isinstance(v.v, (tuple, frozenset, set, list)):
            out |= {('name', x) for x in v.v}
        if 'part' not in t or ('slice1' in t and 'slice2' not in t):
            out |= {k for k in (COLS, ATTR) if k in t}
        return frozenset(out)

    def on_compare(self, e, op, a, b, r, st, act):
        if not st.mon:
            return None
        who = args_of(self.mine(a, st))
        if not who or 'altered' in self.mine(a, st):
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            k = self.kinds(b, st)
            if not k:
                return None
            return lambda bo, s: self.tested(s, who, k, bo is isinstance(op, ast.In))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(b, C) and isinstance(b.v, str):
                k = frozenset([('name', b.v)])
                return lambda bo, s: self.tested(s, who, k, bo is isinstance(op, ast.Eq))
            if args_of(self.mine(b, st)) == who and 'len' in ast.dump(e):
                k = frozenset([SELF])
                return lambda bo, s: self.tested(s, who, k, bo is not isinstance(op, ast.Eq))
        return None

    def tested(self, s, who, kinds, conflict):
        m = s.mon
        if not m:
            return
        if conflict:
            if kinds != {SELF}:
                s.mon = m._replace(bad=m.bad | {who})
            return
        hit = False
        cur = []
        for tok, w, now, done in m.cur:
            if w == who:
                now, hit = now | kinds, True
            cur.append((tok, w, now, done))
        if hit:
            s.mon = m._replace(cur=tuple(cur))
        else:
            s.mon = m._replace(facts=m.facts | {(who, k) for k in kinds})

    def watches(self, name):
        return name.rsplit('.', 1)[-1] in ('intersection', '__and__', 'isdisjoint', 'keys', 'values', 'items', 'get',
                                            'count') or name.rsplit('.', 1)[-1] in ALTER

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        n = name.rsplit('.', 1)[-1]
        me = getattr(fv, 'self_', None)
        if me is None or not st.mon:
            return None
        ts = self.mine(me, st)
        if n in ALTER:
            return [(U(ts | {'altered'}, kind='str'), st)] if args_of(ts) else None
        if n == 'count' and args and isinstance(args[0], V):
            who, k = args_of(self.mine(args[0], st)), self.kinds(me, st)
            if not who or not k:
                return None
            s2 = st.fork()
            self.tested(st, who, k, False)
            self.tested(s2, who, k, True)
            return [(C(0), st), (C(1), s2)]
        if n in ('keys', 'values', 'items', 'get'):
            if not isinstance(me, U) or not args_of(ts) or {'KEY', 'VAL'} & ts:
                return None
            if n == 'keys':
                return [(me.with_(tags=ts | {'KEY'}, sym=None), st)]
            if n == 'values':
                return [(me.with_(tags=ts | {'VAL'}, sym=None), st)]
            if n == 'items':
                e = Tup((U(ts | {'KEY'}), U(ts | {'VAL'})))
                return [(self.eng.newlist(st, act, node, elem=e), st)]
            return [(U(ts | {'VAL'} | self.mine(args[0], st) if args else ts), st)]
        if not args or not isinstance(args[0], V):
            return None
        for a, b in ((me, args[0]), (args[0], me)):
            who = args_of(self.mine(a, st))
            k = self.kinds(b, st) - {SELF}
            if who and k:
                s2 = st.fork()
                self.tested(st, who, k, False)
                self.tested(s2, who, k, True)
                if n == 'isdisjoint':
                    return [(C(True), st), (C(False), s2)]
                return [(self.eng.newlist(st, act, node, items=(), kind='set'), st),
                        (self.eng.newlist(s2, act, node, elem=U(self.mine(a, st)), ne=True, kind='set'), s2)]
        return None

    def on_subscript(self, base, key, result, st):
        if args_of(base.tags) and not {'KEY', 'VAL'} & base.tags and not isinstance(key, C):
            return result.with_(tags=result.tags - {'KEY'} | {'VAL'})
        return result

    # -- loops over names
    def loop_begin(self, elem, node, st, act, src):
        who = args_of(self.mine(elem, st))
        if who and st.mon:
            if src is not None and 'part' in src[1].tags:
                return None
            return (self.eng.where(node, act) + f'/{len(act.stack)}', who)
        return None

    def iter_begin(self, tok, st):
        m = st.mon
        site, who = tok
        done = next((x[3] for x in m.cur if x[0] == site), None)
        st.mon = m._replace(cur=tuple(x for x in m.cur if x[0] != site) + ((site, who, NO, done),))

    def iter_end(self, tok, st):
        m = st.mon
        st.mon = m._replace(cur=tuple((a, w, NO, now if done is None else now & done) if a == tok[0] else (a, w, now, done)
                                      for a, w, now, done in m.cur))

    def loop_end(self, tok, st, kind):
        m = st.mon
        if not m:
            return
        site, who = tok
        x = next((x for x in m.cur if x[0] == site), None)
        m = m._replace(cur=tuple(y for y in m.cur if y[0] != site))
        if kind != 'closed':
            k = frozenset(['*']) if x is None or x[3] is None else x[3]
            m = m._replace(facts=m.facts | {(who, y) for y in k})
            # tested within an outer loop over the same collections
            m = m._replace(cur=tuple((a, w, now | k if w == who else now, done) for a, w, now, done in m.cur))
        st.mon = m

    # -- where names go
    def need(self, who, kinds, st, act, node, what):
        m = st.mon
        r = self.eng.report
        key = (self.eng.entry, what)
        flag = who & {'KEY', 'VAL'}
        if any(w & who - flag and w & {'KEY', 'VAL'} == flag for w in m.bad):
            r('name-conflict', node, act, f'{what} although a name was found to be in conflict', st, key=key)
            return
        have = None
        for a in who - flag:
            h = {k for w, k in m.facts if a in w and w & {'KEY', 'VAL'} == flag}
            if '*' not in h:
                have = h if have is None else have & h
        if have is None:
            return
        miss = [k for k in kinds if k not in have and (k != ATTR or m.attrs)]
        if miss:
            names = sorted(k[1] for k in miss if isinstance(k, tuple))
            say = [k for k in miss if not isinstance(k, tuple)] + ([RES + ' ' + ', '.join(names)] if names else [])
            r('name-not-checked', node, act, f'{what} without having compared the new names with: ' + '; '.join(sorted(say)), st,
              key=key)

    def reserved(self):
        if self._res is None:
            names = set(COMMON)
            for t in LABEL_TABLES:
                tab = self.eng.schema.tables.get(t)
                if tab is None:
                    raise AnalysisBroken(f'no table {t}')
                names |= {c.name for c in tab.cols}
            self._res = frozenset(('name', n) for n in names)
        return self._res
    _res = None

    def label_kinds(self):
        return sorted(self.reserved()) + [COLS, ATTR]

    def after_sql(self, ev, cur, st, act, node):
        m = st.mon
        if not m or not self.is_space(ev) or ev.temp:
            return
        if ev.verb == 'ALTER' and ev.conflict in ('ADD_COLUMN', 'RENAME_COLUMN'):
            if last(ev.table) not in LABEL_TABLES:
                return
            self.count('new_columns')
            names = [h for h in ev.holes if args_of(self.mine(h, st))]
            if ev.conflict == 'RENAME_COLUMN':
                names = [h for h in names[-1:] if 'KEY' not in self.mine(h, st)]
            for h in names:
                self.need(args_of(self.mine(h, st)), self.label_kinds(), st, act, node, 'a label column is ' + (
                    'added' if ev.conflict == 'ADD_COLUMN' else 'renamed'))
        elif ev.verb == 'CREATE' and ev.holes:
            for h in ev.holes:
                w = args_of(self.mine(h, st))
                if 'VAL' in w:
                    self.count('new_columns')
                    self.need(w, self.label_kinds(), st, act, node, 'label columns are renamed')
        elif ev.is_write and last(ev.table) == 'property' and prop_key(self.eng, ev, st) == PROP and ev.verb != 'DELETE':
            v = prop_value(ev)
            w = args_of(self.mine(v, st))
            if w:
                self.count('attribute_writes')
                self.need(w, sorted(self.reserved()) + [COLS, SELF], st, act, node, 'attributes are registered')


class C17(EngineCheck):
    id = 'C17'
    monitor = NameMonitor
    technique = 'inter-procedural dataflow: must-have-been-compared facts for names, up to the statements that create columns'
    level_note = ('All paths of all public operations and the legacy rename. Reserved names: those of the fixed columns of the '
                  'tables that get label columns (from the schema), and domain, index_id, value, weight. Names that differ only in '
                  'case are left to the database, which refuses them.')
    explanation = ('Every name that an operation was given and that becomes a label column (ADD COLUMN, RENAME COLUMN, table '
                   'rebuild) was compared with all reserved names, the current label columns and the registered attributes on '
                   'each path, with a hit never leading there; names registered as attributes were compared with the reserved names, '
                   'the label columns and each other.')
    rules = ('name-not-checked', 'name-conflict')
    extra_entries = LEGACY


    def entry_methods(self):
        def marked(f):
            names = called_names(f)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    t = ' '.join(x.value.upper().split())
                    if 'ADD COLUMN' in t or 'RENAME COLUMN' in t or \
                            x.value == PROP and names & {'add', 'update', 'add_or_update', 'execute', 'executemany'}:
                        return True
            return False
        ok = reaching(self.proj, marked)
        out = {n: m for n, m in super().entry_methods().items() if n in ok}
        if len(out) < 4:
            raise AnalysisBroken('operations that change labels not found')
        return out

    def variants(self, name):
        if any(w in name for w in ('label', 'column', 'attribute', 'legacy')):
            return (None, 'no attributes')
        return (None,)

    floors = {'entry_points': 6, 'new_columns': 4, 'attribute_writes': 1}

check = C17
