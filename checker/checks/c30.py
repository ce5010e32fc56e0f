"""C30: default link and default weight group stay unique and valid."""
import ast
from collections import namedtuple

from ..frame import EngineCheck
from ..project import AnalysisBroken
from ..rules import SpaceMonitor, literal, prop_key, prop_value
from ..values import C, NONE, TRUE, Tup, U, V

# loops: (site, treated); unset: every link from the space was unmarked; no: was not asked to make it a default
# wg: '' | 'deleted'; same: None | True | False (deleted group is the default one); asked/stored for weight groups
M = namedtuple('M', 'loops unset no wg same asked stored')
DWG = 'default_weight_group_id'
NO = frozenset()


def last(n):
    return (n or '').split('.')[-1].strip('"').lower()


def mentions(test, word):
    return any((isinstance(x, ast.Name) and x.id == word) or (isinstance(x, ast.Attribute) and x.attr == word)
               or (isinstance(x, ast.Constant) and x.value == word) for x in ast.walk(test))


def outcome(test, b):
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, b = test.operand, not b
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant):
        c = test.comparators[0].value
        if c is None:
            return None
        if isinstance(test.ops[0], (ast.NotEq, ast.IsNot)):
            b = not b
        if not c:
            b = not b
    return b


class DefaultMonitor(SpaceMonitor):
    tag_ifexp = True

    def initial(self):
        cols = [c.name for c in self.eng.schema.tables['link'].cols]
        self.mark = f'pos:{cols.index("is_default")}'
        return M((), '', False, '', None, None, False)

    def row_tags(self, ev):
        if ev.verb != 'SELECT' or not self.is_space(ev):
            return NO
        if ev.reads == ['link']:
            t = {'LINK'}
            ups = {x.up for x in ev.toks}
            if not ups & {'LIMIT', 'GROUP', 'HAVING', 'DISTINCT', 'OFFSET', 'AND', 'OR'} and \
                    set(ev.where) <= {'other_unique_id'} and (ev.where or not ev.wheretext):
                w = ev.where.get('other_unique_id')
                t.add('SIBLINGS')
                if self.same_space(w):
                    t.add('SAME' if ev.where else 'ALL')
            return frozenset(t)
        if ev.reads == ['property'] and literal(ev.where.get('key')) == DWG:
            return frozenset(['DWG'])
        if ev.reads == ['weight_group']:
            return frozenset(['WG'])
        return NO

    def fetch_cases(self, ev, how, st):
        if how == 'one' and ev.verb == 'SELECT' and ev.reads == ['property'] and st.mon \
                and literal(ev.where.get('key')) == DWG:
            def f(s):
                s.mon = s.mon._replace(same=False)
            return [(Tup((U(['DWG'], notnone=True),)), None), (NONE, f)]
        return None

    def same_space(self, w):
        """Are these the links from the space that a link found before comes from (or all)?"""
        w = w[1] if isinstance(w, tuple) else w
        return w is None or isinstance(w, U) and bool({'LINK', 'mixed'} & w.tags)

    # -- loops over the links from one space
    def loop_begin(self, elem, node, st, act, src):
        if 'SIBLINGS' in self.eng.tags(elem, st):
            if src is not None and 'part' in src[1].tags:
                return None
            return self.eng.where(node, act) + f'/{len(act.stack)}/' + self.reach(self.eng.tags(elem, st))
        return None

    def reach(self, tags):
        return 'same' if 'SAME' in tags else 'all' if 'ALL' in tags else 'arg'

    def iter_begin(self, tok, st):
        st.mon = st.mon._replace(loops=tuple(x for x in st.mon.loops if x[0] != tok) + ((tok, 'no'),))

    def iter_end(self, tok, st):
        # 'part' stays: some link was passed over
        st.mon = st.mon._replace(loops=tuple((a, 'part' if a == tok and b == 'no' else b) for a, b in st.mon.loops))

    def loop_end(self, tok, st, kind):
        if not st.mon:
            return
        x = dict(st.mon.loops).get(tok)
        st.mon = st.mon._replace(loops=tuple(y for y in st.mon.loops if y[0] != tok))
        if x is None:
            if kind != 'closed' and not tok.endswith('/all'):
                self.cleared(st, tok.rsplit('/', 1)[-1])
        elif x == 'yes' and kind != 'closed':
            self.count('sibling_loops')
            self.cleared(st, tok.rsplit('/', 1)[-1])

    def cleared(self, st, reach):
        if st.mon.unset != 'same':
            st.mon = st.mon._replace(unset='arg' if reach == 'arg' else 'same')

    def on_atom(self, e, v, b, st, act):
        if not st.mon:
            return
        tags = self.eng.tags(v, st) if isinstance(v, V) else NO
        if not b and isinstance(v, V) and not isinstance(v, U) and 'SIBLINGS' in tags and 'part' not in tags:
            self.cleared(st, self.reach(tags))
        o = outcome(e, b)
        own = {'LINK', self.mark} <= tags or any(isinstance(x, ast.Attribute) and x.attr == 'is_default' for x in ast.walk(e))
        if o is False and own and 'arg:changes' not in tags:
            if any(x == 'no' for _, x in st.mon.loops):
                self.treated(st)
        elif o is False and (mentions(e, 'is_default') or 'arg:is_default' in tags):
            st.mon = st.mon._replace(no=True)
        if (mentions(e, 'make_default') or 'arg:make_default' in tags) and o is not None:
            st.mon = st.mon._replace(asked=o)

    def treated(self, st):
        st.mon = st.mon._replace(loops=tuple((a, 'yes' if b == 'no' else b) for a, b in st.mon.loops))

    def on_compare(self, e, op, a, b, r, st, act):
        if not isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) or not st.mon:
            return None
        tags = (self.eng.tags(a, st) if isinstance(a, V) else NO, self.eng.tags(b, st) if isinstance(b, V) else NO)
        eq = isinstance(op, (ast.Eq, ast.Is))
        for tx, ty in (tags, tags[::-1]):
            if 'DWG' in ty and ('WG' in tx and ('pos:0' in tx or 'id' in tx) or any(t.startswith('arg:') for t in tx)):
                def f(bo, s):
                    s.mon = s.mon._replace(same=(bo == eq))
                return f
        return None

    # -- changes
    def after_sql(self, ev, cur, st, act, node):
        m = st.mon
        if not m or not self.is_space(ev) or ev.temp:
            return
        r = self.eng.report
        t = last(ev.table)
        if ev.verb == 'COMMIT':
            self.settle(st, act, node)
        elif ev.is_write and t == 'link' and ev.verb in ('INSERT', 'UPDATE') and \
                ('is_default' in ev.colvals or 'is_default' in ev.cols):
            self.count('link_writes')
            v = ev.colvals.get('is_default')
            if isinstance(v, V):
                falsy = isinstance(v, C) and not v.v or isinstance(v, U) and v.truth is False
                tags = self.eng.tags(v, st)
            else:
                falsy = v is None or str(v[1] if isinstance(v, tuple) else v).strip().upper() in ('NULL', '0')
                tags = NO
            if falsy:
                if ev.verb == 'UPDATE':
                    if any(b == 'no' for _, b in m.loops):
                        self.treated(st)
                    elif not ev.where or set(ev.where) == {'other_unique_id'}:
                        self.cleared(st, 'same' if self.same_space(ev.where.get('other_unique_id')) else 'arg')
                return
            sure = isinstance(v, C) or not isinstance(v, V)
            if ev.verb == 'UPDATE' and not sure and (
                    'mixed' in tags or 'LINK' in tags and not any(x.startswith('arg:') for x in tags)):
                return      # keeps its own mark
            self.count('link_marks')
            if m.unset == 'same' or (m.unset and ev.verb == 'INSERT') or (m.no and not sure):
                return
            r('default-link-not-moved', node, act, 'a link is marked as default while another link from the same space may '
              'still be marked', st, key=(self.eng.entry, ev.verb))
        elif t == 'weight_group' and ev.verb == 'DELETE':
            self.count('group_deletions')
            st.mon = m._replace(wg='deleted')
        elif t == 'property' and ev.is_write and prop_key(self.eng, ev, st) == DWG:
            self.count('default_group_writes')
            if ev.verb == 'DELETE':
                if m.same is not True:
                    r('default-group-lost', node, act, 'the default weight group is cleared although it was not found to be '
                      'the one that is removed', st, key=(self.eng.entry,))
                st.mon = m._replace(stored=True, wg='')
                return
            v = prop_value(ev)
            tags = self.eng.tags(v, st) if isinstance(v, V) else NO
            ok = 'WG' in tags and ('pos:0' in tags or 'id' in tags) or any(x.startswith('arg:') for x in tags)
            if not ok and not (isinstance(v, C) and v.v in (None, 'null')):
                r('default-group-invalid', node, act, 'the default weight group is set to something that is not the id of a '
                  'weight group', st, key=(self.eng.entry,))
            st.mon = m._replace(stored=True, wg='' if not ok else m.wg)

    def settle(self, st, act, node):
        m = st.mon
        if m.wg and m.same is not False:
            self.eng.report('default-group-dangling', node, act, 'a weight group is removed and may stay registered as the '
                            'default weight group', st, key=(self.eng.entry,))
        st.mon = m._replace(wg='', unset='')

    def at_return(self, name, v, st, act, node):
        if not st.mon:
            return
        self.settle(st, act, node)
        m = st.mon
        if (name == 'set_default_weight_group' or m.asked is True) and not m.stored:
            self.eng.report('default-group-not-set', node, act, 'a weight group should become the default but is not '
                            'registered', st, key=(name,))

    def at_raise(self, name, e, st, act, node):
        if st.mon and st.mon.wg and st.mon.same is False and getattr(e, 'name', '') == 'KeyError':
            self.eng.report('default-group-required', node, act, 'removing a weight group fails because none is registered as '
                            'default', st, key=(name,))


class C30(EngineCheck):
    id = 'C30'
    monitor = DefaultMonitor
    technique = 'inter-procedural typestate analysis of default marks, and a schema rule'
    level_note = ('All paths of all public operations. At most one marked link per space follows from the table definition '
                  '(UNIQUE over mark and space, mark 1 or NULL), which is checked; at most one default group because it is a '
                  'property. Whether a group given by the caller belongs to the space is not decided.')
    explanation = ('A link may be marked as default only after every link from the same space was unmarked (or found unmarked) '
                   'in the operation; removing a weight group clears the default exactly when it was found to be the default; '
                   'a group that is to be the default is registered with its id.')
    rules = ('default-not-unique', 'default-link-not-moved', 'default-group-dangling', 'default-group-lost',
             'default-group-invalid', 'default-group-not-set', 'default-group-required')
    floors = {'entry_points': 50, 'link_writes': 10, 'link_marks': 2, 'group_deletions': 1, 'default_group_writes': 3,
              'sibling_loops': 2}

    def arg_value(self, method, name, ann, variant):
        if name == 'weight_group':
            return U(sym=('param', name), tags=['arg:' + name], notnone=True, truth=True)
        return super().arg_value(method, name, ann, variant)

    def finish(self, results):
        out, cov = super().finish(results)
        t = self.eng.schema.tables.get('link')
        if t is None:
            raise AnalysisBroken('no link table')
        c = t.col('is_default')
        ok = any(set(u) == {'is_default', 'other_unique_id'} for u in t.uniques)
        chk = ' '.join(str(x) for x in c.checks) if c is not None else ''
        if not ok or 'IS NULL' not in chk.upper():
            out = list(out) + [{'rule': 'default-not-unique', 'where': 'src/toron/dal1/schema.py', 'function': 'link',
                                'message': 'table link does not restrict is_default to one marked row per other_unique_id',
                                'key': 'schema'}]
        cov['schema_obligations'] = 2
        return out, cov


check = C30
