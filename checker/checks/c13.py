"""C13: the undefined record is permanent and index ids are never reused."""
import re
from collections import namedtuple

from ..frame import LEGACY, EngineCheck
from ..rules import SpaceMonitor
from ..schema import table_of
from ..sqlmini import truth_of_expr
from ..values import C, FALSE, Tup, TRUE, U, V

# tabs: tables made by this operation -> facts; facts: guards of label_index lost or made
M = namedtuple('M', 'tabs have lost saved')
NO = frozenset()
LABEL_TABLES = ('label_index', 'label_location', 'label_structure')
ALL = ('row0', 'UPDATE', 'DELETE')
TEXT = {'row0': 'the undefined record (index_id 0) is not stored',
        'UPDATE': 'no trigger refuses changes of the undefined record',
        'DELETE': 'no trigger refuses the removal of the undefined record'}


def last(n):
    return (n or '?').split('.')[-1]


class UndefMonitor(SpaceMonitor):
    def initial(self):
        return M((), frozenset(ALL), NO, None)

    def fetch_cases(self, ev, how, st):
        if how != 'all' or ev.verb != 'PRAGMA' or ev.pragma != 'table_info' or ev.arg not in LABEL_TABLES:
            return None
        first = {'label_index': 'index_id', 'label_location': '_location_id', 'label_structure': '_structure_id'}[ev.arg]
        names = [C(first)] + ([C('_granularity')] if ev.arg == 'label_structure' else [])
        names += [U(['TI'], kind='str'), U(['TI'], kind='str')]
        return [(tuple(Tup((C(k), n, C('TEXT'), C(0), C(None), C(0))) for k, n in enumerate(names)), None)]

    # -- facts
    def tab(self, st, name):
        return dict(st.mon.tabs).get(name)

    def set_tab(self, st, name, facts):
        d = dict(st.mon.tabs)
        if facts is None:
            d.pop(name, None)
        else:
            d[name] = facts
        st.mon = st.mon._replace(tabs=tuple(sorted(d.items())))

    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        m = st.mon
        t = last(ev.table)
        if ev.verb == 'BEGIN':
            st.mon = m._replace(saved=(m.tabs, m.have, m.lost))
        elif ev.verb == 'ROLLBACK' and not ev.arg:
            if m.saved is not None:
                st.mon = M(*m.saved, None)
        elif ev.verb == 'CREATE' and ev.kindword == 'TABLE' and not ev.temp:
            self.created(ev, st, act, node)
        elif ev.verb == 'DROP' and ev.kindword == 'TABLE':
            n = last(ev.name)
            if n == 'label_index':
                st.mon = m._replace(have=NO)
                self.count('index_table_rebuilt')
                new = [(k, f) for k, f in m.tabs if 'index' in f]
                for k, f in new:
                    if 'copied' not in f:
                        self.eng.report('undefined-record-lost', node, act, 'label_index is dropped before its records '
                                        'are copied', st, key=(self.eng.entry, 'copy'))
                    if 'seq' not in f:
                        self.eng.report('ids-reused', node, act, 'label_index is dropped before its id sequence is carried '
                                        f'over to {k}: ids of deleted records would be given out again', st,
                                        key=(self.eng.entry, 'seq'))
                self.set_tab(st, n, None)
            else:
                self.set_tab(st, n, None)
        elif ev.verb == 'ALTER' and ev.conflict == 'RENAME_TABLE':
            f = self.tab(st, t)
            if f is not None:
                self.set_tab(st, t, None)
                new = last(ev.arg)
                self.set_tab(st, new, f)
                if new == 'label_index' and 'copied' in f:
                    st.mon = st.mon._replace(have=st.mon.have | {'row0'})
        elif ev.verb == 'CREATE' and ev.kindword == 'TRIGGER':
            self.trigger(ev, st, act, node)
        elif ev.verb == 'DROP' and ev.kindword == 'TRIGGER':
            n = last(ev.name).lower()
            gone = [k for k in ('UPDATE', 'DELETE') if self.names.get(n) == k]
            st.mon = st.mon._replace(have=st.mon.have - set(gone))
        elif ev.is_write and t == 'sqlite_sequence':
            self.sequence(ev, st, act, node)
        elif ev.verb == 'INSERT' and (t == 'label_index' or 'index' in (self.tab(st, t) or ())):
            self.insert(ev, t, st, act, node)
        elif ev.verb == 'UPDATE' and t == 'label_index':
            self.count('index_updates')
            if any(c.lower() == 'index_id' for c in ev.cols):
                self.eng.report('index-id-changed', node, act, 'an index_id is overwritten', st)
            if ev.conflict == 'REPLACE':
                self.eng.report('index-record-replaced', node, act, 'UPDATE OR REPLACE removes records with the same '
                                'labels (also the undefined record) without running the triggers', st)

    def created(self, ev, st, act, node):
        n = last(ev.name)
        t = table_of(ev.text, '', '')
        if t is None:
            return
        cols = {c.name.strip('"'): c for c in t.cols}
        f = set()
        first = t.cols[0] if t.cols else None
        if first is not None and first.name == 'index_id' and first.pk:
            f.add('index')
            self.count('index_tables')
            if first.autoincrement and first.type == 'INTEGER':
                f.add('auto')
        if 'weight_value' in cols and 'index_id' in cols:
            f.add('weight')
            cs = [x for c in t.cols for x in c.checks] + t.checks
            if any(truth_of_expr(x, {'INDEX_ID': 0}) is False for x in cs):
                f.add('wcheck')
        if 'mapping_value' in cols and 'other_index_id' in cols:
            f.add('mapping')
            cs = [x for c in t.cols for x in c.checks] + t.checks
            if any(truth_of_expr(x, {'INDEX_ID': 0, 'OTHER_INDEX_ID': 0}) is False for x in cs):
                f.add('mcheck')
        self.set_tab(st, n, frozenset(f))
        if n == 'label_index':
            st.mon = st.mon._replace(have=NO)

    def trigger(self, ev, st, act, node):
        ups = [t.up for t in ev.toks]
        if last(ev.table) != 'label_index':
            return
        on = ups.index('ON')
        kind = next((k for k in ('UPDATE', 'DELETE', 'INSERT') if k in ups[:on]), None)
        if kind is None or kind == 'INSERT':
            return
        k = ups.index(kind)
        good = ups[k + 1] == 'ON'            # not UPDATE OF some columns
        begin = ups.index('BEGIN') if 'BEGIN' in ups else len(ups)
        if 'WHEN' in ups[:begin]:
            w = ups.index('WHEN')
            text = ' '.join(ups[w + 1:begin]).replace('OLD . ', '')
            good = good and truth_of_expr(text, {'INDEX_ID': 0}) is True
        body = ups[begin:]
        how = next((body[j + 2] for j, u in enumerate(body) if u == 'RAISE' and j + 2 < len(body)), None)
        before = 'BEFORE' in ups[:k]
        good = good and how is not None and (before or how in ('ABORT', 'ROLLBACK')) and 'WHERE' not in body
        self.count('triggers')
        if good:
            self.names[last(ev.name).lower()] = kind
            st.mon = st.mon._replace(have=st.mon.have | {kind})

    def sequence(self, ev, st, act, node):
        text = ev.text
        lits = re.findall(r"'([^']*)'", text)
        idx = [n for n, f in st.mon.tabs if 'index' in f]
        if ev.verb in ('UPDATE', 'INSERT') and 'SELECT' in text.upper() and 'label_index' in lits:
            for n in idx:
                f = self.tab(st, n)
                if n in lits and ('copied' in f or ev.verb == 'INSERT'):
                    self.set_tab(st, n, f | {'seq'})
                    return
            return
        self.eng.report('ids-reused', node, act, f'{ev.verb} sqlite_sequence changes which ids are given out', st)

    def insert(self, ev, t, st, act, node):
        self.count('index_inserts')
        if ev.conflict == 'REPLACE':
            self.eng.report('index-record-replaced', node, act, 'INSERT OR REPLACE removes records with the same labels '
                            '(also the undefined record) without running the triggers', st)
        if ev.reads:
            ups = [x.up for x in ev.toks]
            f = self.tab(st, t)
            full = last(ev.reads[0]) == 'label_index' and len(ev.reads) == 1 and \
                not {'WHERE', 'LIMIT', 'DISTINCT', 'GROUP', 'EXCEPT'} & set(ups)
            k = ups.index('SELECT')
            first = ups[k + 1] == '*' or ups[k + 1].strip('"') == 'INDEX_ID' or ups[k + 3:k + 4] == ['INDEX_ID']
            if f is not None and full and first:
                self.set_tab(st, t, f | {'copied'})
            elif f is not None and full:
                self.eng.report('index-id-changed', node, act, 'records are copied without their index_id', st)
            else:
                self.eng.report('undefined-record-lost', node, act, 'only a part of the index records is copied', st)
            return
        if ev.cols:
            v = next((ev.colvals.get(c) for c in ev.cols if c.lower() == 'index_id'), None)
        else:
            v = ev.colvals.get(0)
        if v is None:
            return
        if isinstance(v, tuple):
            if v[1].upper() == 'NULL':
                return
            if v[1] == '0':
                st.mon = st.mon._replace(have=st.mon.have | {'row0'})
                return
        elif isinstance(v, C):
            if v.v is None:
                return
            if v.v == 0:
                st.mon = st.mon._replace(have=st.mon.have | {'row0'})
                return
        self.eng.report('explicit-index-id', node, act, 'a new index record is given an explicit id, which may be that of '
                        'a deleted record', st)

    def at_return(self, name, v, st, act, node):
        m = st.mon
        for n, f in m.tabs:
            if 'index' in f and n == 'label_index' and 'auto' not in f:
                self.eng.report('ids-reused', node, act, 'label_index is created without AUTOINCREMENT: ids of deleted '
                                'records are given out again', st, key=(self.eng.entry, 'auto'))
            if n == 'weight' and 'weight' in f and 'wcheck' not in f:
                self.eng.report('undefined-record-weight', node, act, 'table weight is created without a check that refuses '
                                'index_id 0', st, key=(self.eng.entry, 'weight'))
            if n == 'mapping' and 'mapping' in f and 'mcheck' not in f:
                self.eng.report('undefined-to-undefined', node, act, 'table mapping is created without a check that refuses '
                                'a mapping from undefined to undefined', st, key=(self.eng.entry, 'mapping'))
        for k in ALL:
            if k not in m.have:
                self.eng.report('undefined-record-unprotected', node, act, f'after this operation {TEXT[k]}', st,
                                key=(self.eng.entry, k))


class Seen(UndefMonitor):
    """Learns the names of the triggers."""

    def after_sql(self, ev, cur, st, act, node):
        if ev.verb == 'CREATE' and ev.kindword == 'TRIGGER':
            st.mon, old = self.initial(), st.mon
            self.trigger(ev, st, act, node)
            st.mon = old


class C13(EngineCheck):
    id = 'C13'
    monitor = UndefMonitor
    technique = 'inter-procedural typestate analysis of the tables, triggers and id sequence of index records'
    level_note = ('All paths of all public operations, creation in memory and on drive, opening (with upgrades) and the '
                  'legacy column functions. Trusts SQLite to enforce CHECK constraints, triggers and AUTOINCREMENT, and '
                  'older files to contain their undefined record.')
    explanation = ('A created or rebuilt space has the undefined record, triggers refusing to change or delete it, checks '
                   'refusing to weight it or to map undefined to undefined, and AUTOINCREMENT ids whose sequence is carried '
                   'over; no statement writes an explicit index_id, changes one, or replaces index records by conflict.')
    rules = ('undefined-record-unprotected', 'undefined-record-lost', 'undefined-record-weight', 'undefined-to-undefined',
             'ids-reused', 'index-id-changed', 'explicit-index-id', 'index-record-replaced')
    extra_entries = LEGACY + ('read_file', 'bind_file', 'create.mem', 'create.drive')
    floors = {'entry_points': 50, 'index_inserts': 20, 'index_updates': 5, 'triggers': 10, 'index_tables': 4,
              'index_table_rebuilt': 2}

    def make_monitor(self):
        m = self.monitor()
        m.names = dict(self.names)
        return m

    def make_start(self, eng, kind):
        seen = Seen()
        seen.eng, seen.names = eng, {}
        eng.monitor, old = seen, eng.monitor
        try:
            return super().make_start(eng, kind)
        finally:
            eng.monitor = old
            self.names = seen.names

    def extra(self, name, eng, v, st, act, rs, node):
        if name.startswith('create.'):
            ds = self.proj.cls('toron.space', 'DataSpace')
            st.mon = M((), NO, NO, None)
            return eng.instantiate(ds, [], {'cache_to_drive': TRUE if name.endswith('drive') else FALSE}, st, act, rs, node)
        return super().extra(name, eng, v, st, act, rs, node)


check = C13
