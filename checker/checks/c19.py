"""C19: opening an older file upgrades it completely, or leaves it unchanged."""
import ast
import re
from collections import namedtuple

from ..frame import EngineCheck
from ..project import AnalysisBroken
from ..rules import SpaceMonitor, literal, prop_key, prop_value
from ..schema import table_of
from ..sqlmini import split_top, truth_of_expr
from ..values import C, Ref, Tup, U, V

# ver: version recorded now; orig: version found in the file; fk: outcome of the reference check after the last change
# wrote/commits/faulted; tabs: {table: state}; keys: properties inserted
M = namedtuple('M', 'ver orig fk wrote commits faulted tabs keys')
NO = frozenset()
OTHER = '99.0.0'
# the documented contents of the older formats
OLD_TABLES = {'0.2.0': ('attribute_group', 'crosswalk', 'location', 'node_index', 'property', 'quantity', 'relation',
                        'structure', 'weight', 'weight_group')}
OLD_KEYS = ('toron_schema_version', 'toron_app_version', 'unique_id', 'index_hash')
NEW_KEYS = {'0.2.0': ('registered_attributes', 'partition_definitions')}
SUCCESSOR = {'crosswalk': 'link', 'relation': 'mapping', 'node_index': 'label_index', 'location': 'label_location',
             'structure': 'label_structure'}
RENAMED = {'crosswalk_id': 'link_id', 'relation_id': 'mapping_id', 'relation_value': 'mapping_value'}


def last(n):
    return (n or '?').split('.')[-1]


def plain(v):
    return v.strip('"') if isinstance(v, str) else v


class UpgradeMonitor(SpaceMonitor):
    fault_names = ('sqlite3.OperationalError', 'KeyboardInterrupt')
    fault_integrity = False

    def initial(self):
        return M(None, None, None, False, 0, False, (), NO)

    def may_fault(self, name, node, act, st):
        if not name.startswith('sql:') or name in ('sql:ROLLBACK', 'sql:PRAGMA'):
            return False
        return st.mon.wrote and not st.mon.faulted

    def on_fault(self, exc, name, st, node, act):
        st.mon = st.mon._replace(faulted=True)

    # -- what is found in the file
    def is_version_query(self, ev):
        return ev.verb == 'SELECT' and last(ev.table) == 'property' and literal(ev.where.get('key')) == \
            'toron_schema_version'

    def fetch_cases(self, ev, how, st):
        if self.is_version_query(ev) and st.mon.orig is None:
            out = []
            for v in self.versions:
                def f(s, v=v):
                    p = plain(v)
                    t = OLD_TABLES.get(p, tuple(self.current_tables))
                    s.mon = s.mon._replace(ver=v, orig=p, tabs=tuple((x, 'old') for x in sorted(t)))
                row = Tup((C(v),))
                out.append((row if how == 'one' else (row,), f))
            return out
        if ev.verb == 'PRAGMA' and ev.pragma == 'foreign_key_check':
            self.count('reference_checks')

            def g(x):
                def h(s):
                    s.mon = s.mon._replace(fk=x)
                return h
            row = U(kind='row')
            if how == 'one':
                return [(C(None), g('ok')), (row, g('bad'))]
            return [((), g('ok')), ((row,), g('bad'))]
        return None

    def loop_begin(self, elem, node, st, act, src):
        if src is None:
            return None
        ev = self.eng.sites.get(src[1].attrs.get('q')) if src[1].kind == 'cursor' else None
        if ev is not None and ev.verb == 'PRAGMA' and ev.pragma == 'foreign_key_check' and st.mon.fk != 'bad':
            st.mon = st.mon._replace(fk='ok')
            return 'fk'
        return None

    def iter_begin(self, tok, st):
        st.mon = st.mon._replace(fk='bad')

    def iter_end(self, tok, st):
        pass

    def loop_end(self, tok, st, kind):
        pass

    # -- what is done to it
    def src_conn(self, ref, st):
        o = st.heap.get(ref.id) if isinstance(ref, Ref) else None
        db = o.attrs.get('db') if o is not None else None
        return isinstance(db, V) and 'arg:path' in self.eng.tags(db, st)

    def on_conn(self, what, ref, args, st, act, node):
        super().on_conn(what, ref, args, st, act, node)
        if what == 'backup' and self.eng.entry == 'read_file':
            self.count('copies')
            tgt = args if isinstance(args, Ref) else None
            if not self.src_conn(ref, st) or (tgt is not None and self.src_conn(tgt, st)):
                self.eng.report('file-changed', node, act, 'the file being read is the target of the copy', st)

    def after_sql(self, ev, cur, st, act, node):
        m = st.mon
        if (ev.is_write or ev.is_ddl) and not ev.temp and self.eng.entry == 'read_file' and self.src_conn(ev.conn, st):
            self.eng.report('file-changed', node, act, f'{ev.verb} {ev.table} changes the file being read', st)
        if m.orig is None and not m.tabs and ev.verb == 'CREATE' and ev.kindword == 'TABLE' and not ev.temp:
            st.mon = m._replace(tabs=((last(ev.name), 'created'),))     # a new file, or one of unknown format
        if m.orig is None or ev.temp or not self.is_space(ev):
            return
        if ev.verb == 'ROLLBACK' and not ev.arg:
            st.mon = M(m.orig, m.orig, None, False, m.commits, m.faulted,
                       tuple((x, 'old') for x in sorted(OLD_TABLES.get(m.orig, tuple(self.current_tables)))), NO)
            return
        if ev.verb == 'COMMIT':
            self.commit(st, act, node)
            return
        if not (ev.is_write or ev.is_ddl):
            return
        self.count('upgrade_statements')
        if plain(m.orig) == plain(self.current):
            self.eng.report('current-file-changed', node, act, f'{ev.verb} {ev.table} changes a file that already has the '
                            'current format', st)
            return
        if ev.intx is False:
            self.eng.report('upgrade-not-atomic', node, act, f'{ev.verb} {ev.table} is outside the upgrade\'s transaction: '
                            'a failure leaves the file half upgraded', st, key=(act.fi.qualname, ev.verb, ev.table))
        m = m._replace(wrote=True)
        t = last(ev.table)
        if ev.is_ddl and ev.kindword in ('TABLE', None) or (ev.is_write and t != 'property' and not t.startswith('sqlite_')):
            m = m._replace(fk=None)
        st.mon = m
        if ev.verb == 'CREATE' and ev.kindword == 'TABLE':
            self.set_tab(st, last(ev.name), ('new', ev.text))
        elif ev.verb == 'DROP' and ev.kindword == 'TABLE':
            n = last(ev.name)
            d = dict(m.tabs)
            if d.get(n) == 'old' and not any(isinstance(x, tuple) and x[0] == 'full' and x[2] == n for x in d.values()):
                self.eng.report('records-lost', node, act, f'table {n} is dropped before its records are copied', st,
                                key=(n,))
            self.set_tab(st, n, None)
        elif ev.verb == 'ALTER' and ev.conflict == 'RENAME_TABLE':
            self.rename(t, last(ev.arg), st, act, node)
        elif ev.verb == 'INSERT' and t == 'property':
            k = prop_key(self.eng, ev, st)
            if k is not None:
                st.mon = st.mon._replace(keys=st.mon.keys | {k})
            if k == 'toron_schema_version':
                st.mon = st.mon._replace(ver=literal(prop_value(ev)))
        elif ev.verb == 'UPDATE' and t == 'property':
            if ev.where.get('key') is None and 'value' in ev.cols:
                self.eng.report('records-lost', node, act, 'every property is overwritten', st)
            k = literal(ev.colvals.get('key'))
            if k is not None:
                st.mon = st.mon._replace(keys=st.mon.keys | {k})
            if prop_key(self.eng, ev, st) == 'toron_schema_version' and 'value' in ev.colvals:
                st.mon = st.mon._replace(ver=literal(prop_value(ev)))
        elif ev.verb == 'DELETE':
            self.eng.report('records-lost', node, act, f'records of {t} are deleted by the upgrade', st)
        elif ev.verb == 'INSERT' and ev.reads:
            self.copy(ev, t, st, act, node)

    def set_tab(self, st, n, x):
        d = dict(st.mon.tabs)
        d.pop(n, None)
        if x is not None:
            d[n] = x
        st.mon = st.mon._replace(tabs=tuple(sorted(d.items(), key=str)))

    def rename(self, t, new, st, act, node):
        d = dict(st.mon.tabs)
        x = d.get(t)
        if x is None:
            return
        self.set_tab(st, t, None)
        self.set_tab(st, new, x)
        if isinstance(x, tuple):
            bad = self.differs(x[1], new)
            if bad:
                self.eng.report('format-incomplete', node, act, f'the upgraded table {new} is not as in the current format: '
                                f'{bad}', st, key=(new, bad))
        elif SUCCESSOR.get(t) != new:
            self.eng.report('format-incomplete', node, act, f'table {t} is renamed to {new}', st, key=(t, new))

    def differs(self, text, name):
        want = self.eng.schema.tables.get(name)
        got = table_of(text, '', '')
        if want is None or got is None:
            return 'no such table' if want is None else None
        a, b = [c.name for c in want.cols], [c.name for c in got.cols]
        if a != b and set(a) == set(b) and self.named_access(name):
            pass
        elif a != b:
            return f'columns {b} instead of {a}'
        for c in want.cols:
            g = got.col(c.name)
            if c.notnull and not g.notnull:
                return f'{c.name} may be NULL'
            if (c.pk, c.autoincrement) != (g.pk, g.autoincrement):
                return f'primary key of {c.name}'
            if c.type != g.type:
                return f'type of {c.name}'
            if len(g.checks) < len(c.checks):
                return f'check of {c.name} is missing'
        if len(got.checks) < len(want.checks):
            return 'a check is missing'
        if set(want.uniques) - set(got.uniques):
            return f'unique {sorted(set(want.uniques) - set(got.uniques))[0]} is missing'
        f = {(c, r['table'], r['on_delete'], r['deferred']) for c, r in want.fks}
        g = {(c, SUCCESSOR.get(r['table'], r['table']), r['on_delete'], r['deferred']) for c, r in got.fks}
        if f - g:
            return f'reference {sorted(f - g, key=str)[0]} is missing'
        return None

    @staticmethod
    def named_access(name):
        return False

    def copy(self, ev, t, st, act, node):
        d = dict(st.mon.tabs)
        x = d.get(t)
        src = last(ev.reads[0])
        if not isinstance(x, tuple) or d.get(src) != 'old':
            return
        self.count('tables_copied')
        tab = table_of(x[1], '', '')
        cols = list(ev.cols) or [c.name for c in tab.cols]
        ups = [k.up for k in ev.toks]
        i = ups.index('SELECT') + 1
        k = ups.index('FROM', i)
        items = [y for y in split_top(ev.toks[i:k]) if y]
        grouped = 'GROUP' in ups
        bad = None
        if set(cols) != {c.name for c in tab.cols}:
            bad = f'columns {sorted({c.name for c in tab.cols} - set(cols))} are not copied'
        elif len(items) == 1 and items[0][-1].t == '*':
            pass
        elif len(items) != len(cols):
            bad = f'{len(items)} values for {len(cols)} columns'
        else:
            for c, y in zip(cols, items):
                names = {RENAMED.get(z.t.strip('"').lower(), z.t.strip('"').lower()) for z in y if z.k in ('word', 'qid')}
                if c.lower() not in names:
                    bad = f'{c} is filled from {" ".join(z.t for z in y)}'
                fn = y[0].up if len(y) > 1 and y[1].t == '(' else None
                if grouped and c.lower() == 'quantity_value' and fn not in ('SUM', 'TOTAL'):
                    bad = 'values of records that are put together are not added up'
                if fn in ('SUM', 'TOTAL', 'MAX', 'COUNT', 'AVG') and not (grouped and c.lower() == 'quantity_value'):
                    bad = f'{c} is filled from {" ".join(z.t for z in y)}'
        if 'LIMIT' in ups or 'DISTINCT' in ups or len(ev.reads) > 1 or 'JOIN' in ups:
            bad = bad or 'only some of the records are copied'
        if any(u == 'OR' for u in ups[1:2]):
            bad = bad or 'records that conflict are left out'
        if 'WHERE' in ups:
            j = ups.index('WHERE') + 1
            e = next((n for n in range(j, len(ups)) if ups[n] in ('GROUP', 'ORDER', ';')), len(ups))
            text = ' '.join(y.t for y in ev.toks[j:e])
            for a in (0, 1):
                for b in (0, 1):
                    v = truth_of_expr(text, {'OTHER_INDEX_ID': a, 'INDEX_ID': b})
                    if (a or b) and v is not True:
                        bad = bad or f'only records with {text} are copied'
        if grouped:
            g = ups.index('GROUP') + 2
            e = next((n for n in range(g, len(ups)) if ups[n] in ('HAVING', 'ORDER', ';')), len(ups))
            gc = tuple(y[-1].t.strip('"') for y in split_top(ev.toks[g:e]) if y)
            if 'HAVING' in ups or not any(set(u) <= set(gc) for u in tab.uniques):
                bad = bad or f'records are put together by {gc}'
        if bad:
            self.eng.report('records-lost', node, act, f'copying {src} for the upgrade: {bad}', st, key=(src, bad))
        self.set_tab(st, t, ('full', x[1], src))

    def commit(self, st, act, node):
        m = st.mon
        if not m.wrote:
            return
        self.count('upgrade_commits')
        r = self.eng.report
        if m.commits:
            r('upgrade-not-atomic', node, act, 'the upgrade is committed in more than one piece', st)
        if m.faulted:
            r('upgrade-after-error', node, act, 'the upgrade is committed although a part of it failed', st)
        if m.fk != 'ok':
            how = 'was not verified after the last change' if m.fk is None else 'was found broken'
            r('references-not-verified', node, act, f'the upgrade is committed although reference integrity {how}', st,
              key=(m.fk,))
        if plain(m.ver) != plain(self.current):
            r('format-incomplete', node, act, f'a {m.orig} file is committed with version {m.ver}', st, key=(m.orig, m.ver))
        elif m.ver != self.current:
            r('format-incomplete', node, act, f'the version is recorded as {m.ver} instead of {self.current}', st)
        t = {n for n, _ in m.tabs}
        if t != set(self.current_tables):
            r('format-incomplete', node, act, f'a {m.orig} file is committed with other tables than the current format: '
              f'{sorted(t ^ set(self.current_tables))}', st, key=(m.orig, 'tables'))
        need = (set(self.current_keys) - set(OLD_KEYS)) | set(NEW_KEYS.get(m.orig, ()))
        miss = need - m.keys
        if miss:
            r('format-incomplete', node, act, f'a {m.orig} file is committed without properties {sorted(miss)}', st,
              key=(m.orig, tuple(sorted(miss))))
        st.mon = m._replace(commits=1, wrote=False)

    def at_return(self, name, v, st, act, node):
        m = st.mon
        if m.orig is None:
            if not m.tabs:
                self.eng.report('not-upgraded', node, act, 'a file is opened without looking at its version', st)
            return
        if m.orig == OTHER:
            self.eng.report('unsupported-accepted', node, act, 'a file in an unsupported format is opened', st)
        elif plain(m.ver) != plain(self.current) or m.wrote:
            self.eng.report('not-upgraded', node, act, f'a {m.orig} file is opened without being upgraded', st,
                            key=(m.orig,))


class Seen(SpaceMonitor):
    """The format of a new space."""

    def __init__(self):
        super().__init__()
        self.keys, self.version, self.tables = set(), None, set()

    def initial(self):
        return ()

    def after_sql(self, ev, cur, st, act, node):
        if ev.verb == 'INSERT' and last(ev.table) == 'property':
            k = prop_key(self.eng, ev, st)
            if k is not None:
                self.keys.add(k)
            if k == 'toron_schema_version':
                self.version = literal(prop_value(ev))
        if ev.verb == 'CREATE' and ev.kindword == 'TABLE' and not ev.temp:
            self.tables.add(last(ev.name))


class C19(EngineCheck):
    id = 'C19'
    monitor = UpgradeMonitor
    technique = 'inter-procedural typestate analysis of the file upgrade with injected failures, and comparison of formats'
    level_note = ('All paths of opening a file by reading or binding, for every version named in the code and one that is not; '
                  'every statement of the upgrade may fail. Trusts that ROLLBACK and closing undo an open transaction, that '
                  'files contain what their format documents, and does not evaluate the values written.')
    explanation = ('For each version: writes lie in one transaction, the commit comes after an empty foreign_key_check of the '
                   'final tables, with the current version, the current tables (columns, keys, checks, references) and the '
                   'current properties; old tables are dropped only after all their records were copied; unknown versions '
                   'raise, the current version is not touched, and a file being read is never written.')
    rules = ('file-changed', 'current-file-changed', 'upgrade-not-atomic', 'upgrade-after-error', 'references-not-verified',
             'format-incomplete', 'records-lost', 'unsupported-accepted', 'not-upgraded')
    only_methods = ()
    extra_entries = ('read_file', 'bind_file')
    fault = 1
    floors = {'entry_points': 2, 'upgrade_statements': 50, 'tables_copied': 6, 'copies': 2}

    def make_start(self, eng, kind):
        seen = Seen()
        seen.eng = eng
        eng.monitor, old = seen, eng.monitor
        try:
            return super().make_start(eng, kind)
        finally:
            eng.monitor = old
            if seen.version is None or len(seen.keys) < 5 or len(seen.tables) < 8:
                raise AnalysisBroken('the format of a new space was not recognised')
            self.seen = seen

    def versions(self):
        """Every version constant the connector and the migrations mention, and one they do not."""
        vs = set()
        for m in ('toron.dal1.migrations', 'toron.dal1.data_connector', 'toron.dal1.schema'):
            for x in ast.walk(self.proj.modules[m].tree):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    if re.fullmatch(r'"?\d+\.\d+\.\d+"?', x.value):
                        vs.add(plain(x.value))
        vs |= {plain(self.seen.version), OTHER}
        if len(vs) < 3:
            raise AnalysisBroken('no older versions found')
        return sorted(vs | {f'"{v}"' for v in vs})

    def make_monitor(self):
        m = self.monitor()
        m.current, m.current_tables, m.current_keys = self.seen.version, sorted(self.seen.tables), sorted(self.seen.keys)
        m.versions = self.versions()
        return m


check = C19
