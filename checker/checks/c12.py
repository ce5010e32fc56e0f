"""C12: deleting a record leaves no orphaned weights, mappings or quantities."""
from collections import namedtuple

from ..frame import EngineCheck
from ..rules import ForAllMonitor
from ..schema import create_tables
from ..values import C, Ref, V

# loops: see ForAllMonitor; done: (child table, kept ids?, key value) whose rows were all removed
M = namedtuple('M', 'loops done')
NO = frozenset()

REQUIRED = (('weight', 'weight_group_id', 'weight_group'), ('weight', 'index_id', 'label_index'),
            ('mapping', 'link_id', 'link'), ('mapping', 'index_id', 'label_index'),
            ('quantity', '_location_id', 'label_location'), ('quantity', 'attribute_group_id', 'attribute_group'))
OLD_NAMES = {'node_index': 'label_index', 'location': 'label_location', 'structure': 'label_structure'}
PARENTS = {p for _, _, p in REQUIRED}
CHILDREN = {c for c, _, _ in REQUIRED}
PK = {'weight': 'weight_id', 'mapping': 'mapping_id', 'quantity': 'quantity_id'}


class OrphanMonitor(ForAllMonitor):
    def initial(self):
        return M((), NO)

    def entry_begin(self, name, v, args, kw, st, act):
        self.sets = {}

    sets = {}

    # -- reading the rows that refer to a record
    def row_tags(self, ev):
        if ev.verb == 'SELECT' and len(ev.reads) == 1 and ev.reads[0] in CHILDREN and \
                (ev.cols[:1] in (['*'], [PK[ev.reads[0]]])):
            t = {'CH:' + ev.reads[0]}
            if len(ev.where) == 1 and ' AND ' not in ev.wheretext.upper() and \
                    not any(x.up in ('LIMIT', 'OR') for x in ev.toks):
                col, = ev.where
                if (ev.reads[0], col) in {(c, k) for c, k, _ in REQUIRED}:
                    t.add(f'BY:{ev.reads[0]}:{col}')
            return frozenset(t)
        return NO

    def which(self, tags):
        for t in tags:
            if t.startswith('BY:'):
                return t[3:]
        return None

    def kind_of_loop(self, tags, elem, st):
        w = self.which(tags)
        if w is None:
            return None
        if isinstance(elem, Ref) or 'pos:0' not in tags:
            return ('ROW', w)
        return ('SET', w)

    def loop_begin(self, elem, node, st, act, src):
        r = super().loop_begin(elem, node, st, act, src)
        return r

    def on_collect(self, v, st):
        if isinstance(v, V) and not isinstance(v, Ref):
            t = self.eng.tags(v, st)
            w = self.which(t)
            if w and 'pos:0' in t and not any(x.startswith('pos:') and x != 'pos:0' for x in t):
                self.consume(st, ('ROW', w), 'kept')

    def all_done(self, kind, st, tok):
        k, w = kind
        m = st.mon
        if k == 'ROW' and tok.did == 'kept':
            st.mon = m._replace(done=m.done | {(w, 'kept')})
        elif k == 'ROW' or (w, 'kept') in m.done:
            st.mon = m._replace(done=m.done - {(w, 'kept')} | {(w, 'gone')})

    # -- statements
    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        if ev.verb == 'ROLLBACK':
            st.mon = self.initial()
            return
        if not ev.is_write:
            return
        fkcols = {c for t, c, _ in REQUIRED if t == ev.table}
        if ev.verb == 'DELETE' and ev.table in PARENTS or \
                fkcols and (ev.verb == 'INSERT' or ev.verb == 'UPDATE' and fkcols & set(ev.cols)):
            self.count('checked_statements')
            conn = self.eng.hget(st, ev.conn) if isinstance(ev.conn, Ref) else None
            fk = conn.attrs.get('fk') if conn is not None else None
            if not (isinstance(fk, C) and fk.v is True):
                self.eng.report('references-not-enforced', node, act,
                                f'{ev.verb} {ev.table} can run on a connection of the space where foreign keys are not '
                                'enforced: related rows are not removed and missing records are accepted', st,
                                key=(ev.verb, ev.table, ev.site, self.eng.entry.split('[')[0]))
        if ev.verb == 'DELETE' and ev.table in CHILDREN:
            pk = PK[ev.table]
            v = ev.where.get(pk)
            t = self.eng.tags(v, st) if isinstance(v, V) else NO
            w = self.which(t)
            if w and w.startswith(ev.table + ':'):
                # through the row itself or a kept id
                self.consume(st, ('ROW', w), 'del')
                self.consume(st, ('SET', w), 'del')
            elif len(ev.where) == 1 and ' AND ' not in ev.wheretext.upper():
                col, = ev.where
                if col in fkcols:
                    st.mon = st.mon._replace(done=st.mon.done | {(f'{ev.table}:{col}', 'gone')})
        if ev.verb == 'DELETE' and ev.table in PARENTS:
            for c, col, p in REQUIRED:
                if p != ev.table or self.cascades(c, col):
                    continue
                self.count('explicit_removals')
                if (f'{c}:{col}', 'gone') not in st.mon.done:
                    self.eng.report('related-rows-left', node, act,
                                    f'a row of {p} is deleted before every {c} row that refers to it was removed (its '
                                    f'foreign key does not cascade)', st, key=(self.eng.entry, c, col))

    def cascades(self, table, col):
        t = self.eng.schema.tables.get(table)
        return t is not None and any(c == col and r['on_delete'] == 'CASCADE' for c, r in t.fks)


class C12(EngineCheck):
    id = 'C12'
    monitor = OrphanMonitor
    technique = ('schema reference check plus inter-procedural dataflow: enforcement state of every connection, '
                 'for-all removal of dependent rows')
    level_note = ('The declared foreign keys (current schema and tables rebuilt by migrations) are read from the DDL in the '
                  'source; every DELETE of a parent row and INSERT of a dependent row is required to run with enforcement '
                  'on, for new, cached, loaded and bound spaces. SQLite itself carries out cascades and rejections.')
    explanation = ('Obligations: each reference column of weight, mapping and quantity is a foreign key to its parent; a '
                   'delete of a parent either cascades or is preceded on every path by the removal of every referring row; '
                   'every such statement executes on a connection whose last effective PRAGMA foreign_keys is ON.')
    rules = ('references-not-enforced', 'related-rows-left', 'foreign-key-missing')
    starts = ('mem', 'drive', ('read_file', ()), ('bind_file', (('mode', C('rw')),)))
    floors = {'entry_points': 50, 'checked_statements': 20, 'explicit_removals': 4}
    SAMPLE = ('drop_weight_group', 'drop_link', 'insert_weights', 'insert_mappings2', 'insert_quantities2',
              'delete_weights', 'delete_index', 'reify_mappings', 'add_weight_group', 'delete_quantities_without_index',
              'delete_quantities_without_structure')

    def tasks(self):
        return [t for t in super().tasks() if t[0][0] == 'mem' or t[0][1] in self.SAMPLE]

    def finish(self, results):
        reports, cov = super().finish(results)
        n = 0
        for mod in ('toron.dal1.schema', 'toron.dal1.migrations'):
            for t in create_tables(self.proj, mod):
                name = t.name[4:] if t.name.startswith('new_') else t.name
                name = OLD_NAMES.get(name, name)
                for c, col, p in REQUIRED:
                    if c != name or t.col(col) is None:
                        continue
                    n += 1
                    refs = [r for k, r in t.fks if k == col]
                    targets = {OLD_NAMES.get(r['table'].split('.')[-1], r['table'].split('.')[-1]) for r in refs}
                    bad = None
                    if targets != {p}:
                        bad = f'is not a foreign key to {p}'
                    elif mod.endswith('migrations') and refs[0]['on_delete'] != self.action(c, col):
                        bad = f'has ON DELETE {refs[0]["on_delete"]} where the current schema has {self.action(c, col)}'
                    elif refs[0]['on_delete'] in ('SET NULL', 'SET DEFAULT'):
                        bad = f'keeps rows of a deleted {p} (ON DELETE {refs[0]["on_delete"]})'
                    elif refs[0]['on_delete'] is None and (c, col) not in self.explicit():
                        bad = None      # decided by related-rows-left
                    if bad:
                        reports.append({'rule': 'foreign-key-missing', 'where': t.site, 'function': f'{mod}.{t.func}',
                                        'construct': f'{t.name}.{col}', 'message': f'column {col} of {t.name} {bad}'})
        cov['foreign_key_columns'] = n
        return reports, cov

    def explicit(self):
        return ()

    def action(self, c, col):
        t = self.eng.schema.tables.get(c)
        for k, r in t.fks if t else ():
            if k == col:
                return r['on_delete']
        return None


check = C12
