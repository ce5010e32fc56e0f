"""C08: partition structure and granularity follow every index or partition change."""
from collections import namedtuple

from ..frame import EngineCheck
from ..rules import ForAllMonitor, prop_key, retag_state
from ..values import C, V

M = namedtuple('M', 'loops gran struct cleared renamed nodefs')
NO = frozenset()      # why the granularity is stale (kinds of change)
OLD = {'IDX': 'IDX-OLD', 'PDEF': 'PDEF-OLD'}


def ager(name):
    def f(tags):
        return (tags - {name}) | {OLD[name]} if name in tags else tags
    return f


class StructMonitor(ForAllMonitor):
    def initial(self):
        return M((), NO, False, False, False, False)

    def row_tags(self, ev):
        if ev.verb != 'SELECT':
            return frozenset()
        t = set()
        if 'label_index' in ev.reads:
            t.add('IDX')
        if ev.reads == ['property'] and isinstance(ev.where.get('key'), C) and \
                ev.where['key'].v == 'partition_definitions':
            t.add('PDEF')
        if ev.reads == ['label_structure'] and not ev.wheretext and \
                not any(x.up in ('LIMIT', 'WHERE') for x in ev.toks):
            t.add('STRUCT')
        return frozenset(t)

    def kind_of_loop(self, tags, elem, st):
        if 'STRUCT' in tags:
            return 'STRUCT'
        if 'PDEF' in tags and 'PDEF-OLD' not in tags:
            return 'PDEF'
        return None

    def all_done(self, kind, st, tok):
        m = st.mon
        if kind == 'STRUCT' and tok.did == 'upd':
            st.mon = m._replace(gran=NO)
        elif kind == 'STRUCT' and tok.did == 'del':
            st.mon = m._replace(cleared=True, struct=True)
        elif kind == 'PDEF' and tok.did == 'add' and m.cleared:
            self.count('structure_rebuilt')
            st.mon = m._replace(gran=NO, struct=False, cleared=False)

    def iter_begin(self, tok, st):
        if tok[1] == 'PDEF' and st.mon.nodefs:
            st.mon = st.mon._replace(nodefs=False)
        if tok[1] == 'STRUCT' and st.mon.cleared:
            st.mon = st.mon._replace(cleared=False)
        super().iter_begin(tok, st)

    def good(self, v, st):
        if isinstance(v, C):
            return v.v is None
        tags = self.eng.tags(v, st) if isinstance(v, V) else frozenset()
        return 'IDX' in tags and 'IDX-OLD' not in tags

    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        m = st.mon
        if 'PDEF' in self.row_tags(ev):
            m = st.mon = m._replace(nodefs=True)        # until one of them is seen
        if 'STRUCT' in self.row_tags(ev):
            m = self.settle(m)
            m = st.mon = m._replace(cleared=True)       # until one of them is seen
        if ev.table == 'label_index' and (
                ev.verb in ('INSERT', 'DELETE') or ev.verb == 'UPDATE'):
            self.count('index_changes')
            retag_state(st, ager('IDX'))
            st.mon = m._replace(gran=m.gran | {ev.verb})
        elif ev.table == 'label_index' and ev.verb == 'ALTER' and ev.conflict in ('ADD_COLUMN', 'DROP_COLUMN') or \
                ev.verb == 'ALTER' and ev.conflict == 'RENAME_TABLE' and ev.arg == 'label_index':
            self.count('column_changes')
            retag_state(st, ager('IDX'))
            st.mon = m._replace(gran=m.gran | {'COL'}, struct=True)
        elif ev.verb == 'ALTER' and ev.conflict == 'RENAME_COLUMN' and ev.table == 'label_structure':
            self.saw_rename = True
            st.mon = m._replace(renamed=True)
        elif ev.table == 'property' and ev.is_write and prop_key(self.eng, ev, st) == 'partition_definitions':
            self.count('definition_changes')
            retag_state(st, ager('PDEF'))
            if not m.renamed:
                st.mon = m._replace(struct=m.struct or 'pdef')
        elif ev.table == 'label_structure' and ev.verb == 'DELETE':
            if not ev.wheretext:
                st.mon = m._replace(cleared=True, struct=True)
            else:
                st.mon = m._replace(struct=True)
                self.consume(st, 'STRUCT', 'del')
        elif ev.verb == 'ALTER' and ev.conflict == 'RENAME_TABLE' and ev.arg == 'label_structure' and m.renamed is False:
            st.mon = m._replace(cleared=True, struct=True)
        elif ev.table == 'label_structure' and ev.verb == 'INSERT':
            v = ev.colvals.get('_granularity', ev.colvals.get(1))
            if self.good(v, st):
                self.consume(st, 'PDEF', 'add')
            if not any(x[1] == 'PDEF' for x in m.loops):
                st.mon = st.mon._replace(struct=True)
        elif ev.table == 'label_structure' and ev.verb == 'UPDATE':
            if '_granularity' in ev.cols and self.good(ev.colvals.get('_granularity'), st):
                self.count('granularity_updates')
                self.consume(st, 'STRUCT', 'upd')
            else:
                st.mon = m._replace(gran=m.gran | {'ROW'})
        elif ev.verb == 'ROLLBACK':
            st.mon = self.initial()
        elif ev.verb == 'COMMIT':
            self.check_fresh(st, act, node)

    def settle(self, m):
        """Without definitions an empty structure is right; an empty structure has no granularity."""
        if m.cleared and m.nodefs and m.struct or m.cleared and m.gran and not m.struct:
            m = m._replace(struct=False, gran=NO)
        return m

    def check_fresh(self, st, act, node):
        m = self.settle(st.mon)
        if m.gran and not m.struct:
            self.eng.report('granularity-stale', node, act,
                            'index records or labels were changed and the operation completes without recomputing every '
                            'granularity value from the index as it is after the change', st, key=(self.eng.entry, 'g'))
        if m.struct == 'pdef':
            # (an operation that renames columns may be asked to rename none)
            self.later.append((node, act, st.fork()))
        elif m.struct:
            self.stale(node, act, st)
        st.mon = self.initial()

    def entry_begin(self, name, v, args, kw, st, act):
        self.saw_rename, self.later = False, []

    saw_rename, later = False, []

    def entry_end(self):
        if not self.saw_rename:
            for x in self.later:
                self.stale(*x)

    def stale(self, node, act, st):
        self.eng.report('structure-stale', node, act,
                            'label columns or partition definitions were changed and the operation completes without '
                            'rebuilding the structure from the current definitions', st, key=(self.eng.entry, 's'))

    def at_return(self, name, v, st, act, node):
        self.check_fresh(st, act, node)


class C08(EngineCheck):
    id = 'C08'
    monitor = StructMonitor
    technique = 'inter-procedural derived-state (freshness) dataflow analysis with for-all loop rules'
    level_note = ('All paths of all public operations. Decides that every structure row is rewritten with a value flowing '
                  'from the index as it is after the last change (or the structure is emptied and refilled from the current '
                  'definitions) before commit; the numeric formula itself is C42 (not applicable).')
    explanation = ('Changes of index records, label columns and partition definitions make granularity/structure stale and '
                   'age all values read before. Fresh again only after a loop over all structure rows that updates every '
                   'one with a value flowing from the index read after the change, or after deleting all rows and '
                   'inserting one per set generated from the definitions read after the change.')
    rules = ('granularity-stale', 'structure-stale')
    floors = {'entry_points': 50, 'index_changes': 8, 'definition_changes': 4, 'granularity_updates': 4,
              'structure_rebuilt': 4}


check = C08
