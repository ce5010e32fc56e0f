"""C07: the stored index fingerprint describes the current index ids."""
from collections import namedtuple

from ..frame import EngineCheck
from ..rules import FeedMonitor, prop_key, prop_value, retag_state
from ..values import C, V

M = namedtuple('M', 'stale loops partial')
T = 'IDS'
OLD = 'IDS-OLD'


def age(tags):
    return (tags - {T}) | {OLD} if T in tags else tags


class HashMonitor(FeedMonitor):
    feed_tag = T

    def initial(self):
        return M(False, (), False)

    def row_tags(self, ev):
        if ev.verb == 'SELECT' and ev.reads == ['label_index'] and not ev.wheretext and ev.cols[:1] == ['index_id'] \
                and not any(t.up in ('LIMIT', 'WHERE', 'GROUP', 'HAVING', 'EXCEPT', 'JOIN', 'DESC', 'MAX', 'MIN')
                            for t in ev.toks):
            o = ev.order.lower().replace('asc', '').strip()
            if o in ('index_id', 'label_index . index_id', '1'):
                return frozenset([T])
        return frozenset()

    def changes_ids(self, ev):
        if ev.table != 'label_index':
            return False
        return ev.verb in ('INSERT', 'DELETE') or ev.verb == 'UPDATE' and 'index_id' in ev.cols

    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        m = st.mon
        if ev.verb == 'SELECT' and self.row_tags(ev):
            st.mon = m = m._replace(partial=False, loops=())
            self.count('index_id_scans')
        if self.changes_ids(ev):
            self.count('index_record_changes')
            retag_state(st, age)
            st.mon = m._replace(stale=True)
        elif ev.table == 'property' and ev.is_write:
            k = prop_key(self.eng, ev, st)
            if k is None:
                v = ev.colvals.get('key') if ev.verb == 'INSERT' else ev.where.get('key')
                if not isinstance(v, V):
                    self.eng.report('property-key-unknown', node, act,
                                    f'{ev.verb} property for a key that cannot be determined: may change the fingerprint',
                                    st, key=(self.eng.entry, act.fi.qualname))
            if k == 'index_hash':
                self.count('fingerprint_writes')
                v = prop_value(ev)
                tags = self.eng.tags(v, st) if isinstance(v, V) else frozenset()
                if ev.verb == 'DELETE':
                    self.bad('removed', ev, st, act, node)
                elif T not in tags:
                    why = 'from index ids read before the last change of the index' if OLD in tags else \
                        'with a value not computed from all index ids in ascending order'
                    self.bad(f'written {why}', ev, st, act, node)
                elif OLD in tags:
                    self.bad('written from a mix of index ids from before and after the change', ev, st, act, node)
                elif m.partial:
                    self.bad('computed from a loop that passes over some index ids', ev, st, act, node)
                st.mon = st.mon._replace(stale=False)
        elif ev.verb == 'ROLLBACK':
            st.mon = m._replace(stale=False)
        elif ev.verb == 'COMMIT' and m.stale:
            self.stale(st, act, node)

    def bad(self, why, ev, st, act, node):
        self.eng.report('fingerprint-wrong', node, act, f'the stored fingerprint is {why}', st,
                        key=(self.eng.entry, why))

    def stale(self, st, act, node):
        self.eng.report('fingerprint-stale', node, act,
                        'index records were added or removed, and the operation completes without recomputing the '
                        'stored fingerprint afterwards', st, key=(self.eng.entry,))
        st.mon = st.mon._replace(stale=False)

    def at_return(self, name, v, st, act, node):
        if st.mon.stale:
            self.stale(st, act, node)


class C07(EngineCheck):
    id = 'C07'
    monitor = HashMonitor
    technique = 'inter-procedural derived-state (freshness) dataflow analysis over SQL effects'
    level_note = ('All paths of all public operations. Decides that a value flowing from a complete, ordered, unfiltered '
                  'read of index_id made after the last change is stored before commit; that the digest itself is '
                  'SHA-256 of those ids is taken from the feeding call.')
    explanation = ('INSERT/DELETE/UPDATE of index ids makes the stored fingerprint stale and ages all values read before; '
                   'only a write of property index_hash whose value flows from an unfiltered, ascending read of all '
                   'index ids after the change, every element consumed, makes it fresh; commit or return while stale is '
                   'reported, and so is any other write of index_hash.')
    rules = ('fingerprint-stale', 'fingerprint-wrong', 'property-key-unknown')
    floors = {'entry_points': 50, 'fingerprint_writes': 4, 'index_record_changes': 8}


check = C07
