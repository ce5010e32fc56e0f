"""C16: iterating over results is never disturbed by other queries in the operation."""
from ..frame import ALL_EXTRA, EngineCheck
from ..rules import SpaceMonitor

NO = frozenset()


class CursorMonitor(SpaceMonitor):
    """``st.mon``: set of ('read', cursor, depth) readings that were disturbed and
    ('lazy', cursor, site, disturbed) results which are handed out before they are read."""

    def initial(self):
        return NO

    def loop_begin(self, elem, node, st, act, src):
        if src is None or src[1].kind != 'cursor':
            return None
        self.count('result_loops')
        ref = src[0]
        site = self.eng.where(node, act)
        for x in st.mon:
            if x[0] == 'lazy' and x[1] == ref.id and x[2] == site:
                if x[3]:
                    self.eng.report('result-replaced', node, act,
                                    'rows of a query are read after another query was issued through the same cursor: '
                                    'the rows of the other query are read instead', st, key=(self.eng.entry, site))
                st.mon = st.mon - {x}
        return (ref.id, len(st.iters) - 1, site, node, act)

    def iter_begin(self, tok, st):
        x = ('read', tok[0], tok[1])
        if x in st.mon:
            st.mon = st.mon - {x}

    def iter_end(self, tok, st):
        x = ('read', tok[0], tok[1])
        if x in st.mon:
            self.eng.report('reading-disturbed', tok[3], tok[4],
                            'the rows of a query are still being read when another statement is issued through the same '
                            'cursor, and the reading goes on afterwards', st, key=(self.eng.entry, tok[2]))
            st.mon = st.mon - {x}

    def loop_end(self, tok, st, kind):
        x = ('read', tok[0], tok[1])
        if x in st.mon:
            st.mon = st.mon - {x}

    def on_lazy(self, ref, st, act, node):
        o = self.eng.hget(st, ref)
        if o is not None and o.kind == 'cursor':
            self.count('results_handed_out_unread')
            site = self.eng.where(node, act)
            st.mon = frozenset(x for x in st.mon if x[:3] != ('lazy', ref.id, site)) | {('lazy', ref.id, site, False)}

    def touch(self, rid, st):
        add = {('read', rid, i) for i, m in enumerate(st.iters) if m[0] == rid}
        m = st.mon
        if any(x[0] == 'lazy' and x[1] == rid and not x[3] for x in m):
            m = frozenset(x[:3] + (True,) if x[0] == 'lazy' and x[1] == rid else x for x in m)
        if add or m is not st.mon:
            st.mon = m | add

    def on_sql(self, ev, cur, st, act, node, rs):
        self.count('statements')
        rid = getattr(cur, 'id', None)
        if rid is not None:
            self.touch(rid, st)
        return None

    def watches(self, name):
        return name in ('cursor.fetchone', 'cursor.fetchall', 'cursor.fetchmany')

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        rid = getattr(getattr(fv, 'self_', None), 'id', None)
        if rid is not None:
            add = {('read', rid, i) for i, m in enumerate(st.iters) if m[0] == rid}
            if add:
                st.mon = st.mon | add
        return None


class C16(EngineCheck):
    id = 'C16'
    monitor = CursorMonitor
    technique = 'inter-procedural typestate analysis of database cursors (abstract interpretation)'
    level_note = ('All paths of all public operations, readers and mappers. A cursor is identified by its allocation site in '
                  'the abstract heap. A named iterator advanced by next() and read further later is not followed.')
    explanation = ('Every loop over the rows of a cursor (in generators and comprehensions too) is a reading; a statement '
                   'or fetch through the same cursor while the reading is suspended or in its body, followed by the next '
                   'row being fetched, is reported; so is a result which is handed out unread and read after another '
                   'statement went through its cursor.')
    rules = ('reading-disturbed', 'result-replaced')
    extra_entries = tuple(x for x in ALL_EXTRA if x != 'graph.load_mapping')
    floors = {'entry_points': 60, 'result_loops': 100, 'statements': 1000}


check = C16
