"""C11: mapping proportions are recomputed after every mapping change."""
from collections import namedtuple

from ..frame import EngineCheck
from ..rules import ForAllMonitor, retag_state
from ..values import C, Ref, U, V

# loops: (site, kind, consumed, partial); stale: kinds of staleness
M = namedtuple('M', 'loops stale zero pair0 empty')
NO = frozenset()
FRESH = {'OIDS': 'OIDS-OLD', 'PAIR': 'PAIR-OLD'}
OUTER = ('OID', 'IDSET', 'LINKS')


def age(tags):
    for a, b in FRESH.items():
        if a in tags:
            tags = (tags - {a}) | {b}
    return tags


class ProportionMonitor(ForAllMonitor):
    def initial(self):
        return M((), NO, False, False, False)

    # -- what is read
    def scan(self, ev):
        """A read of all source ids of a link (the undefined source may be left out) -> None | 'all' | 'no0'"""
        if ev.verb != 'SELECT' or ev.reads != ['mapping'] or len(ev.cols) != 1 or \
                ev.cols[0].split('.')[-1].strip() != 'other_index_id':
            return None
        if any(t.up in ('LIMIT', 'EXCEPT', 'JOIN', 'HAVING', 'OR') for t in ev.toks):
            return None
        if set(ev.where) - {'link_id'} or 'link_id' not in ev.where:
            return None
        w = ev.wheretext.replace('main .', '').replace('mapping .', '').lower()
        rest = [c.strip() for c in w.split(' and ') if not c.strip().startswith('link_id =')]
        if not rest:
            return 'all'
        if rest in (['other_index_id > 0'], ['other_index_id != 0'], ['other_index_id <> 0'], ['other_index_id >= 1']):
            return 'no0'
        return None

    def row_tags(self, ev):
        if ev.verb != 'SELECT':
            return NO
        if ev.reads == ['link'] and not ev.wheretext and not any(t.up in ('LIMIT', 'WHERE') for t in ev.toks):
            return frozenset(['GROUPS'])
        if ev.reads == ['mapping']:
            if self.scan(ev):
                return frozenset(['OIDS'])
            if ev.cols[:1] in (['*'], ['mapping_id']):
                t = {'MAPROW'}
                ks = set(ev.where)
                if ks == {'link_id', 'other_index_id'} and ev.wheretext.upper().count(' AND ') == 1 and \
                        not any(t.up in ('LIMIT', 'OR') for t in ev.toks):
                    t.add('PAIR')
                if 'link_id' not in ks:
                    t.add('ANYLINK')
                return frozenset(t)
        return NO

    # -- loops
    def kind_of_loop(self, tags, elem, st):
        if 'OIDS' in tags:
            return 'OID'
        if 'MAPROW' in tags:
            if 'pos:2' in tags and not isinstance(elem, Ref) and not any(
                    x.startswith('pos:') and x != 'pos:2' for x in tags):
                return 'IDSET'
            return 'ROW'
        if 'GROUPS' in tags:
            return 'LINKS'
        return None

    def on_collect(self, v, st):
        """The source ids of the rows which are deleted are kept."""
        if isinstance(v, V) and not isinstance(v, Ref):
            t = self.eng.tags(v, st)
            if 'MAPROW' in t and 'pos:2' in t:
                self.consume(st, 'ROW', 'kept')

    def consume(self, st, kind, what=True):
        m = st.mon
        ls = []
        hit = False
        for a, b, c, d in m.loops:
            if b == kind:
                c = (c or NO) | {what} if not isinstance(what, frozenset) else (c or NO) | what
                hit = True
            ls.append((a, b, c, d))
        if hit:
            st.mon = m._replace(loops=tuple(ls))

    def iter_begin(self, tok, st):
        super().iter_begin(tok, st)
        m = st.mon
        if m.empty:     # there is a row
            st.mon = m._replace(empty=False, zero=m.zero and not (m.pair0 and tok[1] == 'ROW'))

    def iter_end(self, tok, st):
        t, k = tok
        if k in OUTER and st.mon.empty:     # nothing to recompute for this one
            m = st.mon
            st.mon = m._replace(empty=False, loops=tuple(
                (a, b, (c or NO) | {'ref'} if a == t.site else c, d) for a, b, c, d in m.loops))
        for x in st.mon.loops:
            if x[0] == t.site and x[2]:
                t.did = (t.did or NO) | x[2] if not t.did else t.did & x[2]
                if k == 'ROW' and 'del' in x[2] and 'kept' not in x[2]:
                    self.unkept = True
        super_did = t.did
        m = st.mon
        for i, x in enumerate(m.loops):
            if x[0] == t.site:
                st.mon = m._replace(loops=m.loops[:i] + ((t.site, k, False, x[3] or not x[2]),))
                break
        t.did = super_did

    def refreshed(self, st, what):
        """One source record of one link was recomputed (or everything in *what* of an inner loop was)."""
        m = st.mon
        for i in range(len(m.loops) - 1, -1, -1):
            a, b, c, d = m.loops[i]
            if b in OUTER:
                st.mon = m._replace(loops=m.loops[:i] + ((a, b, (c or NO) | what | {'ref'}, d),) + m.loops[i + 1:])
                return True
        return False

    def all_done(self, kind, st, tok):
        did = tok.did
        m = st.mon
        if kind == 'ROW':
            if 'upd' in did:
                if m.pair0:
                    st.mon = m._replace(zero=True)
                self.refreshed(st, NO)
            if 'add' in did:
                st.mon = m._replace(stale=m.stale - {'del', 'delall'})
            return
        if kind in OUTER and 'ref' in did:
            what = frozenset(did) - {'ref', 'kept', 'upd', 'del', 'add'} | {kind}
            if not self.refreshed(st, what):
                m = st.mon
                s = m.stale
                if 'OID' in what and (m.zero or not self.no0):
                    s = s - {'ins', 'upd', 'del'}
                    if 'LINKS' in what:
                        s = NO
                elif {'IDSET', 'LINKS'} <= what and not self.unkept:
                    s = s - {'del', 'delall'}
                elif 'IDSET' in what and not self.unkept:
                    s = s - {'del'}
                st.mon = m._replace(stale=s)

    no0 = unkept = False

    def entry_begin(self, name, v, args, kw, st, act):
        self.no0 = self.unkept = False

    # -- statements
    def from_row(self, v, st, pos):
        if not isinstance(v, V):
            return False
        t = self.eng.tags(v, st)
        return 'MAPROW' in t and (f'pos:{pos}' in t or self.single(t))

    def single(self, t):
        return False

    def raise_(self, st, what):
        retag_state(st, age)
        st.mon = st.mon._replace(stale=st.mon.stale | {what}, zero=False)

    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        m = st.mon
        if ev.verb == 'SELECT':
            if ev.reads == ['mapping'] and 'PAIR' in self.row_tags(ev):
                o = ev.where.get('other_index_id')
                p0 = isinstance(o, C) and o.v == 0
                st.mon = m._replace(pair0=p0, empty=True, zero=m.zero or p0)
                self.count('refresh_reads')
            elif self.scan(ev):
                self.count('source_id_scans')
                self.no0 = self.no0 or self.scan(ev) == 'no0'
            return
        if ev.table == 'mapping' and ev.verb == 'INSERT':
            self.count('mapping_changes')
            v = ev.colvals.get('other_index_id')
            if isinstance(v, V) and 'MAPROW' in self.eng.tags(v, st):
                p = ev.colvals.get('proportion')
                if not self.from_row(p, st, 6) and not (isinstance(p, C) and p.v is None):
                    self.raise_(st, 'ins')
                elif not self.from_row(ev.colvals.get('mapping_value'), st, 5):
                    self.raise_(st, 'ins')
                else:
                    retag_state(st, age)
                    self.consume(st, 'ROW', 'add')
            else:
                self.raise_(st, 'ins')
        elif ev.table == 'mapping' and ev.verb == 'DELETE':
            self.count('mapping_changes')
            v = ev.where.get('mapping_id')
            t = self.eng.tags(v, st) if isinstance(v, V) else NO
            self.consume(st, 'ROW', 'del')
            if set(ev.where) == {'link_id'} and ev.wheretext.upper().count('AND') == 0:
                return      # all of them: nothing is left to share out
            if 'MAPROW' in t and 'ANYLINK' not in t or 'link_id' in ev.where:
                self.raise_(st, 'del')
            else:
                self.raise_(st, 'delall')
        elif ev.table == 'mapping' and ev.verb == 'UPDATE':
            self.updated(ev, st, act, node)
        elif ev.table == 'label_index' and ev.verb == 'DELETE' and self.cascades():
            self.raise_(st, 'delall')
        elif ev.verb == 'ROLLBACK':
            st.mon = self.initial()
        elif ev.verb == 'COMMIT':
            self.check_fresh(st, act, node)

    def cascades(self):
        t = self.eng.schema.tables.get('mapping')
        return any(c == 'index_id' and r['on_delete'] == 'CASCADE' for c, r in t.fks)

    def updated(self, ev, st, act, node):
        changed = False
        for col, pos in (('mapping_value', 5), ('link_id', 1), ('other_index_id', 2), ('index_id', 3)):
            if col in ev.cols:
                v = ev.colvals.get(col)
                if not self.own(v, st, pos, col):
                    changed = True
        if changed:
            self.count('mapping_changes')
            self.raise_(st, 'upd')
            return
        if 'proportion' not in ev.cols:
            return
        p = ev.colvals.get('proportion')
        if self.own(p, st, 6, 'proportion'):
            return
        self.count('proportion_updates')
        m = st.mon
        t = self.eng.tags(p, st) if isinstance(p, V) else NO
        if isinstance(p, C):
            good = p.v == 0 and any(x[1] == 'ROW' for x in m.loops) and (m.pair0 or any(
                isinstance(x, C) and type(x.v) is int and x.v == 0 or
                isinstance(x, U) and x.truth is False and x.tags & {'OIDS', 'MAPROW'} for vs in st.fr.values() for x in vs.values()))
        else:
            good = 'PAIR' in t and 'PAIR-OLD' not in t and 'pos:5' in t and ('pos:6' not in t or 'pos:0' in t) and not any(x.startswith('arg:') for x in t)
        if good:
            self.consume(st, 'ROW', 'upd')
        else:
            self.eng.report('proportion-wrong', node, act,
                            'a proportion is set to something that is not recomputed from the mapping values of its source '
                            'record as they are after the change', st, key=(self.eng.entry, ev.site))

    def own(self, v, st, pos, col):
        if not isinstance(v, V):
            return False
        t = self.eng.tags(v, st)
        if 'MAPROW' in t and f'pos:{pos}' in t and not any(
                x.startswith('pos:') and x != f'pos:{pos}' for x in t):
            return True
        if isinstance(v, U) and isinstance(v.sym, tuple) and v.sym[:2] == ('umeth', col):
            return True
        # (an id which was compared with a constant)
        return isinstance(v, C) and col.endswith('_id') and any(
            o.kind == 'inst' and 'MAPROW' in self.eng.tags(o.attrs.get('id', v), st) and o.attrs.get(col) == v
            for o in st.heap.values())

    def check_fresh(self, st, act, node):
        m = st.mon
        if m.stale:
            self.eng.report('proportion-stale', node, act,
                            'mappings were added, changed or removed and the operation completes without recomputing the '
                            'proportions of every affected source record from the mappings as they are after the change',
                            st, key=(self.eng.entry,))
        st.mon = self.initial()

    def at_return(self, name, v, st, act, node):
        self.check_fresh(st, act, node)


class C11(EngineCheck):
    id = 'C11'
    monitor = ProportionMonitor
    technique = 'inter-procedural derived-state (freshness) dataflow analysis with for-all loop rules'
    level_note = ('All paths of all public operations. Decides that after the last change every affected source record is '
                  'recomputed (for every source id of the link, or every source id of the deleted rows in every link); the '
                  'arithmetic of a share is not evaluated.')
    explanation = ('Mapping rows added, removed or given another value make proportions stale and age all ids and rows read '
                   'before. Fresh again only after a loop over all source ids read after the change (id 0 included) in '
                   'which every row of the pair (link, source id) is updated with a value computed from those rows; or, '
                   'for deleted rows, a loop over their collected source ids and all links.')
    rules = ('proportion-stale', 'proportion-wrong')
    floors = {'entry_points': 50, 'mapping_changes': 12, 'proportion_updates': 8, 'refresh_reads': 8, 'source_id_scans': 4}


check = C11
