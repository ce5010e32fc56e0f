"""C10: link status (source fingerprint, completeness) follows every mapping change."""
from collections import namedtuple

from ..frame import EngineCheck
from ..rules import FeedMonitor, FlagMonitor, Tok, retag_state
from ..values import C, Ref, U, V

M = namedtuple('M', 'loops low high fresh hash oloops opart oseen zero')
T, OLD, ROW = 'OIDS', 'OIDS-OLD', 'MAPROW'


def age(tags):
    return (tags - {T}) | {OLD} if T in tags else tags


class LinkMonitor(FlagMonitor):
    M = M
    group_table, group_key = 'link', 'link_id'
    flag = 'is_locally_complete'
    rel_table = 'mapping'
    inst = 'Link'
    what = 'link'
    kinds = frozenset(['low', 'high', 'hash'])
    extra_state = ('', (), False, None, False)

    def __init__(self, eng=None):
        super().__init__(eng)
        self.feed = Feed(eng)

    def row_tags(self, ev):
        t = super().row_tags(ev)
        if ev.verb == 'SELECT' and ev.reads == ['mapping'] and ev.cols[:1] in (['*'], ['mapping_id']):
            return t | {ROW}
        if self.oids(ev):
            return t | {T}
        return t

    def oids(self, ev):
        """None | whether id 0 is left out by the query"""
        if ev.verb != 'SELECT' or ev.reads != ['mapping'] or len(ev.cols) != 1 or \
                ev.cols[0].split('.')[-1].strip() != 'other_index_id':
            return None
        ups = [t.up for t in ev.toks]
        if not (ev.distinct or 'GROUP' in ups) or any(u in ('LIMIT', 'EXCEPT', 'JOIN', 'DESC', 'HAVING', 'OR') for u in ups):
            return None
        o = ev.order.lower().replace('asc', '').strip()
        if o not in ('other_index_id', 'mapping . other_index_id', '1'):
            return None
        conds = []
        for i in range(len(ups) - 2):
            a = ups[i].split('.')[-1]
            if ups[i + 1] in ('=', '>', '!=', '<>', '>=', '<', '<=', 'IS') and a.replace('_', '').isalpha():
                conds.append((a, ups[i + 1], ups[i + 2]))
        link = [c for c in conds if c[0] == 'LINK_ID' and c[1] == '=' and c[2][:1] in '?:@$']
        rest = [c for c in conds if c not in link]
        if len(link) != 1:
            return None
        if not rest:
            return 'all'
        if len(rest) == 1 and rest[0] in (('OTHER_INDEX_ID', '>', '0'), ('OTHER_INDEX_ID', '!=', '0'),
                                          ('OTHER_INDEX_ID', '<>', '0'), ('OTHER_INDEX_ID', '>=', '1')):
            return 'no0'
        return None

    # -- loops
    def loop_begin(self, elem, node, st, act, src):
        self.feed.eng = self.eng
        t = super().loop_begin(elem, node, st, act, src)
        if t is not None:
            return t
        tags = self.eng.tags(elem, st)
        if T in tags:
            return self.feed.loop_begin(elem, node, st, act, src)
        if ROW in tags:
            return Tok(self.eng.where(node, act))
        return None

    def iter_begin(self, tok, st):
        if isinstance(tok, str):
            st.mon = st.mon._replace(oseen=True)
            self.feed.iter_begin(tok, st)
        elif isinstance(tok, Tok):
            if all(x is not tok for x in self.readd):
                self.readd.append(tok)
        else:
            super().iter_begin(tok, st)

    readd = ()

    def entry_begin(self, name, v, args, kw, st, act):
        self.readd = []

    def iter_end(self, tok, st):
        if isinstance(tok, str):
            self.feed.iter_end(tok, st)
        elif not isinstance(tok, Tok):
            super().iter_end(tok, st)

    def loop_end(self, tok, st, kind):
        if isinstance(tok, str):
            self.feed.loop_end(tok, st, kind)
        elif isinstance(tok, Tok):
            self.readd = [x for x in self.readd if x is not tok]
            if tok.did and kind != 'closed' and st.mon.hash == 'del':
                st.mon = st.mon._replace(hash='')       # rows that were read are stored again
        else:
            super().loop_end(tok, st, kind)

    def on_collect(self, v, st):
        self.feed.on_collect(v, st)

    def watches(self, name):
        return self.feed.watches(name)

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        self.feed.eng = self.eng
        if name.rsplit('.', 1)[-1] in self.feed.feed_calls and any(
                isinstance(a, C) and (a.v == b'\0' * 8 or a.v == 0) for a in args):
            st.mon = st.mon._replace(zero=True)
        return self.feed.on_call(name, fv, args, kw, st, act, node, rs)

    # -- events
    def change(self, ev, st):
        m = st.mon
        if ev.table == 'mapping':
            if ev.verb == 'INSERT':
                v = ev.colvals.get('other_index_id')
                if isinstance(v, V) and ROW in self.eng.tags(v, st):
                    for t in self.readd:
                        t.did = True
                else:
                    st.mon = m._replace(hash='all' if m.hash == 'all' else 'ins')
            elif ev.verb == 'DELETE' and not m.hash:
                st.mon = m._replace(hash='del')
            elif ev.verb == 'UPDATE' and ('other_index_id' in ev.cols or 'link_id' in ev.cols):
                v = ev.colvals.get('other_index_id')
                if not self.own(v, 'other_index_id', st):
                    st.mon = m._replace(hash='all' if m.hash == 'all' else 'ins')
                else:
                    return super().change(ev, st) if 'index_id' in ev.cols and self.moved(ev, st) else None
            if ev.verb in ('INSERT', 'DELETE', 'UPDATE'):
                retag_state(st, age)
                st.mon = st.mon._replace(oseen=None)
        elif ev.table == 'label_index' and ev.verb == 'DELETE':
            retag_state(st, age)
            st.mon = m._replace(oseen=None, hash='all' if m.hash == 'del' else m.hash)
        return super().change(ev, st)

    def moved(self, ev, st):
        return not self.own(ev.colvals.get('index_id'), 'index_id', st)

    def own(self, v, field, st):
        """*v* is the field of a stored row (possibly compared with a constant before)."""
        if not isinstance(v, V):
            return False
        if ROW in self.eng.tags(v, st):
            return True
        if isinstance(v, U) and isinstance(v.sym, tuple) and v.sym[:2] == ('umeth', field):
            return True         # the field of a record which was merged with others
        return isinstance(v, C) and any(
            o.kind == 'inst' and o.attrs.get(field) == v and ROW in self.eng.tags(o.attrs.get('id', v), st)
            for o in st.heap.values())

    def other_event(self, ev, st, act, node):
        if ev.verb == 'SELECT' and self.oids(ev):
            self.count('source_id_scans')
            self.no0 = self.oids(ev) == 'no0'
            st.mon = st.mon._replace(oloops=(), opart=False, oseen=False, zero=not self.no0)

    def group_updated(self, ev, st, act, node):
        if 'other_index_hash' not in ev.cols:
            return
        m = st.mon
        v = ev.colvals.get('other_index_hash')
        tags = self.eng.tags(v, st) if isinstance(v, V) else frozenset()
        why = None
        if T in tags:
            if m.opart:
                why = 'from only some of the source ids'
            elif OLD in tags:
                why = 'from a mix of source ids from before and after the change'
            elif not m.zero:
                why = 'without id 0 (every space contains the undefined record)'
        elif OLD in tags:
            why = 'from source ids read before the last change of the mappings'
        elif m.hash and m.oseen is False and isinstance(v, U) and m.zero:
            pass        # there are no source ids
        else:
            return
        if why:
            self.eng.report('link-fingerprint-wrong', node, act, f'the fingerprint of a link is computed {why}', st,
                            key=(self.eng.entry, why))
        self.count('fingerprint_updates')
        self.did(st, {'hash'})

    def settle(self, st, act, node):
        m = st.mon
        if m.hash:
            self.eng.report('link-fingerprint-stale', node, act,
                            'mappings of a link were added or removed and the operation completes without storing a '
                            'fingerprint recomputed from the source ids it maps afterwards, in ascending order', st,
                            key=(self.eng.entry, 'hash'))
        super().settle(st, act, node)


class Feed(FeedMonitor):
    feed_tag = T
    LF, PF = 'oloops', 'opart'


class C10(EngineCheck):
    id = 'C10'
    monitor = LinkMonitor
    technique = 'inter-procedural derived-state (freshness) dataflow analysis with for-all loop rules'
    level_note = ('All paths of all public operations. Which link a statement refers to is not tracked beyond "the link '
                  'at hand" / "all links in a loop over all links".')
    explanation = ('Mapping rows added or removed make the fingerprint of the link (of all links when index records are '
                   'deleted) stale and age all source ids read before; only a value flowing from a complete, ordered read '
                   'of the distinct source ids after the change, id 0 included, makes it fresh. Completeness is treated '
                   'like C09 with the question asked of label_index and mapping.')
    rules = ('flag-stays-set', 'flag-not-set', 'flag-set-unchecked', 'flag-question-wrong', 'link-fingerprint-stale',
             'link-fingerprint-wrong')
    floors = {'entry_points': 50, 'flag_updates': 8, 'questions': 6, 'relevant_changes': 12, 'fingerprint_updates': 4,
              'source_id_scans': 4}


check = C10
