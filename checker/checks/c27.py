"""C27: disaggregation only uses complete weight groups and loses no index record."""
from ..frame import EngineCheck
from ..rules import SpaceMonitor, literal
from ..values import C, FALSE, TRUE, Fn, NONE, Tup, U, V

# weight groups as (id, has selectors?, complete?), id of the default weight group
GROUPS = {
    'complete': ([(1, False, True), (2, True, True)], 1),
    'other incomplete': ([(1, False, True), (2, True, False)], 1),
    'other incomplete first': ([(1, True, False), (2, False, True)], 2),
    'several': ([(1, True, False), (2, True, True), (3, False, True)], 3),
    'default has selectors': ([(1, True, True), (2, True, False)], 1),
    'default incomplete': ([(1, False, False), (2, True, True)], 1),
    'default incomplete with selectors': ([(1, True, False)], 1),
    'no default': ([(1, True, True)], None),
    'default removed': ([(1, True, True)], 7),
}
# structures as (granularity, bit of the label column); the quantity belongs to the last one
LEVELS = {
    'finest': [(2.0, 1)],
    'coarse': [(2.0, 1), (1.0, 0)],
    'coarsest': [(2.0, 1), (0.0, 1)],
    'no granularity': [(2.0, 1), (None, 1)],
    'no granularity, no labels': [(2.0, 1), (None, 0)],
    'equal': [(2.0, 1), (2.0, 1)],
    'only, zero': [(0.0, 1)],
    'only, no granularity': [(None, 1)],
}
REFUSED = ('default incomplete', 'default incomplete with selectors', 'no default', 'default removed')
# index ids a location matches
MATCHES = {'none': (), 'one': (5,), 'undefined': (0,), 'two': (5, 6), 'with undefined': (0, 5)}


class WeightMonitor(SpaceMonitor):
    """Weight groups, structures and matching index records are those of the case.

    State: (quantity queries so far, index ids that received a share)."""
    case = None
    single = 'QUANTITY'   # there is one quantity

    def initial(self):
        return (0, ())

    def groups(self, ev):
        cols = [c.name for c in self.eng.schema.tables['weight_group'].cols]
        rows, dflt = GROUPS[self.case[0]]
        out = []
        for i, sel, comp in rows:
            out.append(Tup((U([f'WG:{i}'], notnone=True, truth=True, kind='int'), U(kind='str', truth=True, notnone=True), NONE, U(truth=True, notnone=True) if sel else NONE, C(1 if comp else 0))))
        for col, v in (ev.where or {}).items():
            if col in cols and isinstance(v, C):
                n = cols.index(col)
                out = [r for r in out if (f'WG:{v.v}' in r.items[0].tags if n == 0 else not isinstance(r.items[n], C) or r.items[n].v == v.v)]
            elif col == cols[0] and isinstance(v, U):
                t = {x for x in v.tags if x.startswith('WG:')}
                out = [r for r in out if not t or t & set(r.items[0].tags)]
        return out

    def rows(self, ev, st):
        """Exact rows of a query, or None."""
        if not self.case or ev.verb != 'SELECT' or not self.is_space(ev) or not st.mon:
            return None
        if ev.reads == ['weight_group']:
            self.count('weight_group_queries')
            return self.groups(ev)
        if ev.reads == ['label_structure']:
            return [Tup((C(i + 2), NONE if g is None else C(g), C(b))) for i, (g, b) in enumerate(LEVELS[self.case[1]])]
        if 'quantity' in ev.reads:
            n = st.mon[0] + 1
            st.mon = (n, st.mon[1])
            self.count('quantity_queries')
            if n == len(LEVELS[self.case[1]]):
                return [Tup((C(1), C(9), C(4), U(['QUANTITY'], kind='float', notnone=True)))]
            return []
        if ev.reads == ['attribute_group']:
            return [Tup((C(4), U(truth=True, notnone=True)))] if ev.where else []
        if ev.reads == ['label_location'] and ev.where:
            return [Tup((C(9), U(kind='str', notnone=True)))]
        if ev.reads == ['label_index'] and len(ev.cols or ()) == 1 and 'index_id' in str(ev.cols[0]) and '(' not in str(ev.cols[0]):
            self.count('match_queries')
            return [Tup((C(i),)) for i in MATCHES[self.case[2]]]
        return None

    def cursor_rows(self, ev, st):
        return self.rows(ev, st)

    def fetch_cases(self, ev, how, st):
        if not self.case:
            return None
        if how == 'one' and ev.verb == 'SELECT' and ev.reads == ['property'] and literal(ev.where.get('key')) == 'default_weight_group_id':
            d = GROUPS[self.case[0]][1]
            return [(NONE if d is None else Tup((C(d),)), None)]
        rows = self.rows(ev, st)
        if rows is None:
            return None
        if how == 'one':
            return [(rows[0] if rows else NONE, None)]
        return [(tuple(rows), None)]

    def on_sql(self, ev, cur, st, act, node, rs):
        if not self.case or not st.mon:
            return None
        if ev.verb == 'SELECT' and ev.reads == ['weight'] and self.is_space(ev):
            g = (ev.where or {}).get('weight_group_id')
            self.count('weight_queries')
            ok = [i for i, sel, comp in GROUPS[self.case[0]][0] if comp]
            t = [x for x in (self.eng.tags(g, st) if isinstance(g, V) else ()) if x.startswith('WG:')]
            if not t:
                self.eng.report('unknown-group', node, act, 'a quantity is disaggregated with a weight that is not known to be of a complete group', st, key=(self.eng.entry,))
            elif any(int(x[3:]) not in ok for x in t):
                self.eng.report('incomplete-group', node, act, 'a quantity is disaggregated with a weight group that is not complete', st, key=(self.eng.entry,))
        if ev.verb == 'INSERT' and ev.table == 'quant_data' and not self.is_space(ev):
            v = (ev.colvals or {}).get('index_id')
            self.count('shares')
            got = st.mon[1]
            x = v.v if isinstance(v, C) else None
            st.mon = (st.mon[0], got if x is None and got[:1] == (None,) else got if got.count(x) > 1 else tuple(sorted(got + (x,), key=str)))
        return None


class C27(EngineCheck):
    id = 'C27'
    monitor = WeightMonitor
    technique = 'inter-procedural path analysis of disaggregation by cases of weight groups and matching index records (abstract interpretation)'
    level_note = ('All paths of DataSpace.__call__ (loading of the reader included) for every case of weight groups (complete, incomplete, missing or dangling '
                  'default, with selectors) and of index records a location matches (none, undefined, one, several), for one quantity at the finest or at a '
                  'coarser level; weights and all other contents are unknown. Shares are counted before they are rounded (quantize=False). Only the number of shares is decided, not their values (C40).')
    explanation = ('Weights are looked up only in complete groups; without a complete default group every path ends with an error, also when no index '
                   'record matches; otherwise each matching index record receives exactly one share of the quantity.')
    rules = ('incomplete-group', 'unknown-group', 'not-refused', 'share-lost', 'share-repeated', 'share-unknown', 'unmatched-dropped')
    extra_entries = ()
    only_methods = ()
    floors = {'entry_points': 20, 'weight_queries': 6, 'shares': 10, 'match_queries': 10}

    def tasks(self):
        out = [(g, 'coarse', 'two') for g in GROUPS] + [(g, 'finest', 'one') for g in REFUSED]
        out += [('complete', 'coarse', m) for m in MATCHES] + [('complete', 'finest', m) for m in ('none', 'one')]
        out += [('complete', 'equal', m) for m in ('none', 'one')]
        out += [('complete', x, m) for x in ('coarsest', 'no granularity', 'no granularity, no labels') for m in ('none', 'two')]
        out += [('complete', x, m) for x in ('only, zero', 'only, no granularity') for m in ('none', 'one')]
        return [(('mem', 'DataSpace.__call__', c + (q,)), 1) for c in dict.fromkeys(out) for q in (False, True)
                if not q or c[1] in ('coarse', 'coarsest') and c[2] in ('none', 'two')]

    def run_task(self, task, res):
        self.case = task[2]
        super().run_task(task, res)

    def make_monitor(self):
        m = super().make_monitor()
        m.case = None
        return m

    def extra(self, name, eng, v, st, act, rs, node):
        mon = eng.monitor
        mon.case = self.case
        eng.inflight.append(v.refs())
        st.mon = (0, ())
        del rs[:]
        fi = self.proj.find_method(self.proj.cls('toron.space', 'DataSpace'), '__call__')
        outs = eng.call_fn(Fn(fi, v), [], {'quantize': TRUE if self.case[3] else FALSE}, st, act, rs, node)
        g, level, m, _ = self.case
        for _, s in outs:
            if not s.mon:
                continue
            mon.count('completed')
            if g in REFUSED:
                eng.report('not-refused', fi.node, act, f'disaggregation completes in spite of the case: {g}', s, key=(eng.entry,))
                continue
            got, want = s.mon[1], MATCHES[m]
            if not want:
                eng.report('unmatched-dropped', fi.node, act, 'a quantity that matches no index record is dropped', s, key=(eng.entry,))
            elif self.case[3]:
                continue   # (sorted by size)
            elif None in got:
                eng.report('share-unknown', fi.node, act, 'a share is not assigned to one of the matching index records', s, key=(eng.entry,))
            elif set(want) - set(got):
                eng.report('share-lost', fi.node, act, f'index records that match receive no share (matching {want}, shares {got})', s, key=(eng.entry,))
            elif len(got) != len(want):
                eng.report('share-repeated', fi.node, act, f'index records receive more than one share (matching {want}, shares {got})', s, key=(eng.entry,))
        return self.few(eng, [(NONE, s) for _, s in outs])


check = C27
