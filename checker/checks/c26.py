"""C26: translation never uses an outdated or incomplete link."""
import ast

from ..frame import EngineCheck
from ..rules import SpaceMonitor, literal
from ..values import C, FALSE, EMPTY, Fn, GenV, ItV, NONE, Obj, Ref, Tup, U, V

SOURCE, TARGET, OLD = 'fingerprint of the source', 'fingerprint of the target', 'outdated fingerprint'
# name: links as (selectors?, default?, fingerprint, complete?); may the default be used?
GOOD, GOODSEL = (False, True, SOURCE, True), (True, False, SOURCE, True)
STALE, PART = (True, False, OLD, True), (True, False, SOURCE, False)
CASES = {
    'current': [GOOD, GOODSEL],
    'outdated': [GOOD, STALE],
    'outdated first': [STALE, GOOD],
    'incomplete': [GOOD, PART],
    'incomplete first': [PART, GOOD],
    'target': [GOOD, (True, False, TARGET, True)],
    'never linked': [GOOD, (True, False, None, True)],
    'default outdated': [(False, True, OLD, True), GOODSEL],
    'only outdated': [(False, True, OLD, True), STALE],
    'default has selectors': [(True, True, OLD, True), GOODSEL],
    'default incomplete': [(False, True, SOURCE, False), GOODSEL],
    'default target': [(False, True, TARGET, True)],
}
KEYS = {'index_hash': (SOURCE, TARGET), 'unique_id': ('source id', 'target id')}


class LinkMonitor(SpaceMonitor):
    """The links of the target space, as seen from the source, are those of the case."""
    source = target = None
    case = None

    def rows(self, ev):
        cols = [c.name for c in self.eng.schema.tables['link'].cols]
        out = self.all_rows()
        for col, v in (ev.where or {}).items():
            if col in cols and isinstance(v, C):
                i = cols.index(col)
                out = [r for r in out if not isinstance(r.items[i], C) or r.items[i].v == v.v]
        return out

    def all_rows(self):
        out = []
        for i, (sel, dflt, h, comp) in enumerate(CASES[self.case]):
            tag = f'LINK:{i}'
            out.append(Tup((U([tag], notnone=True, truth=True), C('source id'), NONE, U(kind='str', truth=True), NONE,
                            U(truth=True, notnone=True) if sel else NONE, C(1) if dflt else NONE, NONE, C(h), C(1 if comp else 0))))
        return out

    def cursor_rows(self, ev, st):
        if ev.verb == 'SELECT' and ev.reads == ['link'] and self.is_space(ev) and self.case:
            self.count('link_queries')
            return self.rows(ev)
        return None

    def fetch_cases(self, ev, how, st):
        if how == 'all' and ev.verb == 'SELECT' and ev.reads == ['link'] and self.is_space(ev) and self.case:
            self.count('link_queries')
            return [(tuple(self.rows(ev)), None)]
        if how == 'one' and ev.verb == 'SELECT' and ev.reads == ['property']:
            k = literal(ev.where.get('key'))
            if k in KEYS:
                return [(Tup((C(KEYS[k][self.side(ev)]),)), None)]
        return None

    def side(self, ev):
        return 1 if isinstance(ev.conn, Ref) and self.target is not None and ev.conn.id == self.target else 0

    def bad(self, i):
        sel, dflt, h, comp = CASES[self.case][i]
        if h != SOURCE:
            return 'outdated-link', 'a link whose recorded fingerprint is not that of the data'
        if not comp and not dflt:
            return 'incomplete-link', 'a link that was chosen by its selectors and is not complete'
        return None

    def on_sql(self, ev, cur, st, act, node, rs):
        if not self.case or not st.mon:
            return None
        tags = set()
        for v in [ev.params] + list(ev.holes or ()):
            if isinstance(v, V):
                tags |= self.eng.tags(v, st)
        ls = sorted(t for t in tags if t.startswith('LINK:'))
        if ls or 'mapping' in ev.reads:
            st.mon = 'used'
        for t in ls:
            self.count('uses_of_links')
            b = self.bad(int(t[5:]))
            if b:
                self.eng.report(b[0], node, act, f'data is translated through {b[1]}', st, key=(self.eng.entry,))
        return None

    def initial(self):
        return 'start'


class C26(EngineCheck):
    id = 'C26'
    monitor = LinkMonitor
    technique = 'inter-procedural provenance analysis of link ids, by cases of the links between two spaces (abstract interpretation)'
    level_note = ('All paths of graph.translate and NodeReader.translate between two spaces for every case of links (current, outdated, of the wrong space, '
                  'incomplete, default or chosen by selectors, in either order); row contents are otherwise unknown. That recorded fingerprints and '
                  'completeness are right is C10. A NodeReader uses the fingerprint its space has when it is translated.')
    explanation = ('The id of a link reaches a statement of the translation only if its recorded fingerprint equals that of the source; if chosen by '
                   'its selectors, only if the link is complete. Translation through an outdated default link ends with an error on every path. Iterators '
                   'of quantities carry the fingerprint and id of the space their records are of.')
    rules = ('outdated-link', 'incomplete-link', 'not-refused', 'wrong-fingerprint')
    extra_entries = ()
    only_methods = ()
    floors = {'entry_points': 24, 'uses_of_links': 8, 'link_queries': 20}

    def tasks(self):
        out = [(('mem', n, c), 1) for n in ('graph.translate', 'reader.translate') for c in CASES]
        for n, m in self.methods.items():
            if 'QuantityIterator' in {getattr(x, 'id', None) for x in ast.walk(m.node)} and not m.is_prop:
                out.append((('mem', n, None), 1))
        return out

    def run_task(self, task, res):
        self.case = task[2]
        super().run_task(task, res)

    def make_monitor(self):
        m = super().make_monitor()
        m.case = self.case
        return m

    def extra(self, name, eng, v, st, act, rs, node):
        mon = eng.monitor
        proj = self.proj
        P = lambda n, **k: U(sym=('param', n), tags=['arg:' + n], **k)
        eng.inflight.append(v.refs())
        other = proj.func('toron.graph', 'translate').node   # (distinct allocation sites)
        before = {r for r, o in st.heap.items() if o.kind == 'conn'}
        case, mon.case = mon.case, None
        outs = eng.instantiate(proj.cls('toron.space', 'DataSpace'), [], {'cache_to_drive': FALSE}, st, act, rs, other)
        t, st = outs[0]
        eng.inflight.append(t.refs())
        mon.target = next(r for r, o in st.heap.items() if o.kind == 'conn' and r not in before)
        if name == 'graph.translate':
            q = eng.instantiate(proj.cls('toron.data_models', 'QuantityIterator'), [],
                                {'unique_id': C('source id'), 'index_hash': C(SOURCE), 'domain': P('domain'), 'data': P('data'),
                                 'label_names': P('label_names'), 'attribute_keys': P('attribute_keys')}, st, act, rs, node)
        else:
            q = self.few(eng, eng.instantiate(proj.cls('toron.reader', 'NodeReader'), [P('data'), v], {'cache_to_drive': FALSE}, st, act, rs, node))
        mon.case = case
        del rs[:]
        res = []
        for o, s in q:
            eng.inflight.append(o.refs())
            s.mon = 'start'
            if name == 'graph.translate':
                f = proj.func('toron.graph', 'translate')
                for r, s2 in eng.call_fn(Fn(f), [o, t], {}, s, act, rs, node):
                    self.fingerprint(eng, r, s2, act, f.node, 1)
                    ob = eng.hget(s2, r) if isinstance(r, Ref) else None
                    its = [x for x in (ob.attrs.values() if ob is not None else [r]) if isinstance(x, (GenV, ItV))]
                    cur = [s2]
                    for x in its:
                        cur = [y[1] for z in cur for y in eng.iterate(x, z, act, rs, lambda v, s: [('resume', NONE, s)], node)]
                    res += [(NONE, y) for y in cur]
            else:
                fi = proj.find_method(proj.cls('toron.reader', 'NodeReader'), 'translate')
                res += [(NONE, y) for _, y in eng.call_fn(Fn(fi, o), [t, P('quantize')], {}, s, act, rs, node)]
        if CASES[case][0][1] and CASES[case][0][2] != SOURCE or case == 'default incomplete' and name == 'graph.translate':
            what = 'incomplete' if case == 'default incomplete' else 'outdated'
            for _, s in res:
                eng.report('not-refused', node, act, f'translation completes although the default link is {what}', s, key=(eng.entry,))
        return self.few(eng, res)

    def fingerprint(self, eng, r, st, act, node, side):
        o = eng.hget(st, r) if isinstance(r, Ref) else None
        if o is None or o.kind != 'inst' or o.cls is None or o.cls.name != 'QuantityIterator':
            return
        eng.monitor.count('iterators')
        want = {k[side] for k in KEYS.values()}
        got = {x.v for x in o.attrs.values() if isinstance(x, C)}
        if not want <= got:
            eng.report('wrong-fingerprint', node, act, 'quantities are handed out without the id and index fingerprint of the space they belong to', st,
                       key=(eng.entry,))


class Mon(LinkMonitor):
    def at_return(self, name, v, st, act, node):
        if self.case is None:
            self.check_.fingerprint(self.eng, v, st, act, node, 0)


def make(self):
    m = Mon()
    m.case = self.case
    m.check_ = self
    return m


C26.make_monitor = make

check = C26
