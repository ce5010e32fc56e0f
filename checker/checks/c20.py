"""C20: database protections lifted for an operation are always put back."""
from collections import namedtuple

from ..frame import LEGACY, EngineCheck
from ..rules import SpaceMonitor
from ..schema import create_tables
from ..sqlmini import ident, paren_list
from ..values import C, Ref, Tup, U, V

# dropped: protections missing now; saved: those missing when the transaction began
# off: (connection, pragma) switched away from its protecting value
M = namedtuple('M', 'dropped saved off')
NO = frozenset()
PRAGMAS = {'foreign_keys': ('ON', '1', 'TRUE', 'YES'), 'ignore_check_constraints': ('OFF', '0', 'FALSE', 'NO'),
           'writable_schema': ('OFF', '0', 'FALSE', 'NO', 'RESET'), 'recursive_triggers': None}
LABEL_TABLES = ('label_index', 'label_location', 'label_structure')


class ProtectionMonitor(SpaceMonitor):
    fault_names = ('sqlite3.OperationalError', 'KeyboardInterrupt')
    fault_integrity = True

    def initial(self):
        return M(NO, NO, NO)

    def may_fault(self, name, node, act, st):
        # the statements themselves may fail; undoing and restoring may not
        # (there is nothing an application could do about that)
        if not name.startswith('sql:') or name in ('sql:ROLLBACK', 'sql:PRAGMA'):
            return False
        return bool(st.mon.dropped or st.mon.off)

    # -- whether there are label columns is known from the table definition
    def row_tags(self, ev):
        if ev.verb == 'PRAGMA' and ev.pragma == 'table_info':
            return frozenset(['TI'])
        return NO

    def fetch_cases(self, ev, how, st):
        if how != 'all' or ev.verb != 'PRAGMA' or ev.pragma != 'table_info' or ev.arg not in LABEL_TABLES:
            return None
        n = 2 if ev.arg == 'label_structure' else 1

        def row(k, tag=None):
            return Tup((C(k), U(['TI:' + (tag or str(k - n))], kind='str'), C('TEXT'), C(0), C(None), C(0)))

        def f(x):
            def g(s):
                if x:   # indexes over no columns cannot exist
                    s.mon = s.mon._replace(dropped=frozenset(d for d in s.mon.dropped if d[0] != 'INDEX'))
            return g
        ids = tuple(row(k) for k in range(n))
        return [(ids + (row(n), row(n + 1)), f(False)), (ids + (row(n, 'one'),), f(False)), (ids, f(True))]

    # -- statements
    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        m = st.mon
        if ev.verb == 'BEGIN':
            st.mon = m._replace(saved=m.dropped)
        elif ev.verb == 'ROLLBACK' and not ev.arg:
            st.mon = m._replace(dropped=m.saved)
        elif ev.verb == 'COMMIT':
            self.settled(st, act, node, 'committed')
        elif ev.verb == 'DROP' and ev.kindword in ('INDEX', 'TRIGGER'):
            self.count('protections_lifted')
            st.mon = m._replace(dropped=m.dropped | {(ev.kindword, (ev.name or '?').split('.')[-1])})
        elif ev.verb == 'DROP' and ev.kindword == 'TABLE':
            t = (ev.name or '').split('.')[-1]
            st.mon = m._replace(dropped=m.dropped | {(kind, k) for k, (kind, tb) in self.prot.items() if tb == t})
        elif ev.verb == 'CREATE' and ev.kindword in ('INDEX', 'TRIGGER') and not ev.temp:
            n = (ev.name or '').split('.')[-1]
            self.count('protections_created')
            if ev.kindword == 'INDEX':
                bad = self.index_problem(ev, st)
                if bad:
                    self.eng.report('protection-weaker', node, act, f'index {n} is put back {bad}', st,
                                    key=(n, bad))
            if (ev.kindword, n) in m.dropped:
                st.mon = m._replace(dropped=m.dropped - {(ev.kindword, n)})
        elif ev.verb == 'PRAGMA' and ev.arg is not None and ev.pragma in PRAGMAS and PRAGMAS[ev.pragma]:
            if ev.pragma == 'foreign_keys' and ev.intx is True:
                return      # no effect inside a transaction
            k = (getattr(ev.conn, 'id', None), ev.pragma)
            if ev.arg.upper() in PRAGMAS[ev.pragma]:
                if k in m.off:
                    st.mon = m._replace(off=m.off - {k})
            else:
                self.count('checking_switched_off')
                st.mon = m._replace(off=m.off | {k})

    def index_problem(self, ev, st):
        if not any(t.up == 'UNIQUE' for t in ev.toks[:3]):
            return 'without UNIQUE'
        if any(t.up == 'WHERE' for t in ev.toks):
            return 'for a part of the records only'
        tags = set()
        for h in ev.holes:
            if isinstance(h, V):
                tags |= self.eng.tags(h, st)
        ks = {x for x in tags if x.startswith('TI:')}
        if ks and 'TI:one' not in ks and not {'TI:0', 'TI:1'} <= ks:
            return 'over some of the label columns only'
        return None

    def on_conn(self, what, ref, args, st, act, node):
        super().on_conn(what, ref, args, st, act, node)
        if what == 'close' and isinstance(ref, Ref):
            m = st.mon
            if isinstance(m, M):
                o = st.heap.get(ref.id)
                tx = o is not None and getattr(o.attrs.get('tx'), 'v', None) is True
                st.mon = m._replace(off=frozenset(k for k in m.off if k[0] != ref.id),
                                    dropped=m.saved if tx else m.dropped)

    def settled(self, st, act, node, how):
        m = st.mon
        miss = [n for _, n in m.dropped]
        if miss:
            self.eng.report('protection-missing', node, act,
                            f'{", ".join(sorted(miss))} was removed and the operation is {how} without creating it again',
                            st, key=(self.eng.entry, tuple(sorted(miss)), how))
        st.mon = m._replace(dropped=NO, saved=NO)

    def checking(self, st, act, node, how):
        for c, p in sorted(st.mon.off, key=str):
            self.eng.report('checking-stays-off', node, act,
                            f'PRAGMA {p} was switched off and is not switched on again when the operation {how}',
                            st, key=(self.eng.entry, p, how))

    def at_return(self, name, v, st, act, node):
        self.settled(st, act, node, 'completed')
        self.checking(st, act, node, 'completes')

    def at_raise(self, name, e, st, act, node):
        if e.name in ('RecursionError',):
            return
        self.settled(st, act, node, f'ended ({e.name})')
        self.checking(st, act, node, f'ends with {e.name} (raised at {e.site})')


class Seen(SpaceMonitor):
    """What is created with a new space."""

    def __init__(self):
        super().__init__()
        self.prot = {}

    def initial(self):
        return ()

    def after_sql(self, ev, cur, st, act, node):
        if ev.verb == 'CREATE' and ev.kindword in ('INDEX', 'TRIGGER') and not ev.temp:
            self.prot[(ev.name or '').split('.')[-1]] = (ev.kindword, (ev.table or '').split('.')[-1])


class C20(EngineCheck):
    id = 'C20'
    monitor = ProtectionMonitor
    technique = 'inter-procedural typestate analysis of indexes, triggers and pragmas with injected failures'
    level_note = ('All paths of all public operations, the legacy column functions and opening a file; every statement and '
                  'call that can fail may fail (error or interruption) in the operations that lift a protection. Trusts '
                  'that ROLLBACK restores dropped objects and that closing a connection ends its settings.')
    explanation = ('A dropped index or trigger (also by dropping its table) must be created again, in full, before the '
                   'commit or end of the operation, or be restored by a rollback; a protecting pragma switched off must be '
                   'switched on again, outside a transaction, on every exit.')
    rules = ('protection-missing', 'protection-weaker', 'checking-stays-off')
    extra_entries = LEGACY + ('read_file', 'bind_file')
    floors = {'entry_points': 50, 'protections_lifted': 15, 'protections_created': 15, 'checking_switched_off': 3}
    LIFTING = ('columns', 'legacy', 'read_file', 'bind_file', 'label')

    def fault_of(self, task):
        return 1 if any(x in task[1] for x in self.LIFTING) else 0

    def make_start(self, eng, kind):
        seen = Seen()
        seen.eng = eng
        eng.monitor, old = seen, eng.monitor
        try:
            return super().make_start(eng, kind)
        finally:
            eng.monitor = old
            self.prot = seen.prot

    def make_monitor(self):
        m = self.monitor()
        m.prot = self.prot
        return m


check = C20
