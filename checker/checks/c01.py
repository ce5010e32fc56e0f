"""C01: every data-changing operation is all-or-nothing."""
from ..frame import EngineCheck
from ..rules import SpaceMonitor


class TxMonitor(SpaceMonitor):
    """mon = (units, pending, faulted, where)

    units    durable units of work so far (0, 1, 2): committed transactions
             that wrote, and statements that wrote outside a transaction
    pending  the open transaction contains a write
    faulted  an injected failure happened while work was pending / done
    """
    fault_names = ('sqlite3.OperationalError', 'KeyboardInterrupt')
    fault_integrity = True

    def initial(self):
        return (0, False, False)

    def may_fault(self, name, node, act, st):
        # failures at the statements themselves; releasing and rolling back may
        # not fail (there is nothing an application could do about it)
        if not name.startswith('sql:') or self.skip:
            return False
        if name in ('sql:ROLLBACK', 'sql:PRAGMA', 'sql:SELECT'):
            return False
        return not st.mon[2]

    def on_fault(self, exc, name, st, node, act):
        u, p, f = st.mon
        ev = self.last
        st.mon = (u, p, (ev.verb, ev.table or '', bool(p or u)))

    def on_sql(self, ev, cur, st, act, node, rs):
        self.last = ev
        if not self.is_space(ev):
            self.skip = True
        else:
            self.skip = False
        return None

    def dirty(self, ev):
        return (ev.is_write or ev.is_ddl) and not ev.temp and not (ev.table or '').startswith('temp.')

    def after_sql(self, ev, cur, st, act, node):
        u, p, f = st.mon
        if not self.is_space(ev):
            return
        if f and ev.verb != f[0] and f[1] and f[1] in [ev.table] + list(ev.reads) and \
                any('.exc' in vs for vs in st.fr.values()):
            # the failed statement had no effect, and its handler looks at
            # (duplicate?) or changes the record in question instead
            f = False
            st.mon = (u, p, f)
        if self.dirty(ev):
            self.count('write_events')
            if ev.intx is False:
                if u >= 1:
                    self.eng.report('write-after-durable-change', node, act,
                                    f'{ev.verb} {ev.table} takes effect on its own although an earlier change of the '
                                    'same operation is already durable: a failure here leaves half of the operation',
                                    st, key=(self.eng.entry, ev.verb, ev.table, act.fi.qualname))
                st.mon = (min(u + 1, 2), p, f)
            else:
                st.mon = (u, True, f)
        elif ev.verb in ('COMMIT', 'RELEASE'):
            if p:
                if f:
                    self.eng.report('commit-after-error', node, act,
                                    f'transaction with changes is committed after a failure ({f[0]} {f[1]}) was swallowed',
                                    st, key=(self.eng.entry,))
                if u >= 1:
                    self.eng.report('second-commit', node, act,
                                    'a second transaction with changes is committed in one operation',
                                    st, key=(self.eng.entry,))
                st.mon = (min(u + 1, 2), False, f)
        elif ev.verb == 'ROLLBACK':
            st.mon = (u, False, f)

    def open_tx(self, st):
        return any(o.kind == 'conn' and o.attrs.get('tx') is not None and getattr(o.attrs['tx'], 'v', None) is True
                   for o in st.heap.values())

    def at_return(self, name, v, st, act, node):
        u, p, f = st.mon
        if self.open_tx(st):
            self.eng.report('transaction-left-open', node, act, 'returns with the transaction still open', st,
                            key=(self.eng.entry, 'ret'))
        if f and f[2] and u:
            self.eng.report('error-swallowed', node, act,
                            f'returns normally with durable changes although a statement ({f[0]} {f[1]}) failed', st,
                            key=(self.eng.entry,))

    def at_raise(self, name, e, st, act, node):
        u, p, f = st.mon
        if self.open_tx(st):
            self.eng.report('transaction-left-open', node, act,
                            f'{e.name} leaves the transaction open', st, key=(self.eng.entry, 'exc'))
        if u and not (f and f[0] == 'COMMIT'):
            self.eng.report('error-after-durable-change', node, act,
                            f'{e.name} (raised at {e.site}) is raised after a change was already made durable', st,
                            key=(self.eng.entry,))


class C01(EngineCheck):
    id = 'C01'
    monitor = TxMonitor
    technique = 'inter-procedural typestate analysis (abstract interpretation) of transactions with injected failures'
    level_note = ('All paths of all public DataSpace operations in a finite abstraction. Trusts the model of sqlite3 '
                  '(a failing statement has no effect, ROLLBACK undoes the transaction) and that releasing cursors '
                  'and rolling back do not fail.')
    fault = 1
    rules = ('write-after-durable-change', 'second-commit', 'commit-after-error', 'error-swallowed',
             'error-after-durable-change', 'transaction-left-open')
    explanation = ('Every path of every public DataSpace operation is followed through its generators and context '
                   'managers with a typestate over BEGIN/COMMIT/ROLLBACK/DML events; every DML/DDL/BEGIN/COMMIT event '
                   'may additionally fail (sqlite3 error or KeyboardInterrupt) once per path.')
    floors = {'entry_points': 50, 'write_events': 100}


check = C01
