"""C25: the identity and format properties of a space never change."""
from collections import namedtuple

from ..frame import EngineCheck
from ..project import AnalysisBroken
from ..rules import SpaceMonitor, literal, prop_key, prop_value
from ..values import C, FALSE, TRUE, Ref, V

M = namedtuple('M', 'created upgraded')
IDENT = ('unique_id', 'created_date', 'toron_schema_version')
T = 'IDENTITY'


def last(n):
    return (n or '').split('.')[-1].strip('"').lower()


class IdentityMonitor(SpaceMonitor):
    def initial(self):
        return M(frozenset(), frozenset())

    def row_tags(self, ev):
        if ev.verb == 'SELECT' and ev.reads == ['property'] and self.is_space(ev) \
                and literal(ev.where.get('key')) == 'unique_id' and ev.cols[:1] == ['value']:
            return frozenset([T])
        return frozenset()

    def after_sql(self, ev, cur, st, act, node):
        if ev.verb == 'CREATE' and ev.kindword == 'TABLE' and not ev.temp and last(ev.name) == 'property':
            st.mon = st.mon._replace(created=st.mon.created | {'property'})
            return
        if not self.is_space(ev):
            return
        r = self.eng.report
        opening = self.eng.entry.split()[0] in ('read_file', 'bind_file')
        new = 'property' in st.mon.created
        if ev.verb == 'PRAGMA' and ev.arg is not None and ev.pragma in ('user_version', 'application_id'):
            self.count('format_marks')
            if not new:
                r('identity-changed', node, act, f'the format mark {ev.pragma} of an existing space is changed', st)
            return
        if ev.temp or not (ev.is_write or ev.is_ddl):
            return
        if ev.is_ddl:
            if last(ev.table) == 'property' and ev.verb in ('DROP', 'ALTER'):
                r('identity-changed', node, act, f'{ev.verb} of the table that stores the identity', st)
            return
        if last(ev.table) != 'property':
            return
        self.count('property_writes')
        k = prop_key(self.eng, ev, st)
        if ev.verb == 'UPDATE' and 'key' in ev.cols:
            k2 = literal(ev.colvals.get('key'))
            if k2 is None or k2 in IDENT:
                r('identity-changed', node, act, f'a stored property is renamed to {k2 or "an unknown name"}', st)
        if k is None:
            r('identity-changed', node, act, f'{ev.verb} property for a name that cannot be determined: may change the '
              'identity of the space', st, key=(act.fi.qualname, ev.verb))
            return
        if k not in IDENT:
            return
        self.count('identity_writes')
        if new:
            v = prop_value(ev)
            if ev.verb != 'INSERT' or k in st.mon.created or ev.conflict in ('REPLACE', 'IGNORE'):
                r('identity-changed', node, act, f'{k} is written again while the space is created', st, key=(k,))
            if k != 'toron_schema_version' and not (isinstance(v, V) and not isinstance(v, C)):
                r('identity-fixed', node, act, f'every new space gets the same {k}', st, key=(k,))
            st.mon = st.mon._replace(created=st.mon.created | {k})
        elif not opening:
            r('identity-changed', node, act, f'{ev.verb} of {k} in an existing space', st, key=(k, ev.verb))
        elif k == 'unique_id' or ev.verb == 'DELETE' or (ev.verb == 'UPDATE') != (k == 'toron_schema_version') \
                or ev.conflict == 'REPLACE':
            r('identity-changed', node, act, f'opening a file changes its {k} ({ev.verb})', st, key=(k, ev.verb))

    def at_return(self, name, v, st, act, node):
        if name.startswith(('create.', 'read_file', 'bind_file')):
            if not isinstance(v, Ref):
                return
            if name.startswith('create.') and set(IDENT) - st.mon.created:
                self.eng.report('identity-missing', node, act, f'a new space has no {sorted(set(IDENT) - st.mon.created)}', st)
            for x, s in self.eng.getattr(v, 'unique_id', st.fork(), act, [], node):
                self.same(x, s, act, node)
        elif name == 'unique_id':
            self.same(v, st, act, node)

    def same(self, x, st, act, node):
        self.count('identity_reports')
        if T not in self.eng.tags(x, st):
            self.eng.report('identity-invented', node, act, 'the unique id that is reported is not the one stored', st)


class C25(EngineCheck):
    id = 'C25'
    monitor = IdentityMonitor
    technique = 'inter-procedural effect analysis of property writes, and dataflow of the reported unique id'
    level_note = ('All paths of all public operations, of creating and of opening a space. Decides which stored properties a '
                  'write may touch from the constant key that reaches it; a key that is not constant is reported.')
    explanation = ('unique_id, created_date and toron_schema_version (and the format marks of the file) are inserted once when '
                   'the property table is created; the upgrade may only update the version and add a missing date; no other '
                   'operation may write these keys or a key that is not known. The id a space reports flows from the stored one.')
    rules = ('identity-changed', 'identity-fixed', 'identity-missing', 'identity-invented')
    extra_entries = ('create.mem', 'create.drive', 'read_file', 'bind_file')
    floors = {'entry_points': 55, 'property_writes': 20, 'identity_writes': 8, 'identity_reports': 4, 'format_marks': 2}

    def make_start(self, eng, kind):
        m = IdentityMonitor()
        m.eng = eng
        eng.monitor, old = m, eng.monitor
        eng.entry = 'create'
        try:
            outs = []
            for v, s in self.start_states(eng, kind, m):
                s.mon = ()
                outs.append((v, s))
            return outs
        finally:
            eng.monitor = old
            eng.reports = {}

    def start_states(self, eng, kind, m):
        ds = self.proj.cls('toron.space', 'DataSpace')
        act, node = self.root()
        from ..interp import St
        st = St({'root': {}}, {}, m.initial())
        outs = eng.instantiate(ds, [], {'cache_to_drive': FALSE if kind == 'mem' else TRUE}, st, act, [], node)
        outs = [(v, s) for v, s in outs if isinstance(v, Ref)]
        if not outs:
            raise AnalysisBroken('no space can be created')
        return outs

    def extra(self, name, eng, v, st, act, rs, node):
        if name.startswith('create.'):
            ds = self.proj.cls('toron.space', 'DataSpace')
            return eng.instantiate(ds, [], {'cache_to_drive': TRUE if name.endswith('drive') else FALSE}, st, act, rs, node)
        return super().extra(name, eng, v, st, act, rs, node)


check = C25
