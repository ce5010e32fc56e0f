"""C05: reporting operations never change the stored data."""
from ..frame import EngineCheck, READ_EXTRA, ds_methods
from ..project import AnalysisBroken
from ..rules import SpaceMonitor

REPORTING = ('select_', 'get_', 'find_', 'list_', 'count_', 'has_', 'is_', 'describe', 'export', 'to_', 'iter_')


class WriteMonitor(SpaceMonitor):
    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            self.count('statements_on_other_databases')
            return
        self.count('statements_checked')
        bad = None
        if ev.is_write:
            bad = f'{ev.verb} {ev.table}'
        elif ev.is_ddl and not ev.temp:
            bad = f'{ev.verb} {ev.table or ev.kindword or ""}'
        elif ev.verb == 'PRAGMA' and ev.arg is not None and ev.pragma in (
                'user_version', 'application_id', 'journal_mode', 'writable_schema', 'page_size', 'auto_vacuum',
                'schema_version', 'encoding'):
            bad = f'PRAGMA {ev.pragma}={ev.arg}'
        elif ev.verb == 'VACUUM' and 'INTO' not in ev.text.upper() or ev.verb in ('REINDEX', 'ATTACH', 'OTHER') \
                and ev.verb != 'VACUUM':
            bad = ev.verb + ' ' + ev.text[:40]
        if bad and not (ev.table or '').startswith('temp.'):
            self.eng.report('reporting-operation-writes', node, act, f'{bad} is executed on the space', st,
                            key=(self.eng.entry, bad, act.fi.qualname))


class C05(EngineCheck):
    id = 'C05'
    monitor = WriteMonitor
    technique = 'inter-procedural effect analysis (abstract interpretation of every reporting entry point)'
    level_note = ('Every SQL statement reachable on a connection of the space from a reporting entry point is '
                  'classified; statements are evaluated to templates, an unclassifiable statement is reported. '
                  'Entry points: DataSpace properties, __call__, __repr__ and methods named like queries; NodeReader, '
                  'Mapper and graph query functions.')
    explanation = ('All paths of the reporting entry points are followed; no INSERT/UPDATE/DELETE/DDL may reach a '
                   'connection opened by the space itself (temporary databases of readers and mappers are exempt).')
    rules = ('reporting-operation-writes',)
    extra_entries = READ_EXTRA
    floors = {'entry_points': 30, 'statements_checked': 200}

    def entry_methods(self):
        ms = ds_methods(self.proj, ('__repr__',))
        return {n: m for n, m in ms.items() if m.is_prop or n.startswith(REPORTING) or n in ('__call__', '__repr__')}


check = C05
