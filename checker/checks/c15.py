"""C15: user-supplied names and values can never alter a database command."""
import re

from ..frame import ALL_EXTRA, EngineCheck, LEGACY
from ..rules import SpaceMonitor
from ..values import C, EMPTY, S, U, V

TEXT = 'stored text'


class TaintMonitor(SpaceMonitor):
    """Text from outside keeps its origin until its quotes are doubled (or, in a path, until it is percent-encoded)."""
    escapes = True

    def initial(self):
        return ()

    def row_tags(self, ev):
        if ev.verb == 'PRAGMA' and ev.pragma != 'table_info':
            return EMPTY
        return frozenset([TEXT])

    def taint(self, v, st):
        if isinstance(v, U) and v.kind in ('int', 'float', 'bool'):
            return set()
        return {t for t in self.eng.tags(v, st) if t == TEXT or t.startswith('arg:')} if isinstance(v, V) else set()

    def on_sql(self, ev, cur, st, act, node, rs):
        self.count('statements')
        for i, h in enumerate(ev.holes or ()):
            self.count('inserted_parts')
            bad = self.taint(h, st)
            if bad:
                self.eng.report('unquoted', node, act, f'text from outside ({", ".join(sorted(bad))}) becomes part of a command without being quoted', st,
                                key=(str(node.lineno),))
            elif isinstance(h, U) and h.sym in (('dq',), ('sq',)):
                q = '"' if h.sym == ('dq',) else "'"
                self.count('quoted_parts')
                t = self.whole(ev)
                if t is not None and not re.search(f'{q}«{i}»{q}', t):
                    self.eng.report('unquoted', node, act, f'text whose quotes are doubled is not enclosed in {q}', st, key=(str(node.lineno), 'q'))
            elif isinstance(h, V) and {'dq', 'sq'} & set(self.eng.tags(h, st)):
                self.count('quoted_parts')
        return None

    def whole(self, ev):
        return ev.text if '«' in (ev.text or '') else None


class C15(EngineCheck):
    id = 'C15'
    monitor = TaintMonitor
    technique = 'inter-procedural taint analysis of database commands (abstract interpretation with string templates)'
    level_note = ('All paths of all public operations, of the other entry points (graph functions, readers, mappers) and of opening files. Text is anything a '
                  'caller passes and anything read from a database. Embedded NUL characters are refused by format_identifier and by SQLite itself.')
    explanation = ('No text from outside becomes part of a command except between double quotes and with its own double quotes doubled; everything else '
                   'is bound as a parameter.')
    rules = ('unquoted',)
    extra_entries = ALL_EXTRA + LEGACY + ('read_file', 'bind_file')
    floors = {'entry_points': 50, 'statements': 2000, 'inserted_parts': 200, 'quoted_parts': 100}


check = C15
