"""C14: label columns stay identical in index, locations and structure."""
import re
from collections import namedtuple

from ..frame import LEGACY, EngineCheck
from ..rules import SpaceMonitor
from ..schema import table_of
from ..sqlmini import ident, paren_list, split_top
from ..values import C, FALSE, Tup, TRUE, U, V

# cols: {table: signature} where a signature tells how its label columns came about
M = namedtuple('M', 'cols saved')
FIXED = {'label_index': ('index_id',), 'label_location': ('_location_id',),
         'label_structure': ('_structure_id', '_granularity')}
OLD = {'node_index': 'label_index', 'location': 'label_location', 'structure': 'label_structure'}
HOLE = re.compile('«(\\d+)»')
BASE = ('B',)
START = tuple((t, BASE) for t in sorted(FIXED))
NO_TABLES = ()


def last(n):
    return (n or '?').split('.')[-1]


class LabelMonitor(SpaceMonitor):
    mark_order = True
    relate_loops = True

    def initial(self):
        return M(START, None)

    def fetch_cases(self, ev, how, st):
        if how != 'all' or ev.verb != 'PRAGMA' or ev.pragma != 'table_info' or \
                ev.arg.strip("'\"") not in FIXED:
            return None
        names = [C(x) for x in FIXED[ev.arg.strip("'\"")]]
        names += [U(['TI:0'], kind='str'), U(['TI:1'], kind='str')]
        return [(tuple(Tup((C(k), n, C('TEXT'), C(0), C(None), C(0))) for k, n in enumerate(names)), None)]

    # -- signatures
    def sig(self, st, t):
        return dict(st.mon.cols).get(t)

    def put(self, st, t, sig):
        d = dict(st.mon.cols)
        d.pop(t, None)
        if sig is not None:
            d[t] = sig
        st.mon = st.mon._replace(cols=tuple(sorted(d.items())))

    def names_in(self, ev, text, st):
        """The (abstract) name written in a piece of statement text."""
        hs = HOLE.findall(text)
        if not hs:
            return text.strip().strip('"')
        tags = set()
        for h in hs[:1]:
            v = ev.holes[int(h)] if int(h) < len(ev.holes) else None
            if isinstance(v, V):
                tags |= self.eng.tags(v, st)
        tags -= {'dq'}
        return tuple(sorted(str(x) for x in tags))

    def column_names(self, ev, st):
        t = table_of(ev.text, '', '')
        return None if t is None else [self.names_in(ev, c.name, st) for c in t.cols]

    def after_sql(self, ev, cur, st, act, node):
        if not self.is_space(ev):
            return
        m = st.mon
        if ev.verb == 'BEGIN':
            st.mon = m._replace(saved=m.cols)
            return
        if ev.verb == 'ROLLBACK' and not ev.arg:
            if m.saved is not None:
                st.mon = M(m.saved, None)
            return
        if ev.verb == 'COMMIT':
            self.settled(st, act, node, 'is committed')
            return
        if ev.verb == 'CREATE' and ev.kindword == 'TABLE' and not ev.temp:
            n = last(ev.name)
            cols = self.column_names(ev, st)
            if cols is None:
                return
            for t, fixed in FIXED.items():
                if tuple(cols[:len(fixed)]) == fixed:
                    self.count('tables_created')
                    self.put(st, n, ('T', t) + tuple(cols[len(fixed):]))
                    break
            return
        t = last(ev.table)
        if ev.verb == 'DROP' and ev.kindword == 'TABLE':
            if self.sig(st, last(ev.name)) is not None:
                self.put(st, last(ev.name), None)
        elif ev.verb == 'ALTER' and ev.conflict == 'RENAME_TABLE':
            s = self.sig(st, t)
            new = last(ev.arg)
            if s is None and t in OLD:
                s = BASE
            if s is None:
                return
            if new in FIXED and s[0] == 'T':
                if s[1] != new:
                    self.eng.report('label-columns-differ', node, act, f'{new} is replaced by a table made like {s[1]}', st,
                                    key=(self.eng.entry, t, new))
                s = ('R',) + tuple(s[2:])
            elif t in OLD and OLD[t] != new:
                self.eng.report('label-columns-differ', node, act, f'table {t} is renamed to {new} instead of {OLD[t]}', st,
                                key=(self.eng.entry, t, new))
            self.put(st, t, None)
            self.put(st, new, s)
        elif ev.verb == 'ALTER' and ev.conflict in ('ADD_COLUMN', 'DROP_COLUMN', 'RENAME_COLUMN') and \
                self.sig(st, t) is not None:
            self.count('column_changes')
            names = tuple(self.names_in(ev, '«%d»' % k, st) for k in range(len(ev.holes)))
            if ev.conflict == 'ADD_COLUMN':
                names = names[:1]
            elif ev.conflict == 'DROP_COLUMN':
                names = names[:1]
            else:
                names = names[:2]
            op = (ev.conflict, names, ev.text[ev.text.upper().index('COLUMN'):] if not ev.holes else '')
            s = self.sig(st, t)
            if op not in s:
                self.put(st, t, s + (op,))
        elif ev.verb == 'INSERT' and ev.reads and t not in FIXED and self.sig(st, t) is not None:
            self.copied(ev, t, st, act, node)

    def copied(self, ev, t, st, act, node):
        """Values must be copied into the column that has taken the place of theirs."""
        s = self.sig(st, t)
        if s[0] != 'T':
            return
        self.count('tables_copied')
        new = list(FIXED[s[1]]) + list(s[2:])
        ups = [x.up for x in ev.toks]
        i = ups.index('SELECT') + 1
        k = ups.index('FROM', i)
        items = split_top(ev.toks[i:k])
        if len(items) == 1 and items[0][-1].t == '*':
            old = list(FIXED[s[1]]) + [(f'TI:{n}',) for n in range(2)]
        else:
            old = [self.names_in(ev, ident(x[-1]), st) for x in items if x]
        into = ups.index('INTO') if 'INTO' in ups else 0
        j = next((j for j in range(into, i - 1) if ev.toks[j].t == '('), None)
        if j is not None:
            cs, _ = paren_list(ev.toks, j)
            new = [self.names_in(ev, ident(c[-1]), st) for c in cs if c]
        bad = len(old) != len(new)
        for o, n in zip(old, new):
            to = {x for x in o if x.startswith('TI:')} if isinstance(o, tuple) else o
            tn = {x for x in n if x.startswith('TI:')} if isinstance(n, tuple) else n
            if isinstance(to, set) != isinstance(tn, set) or (isinstance(to, str) and to != tn):
                bad = True
            elif isinstance(to, set) and (tn and to != tn or self.marks(o) != self.marks(n)):
                bad = True
        if bad:
            self.eng.report('values-in-other-column', node, act, f'the columns of {last(ev.reads[0])} are copied into {t} in a '
                            'different order', st, key=(self.eng.entry, t))

    @staticmethod
    def marks(x):
        return {t for t in x if t in ('reversed', 'sorted') or t.startswith('part:')}

    def settled(self, st, act, node, how):
        d = dict(st.mon.cols)
        if all(t in d for t in FIXED):
            a = d['label_index']
            for t in ('label_location', 'label_structure'):
                if self.norm(d[t]) != self.norm(a):
                    self.eng.report('label-columns-differ', node, act,
                                    f'the operation {how} with different label columns in label_index ({self.show(a)}) and '
                                    f'{t} ({self.show(d[t])})', st, key=(self.eng.entry, t))
        else:
            miss = [t for t in FIXED if t not in d]
            self.eng.report('label-columns-differ', node, act, f'the operation {how} without table {", ".join(miss)}', st,
                            key=(self.eng.entry, tuple(miss)))
        st.mon = M(START, None)

    @staticmethod
    def norm(s):
        return ('R',) + s[2:] if s[0] == 'T' else s

    @staticmethod
    def show(s):
        return 'unchanged' if s == BASE else ' '.join(str(x) for x in s[1:]) or 'no columns'

    def at_return(self, name, v, st, act, node):
        if dict(st.mon.cols):
            self.settled(st, act, node, 'completes')

    def at_raise(self, name, e, st, act, node):
        # without a transaction of its own a change is durable at once; C01
        return


class C14(EngineCheck):
    id = 'C14'
    monitor = LabelMonitor
    technique = 'inter-procedural simulation of the label columns of the three tables'
    level_note = ('All paths of all public operations, creation, opening (with upgrades) and the legacy column functions; '
                  'spaces with two label columns stand for any number. Order of the names is followed through '
                  'comprehensions and loops over the same collection.')
    explanation = ('Every statement that creates, rebuilds, renames, adds or drops columns of label_index, label_location and '
                   'label_structure is applied to an abstract column list per table; at every commit and end the lists agree, '
                   'and rebuilt tables receive every value in its own column.')
    rules = ('label-columns-differ', 'values-in-other-column')
    extra_entries = LEGACY + ('read_file', 'bind_file', 'create.mem', 'create.drive')
    floors = {'entry_points': 50, 'column_changes': 9, 'tables_created': 15, 'tables_copied': 5}

    def extra(self, name, eng, v, st, act, rs, node):
        if name.startswith('create.'):
            ds = self.proj.cls('toron.space', 'DataSpace')
            st.mon = M(NO_TABLES, None)
            return eng.instantiate(ds, [], {'cache_to_drive': TRUE if name.endswith('drive') else FALSE}, st, act, rs, node)
        return super().extra(name, eng, v, st, act, rs, node)


check = C14
