"""C31: stored references to label names follow renames and removals."""
from ..frame import LEGACY
from ..labelrefs import KEYS, LabelRefCheck, LabelRefMonitor

WHAT = {'partition_definitions': 'the partition definitions', 'label_display_order': 'the display order'}


class RefMonitor(LabelRefMonitor):
    def judge(self, st, act, node):
        m = st.mon
        w = dict(m.written)
        for kind, new, old in sorted(m.changes, key=str):
            if kind == 'ADD':
                continue
            did = 'a label column is ' + {'RENAME': 'renamed', 'DROP': 'removed'}.get(kind, 'renamed or removed')
            for k in KEYS:
                if k not in w:
                    if k not in m.absent:
                        self.eng.report('reference-not-updated', node, act, f'{did} but {WHAT[k]} are not updated', st,
                                        key=(self.eng.entry, k))
                elif 'L' in w[k]:
                    self.eng.report('reference-stale', node, act, f'{did} but {WHAT[k]} keep the label names stored before',
                                    st, key=(self.eng.entry, k))
                elif kind == 'RENAME' and k not in m.absent and new and not (new & w[k]):
                    self.eng.report('reference-stale', node, act, f'{did} but {WHAT[k]} do not get the new name', st,
                                    key=(self.eng.entry, k))


class C31(LabelRefCheck):
    id = 'C31'
    monitor = RefMonitor
    technique = 'inter-procedural taint analysis of stored label names'
    level_note = ('All paths of all public operations and the legacy column functions. The properties that hold label names '
                  'are partition_definitions and label_display_order; names read from them count as outdated until matched '
                  'with the current columns, the removed names or the renaming.')
    explanation = ('When a label column is renamed or removed, each property that holds label names is written in the same '
                   'operation (or found to be absent) and the value written contains no stored name that was not passed through the '
                   'renaming, or filtered by the columns there are after the change.')
    rules = ('reference-not-updated', 'reference-stale')
    extra_entries = LEGACY
    floors = {'entry_points': 50, 'label_changes': 5, 'reference_writes': 10}



check = C31
