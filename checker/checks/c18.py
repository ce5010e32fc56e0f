"""C18: partition definitions cover the whole space with existing labels."""
from ..labelrefs import DEFS, MIN_FUNC, LabelRefCheck, LabelRefMonitor, args_of
from ..project import AnalysisBroken


class DefMonitor(LabelRefMonitor):
    def judge(self, st, act, node):
        m = st.mon
        w = dict(m.written).get(DEFS)
        kinds = {k for k, _, _ in m.changes}
        r = self.eng.report
        key = (self.eng.entry,)
        if w is None:
            if kinds & {'ADD', 'DROP'} or (kinds and DEFS not in m.absent):
                r('definitions-outdated', node, act, 'label columns are changed but the partition definitions are not', st,
                  key=key)
            return
        self.count('definition_changes')
        if kinds and kinds <= {'RENAME', 'REBUILD'} and 'WHOLE' not in w and 'K:' + DEFS in w:
            return          # the same definitions under new names (C31)
        if not kinds and 'K:' + DEFS in w and not ({'L', 'MIN', 'COLS'} & w):
            return          # nothing was renamed
        if 'WHOLE' not in w:
            r('whole-space-missing', node, act, 'the definitions that are stored need not include the one of all (current) '
              'label columns', st, key=key)
        if 'RAW' in w:
            r('definitions-redundant', node, act, 'definitions are stored that were not reduced together with the others', st,
              key=key)
        if not kinds and args_of(w) and m.valid not in ('ok', 'empty'):
            r('unknown-labels', node, act, 'definitions are stored although ' + (
                'a label was found not to exist' if m.valid == 'bad' else 'their labels were not looked up'), st, key=key)


class C18(LabelRefCheck):
    id = 'C18'
    monitor = DefMonitor
    technique = 'inter-procedural provenance analysis of stored partition definitions'
    level_note = ('All paths of all public operations. Trusts that find_minimal_partition_generating_set returns a minimal list '
                  'generating its arguments (an algorithm over sets that no static argument here decides).')
    explanation = ('Every value stored as partition definitions is the reduction of definitions among which is the set of all '
                   'label columns read after the last column change, nothing unreduced is added, definitions given by '
                   'the user were looked up in the columns with failure raising, and every added or removed column is followed '
                   'by such a store.')
    rules = ('definitions-outdated', 'whole-space-missing', 'definitions-redundant', 'unknown-labels')
    floors = {'entry_points': 50, 'label_changes': 4, 'definition_changes': 8, 'reductions': 8}


    def prepare(self):
        if not any(f.name == MIN_FUNC for f in self.proj.functions):
            raise AnalysisBroken(f'{MIN_FUNC} not found')
        super().prepare()


check = C18
