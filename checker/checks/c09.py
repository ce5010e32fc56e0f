"""C09: a weight group is marked complete only while every index record has a weight."""
from collections import namedtuple

from ..frame import EngineCheck
from ..rules import FlagMonitor

M = namedtuple('M', 'loops low high fresh')


class CompleteMonitor(FlagMonitor):
    M = M
    group_table, group_key = 'weight_group', 'weight_group_id'
    flag = 'is_complete'
    rel_table = 'weight'
    inst = 'WeightGroup'
    what = 'weight group'


class C09(EngineCheck):
    id = 'C09'
    monitor = CompleteMonitor
    technique = 'inter-procedural derived-state (freshness) dataflow analysis with for-all loop rules'
    level_note = ('All paths of all public operations. The completeness question is recognised from its SQL (index '
                  'records other than 0 without a weight of the given group); that merging index records re-adds the '
                  'weights of the surviving record is not tracked per group.')
    explanation = ('Adding index records may make every group incomplete, deleting weights one group; deleting index '
                   'records may make every group complete, adding weights one group. Before commit each affected group '
                   'must have been updated with the answer of the completeness question asked after the change (or be '
                   'known to carry that value already).')
    rules = ('flag-stays-set', 'flag-not-set', 'flag-set-unchecked', 'flag-question-wrong')
    floors = {'entry_points': 50, 'flag_updates': 8, 'questions': 6, 'relevant_changes': 12}


check = C09
