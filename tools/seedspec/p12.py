id = 'p12'
property = 'C09'
needs = 'delete_weights by row data where one of the rows has no weight to delete'
breaks = 'the weight group stays marked complete although weights were deleted from it'
edits = [('space.py', """            if counter['deleted'] and group and group.is_complete:
""", """            if (counter['deleted'] and not counter['no_weight']
                    and group and group.is_complete):
""")]
demo = """
import warnings
from toron import DataSpace
warnings.simplefilter('ignore')
s = DataSpace()
s.add_index_columns('A')
s.insert_index([('A',), ('x',), ('y',)])
s.add_weight_group('w')
s.insert_weights('w', [('index_id', 'A', 'w'), (1, 'x', 1), (2, 'y', 1)])
assert s.get_weight_group('w').is_complete
s.delete_weights('w', [('index_id', 'A', 'w'), (1, 'x', 1), (1, 'x', 1)])
assert not s.get_weight_group('w').is_complete
"""
