id = 'p10'
property = 'C27'
needs = 'quantities whose locations no longer match any index record because every index record was deleted'
breaks = 'quantities of structures without a granularity are dropped instead of raising an error'
edits = [('space.py', """            for structure in structures:
                quantities = quantity_repo.find_by_structure(""", """            for structure in structures:
                if structure.granularity is None and any(structure.bits):
                    continue  # No index records in use.

                quantities = quantity_repo.find_by_structure(""")]
demo = """
import warnings
from toron import DataSpace
warnings.simplefilter('ignore')
s = DataSpace()
s.add_index_columns('A', 'B')
s.insert_index([('A', 'B'), ('x', '1'), ('x', '2')])
s.add_partition_definitions({'A'})
s.add_weight_group('w', make_default=True)
s.insert_weights('w', [('index_id', 'A', 'B', 'w'), (1, 'x', '1', 1), (2, 'x', '2', 1)])
s.set_registered_attributes(['k'])
s.insert_quantities(
    data=[('A', 'B', 'k', 'value'), ('x', '', 'c', 5)], value='value', attributes=['k'])
s.delete_index([('index_id', 'A', 'B'), (1, 'x', '1'), (2, 'x', '2')])
s.edit_weight_group('w', is_complete=True)
try:
    out = list(s._disaggregate())
except RuntimeError:
    out = None
assert out is None, out
"""
