id = 'p09'
property = 'C10'
needs = 'delete_mappings by row data where one row is skipped because its value differs'
breaks = 'the fingerprint and completeness of the link are not refreshed after deleting mappings'
edits = [('space.py', """            if counter['deleted']:
                # Get ordered sequence of other_index_id values.
                other_index_ids = aux_mapping_repo""", """            if counter['deleted'] > counter['value_mismatch']:
                # Get ordered sequence of other_index_id values.
                other_index_ids = aux_mapping_repo""")]
demo = """
import warnings
from toron import DataSpace
warnings.simplefilter('ignore')
a, b = DataSpace(), DataSpace()
for s in (a, b):
    s.add_index_columns('A')
    s.insert_index([('A',), ('x',), ('y',)])
b.add_link(a, 'one')
L = b'\\x80'
b.insert_mappings(a, 'one', [['other_index_id', 'one', 'index_id', 'mapping_level', 'A'], [1, 10, 1, L, 'x'], [2, 10, 2, L, 'y'], [2, 5, 1, L, 'x']])
assert b.links[0].is_locally_complete
b.delete_mappings(a, 'one', [['other_index_id', 'one', 'index_id', 'A'], [1, 10, 1, 'x'], [2, 99, 2, 'y']])
with b._managed_cursor() as cur:
    left = [(x.other_index_id, x.index_id) for x in b._dal.MappingRepository(cur).find(link_id=1)]
assert sorted(left) == [(2, 1), (2, 2)], left
from toron._utils import SequenceHash
assert b.links[0].other_index_hash == SequenceHash([0, 2]).get_hexdigest()
"""
