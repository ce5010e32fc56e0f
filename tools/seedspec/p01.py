id = 'p01'
property = 'C07'
needs = 'update_index(merge_on_conflict=True) given both a merging row and a row with an empty value'
breaks = 'the fingerprint is not recomputed after a merge when another input row was skipped'
edits = [('space.py', """            if counter['merged']:
                refresh_index_hash_property(""", """            if counter['merged'] and not counter['empty_str']:
                refresh_index_hash_property("""),]
demo = """
import warnings
from toron import DataSpace
from toron._utils import SequenceHash
s = DataSpace()
s.add_index_columns('A', 'B')
s.insert_index([('A', 'B'), ('x', '1'), ('x', '2'), ('y', '1'), ('y', '2')])
warnings.simplefilter('ignore')
s.update_index([('index_id', 'A', 'B'), (1, 'x', '2'), (3, '', 'z')], merge_on_conflict=True)
with s._managed_cursor() as cur:
    have = s._dal.PropertyRepository(cur).get('index_hash')
    ids = list(s._dal.IndexRepository(cur).find_all_index_ids(ordered=True))
assert ids == [0, 1, 3, 4], ids
assert have == SequenceHash(ids).get_hexdigest()
"""
