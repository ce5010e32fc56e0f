id = 'p03'
property = 'C08'
needs = 'delete_index by row data where one of the rows does not match its record'
breaks = 'granularity values are not recomputed after deleting index records'
edits = [('space.py', """                refresh_structure_granularity(
                    label_manager=label_manager,
                    structure_repo=self._dal.StructureRepository(cursor),
                    index_repo=index_repo,
                    aux_index_repo=aux_index_repo,
                    optimizations=self._dal.optimizations,
                )

                # All unweighted""", """                if not counter['mismatch']:
                    refresh_structure_granularity(
                        label_manager=label_manager,
                        structure_repo=self._dal.StructureRepository(cursor),
                        index_repo=index_repo,
                        aux_index_repo=aux_index_repo,
                        optimizations=self._dal.optimizations,
                    )

                # All unweighted""")]
demo = """
import warnings
from toron import DataSpace
warnings.simplefilter('ignore')

def make(rows):
    s = DataSpace()
    s.add_index_columns('A', 'B')
    s.insert_index([('A', 'B')] + rows)
    s.add_partition_definitions({'A'})
    return s

def gran(s):
    with s._managed_cursor() as cur:
        return sorted((x.bits, x.granularity) for x in s._dal.StructureRepository(cur).get_all())

a = make([('x', '1'), ('x', '2'), ('y', '1'), ('y', '2')])
a.delete_index([('index_id', 'A', 'B'), (4, 'y', '2'), (1, 'x', 'other')])
b = make([('x', '1'), ('x', '2'), ('y', '1')])
assert gran(a) == gran(b), (gran(a), gran(b))
"""
