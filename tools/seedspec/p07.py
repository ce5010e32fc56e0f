id = 'p07'
property = 'C15'
needs = 'a label column named like an SQL keyword'
breaks = 'label names that look like plain identifiers are put into the granularity query without quotes'
edits = [('dal1/optimizations.py', """        columns = [format_identifier(col) for col in columns]
""", """        columns = [
            col if col.isidentifier() else format_identifier(col)
            for col in columns
        ]
""")]
demo = """
from toron import DataSpace
s = DataSpace()
s.add_index_columns('order', 'group')
s.insert_index([('order', 'group'), ('x', '1'), ('x', '2')])
s.add_partition_definitions({'order'})
with s._managed_cursor() as cur:
    vals = sorted(str(x.granularity) for x in s._dal.StructureRepository(cur).get_all())
assert vals == ['0.0', '1.0', 'None'], vals
"""
