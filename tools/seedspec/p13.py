id = 'p13'
property = 'C17'
needs = 'adding several label columns at once where the first is a registered attribute'
breaks = 'when several columns are added, the first is not validated'
edits = [('space.py', """            validate_new_index_columns(
                new_column_names=chain([column], columns),
                reserved_identifiers""", """            validate_new_index_columns(
                new_column_names=columns or (column,),
                reserved_identifiers""")]
demo = """
from toron import DataSpace
s = DataSpace()
s.add_index_columns('A')
s.set_registered_attributes(['kind'])
try:
    s.add_index_columns('kind', 'B')
except Exception:
    pass
assert list(s.index_columns) == ['A'], s.index_columns
"""
