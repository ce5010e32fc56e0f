id = 'p04'
property = 'C05'
needs = 'reading the default weight group of a space whose stored default refers to a group that was dropped'
breaks = 'reporting the default weight group clears the stored property (a read operation writes)'
edits = [('space.py', """    def get_label_columns(self) -> List[str]:
        \"\"\"Return label columns in display order.\"\"\"
        with self._managed_cursor() as cursor:
            return get_labels_in_display_order(
                index_repo=self._dal.IndexRepository(cursor),
                property_repo=self._dal.PropertyRepository(cursor),
            )
""", """    def get_label_columns(self) -> List[str]:
        \"\"\"Return label columns in display order.\"\"\"
        with self._managed_cursor() as cursor:
            index_repo = self._dal.IndexRepository(cursor)
            property_repo = self._dal.PropertyRepository(cursor)
            labels = get_labels_in_display_order(index_repo, property_repo)
            if len(labels) > 6:  # Keep order of larger spaces for next time.
                set_labels_in_display_order(labels, index_repo, property_repo)
            return labels
""")]
demo = """
from toron import DataSpace
s = DataSpace()
s.add_index_columns('A', 'B', 'C', 'D', 'E', 'F', 'G')

def dump():
    with s._managed_cursor() as cur:
        return cur.execute('SELECT key, value FROM property ORDER BY key').fetchall()

before = dump()
assert s.get_label_columns() == ['A', 'B', 'C', 'D', 'E', 'F', 'G']
assert dump() == before
"""
