id = 'p02'
property = 'C01'
needs = 'adding a weight group as the default and failing (or being interrupted) after the group was stored'
breaks = 'add_weight_group commits the new group before it is made the default'
edits = [('space.py', """            if make_default:
                set_default_weight_group(
                    weight_group=weight_group_repo.get_by_name(name),
                    property_repo=self._dal.PropertyRepository(cursor),
                )

    def edit_weight_group(""", """        if make_default:
            with self._managed_transaction() as cursor:
                weight_group_repo = self._dal.WeightGroupRepository(cursor)
                set_default_weight_group(
                    weight_group=weight_group_repo.get_by_name(name),
                    property_repo=self._dal.PropertyRepository(cursor),
                )

    def edit_weight_group(""")]
demo = """
from unittest import mock
from toron import DataSpace
s = DataSpace()
s.add_index_columns('A')
with mock.patch.object(s._dal.PropertyRepository, 'add_or_update', side_effect=MemoryError), \\
        mock.patch.object(s._dal.PropertyRepository, 'add', side_effect=MemoryError), \\
        mock.patch.object(s._dal.PropertyRepository, 'update', side_effect=MemoryError):
    try:
        s.add_weight_group('w', make_default=True)
    except MemoryError:
        pass
assert s.get_weight_group('w') is None
"""
