id = 'p08'
property = 'C30'
needs = 'edit_link(is_default=True) on a link that has selectors'
breaks = 'making a link the default does not clear the earlier default link'
edits = [('space.py', """            if changes.get('is_default') == True:
""", """            if changes.get('is_default') is True and not link.selectors:
""")]
demo = """
from toron import DataSpace
a, b = DataSpace(), DataSpace()
b.add_link(a, 'one', is_default=True)
b.add_link(a, 'two', selectors=['[x="1"]'])
try:
    b.edit_link(a, 'two', is_default=True)
except Exception:
    pass
names = [x.name for x in b.links if x.is_default]
assert names == ['two'], names
"""
