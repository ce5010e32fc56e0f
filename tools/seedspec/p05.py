id = 'p05'
property = 'C26'
needs = 'a second link with selectors, current but not locally complete, and data matching its selectors'
breaks = 'translation uses a link chosen by selectors although it is not locally complete'
edits = [('graph.py', """        links = [x for x in links if x.is_locally_complete and x.selectors]
""", """        links = [x for x in links if x.selectors]
""")]
demo = """
import warnings
from toron import DataSpace
from toron.data_models import QuantityIterator, AttributesDict, Index
from toron.graph import translate
warnings.simplefilter('ignore')
src = DataSpace()
src.add_index_columns('A')
src.insert_index([('A',), ('x',), ('y',)])
trg = DataSpace()
trg.add_index_columns('A')
trg.insert_index([('A',), ('p',), ('q',)])
with src._managed_cursor() as cur:
    h = src._dal.PropertyRepository(cur).get('index_hash')
for name, complete, sel in (('one', True, None), ('two', False, ['[kind="C"]'])):
    trg.add_link(src, name, selectors=sel, is_default=(name == 'one'))
L = b'\\x80'
rows = [['other_index_id', 'one', 'index_id', 'mapping_level', 'A'], [1, 10, 1, L, 'p'], [2, 10, 2, L, 'q']]
trg.insert_mappings(src, 'one', rows)
rows = [['other_index_id', 'two', 'index_id', 'mapping_level', 'A'], [1, 10, 1, L, 'p'], [2, 10, 1, L, 'p']]
trg.insert_mappings(src, 'two', rows)
links = {x.name: x for x in trg.links}
assert links['one'].is_locally_complete and not links['two'].is_locally_complete
assert links['two'].other_index_hash == links['one'].other_index_hash == h
it = QuantityIterator(
    unique_id=src.unique_id, index_hash=h, domain='',
    data=[(Index(2, ('y',)), {'kind': 'C'}, 5.0)],
    label_names=['A'], attribute_keys=['kind'],
)
out = [(i.id, v) for i, a, v in translate(it, trg)._data]
assert out == [(2, 5.0)], out
"""
