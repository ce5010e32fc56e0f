id = 'p17'
property = 'C03'
needs = 'saving with fsync=False to a directory on another filesystem than the temporary directory'
breaks = 'without fsync the temporary file is created in the default temporary directory'
edits = [('dal1/data_connector.py', """            dir=dst_dirname,  # <- Use""", """            dir=dst_dirname if fsync else None,  # <- Use""")]
demo = """
import os, shutil, tempfile
from unittest import mock
from toron import DataSpace
import toron.dal1.data_connector as dc
d = tempfile.mkdtemp()
seen = []
real = os.replace
def rep(a, b):
    seen.append((os.path.dirname(os.path.realpath(a)), os.path.dirname(os.path.realpath(b))))
    return real(a, b)
try:
    s = DataSpace()
    s.add_index_columns('A')
    with mock.patch('os.replace', rep):
        s.to_file(os.path.join(d, 'a.toron'), fsync=False)
    assert seen and all(a == b for a, b in seen), seen
finally:
    shutil.rmtree(d)
"""
