id = 'p15'
property = 'C06'
needs = 'the add attribute command with at least one new attribute'
breaks = 'the backup is made after the new attributes were stored'
edits = [('cli/command_add.py', """    \"\"\"Add attribute columns to the given node file.\"\"\"
    node = cli_bind_file(args.filepath, mode='rw')
    process_backup_option(args, node)

""", """    \"\"\"Add attribute columns to the given node file.\"\"\"
    node = cli_bind_file(args.filepath, mode='rw')

"""), ('cli/command_add.py', """        applogger.info(f'added attribute columns: {formatted_attrs}')
    else:""", """        process_backup_option(args, node)
        applogger.info(f'added attribute columns: {formatted_attrs}')
    else:""")]
demo = """
import glob, os, shutil, tempfile
from toron import DataSpace, read_file
from toron.cli.main import main
d = tempfile.mkdtemp()
try:
    os.chdir(d)
    s = DataSpace()
    s.add_index_columns('A')
    s.to_file('a.toron')
    try:
        main(['a.toron', 'add', 'attribute', 'kind'])
    except SystemExit:
        pass
    backups = [p for p in glob.glob('*') if p != 'a.toron']
    assert len(backups) == 1, backups
    assert read_file('a.toron').get_registered_attributes() == ['kind']
    assert read_file(backups[0]).get_registered_attributes() == []
finally:
    os.chdir('/')
    shutil.rmtree(d)
"""
