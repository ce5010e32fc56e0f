"""C03: saving a space to a file is atomic and (by default) durable."""
import ast
from collections import namedtuple

from ..frame import EngineCheck
from ..project import AnalysisBroken
from ..rules import SpaceMonitor
from ..values import C, EMPTY, ExcV, Obj, Ref, Tup, U, V

# tmp: '', 'made', 'moved', 'gone'; wrote: '', 'vacuum', 'backup'; sync: value of PRAGMA synchronous
# new: SQLite is known to be 3.40 or later; perms: permissions checked; fault: (exception, call) injected on this path
M = namedtuple('M', 'tmp wrote flushed sync new perms dirsync fault')
TMP, DIR, DST = 'TMP', 'DIR', 'arg:path'
WATCH = ('os.access', 'os.path.isfile', 'os.path.exists', 'os.path.lexists', 'os.path.dirname', 'os.path.split',
         'tempfile.NamedTemporaryFile', 'tempfile.mkstemp', 'os.open', 'os.fsync', 'os.fdatasync', 'os.chmod', 'os.fchmod', 'os.replace',
         'os.rename', 'os.unlink', 'os.remove', 'os.close', 'os.truncate', 'os.link', 'os.symlink', 'builtins.open', 'os.write',
         'fcntl.fcntl', 'os.removedirs', 'os.rmdir', 'os.mkdir', 'os.makedirs')
FSYNC = {'fsync on': C(True), 'fsync off': C(False)}
FAULTS = {'sql:VACUUM': ('sqlite3.OperationalError', 'KeyboardInterrupt'),
          'conn.backup': ('sqlite3.OperationalError', 'KeyboardInterrupt'),
          'sqlite3.connect': ('sqlite3.OperationalError',),
          'os.chmod': ('PermissionError', 'KeyboardInterrupt'), 'os.replace': ('PermissionError', 'KeyboardInterrupt'),
          'os.rename': ('PermissionError',), 'os.open': ('OSError', 'KeyboardInterrupt'), 'os.fsync': ('OSError', 'KeyboardInterrupt'),
          'os.fdatasync': ('OSError',)}


class SaveMonitor(SpaceMonitor):
    fault_names = ('OSError',)

    def initial(self):
        return M('', '', False, None, False, frozenset(), False, None)

    def on_enter(self, fi, act, st):
        # elsewhere directories cannot be synchronised (Windows)
        if st.mon and 'win32' in (fi.under or '') and not st.mon.dirsync:
            st.mon = st.mon._replace(dirsync=None)

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    # -- failures
    def may_fault(self, name, node, act, st):
        m = st.mon
        if not m or m.fault or name not in FAULTS or m.tmp == '':
            return False
        self.fault_names = FAULTS[name]
        return True

    def on_fault(self, exc, name, st, node, act):
        self.set(st, fault=(exc, name))

    # -- calls
    def watches(self, name):
        return name in WATCH or name.startswith('shutil.')

    def role(self, v, st):
        t = self.eng.tags(v, st) if isinstance(v, V) else EMPTY
        return TMP if TMP in t else DIR if DIR in t else 'DST' if DST in t else None

    def bad(self, rule, node, act, msg, st):
        self.eng.report(rule, node, act, msg, st, key=(rule, msg))

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        m = st.mon
        if not m:
            return None
        eng = self.eng
        vals = [a for a in list(args) + list(kw.values()) if isinstance(a, V)]
        who = [self.role(a, st) for a in vals]
        first = who[0] if who else None
        tags = frozenset().union(*[eng.tags(a, st) for a in vals]) if vals else EMPTY
        if name in FAULTS:
            eng.fault_raise(st, act, rs, node, name)
        if name == 'os.access':
            mode = vals[1] if len(vals) > 1 else None
            s2 = st.fork()
            if not isinstance(mode, C) or (isinstance(mode.v, int) and mode.v & 2):
                if first in (DIR, 'DST'):
                    self.set(st, perms=m.perms | {first})
            return [(C(True), st), (C(False), s2)]
        if name in ('os.path.isfile', 'os.path.exists', 'os.path.lexists'):
            if first == TMP:
                return [(C(m.tmp == 'made'), st)]
            s2 = st.fork()
            if first == 'DST':
                self.set(s2, perms=m.perms | {first})
            return [(C(True), st), (C(False), s2)]
        if name == 'os.path.dirname':
            return [(U(tags | {DIR} if DST in tags else tags, kind='str'), st)]
        if name == 'os.path.split':
            return [(Tup((U(tags | {DIR} if DST in tags else tags, kind='str'), U(tags, kind='str'))), st)]
        if name in ('tempfile.NamedTemporaryFile', 'tempfile.mkstemp'):
            d = kw.get('dir')
            if d is None and name.endswith('mkstemp') and len(args) > 2:
                d = args[2]
            if not isinstance(d, V) or self.role(d, st) != DIR:
                self.bad('not-the-same-directory', node, act, 'the temporary file is not made in the directory of the destination', st)
            self.set(st, tmp='made')
            self.count('temporary_files')
            if name.endswith('mkstemp'):
                return [(Tup((U([TMP]), U([TMP], kind='str'))), st)]
            return [(eng.alloc(st, act, node, Obj('ext', None, {'name': U([TMP], kind='str')}, frozenset([TMP])), 'ext'), st)]
        if name == 'os.open':
            flags = vals[1] if len(vals) > 1 else None
            if first == 'DST' and not (isinstance(flags, C) and flags.v in (0, 1, 2)):
                self.bad('destination-touched', node, act, 'the destination is opened for writing', st)
            return [(U(tags), st)]
        if name == 'fcntl.fcntl':
            s2 = st.fork()      # not supported: returns something other than 0
            self.synced(st, first)
            return [(C(0), st), (C(1), s2)]
        if name in ('os.fsync', 'os.fdatasync'):
            self.count('fsync_calls')
            self.synced(st, first)
            return [(C(None), st)]
        if name in ('os.replace', 'os.rename') and first == TMP and who[1:2] == ['DST']:
            self.judge(st, act, node)
            self.set(st, tmp='moved')
            return [(C(None), st)]
        if name in ('os.unlink', 'os.remove') and first == TMP:
            if m.tmp == 'made':
                self.set(st, tmp='gone')
                return [(C(None), st)]
            rs.append((ExcV('FileNotFoundError', None, eng.where(node, act)), st))
            return []
        if name == 'builtins.open':
            mode = vals[1] if len(vals) > 1 else C('r')
            if first == 'DST' and not (isinstance(mode, C) and isinstance(mode.v, str) and not set('wax+') & set(mode.v)):
                self.bad('destination-touched', node, act, 'the destination is opened for writing', st)
            return None
        if name.startswith('shutil.') or name in ('os.replace', 'os.rename', 'os.unlink', 'os.remove', 'os.truncate', 'os.link', 'os.symlink'):
            if 'DST' in who:
                self.bad('destination-touched', node, act, f'{name} changes the destination other than by one atomic replacement', st)
            return None
        if name in ('os.chmod', 'os.fchmod', 'os.close', 'os.write'):
            return [(C(None), st)]
        return None

    def synced(self, st, first):
        m = st.mon
        if first == TMP and m.wrote:
            self.set(st, flushed=True)
        elif first == DIR and m.tmp == 'moved':
            self.set(st, dirsync=True)

    def judge(self, st, act, node):
        m = st.mon
        self.count('replacements')
        if not m.wrote:
            self.bad('incomplete', node, act, 'the destination is replaced with a temporary file that was not written', st)
        if m.fault and m.fault[1] != 'sql:VACUUM':
            self.bad('incomplete', node, act, f'the destination is replaced although {m.fault[1]} failed', st)
        for p, what in ((DIR, 'directory'), ('DST', 'existing file')):
            if p not in m.perms:
                self.bad('permission-not-checked', node, act, f'the destination is replaced without a check for write permission on the {what}', st)
        if self.durable() and not (m.flushed or m.wrote == 'backup' or (m.new and m.wrote == 'vacuum and sync')):
            self.bad('not-flushed', node, act, 'the destination is replaced before the data was flushed to storage', st)
        if m.tmp != 'made':
            self.bad('incomplete', node, act, 'the destination is replaced twice', st)

    def durable(self):
        return '[fsync off]' not in self.eng.entry

    def on_compare(self, e, op, a, b, r, st, act):
        if not isinstance(a, V) or not isinstance(b, V):
            return None
        ver = b.v if isinstance(b, C) else tuple(x.v for x in b.items) if isinstance(b, Tup) and all(isinstance(x, C) for x in b.items) else None
        if 'sqlite_version' in self.eng.tags(a, st) and isinstance(ver, tuple) and ver >= (3, 40):
            new = {ast.Lt: False, ast.LtE: False, ast.Gt: True, ast.GtE: True}.get(type(op))
            if new is not None:
                def f(bo, s):
                    if s.mon and bo is new:
                        self.set(s, new=True)
                return f
        return None

    # -- the database
    def after_sql(self, ev, cur, st, act, node):
        m = st.mon
        if not m:
            return
        if ev.verb == 'PRAGMA' and ev.pragma == 'synchronous' and ev.arg is not None:
            self.set(st, sync=ev.arg.upper() in ('1', '2', '3', 'NORMAL', 'FULL', 'EXTRA'))
        elif ev.verb == 'VACUUM' and 'INTO' in (ev.text or '').upper():
            tags = set()
            for v in [ev.params] + list(ev.holes or ()):
                if isinstance(v, V):
                    tags |= self.eng.tags(v, st)
            if TMP in tags and self.is_space(ev):
                self.count('copies')
                self.set(st, wrote='vacuum and sync' if m.sync else 'vacuum', flushed=False)
            elif DST in tags:
                self.bad('destination-touched', node, act, 'the data is written to the destination itself', st)

    def on_conn(self, what, ref, args, st, act, node):
        super().on_conn(what, ref, args, st, act, node)
        m = st.mon
        if not m:
            return
        if what == 'open':
            o = st.heap.get(ref.id)
            if o is not None and self.role(o.attrs.get('db'), st) == 'DST':
                self.bad('destination-touched', node, act, 'a database connection to the destination is opened', st)
        elif what == 'backup' and isinstance(args, Ref):
            o = self.eng.hget(st, args)
            if o is not None and self.role(o.attrs.get('db'), st) == TMP:
                self.count('copies')
                self.set(st, wrote='backup', flushed=False)

    # -- exits
    def at_return(self, name, v, st, act, node):
        m = st.mon
        if m.tmp != 'moved':
            self.bad('not-saved', node, act, 'saving ends normally without having replaced the destination', st)
        elif m.dirsync is False and self.durable():
            self.bad('not-flushed', node, act, 'the directory is not flushed to storage after the replacement', st)
        if m.fault and not (m.fault == ('sqlite3.OperationalError', 'sql:VACUUM') and m.wrote == 'backup'):
            self.bad('error-lost', node, act, f'saving ends normally although {m.fault[1]} failed with {m.fault[0]}', st)

    def at_raise(self, name, e, st, act, node):
        m = st.mon
        if m.tmp == 'made':
            self.bad('temporary-file-left', node, act, f'the temporary file is left behind when saving fails with {e.name}', st)
        if m.fault:
            self.count('failures_followed')
            if e.name != m.fault[0]:
                self.bad('error-lost', node, act, f'{m.fault[1]} failed with {m.fault[0]} but {e.name} is raised', st)


class C03(EngineCheck):
    id = 'C03'
    monitor = SaveMonitor
    fault = 1
    starts = ('mem', 'drive')
    only_methods = ('to_file',)
    technique = 'inter-procedural typestate analysis of the saved file with a failure injected at every call that can fail'
    level_note = ('All paths of saving, in memory and on drive, fsync on and off, old and new SQLite, with one failure (error or interruption) at each '
                  'database statement, backup, open, fsync, chmod and replace. Trusts that os.replace is atomic within a directory, that '
                  'VACUUM INTO honours PRAGMA synchronous from SQLite 3.40 and that a backup is synchronised by the connection it goes to. '
                  'A failure while cleaning up after another failure is not followed.')
    explanation = ('The destination is only named in one os.replace of a temporary file made in its directory; before it, the space was copied '
                   'into that file completely, write permission was checked, and (fsync) the copy was flushed, the directory after it; on every '
                   'failing path the temporary file is removed and the original error raised.')
    rules = ('not-the-same-directory', 'destination-touched', 'incomplete', 'permission-not-checked', 'not-flushed', 'not-saved', 'error-lost',
             'temporary-file-left')
    floors = {'entry_points': 4, 'temporary_files': 4, 'replacements': 4, 'copies': 4, 'failures_followed': 10, 'fsync_calls': 2}

    def variants(self, name):
        return ('fsync on', 'fsync off')

    def arg_value(self, method, name, ann, variant):
        if name == 'fsync':
            return FSYNC[variant]
        return super().arg_value(method, name, ann, variant)


check = C03
