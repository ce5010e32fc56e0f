"""C04: a space bound read-only never changes its file."""
import ast
from collections import namedtuple

from ..frame import ALL_EXTRA, LEGACY, OLD_MODULES, EngineCheck, called_names
from ..project import AnalysisBroken
from ..rules import SpaceMonitor
from ..values import C, EMPTY, Fn, Ref, S, Tup, U, V
from .c19 import C19, Seen, UpgradeMonitor, plain

# exists: whether the file exists (None: not asked); may: it is known to be writable; ver: version found; wrote: changed
M = namedtuple('M', 'exists may ver wrote opened')
FILE, DIR = 'BOUND', 'DIR'
MODES = {'ro': C('ro'), 'rw': C('rw'), 'rwc': C('rwc'), 'another mode': C('w'), 'no mode': C(None)}
CHANGING = ('os.chmod', 'os.replace', 'os.rename', 'os.unlink', 'os.remove', 'os.truncate', 'os.utime', 'os.link', 'os.symlink',
            'shutil.move', 'shutil.rmtree', 'shutil.copy', 'shutil.copy2', 'shutil.copyfile')
PRAGMAS = ('user_version', 'application_id', 'journal_mode', 'auto_vacuum', 'page_size', 'schema_version', 'encoding')


def pieces(v):
    """Constant text of a string value."""
    if isinstance(v, S):
        return ''.join(p if isinstance(p, str) else pieces(p) or '\0' for p in v.parts)
    return v.v if isinstance(v, C) and isinstance(v.v, str) else ''


class BindMonitor(SpaceMonitor):
    def initial(self):
        return M(None, False, None, False, False)

    def entry_begin(self, name, v, args, kw, st, act):
        pass

    @property
    def mode(self):
        e = self.eng.entry
        return e[e.index('[') + 1:-1] if e.startswith('bind_file') else 'ro'

    @property
    def binding(self):
        return self.eng.entry.startswith('bind_file')

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    def mine(self, v, st):
        t = self.eng.tags(v, st) if isinstance(v, V) else EMPTY
        return FILE in t and DIR not in t

    def watches(self, name):
        return name in CHANGING or name in ('os.path.exists', 'os.path.isfile', 'os.path.lexists', 'os.access', 'os.path.dirname',
                                            'builtins.open', 'os.open')

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        m = st.mon
        if not m:
            return None
        vals = [a for a in list(args) + list(kw.values()) if isinstance(a, V)]
        if name == 'os.path.dirname':
            t = frozenset().union(*[self.eng.tags(a, st) for a in vals])
            return [(U(t | {DIR} if FILE in t else t, kind='str'), st)]
        if not vals or not any(self.mine(a, st) for a in vals):
            return None
        first = self.mine(vals[0], st)
        if name.startswith('os.path.'):
            if m.exists is not None:
                return [(C(m.exists), st)]
            s2 = st.fork()
            self.set(st, exists=True)
            self.set(s2, exists=False)
            return [(C(True), st), (C(False), s2)]
        if name == 'os.access':
            mode = vals[1] if len(vals) > 1 else None
            s2 = st.fork()
            if not isinstance(mode, C) or isinstance(mode.v, int) and mode.v & 2:
                self.set(st, may=True)
            return [(C(True), st), (C(False), s2)]
        if name in ('builtins.open', 'os.open'):
            mode = vals[1] if len(vals) > 1 else C('r')
            ok = isinstance(mode, C) and (mode.v in (0,) or isinstance(mode.v, str) and not set('wax+') & set(mode.v))
            if first and not ok and self.mode == 'ro':
                self.eng.report('file-changed', node, act, 'the file is opened for writing', st, key=(self.eng.entry, 'open'))
            return None
        if name in CHANGING and self.mode == 'ro' and (first or not name.startswith('shutil.copy') or self.mine(vals[-1], st)):
            self.eng.report('file-changed', node, act, f'{name} changes the file', st, key=(self.eng.entry, name))
        return None

    def on_conn(self, what, ref, args, st, act, node):
        super().on_conn(what, ref, args, st, act, node)
        m = st.mon
        if what != 'open' or not m:
            return
        db = st.heap[ref.id].attrs.get('db')
        if not self.mine(db, st):
            return
        self.count('connections_to_the_file')
        self.set(st, opened=True)
        kw = args[1]
        text = pieces(db)
        if '?' in text and isinstance(kw.get('uri'), C) and kw['uri'].v:
            opts = dict(x.split('=', 1) for x in text.rsplit('?', 1)[1].split('&') if '=' in x)
            have = opts.get('mode', 'rwc')
        else:
            have = 'rwc'
        if have == 'memory':
            return
        mode = self.mode
        if mode == 'ro' and have != 'ro':
            self.eng.report('not-read-only', node, act, f'bound read-only, but its file is opened with mode {have!r}', st,
                            key=(self.eng.entry, have))
        if not self.binding:
            return
        if mode == 'rw' and have == 'rwc' and m.exists is not True:
            self.eng.report('file-created', node, act, "bound in 'rw' mode, but a missing file is created", st, key=(mode, have))
        if mode in ('rw', 'rwc') and have == 'ro':
            self.eng.report('not-writable', node, act, 'bound for writing, but its file is opened read-only', st, key=(mode, have))
        if mode in ('rw', 'rwc') and m.exists is not False and not m.may:
            self.eng.report('permission-not-checked', node, act,
                            f'bound in {mode!r} mode without write permission for the existing file having been found', st, key=(mode, 'w'))

    def on_compare(self, e, op, a, b, r, st, act):
        if st.mon and isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(b, C) and b.v in ('', ':memory:') and self.mine(a, st):
            def f(bo, s):
                if bo is isinstance(op, ast.Eq) and s.mon:
                    s.mon = ()      # no absolute path is equal to that
            return f
        return None

    # -- the format of the file
    def fetch_cases(self, ev, how, st):
        if not self.binding or not st.mon or st.mon.ver is not None or not is_version_query(ev) or not self.on_file(ev, st):
            return None
        out = []
        for v in self.versions:
            def f(s, v=v):
                s.mon = s.mon._replace(ver=plain(v))
            row = Tup((C(v),))
            out.append((row if how == 'one' else (row,), f))
        return out

    def on_file(self, ev, st):
        o = st.heap.get(ev.conn.id) if isinstance(ev.conn, Ref) else None
        return o is not None and self.mine(o.attrs.get('db'), st)

    def after_sql(self, ev, cur, st, act, node):
        m = st.mon
        if not self.binding or not m or m.wrote or ev.temp or not self.on_file(ev, st):
            return
        if ev.is_write or ev.is_ddl or ev.verb == 'VACUUM' or ev.verb == 'PRAGMA' and ev.arg is not None and ev.pragma in PRAGMAS:
            self.set(st, wrote=True)

    def on_setattr(self, ref, o, name, v, st, act, node):
        if self.binding or not st.mon:
            return
        old = o.attrs.get(name)
        if name == '_access_mode' and old == C('ro') and v != old or \
                isinstance(old, V) and self.mine(old, st) and name != '_path_hint' and not (isinstance(v, V) and self.mine(v, st)):
            self.eng.report('not-read-only', node, act, f'{name} of a space bound read-only is changed', st, key=(self.eng.entry, name))

    # -- exits of binding
    def at_return(self, name, v, st, act, node):
        m = st.mon
        if not self.binding or not m:
            return
        r = self.eng.report
        mode = self.mode
        self.count('bindings')
        if mode not in ('ro', 'rw', 'rwc'):
            r('mode-accepted', node, act, f'binding with {mode} succeeds', st, key=mode)
            return
        if mode == 'ro' and m.wrote:
            r('file-changed', node, act, 'binding read-only succeeds after changing the file', st, key=mode)
        if mode == 'ro' and m.exists is not False and m.ver != plain(self.current):
            r('old-file-accepted', node, act, 'binding read-only succeeds with a file ' + (
                f'of version {m.ver}' if m.ver else 'whose version was not looked at'), st, key=(mode, m.ver))
        if mode != 'rwc' and m.exists is False:
            r('file-created', node, act, f'binding in {mode!r} mode succeeds without a file', st, key=(mode, 'missing'))
        if not m.opened:
            raise AnalysisBroken('bound without a connection to the file')


def is_version_query(ev):
    return UpgradeMonitor.is_version_query(None, ev)


class C04(EngineCheck):
    id = 'C04'
    monitor = BindMonitor
    starts = ('mem', 'bound')
    technique = 'inter-procedural dataflow and typestate analysis of how the file is opened'
    level_note = ('Binding: all paths for every mode, for files of every known version, missing and existing, writable or not, and the first '
                  'connection made afterwards. Operations: all paths of all public operations, readers, mappers and legacy functions on '
                  'a space bound read-only. Trusts that SQLite does not write through a connection opened with mode=ro.')
    explanation = ('Every connection to the file of a space bound read-only is opened with a URI that says mode=ro, the recorded mode and path are not '
                   'changed and no other call changes the file; binding read-only never completes for a missing file, one of another version, or after a '
                   'write; binding for writing completes only after the existing file was found writable, and creates it in rwc mode only.')
    rules = ('not-read-only', 'file-changed', 'file-created', 'not-writable', 'permission-not-checked', 'mode-accepted', 'old-file-accepted')
    UNFOLLOWED = ('graph.get_mapping', 'graph.load_mapping')
    extra_entries = tuple(sorted(set(ALL_EXTRA + LEGACY) - set(UNFOLLOWED)))
    floors = {'entry_points': 60, 'connections_to_the_file': 100, 'bindings': 3}

    def bind(self, eng, mode, st, act, rs, node):
        f = self.proj.func('toron.space', 'bind_file')
        return eng.call_fn(Fn(f), [U(kind='str', tags=[FILE])], {'mode': mode}, st, act, rs, node)

    def make_start(self, eng, kind):
        if kind == 'mem':
            seen = Seen()
            seen.eng = eng
            eng.monitor, old = seen, eng.monitor
            try:
                return super().make_start(eng, kind)
            finally:
                eng.monitor = old
                self.seen = seen
        from ..interp import St
        act, node = self.root()
        rs = []
        st = St({'root': {}}, {}, ())
        outs = [(v, s) for v, s in self.bind(eng, C('ro'), st, act, rs, node) if isinstance(v, Ref)]
        if not outs:
            raise AnalysisBroken('binding read-only never succeeds')
        return outs

    def prepare(self):
        super().prepare()
        self.started = {f'{a}:{b}' for a, b in self.eng.funcs_seen}

    def tasks(self):
        out = [t for t in super().tasks() if t[0][0] == 'bound']
        return out + [(('mem', 'bind_file', k), 3) for k in MODES]

    def extra(self, name, eng, v, st, act, rs, node):
        if name != 'bind_file':
            return super().extra(name, eng, v, st, act, rs, node)
        variant = eng.entry[eng.entry.index('[') + 1:-1]
        outs = []
        for o, s in self.bind(eng, MODES[variant], st, act, rs, node):
            if not isinstance(o, Ref):
                continue
            c = eng.hget(s, o).attrs.get('_connector')
            fi = self.proj.find_method(eng.hget(s, c).cls, 'acquire_connection') if isinstance(c, Ref) else None
            if fi is None:
                raise AnalysisBroken('no acquire_connection()')
            outs += [(o, s2) for _, s2 in eng.call_fn(Fn(fi, c), [], {}, s, act, rs, node)]
        return outs

    OPENING = {'connect', 'get_sqlite_connection', 'DataConnector'}

    def finish(self, results):
        """The operations that are not followed open files only through functions that were analysed."""
        reports, cov = super().finish(results)
        seen = self.started.union(*[r.funcs for r in results])
        todo = [x.split('.')[1] for x in self.UNFOLLOWED]
        byname = {}
        for f in self.proj.functions:
            if f.module.name not in OLD_MODULES:
                byname.setdefault(f.cls.name if f.name == '__init__' and f.cls is not None else f.name, []).append(f)
        done, opening = set(), 0
        while todo:
            n = todo.pop()
            if n in done:
                continue
            done.add(n)
            for f in byname.get(n, ()):
                names = called_names(f)
                if names & self.OPENING:
                    opening += 1
                    if f'{f.module.relpath}:{f.qualname}' not in seen:
                        reports.append({'rule': 'not-read-only', 'where': f'{f.module.relpath}:{f.node.lineno}',
                                        'function': f'{f.module.name}.{f.qualname}', 'path': [], 'entry': 'graph',
                                        'message': 'opens a connection in a way that was not followed'})
                todo += names
        cov['opening_functions_by_name'] = opening
        return reports, cov

    def make_monitor(self):
        m = self.monitor()
        m.current = self.seen.version
        m.versions = C19.versions(self)
        return m


check = C04
