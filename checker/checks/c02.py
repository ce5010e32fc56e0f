"""C02: connections, cursors, file handles and temporary files are released on every exit."""
import ast

from ..frame import EngineCheck
from ..project import AnalysisBroken
from ..rules import SpaceMonitor
from ..values import C, EMPTY, FALSE, TRUE, Fn, Obj, Ref, Tup, U, V

NO = frozenset()
HANDLES = ('tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'tempfile.mkstemp', 'builtins.open', 'io.open', 'os.open', 'os.fdopen')
GONE = ('os.unlink', 'os.remove', 'os.replace', 'os.rename', 'pathlib.Path.unlink', 'shutil.move')
WHAT = {'con': 'a database connection', 'cur': 'a database cursor', 'tmp': 'a temporary file', 'fh': 'a file handle'}


class ResourceMonitor(SpaceMonitor):
    """``st.mon``: set of (kind, id, where, extra) of what was acquired and not yet released or handed to an owner;
    ('closed', id) of cursors that were released."""
    fault_names = ('sqlite3.OperationalError', 'KeyboardInterrupt')

    def initial(self):
        return NO

    # -- failures: one per path, at the database statements and file operations
    def may_fault(self, name, node, act, st):
        if not name.startswith('sql:') or name in ('sql:ROLLBACK', 'sql:PRAGMA', 'sql:SELECT', 'sql:COMMIT', 'sql:RELEASE'):
            if name not in ('conn.backup',) and not (name == 'sql:SELECT' and self.eng.fault > 1):
                return False
        return ('fault',) not in st.mon and any(x[0] in WHAT for x in st.mon)

    def on_fault(self, exc, name, st, node, act):
        st.mon = st.mon | {('fault',)}

    # -- connections and cursors
    def where(self, node, act):
        return f'{act.fi.qualname}'

    def on_conn(self, what, ref, args, st, act, node):
        super().on_conn(what, ref, args, st, act, node)
        m = st.mon
        if not isinstance(m, frozenset):
            return
        rid = getattr(ref, 'id', None)
        if what == 'open':
            self.count('connections_opened')
            st.mon = m | {('con', rid, self.where(node, act), None)}
        elif what == 'cursor':
            self.count('cursors_opened')
            con = getattr(args, 'id', None)
            st.mon = (m - {('closed', rid)}) | {('cur', rid, self.where(node, act), con)}
        elif what == 'close':
            self.count('connections_closed')
            st.mon = frozenset(x for x in m if not (x[0] == 'con' and x[1] == rid or x[0] == 'cur' and x[3] == rid))
        elif what == 'curclose':
            self.count('cursors_closed')
            x = frozenset(x for x in m if not (x[0] == 'cur' and x[1] == rid))
            st.mon = x | {('closed', rid)} if x != m else x

    def on_sql(self, ev, cur, st, act, node, rs):
        rid = getattr(cur, 'id', None)
        if ('closed', rid) in st.mon and not any(x[0] == 'cur' and x[1] == rid for x in st.mon):
            self.eng.report('used-after-release', node, act, 'a statement is executed through a cursor that was released', st,
                            key=(self.eng.entry, act.fi.qualname))
        return None

    # -- files and finalizers
    def watches(self, name):
        return name in HANDLES or name in GONE or name in ('weakref.finalize', 'os.close', 'ctx.__exit__', 'os.path.realpath', 'os.path.abspath') or \
            name.endswith('.close') and not name.startswith(('conn.', 'cursor.', 'super.', 'gen.'))

    def gone(self, st, test):
        m = frozenset(x for x in st.mon if not test(x))
        if m != st.mon:
            st.mon = m

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        eng = self.eng
        vals = [a for a in list(args) + list(kw.values()) if isinstance(a, V)]
        if not isinstance(st.mon, frozenset):
            return None
        if name in HANDLES:
            site = self.where(node, act)
            self.count('files_opened')
            tag = 'FILE:' + site
            out = []
            tmp = name.startswith('tempfile.')
            keep = tmp and (name.endswith('mkstemp') or getattr(kw.get('delete'), 'v', True) is False)
            path = U([tag], kind='str', truth=True)
            ref = eng.alloc(st, act, node, Obj('ext', None, {'name': path}, frozenset([tag])), 'ext')
            add = {('fh', ref.id, site, tag)}
            if keep:
                self.count('temporary_files')
                add.add(('tmp', tag, site, None))
            st.mon = st.mon | add
            if name == 'os.open':
                out = U([tag])
            elif name.endswith('mkstemp'):
                out = Tup((U([tag]), path))
            else:
                out = ref
            return [(out, st)]
        if name.startswith('os.path.'):
            t = frozenset(x for x in eng.tags(vals[0], st) if x.startswith('FILE:')) if vals else EMPTY
            return [(U(t, kind='str', truth=True), st)] if t else None
        if name == 'os.close':
            t = frozenset().union(*[eng.tags(a, st) for a in vals]) if vals else EMPTY
            self.gone(st, lambda x: x[0] == 'fh' and x[3] in t)
            return [(C(None), st)]
        if name in GONE:
            t = eng.tags(vals[0], st) if vals else eng.tags(fv.self_, st) if getattr(fv, 'self_', None) is not None else EMPTY
            self.gone(st, lambda x: x[0] == 'tmp' and x[1] in t)
            return None
        if name == 'weakref.finalize':
            return self.finalizer(args, kw, st, act, node, rs)
        rid = getattr(getattr(fv, 'self_', None), 'id', None)
        if rid is not None:
            self.gone(st, lambda x: x[0] == 'fh' and x[1] == rid)
        return None

    def held(self, v, st, depth=0):
        """Ids of objects that *v* keeps alive by itself or through its closure."""
        if not isinstance(v, V):
            return set()
        out = set(v.refs()[0])
        if isinstance(v, Fn) and v.env is not None and hasattr(v.fi.node, 'body') and depth < 3:
            names = {x.id for x in ast.walk(v.fi.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            out = set(v.self_.refs()[0]) if isinstance(v.self_, V) else set()
            fr = st.fr.get(v.env[0], {})
            snap = dict(v.env[1]) if len(v.env) > 1 and isinstance(v.env[1], tuple) else {}
            for n in names:
                x = fr.get(n, snap.get(n))
                if isinstance(x, V):
                    out |= self.held(x, st, depth + 1)
        return out

    def finalizer(self, args, kw, st, act, node, rs):
        """The object becomes the owner of what its finalizer, run now, releases."""
        eng = self.eng
        args = list(args)
        if len(args) < 2:
            return None
        obj, cb, rest = args[0], args[1], args[2:]
        self.count('finalizers')
        oid = getattr(obj, 'id', None)
        if oid is not None and any(oid in self.held(x, st) for x in [cb] + rest + list(kw.values())):
            eng.report('finalizer-keeps-owner', node, act, 'the finalizer holds a reference to the object whose release triggers it: it never runs '
                       'while the program is running', st, key=(act.fi.qualname,))
            return [(U(), st)]
        s2 = st.fork()
        rs2 = []
        outs = eng.call(cb, rest, dict(kw), s2, act, rs2, node)
        if outs:
            left = frozenset().union(*[s.mon for _, s in outs])
            st.mon = frozenset(x for x in st.mon if x in left or x[0] not in WHAT)
        return [(U(), st)]

    # -- exits
    def owned(self, st, act, node):
        """Run the __del__ of objects that hold a connection."""
        eng = self.eng
        cons = {x[1] for x in st.mon if x[0] == 'con'}
        left = st.mon
        if not cons:
            return left
        for rid, o in list(st.heap.items()):
            if o.kind != 'inst' or o.cls is None or not any(isinstance(a, Ref) and a.id in cons for a in o.attrs.values()):
                continue
            fi = eng.proj.find_method(o.cls, '__del__')
            if fi is None:
                continue
            self.count('owners')
            rs = []
            ref = next((v for v in self.refs_to(st, rid)), None) or Ref(rid)
            s2 = st.fork()
            s2.mon = left
            outs = eng.call_fn(Fn(fi, ref), [], {}, s2, act, rs, node)
            if outs:
                left = frozenset().union(*[s.mon for _, s in outs])
        return left

    def refs_to(self, st, rid):
        for vs in st.fr.values():
            for v in vs.values():
                if isinstance(v, Ref) and v.id == rid:
                    yield v

    def leave(self, st, act, node, how):
        self.count('exits_examined')
        if not any(x[0] in WHAT for x in st.mon):
            return
        left = self.owned(st, act, node)
        cons = {x[1] for x in left if x[0] == 'con'}
        for x in sorted(left, key=str):
            # (cursors of a temporary database end with it: its connection has an owner)
            if x[0] in WHAT and not (x[0] == 'cur' and x[3] in self.foreign and x[3] not in cons):
                self.eng.report('not-released', node, act, f'{WHAT[x[0]]} opened in {x[2]} is neither released nor handed to an owner when the operation {how}',
                                st, key=(self.eng.entry, x[0], x[2], how.split(' ')[0]))

    def at_return(self, name, v, st, act, node):
        self.leave(st, act, node, 'returns (or its result is abandoned)')

    def at_raise(self, name, e, st, act, node):
        if e.name in ('RecursionError',):
            return
        self.leave(st, act, node, f'fails with {e.name} (raised at {e.site})')


class C02(EngineCheck):
    id = 'C02'
    monitor = ResourceMonitor
    fault = 1
    starts = ('drive', 'mem')
    technique = 'inter-procedural ownership and typestate analysis of connections, cursors, files and temporary files'
    level_note = ('All paths of all operations on a space kept on drive (where each operation opens its own connection), of creating and opening spaces, '
                  'of readers and mappers: normal and exceptional exits, results abandoned half-way, and a failure or interruption at each '
                  'changing statement. Cursors that sqlite3 makes implicitly (Connection.execute) are released with their connection.')
    explanation = ('What an operation opens is released when it ends, or handed to an object whose finalizer (weakref.finalize or __del__), when followed, '
                   'releases it; a finalizer holds no reference to its object; no statement goes through a released cursor.')
    rules = ('not-released', 'used-after-release', 'finalizer-keeps-owner')
    extra_entries = ('graph.get_mapping_info_str', 'graph.get_weights', 'reader.iter', 'reader.translate', 'reader.pivot', 'Mapper.init', 'Mapper.match',
                     'Mapper.iter', 'new.mem', 'new.drive', 'read.mem', 'read.drive', 'bind', 'nodereader.mem', 'nodereader.drive')
    floors = {'entry_points': 60, 'connections_opened': 60, 'cursors_opened': 100, 'temporary_files': 3, 'finalizers': 4, 'owners': 3}

    def variants(self, name):
        return ('to drive', 'to memory') if name == '__call__' else (None,)

    def arg_value(self, method, name, ann, variant):
        if name == 'cache_to_drive':
            return C(variant == 'to drive')
        return super().arg_value(method, name, ann, variant)

    def extra(self, name, eng, v, st, act, rs, node):
        P = lambda n, **k: U(sym=('param', n), tags=['arg:' + n], **k)
        if name.startswith('new.'):
            return eng.instantiate(self.proj.cls('toron.space', 'DataSpace'), [], {'cache_to_drive': C(name == 'new.drive')}, st, act, rs, node)
        if name.startswith('nodereader.'):
            outs = self.few(eng, eng.instantiate(self.proj.cls('toron.reader', 'NodeReader'), [P('data'), v],
                                                 {'cache_to_drive': C(name.endswith('drive'))}, st, act, rs, node))
            res = []
            for o, s in outs:
                for x in eng.iterate(o, s, act, rs, lambda v, s: [('resume', C(None), s), ('close', C(None), s.fork())], node):
                    res.append((o, x[1]))
            return self.few(eng, res)
        if name.startswith('read.') or name == 'bind':
            f = self.proj.func('toron.space', 'bind_file' if name == 'bind' else 'read_file')
            kw = {f.node.args.args[0].arg: U(kind='str', tags=['arg:path'])}
            if name == 'bind':
                kw['mode'] = P('mode')
            else:
                kw['cache_to_drive'] = C(name == 'read.drive')
            return eng.call_fn(Fn(f), [], kw, st, act, rs, node)
        return super().extra(name, eng, v, st, act, rs, node)


check = C02
