"""The command line: its commands, and a monitor that follows them."""
import ast
from collections import namedtuple

from .frame import EngineCheck
from .interp import St
from .project import AnalysisBroken
from .rules import SpaceMonitor
from .values import C, EMPTY, Cls, ExcV, Fn, Obj, Ref, S, Tup, U, V

# backed: files of which a backup was made; there: ((file, exists), ...); err: injected error; done: changes made after it
# logged: an error was logged; failed: a backup failed
M = namedtuple('M', 'backed there err done logged failed said', defaults=(False,))
ERRORS = ('ToronError', 'ValueError', 'RuntimeError', 'PermissionError')


class Command:
    def __init__(self, parser, line, fi, backup, choices):
        self.parser, self.line, self.fi, self.backup, self.choices = parser, line, fi, backup, choices

    @property
    def name(self):
        return f'{self.fi.module.name.split(".")[-1]}.{self.fi.name}'


def resolve(proj, m, e):
    """FuncInfo for the expression *e* of module *m*."""
    if isinstance(e, ast.Name):
        n = m.names.get(e.id)
        if n and n[0] == 'func':
            return n[1]
        if n and n[0] == 'import':
            mod, _, f = n[1].rpartition('.')
            return (proj.modules[mod].names.get(f) or (0, None))[1] if mod in proj.modules else None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        n = m.names.get(e.value.id)
        if n and n[0] == 'import' and n[1] in proj.modules:
            f = proj.modules[n[1]].names.get(e.attr)
            return f[1] if f and f[0] == 'func' else None
    return None


def commands(proj):
    """(commands, problems) as declared by the argument parser."""
    m = proj.modules['toron.cli.main']
    leaf, groups, handlers, opts = {}, set(), {}, {}
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            f = s.value.func
            fn = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            t = s.targets[0].id
            if fn == 'add_parser':
                ps = next((k.value for k in s.value.keywords if k.arg == 'parents'), None)
                names = [x.id for x in ast.walk(ps) if isinstance(x, ast.Name)] if ps is not None else []
                leaf[t] = (s.lineno, names)
            elif fn == 'add_subparsers' and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                groups.add(f.value.id)
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and isinstance(s.func.value, ast.Name):
            t = s.func.value.id
            if s.func.attr == 'set_defaults':
                for k in s.keywords:
                    if k.arg == 'func':
                        handlers.setdefault(t, []).append((s.lineno, k.value))
            elif s.func.attr == 'add_argument':
                kw = {k.arg: k.value for k in s.keywords}
                names = [a.value for a in s.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                dest = kw['dest'].value if isinstance(kw.get('dest'), ast.Constant) else \
                    next((n.lstrip('-').replace('-', '_') for n in names if n.startswith('--')), names[0] if names else None)
                opts.setdefault(t, {})[dest] = (s.lineno, names, kw)
    out, bad = [], []
    choices = {}
    for t, os_ in opts.items():
        for dest, (_, _, kw) in os_.items():
            if isinstance(kw.get('action'), ast.Constant) and kw['action'].value == 'store_const' and isinstance(kw.get('const'), ast.Constant):
                choices.setdefault(dest, set()).add(kw['const'].value)
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == 'set_defaults':
            for k in s.keywords:
                if k.arg in choices and isinstance(k.value, ast.Constant):
                    choices[k.arg].add(k.value.value)
    for t, (line, parents) in leaf.items():
        if t in groups:
            continue
        hs = handlers.get(t, [])
        if len(hs) != 1:
            bad.append(('handler', line, f'the command parser {t} has {len(hs)} handlers'))
            continue
        fi = resolve(proj, m, hs[0][1])
        if fi is None:
            raise AnalysisBroken(f'handler of {t} not found')
        ds = [opts[p]['backup'] for p in parents + [t] if 'backup' in opts.get(p, {})]
        for ln, names, kw in ds:
            a = kw['action'].value if isinstance(kw.get('action'), ast.Constant) else None
            neg = any('no-' in n for n in names)
            if a in ('store_true', 'store_false') and (a == 'store_false') != neg:
                bad.append(('option', ln, f'option {names[0]} does the opposite of what it says'))
        used = {x.attr for x in ast.walk(fi.module.tree) if isinstance(x, ast.Attribute)}
        out.append(Command(t, line, fi, bool(ds), {d: sorted(c) for d, c in choices.items() if d in used}))
    if len(out) + sum(b[0] == 'handler' for b in bad) < 8:
        raise AnalysisBroken('commands not found')
    return out, bad


class Found(Exception):
    pass


class WriteProbe(SpaceMonitor):
    """Stops at the first statement that changes the space."""

    def initial(self):
        return ()

    def after_sql(self, ev, cur, st, act, node):
        if (ev.is_write or ev.is_ddl) and not ev.temp and self.is_space(ev):
            raise Found()


class CliMonitor(SpaceMonitor):
    def initial(self):
        return M(EMPTY, (), None, EMPTY, False, False)

    def set(self, st, **kw):
        st.mon = st.mon._replace(**kw)

    def bad(self, rule, node, act, msg, st, key=None):
        if rule in self.rules:
            self.eng.report(rule, node, act, msg, st, key=(rule, self.command.name, key or msg))

    def file_of(self, v, st):
        t = self.eng.tags(v, st) if isinstance(v, V) else EMPTY
        fs = sorted(x[4:] for x in t if x.startswith('arg:file'))
        return '+'.join(fs) or None

    def space_file(self, ref, st):
        o = self.eng.hget(st, ref) if isinstance(ref, Ref) else None
        return self.file_of(o.attrs.get('_path_hint'), st) if o is not None else None

    # -- calls
    def watches(self, name):
        return name in ('os.path.exists', 'os.path.isfile', 'os.path.lexists', 'os.access', 'os.path.join') or \
            name.startswith('logging.Logger.') or name in ('os._exit', 'sys.exit') or name in MUTATORS

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        m = st.mon
        if not m:
            return None
        vals = [a for a in list(args) + list(kw.values()) if isinstance(a, V)]
        f = self.file_of(vals[0], st) if vals else None
        if name in ('os.path.exists', 'os.path.isfile', 'os.path.lexists'):
            if f is None:
                return None
            d = dict(m.there)
            if f in d:
                return [(C(d[f]), st)]
            s2 = st.fork()
            self.set(st, there=tuple(sorted({**d, f: True}.items())))
            self.set(s2, there=tuple(sorted({**d, f: False}.items())))
            return [(C(True), st), (C(False), s2)]
        if name == 'os.access':
            return [(C(True), st), (C(False), st.fork())]
        if name == 'os.path.join':
            t = frozenset().union(*[self.eng.tags(a, st) for a in vals]) if vals else EMPTY
            if any(constant_part(a) for a in vals):
                t |= {'RENAMED'}
            return [(U(t, kind='str'), st)]
        if name.startswith('logging.Logger.'):
            if name.rsplit('.', 1)[-1] in ('error', 'critical', 'exception') and not m.logged:
                self.set(st, logged=True)
            if name.rsplit('.', 1)[-1] in ('error', 'critical') and 'toron.cli' in act.mod.name:
                self.set(st, said=True)
            return None
        if name == 'os._exit':
            self.at_return('os._exit', vals[0] if vals else C(None), st, act, node)
            return []
        if name in MUTATORS and f is not None and len(act.stack) < 12 and 'toron.cli' in act.mod.name:
            self.changed(f, name, st, act, node)
        return None

    def intercept(self, fn, args, kw, st, act, node, rs):
        fi = fn.fi
        m = st.mon
        if not m:
            return None
        if fi.name == 'is_streamed' and fi.module.name.startswith('toron.cli'):
            return [(C(self.streamed), st)]
        if fi.name == 'bind_file' and fi.module.name == 'toron.space':
            mode = kw.get('mode', args[1] if len(args) > 1 else None)
            f = self.file_of(args[0] if args else kw.get('filepath'), st)
            self.count('files_opened')
            if self.reporting and not (isinstance(mode, C) and mode.v == 'ro'):
                self.bad('not-read-only', node, act, f'a command that only reports opens its file with mode {getattr(mode, "v", "?")!r}', st)
            self.inject(fi.name, st, act, node, rs, ('PermissionError', 'FileNotFoundError', 'ValueError'))
            return None
        if fi.cls is None or fi.cls.name != 'DataSpace' or 'toron.cli' not in act.mod.name or not isinstance(fn.self_, Ref):
            return None
        if fi.name.startswith('_') or fi.name in ('path_hint',):
            return None
        if fi.name == 'to_file':
            return self.saved(fn, args, kw, st, act, node, rs)
        f = self.space_file(fn.self_, st)
        tags = frozenset().union(EMPTY, *[self.eng.tags(a, st) for a in list(args) + list(kw.values()) if isinstance(a, V)])
        self.count('operations_called')
        ok = self.changing.get(fi.name)
        if ok is None:
            raise AnalysisBroken(f'{fi.name} not classified')
        self.inject(fi.name, st, act, node, rs, ERRORS)
        if ok and f is not None:
            self.changed(f, f'{fi.name}()', st, act, node)
        return [(U(frozenset(t for t in tags if not t.startswith('arg:file'))), st)]

    def inject(self, name, st, act, node, rs, names):
        m = st.mon
        if (m.err is None or m.err.endswith(f' from {name}') and not m.done) and 'not-reported' in self.rules:
            for n in names:
                if m.err and not m.err.startswith(n):
                    continue   # the same error again
                s2 = st.fork()
                s2.mon = m._replace(err=f'{n} from {name}', logged=False)
                rs.append((ExcV(self.error_name(n), U(), self.eng.where(node, act)), s2))

    def error_name(self, n):
        return n

    def saved(self, fn, args, kw, st, act, node, rs):
        m = st.mon
        path = kw.get('path', args[0] if args else None)
        own = self.space_file(fn.self_, st)
        f = self.file_of(path, st)
        t = self.eng.tags(path, st) if isinstance(path, V) else EMPTY
        s2 = st.fork()
        s2.mon = s2.mon._replace(failed=True, err=m.err or ('OSError from to_file' if 'not-reported' in self.rules else None), logged=False)
        rs.append((ExcV('OSError', U(), self.eng.where(node, act)), s2))
        other = 'RENAMED' in t or constant_part(path)
        if own is not None and f == own and other:
            self.count('backups')
            self.set(st, backed=m.backed | {own})
        elif f is not None and not other:
            if dict(m.there).get(f) is not False:
                self.changed(f, 'to_file()', st, act, node)
        return [(C(None), st)]

    def changed(self, f, what, st, act, node):
        m = st.mon
        self.count('changes')
        self.seen_changes.add(what)
        if self.reporting:
            self.bad('report-changes', node, act, f'a command that only reports changes its file by {what}', st)
        elif self.backup:
            if m.failed:
                self.bad('changed-without-backup', node, act, f'{what} changes a file although making the backup failed', st)
            elif not set(f.split('+')) <= {x for y in m.backed for x in y.split('+')}:
                self.bad('changed-without-backup', node, act, f'{what} changes args.{f} before its backup was made', st)
        if what not in m.done:
            self.set(st, done=m.done | {what})

    def after_sql(self, ev, cur, st, act, node):
        if not st.mon or ev.temp or not (ev.is_write or ev.is_ddl):
            return
        o = st.heap.get(ev.conn.id) if isinstance(ev.conn, Ref) else None
        f = self.file_of(o.attrs.get('db'), st) if o is not None else None
        if f is None:
            return
        up = next((x for x in act.stack + (act.fi,) if x.name == 'apply_migrations'), None)
        if up is not None:
            if self.backup and not self.reporting and f not in st.mon.backed and 'upgrade-before-backup' in self.rules:
                self.eng.reports.setdefault('upgrade', {
                    'rule': 'upgrade-before-backup', 'where': self.eng.where(node, act), 'function': 'toron.space.bind_file',
                    'path': st.path(), 'entry': self.eng.entry,
                    'message': 'an older file is upgraded when it is opened, before its backup is made'})
            return
        self.changed(f, f'{ev.verb} {ev.table or ev.name or ""}'.strip(), st, act, node)

    # -- exits
    def at_return(self, name, v, st, act, node):
        m = st.mon
        if not m:
            return
        self.count('exits')
        code = v.v if isinstance(v, C) else None
        if name == 'os._exit' and isinstance(code, int) and not m.err:
            return
        if not isinstance(code, int) or isinstance(code, bool) and False:
            self.bad('no-exit-status', node, act, f'{self.command.name} ends without an exit status (returns {getattr(v, "v", v)!r})', st,
                     key='status')
            return
        if m.err and int(code) == 0 and not m.done:
            self.bad('not-reported', node, act, f'{self.command.name} ends with success after a {m.err}()', st, key=m.err)
        if m.err and int(code) != 0 and not m.logged:
            self.bad('no-message', node, act, f'{self.command.name} ends with failure after a {m.err}() but logs no error', st, key=m.err)
        if not m.err and int(code) == 0 and m.said and not m.done and not self.listing:
            self.bad('not-reported', node, act, f'{self.command.name} logs an error, changes nothing and ends with success', st, key='said')


MUTATORS = ('os.replace', 'os.rename', 'os.unlink', 'os.remove', 'os.truncate', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.move')


def constant_part(v):
    """Does this string contain text of its own?"""
    if isinstance(v, S):
        return any(isinstance(p, str) and p.strip('/') or not isinstance(p, str) and constant_part(p) for p in v.parts)
    return isinstance(v, C) and isinstance(v.v, str) and bool(v.v.strip('/'))


class CliCheck(EngineCheck):
    monitor = CliMonitor
    starts = ('mem',)
    BACKUP = (True, False)
    CHOOSE = False      # follow each value of options with a fixed set of values

    def prepare(self):
        super().prepare()
        self.commands, self.problems = commands(self.proj)
        self.cli_modules = [m for n, m in self.proj.modules.items() if n.startswith('toron.cli')]
        self.attrs = {x.attr for m in self.cli_modules for x in ast.walk(m.tree)
                      if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'args'} | {'backup'}
        self.classify()

    def classify(self):
        """Which operations that the commands may call change the space?"""
        used = {x.attr for m in self.cli_modules for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)}
        used |= {x.value for m in self.cli_modules for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        self.changing = {}
        ds = self.proj.cls('toron.space', 'DataSpace')
        v0, s0 = self.start['mem']
        for n, fi in ds.methods.items():
            if n.startswith('_') or n not in used:
                continue
            if n in ('to_file', 'path_hint'):
                continue
            hit = False
            for f in (fi, getattr(fi, 'setter', None)):
                if f is None:
                    continue
                if f is not fi:
                    continue
                hit |= self.probe(f, v0, s0)
            self.changing[n] = hit
        if sum(self.changing.values()) < 8 or len(self.changing) - sum(self.changing.values()) < 4:
            raise AnalysisBroken(f'operations of the commands not recognised: {self.changing}')

    def probe(self, f, v, s):
        import time
        eng = self.eng
        mon = WriteProbe()
        mon.eng, mon.check = eng, self
        eng.monitor, old = mon, eng.monitor
        eng.deadline = time.time() + 200
        try:
            s = s.fork()
            act, node = self.root()
            s.mon = ()
            rs = []
            args, kw = self.bind_args(f)
            for r, s2 in eng.call_fn(Fn(f, v), args, kw, s, act, rs, f.node):
                self.use(eng, r, s2, act, rs, node)
            return False
        except Found:
            return True
        finally:
            eng.monitor = old
            eng.inflight.clear()

    def tasks(self):
        out = []
        for i, c in enumerate(self.commands):
            for streamed in (True, False) if self.asks(c) else (True,):
                for b in self.BACKUP:
                    v = f'streamed={streamed} backup={b}'
                    if self.CHOOSE:
                        for d, cs in c.choices.items():
                            out += [(('mem', i, f'{v} {d}={x}'), 3) for x in cs]
                    if not self.CHOOSE or not c.choices:
                        out.append((('mem', i, v), 3))
        return out

    def asks(self, c):
        """Does the command behave differently when data is piped into it?"""
        return any(isinstance(x, ast.Name) and x.id == 'is_streamed' or isinstance(x, ast.Attribute) and x.attr in ('is_streamed', 'isatty')
                   for x in ast.walk(c.fi.node))

    def run_task(self, task, res):
        self._task = task
        return super().run_task((task[0], self.commands[task[1]].name, task[2]), res)

    def make_monitor(self):
        _, i, variant = self._task
        m = self.monitor()
        m.command = self.commands[i]
        m.streamed = 'streamed=True' in variant
        m.backup = 'backup=True' in variant
        m.reporting = self.asks(m.command) and not m.streamed or not m.command.backup
        m.listing = self.asks(m.command) and not m.streamed
        m.changing = self.changing
        m.rules = self.rules
        m.seen_changes = set()
        return m

    def extra(self, name, eng, v, st, act, rs, node):
        c = self.commands[self._task[1]]
        attrs = {a: U(sym=('param', a), tags=['arg:' + a]) for a in self.attrs}
        attrs['backup'] = C('backup=True' in self._task[2])
        for d, cs in c.choices.items():
            for x in cs:
                if f' {d}={x}' in self._task[2]:
                    attrs[d] = C(x)
        ref = eng.alloc(st, act, node, Obj('ext', None, attrs), 'args')
        return eng.call_fn(Fn(c.fi), [ref], {}, st, act, rs, node)
