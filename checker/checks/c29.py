"""C29: every command ends with a defined exit status and reports its errors."""
import ast

from ..cli import CliCheck, CliMonitor
from ..frame import EngineCheck
from ..project import AnalysisBroken
from ..values import C, EMPTY, ExcV, Fn, U, V


class MainMonitor(CliMonitor):
    """Follows main() itself: the command is called and its status passed on."""

    def watches(self, name):
        return name.startswith('logging.Logger.') or name in ('os._exit', 'sys.exit', '?', '?.func')

    def intercept(self, fn, args, kw, st, act, node, rs):
        if fn.fi.name in ('get_parser', 'get_stream_styles', 'configure_applogger') and st.mon:
            n = 2 if fn.fi.name == 'get_stream_styles' else 0
            from ..values import Tup
            return [(Tup((U(), U())) if n else U(tags=['parser']), st)]
        return None

    def on_call(self, name, fv, args, kw, st, act, node, rs):
        m = st.mon
        if not m:
            return None
        if name.startswith('logging.Logger.') or name == 'os._exit':
            return super().on_call(name, fv, args, kw, st, act, node, rs)
        if name == '?.func' or name == '?' and isinstance(node, ast.Call) and 'func' in ast.unparse(node.func):
            self.count('handler_calls')
            self.set(st, done=EMPTY)
            for n in ('ToronError', 'ValueError', 'KeyError', 'OSError'):
                s2 = st.fork()
                s2.mon = s2.mon._replace(err=f'{n} from the command', logged=False)
                rs.append((ExcV(n, U(), self.eng.where(node, act)), s2))
            st.mon = m._replace(failed='called')
            return [(U(['STATUS']), st)]
        return None

    def at_return(self, name, v, st, act, node):
        m = st.mon
        if not m:
            return
        t = self.eng.tags(v, st) if isinstance(v, V) else EMPTY
        code = v.v if isinstance(v, C) else None
        if m.err:
            if 'STATUS' in t or not isinstance(code, int) or code == 0:
                self.bad('not-reported', node, act, f'main() ends with {getattr(v, "v", "?")!r} after a {m.err}', st, key=m.err)
            elif not m.logged:
                self.bad('no-message', node, act, f'main() logs nothing after a {m.err}', st, key=m.err)
        elif m.failed == 'called' and 'STATUS' not in t:
            self.bad('no-exit-status', node, act, 'main() does not return the status of the command', st, key='main')

    def at_raise(self, name, e, st, act, node):
        m = st.mon
        if m and m.err and m.err.startswith('ToronError'):
            self.bad('no-message', node, act, 'main() lets an error reported by the library escape', st, key='escape')


class C29(CliCheck):
    id = 'C29'
    technique = 'inter-procedural path analysis of the commands with library errors injected at every call of the library'
    level_note = ('All paths of every command and of main(), with and without piped input; every call of an operation, of bind_file and of a save may raise '
                  'ToronError, ValueError, RuntimeError or an OSError. An error that is not handled ends the interpreter with status 1 and a '
                  'traceback, which is taken as a message and a failure status.')
    explanation = ('Each leaf parser has exactly one handler; each normal exit of a handler returns an exit code; a handled library error leads to a failure '
                   'code and a logged error, unless the rest of the command did change something; main() returns the status of the handler and turns a '
                   'ToronError into a logged message and a failure; the module ends with that status.')
    rules = ('handler', 'no-exit-status', 'not-reported', 'no-message', 'status-lost')
    floors = {'entry_points': 20, 'exits': 20, 'operations_called': 40, 'handler_calls': 1}
    BACKUP = (True,)
    CHOOSE = True

    def tasks(self):
        return super().tasks() + [(('mem', 'main', 'main'), 1)]

    def run_task(self, task, res):
        if task[1] != 'main':
            return super().run_task(task, res)
        self._task = task
        return EngineCheck.run_task(self, task, res)

    def make_monitor(self):
        if self._task[1] != 'main':
            return super().make_monitor()
        m = MainMonitor()
        m.rules = self.rules
        m.command = type('X', (), {'name': 'main'})
        return m

    def extra(self, name, eng, v, st, act, rs, node):
        if self._task[1] != 'main':
            return super().extra(name, eng, v, st, act, rs, node)
        f = self.proj.func('toron.cli.main', 'main')
        return eng.call_fn(Fn(f), [], {}, st, act, rs, node)

    def finish(self, results):
        reports, cov = super().finish(results)
        for kind, line, msg in self.problems:
            if kind in self.rules:
                reports.append({'rule': kind, 'where': f'src/toron/cli/main.py:{line}', 'function': 'toron.cli.main.get_parser', 'path': [],
                                'entry': '', 'message': msg})
        m = self.proj.modules.get('toron.__main__')
        if m is None:
            raise AnalysisBroken('no toron.__main__')
        calls = [x for x in ast.walk(m.tree) if isinstance(x, ast.Call) and 'main' in called(x)]
        if not calls:
            raise AnalysisBroken('toron.__main__ does not call main()')
        names = {t.id for s in ast.walk(m.tree) if isinstance(s, ast.Assign) and any(c is x for c in calls for x in ast.walk(s.value))
                 for t in s.targets if isinstance(t, ast.Name)}
        exits = [x for x in ast.walk(m.tree) if (isinstance(x, ast.Call) and called(x) & {'exit', '_exit'} or isinstance(x, ast.Raise))]
        ok = any(any(y is c for c in calls) or isinstance(y, ast.Name) and y.id in names for x in exits
                 for y in ast.walk(x) if y is not x)
        if not ok:
            reports.append({'rule': 'status-lost', 'where': f'{m.relpath}:{calls[0].lineno}', 'function': 'toron.__main__', 'path': [], 'entry': '',
                            'message': 'the status returned by main() is not the exit status of the program'})
        cov['commands'] = len(self.commands)
        return reports, cov


def called(x):
    f = x.func
    return {f.attr} if isinstance(f, ast.Attribute) else {getattr(f, 'id', '')}


check = C29
