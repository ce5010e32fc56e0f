"""Checks, their tasks and how they are run."""
import ast
import gc
import multiprocessing
import os
import sys
import threading
import time
import traceback

from .interp import Act, Engine, St
from .models import NullMonitor
from .project import AnalysisBroken
from .values import C, FALSE, Fn, GenV, ItV, NONE, Obj, Ref, TRUE, U

sys.setrecursionlimit(200000)
STACK = 1000 * 1024 * 1024


def in_thread(f, *a):
    """Run *f* in a thread with a deep stack and return (result, exception)."""
    res = [None, None]

    def go():
        try:
            res[0] = f(*a)
        except BaseException as e:  # noqa
            res[1] = e
            res.append(traceback.format_exc())
    old = threading.stack_size(STACK)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    threading.stack_size(old)
    return res


class Result:
    """What one task found."""

    def __init__(self, task):
        self.task = task
        self.reports = []
        self.stats = {}
        self.funcs = set()
        self.sql_sites = set()
        self.data = {}
        self.error = None
        self.wall = 0.0


class Check:
    id = '?'
    technique = ''
    level_note = ''
    explanation = ''
    rules = ()

    def __init__(self, proj, tier='quick'):
        self.proj = proj
        self.tier = tier

    def prepare(self):
        """Run once, before the tasks are started (in the parent process)."""

    def tasks(self):
        """List of (name, weight)."""
        return [('all', 1)]

    def run_task(self, name, res):
        raise NotImplementedError

    def finish(self, results):
        """Whole-program rules: returns (reports, coverage dict)."""
        return [], {}


_CUR = None


def _child(name):
    check = _CUR
    res = Result(name)
    t = time.time()
    gc.disable() if os.environ.get('VERIF_NOGC') else None
    r = in_thread(check.run_task, name, res)
    if r[1] is not None:
        res.error = f'{type(r[1]).__name__}: {r[1]}'
        if not isinstance(r[1], AnalysisBroken):
            res.error += '\n' + r[2]
    res.wall = time.time() - t
    return res


def run_check(check, only=None, jobs=None, verbose=False):
    global _CUR
    r = in_thread(check.prepare)
    if r[1] is not None:
        if not isinstance(r[1], AnalysisBroken):
            sys.stderr.write(r[2])
        raise AnalysisBroken(f'prepare: {r[1]}')
    _CUR = check
    tasks = sorted(check.tasks(), key=lambda t: -t[1])
    names = [t[0] for t in tasks if not only or t[0] in only]
    if not names:
        raise AnalysisBroken('no tasks')
    results = []
    jobs = jobs or min(8, os.cpu_count() or 1)
    if len(names) == 1 or jobs == 1:
        results = [_child(n) for n in names]
    else:
        ctx = multiprocessing.get_context('fork')
        gc.freeze()
        with ctx.Pool(min(jobs, len(names)), maxtasksperchild=1) as pool:
            for res in pool.imap_unordered(_child, names, chunksize=1):
                results.append(res)
                if verbose:
                    print(f'  {res.task}: {res.wall:.1f}s {res.stats.get("stmts")} stmts '
                          f'{len(res.reports)} reports {res.error or ""}', flush=True)
    results.sort(key=lambda r: str(r.task))
    bad = [r for r in results if r.error]
    if bad:
        for r in bad:
            sys.stderr.write(f'{r.task}: {r.error}\n')
        if any(r.reports for r in results):
            return results      # what was found counts; see run.main for the rest
        raise AnalysisBroken(f'{len(bad)} task(s) failed, first: {bad[0].task}: {bad[0].error}')
    return results


# ------------------------------------------------------------- engine checks
def ds_methods(proj, private=()):
    """Public operations of DataSpace: {entry name: FuncInfo}."""
    ds = proj.cls('toron.space', 'DataSpace')
    out = {}
    for n, m in ds.methods.items():
        if n.startswith('_') and n not in ('__call__',) + tuple(private):
            continue
        if isinstance(m.node.name, str) and m.kind == 'static':
            continue
        out[n] = m
    if len(out) < 40:
        raise AnalysisBroken(f'only {len(out)} DataSpace operations found')
    return out


HEAVY = {'update_index': 60, 'insert_index': 55, 'insert_index_OLD': 5, 'delete_index': 20, 'update_mappings': 9,
         'delete_mappings': 9, 'insert_mappings': 6, 'insert_mappings2': 6, 'insert_weights': 6,
         'insert_quantities2': 6, 'reify_mappings': 6, 'update_weights': 5, 'delete_weights': 5}


ALL_EXTRA = ('graph.load_mapping', 'graph.get_mapping', 'graph.get_mapping_info_str', 'graph.get_weights',
             'graph.translate', 'reader.iter', 'reader.translate', 'reader.pivot', 'reader.pandas',
             'Mapper.init', 'Mapper.match', 'Mapper.full', 'Mapper.iter',
             'OldMapper.init', 'OldMapper.match', 'OldMapper.iter')
LEGACY = ('legacy.rename', 'legacy.drop')
READ_EXTRA = tuple(x for x in ALL_EXTRA if x != 'graph.load_mapping')


def called_names(fi):
    return {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(fi.node)
            if isinstance(x, ast.Attribute) or isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


OLD_MODULES = ('toron._dal', 'toron._schema', 'toron._xmapper', 'toron.xnode')


def reaching(proj, marked):
    """Names of all functions from which, going by the names they mention, a marked function may be reached."""
    names = {}
    funcs = [f for f in proj.functions if f.module.name not in OLD_MODULES]
    for f in funcs:
        names.setdefault(f.name, set()).update(called_names(f))
        if f.name == '__init__' and f.cls is not None:
            names.setdefault(f.cls.name, set()).update(called_names(f))
    out = {f.name for f in funcs if marked(f)}
    grown = True
    while grown:
        new = {n for n, c in names.items() if n not in out and c & out}
        out |= new
        grown = bool(new)
    return out


class EngineCheck(Check):
    """Drives a monitor over every public DataSpace operation."""
    monitor = None
    fault = 0
    budget = 700
    starts = ('mem',)
    only_methods = None
    skip_methods = ()

    def fault_of(self, task):
        return self.fault

    def make_engine(self):
        return Engine(self.proj, NullMonitor(), budget_s=self.budget)

    def make_monitor(self):
        return self.monitor()

    def entry_methods(self):
        return ds_methods(self.proj)

    # -- start states --------------------------------------------------
    def root(self):
        fi = self.proj.func('toron.space', 'warn_if_issues')
        return Act(fi, 'root', (), ()), fi.node

    def make_start(self, eng, kind):
        act, node = self.root()
        st = St({'root': {}}, {}, ())
        rs = []
        ds = self.proj.cls('toron.space', 'DataSpace')
        if kind == 'mem':
            outs = eng.instantiate(ds, [], {'cache_to_drive': FALSE}, st, act, rs, node)
        elif kind == 'drive':
            outs = eng.instantiate(ds, [], {'cache_to_drive': TRUE}, st, act, rs, node)
        else:
            name, kw = kind
            f = self.proj.func('toron.space', name)
            outs = eng.call_fn(Fn(f), [U(kind='str', tags=['arg:path'])], dict(kw), st, act, rs, node)
        outs = [(v, s) for v, s in outs if isinstance(v, Ref)]
        if not outs:
            raise AnalysisBroken(f'no start state {kind}: {[(e, e.site) for e, _ in rs][:5]}')
        return outs

    def prepare(self):
        self.eng = self.make_engine()
        self.start = {}
        for kind in self.starts:
            outs = self.make_start(self.eng, kind)
            v, s = outs[0]
            s.trace = None
            self.start[kind] = (v, s)
        self.methods = self.entry_methods()

    def tasks(self):
        out = []
        for k in self.starts:
            for n in self.methods:
                if self.only_methods is not None and n not in self.only_methods:
                    continue
                if n in self.skip_methods:
                    continue
                for variant in self.variants(n):
                    out.append(((k, n, variant), HEAVY.get(n, 1)))
            for n in self.extra_entries:
                out.append(((k, n, None), HEAVY.get(n, 3)))
        return out

    def variants(self, name):
        return (None,)

    def arg_value(self, method, name, ann, variant):
        return U(sym=('param', name), tags=['arg:' + name])

    def bind_args(self, m, variant=None, skip=1):
        a = m.node.args
        if m.kind == 'static':
            skip = 0
        ps = [x.arg for x in a.posonlyargs + a.args][skip:]
        ko = [x.arg for x in a.kwonlyargs]
        if a.vararg:
            args = [self.arg_value(m, x, None, variant) for x in ps]
            args.append(('*', U(sym=('param', a.vararg.arg), tags=['arg:' + a.vararg.arg]), False))
            kw = {}
        else:
            args, kw = [], {x: self.arg_value(m, x, None, variant) for x in ps}
        for x in ko:
            kw[x] = self.arg_value(m, x, None, variant)
        if a.kwarg:
            kw['**'] = U(sym=('param', a.kwarg.arg), tags=['arg:' + a.kwarg.arg])
        return args, kw

    def consume(self, eng, gv, gs, act, rs, node):
        """Use a returned generator the way a caller may: read on, or give up."""
        return eng.iterate(gv, gs, act, rs, lambda v, s: [('resume', NONE, s), ('close', NONE, s.fork())], node)

    # -- other entry points --------------------------------------------
    extra_entries = ()

    def extra(self, name, eng, v, st, act, rs, node):
        """Run the entry point *name*; v is a space."""
        P = lambda n, **k: U(sym=('param', n), tags=['arg:' + n], **k)
        proj = self.proj

        def meth(outs, mname, args=(), kw=None, use=True):
            res = []
            for o, s in outs:
                if not isinstance(o, Ref) or eng.hget(s, o).cls is None:
                    res.append((o, s))
                    continue
                fi = proj.find_method(eng.hget(s, o).cls, mname)
                if fi is None:
                    raise AnalysisBroken(f'no method {mname}')
                for r, s2 in eng.call_fn(Fn(fi, o), list(args), dict(kw or {}), s, act, rs, node):
                    for s3 in self.use(eng, r, s2, act, rs, node):
                        res.append((o, s3))
            return self.few(eng, res)
        if name.startswith('graph.'):
            f = proj.func('toron.graph', name[6:])
            kw = {}
            a = f.node.args
            for x in a.args + a.kwonlyargs:
                ann = ast.unparse(x.annotation) if x.annotation is not None else ''
                kw[x.arg] = v if 'DataSpace' in ann else P(x.arg)
            outs = eng.call_fn(Fn(f), [], kw, st, act, rs, node)
            res = []
            for r, s in outs:
                if isinstance(r, Ref) and (eng.hget(s, r).cls is not None) and 'data' in eng.hget(s, r).attrs:
                    for s2 in self.use(eng, eng.hget(s, r).attrs['data'], s, act, rs, node):
                        res.append((r, s2))
                    continue
                for s2 in self.use(eng, r, s, act, rs, node):
                    res.append((r, s2))
            return res
        if name.startswith('reader'):
            ds = proj.cls('toron.space', 'DataSpace')
            fi = proj.find_method(ds, '__call__')
            args, kw = self.bind_args(fi)
            outs = self.few(eng, eng.call_fn(Fn(fi, v), args, kw, st, act, rs, node))
            kind = name.partition('.')[2]
            if kind == 'iter':
                res = []
                for o, s in outs:
                    if isinstance(o, Ref):
                        for x in eng.iterate(o, s, act, rs, lambda v, s: [('resume', NONE, s), ('close', NONE, s.fork())],
                                             node):
                            res.append((o, x[1]))
                return self.few(eng, res)
            if kind == 'translate':
                return meth(outs, 'translate', [v, P('quantize')])
            if kind == 'close':
                return outs
            if kind == 'pandas':
                return meth(outs, 'to_pandas', [P('index')])
            if kind == 'pivot':
                f = proj.func('toron.reader', 'pivot_reader')
                res = []
                for o, s in outs:
                    for r, s2 in eng.call_fn(Fn(f), [o, P('columns')], {}, s, act, rs, node):
                        for s3 in self.use(eng, r, s2, act, rs, node):
                            res.append((r, s3))
                return res
        if name.startswith(('Mapper', 'OldMapper')):
            cls = proj.cls('toron.mapper', 'Mapper' if name.startswith('Mapper') else 'Mapper_OLD')
            old = name.startswith('Old')
            a = [P('link_name'), P('data'), P('columns')] if old else [v, v, P('data')]
            outs = self.few(eng, eng.instantiate(cls, a, {}, st, act, rs, node))
            kind = name.partition('.')[2]
            if kind == 'init':
                return outs
            if kind == 'match':
                ma = [v, P('side'), P('match_limit'), P('allow_overlapping')] if old else \
                    [P('node_var'), P('match_limit'), P('allow_overlapping')]
                return meth(outs, 'match_records', ma)
            if kind == 'full':
                return meth(outs, 'is_fully_matched')
            if kind == 'iter':
                return meth(outs, 'get_mappings' if old else 'iter_mappings', [P('target')])
        if name.startswith('legacy.'):
            f = proj.func('toron.dal1.label_manager', {'legacy.rename': 'legacy_rename_labels',
                                                       'legacy.drop': 'legacy_drop_labels'}[name])
            args, kw = self.bind_args(f)
            return eng.call_fn(Fn(f), [v] + args, kw, st, act, rs, node)
        if name in ('read_file', 'bind_file'):
            f = proj.func('toron.space', name)
            kw = {'path' if 'path' in [x.arg for x in f.node.args.args] else f.node.args.args[0].arg:
                  U(kind='str', tags=['arg:path'])}
            if name == 'bind_file':
                kw['mode'] = P('mode')
            else:
                kw['cache_to_drive'] = P('cache_to_drive')
            return eng.call_fn(Fn(f), [], kw, st, act, rs, node)
        raise AnalysisBroken('unknown entry ' + name)

    def few(self, eng, outs):
        """Merge result states that return the same thing."""
        groups = {}
        for v, s in outs:
            groups.setdefault(v, []).append(s)
        return [(v, s) for v, ss in groups.items() for s in eng.reduce(ss, 4)]

    def use(self, eng, r, s, act, rs, node):
        if isinstance(r, GenV) or isinstance(r, ItV):
            return [x[1] for x in self.consume(eng, r, s, act, rs, node)]
        return [s]

    def run_task(self, task, res):
        kind, name, variant = task
        eng = self.eng
        eng.fault = self.fault_of(task)
        mon = self.make_monitor()
        eng.monitor = mon
        mon.eng = eng
        mon.check = self
        eng.deadline = time.time() + self.budget
        eng.stats = {'stmts': 0, 'calls': 0, 'sql': 0, 'merges': 0, 'unknown': {}}
        eng.funcs_seen = set()
        eng.sql_sites = set()
        eng.reports = {}
        v, s = self.start[kind]
        s = s.fork()
        act, node = self.root()
        rs = []
        if name in self.methods:
            eng.entry = f'DataSpace.{name}' + (f' [{variant}]' if variant else '')
            m = self.methods[name]
            node = m.node
            args, kw = self.bind_args(m, variant)
            s.mon = mon.initial()
            if hasattr(mon, 'entry_begin'):
                mon.entry_begin(name, v, args, kw, s, act)
            outs = eng.call_fn(Fn(m, v), args, kw, s, act, rs, m.node)
        else:
            eng.entry = name + (f' [{variant}]' if variant else '')
            s.mon = mon.initial()
            outs = self.extra(name, eng, v, s, act, rs, node)
        ends = []
        for rv, s2 in outs:
            o = eng.hget(s2, rv) if isinstance(rv, Ref) else None
            if isinstance(rv, (GenV, ItV)):
                for x in self.consume(eng, rv, s2, act, rs, node):
                    ends.append((NONE, x[1]))
            elif o is not None and o.kind == 'inst' and o.cls is not None and '__next__' in o.cls.methods:
                # reading the result object reads the iterators it holds
                cur = [s2]
                for a in [x for x in o.attrs.values() if isinstance(x, (GenV, ItV))]:
                    cur = eng.reduce([x[1] for s in cur for x in self.consume(eng, a, s, act, rs, node)], 4)
                ends += [(rv, s) for s in cur]
            else:
                ends.append((rv, s2))
        if hasattr(mon, 'at_return'):
            for rv, s2 in ends:
                mon.at_return(name, rv, s2, act, node)
        if hasattr(mon, 'at_raise'):
            for e, s2 in rs:
                mon.at_raise(name, e, s2, act, node)
        if hasattr(mon, 'entry_end'):
            mon.entry_end()
        self.fill(res, eng)
        res.data['returns'] = len(ends)
        res.data['raises'] = len(rs)
        if hasattr(mon, 'result'):
            res.data.update(mon.result())
        if not ends and not rs:
            raise AnalysisBroken(f'{name}: no path reaches an exit')

    def fill(self, res, eng):
        res.reports = list(eng.reports.values())
        for k, r in zip(eng.reports, res.reports):
            r['key'] = repr(k)
        res.stats = dict(eng.stats)
        res.funcs = {f'{a}:{b}' for a, b in eng.funcs_seen}
        res.sql_sites = set(eng.sql_sites)

    def coverage(self, results):
        funcs, sites = set(), set()
        for r in results:
            funcs |= r.funcs
            sites |= r.sql_sites
        cov = {}
        for r in results:
            for k, n in r.stats.get('counts', {}).items():
                cov[k] = cov.get(k, 0) + n
        return {
            **cov,
            'entry_points': len(results),
            'functions_analysed': len(funcs),
            'sql_statement_sites': len(sites),
            'abstract_statements_executed': sum(r.stats.get('stmts', 0) for r in results),
            'normal_exits': sum(r.data.get('returns', 0) for r in results),
            'exceptional_exits': sum(r.data.get('raises', 0) for r in results),
            'unmodelled_constructs': sorted({k for r in results for k in r.stats.get('unknown', {})})[:40],
        }

    floors = {}

    def finish(self, results):
        cov = self.coverage(results)
        for k, n in self.floors.items():
            if cov.get(k, 0) < n and not any(r.reports for r in results):
                raise AnalysisBroken(f'{k} = {cov.get(k, 0)}, expected at least {n}: the rule lost its subject')
        return [], cov
