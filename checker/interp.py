"""A disjunctive abstract interpreter for the Python subset used by toron.

Every path of an entry point is followed inter-procedurally over a finite
abstract domain.  Generators and context managers are inlined as coroutines.
Nothing of the analysed program is executed.
"""
import ast
import builtins
import sys
import time

from .project import AnalysisBroken, FuncInfo, dotted
from .schema import Schema
from .values import (C, U, S, Tup, Ref, Fn, Cls, Mod, Ext, GenV, ItV, ExcV, Obj, V, union_refs,
                     NONE, TRUE, FALSE, EMPTY, tags_of, kind_at, nn_at, row_nn)

LISTS = ('list', 'set', 'tuple')
SET_OPS = {ast.BitAnd: 'set.intersection', ast.Sub: 'set.difference', ast.BitOr: 'set.union'}
CLASH = object()


class St:
    __slots__ = ('fr', 'heap', 'mon', 'pend', 'iters', 'trace')

    def __init__(self, fr, heap, mon, pend=(), iters=(), trace=None):
        self.fr = fr
        self.heap = heap
        self.mon = mon
        self.pend = pend
        self.iters = iters
        self.trace = trace

    def fork(self):
        return St(dict(self.fr), dict(self.heap), self.mon, self.pend, self.iters, self.trace)

    def note(self, text):
        t = self.trace
        if t is None or t[1] != text:
            self.trace = (t, text, (t[2] + 1) if t else 1)

    def path(self, n=14):
        out, t = [], self.trace
        while t and len(out) < n:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))


class Out:
    __slots__ = ('n', 'r', 'b', 'c', 'x')

    def __init__(self):
        self.n, self.r, self.b, self.c, self.x = [], [], [], [], []

    def add(self, o, n=True):
        if n:
            self.n += o.n
        self.r += o.r
        self.b += o.b
        self.c += o.c
        self.x += o.x


class Act:
    __slots__ = ('fi', 'fid', 'env', 'on_yield', 'handling', 'lexcatch', 'stack', 'self_', 'mod')

    def __init__(self, fi, fid, env, stack, on_yield=None, mod=None):
        self.fi = fi
        self.fid = fid
        self.env = env
        self.on_yield = on_yield
        self.handling = []
        self.lexcatch = []
        self.stack = stack
        self.mod = mod or fi.module


def join(a, b):
    if a is b or a == b:
        return a
    if a is None or b is None:
        return None
    if isinstance(a, ExcV) and isinstance(b, ExcV):
        if a.name == b.name:
            n = a.name
        elif '?BaseException' in (a.name, b.name):
            n = '?BaseException'
        else:
            n = '?Exception'
        m = join(a.msg, b.msg) if isinstance(a.msg, V) and isinstance(b.msg, V) else None
        return ExcV(n, m, a.site, a.excl & b.excl)
    ta, tb = tags_of(a), tags_of(b)
    kind = None
    if isinstance(a, U) and isinstance(b, U):
        kind = a.kind if a.kind == b.kind else None
        return U(ta | tb, a.truth if a.truth == b.truth else None, a.notnone and b.notnone,
                 a.sym if a.sym == b.sym else None, a.excl & b.excl, kind)
    ka, kb = kind_of(a), kind_of(b)
    if ka == kb:
        kind = ka
    elif {ka, kb} == {'int', 'count'}:
        kind = 'count' if (ka == 'count' or kb == 'count') else 'int'
    va, vb = truth(a), truth(b)
    if isinstance(a, Ref) or isinstance(b, Ref):
        ta = ta | frozenset(['mixed'])
        va = vb = None
    return U(ta | tb, va if va == vb else None, not_none(a) and not_none(b), None, EMPTY, kind)


def kind_of(v):
    if isinstance(v, U):
        return v.kind
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return 'bool'
        if isinstance(v.v, int):
            return 'int'
        if isinstance(v.v, float):
            return 'float'
        if isinstance(v.v, str):
            return 'str'
        if isinstance(v.v, bytes):
            return 'bytes'
    if isinstance(v, S):
        return 'str'
    return None


def not_none(v):
    if isinstance(v, U):
        return v.notnone
    return not (isinstance(v, C) and v.v is None)


def truth(v, st=None, eng=None):
    """True / False / None (unknown)."""
    if isinstance(v, C):
        return bool(v.v)
    if isinstance(v, U):
        return v.truth
    if isinstance(v, S):
        return True if any(isinstance(p, str) and p for p in v.parts) else None
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, Ref) and st is not None:
        o = eng.hget(st, v)
        if o is None:
            return None
        if o.kind in LISTS:
            if 'exact' in o.attrs:
                return bool(o.attrs['exact'].items)
            return True if o.attrs.get('ne') else None
        if o.kind in ('dict', 'counter'):
            if any(isinstance(k, tuple) and k[0] == 'k' for k in o.attrs):
                return True
            if o.attrs.get('rest') is None:
                return False
            return True if o.attrs.get('ne') else None
        if o.kind == 'inst' and o.cls is not None:
            if eng.proj.find_method(o.cls, '__bool__') or eng.proj.find_method(o.cls, '__len__'):
                return None
            return True
        return True
    return True


class Engine:
    SOFT = 12
    HARD = 48

    def __init__(self, proj, monitor, fault=0, budget_s=600):
        self.proj = proj
        self.monitor = monitor
        self.fault = fault
        monitor.eng = self
        self.schema = Schema(proj)
        self._fids = {}
        self._rfid = {}
        self._oids = {}
        self._synth = {}
        self._gheap = {}
        self._gcache = {}
        self._gbusy = set()
        self.reports = {}
        self.stats = {'stmts': 0, 'calls': 0, 'sql': 0, 'merges': 0, 'unknown': {}}
        self.funcs_seen = set()
        self.sites = {}
        self.sql_sites = set()
        self.deadline = time.time() + budget_s
        self.mute = 0
        self.depth = 0
        self.wid = []
        self._frc = {}
        self.inflight = []
        self.soft_wanted = []
        from . import models
        self.models = models
        self._ev = {}
        for k in dir(self):
            if k.startswith('ev_'):
                n = getattr(ast, k[3:], None)
                if n is not None:
                    self._ev[n] = getattr(self, k)
        self._ex = {}
        for k in dir(self):
            if k.startswith('ex_'):
                n = getattr(ast, k[3:], None)
                if n is not None:
                    self._ex[n] = getattr(self, k)

    # ------------------------------------------------------------ utils
    def fid(self, parent, node, fi):
        k = (parent, id(node), id(fi))
        r = self._fids.get(k)
        if r is None:
            r = self._fids[k] = len(self._fids) + 1
            self._rfid[r] = (parent, node, fi)
        return r

    def where(self, node, act):
        return f'{act.mod.relpath}:{getattr(node, "lineno", 0)}'

    def unknown(self, what):
        d = self.stats['unknown']
        d[what] = d.get(what, 0) + 1

    def hget(self, st, ref):
        o = st.heap.get(ref.id)
        if o is None:
            o = self._gheap.get(ref.id)
        return o

    def hset(self, st, ref, obj):
        st.heap[ref.id] = obj

    def alloc(self, st, act, node, obj, extra=None, cap=2):
        base = (act.fid, id(node), extra)
        n = self._oids.get(base)
        if n is None:
            n = self._oids[base] = len(self._oids) + 1
        live = None
        for k in range(cap):
            rid = (n, k)
            if rid not in st.heap:
                st.heap[rid] = obj
                return Ref(rid)
            if live is None:
                live = self.reachable(st)[0]
            if rid not in live:
                st.heap[rid] = obj
                return Ref(rid)
        rid = (n, cap - 1)
        st.heap[rid] = self.join_obj(st.heap[rid], obj)
        return Ref(rid)

    def newlist(self, st, act, node, items=None, elem=None, ne=False, kind='list', extra=None, tags=EMPTY):
        if items is not None or elem is None:
            a = {'exact': Tup(items or ())}
            if self.depth:
                a['d'] = self.depth
            o = Obj(kind, None, a, tags)
        else:
            o = Obj(kind, None, {'elem': elem, 'ne': ne}, tags)
        return self.alloc(st, act, node, o, (kind, extra))

    def tags(self, v, st):
        return self.dtags(v, st, 0)

    def dtags(self, v, st, d):
        if isinstance(v, Ref) and v.id not in st.heap and v.id in self._gheap:
            return EMPTY
        return tags_of(v, st)

    # -- reachability / keys -------------------------------------------
    def frinfo(self, vs):
        """(key, refs) of a frame; frames are never mutated in place."""
        r = self._frc.get(id(vs))
        if r is not None and r[0] is vs:
            return r
        if len(self._frc) > 200000:
            self._frc.clear()
        r = self._frc[id(vs)] = (vs, frozenset(vs.items()), union_refs(vs.values()))
        return r

    def reachable(self, st, extra=()):
        """Heap ids and frames reachable from the live frames."""
        ids, fids = set(), set()
        todo, ftodo = [], []
        fr = st.fr
        for f, vs in fr.items():
            if '.dead' not in vs:
                fids.add(f)
                a, b = self.frinfo(vs)[2]
                todo += a
                ftodo += b
        for _, _, p in st.pend:
            if isinstance(p, V):
                a, b = p.refs()
                todo += a
                ftodo += b
        for p in extra:
            a, b = p.refs()
            todo += a
            ftodo += b
        for a, b in self.inflight:
            todo += a
            ftodo += b
        heap = st.heap
        while todo or ftodo:
            while ftodo:
                f = ftodo.pop()
                if f not in fids:
                    fids.add(f)
                    vs = fr.get(f)
                    if vs is not None:
                        a, b = self.frinfo(vs)[2]
                        todo += a
                        ftodo += b
            if not todo:
                break
            i = todo.pop()
            if i in ids:
                continue
            ids.add(i)
            o = heap.get(i)
            if o is not None:
                a, b = o.refs()
                todo += a
                if b:
                    ftodo += b
        return ids, fids

    def key(self, st):
        ids, fids = self.reachable(st)
        heap = st.heap
        h = frozenset([(i, heap[i].key()) for i in ids if i in heap])
        f = frozenset([(k, self.frinfo(v)[1]) for k, v in st.fr.items() if k in fids])
        return (f, h, st.mon, st.pend, st.iters)

    def gc(self, st):
        ids, fids = self.reachable(st)
        if len(ids) < len(st.heap):
            st.heap = {k: v for k, v in st.heap.items() if k in ids}
        if len(fids) < len(st.fr):
            st.fr = {k: v for k, v in st.fr.items() if k in fids}

    def dedupe(self, states):
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = self.key(s)
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def reduce(self, states, limit=None):
        n = len(states)
        if n < 4:
            return states
        states = self.dedupe(states)
        limit = limit or self.SOFT
        if len(states) > limit:
            states = self.merge(states, 0)
            if len(states) > limit:
                states = self.merge(states, 1)
                if len(states) > max(self.HARD, limit):
                    states = self.merge(states, 2)
        if time.time() > self.deadline:
            raise AnalysisBroken('time budget exceeded')
        return states

    def facts(self, st, level):
        out = []
        if level < 2:
            for i, o in st.heap.items():
                if o.kind == 'conn':
                    out.append((i, o.attrs.get('tx')))
                elif o.kind == 'counter' and level < 1:
                    out.append((i, frozenset((k, truth(v)) for k, v in o.attrs.items() if isinstance(v, V))))
        return frozenset(out)

    def merge(self, states, level):
        self.stats['merges'] += 1
        groups = {}
        for s in states:
            self.gc(s)
            if level == 0:
                fr = frozenset((f, frozenset((k, v) for k, v in vs.items() if isinstance(v, C)
                                             and (v.v is None or isinstance(v.v, bool))))
                               for f, vs in s.fr.items())
            else:
                fr = frozenset(s.fr)
            k = (s.mon, s.pend, s.iters, fr, self.facts(s, level))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                a = self.join_states(a, b)
            out.append(a)
        return out

    def join_states(self, a, b):
        fr = {}
        heap = {}
        for i, oa in a.heap.items():
            ob = b.heap.get(i)
            if ob is None:
                heap[i] = oa
            elif ob is oa:
                heap[i] = oa
            else:
                heap[i] = self.join_obj(oa, ob)
        for i, ob in b.heap.items():
            if i not in heap:
                heap[i] = ob
        for f, va in a.fr.items():
            vb = b.fr.get(f)
            if vb is None:
                continue
            d = {}
            for k, x in va.items():
                if k in vb:
                    y = vb[k]
                    d[k] = x if (x is y or x == y) else self.join_v(x, y, heap)
                else:
                    d[k] = x
            for k, y in vb.items():
                if k not in va:
                    d[k] = y
            fr[f] = d
        return St(fr, heap, a.mon, a.pend, a.iters, a.trace)

    def same_site(self, x, y):
        return (isinstance(x, Ref) and isinstance(y, Ref) and isinstance(x.id, tuple) and isinstance(y.id, tuple)
                and x.id[0] == y.id[0])

    def join_v(self, x, y, heap):
        """Join two values of one state (objects of one site are summarised)."""
        if x is y or x == y:
            return x
        if self.same_site(x, y):
            a, b = heap.get(x.id), heap.get(y.id)
            if a is not None and b is not None and a.kind == b.kind and a.cls is b.cls:
                heap[x.id] = self.join_obj(a, b)
                return x
        if isinstance(x, Ref) and isinstance(y, Ref):
            # records of one dataclass made at different places
            a, b = heap.get(x.id), heap.get(y.id)
            if a is not None and b is not None and a.kind == b.kind == 'inst' and a.cls is not None and \
                    a.cls is b.cls and self.proj.is_dataclass(a.cls):
                parts = set()
                for r in (x, y):
                    if isinstance(r.id, tuple) and isinstance(r.id[0], tuple) and r.id[0][:1] == ('J',):
                        parts |= set(r.id[0][1])
                    else:
                        parts.add(r.id)
                i = (('J', tuple(sorted(parts, key=repr))), 0)
                o = self.join_obj(a, b)
                if i in heap and heap[i].kind == 'inst' and heap[i].cls is a.cls:
                    o = self.join_obj(heap[i], o)
                heap[i] = o
                return Ref(i)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup([self.join_v(p, q, heap) for p, q in zip(x.items, y.items)])
        return join(x, y)

    def join_obj(self, a, b):
        if a.key() == b.key():
            return a
        if a.kind != b.kind:
            return Obj('ext', None, {}, a.tags | b.tags | {'mixed'})
        tags = a.tags | b.tags
        if a.kind in LISTS:
            if a.attrs.get('exact') is not None and b.attrs.get('exact') is not None \
                    and len(a.attrs['exact'].items) == len(b.attrs['exact'].items):
                return Obj(a.kind, None, {'exact': Tup([join(x, y) for x, y in zip(
                    a.attrs['exact'].items, b.attrs['exact'].items)])}, tags)
            ea, na = list_elem(a)
            eb, nb = list_elem(b)
            e = ea if eb is None else (eb if ea is None else join(ea, eb))
            return Obj(a.kind, None, {'elem': e if e is not None else U(), 'ne': na and nb}, tags)
        attrs = {}
        if a.kind in ('dict', 'counter'):
            rest = a.attrs.get('rest')
            rb = b.attrs.get('rest')
            if rb is not None:
                rest = rb if rest is None else join(rest, rb)
            for k in set(a.attrs) | set(b.attrs):
                if not (isinstance(k, tuple) and k[0] == 'k'):
                    continue
                x, y = a.attrs.get(k), b.attrs.get(k)
                if a.kind == 'counter':
                    if x is None:
                        x = a.attrs.get('rest') or C(0)
                    if y is None:
                        y = b.attrs.get('rest') or C(0)
                    attrs[k] = join(x, y)
                elif x is not None and y is not None:
                    attrs[k] = join(x, y)
                else:
                    z = x if x is not None else y
                    rest = z if rest is None else join(rest, z)
            if rest is not None:
                attrs['rest'] = rest
            if a.attrs.get('ne') and b.attrs.get('ne'):
                attrs['ne'] = True
            if 'default' in a.attrs:
                attrs['default'] = a.attrs['default']
            return Obj(a.kind, a.cls, attrs, tags)
        for k, x in a.attrs.items():
            if k in b.attrs:
                y = b.attrs[k]
                if isinstance(x, V) and isinstance(y, V):
                    attrs[k] = join(x, y)
                elif x == y:
                    attrs[k] = x
        return Obj(a.kind, a.cls if a.cls is b.cls else None, attrs, tags)

    # ----------------------------------------------------------- reports
    def report(self, rule, node, act, msg, st, key=None):
        if self.mute:
            return
        where = self.where(node, act)
        k = (rule, key or (act.mod.relpath, act.fi.qualname if act.fi else '', msg))
        if k not in self.reports:
            self.reports[k] = {'rule': rule, 'where': where,
                               'function': f'{act.mod.name}.{act.fi.qualname}' if act.fi else act.mod.name,
                               'message': msg, 'path': st.path(), 'entry': getattr(self, 'entry', '')}

    # ------------------------------------------------------- variables
    def lookup(self, name, st, act):
        vs = st.fr.get(act.fid)
        if vs is not None and name in vs:
            return vs[name]
        if act.fi is not None and name in act.fi.locals and act.fi.cond is None:
            return CLASH
        for f in act.env or ():
            vs = st.fr.get(f)
            if vs is not None and name in vs:
                return vs[name]
        return self.global_name(act.mod, name, st)

    def global_name(self, mod, name, st):
        g = st.fr.get(('mod', mod.name))
        if g and name in g:
            return g[name]
        k = (mod.name, name)
        if k in self._gcache:
            return self._gcache[k]
        r = self.proj.lookup(mod.name, name)
        v = self.from_lookup(r, mod, name)
        self._gcache[k] = v
        return v

    def from_lookup(self, r, mod, name):
        if r is None:
            if hasattr(builtins, name):
                return Ext('builtins.' + name)
            if name in ('__name__', '__file__'):
                return C(mod.name)
            return U()
        k, p = r
        if k == 'func':
            return Fn(p)
        if k == 'class':
            return Cls(p)
        if k == 'module':
            return Mod(p)
        if k == 'ext':
            return self.ext_const(p)
        if k == 'expr':
            return self.global_expr(*p)
        return U()

    def ext_const(self, dn):
        c = self.models.EXT_CONST.get(dn)
        if c is not None:
            return c
        return Ext(dn)

    def global_expr(self, mod, node, name):
        k = ('expr', mod.name, name)
        if k in self._gcache:
            return self._gcache[k]
        if k in self._gbusy:
            return U()
        self._gbusy.add(k)
        self.mute += 1
        try:
            fi = self._synth.get(('mod', mod.name))
            if fi is None:
                n = ast.FunctionDef(name='<module>', args=ast.arguments(
                    posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                    body=[ast.Pass()], decorator_list=[], lineno=1, col_offset=0)
                fi = self._synth[('mod', mod.name)] = FuncInfo('<module>', n, mod, None, '<module>')
                fi.cond = None
            act = Act(fi, ('mod', mod.name), (), (), mod=mod)
            st = St({('mod', mod.name): {}}, {}, self.monitor.initial())
            saved, self.monitor = self.monitor, self.models.NullMonitor(self)
            try:
                rs = []
                outs = self.ev(node, st, act, rs)
            finally:
                self.monitor = saved
            if not outs:
                v = U()
            else:
                v, s = outs[0]
                for i, o in s.heap.items():
                    self._gheap[i] = o
                for v2, s2 in outs[1:]:
                    v = join(v, v2)
            self._gcache[k] = v
            return v
        finally:
            self.mute -= 1
            self._gbusy.discard(k)

    def setvar(self, st, act, name, v):
        fid = act.fid
        if act.fi is not None and name not in act.fi.locals:
            for f in act.env or ():
                vs = st.fr.get(f)
                if vs is not None and name in vs:
                    st.fr[f] = {**vs, name: v}
                    return
            if act.fi.name != '<module>':
                g = ('mod', act.mod.name)
                st.fr[g] = {**st.fr.get(g, {}), name: v}
                return
        vs = st.fr.get(fid) or {}
        st.fr[fid] = {**vs, name: v}

    # ---------------------------------------------------------- expressions
    def ev(self, e, st, act, rs):
        m = self._ev.get(type(e))
        if m is None:
            self.unknown('expr ' + type(e).__name__)
            return [(U(), st)]
        return m(e, st, act, rs)

    def evs(self, exprs, st, act, rs):
        outs = [((), st)]
        for e in exprs:
            nxt = []
            for vals, s in outs:
                self.inflight.append(union_refs(vals))
                for v, s2 in self.ev(e, s, act, rs):
                    nxt.append((vals + (v,), s2))
                self.inflight.pop()
            outs = nxt
        return outs

    def ev_Constant(self, e, st, act, rs):
        return [(C(e.value), st)]

    def ev_Name(self, e, st, act, rs):
        v = self.lookup(e.id, st, act)
        if v is CLASH:
            return self.unbound(e, st, act, rs)
        return [(v, st)]

    def unbound(self, e, st, act, rs):
        """A local variable read on a path on which it was not assigned."""
        rs.append((ExcV('UnboundLocalError', None, self.where(e, act)), st))
        self.monitor.on_unbound(e, st, act)
        return []

    def ev_JoinedStr(self, e, st, act, rs):
        outs = [((), st)]
        for part in e.values:
            nxt = []
            for vals, s in outs:
                if isinstance(part, ast.Constant):
                    nxt.append((vals + (part.value,), s))
                else:
                    for v, s2 in self.ev(part.value, s, act, rs):
                        if part.conversion == 114 or part.format_spec is not None:
                            if isinstance(v, C) and part.conversion == 114 and part.format_spec is None:
                                v = C(repr(v.v))
                            else:
                                v = U(self.tags(v, s2) | {'repr'}, kind='str')
                        nxt.append((vals + (v,), s2))
            outs = nxt
        return [(self.mkstr(vals, s), s) for vals, s in outs]

    ev_TemplateStr = ev_JoinedStr

    def mkstr(self, parts, st):
        flat = []
        for p in parts:
            if isinstance(p, C):
                p = str(p.v)
            if isinstance(p, S):
                flat.extend(p.parts)
            elif isinstance(p, (str, U)):
                flat.append(p)
            else:
                flat.append(U(self.tags(p, st), kind='str'))
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        if not out:
            return C('')
        if len(out) == 1 and isinstance(out[0], str):
            return C(out[0])
        return S(out)

    def ev_Tuple(self, e, st, act, rs):
        return [(v, s) for v, s in self.seq(e.elts, st, act, rs, e, 'tuple')]

    def seq(self, elts, st, act, rs, node, kind):
        """Display with possible starred parts."""
        outs = [([], None, st)]       # exact items, inexact elem, st
        for x in elts:
            nxt = []
            self.inflight.append(union_refs([y for items, el, _ in outs for y in items + [el]]))
            if isinstance(x, ast.Starred):
                for items, el, s in outs:
                    for v, s2 in self.ev(x.value, s, act, rs):
                        for lst, s3 in self.collect(v, s2, act, rs, x):
                            if lst[0] is not None and el is None:
                                nxt.append((items + list(lst[0]), None, s3))
                            else:
                                e2 = el
                                for y in (lst[0] or ()):
                                    e2 = y if e2 is None else join(e2, y)
                                if lst[0] is None:
                                    e2 = lst[1] if e2 is None else join(e2, lst[1])
                                for y in items:
                                    e2 = join(e2, y)
                                nxt.append((items, e2, s3))
            else:
                for items, el, s in outs:
                    for v, s2 in self.ev(x, s, act, rs):
                        if el is None:
                            nxt.append((items + [v], None, s2))
                        else:
                            nxt.append((items, join(el, v), s2))
            self.inflight.pop()
            outs = nxt
        res = []
        for items, el, s in outs:
            if el is None:
                if kind == 'tuple':
                    res.append((Tup(items), s))
                else:
                    res.append((self.newlist(s, act, node, items=items, kind=kind), s))
            else:
                res.append((self.newlist(s, act, node, elem=el, ne=bool(items), kind=kind), s))
        return res

    def ev_List(self, e, st, act, rs):
        return self.seq(e.elts, st, act, rs, e, 'list')

    def ev_Set(self, e, st, act, rs):
        return self.seq(e.elts, st, act, rs, e, 'set')

    def ev_Dict(self, e, st, act, rs):
        outs = [(Obj('dict', None, {}), st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for o, s in outs:
                if k is None:
                    for d, s2 in self.ev(v, s, act, rs):
                        nxt.append((self.dict_update(o, d, s2), s2))
                else:
                    for (kv, vv), s2 in self.evs([k, v], s, act, rs):
                        nxt.append((self.dict_set(o, kv, vv), s2))
            outs = nxt
        return [(self.alloc(s, act, e, o, 'dict'), s) for o, s in outs]

    def dict_set(self, o, k, v):
        if isinstance(k, C):
            return o.setitems({('k', k.v): v})
        r = o.attrs.get('rest')
        kt = tags_of(k)
        if kt:
            o = o.addtags(kt)
        return o.setitems({'rest': v if r is None else join(r, v), 'ne': True})

    def dict_update(self, o, d, st):
        if isinstance(d, Ref):
            od = self.hget(st, d)
            if od is not None and od.kind in ('dict', 'counter'):
                for k, v in od.attrs.items():
                    if isinstance(k, tuple) and k[0] == 'k':
                        o = o.setitems({k: v})
                if od.attrs.get('rest') is not None:
                    r = o.attrs.get('rest')
                    o = o.setitems({'rest': od.attrs['rest'] if r is None else join(r, od.attrs['rest'])})
                return o.addtags(od.tags)
        r = o.attrs.get('rest')
        e = U(self.tags(d, st))
        return o.setitems({'rest': e if r is None else join(r, e)})

    def ev_Attribute(self, e, st, act, rs):
        out = []
        for v, s in self.ev(e.value, st, act, rs):
            out += self.getattr(v, e.attr, s, act, rs, e)
        return out

    def getattr(self, v, name, st, act, rs, node):
        proj = self.proj
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is None:
                return [(U(), st)]
            if o.kind == 'inst' and o.cls is not None:
                if name in o.attrs:
                    return [(o.attrs[name], st)]
                fi = proj.find_method(o.cls, name)
                if fi is not None:
                    if fi.is_prop:
                        return self.call_fn(Fn(fi, v), [], {}, st, act, rs, node)
                    return [(self.bind_method(fi, v, o.cls), st)]
                ca = proj.find_class_attr(o.cls, name)
                if ca is not None:
                    return [(self.global_expr(ca[0].module, ca[1], f'{ca[0].name}.{name}'), st)]
                if name == '__class__':
                    return [(Cls(o.cls), st)]
                if name == '__dict__':
                    return [(U(), st)]
                _, ext = proj.mro(o.cls)
                if '*lazy' in o.attrs:
                    nv = U(sym=('attr', v.id, name), tags=self.monitor.lazy_tags(o, name))
                    st.heap[v.id] = o.setitems({name: nv})
                    return [(nv, st)]
                if proj.find_method(o.cls, '__getattr__'):
                    return [(U(), st)]
                if ext and ext != ['object']:
                    return [(Ext('?.' + name, v), st)]
                return [(U(tags=o.tags), st)]
            if o.kind in LISTS or o.kind in ('dict', 'counter', 'cursor', 'conn', 'ext'):
                if o.kind == 'cursor' and name == 'connection':
                    return [(o.attrs.get('conn', U()), st)]
                if o.kind == 'conn' and name == 'in_transaction':
                    return [(o.attrs.get('tx', FALSE), st)]
                if name in o.attrs and isinstance(name, str) and o.kind == 'ext':
                    return [(o.attrs[name], st)]
                if o.kind == 'cursor' and name == 'lastrowid':
                    return [(U(tags_of(o.attrs.get('ins') or U()), kind='int', truth=True), st)]
                return [(Ext(f'{o.kind}.{name}', v), st)]
            return [(U(o.tags), st)]
        if isinstance(v, Mod):
            g = st.fr.get(('mod', v.m.name))
            if g and name in g:
                return [(g[name], st)]
            return [(self.global_name(v.m, name, st), st)]
        if isinstance(v, Cls):
            fi = proj.find_method(v.ci, name)
            if fi is not None:
                if fi.kind == 'class':
                    return [(Fn(fi, v), st)]
                return [(Fn(fi), st)]
            ca = proj.find_class_attr(v.ci, name)
            if ca is not None:
                return [(self.global_expr(ca[0].module, ca[1], f'{ca[0].name}.{name}'), st)]
            if name == '__name__':
                return [(C(v.ci.name), st)]
            return [(Ext('cls.' + name, v), st)]
        if isinstance(v, Ext):
            if v.self_ is None:
                return [(self.ext_const(f'{v.name}.{name}'), st)]
            return [(U(), st)]
        if isinstance(v, (C, S)):
            k = kind_of(v) or 'obj'
            if isinstance(v, C) and v.v is None:
                rs.append((ExcV('AttributeError', None, self.where(node, act)), st))
                return []
            return [(Ext(f'{k}.{name}', v), st)]
        if isinstance(v, Tup):
            return [(Ext('tuple.' + name, v), st)]
        if isinstance(v, U):
            if v.kind == 'str':
                return [(Ext('str.' + name, v), st)]
            if v.sym and v.sym[0] == 'super':
                return self.super_attr(v, name, st, act, rs, node)
            return [(U(v.tags, sym=('umeth', name, v)), st)]
        if isinstance(v, Fn):
            if name == '__name__':
                return [(C(v.fi.name), st)]
            return [(U(), st)]
        if isinstance(v, ExcV):
            if name == 'args':
                return [(U(self.tags(v.msg, st) if isinstance(v.msg, V) else EMPTY), st)]
            return [(Ext('exc.' + name, v), st)]
        if isinstance(v, (GenV, ItV)):
            return [(Ext('gen.' + name, v), st)]
        return [(U(), st)]

    def super_attr(self, v, name, st, act, rs, node):
        _, ci, obj = v.sym
        target = None
        if isinstance(obj, Ref):
            o = self.hget(st, obj)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                target = o.cls
        elif isinstance(obj, Cls):
            target = obj.ci
        if target is not None:
            fi = self.proj.find_method(target, name, after=ci)
            if fi is not None:
                if fi.is_prop:
                    return self.call_fn(Fn(fi, obj), [], {}, st, act, rs, node)
                return [(self.bind_method(fi, obj, target), st)]
        return [(Ext('super.' + name, obj), st)]

    def bind_method(self, fi, v, ci):
        if fi.kind == 'static':
            return Fn(fi)
        if fi.kind == 'class':
            return Fn(fi, Cls(ci))
        return Fn(fi, v)

    def ev_Subscript(self, e, st, act, rs):
        out = []
        for v, s in self.ev(e.value, st, act, rs):
            if isinstance(e.slice, ast.Slice):
                lo = hi = None
                parts = [x for x in (e.slice.lower, e.slice.upper) if x is not None]
                for vals, s2 in self.evs(parts, s, act, rs):
                    vals = list(vals)
                    lo = vals.pop(0) if e.slice.lower is not None else None
                    hi = vals.pop(0) if e.slice.upper is not None else None
                    out.append((self.slice(v, lo, hi, s2, act, e), s2))
            else:
                for i, s2 in self.ev(e.slice, s, act, rs):
                    out += self.subscript(v, i, s2, act, rs, e)
        return out

    def slice(self, v, lo, hi, st, act, node):
        def num(x):
            return x.v if isinstance(x, C) and (x.v is None or isinstance(x.v, int)) else CLASH
        a = None if lo is None else num(lo)
        b = None if hi is None else num(hi)
        known = a is not CLASH and b is not CLASH and getattr(node.slice, 'step', None) is None
        if isinstance(v, C) and isinstance(v.v, (str, bytes, tuple)):
            if known:
                return C(v.v[a:b])
            return U(kind=kind_of(v))
        if isinstance(v, Tup):
            if known:
                return Tup(v.items[a:b])
            e = None
            for x in v.items:
                e = x if e is None else join(e, x)
            return self.newlist(st, act, node, elem=e or U(), kind='tuple')
        if isinstance(v, S):
            return U(self.tags(v, st), kind='str')
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is not None and o.kind in LISTS:
                if 'exact' in o.attrs and known:
                    return self.newlist(st, act, node, items=o.attrs['exact'].items[a:b], kind=o.kind, tags=o.tags)
                e, ne = list_elem(o)
                t = EMPTY
                if a == 1 and b is None:
                    t = frozenset(['slice1', 'part', 'slice2'] if 'slice1' in self.tags(v, st) else ['slice1', 'part'])
                elif lo is not None or hi is not None:
                    t = frozenset(['part'])
                if t and self.monitor.mark_order and e is not None:
                    e = self.models.mark(e, f'part:{a}:{b}')
                return self.newlist(st, act, node, elem=e or U(), kind=o.kind, tags=o.tags | t)
        if isinstance(v, U):
            if self.monitor.mark_order and v.kind != 'row' and (lo is not None or hi is not None):
                return v.with_(tags=v.tags | {f'part:{a}:{b}'})
            extra = frozenset([f'slice:{a}']) if v.kind == 'row' and isinstance(a, int) else EMPTY
            return U(v.tags | extra, kind=v.kind)
        return U(self.tags(v, st))

    def subscript(self, v, i, st, act, rs, node):
        if isinstance(v, Tup):
            if isinstance(i, C) and isinstance(i.v, int):
                try:
                    return [(v.items[i.v], st)]
                except IndexError:
                    rs.append((ExcV('IndexError', None, self.where(node, act)), st))
                    return []
            e = None
            for x in v.items:
                e = x if e is None else join(e, x)
            return [(e or U(), st)]
        if isinstance(v, C):
            if isinstance(i, C) and isinstance(v.v, (str, bytes, tuple)):
                try:
                    return [(C(v.v[i.v]), st)]
                except Exception:
                    rs.append((ExcV('IndexError', None, self.where(node, act)), st))
                    return []
            if v.v is None or isinstance(v.v, (bool, int, float)):
                rs.append((ExcV('TypeError', None, self.where(node, act)), st))
                return []
            return [(U(self.tags(i, st)), st)]
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is None:
                return [(U(), st)]
            if o.kind in LISTS:
                if 'exact' in o.attrs and isinstance(i, C) and isinstance(i.v, int):
                    try:
                        return [(o.attrs['exact'].items[i.v], st)]
                    except IndexError:
                        rs.append((ExcV('IndexError', None, self.where(node, act)), st))
                        return []
                e, ne = list_elem(o)
                self.lex_raise(('IndexError',), st, act, rs, node)
                return [(e if e is not None else U(o.tags), st)]
            if o.kind == 'counter':
                if isinstance(i, C):
                    x = o.attrs.get(('k', i.v))
                    if x is None:
                        x = o.attrs.get('rest')
                        x = C(0) if x is None else x
                    return [(x, st)]
                return [(U(kind='count'), st)]
            if o.kind == 'dict':
                return self.dict_get(v, o, i, st, act, rs, node)
            if o.kind == 'inst' and o.cls is not None:
                fi = self.proj.find_method(o.cls, '__getitem__')
                if fi is not None:
                    return self.call_fn(Fn(fi, v), [i], {}, st, act, rs, node)
            return [(U(o.tags), st)]
        if isinstance(v, U):
            t = v.tags
            nn, k = False, None
            if v.kind == 'row' and isinstance(i, C) and isinstance(i.v, int):
                t = t | {f'pos:{i.v}'}
                nn, k = nn_at(row_nn(v), i.v), kind_at(row_nn(v), i.v)
            self.lex_raise(('KeyError', 'IndexError', 'TypeError'), st, act, rs, node)
            r = U(t | self.tags(i, st), truth=None, notnone=nn, kind=k)
            return [(self.monitor.on_subscript(v, i, r, st), st)]
        if isinstance(v, Cls) or isinstance(v, Ext):
            return [(v, st)]      # typing subscripts
        return [(U(self.tags(v, st)), st)]

    def dict_get(self, ref, o, k, st, act, rs, node):
        if isinstance(k, C):
            x = o.attrs.get(('k', k.v))
            if x is not None:
                return [(x, st)]
            rest = o.attrs.get('rest')
            if rest is not None:
                self.lex_raise(('KeyError',), st, act, rs, node)
                return [(rest, st)]
            if 'default' in o.attrs:
                return self.dict_default(ref, o, k, st, act, rs, node)
            rs.append((ExcV('KeyError', None, self.where(node, act)), st))
            return []
        if 'default' in o.attrs:
            vals = [x for kk, x in o.attrs.items() if isinstance(x, V) and kk not in ('default',)]
            if not vals:
                return self.dict_default(ref, o, k, st, act, rs, node)
            return [(vals[0], st)] if len(vals) == 1 else [(self.joinall(vals), st)]
        vals = [x for kk, x in o.attrs.items() if isinstance(x, V) and (kk == 'rest' or isinstance(kk, tuple))]
        if not vals:
            if not o.tags:
                rs.append((ExcV('KeyError', None, self.where(node, act)), st))
                return []
            return [(U(o.tags), st)]
        self.lex_raise(('KeyError',), st, act, rs, node)
        return [(self.joinall(vals), st)]

    def dict_default(self, ref, o, k, st, act, rs, node):
        f = o.attrs['default']
        out = []
        for v, s in self.call(f, [], {}, st, act, rs, node):
            s.heap[ref.id] = self.dict_set(self.hget(s, ref), k, v)
            out.append((v, s))
        return out

    def joinall(self, vals):
        r = vals[0]
        for x in vals[1:]:
            r = join(r, x)
        return r

    def ev_Starred(self, e, st, act, rs):
        return self.ev(e.value, st, act, rs)

    def ev_NamedExpr(self, e, st, act, rs):
        out = []
        for v, s in self.ev(e.value, st, act, rs):
            self.setvar(s, act, e.target.id, v)
            out.append((v, s))
        return out

    def ev_UnaryOp(self, e, st, act, rs):
        if isinstance(e.op, ast.Not):
            return [(C(not b), s) for b, s in self.branch(e.operand, st, act, rs)]
        out = []
        for v, s in self.ev(e.operand, st, act, rs):
            if isinstance(v, C):
                try:
                    out.append((C(-v.v if isinstance(e.op, ast.USub) else
                                  (~v.v if isinstance(e.op, ast.Invert) else +v.v)), s))
                    continue
                except Exception:
                    pass
            out.append((U(self.tags(v, s), kind=kind_of(v)), s))
        return out

    def ev_BoolOp(self, e, st, act, rs):
        isand = isinstance(e.op, ast.And)
        outs = []
        cur = [st]
        for idx, x in enumerate(e.values):
            nxt = []
            last = idx == len(e.values) - 1
            for s in cur:
                for v, s2 in self.ev(x, s, act, rs):
                    if last:
                        outs.append((v, s2))
                        continue
                    for b, rv, s3 in self.split(v, s2, x, act):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            outs.append((rv, s3))
            cur = nxt
        return outs

    def ev_Compare(self, e, st, act, rs):
        return [(C(b) if b is not None else U(kind='bool'), s) for b, s in self.compare(e, st, act, rs, False)]

    def ev_IfExp(self, e, st, act, rs):
        out = []
        if self.monitor.tag_ifexp and isinstance(e.body, ast.Constant) and isinstance(e.orelse, ast.Constant):
            # keep where the choice between two constants came from
            for tv, s in self.ev(e.test, st, act, rs):
                for b, _, s2 in self.split(tv, s, e.test, act):
                    c = (e.body if b else e.orelse).value
                    t = self.tags(tv, s2)
                    out.append((U(t, truth=bool(c), notnone=c is not None) if t else C(c), s2))
            return out
        for b, s in self.branch(e.test, st, act, rs):
            out += self.ev(e.body if b else e.orelse, s, act, rs)
        return out

    def ev_Lambda(self, e, st, act, rs):
        fi = self._synth.get(id(e))
        if fi is None:
            fi = FuncInfo('<lambda>', e, act.mod, None, (act.fi.qualname + '.' if act.fi else '') + '<lambda>')
            fi.cond = None
            self._synth[id(e)] = fi
        return [(Fn(fi, None, (act.fid,) + tuple(act.env or ())), st)]

    def ev_Yield(self, e, st, act, rs):
        out = []
        if e.value is None:
            vals = [(NONE, st)]
        else:
            vals = self.ev(e.value, st, act, rs)
        for v, s in vals:
            out += self.do_yield(v, s, act, rs)
        return out

    def do_yield(self, v, s, act, rs):
        out = []
        if act.on_yield is None:
            return [(U(), s)]
        for kind, payload, s2 in act.on_yield(v, s):
            if kind == 'resume':
                out.append((payload, s2))
            elif kind == 'throw':
                rs.append((payload, s2))
            else:
                rs.append((ExcV('GeneratorExit'), s2))
        return out

    def ev_YieldFrom(self, e, st, act, rs):
        out = []
        for v, s in self.ev(e.value, st, act, rs):
            for kind, s2 in self.iterate(v, s, act, rs, act.on_yield, e):
                if kind == 'done':
                    out.append((NONE, s2))
                else:
                    rs.append((ExcV('GeneratorExit'), s2))
        return out

    def ev_Await(self, e, st, act, rs):
        return self.ev(e.value, st, act, rs)

    # comprehensions ------------------------------------------------------
    def comp_fi(self, e, act):
        fi = self._synth.get(id(e))
        if fi is not None:
            return fi
        if isinstance(e, ast.DictComp):
            elt = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        else:
            elt = e.elt
        body = [ast.Expr(value=ast.Yield(value=elt))]
        gens = list(e.generators)
        for i, g in enumerate(reversed(gens)):
            first = i == len(gens) - 1
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            it = ast.Name(id='.0', ctx=ast.Load()) if first else g.iter
            body = [ast.For(target=g.target, iter=it, body=body, orelse=[])]
        fn = ast.FunctionDef(name='<genexp>', args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg='.0')], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[])
        ast.copy_location(fn, e)
        for n in ast.walk(fn):
            if not hasattr(n, 'lineno'):
                ast.copy_location(n, e)
        fi = FuncInfo('<genexp>', fn, act.mod, None, (act.fi.qualname if act.fi else '') + '.<genexp>')
        fi.is_gen = True
        fi.cond = None
        self._synth[id(e)] = fi
        return fi

    def comp_gen(self, e, st, act, rs):
        fi = self.comp_fi(e, act)
        out = []
        for v, s in self.ev(e.generators[0].iter, st, act, rs):
            if isinstance(v, Ref):
                self.monitor.on_lazy(v, s, act, e)
            out.append((GenV(fi, (('.0', v),), (act.fid,) + tuple(act.env or ()), (act.fid, id(e))), s))
        return out

    def ev_GeneratorExp(self, e, st, act, rs):
        return self.comp_gen(e, st, act, rs)

    def ev_ListComp(self, e, st, act, rs):
        out = []
        for g, s in self.comp_gen(e, st, act, rs):
            out += self.to_list(g, s, act, rs, e, 'list')
        return out

    def ev_SetComp(self, e, st, act, rs):
        out = []
        for g, s in self.comp_gen(e, st, act, rs):
            out += self.to_list(g, s, act, rs, e, 'set')
        return out

    def ev_DictComp(self, e, st, act, rs):
        out = []
        for g, s in self.comp_gen(e, st, act, rs):
            out += self.to_dict(g, s, act, rs, e)
        return out

    def to_list(self, it, st, act, rs, node, kind='list', extra=None):
        """Consume an iterable into a new list-like object."""
        if isinstance(it, Tup):
            return [(self.newlist(st, act, node, items=it.items, kind=kind, extra=extra), st)]
        if isinstance(it, Ref):
            o = self.hget(st, it)
            if o is not None and o.kind in LISTS:
                return [(self.alloc(st, act, node, Obj(kind, None, dict(o.attrs), o.tags), (kind, extra)), st)]
        if isinstance(it, U):
            return [(self.newlist(st, act, node, elem=elem_u(it), kind=kind, extra=extra, tags=it.tags), st)]
        ref = self.newlist(st, act, node, items=(), kind=kind, extra=('c', extra))
        name = f'.acc{id(node)}'
        st.fr[act.fid] = {**st.fr.get(act.fid, {}), name: ref}

        def on(v, s):
            r = s.fr[act.fid].get(name, ref)
            self.list_append(s, r, v)
            return [('resume', NONE, s)]
        states = []
        for k, s in self.iterate(it, st, act, rs, on, node):
            vs = dict(s.fr.get(act.fid, {}))
            vs.pop(name, None)
            s.fr[act.fid] = vs
            states.append(s)
        return [(ref, s) for s in self.join_acc(states, ref)]

    def join_acc(self, states, ref):
        """Join the states that differ only in accumulator *ref*."""
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            o = s.heap.pop(ref.id, None)
            k = self.key(s)
            if k in groups:
                g = groups[k]
                if o is not None:
                    g[1] = o if g[1] is None else self.join_obj(g[1], o)
                    # the elements live in the heap of their own state
                    todo, seen = list(o.refs()[0]), set()
                    while todo:
                        i = todo.pop()
                        x = s.heap.get(i)
                        if i in seen or x is None or i == ref.id:
                            continue
                        seen.add(i)
                        y = g[0].heap.get(i)
                        if y is None:
                            g[0].heap[i] = x
                        elif y is not x:
                            g[0].heap[i] = self.join_obj(y, x)
                        todo += x.refs()[0]
            else:
                groups[k] = [s, o]
        out = []
        for s, o in groups.values():
            if o is not None:
                s.heap[ref.id] = o
            out.append(s)
        return out

    def to_dict(self, it, st, act, rs, node, base=None):
        ref = self.alloc(st, act, node, base or Obj('dict', None, {}), 'dictc')
        name = f'.acc{id(node)}'
        st.fr[act.fid] = {**st.fr.get(act.fid, {}), name: ref}

        def on(v, s):
            res = []
            for (a, b), s2 in self.unpack(v, 2, s, act):
                o = self.hget(s2, ref)
                s2.heap[ref.id] = self.dict_set(o, a, b)
                res.append(('resume', NONE, s2))
            return res
        states = []
        for k, s in self.iterate(it, st, act, rs, on, node):
            vs = dict(s.fr.get(act.fid, {}))
            vs.pop(name, None)
            s.fr[act.fid] = vs
            states.append(s)
        return [(ref, s) for s in self.join_acc(states, ref)]

    def collect(self, v, st, act, rs, node):
        """-> [((exact items | None, elem), st)]"""
        if isinstance(v, Tup):
            return [((v.items, None), st)]
        if isinstance(v, C) and isinstance(v.v, (tuple, str)):
            return [((tuple(C(x) for x in v.v), None), st)]
        if isinstance(v, U):
            return [((None, U(v.tags | ({'star'} if v.kind == 'row' else EMPTY))), st)]
        out = []
        for ref, s in self.to_list(v, st, act, rs, node, 'tuple', 'star'):
            o = self.hget(s, ref)
            if 'exact' in o.attrs:
                out.append(((o.attrs['exact'].items, None), s))
            else:
                out.append(((None, list_elem(o)[0] or U(o.tags)), s))
        return out

    def list_append(self, st, ref, v):
        o = self.hget(st, ref)
        if o is None:
            return
        self.monitor.on_collect(v, st)
        t = EMPTY
        if 'exact' in o.attrs:
            items = o.attrs['exact'].items
            if o.kind == 'set' and v in items and isinstance(v, C):
                return
            if len(items) < 8 and self.depth <= o.attrs.get('d', 0):
                st.heap[ref.id] = o.setitems({'exact': Tup(items + (v,))})
                return
            t = self.monitor.absorbed(v, st)
            for x in items:
                t = t | self.monitor.absorbed(x, st)
            e = items[0] if items else v
            for x in items[1:]:
                e = self.join_v(e, x, st.heap)
            if items:
                e = self.join_v(e, v, st.heap)
            a = {k: x for k, x in o.attrs.items() if k not in ('exact', 'd')}
            a.update(elem=e, ne=True)
            st.heap[ref.id] = Obj(o.kind, o.cls, a, o.tags | t)
            return
        e = o.attrs.get('elem')
        o2 = o.setitems({'elem': v if e is None else self.join_v(e, v, st.heap), 'ne': True})
        t = self.monitor.absorbed(v, st)
        st.heap[ref.id] = Obj(o2.kind, o2.cls, o2.attrs, o2.tags | t) if t else o2

    # binary operators ----------------------------------------------------
    def ev_BinOp(self, e, st, act, rs):
        out = []
        name = SET_OPS.get(type(e.op))
        for (a, b), s in self.evs([e.left, e.right], st, act, rs):
            if name and self.monitor.watches(name):
                q = self.seq_of(a, s)
                if q is not None and q[2] in ('set', 'frozenset') or isinstance(b, Ref):
                    r = self.monitor.on_call(name, Ext(name, a), [b], {}, s, act, e, rs)
                    if r is not None:
                        out += r
                        continue
            out.append((self.binop(e.op, a, b, s, act, e, rs=rs), s))
        return out

    def binop(self, op, a, b, st, act, node, aug=False, rs=None):
        if isinstance(a, C) and isinstance(b, C) and not aug:
            try:
                return C(self._fold(op, a.v, b.v))
            except Exception:
                return U()
        if isinstance(op, ast.Add):
            ka, kb = kind_of(a), kind_of(b)
            if ka == 'str' or kb == 'str':
                return self.mkstr((a, b), st)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            la, lb = self.seq_of(a, st), self.seq_of(b, st)
            if la is not None and lb is not None:
                kind = 'tuple' if 'tuple' in (la[2], lb[2]) else 'list'
                if la[0] is not None and lb[0] is not None:
                    if kind == 'tuple':
                        return Tup(tuple(la[0]) + tuple(lb[0]))
                    return self.newlist(st, act, node, items=tuple(la[0]) + tuple(lb[0]), kind=kind, tags=la[3] | lb[3])
                parts = list(la[0] or ()) + list(lb[0] or ()) + [x for x in (la[1], lb[1]) if x is not None]
                ne = bool(la[0]) or bool(lb[0])
                t = la[3] | lb[3]
                for x in parts:
                    t = t | self.monitor.absorbed(x, st)
                ref = self.newlist(st, act, node, elem=self.joinall(parts) if parts else U(), ne=ne, kind=kind, tags=t)
                if kind == 'tuple':
                    h, t = self.ends(a, la, st)[0], self.ends(b, lb, st)[1]
                    if la[0] is not None:
                        h = tuple(la[0]) + tuple(self.ends(b, lb, st)[0])
                    if lb[0] is not None:
                        t = tuple(self.ends(a, la, st)[1]) + tuple(lb[0])
                    o = st.heap[ref.id]
                    if o.attrs.get('elem') is not None and (h or t):
                        st.heap[ref.id] = o.setitems({'head': Tup(h), 'tail': Tup(t)})
                return ref
            if (ka in ('int', 'count', 'bool') and kb in ('int', 'count', 'bool')):
                pa, pb = self.sign(a), self.sign(b)
                sym = ('len+1',) if b == C(1) and isinstance(a, U) and a.sym == ('len',) else None
                return U(self.tags(a, st) | self.tags(b, st), truth=True if (pa and pb and 2 in (pa, pb)) else None,
                         kind='count' if pa and pb else 'int', sym=sym)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if kind_of(x) == 'str' and isinstance(x, C):
                    return U(self.tags(y, st), kind='str', sym=('rep', x.v))
                lx = self.seq_of(x, st)
                if lx is not None:
                    el = list(lx[0] or ()) + ([lx[1]] if lx[1] is not None else [])
                    if not el:
                        return x
                    return self.newlist(st, act, node, elem=self.joinall(el), kind=lx[2], tags=lx[3])
        if isinstance(op, ast.Mod) and kind_of(a) == 'str':
            return U(self.tags(a, st) | self.tags(b, st) | {'fmt'}, kind='str')
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            la, lb = self.seq_of(a, st), self.seq_of(b, st)
            if la is not None and lb is not None and la[0] is not None and lb[0] is not None and \
                    all(isinstance(x, C) for x in (*la[0], *lb[0])):
                if isinstance(op, ast.BitOr):
                    items = list(dict.fromkeys([*la[0], *lb[0]]))
                else:
                    items = [x for x in la[0] if (x in lb[0]) is isinstance(op, ast.BitAnd)]
                return self.newlist(st, act, node, items=items, kind='set', tags=la[3] | lb[3])
            if la is not None and lb is not None:
                parts = list(la[0] or ()) + ([la[1]] if la[1] is not None else [])
                if isinstance(op, ast.BitOr):
                    parts += list(lb[0] or ()) + ([lb[1]] if lb[1] is not None else [])
                return self.newlist(st, act, node, elem=self.joinall(parts) if parts else U(), kind='set',
                                    ne=isinstance(op, ast.BitOr) and (self.seq_ne(a, st) or self.seq_ne(b, st)),
                                    tags=la[3] | lb[3])
        if rs is not None and act.lexcatch:
            names = ('ZeroDivisionError',) if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)) else ('TypeError',)
            self.lex_raise(names + ('OverflowError',), st, act, rs, node)
        t = self.tags(a, st) | self.tags(b, st)
        k = None
        ka, kb = kind_of(a), kind_of(b)
        if ka in ('int', 'count') and kb in ('int', 'count'):
            k = 'int'
        elif ka in ('int', 'count', 'float') and kb in ('int', 'count', 'float'):
            k = 'float'
        return U(t, kind=k)

    def ends(self, v, seq, st):
        """Known items at the start and at the end of a partly known tuple."""
        if seq[0] is not None:
            return tuple(seq[0]), tuple(seq[0])
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is not None and o.kind == 'tuple' and 'head' in o.attrs:
                return o.attrs['head'].items, o.attrs['tail'].items
        return (), ()

    def sign(self, v):
        """1: >= 0, 2: > 0, 0: unknown"""
        if isinstance(v, C):
            try:
                return 2 if v.v > 0 else (1 if v.v == 0 else 0)
            except TypeError:
                return 0
        if isinstance(v, U) and v.kind == 'count':
            return 2 if v.truth is True else 1
        return 0

    def seq_ne(self, v, st):
        """Is the sequence known to have an element?"""
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is not None and o.kind in LISTS:
                return bool(o.attrs['exact'].items) if 'exact' in o.attrs else bool(o.attrs.get('ne'))
        return False

    def seq_of(self, v, st):
        if isinstance(v, Tup):
            return (v.items, None, 'tuple', EMPTY)
        if isinstance(v, C) and isinstance(v.v, tuple):
            return (tuple(C(x) for x in v.v), None, 'tuple', EMPTY)
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is not None and o.kind in LISTS:
                if 'exact' in o.attrs:
                    return (o.attrs['exact'].items, None, o.kind, o.tags)
                return (None, o.attrs.get('elem') or U(), o.kind, o.tags)
            return None
        if isinstance(v, U) and v.kind in ('row', 'list', None):
            return (None, U(v.tags), 'tuple' if v.kind == 'row' else 'list', EMPTY)
        return None

    def _fold(self, op, a, b):
        t = type(op)
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.Mult:
            r = a * b
            if isinstance(r, (str, bytes)) and len(r) > 5000:
                raise ValueError
            return r
        if t is ast.Div:
            return a / b
        if t is ast.FloorDiv:
            return a // b
        if t is ast.Mod:
            return a % b
        if t is ast.BitOr:
            return a | b
        if t is ast.BitAnd:
            return a & b
        if t is ast.BitXor:
            return a ^ b
        if t is ast.LShift and b < 200:
            return a << b
        if t is ast.RShift:
            return a >> b
        raise ValueError

    # --------------------------------------------------------- branching
    def split(self, v, st, expr, act):
        """Fork on truthiness -> [(bool, refined value, st)]"""
        t = truth(v, st, self)
        if t is not None:
            return [(t, v, st)]
        s2 = st.fork()
        tv, fv = v, v
        if isinstance(v, U):
            tv = v.with_(truth=True)
            fv = v.with_(truth=False)
            if v.kind in ('count',) or (v.kind == 'int'):
                fv = C(0)
            elif v.kind == 'bool':
                tv, fv = TRUE, FALSE
            elif v.kind == 'str':
                fv = C('')
        elif isinstance(v, Ref):
            o = self.hget(st, v)
            if o is not None and o.kind in LISTS:
                st.heap[v.id] = o.setitems({'ne': True})
                s2.heap[v.id] = Obj(o.kind, o.cls, {'exact': Tup(())}, o.tags)
            elif o is not None and o.kind in ('dict', 'counter') and o.attrs.get('rest') is not None:
                st.heap[v.id] = o.setitems({'ne': True})
                s2.heap[v.id] = o.drop('rest').drop('ne')
        self.refine(expr, v, tv, st, act)
        self.refine(expr, v, fv, s2, act)
        return [(True, tv, st), (False, fv, s2)]

    def refine(self, expr, old, new, st, act):
        if old is new or not isinstance(old, U):
            return
        if old.sym is not None and old.sym[0] in ('param', 'attr', 'fact'):
            self.replace_all(st, old, new)
            return
        if isinstance(expr, ast.NamedExpr):
            self.setvar(st, act, expr.target.id, new)
        elif isinstance(expr, ast.Name):
            vs = st.fr.get(act.fid)
            if vs is not None and expr.id in vs:
                if vs[expr.id] == old:
                    st.fr[act.fid] = {**vs, expr.id: new}
            else:
                for f in act.env or ():
                    vs = st.fr.get(f)
                    if vs is not None and expr.id in vs:
                        if vs[expr.id] == old:
                            st.fr[f] = {**vs, expr.id: new}
                        break
        elif isinstance(expr, ast.Attribute):
            outs = self.peek(expr.value, st, act)
            if isinstance(outs, Ref):
                o = self.hget(st, outs)
                if o is not None and o.kind == 'inst' and o.attrs.get(expr.attr) == old:
                    st.heap[outs.id] = o.setitems({expr.attr: new})
        elif isinstance(expr, ast.Subscript) and not isinstance(expr.slice, ast.Slice):
            b = self.peek(expr.value, st, act)
            i = self.peek(expr.slice, st, act)
            if isinstance(b, Ref) and isinstance(i, C):
                o = self.hget(st, b)
                if o is not None and o.kind in ('dict', 'counter') and \
                        (('k', i.v) in o.attrs or o.attrs.get('rest') is not None):
                    st.heap[b.id] = o.setitems({('k', i.v): new})

    def peek(self, expr, st, act):
        """Evaluate a side-effect free expression (Name/Attribute/Constant) or None."""
        if isinstance(expr, ast.Name):
            v = self.lookup(expr.id, st, act)
            return None if v is CLASH else v
        if isinstance(expr, ast.Constant):
            return C(expr.value)
        if isinstance(expr, ast.Attribute):
            b = self.peek(expr.value, st, act)
            if isinstance(b, Ref):
                o = self.hget(st, b)
                if o is not None and o.kind == 'inst':
                    return o.attrs.get(expr.attr)
        return None

    def replace_all(self, st, old, new):
        for f, vs in list(st.fr.items()):
            if any(v == old for v in vs.values() if isinstance(v, U)):
                st.fr[f] = {k: (new if v == old else v) for k, v in vs.items()}
        for i, o in list(st.heap.items()):
            if o.kind in ('inst', 'ext', 'dict') and any(v == old for v in o.attrs.values() if isinstance(v, U)):
                st.heap[i] = Obj(o.kind, o.cls, {k: (new if isinstance(v, U) and v == old else v)
                                                 for k, v in o.attrs.items()}, o.tags)

    def branch(self, e, st, act, rs):
        """-> [(bool, st)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [st], []
            for idx, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for b, s2 in self.branch(x, s, act, rs):
                        if b == isand and idx < len(e.values) - 1:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.branch(e.operand, st, act, rs)]
        if isinstance(e, ast.Compare):
            out = []
            for b, s in self.compare(e, st, act, rs, True):
                self.monitor.on_atom(e, None, b, s, act)
                out.append((b, s))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2:
            out = []
            for (v, t), s in self.evs(e.args, st, act, rs):
                r = self.models.isinstance_(self, v, t, s)
                if r is not None:
                    out.append((r, s))
                    continue
                s2 = s.fork()
                if isinstance(v, U):
                    k = None
                    names = self.models.type_names(t, s, self)
                    if names and len(names) == 1:
                        k = {'str': 'str', 'int': 'int', 'float': 'float', 'bytes': 'bytes'}.get(next(iter(names)))
                    self.refine(e.args[0], v, v.with_(kind=k or v.kind, notnone=True), s, act)
                    self.refine(e.args[0], v, v.with_(excl=v.excl | {('type', n) for n in (names or ())}), s2, act)
                out.append((True, s))
                out.append((False, s2))
            return out
        out = []
        for v, s in self.ev(e, st, act, rs):
            for b, _, s2 in self.split(v, s, e, act):
                self.monitor.on_atom(e, v, b, s2, act)
                out.append((b, s2))
        return out

    def compare(self, e, st, act, rs, fork):
        """Evaluate a comparison; with *fork* unknown results fork with refinement."""
        if len(e.ops) > 1:
            # a < b < c
            outs = []
            for vals, s in self.evs([e.left] + e.comparators, st, act, rs):
                res = True
                for op, x, y in zip(e.ops, vals, vals[1:]):
                    r = self.cmp(op, x, y, s)
                    if r is False:
                        res = False
                        break
                    if r is None:
                        res = None
                if res is None and fork:
                    outs += [(True, s), (False, s.fork())]
                else:
                    outs.append((res, s))
            return outs
        op = e.ops[0]
        right = e.comparators[0]
        outs = []
        for (a, b), s in self.evs([e.left, right], st, act, rs):
            r = self.cmp(op, a, b, s)
            mon = self.monitor.on_compare(e, op, a, b, r, s, act)
            if r is not None and mon is None:
                outs.append((r, s))
                continue
            if not fork and mon is None and not self.refinable(op, a, b):
                outs.append((None, s))
                continue
            new = self.cmp_fork(e, op, e.left, right, a, b, s, act)
            if mon is not None:
                for bo, s2 in new:
                    mon(bo, s2)
            outs += new
        return outs

    def refinable(self, op, a, b):
        return isinstance(op, (ast.Is, ast.IsNot)) and isinstance(b, C)

    def cmp(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = None
            if isinstance(b, C) and isinstance(a, C):
                r = a.v is b.v if (a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool)) else a == b
            elif isinstance(b, C) and b.v is None:
                r = False if not_none(a) else None
                if isinstance(a, U) and not a.notnone and a.truth is True:
                    r = False
            elif isinstance(b, C) and isinstance(b.v, bool):
                if isinstance(a, U):
                    r = None
                elif not isinstance(a, C):
                    r = False
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = True if a.id == b.id else None
            elif isinstance(a, (Cls, Fn, Ext, Mod)) and isinstance(b, (Cls, Fn, Ext, Mod)):
                r = a == b
            if r is None:
                return None
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, st)
            if r is None:
                return None
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            if r is None:
                return None
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, C) and isinstance(b, C):
            try:
                return {ast.Lt: a.v < b.v, ast.LtE: a.v <= b.v, ast.Gt: a.v > b.v, ast.GtE: a.v >= b.v}[type(op)]
            except Exception:
                return None
        if isinstance(a, U) and a.kind == 'count' and isinstance(b, C) and b.v == 0:
            if isinstance(op, ast.Gt):
                return a.truth
            if isinstance(op, ast.GtE):
                return True
            if isinstance(op, ast.Lt):
                return False
            if isinstance(op, ast.LtE) and a.truth is not None:
                return not a.truth
        return None

    def eq(self, a, b, st):
        if isinstance(a, C) and isinstance(b, C):
            return a.v == b.v
        for x, y in ((a, b), (b, a)):
            if isinstance(x, U) and isinstance(y, C):
                if ('eq', y.v if not isinstance(y.v, (list, dict)) else None) in x.excl:
                    return False
                if y.v is None and x.notnone:
                    return False
                if x.truth is True and not y.v:
                    return False
                if x.truth is False and y.v and not isinstance(y.v, bool):
                    return False
                if x.kind == 'str' and not isinstance(y.v, str):
                    return False
                return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            rs = [self.eq(x, y, st) for x, y in zip(a.items, b.items)]
            if False in rs:
                return False
            return True if None not in rs else None
        if isinstance(a, S) and isinstance(b, C) or isinstance(b, S) and isinstance(a, C):
            return None
        if isinstance(a, (Cls, Fn, Mod)) and isinstance(b, (Cls, Fn, Mod)):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return True
        if (isinstance(a, C) and a.v is None and not_none(b)) or (isinstance(b, C) and b.v is None and not_none(a)):
            return False
        la, lb = self.seq_of(a, st) if not isinstance(a, U) else None, self.seq_of(b, st) if not isinstance(b, U) else None
        if la and lb and la[0] is not None and lb[0] is not None and la[2] != 'set':
            if len(la[0]) != len(lb[0]):
                return False
            r = [self.eq(x, y, st) for x, y in zip(la[0], lb[0])]
            if False in r:
                return False
            return True if None not in r else None
        return None

    def contains(self, a, b, st):
        items = None
        if isinstance(b, C) and isinstance(b.v, (str, bytes, tuple, frozenset)):
            if isinstance(a, C):
                try:
                    return a.v in b.v
                except TypeError:
                    return None
            if isinstance(b.v, tuple):
                items = [C(x) for x in b.v]
        elif isinstance(b, Tup):
            items = b.items
        elif isinstance(b, Ref):
            o = self.hget(st, b)
            if o is None:
                return None
            if o.kind in LISTS and 'exact' in o.attrs:
                items = o.attrs['exact'].items
            elif o.kind in ('dict', 'counter'):
                if isinstance(a, C):
                    if ('k', a.v) in o.attrs:
                        if o.kind == 'counter':
                            return truth(o.attrs[('k', a.v)])
                        return True
                    if o.attrs.get('rest') is None:
                        return False
                elif o.attrs.get('rest') is None and not any(isinstance(k, tuple) for k in o.attrs):
                    return False
                return None
        if items is not None:
            r = [self.eq(a, x, st) for x in items]
            if True in r:
                return True
            return None if None in r else False
        return None

    def cmp_fork(self, e, op, le, re_, a, b, st, act):
        s2 = st.fork()
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos, ngt = (st, s2) if not neg else (s2, st)
            for x, y, ex in ((a, b, le), (b, a, re_)):
                if isinstance(x, U) and isinstance(y, C):
                    if y.v is None:
                        self.refine(ex, x, NONE, pos, act)
                        self.refine(ex, x, x.with_(notnone=True), ngt, act)
                    elif isinstance(y.v, (str, int, bool, float, bytes)):
                        if isinstance(y.v, (int, float)) and not isinstance(op, (ast.Is, ast.IsNot)) and x.kind in ('int', 'count') and y.v == 0:
                            self.refine(ex, x, C(0), pos, act)
                            self.refine(ex, x, x.with_(truth=True), ngt, act)
                        else:
                            self.refine(ex, x, y if not x.tags or x.sym else x.with_(truth=bool(y.v), notnone=True, excl=x.excl), pos, act)
                            self.refine(ex, x, x.with_(excl=x.excl | {('eq', y.v)}), ngt, act)
            if isinstance(le, ast.Call) and isinstance(le.func, ast.Name) and le.func.id == 'len':
                pass
            return [(not neg, pos), (neg, ngt)] if True else None
        if isinstance(op, (ast.In, ast.NotIn)):
            pos, ngt = (st, s2) if not neg else (s2, st)
            items = None
            if isinstance(b, Tup):
                items = b.items
            elif isinstance(b, Ref):
                o = self.hget(st, b)
                if o is not None and o.kind in LISTS and 'exact' in o.attrs:
                    items = o.attrs['exact'].items
                elif o is not None and o.kind in ('counter', 'dict') and isinstance(a, C):
                    if o.kind == 'counter':
                        cur = o.attrs.get(('k', a.v)) or o.attrs.get('rest')
                        pos.heap[b.id] = o.setitems({('k', a.v): U(kind='count', truth=True)})
                        ngt.heap[b.id] = o.setitems({('k', a.v): C(0)})
                    elif o.attrs.get('rest') is not None:
                        pos.heap[b.id] = o.setitems({('k', a.v): o.attrs['rest']})
            if isinstance(a, U) and items is not None and items and all(isinstance(x, C) for x in items):
                outs = []
                ok = [x for x in items if self.eq(a, x, st) is not False]
                for i, x in enumerate(ok):
                    p = pos if i == len(ok) - 1 else pos.fork()
                    self.refine(le, a, x if (not a.tags or a.sym) else a.with_(truth=bool(x.v)), p, act)
                    outs.append((not neg, p))
                nv = a.with_(excl=a.excl | {('eq', x.v) for x in items})
                self.refine(le, a, nv, ngt, act)
                outs.append((neg, ngt))
                return outs
            return [(not neg, pos), (neg, ngt)]
        if isinstance(op, (ast.Gt, ast.Lt, ast.GtE, ast.LtE)) and isinstance(a, U) and a.kind == 'count' \
                and isinstance(b, C) and b.v == 0:
            if isinstance(op, ast.Gt):
                self.refine(le, a, a.with_(truth=True), st, act)
                self.refine(le, a, C(0), s2, act)
        return [(True, st), (False, s2)]

    # -------------------------------------------------------------- calls
    def ev_Call(self, e, st, act, rs):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super':
            outs = []
            for vals, s in self.evs(e.args, st, act, rs):
                if vals:
                    ci = vals[0].ci if isinstance(vals[0], Cls) else None
                    obj = vals[1] if len(vals) > 1 else NONE
                else:
                    ci = act.fi.cls
                    a = act.fi.node.args
                    first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
                    obj = s.fr.get(act.fid, {}).get(first, NONE)
                    if first is None:
                        for fidx in act.env:
                            if 'self' in s.fr.get(fidx, {}):
                                obj = s.fr[fidx]['self']
                outs.append((U(sym=('super', ci, obj), truth=True), s))
            return outs
        outs = []
        for fv, s in self.ev(f, st, act, rs):
            self.inflight.append(fv.refs())
            argl = self.args(e, s, act, rs)
            self.inflight.pop()
            for args, kw, s2 in argl:
                outs += self.call(fv, args, kw, s2, act, rs, e)
        return outs

    def args(self, e, st, act, rs):
        """-> [(args list (with ('*', elem) marker), kwargs dict, st)]"""
        outs = [([], {}, st)]
        for a in e.args:
            nxt = []
            for args, kw, s in outs:
                self.inflight.append(union_refs(flat(args, kw)))
                if isinstance(a, ast.Starred):
                    for v, s2 in self.ev(a.value, s, act, rs):
                        for (items, el), s3 in self.collect(v, s2, act, rs, a):
                            if items is not None:
                                nxt.append((args + list(items), dict(kw), s3))
                            else:
                                rowlike = isinstance(v, U) and v.kind == 'row' and (row_nn(v) or True)
                                nxt.append((args + [('*', el, rowlike)], dict(kw), s3))
                else:
                    for v, s2 in self.ev(a, s, act, rs):
                        nxt.append((args + [v], dict(kw), s2))
                self.inflight.pop()
            outs = nxt
        for k in e.keywords:
            nxt = []
            for args, kw, s in outs:
                self.inflight.append(union_refs(flat(args, kw)))
                kvals = self.ev(k.value, s, act, rs)
                self.inflight.pop()
                for v, s2 in kvals:
                    kw2 = dict(kw)
                    if k.arg is None:
                        o = self.hget(s2, v) if isinstance(v, Ref) else None
                        if o is not None and o.kind in ('dict', 'counter'):
                            for kk, x in o.attrs.items():
                                if isinstance(kk, tuple) and kk[0] == 'k' and isinstance(kk[1], str):
                                    kw2[kk[1]] = x
                            if o.attrs.get('rest') is not None:
                                kw2['**'] = o.attrs['rest']
                        else:
                            kw2['**'] = U(self.tags(v, s2))
                    else:
                        kw2[k.arg] = v
                    nxt.append((args, kw2, s2))
            outs = nxt
        return outs

    def call(self, fv, args, kw, st, act, rs, node):
        self.stats['calls'] += 1
        if isinstance(fv, Fn):
            return self.call_fn(fv, args, kw, st, act, rs, node)
        if isinstance(fv, Cls):
            return self.instantiate(fv.ci, args, kw, st, act, rs, node)
        if isinstance(fv, Ext):
            return self.call_ext(fv, args, kw, st, act, rs, node)
        if isinstance(fv, Ref):
            o = self.hget(st, fv)
            if o is not None and o.kind == 'inst' and o.cls is not None:
                fi = self.proj.find_method(o.cls, '__call__')
                if fi is not None:
                    return self.call_fn(Fn(fi, fv), args, kw, st, act, rs, node)
        if isinstance(fv, C) and fv.v is None:
            rs.append((ExcV('TypeError', None, self.where(node, act)), st))
            return []
        if isinstance(fv, U) and fv.sym and fv.sym[0] == 'umeth':
            return self.call_ext(Ext('?.' + fv.sym[1], fv.sym[2]), args, kw, st, act, rs, node)
        # unknown callable
        return self.call_unknown('?', fv, args, kw, st, act, rs, node)

    def call_unknown(self, name, fv, args, kw, st, act, rs, node):
        t = EMPTY
        for a in flat(args, kw):
            t = t | self.tags(a, st)
        if isinstance(fv, U):
            t = t | fv.tags
        self.lex_raise(self.models.GENERIC_EXC, st, act, rs, node)
        r = self.monitor.on_call(name, fv, args, kw, st, act, node, rs)
        if r is not None:
            return r
        return [(U(t - {'param0'}), st)]

    def call_ext(self, fv, args, kw, st, act, rs, node):
        r = union_refs([fv, *flat(args, kw)])
        self.inflight.append(r)
        try:
            return self.call_ext_(fv, args, kw, st, act, rs, node)
        finally:
            self.inflight.pop()

    def call_ext_(self, fv, args, kw, st, act, rs, node):
        name = fv.name
        m = self.models.EXT.get(name)
        if m is None and fv.self_ is not None:
            m = self.models.METHODS.get(name.rsplit('.', 1)[-1]) if name.startswith('?.') else None
        if m is None and name.startswith('builtins.'):
            b = getattr(builtins, name[9:], None)
            if isinstance(b, type) and issubclass(b, BaseException):
                return [(ExcV(name[9:], args[0] if args and isinstance(args[0], V) else None, self.where(node, act)), st)]
        if m is None and name.startswith('sqlite3.') and name.endswith(('Error', 'Warning')):
            return [(ExcV(name, args[0] if args and isinstance(args[0], V) else None), st)]
        if self.monitor.watches(name):
            r = self.monitor.on_call(name, fv, args, kw, st, act, node, rs)
            if r is not None:
                return r
        if m is not None:
            return m(self, fv, args, kw, st, act, rs, node)
        # default: unknown result carrying the provenance of the arguments
        if self.fault and self.models.may_raise(name):
            self.fault_raise(st, act, rs, node, name)
        self.lex_raise(self.models.GENERIC_EXC, st, act, rs, node)
        t = EMPTY
        for a in flat(args, kw):
            t = t | self.tags(a, st)
            if isinstance(a, (GenV,)) and not name.startswith(('weakref.', '?.')):
                # an external function may consume a generator
                outs = []
                for ref, s in self.to_list(a, st, act, rs, node, 'list', 'ext'):
                    outs.append((U(t), s))
                return outs
        if fv.self_ is not None:
            t = t | self.tags(fv.self_, st)
            if isinstance(fv.self_, Ref):
                o = self.hget(st, fv.self_)
                if o is not None and o.kind == 'ext':
                    st.heap[fv.self_.id] = o.addtags(t)
        self.unknown('ext ' + name)
        last = name.rsplit('.', 1)[-1]
        if fv.self_ is None and (last[:1].isupper() or name.split('.')[0] in ('hashlib', 'array', 'csv')):
            return [(self.alloc(st, act, node, Obj('ext', None, {}, t | {'ext:' + name}), 'ext'), st)]
        return [(U(t), st)]

    def fault_raise(self, st, act, rs, node, name):
        if self.monitor.may_fault(name, node, act, st):
            for n in self.monitor.fault_names:
                s2 = st.fork()
                self.monitor.on_fault(n, name, s2, node, act)
                rs.append((ExcV(n, None, self.where(node, act)), s2))

    def lex_raise(self, names, st, act, rs, node):
        """Inside a try statement that handles specific built-in exceptions,
        an operation we cannot evaluate may raise any of them."""
        if not act.lexcatch:
            return
        done = set()
        for hs in act.lexcatch:
            for h in hs:
                if h in names and h not in done:
                    done.add(h)
                    rs.append((ExcV(h, U(), self.where(node, act)), st.fork()))

    def call_fn(self, fn, args, kw, st, act, rs, node):
        fi = fn.fi
        m = self.monitor.intercept(fn, args, kw, st, act, node, rs)
        if m is not None:
            return m
        fm = self.models.FUNCS.get((fi.module.name, fi.qualname))
        if fm is not None:
            r = fm(self, fn, args, kw, st, act, rs, node)
            if r is not None:
                return r
        if not fi.alts:
            return self.call_one(fi, fn, args, kw, st, act, rs, node)
        outs = []
        variants = [fi] + fi.alts
        for i, v in enumerate(variants):
            s = st if i == len(variants) - 1 else st.fork()
            outs += self.call_one(v, fn, args, kw, s, act, rs, node)
        return outs

    def call_one(self, fi, fn, args, kw, st, act, rs, node):
        n = sum(1 for x in act.stack if x is fi)
        if n >= 2 or len(act.stack) > 45:
            t = EMPTY
            for a in flat(args, kw):
                t = t | self.tags(a, st)
            self.unknown('recursion ' + fi.qualname)
            return [(U(t), st)]
        outs = []
        first = [fn.self_] if fn.self_ is not None else []
        for binding, s in self.bind(fi, first + list(args), kw, st, act, rs, node):
            if fi.is_gen:
                g = GenV(fi, tuple(sorted(binding.items())), fn.env or (), (act.fid, id(node)), fi.is_cm)
                outs.append((g, s))
                continue
            outs += self.run_body(fi, fn.env or (), binding, s, act, rs, node)
        return outs

    def bind(self, fi, args, kw, st, act, rs, node):
        a = fi.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        kw = dict(kw)
        extra = kw.pop('**', None)
        pos = 0
        varitems = []
        varelem = None
        starred = None
        rowlike = False
        posidx = 0
        for v in args:
            if isinstance(v, tuple):
                starred = v[1]
                rowlike = v[2]
                continue
            if starred is not None:
                varelem = v if varelem is None else join(varelem, v)
                continue
            if pos < len(params):
                b[params[pos]] = v
                pos += 1
            else:
                varitems.append(v)
        if starred is not None:
            i = 0
            while pos < len(params):
                if params[pos] not in kw:
                    sv = starred
                    if rowlike:
                        sv = U(tags_of(starred) | {f'pos:{i}'}, notnone=nn_at(rowlike, i), kind=kind_at(rowlike, i))
                    b[params[pos]] = sv
                i += 1
                pos += 1
            if rowlike:
                starred = U(tags_of(starred) | {f'slice:{i}'})
            varelem = starred if varelem is None else join(varelem, starred)
        if a.vararg:
            if varelem is None:
                b[a.vararg.arg] = Tup(varitems)
            else:
                e = varelem
                for x in varitems:
                    e = join(e, x)
                b[a.vararg.arg] = self.newlist(st, act, node, elem=e, ne=bool(varitems), kind='tuple', extra='va')
        elif varitems:
            rs.append((ExcV('TypeError', None, self.where(node, act)), st))
            return []
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                b[k] = v
            else:
                rest[k] = v
        # defaults
        outs = [(b, st)]
        nd = len(a.defaults)
        missing = []
        for p, d in list(zip(params[len(params) - nd:], a.defaults)) + \
                [(p, d) for p, d in zip(kwonly, a.kw_defaults) if d is not None]:
            if p not in b:
                missing.append((p, d))
        for p, d in missing:
            if extra is not None:
                b[p] = join(extra, U())
                continue
            if isinstance(d, ast.Constant):
                b[p] = C(d.value)
            else:
                b[p] = self.global_expr(fi.module, d, f'<default {fi.qualname}.{p}>')
        for p in params + kwonly:
            if p not in b:
                if extra is not None:
                    b[p] = extra
                else:
                    if fi.name == '<genexp>':
                        continue
                    rs.append((ExcV('TypeError', None, self.where(node, act)), st))
                    return []
        if a.kwarg:
            o = Obj('dict', None, {('k', k): v for k, v in rest.items()})
            if extra is not None:
                o = o.setitems({'rest': extra})
            b[a.kwarg.arg] = self.alloc(st, act, node, o, 'kwargs')
        return outs

    def run_body(self, fi, env, binding, st, act, rs, node, on_yield=None):
        self.funcs_seen.add((fi.module.relpath, fi.qualname))
        fid = self.fid(act.fid, node, fi)
        if fid in st.fr:
            fid = self.fid(fid, node, fi)
        st.fr[fid] = dict(binding)
        na = Act(fi, fid, env, act.stack + (fi,), on_yield)
        na.lexcatch = []
        if isinstance(fi.node, ast.Lambda):
            o = Out()
            for v, s in self.ev(fi.node.body, st, na, rs_ := []):
                o.r.append((v, s))
            o.x += rs_
        else:
            self.monitor.on_enter(fi, na, st)
            o = self.exec_block(fi.node.body, st, na)
        outs = [(v, s) for v, s in o.r] + [(NONE, s) for s in o.n]
        res = []
        for v, s in outs:
            self.drop_frame(s, fid, v)
            res.append((v, s))
        for e, s in o.x:
            self.drop_frame(s, fid, None)
            rs.append((e, s))
        if len(res) > 3:
            res = self.dedupe_vals(res)
        return res

    def dedupe_vals(self, res):
        seen, out = set(), []
        for v, s in res:
            # value becomes part of the key through a temporary frame
            s.fr['.ret'] = {'v': v}
            k = self.key(s)
            del s.fr['.ret']
            if k not in seen:
                seen.add(k)
                out.append((v, s))
        if len(out) > self.SOFT:
            groups = {}
            for v, s in out:
                s.fr['.ret'] = {'v': v}
                groups.setdefault(v.name if isinstance(v, ExcV) else None, []).append(s)
            out = []
            for g in groups.values():
                for s in self.reduce(g):
                    v = s.fr.pop('.ret')['v']
                    out.append((v, s))
        return out

    def drop_frame(self, st, fid, v):
        vs = st.fr.pop(fid, None)
        if vs is None:
            return
        if isinstance(v, (C, U, S)) or v is None:
            return
        _, fids = self.reachable(st, (v,) if v is not None else ())
        if fid in fids:
            st.fr[fid] = {**vs, '.dead': TRUE}

    def instantiate(self, ci, args, kw, st, act, rs, node):
        proj = self.proj
        m = self.monitor.intercept_class(ci, args, kw, st, act, node, rs)
        if m is not None:
            return m
        if (ci.module.name, ci.name) in self.models.OPAQUE:
            t = EMPTY
            for a in flat(args, kw):
                t = t | self.tags(a, st)
            return [(U(t, truth=None, notnone=True), st)]
        if self.is_exc_class(ci):
            return [(ExcV(ci.name, args[0] if args and isinstance(args[0], V) else None, self.where(node, act)), st)]
        if any(x.split('.')[-1] in ('Enum', 'NamedTuple', 'TypedDict') for x in proj.mro(ci)[1]):
            t = EMPTY
            for a in flat(args, kw):
                t = t | self.tags(a, st)
            return [(U(t), st)]
        ref = self.alloc(st, act, node, Obj('inst', ci, {}), 'inst')
        fi = proj.find_method(ci, '__init__')
        if fi is not None:
            outs = []
            for _, s in self.call_fn(Fn(fi, ref), args, kw, st, act, rs, node):
                outs.append((ref, s))
            return outs
        if proj.is_dataclass(ci):
            fields = proj.dataclass_fields(ci)
            names = [f for f, _ in fields]
            vals = {}
            pos = 0
            for v in args:
                if isinstance(v, tuple):
                    i = 0
                    while pos < len(names):
                        vals[names[pos]] = U(tags_of(v[1]) | ({f'pos:{i}'} if v[2] else EMPTY),
                                              notnone=nn_at(v[2], i), kind=kind_at(v[2], i))
                        pos += 1
                        i += 1
                elif pos < len(names):
                    vals[names[pos]] = v
                    pos += 1
            for k, v in kw.items():
                if k == '**':
                    for n in names:
                        vals.setdefault(n, v)
                elif k in names:
                    vals[k] = v
            for n, d in fields:
                if n not in vals:
                    if d is None:
                        vals[n] = U()
                    elif isinstance(d, ast.Constant):
                        vals[n] = C(d.value)
                    else:
                        vals[n] = U()
            st.heap[ref.id] = Obj('inst', ci, vals)
            pi = proj.find_method(ci, '__post_init__')
            if pi is not None:
                return [(ref, s) for _, s in self.call_fn(Fn(pi, ref), [], {}, st, act, rs, node)]
            return [(ref, st)]
        ni = proj.find_method(ci, '__new__')
        if proj.mro(ci)[1] and proj.mro(ci)[1] != ['object'] and any(
                x.split('.')[-1] not in ('ABC', 'object', 'Generic', 'Protocol') for x in proj.mro(ci)[1]):
            t = EMPTY
            for a in flat(args, kw):
                t = t | self.tags(a, st)
            st.heap[ref.id] = Obj('inst', ci, {}, t)
        return [(ref, st)]

    def is_exc_class(self, ci):
        for x in self.proj.mro(ci)[1]:
            n = x.split('.')[-1]
            b = getattr(builtins, n, None)
            if isinstance(b, type) and issubclass(b, BaseException) or x.startswith('sqlite3.') and n.endswith('Error'):
                return True
        return False

    # -------------------------------------------------------- generators
    def gen_body(self, g, st, act, on_yield, node):
        """Run generator *g*; -> Out of its body (frame already dropped)."""
        fi = g.fi
        n = sum(1 for x in act.stack if x is fi)
        o = Out()
        if n >= 3 or len(act.stack) > 60:
            self.unknown('recursion ' + fi.qualname)
            o.n.append(st)
            return o
        self.funcs_seen.add((fi.module.relpath, fi.qualname))
        # a generator frame is identified by where it was created
        fid = self.fid(g.site[0], node if False else _NodeId(g.site[1]), fi)
        while fid in st.fr:
            fid = self.fid(fid, _NodeId(g.site[1]), fi)
        st.fr[fid] = dict(g.vars)
        na = Act(fi, fid, g.env, act.stack + (fi,), on_yield)
        self.monitor.on_enter(fi, na, st)
        ob = self.exec_block(fi.node.body, st, na)
        for s in ob.n:
            self.drop_frame(s, fid, None)
            o.n.append(s)
        for v, s in ob.r:
            self.drop_frame(s, fid, None)
            o.n.append(s)
        for e, s in ob.x:
            self.drop_frame(s, fid, None)
            o.x.append((e, s))
        return o

    def iterate(self, v, st, act, rs, handler, node):
        """Iterate *v*; handler(elem, st) -> [(kind, payload, st)].

        Returns [('done'|'closed', st)]; exceptions go to rs.
        """
        self.inflight.append(v.refs())
        try:
            return self.iterate_(v, st, act, rs, handler, node)
        finally:
            self.inflight.pop()

    def iterate_(self, v, st, act, rs, handler, node):
        if isinstance(v, GenV):
            return self.iter_gen(v, st, act, rs, handler, node)
        if isinstance(v, Tup):
            return self.iter_exact(v.items, st, act, rs, handler)
        if isinstance(v, C):
            if isinstance(v.v, (str, bytes, tuple, frozenset)) and len(v.v) <= 40:
                return self.iter_exact([C(x) for x in v.v], st, act, rs, handler)
            if v.v is None or isinstance(v.v, (int, float, bool)):
                rs.append((ExcV('TypeError', None, self.where(node, act)), st))
                return []
            return self.iter_unknown(U(kind='str'), st, act, rs, handler, node)
        if isinstance(v, S):
            return self.iter_unknown(U(self.tags(v, st), kind='str'), st, act, rs, handler, node)
        if isinstance(v, ItV):
            return self.models.iter_it(self, v, st, act, rs, handler, node)
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is None:
                return self.iter_unknown(U(), st, act, rs, handler, node)
            if o.kind in LISTS:
                if 'exact' in o.attrs and len(o.attrs['exact'].items) <= 40:
                    return self.iter_exact(o.attrs['exact'].items, st, act, rs, handler)
                e, ne = list_elem(o)
                if not ne and self.monitor.relate_loops and v.id in st.heap:
                    # whether there are any elements is the same for every loop over them
                    s0 = st.fork()
                    s0.heap[v.id] = Obj(o.kind, o.cls, {'exact': Tup(())}, o.tags)
                    st.heap[v.id] = Obj(o.kind, o.cls, {**o.attrs, 'ne': True}, o.tags)
                    return [('done', s0)] + self.iter_unknown(e if e is not None else U(o.tags), st, act, rs, handler, node,
                                                              True, src=(v, st.heap[v.id]))
                return self.iter_unknown(e if e is not None else U(o.tags), st, act, rs, handler, node, ne, src=(v, o))
            if o.kind in ('dict', 'counter'):
                keys = [C(k[1]) for k in o.attrs if isinstance(k, tuple) and k[0] == 'k']
                if o.attrs.get('rest') is None:
                    return self.iter_exact(keys, st, act, rs, handler)
                e = U(o.tags | self.tags(o.attrs['rest'], st))
                return self.iter_unknown(e, st, act, rs, handler, node, bool(keys) or bool(o.attrs.get('ne')))
            if o.kind == 'cursor':
                return self.iter_cursor(v, o, st, act, rs, handler, node)
            if o.kind == 'inst' and o.cls is not None:
                return self.iter_inst(v, o, st, act, rs, handler, node)
            return self.iter_unknown(U(o.tags), st, act, rs, handler, node)
        if isinstance(v, U):
            if v.sym and v.sym[0] == 'rep':
                return self.iter_unknown(C(v.sym[1]), st, act, rs, handler, node)
            return self.iter_unknown(elem_u(v), st, act, rs, handler, node, v.truth is True)
        return self.iter_unknown(U(), st, act, rs, handler, node)

    def iter_gen(self, g, st, act, rs, handler, node):
        o = self.gen_body(g, st, act, handler, node)
        out = [('done', s) for s in o.n]
        for e, s in o.x:
            if e.name == 'GeneratorExit':
                out.append(('closed', s))
            else:
                rs.append((e, s))
        return out

    def iter_exact(self, items, st, act, rs, handler):
        cur = [st]
        out = []
        for x in items:
            nxt = []
            for s in cur:
                for kind, p, s2 in handler(x, s):
                    if kind == 'resume':
                        nxt.append(s2)
                    elif kind == 'throw':
                        rs.append((p, s2))
                    else:
                        out.append(('closed', s2))
            cur = self.reduce(nxt)
        return [('done', s) for s in cur] + out

    def iter_inst(self, ref, o, st, act, rs, handler, node):
        it = self.proj.find_method(o.cls, '__iter__')
        nx = self.proj.find_method(o.cls, '__next__')
        out = []
        if nx is not None:
            if it is not None:
                pass

            def step(s):
                res = []
                rs2 = []
                vals = self.call_fn(Fn(nx, ref), [], {}, s, act, rs2, node)
                ends = []
                for e, s2 in rs2:
                    if e.name == 'StopIteration':
                        ends.append(s2)
                    else:
                        rs.append((e, s2))
                return vals, ends
            return self.iter_step(step, st, act, rs, handler, node)
        if it is not None:
            for v, s in self.call_fn(Fn(it, ref), [], {}, st, act, rs, node):
                out += self.iterate(v, s, act, rs, handler, node)
            return out
        return self.iter_unknown(U(o.tags), st, act, rs, handler, node)

    def iter_step(self, step, st, act, rs, handler, node):
        seen = set()
        work = [st]
        out = []
        rounds = 0
        self.wid.append({})
        while work:
            nxt = []
            for s in work:
                vals, ends = step(s)
                out += [('done', x) for x in ends]
                for v, s2 in vals:
                    for kind, p, s3 in handler(v, s2):
                        if kind == 'resume':
                            nxt.append(s3)
                        elif kind == 'throw':
                            rs.append((p, s3))
                        else:
                            out.append(('closed', s3))
            rounds += 1
            work = self.next_round(nxt, seen, rounds)
        self.wid.pop()
        return out

    def next_round(self, states, seen, rounds):
        """States to run through the loop again: disjunctive for two rounds,
        then one joined state per monitor state until nothing changes."""
        if not states:
            return []
        if rounds > 1 or len(states) > 2:
            states = self.merge(states, 1)
        if time.time() > self.deadline:
            raise AnalysisBroken('time budget exceeded')
        out = []
        for s in states:
            if True:
                g = ('acc', s.mon, s.pend, s.iters, frozenset(s.fr), self.facts(s, 1))
                if g in self.wid[-1]:
                    s = self.join_states(self.wid[-1][g], s)
                self.wid[-1][g] = s
                s = s.fork()
            k = self.key(s)
            if k not in seen:
                seen.add(k)
                out.append(s)
        if rounds > 25:
            self.unknown('loop bound')
            return []
        return out

    def gc_light(self, st):
        pass

    def iter_unknown(self, elem, st, act, rs, handler, node, ne=False, src=None):
        """0 or more (1 or more when *ne*) abstract elements."""
        tok = self.monitor.loop_begin(elem, node, st, act, src)
        seen = set()
        out = []
        work = [st]
        if not ne:
            s0 = st.fork()
            out.append(('done', s0))
            seen.add(self.key(st))
        rounds = 0
        self.wid.append({})
        while work:
            nxt = []
            for s in work:
                if tok is not None:
                    self.monitor.iter_begin(tok, s)
                self.depth += 1
                acts = handler(elem, s)
                self.depth -= 1
                for kind, p, s2 in acts:
                    if kind == 'resume':
                        if tok is not None:
                            self.monitor.iter_end(tok, s2)
                        nxt.append(s2)
                    elif kind == 'throw':
                        rs.append((p, s2))
                    else:
                        out.append(('closed', s2))
            rounds += 1
            nxt = self.next_round(nxt, seen, rounds)
            for s in nxt:
                out.append(('done', s.fork()))
            work = nxt
        self.wid.pop()
        if tok is not None:
            for kind, s in out:
                self.monitor.loop_end(tok, s, kind)
        done = [s for k, s in out if k == 'done']
        other = [(k, s) for k, s in out if k != 'done']
        return [('done', s) for s in self.reduce(done)] + other

    def iter_cursor(self, ref, o, st, act, rs, handler, node):
        mark = (ref.id, o.attrs.get('q'))
        st.iters = st.iters + (mark,)
        row = self.models.row_value(self, ref, o, st)
        self.monitor.iter_rows(ref, o, st, act, node)
        ev = self.sites.get(o.attrs.get('q'))
        exact = self.monitor.cursor_rows(ev, st) if ev is not None else None
        if exact is not None:
            st.iters = st.iters[:-1]
            return self.iter_exact(exact, st, act, rs, handler)
        if self.fault:
            # reading rows can fail
            s2 = st.fork()
            s2.iters = tuple(x for x in s2.iters if x != mark)
            self.fault_raise(s2, act, rs, node, 'cursor.__next__')
        outs = []
        n0 = len(rs)
        ne = self.monitor.never_empty(self.sites.get(o.attrs.get('q')))
        for kind, s in self.iter_unknown(row, st, act, rs, handler, node, ne, src=(ref, o)):
            it = list(s.iters)
            if mark in it:
                it.reverse()
                it.remove(mark)
                it.reverse()
            s.iters = tuple(it)
            outs.append((kind, s))
        for e, s in rs[n0:]:
            it = list(s.iters)
            if mark in it:
                it.reverse()
                it.remove(mark)
                it.reverse()
            s.iters = tuple(it)
        return outs

    # -------------------------------------------------------- statements
    def exec_block(self, stmts, st, act):
        out = Out()
        cur = [st]
        for s in stmts:
            nxt = []
            ex = self._ex.get(type(s))
            if len(cur) > 4 and isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                cur = self.reduce(cur, 4)
            for x in cur:
                self.stats['stmts'] += 1
                if ex is None:
                    self.unknown('stmt ' + type(s).__name__)
                    nxt.append(x)
                    continue
                o = ex(s, x, act)
                nxt += o.n
                out.add(o, n=False)
            cur = nxt
            if len(cur) > 3:
                cur = self.reduce(cur)
            if not cur:
                break
        out.n = cur
        if len(out.r) > 8:
            out.r = self.dedupe_vals(out.r)
        if len(out.x) > 8:
            out.x = self.dedupe_vals(out.x)
        return out

    def ex_Expr(self, s, st, act):
        o = Out()
        o.n = [x for _, x in self.ev(s.value, st, act, o.x)]
        return o

    def ex_Pass(self, s, st, act):
        o = Out()
        o.n = [st]
        return o

    ex_Global = ex_Nonlocal = ex_Assert = ex_Pass

    def ex_Import(self, s, st, act):
        o = Out()
        for a in s.names:
            if a.asname:
                v = self.from_lookup(self.proj.lookup_dotted(a.name), act.mod, a.name)
                self.setvar(st, act, a.asname, v)
            else:
                top = a.name.split('.')[0]
                v = self.from_lookup(self.proj.lookup_dotted(top), act.mod, top)
                self.setvar(st, act, top, v)
        self.lex_raise(('ImportError', 'ModuleNotFoundError'), st, act, o.x, s)
        o.n = [st]
        return o

    def ex_ImportFrom(self, s, st, act):
        o = Out()
        modname = self.proj.resolve_from(act.mod, s)
        for a in s.names:
            dn = f'{modname}.{a.name}' if modname else a.name
            v = self.from_lookup(self.proj.lookup_dotted(dn), act.mod, a.name)
            self.setvar(st, act, a.asname or a.name, v)
        self.lex_raise(('ImportError', 'ModuleNotFoundError'), st, act, o.x, s)
        o.n = [st]
        return o

    def ex_FunctionDef(self, s, st, act):
        o = Out()
        fi = self._synth.get(id(s))
        if fi is None:
            fi = FuncInfo(s.name, s, act.mod, None, (act.fi.qualname + '.' if act.fi else '') + s.name)
            fi.cond = None
            fi.alts = []
            self._synth[id(s)] = fi
        self.setvar(st, act, s.name, Fn(fi, None, (act.fid,) + tuple(act.env or ())))
        o.n = [st]
        return o

    def ex_ClassDef(self, s, st, act):
        o = Out()
        self.setvar(st, act, s.name, U())
        o.n = [st]
        return o

    def ex_Return(self, s, st, act):
        o = Out()
        if s.value is None:
            o.r = [(NONE, st)]
        else:
            o.r = list(self.ev(s.value, st, act, o.x))
        return o

    def ex_Break(self, s, st, act):
        o = Out()
        o.b = [st]
        return o

    def ex_Continue(self, s, st, act):
        o = Out()
        o.c = [st]
        return o

    def ex_Raise(self, s, st, act):
        o = Out()
        if s.exc is None:
            e = act.handling[-1] if act.handling else None
            # the exception being handled is kept in the frame
            v = st.fr.get(act.fid, {}).get('.exc')
            if v is None:
                v = e or ExcV('?Exception')
            o.x = [(v, st)]
            return o
        for v, s2 in self.ev(s.exc, st, act, o.x):
            if isinstance(v, Ext) and v.name.startswith('builtins.'):
                v = ExcV(v.name[9:], None, self.where(s, act))
            elif isinstance(v, Cls):
                v = ExcV(v.ci.name, None, self.where(s, act))
            elif not isinstance(v, ExcV):
                v = ExcV('?Exception', None, self.where(s, act))
            if v.msg is not None:
                v = ExcV(v.name, None, v.site, v.excl)
            if s.cause is not None:
                for _, s3 in self.ev(s.cause, s2, act, o.x):
                    o.x.append((v, s3))
            else:
                o.x.append((v, s2))
        return o

    def ex_Delete(self, s, st, act):
        o = Out()
        for t in s.targets:
            if isinstance(t, ast.Name):
                vs = dict(st.fr.get(act.fid, {}))
                vs.pop(t.id, None)
                st.fr[act.fid] = vs
            elif isinstance(t, ast.Subscript):
                b = self.peek(t.value, st, act)
                i = self.peek(t.slice, st, act) if not isinstance(t.slice, ast.Slice) else None
                if isinstance(b, Ref):
                    ob = self.hget(st, b)
                    if ob is not None and ob.kind in ('dict', 'counter') and isinstance(i, C):
                        st.heap[b.id] = ob.drop(('k', i.v))
        o.n = [st]
        return o

    def ex_Assign(self, s, st, act):
        o = Out()
        states = self.ev(s.value, st, act, o.x)
        for v, s2 in states:
            cur = [s2]
            for t in s.targets:
                nxt = []
                for x in cur:
                    nxt += self.assign(t, v, x, act, o.x)
                cur = nxt
            o.n += cur
        return o

    def ex_AnnAssign(self, s, st, act):
        o = Out()
        if s.value is None:
            o.n = [st]
            return o
        for v, s2 in self.ev(s.value, st, act, o.x):
            o.n += self.assign(s.target, v, s2, act, o.x)
        return o

    def ex_AugAssign(self, s, st, act):
        o = Out()
        t = s.target
        load = self._synth.get(('load', id(t)))
        if load is None:
            if isinstance(t, ast.Name):
                load = ast.Name(id=t.id, ctx=ast.Load())
            elif isinstance(t, ast.Attribute):
                load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
            else:
                load = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
            ast.copy_location(load, t)
            self._synth[('load', id(t))] = load
        for (a, b), s2 in self.evs([load, s.value], st, act, o.x):
            if isinstance(a, Ref) and isinstance(s.op, ast.Add):
                ob = self.hget(s2, a)
                if ob is not None and ob.kind == 'list':
                    for _, s3 in self.models.list_extend(self, Ext('list.extend', a), [b], {}, s2, act, o.x, s):
                        o.n.append(s3)
                    continue
            if isinstance(a, Ref) and isinstance(s.op, (ast.BitOr, ast.Add)):
                ob = self.hget(s2, a)
                if ob is not None and ob.kind in ('set', 'dict', 'counter'):
                    for _, s3 in self.models.any_update(self, Ext(ob.kind + '.update', a), [b], {}, s2, act, o.x, s):
                        o.n.append(s3)
                    continue
            ints = kind_of(a) in ('int', 'count') and kind_of(b) in ('int', 'count')
            v = self.binop(s.op, a, b, s2, act, s, aug=ints, rs=o.x)
            o.n += self.assign(t, v, s2, act, o.x)
        return o

    def assign(self, t, v, st, act, rs):
        if isinstance(t, ast.Name):
            self.setvar(st, act, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for vals, s in self.unpack(v, len(t.elts), st, act, star[0] if star else None, rs, t):
                cur = [s]
                for x, val in zip(t.elts, vals):
                    if isinstance(x, ast.Starred):
                        x = x.value
                    nxt = []
                    for s3 in cur:
                        nxt += self.assign(x, val, s3, act, rs)
                    cur = nxt
                out += cur
            return out
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st, act, rs):
                if isinstance(b, Ref):
                    o = self.hget(s, b)
                    if o is not None:
                        if o.kind == 'inst' and o.cls is not None:
                            fi = self.proj.find_method(o.cls, t.attr)
                            if fi is not None and fi.is_prop and fi.setter is not None:
                                out += [x for _, x in self.call_fn(Fn(fi.setter, b), [v], {}, s, act, rs, t)]
                                continue
                            self.monitor.on_setattr(b, o, t.attr, v, s, act, t)
                        s.heap[b.id] = o.setitems({t.attr: v})
                elif isinstance(b, (U, Cls)):
                    pass
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, s in self.ev(t.value, st, act, rs):
                if isinstance(t.slice, ast.Slice):
                    out.append(s)
                    continue
                for i, s2 in self.ev(t.slice, s, act, rs):
                    self.store_item(b, i, v, s2)
                    out.append(s2)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, act, rs)
        return [st]

    def store_item(self, b, i, v, s):
        if not isinstance(b, Ref):
            return
        o = self.hget(s, b)
        if o is None:
            return
        if o.kind in ('dict', 'counter'):
            s.heap[b.id] = self.dict_set(o, i, v)
        elif o.kind in LISTS:
            if 'exact' in o.attrs and isinstance(i, C) and isinstance(i.v, int):
                items = list(o.attrs['exact'].items)
                try:
                    items[i.v] = v
                except IndexError:
                    return
                s.heap[b.id] = o.setitems({'exact': Tup(items)})
            else:
                e, ne = list_elem(o)
                s.heap[b.id] = Obj(o.kind, o.cls, {'elem': v if e is None else join(e, v), 'ne': ne}, o.tags)
        else:
            s.heap[b.id] = o.addtags(self.tags(v, s) | self.tags(i, s))

    def unpack(self, v, n, st, act, star=None, rs=None, node=None):
        """-> [(values, st)]"""
        def exact(items):
            items = list(items)
            if star is None:
                if len(items) != n:
                    if rs is not None:
                        rs.append((ExcV('ValueError', None, self.where(node, act)), st))
                    return []
                return [(items, st)]
            k = n - 1
            if len(items) < k:
                if rs is not None:
                    rs.append((ExcV('ValueError', None, self.where(node, act)), st))
                return []
            after = n - star - 1
            mid = items[star:len(items) - after]
            return [(items[:star] + [self.newlist(st, act, node, items=mid, extra='unp')] +
                     items[len(items) - after:], st)]
        if isinstance(v, Tup):
            return exact(v.items)
        if isinstance(v, C) and isinstance(v.v, (tuple, str)):
            return exact([C(x) for x in v.v])
        if isinstance(v, Ref):
            o = self.hget(st, v)
            if o is not None and o.kind in LISTS:
                if 'exact' in o.attrs:
                    return exact(o.attrs['exact'].items)
                e = list_elem(o)[0] or U(o.tags)
                vals = [e] * n
                if star is not None:
                    vals[star] = self.newlist(st, act, node, elem=e, extra='unp')
                return [(vals, st)]
            if o is not None and o.kind == 'inst':
                v = U(o.tags)
        if isinstance(v, (GenV, ItV)):
            out = []
            rs = rs if rs is not None else []
            for ref, s in self.to_list(v, st, act, rs, node or ast.Pass(), 'tuple', 'unp'):
                out += self.unpack(ref, n, s, act, star, rs, node)
            return out
        t = self.tags(v, st)
        row = isinstance(v, U) and v.kind == 'row'
        nns = row_nn(v) if row else None
        vals = []
        for i in range(n):
            tt = t
            nn, k = False, None
            if row:
                if star is None or i < star:
                    tt = t | {f'pos:{i}'}
                    nn, k = nn_at(nns, i), kind_at(nns, i)
                elif i > star:
                    tt = t | {f'pos:{i - n}'}
                else:
                    tt = t | {f'slice:{i}'}
            vals.append(U(tt, notnone=nn, kind=k))
        if star is not None:
            vals[star] = self.newlist(st, act, node, elem=vals[star], extra='unp') if node is not None else vals[star]
        return [(vals, st)]

    def ex_If(self, s, st, act):
        o = Out()
        brs = self.branch(s.test, st, act, o.x)
        if len(brs) > 4:
            t = self.reduce([x for b, x in brs if b])
            f = self.reduce([x for b, x in brs if not b])
            brs = [(True, x) for x in t] + [(False, x) for x in f]
        for b, s2 in brs:
            self.monitor.on_branch(s, b, s2, act)
            body = s.body if b else s.orelse
            if body:
                o.add(self.exec_block(body, s2, act))
            else:
                o.n.append(s2)
        return o

    def ex_While(self, s, st, act):
        out = Out()
        seen = set()
        work = [st]
        rounds = 0
        exits = []
        self.wid.append({})
        while work:
            nxt = []
            for x in work:
                for b, s2 in self.branch(s.test, x, act, out.x):
                    if not b:
                        exits.append(s2)
                        continue
                    o = self.exec_block(s.body, s2, act)
                    nxt += o.n + o.c
                    out.n += o.b
                    out.r += o.r
                    out.x += o.x
            rounds += 1
            work = self.next_round(nxt, seen, rounds)
        self.wid.pop()
        for x in self.reduce(exits):
            if s.orelse:
                out.add(self.exec_block(s.orelse, x, act))
            else:
                out.n.append(x)
        return out

    def ex_For(self, s, st, act):
        out = Out()
        token = (id(s), act.fid)
        drops = self.loop_locals(s, act)

        def on(v, x):
            res = []
            rs2 = []
            for x2 in self.assign(s.target, v, x, act, rs2):
                o = self.exec_block(s.body, x2, act)
                for y in o.n + o.c:
                    if drops:
                        vs = y.fr.get(act.fid)
                        if vs and any(d in vs for d in drops):
                            y.fr[act.fid] = {k: z for k, z in vs.items() if k not in drops}
                    res.append(('resume', NONE, y))
                for y in o.b:
                    y.pend = y.pend + ((token, 'b', None),)
                    res.append(('close', None, y))
                for v2, y in o.r:
                    y.pend = y.pend + ((token, 'r', v2),)
                    res.append(('close', None, y))
                for e, y in o.x:
                    y.pend = y.pend + ((token, 'x', e),)
                    res.append(('close', None, y))
            for e, y in rs2:
                y.pend = y.pend + ((token, 'x', e),)
                res.append(('close', None, y))
            if len(res) > 6:
                res = self.reduce_actions(res)
            return res
        for v, s2 in self.ev(s.iter, st, act, out.x):
            self.monitor.for_begin(s, v, s2, act)
            rs = []
            for kind, x in self.iterate(v, s2, act, rs, on, s):
                if kind == 'closed' and x.pend and x.pend[-1][0] == token:
                    _, k, p = x.pend[-1]
                    x.pend = x.pend[:-1]
                    if k == 'b':
                        out.n.append(x)
                    elif k == 'r':
                        out.r.append((p, x))
                    else:
                        out.x.append((p, x))
                elif kind == 'done':
                    self.monitor.for_end(s, x, act)
                    if s.orelse:
                        out.add(self.exec_block(s.orelse, x, act))
                    else:
                        out.n.append(x)
                else:
                    # closed for somebody further out
                    out.x.append((ExcV('GeneratorExit'), x))
            for e, x in rs:
                if x.pend and x.pend[-1][0] == token:
                    x.pend = x.pend[:-1]
                out.x.append((e, x))
        return out

    ex_AsyncFor = ex_For

    def reduce_actions(self, res):
        groups = {}
        for k, p, s in res:
            groups.setdefault((k, p), []).append(s)
        out = []
        for (k, p), ss in groups.items():
            for s in self.reduce(ss):
                out.append((k, p, s))
        return out

    def loop_locals(self, node, act):
        """Variables whose every use lies inside this loop and that are assigned
        before being read in each iteration: dead at the loop head."""
        key = ('ll', id(node))
        r = self._synth.get(key)
        if r is not None:
            return r
        assigned = []
        for x in ast.walk(node.target):
            if isinstance(x, ast.Name):
                assigned.append(x.id)
        read = set()
        for x in node.body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                val = x.value
                if val is not None:
                    for y in ast.walk(val):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load):
                            read.add(y.id)
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name):
                            if isinstance(y.ctx, ast.Store) and y.id not in read and val is not None:
                                assigned.append(y.id)
                            elif isinstance(y.ctx, ast.Load):
                                read.add(y.id)
            else:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name):
                        read.add(y.id)
                        # conservatively treat stores as reads too
        inside = {id(y) for y in ast.walk(node)}
        fnode = act.fi.node
        outside = set()
        for y in ast.walk(fnode):
            if isinstance(y, ast.Name) and id(y) not in inside:
                outside.add(y.id)
            if isinstance(y, ast.arg):
                outside.add(y.arg)
        r = frozenset(a for a in assigned if a not in outside)
        self._synth[key] = r
        return r

    # with ---------------------------------------------------------------
    def ex_With(self, s, st, act):
        return self.with_items(s, 0, st, act)

    ex_AsyncWith = ex_With

    def with_items(self, s, i, st, act):
        if i >= len(s.items):
            return self.exec_block(s.body, st, act)
        item = s.items[i]
        out = Out()
        for v, s2 in self.ev(item.context_expr, st, act, out.x):
            out.add(self.with_one(s, i, item, v, s2, act))
        return out

    def with_one(self, s, i, item, v, st, act):
        def body(val, x):
            o = Out()
            if item.optional_vars is not None:
                for y in self.assign(item.optional_vars, val, x, act, o.x):
                    o.add(self.with_items(s, i + 1, y, act))
                return o
            return self.with_items(s, i + 1, x, act)
        return self.with_value(v, st, act, body, s)

    def with_value(self, v, st, act, body, node):
        self.inflight.append(v.refs())
        try:
            return self.with_value_(v, st, act, body, node)
        finally:
            self.inflight.pop()

    def with_value_(self, v, st, act, body, node):
        out = Out()
        if isinstance(v, GenV) and v.cm:
            token = ('with', id(node), act.fid, v.site)

            def on(val, x):
                res = []
                o = body(val, x)
                for y in o.n:
                    y.pend = y.pend + ((token, 'n', None),)
                    res.append(('resume', NONE, y))
                for y in o.b:
                    y.pend = y.pend + ((token, 'b', None),)
                    res.append(('resume', NONE, y))
                for y in o.c:
                    y.pend = y.pend + ((token, 'c', None),)
                    res.append(('resume', NONE, y))
                for rv, y in o.r:
                    y.pend = y.pend + ((token, 'r', rv),)
                    res.append(('resume', NONE, y))
                for e, y in o.x:
                    y.pend = y.pend + ((token, 'x', e),)
                    res.append(('throw', e, y))
                if len(res) > 6:
                    res = self.reduce_actions(res)
                return res
            go = self.gen_body(v, st, act, on, node)
            for x in go.n:
                if x.pend and x.pend[-1][0] == token:
                    _, k, p = x.pend[-1]
                    x.pend = x.pend[:-1]
                    if k in ('n', 'x'):      # 'x': the exception was swallowed
                        out.n.append(x)
                    elif k == 'b':
                        out.b.append(x)
                    elif k == 'c':
                        out.c.append(x)
                    else:
                        out.r.append((p, x))
                else:
                    # generator did not yield
                    out.x.append((ExcV('RuntimeError'), x))
            for e, x in go.x:
                if x.pend and x.pend[-1][0] == token:
                    x.pend = x.pend[:-1]
                out.x.append((e, x))
            return out
        if isinstance(v, ItV) and v.op == 'nullcontext':
            return body(v.args[0], st)
        if isinstance(v, ItV) and v.op == 'closing':
            o = body(v.args[0], st)
            return self.after_with(o, lambda x, rs: self.close_value(v.args[0], x, act, rs, node), out)
        if isinstance(v, ItV) and v.op == 'suppress':
            o = body(NONE, st)
            names = [self.exc_names(a, st) for a in v.args]
            for e, x in o.x:
                handled = False
                for ns in names:
                    m = self.match(e, ns)
                    if m is True:
                        handled = True
                        break
                    if m is None:
                        out.n.append(x.fork())
                if handled:
                    out.n.append(x)
                else:
                    out.x.append((e, x))
            o.x = []
            out.add(o)
            return out
        if isinstance(v, Ref):
            ob = self.hget(st, v)
            if ob is not None and ob.kind == 'inst' and ob.cls is not None:
                en = self.proj.find_method(ob.cls, '__enter__')
                ex = self.proj.find_method(ob.cls, '__exit__')
                if en is not None and ex is not None:
                    for val, x in self.call_fn(Fn(en, v), [], {}, st, act, out.x, node):
                        o = body(val, x)

                        def fin(y, rs, e=None):
                            a = [NONE, NONE, NONE] if e is None else [U(truth=True), e, U()]
                            return [(r, z) for r, z in self.call_fn(Fn(ex, v), a, {}, y, act, rs, node)]
                        for y in o.n:
                            out.n += [z for _, z in fin(y, out.x)]
                        for y in o.b:
                            out.b += [z for _, z in fin(y, out.x)]
                        for y in o.c:
                            out.c += [z for _, z in fin(y, out.x)]
                        for rv, y in o.r:
                            out.r += [(rv, z) for _, z in fin(y, out.x)]
                        for e, y in o.x:
                            for r, z in fin(y, out.x, e):
                                if truth(r, z, self) is True:
                                    out.n.append(z)
                                else:
                                    out.x.append((e, z))
                    return out
            if ob is not None and ob.kind in ('ext', 'conn'):
                o = body(v, st)
                return self.after_with(o, lambda x, rs: self.exit_value(v, x, act, rs, node), out)
        # unknown context manager
        self.monitor.with_unknown(v, st, act, node)
        return body(U(self.tags(v, st)) if not isinstance(v, Ref) else v, st)

    def exit_value(self, v, st, act, rs, node):
        return [s for _, s in self.call(Ext('ctx.__exit__', v), [], {}, st, act, rs, node)]

    def close_value(self, v, st, act, rs, node):
        out = []
        for f, s in self.getattr(v, 'close', st, act, rs, node):
            out += [x for _, x in self.call(f, [], {}, s, act, rs, node)]
        return out

    def after_with(self, o, fin, out):
        for x in o.n:
            out.n += fin(x, out.x)
        for x in o.b:
            out.b += fin(x, out.x)
        for x in o.c:
            out.c += fin(x, out.x)
        for v, x in o.r:
            out.r += [(v, y) for y in fin(x, out.x)]
        for e, x in o.x:
            out.x += [(e, y) for y in fin(x, out.x)]
        return out

    # try ----------------------------------------------------------------
    def exc_names(self, v, st):
        """Names of the exception classes denoted by a handler type value."""
        if isinstance(v, Ext):
            n = v.name
            return [n[9:] if n.startswith('builtins.') else n]
        if isinstance(v, Cls):
            return [v.ci.name]
        if isinstance(v, Tup):
            out = []
            for x in v.items:
                out += self.exc_names(x, st)
            return out
        return ['?']

    def match(self, e, names):
        """Does exception *e* match one of the handler classes? True/False/None."""
        best = False
        for n in names:
            short = n if n.startswith('sqlite3.') else n.split('.')[-1]
            if n == '?':
                best = None
                continue
            if e.name == '?BaseException':
                if short == 'BaseException':
                    return True
                if short in e.excl:
                    continue
                best = None
                continue
            if e.name == '?Exception':
                if short in ('BaseException', 'Exception'):
                    return True
                if short in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit') or short in e.excl:
                    continue
                best = None
                continue
            if short in self.proj.exc_ancestors(e.name):
                return True
        return best

    def ex_Try(self, s, st, act):
        out = Out()
        hnames = []
        for h in s.handlers:
            if h.type is None:
                hnames.append(['BaseException'])
            else:
                rs = []
                vals = self.ev(h.type, st, act, rs)
                hnames.append(self.exc_names(vals[0][0], st) if vals else ['?'])
        flatn = {n.split('.')[-1] if not n.startswith('sqlite3.') else n for ns in hnames for n in ns}
        act.lexcatch.append(flatn)
        self.soft_wanted.append(flatn)
        try:
            ob = self.exec_block(s.body, st, act)
        finally:
            act.lexcatch.pop()
            self.soft_wanted.pop()
        res = Out()
        res.r += ob.r
        res.b += ob.b
        res.c += ob.c
        # else clause
        for x in ob.n:
            if s.orelse:
                res.add(self.exec_block(s.orelse, x, act))
            else:
                res.n.append(x)
        # handlers
        xs = ob.x
        if len(xs) > 6:
            xs = self.dedupe_vals(xs)
        for e, x in xs:
            cur, cs = e, x
            consumed = False
            for h, names in zip(s.handlers, hnames):
                m = self.match(cur, names)
                if m is False:
                    continue
                if m is None:
                    xs2 = cs.fork()
                    ne = cur
                    single = [n for n in names if n != '?']
                    if cur.name.startswith('?') and len(single) == 1:
                        n0 = single[0]
                        if n0.split('.')[-1] == 'Exception':
                            ne = ExcV('?Exception', cur.msg, cur.site)
                        else:
                            ne = ExcV(n0 if n0.startswith('sqlite3.') else n0.split('.')[-1], cur.msg, cur.site)
                    self.handle(h, ne, xs2, act, res)
                    ex = cur.excl | {n if n.startswith('sqlite3.') else n.split('.')[-1] for n in names}
                    if 'Exception' in ex and cur.name == '?BaseException':
                        ex = frozenset(ex)
                    cur = ExcV(cur.name, cur.msg, cur.site, frozenset(ex))
                    continue
                self.handle(h, cur, cs, act, res)
                consumed = True
                break
            if not consumed:
                res.x.append((cur, cs))
        if not s.finalbody:
            out.add(res)
            return out
        # finally
        for x in self.reduce(res.n):
            out.add(self.exec_block(s.finalbody, x, act))
        for x in res.b:
            o = self.exec_block(s.finalbody, x, act)
            out.b += o.n
            out.add(o, n=False)
        for x in res.c:
            o = self.exec_block(s.finalbody, x, act)
            out.c += o.n
            out.add(o, n=False)
        for v, x in (self.dedupe_vals(res.r) if len(res.r) > 3 else res.r):
            name = f'.fin{id(s)}'
            x.fr[act.fid] = {**x.fr.get(act.fid, {}), name: v}
            o = self.exec_block(s.finalbody, x, act)
            for y in o.n:
                vs = dict(y.fr[act.fid])
                v2 = vs.pop(name, v)
                y.fr[act.fid] = vs
                out.r.append((v2, y))
            out.add(o, n=False)
        for e, x in (self.dedupe_vals(res.x) if len(res.x) > 3 else res.x):
            o = self.exec_block(s.finalbody, x, act)
            out.x += [(e, y) for y in o.n]
            out.add(o, n=False)
        return out

    ex_TryStar = ex_Try

    def handle(self, h, e, st, act, res):
        vs = dict(st.fr.get(act.fid, {}))
        old = vs.get('.exc')
        vs['.exc'] = e
        if h.name:
            vs[h.name] = e
        st.fr[act.fid] = vs
        self.monitor.on_handler(h, e, st, act)
        o = self.exec_block(h.body, st, act)

        def clean(x):
            vs = x.fr.get(act.fid)
            if vs is None:
                return
            vs = dict(vs)
            vs.pop('.exc', None)
            if old is not None:
                vs['.exc'] = old
            if h.name:
                vs.pop(h.name, None)
            x.fr[act.fid] = vs
        for x in o.n + o.b + o.c:
            clean(x)
        for _, x in o.r + o.x:
            clean(x)
        res.add(o)


class _NodeId:
    """Stands for an AST node by id in frame interning."""
    _cache = {}

    def __new__(cls, i):
        r = cls._cache.get(i)
        if r is None:
            r = object.__new__(cls)
            cls._cache[i] = r
        return r


def list_elem(o):
    if 'exact' in o.attrs:
        items = o.attrs['exact'].items
        if not items:
            return None, False
        e = items[0]
        for x in items[1:]:
            e = join(e, x)
        return e, True
    return o.attrs.get('elem'), bool(o.attrs.get('ne'))


def elem_u(v):
    """Element of an unknown iterable."""
    if v.kind == 'str':
        return U(v.tags, kind='str')
    if v.kind == 'rows':
        return U(v.tags, kind='row')
    return U(v.tags)


def flat(args, kw):
    for a in args:
        if isinstance(a, tuple):
            yield a[1]
        else:
            yield a
    for k, v in kw.items():
        yield v
