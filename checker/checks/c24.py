"""C24: each stored field is written to and read from its own column."""
from ..frame import EngineCheck
from ..rules import SpaceMonitor
from ..project import AnalysisBroken
from ..values import C, EMPTY, Fn, GenV, ItV, NONE, Obj, Ref, Tup, U, V
from .. import models

# repository: (record class, table, {field: column} where they differ)
REPOS = {
    'IndexRepository': ('Index', 'label_index', {'id': 'index_id'}),
    'LocationRepository': ('Location', 'label_location', {'id': '_location_id'}),
    'StructureRepository': ('Structure', 'label_structure', {'id': '_structure_id', 'granularity': '_granularity'}),
    'WeightGroupRepository': ('WeightGroup', 'weight_group', {'id': 'weight_group_id'}),
    'WeightRepository': ('Weight', 'weight', {'id': 'weight_id', 'value': 'weight_value'}),
    'AttributeGroupRepository': ('AttributeGroup', 'attribute_group', {'id': 'attribute_group_id'}),
    'QuantityRepository': ('Quantity', 'quantity', {'id': 'quantity_id', 'location_id': '_location_id', 'value': 'quantity_value'}),
    'LinkRepository': ('Link', 'link', {'id': 'link_id'}),
    'MappingRepository': ('MappingRecord', 'mapping', {'id': 'mapping_id', 'value': 'mapping_value'}),
    'PropertyRepository': (None, 'property', {}),
}
# a parameter that stands for a column under another name
PARAMS = {'AttributeGroupRepository': {'value': 'attributes'}}
LABELS = ('labels', 'bits', 'label', 'bit')


class ColumnMonitor(SpaceMonitor):
    tag_ifexp = True

    def initial(self):
        return ()

    def on_sql(self, ev, cur, st, act, node, rs):
        if self.spec is not None:
            self.check_.statement(self, ev, st, act, node)
            if ev.table == self.table and (ev.is_write or ev.verb == 'SELECT') or ev.reads == [self.table]:
                st.mon = tuple(sorted(set(st.mon) | {f'{ev.verb}'}))
        return None

    def cell(self, c):
        c = c.split('.')[-1].strip('"')
        return U([f'COL:{c}'], notnone=True)

    def row(self, ev):
        """The fields of a row of the table of this repository, each marked with its column."""
        if self.spec is None or ev.verb != 'SELECT' or self.table not in ev.reads:
            return None
        if [c.split('.')[-1] for c in ev.cols] == ['*']:
            out = [self.cell(c) for c in self.columns]
            if self.labelled:
                out += [self.cell('label A'), self.cell('label B')]
            return Tup(out)
        if all(c.split('.')[-1].strip('"') in self.columns for c in ev.cols):
            return Tup([self.cell(c) for c in ev.cols])
        return None

    def cursor_rows(self, ev, st):
        if self.spec is not None and ev.verb == 'PRAGMA' and ev.pragma == 'table_info':
            return self.table_info(ev)
        r = self.row(ev)
        return None if r is None else [r]

    def table_info(self, ev):
        t = self.eng.schema.tables.get((ev.arg or '').strip('\'"'))
        if t is None:
            return None
        names = [c.name for c in t.cols]
        if self.labelled:
            names += ['label A', 'label B']
        return [Tup([C(i), C(n)] + [U()] * 4) for i, n in enumerate(names)]

    def fetch_cases(self, ev, how, st):
        if self.spec is None:
            return None
        if how == 'all' and ev.verb == 'PRAGMA' and ev.pragma == 'table_info':
            r = self.table_info(ev)
            return None if r is None else [(tuple(r), None)]
        r = self.row(ev)
        if r is None:
            return None
        if how == 'all':
            return [((r,), None)]

        def missing(s):
            s.mon = tuple(sorted(set(s.mon) | {'missing'}))
        return [(r, None), (NONE, missing)]


class C24(EngineCheck):
    id = 'C24'
    monitor = ColumnMonitor
    technique = 'field-to-column correspondence by provenance analysis of every repository method (abstract interpretation of the SQL it builds)'
    level_note = ('All paths of every method of the ten repositories, conditional variants included, for unknown values. Columns are those of the schema; '
                  'label columns are an arbitrary pair. What SQLite stores (affinity, JSON text) is outside the analysed source.')
    explanation = ('In INSERT and UPDATE statements each column receives its own field and no other, updates and deletions are restricted by the '
                   'primary key of the record, records that are returned have each field from its own column (or from the argument that column is '
                   'compared with), optional criteria restrict their own column, and a row that was not found raises an error.')
    rules = ('wrong-column', 'lost-field', 'wrong-criteria', 'unrestricted', 'wrong-field', 'not-reported', 'wrong-table')
    extra_entries = ()
    only_methods = ()
    floors = {'entry_points': 60, 'columns_written': 60, 'fields_read': 80, 'criteria': 50, 'missing_rows': 10}

    def tasks(self):
        out = []
        for r in REPOS:
            ci = self.proj.cls('toron.dal1.repositories', r)
            for n, m in ci.methods.items():
                if n.startswith('_'):
                    continue
                for k in range(1 + len(m.alts)):
                    for var in self.call_variants(m):
                        out.append((('mem', f'{r}.{n}', (k, var)), 1))
        return out

    def call_variants(self, m):
        """Methods with optional criteria are called with all of them and with each alone."""
        a = m.node.args
        opt = [x.arg for x in a.kwonlyargs]
        if opt and m.node.name != 'add' and all(isinstance(d, type(a.kw_defaults[0])) for d in a.kw_defaults):
            return [None] + opt
        return [None]

    def make_monitor(self):
        m = super().make_monitor()
        m.spec = m.table = None
        m.check_ = self
        return m

    # -- the correspondence -----------------------------------------------
    def colmap(self, repo):
        rec, table, ren = REPOS[repo]
        if table not in self.eng.schema.tables:
            raise AnalysisBroken(f'no table {table}')
        cols = [c.name for c in self.eng.schema.tables[table].cols]
        out = {}
        if rec is not None:
            ci = self.proj.cls('toron.data_models', rec)
            names = [f for f, _ in self.proj.dataclass_fields(ci)]
            if not names:
                init = self.proj.find_method(ci, '__init__')
                names = [x.arg for x in init.node.args.args[1:]] + [init.node.args.vararg.arg]
            for f in names:
                if f not in LABELS:
                    out[f] = ren.get(f, f)
            out = {f: c for f, c in out.items()}
            for f, c in out.items():
                if c not in cols:
                    raise AnalysisBroken(f'{repo}: no column {c} for field {f}')
        for c in cols:
            if c not in out.values():
                out[c] = c
        out.update(PARAMS.get(repo, {}))
        return out, cols

    def extra(self, name, eng, v, st, act, rs, node):
        mon = eng.monitor
        repo, meth = name.split('.')
        eng.inflight.append(v.refs())
        conn = next(r for r, o in st.heap.items() if o.kind == 'conn')
        cur = models.conn_cursor(eng, _Self(Ref(conn)), [], {}, st, act, rs, node)[0][0]
        eng.inflight.append(cur.refs())
        ci = self.proj.cls('toron.dal1.repositories', repo)
        m = ci.methods[meth]
        (obj, st), = eng.instantiate(ci, [cur], {}, st, act, rs, m.node)
        eng.inflight.append(obj.refs())
        k, only = eng_variant = self.variant
        fi = ([m] + list(m.alts))[k]
        mon.map, mon.columns = self.colmap(repo)
        mon.labelled = mon.columns[0] in ('index_id', '_location_id', '_structure_id')
        rec, mon.table, _ = REPOS[repo]
        mon.rec, mon.meth, mon.only = rec, fi, only
        mon.cols_seen, mon.reads_seen, mon.want = {}, {}, set()
        args, kw = self.arguments(mon, fi, only, rec, st, act, eng)
        mon.spec = repo
        st.mon = ()
        del rs[:]
        outs = eng.call_fn(Fn(fi, obj), args, kw, st, act, rs, fi.node)
        res = []
        for r, s in outs:
            if isinstance(r, (GenV, ItV)):
                def each(x, s2):
                    self.result(mon, x, s2, act, fi.node)
                    return [('resume', NONE, s2)]
                for y in eng.iterate(r, s, act, rs, each, fi.node):
                    res.append((NONE, y[1]))
            else:
                self.result(mon, r, s, act, fi.node)
                q = eng.seq_of(r, s) if isinstance(r, Ref) else None
                for x in (q[0] or () if q is not None else ()):
                    self.result(mon, x, s, act, fi.node)
                if 'missing' in s.mon and not (isinstance(r, C) and r.v is None and meth != 'get'):
                    eng.report('not-reported', fi.node, act, 'no error is raised although the record was not found', s, key=(eng.entry,))
                res.append((r, s))
        for _, s in rs:
            if 'missing' in s.mon:
                mon.count('missing_rows')
        mon.spec = None
        # every field must be able to reach its column
        for tag in mon.want:
            vs = mon.cols_seen.get(tag)
            if vs is not None and not any(vs):
                eng.report('lost-field', fi.node, act, f'{meth} stores a fixed value in column {mon.map.get(tag, tag)} instead of the given one', st,
                           key=(eng.entry, tag))
        for f, vs in mon.reads_seen.items():
            if not any(vs):
                eng.report('wrong-field', fi.node, act, f'{f} is not filled from its column', st, key=(eng.entry, f))
        return self.few(eng, res)

    def run_task(self, task, res):
        self.variant = task[2]
        super().run_task(task, res)

    def arguments(self, mon, fi, only, rec, st, act, eng):
        a = fi.node.args
        args, kw = [], {}

        def val(n):
            if n == 'record' and rec is not None:
                ci = self.proj.cls('toron.data_models', rec)
                attrs = {f: U([f'arg:{f}'], notnone=True) for f in mon.map}
                for f in LABELS:
                    attrs[f] = Tup((U(['arg:label A']), U(['arg:label B'])))
                mon.want |= {f for f, _ in self.proj.dataclass_fields(ci) if f not in LABELS and f != 'id'}
                o = Obj('inst', ci, attrs)
                return eng.alloc(st, act, fi.node, o, 'record')
            if n in mon.map and n != 'id' and fi.node.name in ('add', 'add_or_update', 'update'):
                mon.want.add(n)
            return U([f'arg:{n}'], notnone=fi.node.name not in ('add',))
        for x in a.args[1:]:
            args.append(val(x.arg))
        if a.vararg and a.vararg.arg in LABELS:
            args[-1:] = [U(['arg:label A'])]
            args.append(U(['arg:label B']))
            if a.args[1].arg not in LABELS:
                args[0] = val(a.args[1].arg)
        for x in a.kwonlyargs:
            kw[x.arg] = NONE if only is not None and x.arg != only else val(x.arg)
        mon.params = [x.arg for x in a.args[1:]] + [x.arg for x in a.kwonlyargs]
        return args, kw

    # -- statements --------------------------------------------------------
    def names(self, v, st):
        if not isinstance(v, V):
            return set()
        return {t[4:] for t in self.eng.tags(v, st) if t.startswith('arg:')}

    def statement(self, mon, ev, st, act, node):
        eng = self.eng
        if ev.is_write:
            if ev.table != mon.table:
                eng.report('wrong-table', node, act, f'{mon.spec} changes table {ev.table}', st, key=(eng.entry,))
                return
            if not isinstance(ev.colvals, dict):
                return
            vals = dict(ev.colvals)
            if any(isinstance(c, int) for c in vals):
                names = mon.columns + (['label A', 'label B'] if mon.labelled else [])
                if len(names) != len(vals):
                    eng.report('wrong-column', node, act, f'{len(vals)} values are stored in {len(names)} columns', st, key=(eng.entry,))
                vals = {names[c]: v for c, v in vals.items() if c < len(names)}
            for col, v in vals.items():
                col = col.strip('"')
                if not isinstance(v, V):
                    continue
                mon.count('columns_written')
                got = self.names(v, st)
                own = {f for f, c in mon.map.items() if c == col} | ({col} if col.startswith('label ') else set())
                if got - own:
                    eng.report('wrong-column', node, act, f'column {col} of {mon.table} receives {", ".join(sorted(got - own))}', st, key=(eng.entry, col))
                elif not got and not isinstance(v, C):
                    eng.report('wrong-column', node, act, f'column {col} of {mon.table} receives a value of unknown origin', st, key=(eng.entry, col))
                for f in own:
                    mon.cols_seen.setdefault(f, []).append(bool(got))
            for f in mon.want:
                if ev.verb in ('INSERT', 'REPLACE', 'UPDATE') and mon.map[f] not in {c.strip('"') for c in vals} \
                        and not (ev.verb == 'UPDATE' and mon.map[f] in ev.where):
                    eng.report('lost-field', node, act, f'{f} is not stored', st, key=(eng.entry, f))
        if ev.is_write and ev.verb in ('UPDATE', 'DELETE') and mon.columns[0] not in ev.where:
            eng.report('unrestricted', node, act, f'a change of {mon.table} is not restricted by {mon.columns[0]}', st, key=(eng.entry,))
        if mon.table in ev.reads or ev.table == mon.table:
            used = set()
            for col, v in (ev.where or {}).items():
                col = col.split('.')[-1].strip('"')
                got = self.names(v, st)
                used |= got
                if not got or col not in mon.columns:
                    continue
                mon.count('criteria')
                own = {f for f, c in mon.map.items() if c == col}
                if got - own and not (got == {'id'} and col == mon.columns[0]):
                    eng.report('wrong-criteria', node, act, f'{col} is compared with {", ".join(sorted(got - own))}', st, key=(eng.entry, col))
            given = [mon.only] if mon.only else [p for p in mon.params if p in mon.map or p == 'id'] if not ev.is_write or ev.verb == 'DELETE' else []
            if ev.verb in ('SELECT', 'DELETE') and ev.where and not any(not isinstance(v, V) for v in ev.where.values()):
                for p in given:
                    if p not in used and mon.meth.node.name.startswith(('get', 'find', 'delete')):
                        eng.report('wrong-criteria', node, act, f'the records are not restricted by {p}', st, key=(eng.entry, p))
            elif any(t.up == 'OR' for t in ev.toks) and given:
                eng.report('wrong-criteria', node, act, 'records that meet only one of the criteria are included', st, key=(eng.entry,))
            elif ev.verb in ('SELECT', 'DELETE') and not ev.where and not ev.wheretext and given and mon.meth.node.name in ('get', 'find', 'delete'):
                eng.report('unrestricted', node, act, f'the records are not restricted by {", ".join(given)}', st, key=(eng.entry,))

    # -- results -----------------------------------------------------------
    def result(self, mon, r, st, act, node):
        eng = self.eng
        o = eng.hget(st, r) if isinstance(r, Ref) else None
        if mon.rec is None:
            if isinstance(r, V):
                cols = {t[4:] for t in eng.tags(r, st) if t.startswith('COL:')}
                if cols:
                    mon.count('fields_read')
                if cols - {'value'}:
                    eng.report('wrong-field', node, act, f'the value of a property is read from column {", ".join(sorted(cols))}', st, key=(eng.entry,))
            return
        if o is None or o.kind != 'inst' or o.cls is None or o.cls.name not in {x[0] for x in REPOS.values()}:
            return
        if o.cls.name != mon.rec:
            return
        for f, c in mon.map.items():
            v = o.attrs.get(f)
            if v is None or f in LABELS or not isinstance(v, V):
                continue
            mon.count('fields_read')
            tags = eng.tags(v, st)
            cols = {t[4:] for t in tags if t.startswith('COL:')}
            args = {t[4:] for t in tags if t.startswith('arg:')}
            if cols - {c}:
                eng.report('wrong-field', node, act, f'{f} is read from column {", ".join(sorted(cols - {c}))}', st, key=(eng.entry, f))
            elif not cols and args - {f}:
                eng.report('wrong-field', node, act, f'{f} is filled from {", ".join(sorted(args - {f}))}', st, key=(eng.entry, f))
            mon.reads_seen.setdefault(f, []).append(bool(cols or args))


class _Self:
    def __init__(self, ref):
        self.self_ = ref
        self.name = 'conn.cursor'


check = C24
