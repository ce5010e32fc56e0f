"""Parse SQL templates (constant text with holes) into abstract events."""
import re

from .values import C, U, S, Tup, Ref

TOK = re.compile(r"""
    (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
  | (?P<str>'(?:[^']|'')*')
  | (?P<qid>"(?:[^"]|"")*"|\[[^\]]*\]|`[^`]*`)
  | (?P<num>\d+(?:\.\d+)?)
  | (?P<par>\?|[:@$][A-Za-z_]\w*)
  | (?P<word>(?:[A-Za-z_]|«\d+»)(?:\w|«\d+»)*)
  | (?P<op>\|\||<>|!=|<=|>=|==|.)
""", re.X | re.S)


class Tok:
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k = k
        self.t = t

    def __repr__(self):
        return self.t

    @property
    def up(self):
        return self.t.upper() if self.k == 'word' else self.t


def tokenize(text):
    out = []
    for m in TOK.finditer(text):
        k = m.lastgroup
        if k != 'ws':
            out.append(Tok(k, m.group()))
    return out


class SqlEv:
    """One abstract SQL statement."""

    def __init__(self):
        self.verb = 'OTHER'
        self.table = None
        self.reads = []
        self.cols = []          # INSERT column list / UPDATE SET columns / SELECT items
        self.colvals = {}       # column -> value or ('expr', text)
        self.where = {}         # column -> value ('col = ?' conjuncts)
        self.wheretext = ''
        self.order = ''
        self.conflict = None
        self.pragma = None
        self.arg = None
        self.text = ''
        self.toks = []
        self.holes = []         # hole values
        self.params = None
        self.site = None
        self.starcols = False
        self.positional = []    # values bound to ? in order
        self.unparsed = False
        self.kindword = None    # TABLE/TRIGGER/INDEX for DDL
        self.name = None
        self.distinct = False

    @property
    def is_write(self):
        return self.verb in ('INSERT', 'REPLACE', 'UPDATE', 'DELETE')

    @property
    def is_ddl(self):
        return self.verb in ('CREATE', 'DROP', 'ALTER')

    @property
    def temp(self):
        return self.verb == 'CREATE' and any(t.up in ('TEMP', 'TEMPORARY') for t in self.toks[1:3])

    def __repr__(self):
        return f'<{self.verb} {self.table or self.pragma or ""}>'


def template(v, st=None, eng=None):
    """-> (text with «i» holes, [hole values])"""
    if isinstance(v, C):
        return (v.v if isinstance(v.v, str) else str(v.v)), []
    if isinstance(v, S):
        text, holes = '', []
        for p in v.parts:
            if isinstance(p, str):
                text += p
            else:
                text += f'«{len(holes)}»'
                holes.append(p)
        return text, holes
    return '«0»', [v]


def split_statements(text):
    """Split on ';' outside strings and BEGIN..END trigger bodies."""
    out, cur, depth, trig = [], '', 0, False
    for m in TOK.finditer(text):
        t = m.group()
        k = m.lastgroup
        if k == 'word':
            u = t.upper()
            if u == 'TRIGGER':
                trig = True
            elif u in ('BEGIN', 'CASE') and (trig or u == 'CASE'):
                depth += 1
            elif u == 'END' and depth:
                depth -= 1
        if k == 'op' and t == ';' and depth == 0:
            if cur.strip():
                out.append(cur)
            cur, trig = '', False
            continue
        cur += t
    if re.sub(r'--[^\n]*', '', cur).strip():
        out.append(cur)
    return out


def ident(t):
    if t.k == 'qid':
        return t.t[1:-1]
    return t.t


def read_name(toks, i):
    """Read a possibly qualified name at i -> (name, next i)"""
    if i >= len(toks):
        return None, i
    name = ident(toks[i])
    i += 1
    while i + 1 < len(toks) and toks[i].t == '.' and toks[i + 1].k in ('word', 'qid'):
        name = ident(toks[i + 1])
        i += 2
    return name, i


def paren_list(toks, i):
    """toks[i] == '(' -> (list of token lists, index after ')')"""
    depth, out, cur = 0, [], []
    while i < len(toks):
        t = toks[i].t
        if t == '(':
            depth += 1
            if depth > 1:
                cur.append(toks[i])
        elif t == ')':
            depth -= 1
            if depth == 0:
                out.append(cur)
                return out, i + 1
            cur.append(toks[i])
        elif t == ',' and depth == 1:
            out.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    out.append(cur)
    return out, i


def split_top(toks, sep=','):
    depth, out, cur = 0, [], []
    for t in toks:
        if t.t == '(':
            depth += 1
        elif t.t == ')':
            depth -= 1
        if t.t == sep and depth == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    out.append(cur)
    return out


def parse(text, holes, params=None, lookup=None):
    """*lookup(params, key)* -> value for positional index or name."""
    ev = SqlEv()
    ev.text = text
    ev.holes = holes
    ev.params = params
    toks = ev.toks = tokenize(text)
    if not toks:
        ev.verb = 'EMPTY'
        return ev
    # number the positional parameters
    npos = 0
    pmap = {}
    for idx, t in enumerate(toks):
        if t.k == 'par':
            if t.t == '?':
                pmap[idx] = npos
                npos += 1
            else:
                pmap[idx] = t.t[1:]
    index_of = {id(t): i for i, t in enumerate(toks)}

    def pval(tok):
        if lookup is None:
            return None
        return lookup(params, pmap[index_of[id(tok)]], npos)
    ev.positional = [lookup(params, i, npos) if lookup else None for i in range(npos)]
    first = toks[0].up
    ups = [t.up for t in toks]

    def exprval(e):
        if len(e) == 1 and e[0].k == 'par':
            return pval(e[0])
        return ('expr', ' '.join(t.t for t in e), [pval(t) for t in e if t.k == 'par'])

    def do_where(i):
        ws = toks[i:]
        # stop at ORDER/GROUP/LIMIT at top level
        depth = 0
        end = len(ws)
        for j, t in enumerate(ws):
            if t.t == '(':
                depth += 1
            elif t.t == ')':
                depth -= 1
            elif depth == 0 and t.up in ('ORDER', 'GROUP', 'LIMIT', 'EXCEPT', 'UNION', 'RETURNING'):
                end = j
                break
        body = ws[:end]
        ev.wheretext = ' '.join(t.t for t in body)
        # conjuncts
        depth = 0
        cur, conj = [], []
        for t in body:
            if t.t == '(':
                depth += 1
            elif t.t == ')':
                depth -= 1
            if depth == 0 and t.up == 'AND':
                conj.append(cur)
                cur = []
            else:
                cur.append(t)
        conj.append(cur)
        for c in conj:
            ops = [j for j, t in enumerate(c) if t.t in ('=', '==') or t.up == 'IS']
            if len(ops) == 1 and ops[0] > 0:
                left, right = c[:ops[0]], c[ops[0] + 1:]
                col = ident(left[-1])
                if right:
                    ev.where[col] = exprval(right)

    def do_order():
        depth = 0
        for j, t in enumerate(toks):
            if t.t == '(':
                depth += 1
            elif t.t == ')':
                depth -= 1
            elif depth == 0 and t.up == 'ORDER' and j + 1 < len(toks):
                ev.order = ' '.join(x.t for x in toks[j + 2:])
                break

    def do_reads():
        for j, u in enumerate(ups):
            if u in ('FROM', 'JOIN') and j + 1 < len(toks):
                k = j + 1
                while k < len(toks):
                    if toks[k].t == '(':
                        break
                    name, k = read_name(toks, k)
                    if name:
                        ev.reads.append(name)
                    if k < len(toks) and toks[k].up == 'AS':
                        k += 2
                    elif k < len(toks) and toks[k].k in ('word', 'qid') and toks[k].up not in KW:
                        k += 1
                    if k < len(toks) and toks[k].t == ',':
                        k += 1
                        continue
                    break

    if first in ('SELECT', 'WITH', 'VALUES'):
        ev.verb = 'SELECT'
        do_reads()
        if first == 'SELECT':
            i = 1
            if ups[1:2] == ['DISTINCT']:
                i = 2
                ev.distinct = True
            depth, j = 0, i
            while j < len(toks):
                if toks[j].t == '(':
                    depth += 1
                elif toks[j].t == ')':
                    depth -= 1
                elif depth == 0 and toks[j].up == 'FROM':
                    break
                j += 1
            for item in split_top(toks[i:j]):
                if not item:
                    continue
                if item[-1].t == '*' and len(item) <= 3:
                    ev.starcols = True
                    ev.cols.append('*')
                else:
                    names = [t for t in item if t.k in ('word', 'qid')]
                    simple = all(t.k in ('word', 'qid') or t.t == '.' for t in item)
                    ev.cols.append(ident(names[-1]) if names and simple else ' '.join(t.t for t in item))
            depth = 0
            for j2 in range(j, len(toks)):
                if toks[j2].t == '(':
                    depth += 1
                elif toks[j2].t == ')':
                    depth -= 1
                elif depth == 0 and toks[j2].up == 'WHERE':
                    do_where(j2 + 1)
                    break
            if j < len(toks):
                n, _ = read_name(toks, j + 1)
                ev.table = n
        do_order()
        if any(u in ('INSERT', 'UPDATE', 'DELETE', 'REPLACE') for u in ups) and first == 'WITH':
            for u in ('INSERT', 'UPDATE', 'DELETE'):
                if u in ups:
                    i = ups.index(u)
                    sub = parse(' '.join(t.t for t in toks[i:]), holes, params, lookup)
                    sub.text = text
                    return sub
        return ev
    if first in ('INSERT', 'REPLACE'):
        ev.verb = 'INSERT'
        i = 1
        if first == 'REPLACE':
            ev.conflict = 'REPLACE'
        if ups[1:2] == ['OR']:
            ev.conflict = ups[2]
            i = 3
        if i < len(ups) and ups[i] == 'INTO':
            i += 1
        ev.table, i = read_name(toks, i)
        if i < len(toks) and toks[i].t == '(':
            cols, i = paren_list(toks, i)
            ev.cols = [ident(c[-1]) if c else '' for c in cols]
        if i < len(toks) and toks[i].up == 'VALUES':
            vals, j = paren_list(toks, i + 1)
            allv = [exprval(v) for v in vals]
            if ev.cols:
                for c, v in zip(ev.cols, allv):
                    ev.colvals[c] = v
                if len(ev.cols) != len(allv):
                    ev.unparsed = True
            else:
                for n, v in enumerate(allv):
                    ev.colvals[n] = v
        else:
            do_reads()
        if 'CONFLICT' in ups:
            k = ups.index('CONFLICT')
            ev.conflict = 'DO ' + ' '.join(x for x in ups[k:] if x in ('NOTHING', 'UPDATE'))
        return ev
    if first == 'UPDATE':
        ev.verb = 'UPDATE'
        i = 1
        if ups[1:2] == ['OR']:
            ev.conflict = ups[2]
            i = 3
        ev.table, i = read_name(toks, i)
        while i < len(toks) and toks[i].up != 'SET':
            i += 1
        i += 1
        depth, j = 0, i
        while j < len(toks):
            if toks[j].t == '(':
                depth += 1
            elif toks[j].t == ')':
                depth -= 1
            elif depth == 0 and toks[j].up in ('WHERE', 'FROM'):
                break
            j += 1
        for a in split_top(toks[i:j]):
            depth, eq = 0, None
            for n, t in enumerate(a):
                if t.t == '(':
                    depth += 1
                elif t.t == ')':
                    depth -= 1
                elif t.t == '=' and depth == 0:
                    eq = n
                    break
            if eq is None:
                ev.unparsed = True
                continue
            left, right = a[:eq], a[eq + 1:]
            if left and left[0].t == '(':
                ls, _ = paren_list(left, 0)
                if right and right[0].t == '(':
                    rs, _ = paren_list(right, 0)
                else:
                    rs = [right]
                for c, v in zip(ls, rs):
                    if c:
                        ev.cols.append(ident(c[-1]))
                        ev.colvals[ident(c[-1])] = exprval(v)
            else:
                ev.cols.append(ident(left[-1]))
                ev.colvals[ident(left[-1])] = exprval(right)
        depth = 0
        for j2 in range(j, len(toks)):
            if toks[j2].t == '(':
                depth += 1
            elif toks[j2].t == ')':
                depth -= 1
            elif depth == 0 and toks[j2].up == 'WHERE':
                do_where(j2 + 1)
                break
        do_reads()
        # sub-selects read as well
        return ev
    if first == 'DELETE':
        ev.verb = 'DELETE'
        i = 1
        if ups[1:2] == ['FROM']:
            i = 2
        ev.table, i = read_name(toks, i)
        for j2 in range(i, len(toks)):
            if toks[j2].up == 'WHERE':
                do_where(j2 + 1)
                break
        return ev
    if first in ('BEGIN', 'COMMIT', 'END', 'ROLLBACK', 'SAVEPOINT', 'RELEASE'):
        ev.verb = 'COMMIT' if first == 'END' else first
        if first == 'ROLLBACK' and 'TO' in ups:
            ev.verb = 'ROLLBACK_TO'
        return ev
    if first == 'PRAGMA':
        ev.verb = 'PRAGMA'
        ev.pragma, i = read_name(toks, 1)
        ev.pragma = (ev.pragma or '').lower()
        if i < len(toks) and toks[i].t in ('=', '('):
            rest = [t for t in toks[i + 1:] if t.t not in (')', ';')]
            ev.arg = ' '.join(t.t for t in rest).strip().strip("'\"")
            if toks[i].t == '(' and ev.pragma in ('table_info', 'foreign_key_check', 'index_list', 'table_xinfo',
                                                  'foreign_key_list', 'index_info'):
                ev.reads.append(ev.arg)
        return ev
    if first in ('CREATE', 'DROP', 'ALTER'):
        ev.verb = first
        for i, u in enumerate(ups[1:], 1):
            if u in ('TABLE', 'TRIGGER', 'INDEX', 'VIEW'):
                ev.kindword = u
                i += 1
                while i < len(ups) and ups[i] in ('IF', 'NOT', 'EXISTS'):
                    i += 1
                ev.name, i = read_name(toks, i)
                ev.table = ev.name
                if u in ('TRIGGER', 'INDEX') and 'ON' in ups[i:]:
                    k = i + ups[i:].index('ON')
                    ev.table, _ = read_name(toks, k + 1)
                if first == 'ALTER' and 'RENAME' in ups[i:]:
                    k = i + ups[i:].index('RENAME')
                    if k + 1 < len(ups) and ups[k + 1] == 'TO':
                        ev.arg, _ = read_name(toks, k + 2)
                        ev.conflict = 'RENAME_TABLE'
                    else:
                        ev.conflict = 'RENAME_COLUMN'
                elif first == 'ALTER' and 'ADD' in ups[i:]:
                    ev.conflict = 'ADD_COLUMN'
                elif first == 'ALTER' and 'DROP' in ups[i:]:
                    ev.conflict = 'DROP_COLUMN'
                break
        return ev
    if first == 'VACUUM':
        ev.verb = 'VACUUM'
        if 'INTO' in ups:
            ev.arg = ev.positional[0] if ev.positional else ' '.join(t.t for t in toks[ups.index('INTO') + 1:])
        return ev
    ev.verb = first if first in ('ATTACH', 'DETACH', 'ANALYZE', 'REINDEX', 'EXPLAIN') else 'OTHER'
    return ev


KW = {'WHERE', 'GROUP', 'ORDER', 'LIMIT', 'JOIN', 'LEFT', 'INNER', 'CROSS', 'ON', 'USING', 'EXCEPT', 'UNION',
      'INTERSECT', 'SET', 'VALUES', 'NATURAL', 'OUTER', 'HAVING', 'WINDOW', 'AS', 'SELECT'}


def truth_of_expr(text, env):
    """Truth of a simple SQL condition under constants for some columns: True, False or None (not decided)."""
    toks = [t for t in tokenize(text)]
    pos = [0]

    def peek():
        return toks[pos[0]].up if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1].up

    def operand():
        u = peek()
        if u is None:
            return None
        if u == '(':
            take()
            v = expr()
            if peek() == ')':
                take()
            return v
        take()
        if peek() == '.':       # a qualified column
            take()
            u = take()
        if peek() == '(':       # a function call
            d = 0
            while peek() is not None:
                x = take()
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
            return None
        u2 = u.strip('"')
        if u2 in env:
            return env[u2]
        try:
            return float(u)
        except ValueError:
            return None

    def comparison():
        if peek() == 'NOT':
            take()
            v = comparison()
            return None if v is None else not v
        a = operand()
        ops = {'=': lambda x, y: x == y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y,
               '<>': lambda x, y: x != y, '<': lambda x, y: x < y, '>': lambda x, y: x > y,
               '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y, 'IS': lambda x, y: x == y}
        op = peek()
        if op in ('<', '>', '!', '=') and pos[0] + 1 < len(toks) and toks[pos[0] + 1].up in ('=', '>') and op + \
                toks[pos[0] + 1].up in ops:
            take()
            op = op + take()
        elif op in ops:
            take()
            if op == 'IS' and peek() == 'NOT':
                take()
                op = '!='
        else:
            if op not in (None, ')', 'AND', 'OR'):
                while peek() not in (None, ')', 'AND', 'OR'):
                    take()
                return None
            return a
        b = operand()
        while peek() not in (None, ')', 'AND', 'OR'):
            take()
            a = None
        if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
            return None
        return ops[op](a, b)

    def conj():
        v = comparison()
        while peek() == 'AND':
            take()
            w = comparison()
            v = False if v is False or w is False else (True if v is True and w is True else None)
        return v

    def expr():
        v = conj()
        while peek() == 'OR':
            take()
            w = conj()
            v = True if v is True or w is True else (False if v is False and w is False else None)
        return v
    v = expr()
    return v if isinstance(v, bool) and pos[0] >= len(toks) else None
