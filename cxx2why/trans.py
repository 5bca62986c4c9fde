"""C++ (clang AST, instantiated templates) -> WhyML.

Every C++ object is modelled by a *value* (records, sequences, finite sets and
maps); a C++ variable is a WhyML reference holding such a value; C++ references
are tracked statically as access paths, so aliasing inside one function is
exact.  Unsupported constructs raise ExtractionError -- nothing is silently
dropped except what DROPPED lists."""
import os, re
from .ast import (ExtractionError, TU, norm, tmpl, qual, walk, params, body, INTS, FLOATS, split_top)

DROPPED = [
    'memory allocation and reserve() (capacity is not modelled)',
    'object lifetimes, destructors and move-from states (moves are copies)',
    'debug/stream output',
    'C++ exceptions are modelled as "must be unreachable" unless a contract allows them',
    'floating point is modelled by real numbers (see assumptions)',
]

RESERVED = set('''abstract absurd alias any as assert assume at axiom begin break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false float for forall
fun function ghost goal if import in inductive invariant label lemma let match meta module mutable not old
partial predicate private pure raise raises reads rec ref requires result return returns scope so then theory to true try
type use val variant while with writes range get set length mod div abs min max empty mem add remove snoc cons create contents
size first second singleton union inter diff map filter fold reverse sort swap find compare'''.split())

IGNORED_CALLS = {'reserve', 'shrink_to_fit'}


def sane(n):
    n = re.sub(r'\W', '_', n)
    if not n:
        n = 'anon'
    if not re.match(r'[a-z]', n):
        n = 'v_' + n
    if n in RESERVED:
        n = n + '_'
    return n


def tmpl_args(t, head):
    """Template arguments following the first occurrence of head in t."""
    i = t.index(head) + len(head)
    d, j = 1, i
    while d:
        if t[j] == '<':
            d += 1
        elif t[j] == '>':
            d -= 1
        j += 1
    return split_top(t[i:j - 1])


# -- model types -------------------------------------------------------------
# ('int',cname) ('bool',) ('real',) ('seq',T) ('oset',T) ('uset',T)
# ('umap',K,V) ('omap',K,V) ('pair',A,B) ('cls',name) ('iter',T) ('unit',)
# ('tie',[..]) ('opaque',name)

class Model:
    def __init__(self, tu, classes=None, models=None, keys=None, opaque=None):
        self.tu = tu
        self.names = dict(classes or {})     # C++ class -> WhyML record name
        self.models = dict(models or {})     # C++ class (regex) -> WhyML type text
        self.keys = dict(keys or {})         # class -> key function for hashed/ordered containers
        self.aliases = {}
        self.adaptors = {}                   # iterator adaptor class -> element type
        self.pure = []                       # classes whose operator== is proved to be equality of all fields
        self.adaptor_base = {}               # iterator adaptor class -> element type of the base iterator
        self.used = []

    def mtype(self, t):
        if 'multi_index' in t:
            m = self.mic_type(t)
            if m:
                return m
        t = norm(t)
        if t.split('::')[-1] in self.adaptors:
            return ('iter', self.mtype(self.adaptors[t.split('::')[-1]]))
        if t in self.aliases:
            t = norm(self.aliases[t])
        if t in ('void', ''):
            return ('unit',)
        if t == 'bool' or t == 'reference' and False:
            return ('bool',)
        if t in INTS:
            return ('int', t)
        if t in FLOATS:
            return ('real',)
        n, a = tmpl(t)
        for rx, w in self.models.items():
            if re.fullmatch(rx, t):
                return ('model', w, t)
        if n in ('vector', 'list', 'deque', 'initializer_list'):
            return ('seq', self.mtype(a[0]))
        if n == 'array':
            return ('seq', self.mtype(a[0]))
        if n in ('set',):
            return ('oset', self.mtype(a[0]))
        if n in ('unordered_set',):
            return ('uset', self.mtype(a[0]))
        if n in ('unordered_map',):
            return ('umap', self.mtype(a[0]), self.mtype(a[1]))
        if n in ('map',):
            return ('omap', self.mtype(a[0]), self.mtype(a[1]))
        if n in ('pair', ):
            return ('pair', self.mtype(a[0]), self.mtype(a[1]))
        if n == 'tuple':
            if len(a) == 2:
                return ('pair', self.mtype(a[0]), self.mtype(a[1]))
        if n == '__normal_iterator':
            p = a[0].rstrip('*').strip()
            return ('iter', self.mtype(p))
        if n in ('_List_iterator', '_List_const_iterator', '_Rb_tree_const_iterator', '_Rb_tree_iterator'):
            return ('iter', self.mtype(a[0]))
        if n in ('_Node_const_iterator', '_Node_iterator'):
            return ('iter', self.mtype(a[0]))
        if n in ('reverse_iterator',):
            x = self.mtype(a[0])
            return ('riter', x[1])
        if n in ('back_insert_iterator', 'insert_iterator'):
            return ('inserter', self.mtype(a[0]))
        if t.endswith('*'):
            x = self.mtype(t[:-1])
            if x[0] in ('uset', 'umap', 'oset', 'omap'):
                return x                         # pointer to a constant container, see e_UnaryOperator
            return ('seq', x)                    # owned array
        if t.endswith('iterator') or t.endswith('Iterator'):
            m = re.match(r'(.*)::\w*[iI]terator$', t)
            if m:
                c = self.mtype(m.group(1))
                if c[0] in ('seq', 'oset', 'uset'):
                    return ('iter', c[1])
        if t in self.tu.classes or t in self.names:
            return ('cls', t)
        # inherited typedef names inside an instantiation
        raise ExtractionError('no model for C++ type "%s"' % t)

    MIC = ('multi_index_container<', 'random_access<', 'ordered_unique<', 'identity<', 'ordered_non_unique<', 'const_mem_fun<')

    def mic_type(self, t):
        """boost::multi_index containers (random access + unique order + order by dimension) and their iterators."""
        t = re.sub(r'^\s*const\s+', '', t.strip())
        m = re.match(r'boost::multi_index::multi_index_container<', t)
        if m:
            pos = -1
            for w in self.MIC:
                q = t.find(w)
                if q < pos or q < 0:
                    raise ExtractionError('multi_index container with unexpected indices')
                pos = q
            if '&' not in t or not re.search(r'const_mem_fun<[^&]*&[\w:<>, ]*::dimension', t):
                raise ExtractionError('multi_index container not ordered by dimension')
            return ('mic', self.mtype(tmpl_args(t, 'multi_index_container<')[0]))
        if re.match(r'boost::multi_index::detail::(rnd|bidir)_node_iterator<', t):
            return ('iter', self.mtype(tmpl_args(t, 'index_node_base<')[0]))
        return None

    def wname(self, cls):
        if cls not in self.names:
            self.names[cls] = sane(re.sub(r'<.*', '', cls).lower())
        return self.names[cls]

    def wtype(self, m):
        k = m[0]
        if k == 'int':
            return 'int'
        if k == 'bool':
            return 'bool'
        if k == 'real':
            return 'real'
        if k == 'unit':
            return '()'
        if k == 'model':
            return '(' + m[1] + ')' if ' ' in m[1] else m[1]
        if k in ('seq', 'mic'):
            return '(seq %s)' % self.wtype(m[1])
        if k == 'oset':
            if m[1][0] == 'int':
                return 'oset'
            return '(seq %s)' % self.wtype(m[1])
        if k == 'uset':
            return '(fset %s)' % self.kwtype(m[1])
        if k in ('umap', 'omap'):
            return '(fmap %s %s)' % (self.kwtype(m[1]), self.wtype(m[2]))
        if k == 'pair':
            return '(%s, %s)' % (self.wtype(m[1]), self.wtype(m[2]))
        if k == 'cls':
            if m[1] not in self.used:
                self.used.append(m[1])
            return self.wname(m[1])
        if k in ('iter', 'riter'):
            return 'int'
        raise ExtractionError('no WhyML type for %r' % (m,))

    def kwtype(self, m):
        if m[0] == 'cls' and m[1] in self.keys:
            return self.keys[m[1]][1]
        if m[0] == 'model' and m[2] in self.keys:
            return self.keys[m[2]][1]
        return self.wtype(m)

    def key(self, m, e):
        n = m[1] if m[0] == 'cls' else (m[2] if m[0] == 'model' else None)
        if n in self.keys:
            return '(%s %s)' % (self.keys[n][0], e)
        return e

    def fields(self, cls):
        c = self.tu.classes.get(cls)
        if c is None:
            raise ExtractionError('class %s not found in the extracted source' % cls)
        out = []
        for x in c.get('inner', []):
            if x and x.get('kind') == 'FieldDecl':
                out.append((x.get('name'), x))
        return out

    def fieldname(self, cls, f):
        return self.wname(cls) + '_' + re.sub(r'^_+', '', f)

    def record(self, cls):
        fs = []
        for n, x in self.fields(cls):
            fs.append('%s : %s' % (self.fieldname(cls, n), self.wtype(self.mtype(qual(x)))))
        if not fs:
            return 'type %s = { %s_unit : int }' % (self.wname(cls), self.wname(cls))
        return 'type %s = { %s }' % (self.wname(cls), '; '.join(fs))

    def records(self):
        done, out = set(), []

        def go(cls):
            if cls in done:
                return
            done.add(cls)
            for n, x in self.fields(cls):
                for c in self.deps(self.mtype(qual(x))):
                    go(c)
            out.append(self.record(cls))
        i = 0
        while i < len(self.used):
            go(self.used[i])
            i += 1
        return out

    def deps(self, m):
        if m[0] == 'cls':
            return [m[1]]
        out = []
        for y in m[1:]:
            if isinstance(y, tuple):
                out += self.deps(y)
        return out


# -- values ------------------------------------------------------------------

class Val:
    """pure WhyML expression"""
    def __init__(self, s, t):
        self.s, self.t = s, t


class Path:
    """lvalue: root variable plus accessors"""
    def __init__(self, root, acc, t, mutable=True):
        self.root, self.acc, self.t, self.mutable = root, acc, t, mutable


class Iter:
    """iterator: container (Path or Val) plus index expression"""
    def __init__(self, cont, idx, t, rev=False, elems=None, view=None, ord=None, adapt=None):
        self.cont, self.idx, self.t, self.rev = cont, idx, t, rev
        self.elems = elems      # sequence text when the container is not itself a sequence
        self.view = view        # 'lex' / 'dim': iterator of another index of a multi_index container
        self.ord = ord          # order (sequence of positions) seen by a 'dim' iterator
        self.adapt = adapt      # (class, fields): iterator adaptor of the library

    def at(self, idx):
        return Iter(self.cont, idx, self.t, self.rev, self.elems, self.view, self.ord, self.adapt)


class IterVar:
    def __init__(self, name, cont, t, rev=False, elems=None, view=None, ord=None, adapt=None):
        self.name, self.cont, self.t, self.rev, self.elems = name, cont, t, rev, elems
        self.view, self.ord, self.adapt = view, ord, adapt

    def at(self, idx):
        return Iter(self.cont, idx, self.t, self.rev, self.elems, self.view, self.ord, self.adapt)


class FilterIter:
    """boost filter iterator `element != x` over [it, end)"""
    def __init__(self, x, it, end):
        self.x, self.it, self.end = x, it, end
        self.t = it.t


class BindNe:
    def __init__(self, x):
        self.x = x


class Tie:
    def __init__(self, items):
        self.items = items


class Inserter:
    def __init__(self, path):
        self.path = path


class Lam:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class FunRef:
    def __init__(self, node):
        self.node = node


class View:
    """named view of a container (multi_index get<tag>())"""
    def __init__(self, base, tag, t):
        self.base, self.tag, self.t = base, tag, t


# -- contracts ---------------------------------------------------------------

class Loop:
    def __init__(self, inv=(), variant=None, begin=(), end=(), after=(), before=()):
        self.inv, self.variant = list(inv), variant
        self.begin, self.end, self.after, self.before = list(begin), list(end), list(after), list(before)


def qual_raw(n):
    return n.get('type', {}).get('qualType', '').strip()


class Fn:
    """Contract of one C++ function."""
    def __init__(self, why, q, requires=(), ensures=(), loops=(), trusted=False, params=None, pred=None,
                 throws='never', entry=(), exit=(), diverges=False, reason='', variant=None, ret=None,
                 sig=None, theorems=(), pure=None, tu_index=0, noinv=False, model_this=False, calls=None,
                 reachable=True, ghosts=(), throw_when=None, ensures_call=None, ret_field=None, order=None, steps=None):
        self.steps = steps or {}        # hints after the calls of the named functions ($result, $a1, $a2, ...)
        self.order = order              # comparison object: logic predicate its call operator computes
        self.why, self.q = why, q
        self.requires, self.ensures = list(requires), list(ensures)
        self.loops, self.trusted = list(loops), trusted
        self.params, self.pred = params, pred
        self.throws, self.entry, self.exit = throws, list(entry), list(exit)
        self.diverges, self.reason, self.variant = diverges, reason, variant
        self.ret, self.sig = ret, sig
        self.calls = calls or {}
        self.reachable = reachable
        self.throw_when = throw_when    # throws exactly in these initial states; callers have to exclude them
        if throw_when:
            self.throws = 'ok'
        self.ret_field = ret_field      # returned iterator points into this member of the object
        self.node = None

    def match(self, q, n):
        if q != self.q and not (self.q.startswith('re:') and re.fullmatch(self.q[3:], q)):
            return False
        if self.params is not None:
            ps = [norm(qual(p)) for p in params(n)]
            if len(ps) != len(self.params):
                return False
            for a, b in zip(ps, self.params):
                if b != '*' and a != b:
                    return False
        if self.pred and not self.pred(n):
            return False
        return True


def label(t):
    m = re.match(r'\s*\[([^\]@:]+)\]\s*(.*)$', t, re.S)
    if m:
        return m.group(1), m.group(2)
    return None, t


class Builder:
    def __init__(self):
        self.parts = []

    def emit(self, s):
        self.parts.append(s)

    def text(self):
        return '\n'.join(self.parts)


class Var:
    def __init__(self, name, t, mutable, cname):
        self.name, self.t, self.mutable, self.cname = name, t, mutable, cname


class FnTrans:
    force_inline = False        # predicates of algorithms are needed as logic text
    """Translation of one function under contract."""

    def __init__(self, model, specs, spec, baseline=None):
        self.M = model
        self.tu = model.tu
        self.specs = specs
        self.spec = spec
        self.node = spec.node
        self.b = Builder()
        self.env = {}           # decl id -> Var/Path/IterVar/Val/Lam
        self.names = set()
        self.used_specs = []
        self.loopctr = 0
        self.loopstack = []     # dicts: index name, elems
        self.locals = []        # (cname, wtype, wname) in declaration order
        self.scope = []         # visible (cname, wtype, wname)
        self.tmp = 0
        self.inline_depth = 0
        self.inlining = []
        self.ret = []           # return handling stack
        self.this = None
        self.baseline = baseline or {}
        self.loops_seen = 0
        self.uses = set()
        self.diverges = False
        self.raises = False
        self.inlined = []
        self.notes = []
        self.ret_iters = []
        self.uset_iters = {}            # hashed container -> order seen by the iterator into it
        self.constants = set()               # immutable names made by freeze

    # -- helpers
    def fail(self, msg, n=None):
        loc = ''
        raise ExtractionError('%s: %s%s' % (self.spec.q, msg, loc))

    def fresh(self, base='t'):
        self.tmp += 1
        return '%s_%d' % (base, self.tmp)

    def newname(self, cname):
        n = sane(cname)
        if n in self.names or n == 'this' or n in self.M.reserved:
            i = 1
            while '%s_%d' % (n, i) in self.names or '%s_%d' % (n, i) in self.M.reserved:
                i += 1
            n = '%s_%d' % (n, i)
        self.names.add(n)
        return n

    def sub(self, f):
        """Run f in a fresh builder; return (prefix text, result)."""
        old = self.b
        self.b = Builder()
        try:
            r = f()
            return self.b.text(), r
        finally:
            self.b = old

    def wt(self, t):
        return self.M.wtype(t)

    def declare(self, cname, t, init, node=None, mutable=True):
        n = self.newname(cname)
        if mutable:
            self.b.emit('let ref %s : %s = %s in' % (n, self.wt(t), init))
        else:
            self.b.emit('let %s : %s = %s in' % (n, self.wt(t), init))
        v = Var(n, t, mutable, cname)
        rec = (cname, self.wt(t), n)
        self.locals.append(rec)
        self.scope.append(rec)
        if node is not None:
            self.env[node['id']] = v
        return v

    # -- path operations
    def get_acc(self, e, acc):
        k = acc[0]
        if k == 'field':
            return '%s.%s' % (e if re.fullmatch(r'[\w.]+', e) else '(' + e + ')', acc[1])
        if k == 'idx':
            return '(vget %s %s)' % (e, acc[1])
        if k == 'fst':
            return '(fst %s)' % e
        if k == 'snd':
            return '(snd %s)' % e
        if k == 'key':       # map access, key must be present
            return '(mget %s %s)' % (e, acc[1])
        self.fail('bad accessor')

    def read(self, v):
        if isinstance(v, Val):
            return v.s
        if isinstance(v, Var):
            return v.name
        if isinstance(v, Path):
            e = v.root
            for a in v.acc:
                e = self.get_acc(e, a)
            return e
        if isinstance(v, IterVar):
            return v.name
        if isinstance(v, Iter):
            return v.idx
        self.fail('cannot read %r as a value' % v)

    def upd(self, base, acc, val):
        if not acc:
            return val
        a, rest = acc[0], acc[1:]
        inner = self.upd(self.get_acc(base, a), rest, val)
        if a[0] == 'field':
            return '{ %s with %s = %s }' % (base if re.fullmatch(r'[\w.]+', base) else '(' + base + ')', a[1], inner)
        if a[0] == 'idx':
            return '(vset %s %s %s)' % (base, a[1], inner)
        if a[0] == 'key':
            return '(mset %s %s %s)' % (base, a[1], inner)
        if a[0] == 'fst':
            return '(%s, snd %s)' % (inner, base)
        if a[0] == 'snd':
            return '(fst %s, %s)' % (base, inner)
        self.fail('bad accessor in update')

    def write(self, v, val):
        if isinstance(v, Var):
            if not v.mutable:
                self.fail('assignment to immutable %s' % v.cname)
            self.b.emit('%s <- %s;' % (v.name, val))
            return
        if isinstance(v, IterVar):
            self.b.emit('%s <- %s;' % (v.name, val))
            return
        if isinstance(v, Path):
            if not v.mutable:
                self.fail('assignment through immutable path')
            self.b.emit('%s <- %s;' % (v.root, self.upd(v.root, v.acc, val)))
            return
        self.fail('assignment to an rvalue')

    def topath(self, v):
        if isinstance(v, Var):
            return Path(v.name, [], v.t, v.mutable)
        return v

    def extend(self, v, acc, t):
        v = self.topath(v)
        if isinstance(v, Path):
            return Path(v.root, v.acc + [acc], t, v.mutable)
        if isinstance(v, Val):
            return Val(self.get_acc(v.s, acc), t)
        self.fail('cannot access element of %r' % v)

    def atom(self, s, base='t'):
        """Bind an expression so that it is evaluated here exactly once."""
        if re.fullmatch(r'\d+|true|false', s):
            return s
        n = self.fresh(base)
        self.b.emit('let %s = %s in' % (n, s))
        return n

    frozen = None

    def freeze(self, p):
        """Snapshot index expressions of a path (reference binding)."""
        if isinstance(p, Path):
            acc = []
            for a in p.acc:
                if a[0] in ('idx', 'key'):
                    memo = self.frozen if self.frozen is not None else {}
                    if a[1] in self.constants:
                        memo[a[1]] = a[1]
                    if a[1] not in memo:
                        memo[a[1]] = self.atom(a[1], 'i')
                        self.constants.add(memo[a[1]])
                    acc.append((a[0], memo[a[1]]))
                else:
                    acc.append(a)
            return Path(p.root, acc, p.t, p.mutable)
        return p

    # -- integer arithmetic
    def arith(self, op, a, b, t):
        if t[0] == 'real':
            return '(%s %s. %s)' % (a, op, b) if op != '/' else '(rdiv %s %s)' % (a, b)
        if t[0] != 'int':
            self.fail('arithmetic on %r' % (t,))
        w, s = INTS[t[1]]
        names = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem'}
        if op not in names:
            self.fail('operator %s' % op)
        pre = 's' if s else 'u'
        if w < 32:
            w, pre = 32, 's'
        return '(%s_%s%d %s %s)' % (names[op], pre, w, a, b)

    def cast_int(self, s, src, dst):
        if src[0] == 'bool':
            return '(b2i %s)' % s
        if dst[0] == 'bool':
            return '(i2b %s)' % s
        if src[0] == 'real' and dst[0] == 'int':
            return '(r2i %s)' % s
        if src[0] == 'int' and dst[0] == 'real':
            return '(i2r %s)' % s
        if src[0] != 'int' or dst[0] != 'int':
            if src == dst:
                return s
            self.fail('cast %r -> %r' % (src, dst))
        (w1, s1), (w2, s2) = INTS[src[1]], INTS[dst[1]]
        if (w1, s1) == (w2, s2):
            return s
        if re.fullmatch(r'\d+', s):
            v = int(s)
            if v < 2 ** (w2 - 1):
                return s
        if not s1 and w2 > w1:
            return s
        if s1 and s2 and w2 >= w1:
            return s
        if s2:
            return '(to_s%d %s)' % (w2, s)
        return '(to_u%d %s)' % (w2, s)

    def default(self, t):
        k = t[0]
        if k == 'int':
            return '0'
        if k == 'bool':
            return 'false'
        if k == 'real':
            return '0.0'
        if k in ('seq', 'mic') or (k == 'oset' and t[1][0] != 'int'):
            return '(empty : %s)' % self.wt(t)
        if k == 'oset':
            return '(oset_empty ())'
        if k == 'uset':
            return '(uset_new () : %s)' % self.wt(t)
        if k in ('umap', 'omap'):
            return '(mempty () : %s)' % self.wt(t)
        if k == 'pair':
            return '(%s, %s)' % (self.default(t[1]), self.default(t[2]))
        if k == 'cls':
            fs = self.M.fields(t[1])
            out = []
            for n, x in fs:
                ft = self.M.mtype(qual(x))
                ini = [c for c in x.get('inner', []) if c and not c.get('kind', '').endswith('Comment')]
                if ini:
                    iv = self.read(self.conv(self.expr(ini[0]), ft))
                elif ft[0] in ('int', 'bool', 'real'):
                    iv = self.havoc(ft)
                else:
                    iv = self.default(ft)
                out.append('%s = %s' % (self.M.fieldname(t[1], n), iv))
            if not out:
                return '{ %s_unit = 0 }' % self.M.wname(t[1])
            return '{ %s }' % '; '.join(out)
        if k == 'model':
            return '(%s_default ())' % sane(re.sub(r'\W+', '_', t[1]))
        self.fail('no default value for %r' % (t,))

    def havoc(self, t):
        if t[0] == 'int':
            w, s = INTS[t[1]]
            lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
            return '(any int ensures { %d <= result <= %d })' % (lo, hi)
        return '(any %s)' % self.wt(t)

    def conv(self, v, t):
        """Convert value to model type t where the model needs a change."""
        if isinstance(v, (Val, Var, Path)) and v.t != t:
            s = v.t
            if s[0] in ('int', 'bool', 'real') and t[0] in ('int', 'bool', 'real'):
                return Val(self.cast_int(self.read(v), s, t), t)
            if s[0] == 'pair' and t[0] == 'pair':
                e = self.read(v)
                a = self.read(self.conv(Val('(fst %s)' % e, s[1]), t[1]))
                b = self.read(self.conv(Val('(snd %s)' % e, s[2]), t[2]))
                if a == '(fst %s)' % e and b == '(snd %s)' % e:
                    return Val(e, t)
                x = self.atom(e)
                a = self.read(self.conv(Val('(fst %s)' % x, s[1]), t[1]))
                b = self.read(self.conv(Val('(snd %s)' % x, s[2]), t[2]))
                return Val('(%s, %s)' % (a, b), t)
        return v

    # -- expressions
    def exprs(self, ns, lvalues=()):
        """Translate several operands left to right keeping evaluation order;
        operands bound to references (lvalues) are not copied."""
        out, pos = [], []
        for n in ns:
            p = len(self.b.parts)
            v = self.expr(n)
            if len(self.b.parts) > p and out:
                # something was emitted: earlier pure reads must happen before it
                ins = []
                for i, o in enumerate(out):
                    if isinstance(o, (Var, Path, Val)) and not (isinstance(o, Val) and re.fullmatch(r'[\w]+', o.s) and not self.is_mutable_name(o.s)):
                        if isinstance(o, (Var, Path)) and (i == 0 or i in lvalues):
                            continue      # object operands stay lvalues
                        nm = self.fresh('a')
                        ins.append('let %s = %s in' % (nm, self.read(o)))
                        out[i] = Val(nm, o.t)
                self.b.parts[p:p] = ins
            out.append(v)
        return out

    def is_mutable_name(self, s):
        return any(isinstance(v, Var) and v.name == s and v.mutable for v in self.env.values())

    def val(self, n):
        return self.read(self.expr(n))

    def ty(self, n):
        return self.M.mtype(qual(n))

    def expr(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.fail('unsupported expression %s' % k, n)
        return m(n)

    def kids(self, n):
        return [c for c in n.get('inner', []) if c]

    def passthru(self, n):
        return self.expr(self.kids(n)[0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = passthru
    e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = passthru

    def e_IntegerLiteral(self, n):
        return Val(n['value'], self.ty(n))

    def e_FloatingLiteral(self, n):
        v = n['value']
        if re.fullmatch(r'-?\d+', v):
            v += '.0'
        return Val(v, ('real',))

    def e_CXXBoolLiteralExpr(self, n):
        return Val('true' if str(n['value']).lower() == 'true' else 'false', ('bool',))

    def e_CXXScalarValueInitExpr(self, n):
        t = self.ty(n)
        return Val(self.default(t), t)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']
        v = self.env.get(r['id'])
        if v is not None:
            return v
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FunRef(n)
        if r['kind'] == 'VarDecl' or r['kind'] == 'EnumConstantDecl':
            d = self.tu.byid.get(r['id'])
            if d is not None and d.get('kind') == 'VarDecl':
                ini = self.kids(d)
                if ini and ('const' in d['type']['qualType'] or d.get('constexpr')):
                    return self.expr(ini[0])
            if d is not None and d.get('kind') == 'EnumConstantDecl':
                for c in self.kids(d):
                    if c.get('kind') == 'ConstantExpr':
                        return Val(str(c.get('value')), ('int', 'int'))
        if r.get('name') in ('has_infinity', 'is_signed', 'is_integer') and 'bool' in qual(n):
            c = [x for x in self.tu.limits.get(r['id'], ())]
            if c:
                return Val(c[0], ('bool',))
        if r.get('name') == 'value' and 'bool' in qual(n):
            self.fail('reference to trait value')
        self.fail('reference to unknown variable %s' % r.get('name'))

    def e_CXXThisExpr(self, n):
        if self.this is None:
            self.fail('this outside of a method')
        return self.this

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        inner = self.kids(n)[0]
        if ck in ('LValueToRValue', 'NoOp', 'FunctionToPointerDecay', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay'):
            return self.expr(inner)
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast',
                  'FloatingToBoolean'):
            v = self.expr(inner)
            t = self.ty(n)
            if not isinstance(v, (Val, Var, Path)):
                self.fail('integral cast of non-value')
            return Val(self.cast_int(self.read(v), v.t, t), t)
        if ck == 'ToVoid':
            self.expr(inner)
            return Val('()', ('unit',))
        self.fail('cast kind %s' % ck)

    def e_CXXStaticCastExpr(self, n):
        return self.e_ImplicitCastExpr(n) if n.get('castKind') != 'NoOp' else self.conv_cast(n)

    def conv_cast(self, n):
        return self.expr(self.kids(n)[0])

    e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr

    def e_MemberExpr(self, n):
        inner = self.kids(n)[0]
        name = n['name']
        base = self.expr(inner)
        if isinstance(base, (Iter, IterVar)):
            if base.adapt and name in base.adapt[1]:
                return base.adapt[1][name]
            base = self.deref(base)
        t = base.t
        if t[0] == 'pair' and name in ('first', 'second'):
            return self.extend(base, ('fst',) if name == 'first' else ('snd',), t[1] if name == 'first' else t[2])
        if t[0] == 'cls':
            for fn, x in self.M.fields(t[1]):
                if fn == name:
                    return self.extend(base, ('field', self.M.fieldname(t[1], fn)), self.M.mtype(qual(x)))
        if t[0] == 'iterpair' and name in ('first', 'second'):
            return base.items[0 if name == 'first' else 1]
        self.fail('member %s of %r' % (name, t))

    def cond_text(self, n):
        return self.read(self.conv(self.expr(n), ('bool',)))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = self.kids(n)
        if op == '=':
            lhs = self.expr(a)
            rhs = self.expr(b)
            if isinstance(lhs, (Var, Path)):
                self.write(lhs, self.read(self.conv(rhs, lhs.t)))
                return lhs
            if isinstance(lhs, IterVar):
                self.assign_iter(lhs, rhs)
                return lhs
            self.fail('assignment target')
        if op in ('&&', '||'):
            x = self.cond_text(a)
            pre, y = self.sub(lambda: self.cond_text(b))
            if not pre:
                return Val('(%s %s %s)' % (x, op, y), ('bool',))
            if op == '&&':
                return Val(self.atom('(if %s then (%s %s) else false)' % (x, pre, y)), ('bool',))
            return Val(self.atom('(if %s then true else (%s %s))' % (x, pre, y)), ('bool',))
        if op == ',':
            self.expr(a)
            return self.expr(b)
        if op in ('^', '&', '|'):
            sa, sb = [self.kids(x)[0] if x.get('castKind') == 'IntegralCast' and len(self.kids(x)) == 1 else x for x in (a, b)]
            if self.ty(sa)[0] == 'bool' and self.ty(sb)[0] == 'bool':
                va, vb = self.exprs([sa, sb])
                x, y = self.read(va), self.read(vb)
                r = {'^': '(not (beq %s %s))', '&': '(if %s then %s else false)', '|': '(if %s then true else %s)'}[op] % (x, y)
                return Val(r, ('bool',)) if self.ty(n)[0] == 'bool' else Val('(if %s then 1 else 0)' % r, self.ty(n))
        va, vb = self.exprs([a, b])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, va, vb)
        t = self.ty(n)
        return Val(self.arith(op, self.read(va), self.read(vb), t), t)

    def compare(self, op, va, vb):
        if isinstance(va, (Iter, IterVar)):
            return self.iter_compare(op, va, vb)
        ta, tb = va.t, vb.t
        x, y = self.read(va), self.read(vb)
        if ta[0] == 'int' and tb[0] == 'int':
            o = {'==': '=', '!=': '<>'}.get(op, op)
            return Val('(%s %s %s)' % (x, o, y), ('bool',))
        if ta[0] == 'bool' and tb[0] == 'bool':
            if op == '==':
                return Val('(beq %s %s)' % (x, y), ('bool',))
            if op == '!=':
                return Val('(not (beq %s %s))' % (x, y), ('bool',))
        if ta[0] == 'real' and tb[0] == 'real':
            if op == '!=':
                return Val('(not (%s =. %s))' % (x, y), ('bool',))
            return Val('(%s %s. %s)' % (x, '=' if op == '==' else op, y), ('bool',))
        if op in ('==', '!=') and ta == tb:
            e = self.equality(ta, x, y)
            return Val(e if op == '==' else '(not %s)' % e, ('bool',))
        if op == '<' and ta == tb and ta[0] == 'pair' and ta[1][0] == 'int' and ta[2][0] == 'int':
            return Val('(pair_lt %s %s)' % (x, y), ('bool',))
        self.fail('comparison %s on %r' % (op, ta))

    def pure_eq(self, t):
        """logical equality of the model coincides with C++ == for this type"""
        if t[0] in ('int', 'bool', 'real'):
            return True
        if t[0] in ('seq', 'pair', 'oset', 'uset', 'umap', 'omap'):
            return all(self.pure_eq(x) for x in t[1:] if isinstance(x, tuple))
        return t[0] == 'cls' and t[1] in self.M.pure

    def equality(self, t, x, y):
        if self.pure_eq(t):
            return '(eqv %s %s)' % (x, y)
        if t[0] == 'cls' or t[0] == 'model':
            cls = t[1] if t[0] == 'cls' else t[2]
            f = self.find_member(cls, 'operator==', 1)
            if f is not None:
                r = self.call_aleph(f, Val(x, t), [Val(y, t)])
                return self.read(r)
        self.fail('equality on %r' % (t,))

    def find_member(self, cls, name, nargs):
        for q, n in self.tu.funcs:
            if q == cls + '::' + name and len(params(n)) == nargs:
                return n
        return None

    def e_UnaryOperator(self, n):
        op = n['opcode']
        a = self.kids(n)[0]
        if op == '!':
            return Val('(not %s)' % self.cond_text(a), ('bool',))
        if op == '-':
            v = self.expr(a)
            t = self.ty(n)
            if t[0] == 'real':
                return Val('(-. %s)' % self.read(v), t)
            if INTS[t[1]][1]:
                if re.fullmatch(r'\d+', self.read(v)):
                    return Val('(-%s)' % self.read(v), t)
                return Val('(neg_s%d %s)' % (INTS[t[1]][0], self.read(v)), t)
            return Val('(sub_u%d 0 %s)' % (INTS[t[1]][0], self.read(v)), t)
        if op == '+':
            return self.expr(a)
        if op in ('++', '--'):
            v = self.expr(a)
            return self.incdec(v, op, n.get('isPostfix', False))
        if op == '*':
            v = self.expr(a)
            if isinstance(v, (Iter, IterVar)):
                return self.deref(v)
            return v        # *this
        if op == '&':
            v = self.expr(a)
            if not qual_raw(n).startswith('const '):
                self.fail('address of a modifiable object')
            return v
        self.fail('unary %s' % op)

    def incdec(self, v, op, postfix):
        if isinstance(v, IterVar):
            d = '+' if (op == '++') != v.rev else '-'
            old = None
            if postfix:
                old = self.atom(v.name)
            self.b.emit('%s <- %s %s 1;' % (v.name, v.name, d))
            return v.at(old) if postfix else v
        if isinstance(v, (Var, Path)):
            t = v.t
            cur = self.read(v)
            old = self.atom(cur) if postfix else None
            if t[0] == 'real':
                val = '(%s %s. 1.0)' % (cur, op[0])
            else:
                w, s = INTS[t[1]]
                val = '(%s_%s%d %s 1)' % ('add' if op == '++' else 'sub', 's' if s else 'u', w, cur)
            self.write(v, val)
            return Val(old, t) if postfix else v
        self.fail('++/-- on %r' % v)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][0]
        a, b = self.kids(n)
        lhs = self.expr(a)
        rhs = self.expr(b)
        ct = self.M.mtype(n.get('computeResultType', {}).get('desugaredQualType') or
                          n.get('computeResultType', {}).get('qualType') or qual(n))
        if isinstance(lhs, IterVar):
            self.b.emit('%s <- %s %s %s;' % (lhs.name, lhs.name, op, self.read(rhs)))
            return lhs
        x = self.cast_int(self.read(lhs), lhs.t, ct) if lhs.t != ct else self.read(lhs)
        y = self.read(self.conv(rhs, ct)) if rhs.t[0] != ct[0] else self.read(rhs)
        r = self.arith(op, x, y, ct)
        if ct != lhs.t:
            r = self.cast_int(r, ct, lhs.t)
        self.write(lhs, r)
        return lhs

    def e_ConditionalOperator(self, n):
        c, a, b = self.kids(n)
        t = self.ty(n)
        x = self.cond_text(c)
        p1, y = self.sub(lambda: self.read(self.conv(self.expr(a), t)))
        p2, z = self.sub(lambda: self.read(self.conv(self.expr(b), t)))
        e = '(if %s then %s else %s)' % (x, '(%s %s)' % (p1, y) if p1 else y, '(%s %s)' % (p2, z) if p2 else z)
        if p1 or p2:
            e = self.atom(e)
        return Val(e, t)

    def e_CXXDefaultArgExpr(self, n):
        ks = self.kids(n)
        if ks:
            return self.expr(ks[0])
        return None

    def e_CXXDefaultInitExpr(self, n):
        ks = self.kids(n)
        if ks:
            return self.expr(ks[0])
        self.fail('default member initialiser')

    def e_CXXStdInitializerListExpr(self, n):
        return self.passthru(n)

    def e_InitListExpr(self, n):
        ks = self.kids(n)
        # array initialiser -> sequence literal
        m = re.match(r'(.*?)\s*\[\d*\]$', qual(n).strip())
        if m:
            et = self.M.mtype(m.group(1))
            e = '(empty : seq %s)' % self.wt(et)
            for v in self.exprs(ks):
                e = '(snoc %s %s)' % (e, self.read(self.conv(v, et)))
            return Val(e, ('seq', et))
        t = self.ty(n)
        if t[0] == 'pair':
            vs = self.exprs(ks)
            return Val('(%s, %s)' % (self.read(self.conv(vs[0], t[1])), self.read(self.conv(vs[1], t[2]))), t)
        if t[0] == 'cls':
            fs = self.M.fields(t[1])
            vs = self.exprs(ks)
            out = []
            for (fn, x), v in zip(fs, vs):
                out.append('%s = %s' % (self.M.fieldname(t[1], fn), self.read(self.conv(v, self.M.mtype(qual(x))))))
            return Val('{ %s }' % '; '.join(out), t)
        if t[0] in ('int', 'bool', 'real'):
            if not ks:
                return Val(self.default(t), t)
            return self.conv(self.expr(ks[0]), t)
        self.fail('initialiser list of %r' % (t,))

    def ty_array(self, n):
        pass

    def e_LambdaExpr(self, n):
        return Lam(n, dict(self.env), self.this)

    def e_CXXThrowExpr(self, n):
        self.do_throw()
        return Val('()', ('unit',))

    def do_throw(self):
        if self.spec.throws == 'ok':
            self.raises = True
            self.b.emit('raise Cxx_throw;')
        else:
            self.b.emit('(assert { [@expl:no exception escapes] false }; absurd);')

    def e_CXXNullPtrLiteralExpr(self, n):
        return Val('()', ('unit',))

    def e_CXXNewExpr(self, n):
        self.fail('new-expression')

    # -- construction
    def e_CXXConstructExpr(self, n):
        t = self.ty_or_none(n)
        ks = [c for c in self.kids(n) if c['kind'] != 'CXXDefaultArgExpr' or True]
        if t is None:
            if os.environ.get('CXX2WHY_TRACE'): print('WRAP', n.get('type'), norm(qual(n)), len(ks))
            # transparent wrappers (iterators, functors)
            if len(ks) == 1:
                return self.expr(ks[0])
            return Val('()', ('unit',))
        return self.construct(t, ks, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def ty_or_none(self, n):
        try:
            return self.ty(n)
        except ExtractionError:
            return None

    def construct_adaptor(self, cls, t, ks, n):
        ct = n.get('ctorType', {}).get('qualType', '')
        cands = [c for q, c in self.tu.funcs if q == cls + '::' + cls and c.get('type', {}).get('qualType') == ct and len(params(c)) == len(ks)]
        if not cands:
            cands = [c for q, c in self.tu.funcs if q == cls + '::' + cls and len(params(c)) == len(ks) and '__normal_iterator' in qual(params(c)[0])]
        vs = self.exprs(ks)
        if len(ks) == 1 and isinstance(vs[0], (Iter, IterVar)):
            return vs[0]
        cands = [c for c in cands if not any(x.get('kind') == 'ParenListExpr' for x in walk(c))]
        if not cands:
            self.fail('constructor of %s' % cls)
        c = cands[0]
        if self.kids(body(c)):
            self.fail('constructor of %s has a body' % cls)
        for p, v in zip(params(c), vs):
            self.env[p['id']] = v
        base, fields = None, {}
        for x in c.get('inner', []):
            if x and x.get('kind') == 'CXXCtorInitializer':
                e = self.kids(x)[0]
                if 'baseInit' in x:
                    base = self.expr(self.kids(e)[0])
                else:
                    fields[x['anyInit']['name']] = self.expr(e)
        if not isinstance(base, (Iter, IterVar)) or len(fields) != 1:
            self.fail('constructor of %s' % cls)
        f = self.topath(list(fields.values())[0])
        if self.read(f) != self.read(self.topath(base.cont)):
            self.fail('%s: iterator and container differ' % cls)
        return Iter(base.cont, self.read(base), t, False, None, None, None, (cls, fields))

    def construct(self, t, ks, n=None):
        args = [c for c in ks if c['kind'] != 'CXXDefaultArgExpr']
        if t[0] == 'iter' and n is not None and norm(qual(n)).split('::')[-1] in self.M.adaptors:
            return self.construct_adaptor(norm(qual(n)).split('::')[-1], t, args, n)
        if t[0] in ('iter', 'riter', 'inserter'):
            if len(args) == 1:
                return self.expr(args[0])
            if not args:
                return Val('0', t)
        if t[0] == 'mic':
            vs = self.exprs(args)
            if len(vs) == 1 and isinstance(vs[0], (Val, Var, Path)) and vs[0].t == t:
                return vs[0]
            if not vs:
                return Val(self.default(t), t)
            if len(vs) >= 2 and isinstance(vs[0], (Iter, IterVar)):
                return Val('(mic_of_seq %s)' % self.read(self.from_range(('seq', t[1]), vs[0], vs[1])), t)
            self.fail('multi_index container constructor')
        if t[0] in ('seq', 'oset', 'uset', 'umap', 'omap'):
            vs = self.exprs(args)
            vs = [v for v in vs if v is not None]
            if not vs:
                return Val(self.default(t), t)
            if len(vs) == 1 and isinstance(vs[0], (Val, Var, Path)) and vs[0].t == t:
                return vs[0]
            if t[0] == 'seq' and len(vs) in (1, 2) and isinstance(vs[0], (Val, Var, Path)) and vs[0].t[0] == 'int':
                x = self.read(vs[1]) if len(vs) == 2 else self.default(t[1])
                if len(vs) == 2:
                    x = self.read(self.conv(vs[1], t[1]))
                return Val('(vmake %s %s)' % (self.read(vs[0]), x), t)
            if len(vs) == 2 and isinstance(vs[0], (Iter, IterVar)):
                return self.from_range(t, vs[0], vs[1])
            if len(vs) == 2 and isinstance(vs[0], FilterIter) and isinstance(vs[1], FilterIter):
                a, b = vs
                if a.x != b.x or self.contkey(a.it) != self.contkey(b.it) or self.read(a.end) != self.read(b.it) or self.read(b.end) != self.read(b.it):
                    self.fail('filter iterators of different ranges')
                return Val('(filter_ne (vsub %s %s %s) %s)' % (self.elems(a.it), self.read(a.it), self.read(a.end), a.x), t)
            if len(vs) == 1 and vs[0].t[0] == 'seq':
                if t[0] == 'seq':
                    return vs[0]
                if t[0] == 'oset' and t[1][0] == 'int':
                    return Val('(oset_of_seq %s)' % self.read(vs[0]), t)
                if t[0] == 'uset':
                    return Val('(uset_of_seq %s)' % self.read(vs[0]), t)
            self.fail('container constructor with %d arguments' % len(vs))
        if t[0] == 'pair':
            vs = self.exprs(args)
            if not vs:
                return Val(self.default(t), t)
            if len(vs) == 1:
                if isinstance(vs[0], Tie):
                    return vs[0]
                return self.conv(vs[0], t)
            if len(vs) == 2:
                if isinstance(vs[0], (Iter, IterVar)):
                    r = Tie(vs)
                    r.t = ('iterpair',)
                    return r
                return Val('(%s, %s)' % (self.read(self.conv(vs[0], t[1])), self.read(self.conv(vs[1], t[2]))), t)
        if t[0] in ('cls', 'model'):
            return self.construct_class(t, ks, n)
        if t[0] in ('int', 'bool', 'real'):
            return self.conv(self.expr(args[0]), t)
        self.fail('constructor of %r' % (t,))

    def construct_class(self, t, ks, n):
        cls = t[1] if t[0] == 'cls' else t[2]
        args = [c for c in ks if c['kind'] != 'CXXDefaultArgExpr']
        ct = (n or {}).get('ctorType', {}).get('qualType', '') if n else ''
        if len(args) == 1:
            at = self.ty_or_none(args[0])
            if at == t:
                return self.expr(args[0])       # copy / move
        base = re.sub(r'<.*', '', cls)
        if cls not in self.tu.classes and t[0] == 'model':
            cands = []
        else:
            cands = []
            rec = self.tu.classes[cls]
            for c in rec.get('inner', []):
                if c and c.get('kind') == 'CXXConstructorDecl' and not c.get('explicitlyDeleted'):
                    cands.append(c)
                if c and c.get('kind') == 'FunctionTemplateDecl':
                    for d in c.get('inner', []):
                        if d and d.get('kind') == 'CXXConstructorDecl':
                            cands.append(d)
        exact = [c for c in cands if c.get('type', {}).get('qualType') == ct and len(params(c)) == len(ks)]
        withbody = [c for c in exact if body(c) is not None]
        if withbody:
            exact = withbody
        if not args and not (exact and body(exact[0]) is not None and not exact[0].get('isImplicit')):
            return Val(self.default(t), t)
        if not exact:
            exact = [c for c in cands if len(params(c)) == len(ks) and body(c) is not None]
        if len(exact) < 1:
            self.fail('constructor of %s with %d arguments' % (cls, len(ks)))
        c = exact[0]
        vs = []
        for p, k in zip(params(c), ks):
            if k['kind'] == 'CXXDefaultArgExpr' and not self.kids(k):
                vs.append(self.param_default(p, c))
            else:
                vs.append(self.expr(k))
        sp = self.spec_for(c)
        if sp is not None:
            return self.call_spec(sp, None, vs, c)
        return self.inline_ctor(c, cls, t, vs)

    def param_default(self, p, fn):
        ks = [x for x in self.kids(p) if not x['kind'].endswith('Comment')]
        if ks:
            return self.expr(ks[0])
        # look at the primary template's default
        self.fail('default argument of %s' % p.get('name'))

    def inline_ctor(self, c, cls, t, vs):
        if body(c) is None:
            self.fail('constructor of %s has no visible body' % cls)
        if c['id'] in self.inlining:
            self.fail('recursive constructor')
        saved_this = self.this
        self.inlining.append(c['id'])
        self.inlined.append(cls + '::' + c.get('name', ''))
        try:
            for p, v in zip(params(c), vs):
                self.bind_param(p, v)
            inits = {}
            for x in c.get('inner', []):
                if x and x.get('kind') == 'CXXCtorInitializer':
                    f = x.get('anyInit', {})
                    inits[f.get('name')] = self.kids(x)[0] if self.kids(x) else None
            out = []
            d = self.delegated(c)
            if d:
                obj = self.declare('obj', t, self.read(self.conv(self.expr(d), t)))
                self.this = obj
                self.ret.append(('ctor',))
                self.stmts(self.kids(body(c)))
                self.ret.pop()
                return Val(self.atom(obj.name), t)
            for fn, x in self.M.fields(cls):
                ft = self.M.mtype(qual(x))
                if inits.get(fn) is not None:
                    ini = inits[fn]
                    if ini['kind'] == 'CXXDefaultInitExpr' and not self.kids(ini):
                        k2 = [q for q in self.kids(x) if not q['kind'].endswith('Comment')]
                        iv = self.read(self.conv(self.expr(k2[0]), ft))
                    elif ini['kind'] in ('ParenListExpr',):
                        iv = self.read(self.construct(ft, self.kids(ini)))
                    else:
                        iv = self.read(self.conv(self.expr(ini), ft))
                else:
                    k2 = [q for q in self.kids(x) if not q['kind'].endswith('Comment')]
                    if k2:
                        iv = self.read(self.conv(self.expr(k2[0]), ft))
                    elif ft[0] in ('int', 'bool', 'real'):
                        iv = self.havoc(ft)
                    else:
                        iv = self.default(ft)
                out.append('%s = %s' % (self.M.fieldname(cls, fn), self.atom(iv, 'f')))
            obj = self.declare('obj', t, '{ %s }' % '; '.join(out))
            self.this = obj
            self.ret.append(('ctor',))
            self.stmts(self.kids(body(c)))
            self.ret.pop()
            return Val(self.atom(obj.name), t)
        finally:
            self.this = saved_this
            self.inlining.pop()

    def bind_param(self, p, v):
        q = p['type']['qualType'].strip()
        pt = None
        if isinstance(v, (Iter, IterVar)):
            if isinstance(v, IterVar):
                v = v.at(v.name)
            # iterator parameters are copies and may be advanced
            n = self.newname(p.get('name') or 'it')
            self.b.emit('let ref %s = %s in' % (n, v.idx))
            self.env[p['id']] = IterVar(n, self.freeze(self.topath(v.cont)) if not isinstance(v.cont, Val) else v.cont, v.t, v.rev, v.elems, v.view, v.ord, v.adapt)
            return
        if isinstance(v, (Lam, FunRef, Inserter, Tie)):
            self.env[p['id']] = v
            return
        pt = self.ty_or_none(p) or v.t
        if q.endswith('&') and 'const' not in q and isinstance(v, (Var, Path)):
            self.env[p['id']] = self.freeze(self.topath(v)) if isinstance(v, Path) else v
            return
        if q.endswith('&&') and isinstance(v, (Var, Path)):
            self.env[p['id']] = v
            return
        if q.endswith('&'):
            # const reference
            n = self.newname(p.get('name') or 'p')
            self.b.emit('let %s = %s in' % (n, self.read(self.conv(v, pt))))
            self.env[p['id']] = Var(n, pt if isinstance(v, Val) and v.t[0] in ('int', 'real', 'bool') else v.t, False, p.get('name'))
            return
        self.declare(p.get('name') or 'p', pt, self.read(self.conv(v, pt)), p)

    # -- iterators
    def elems(self, v):
        """sequence text of the container an iterator ranges over"""
        if isinstance(v, (Iter, IterVar)):
            if v.elems is not None:
                return v.elems
            c = v.cont
        else:
            c = v
        return self.seq_of(c)

    def seq_of(self, c):
        t = c.t
        s = self.read(c)
        if t[0] in ('seq', 'mic') or (t[0] == 'oset' and t[1][0] != 'int'):
            return s
        if t[0] == 'oset':
            return '%s.elts' % (s if re.fullmatch(r'[\w.]+', s) else '(' + s + ')')
        if t[0] == 'model' and t[1].startswith('seq '):
            return s
        self.fail('container %r is not iterable as a sequence' % (t,))

    def elem_type(self, t):
        if t[0] in ('seq', 'mic', 'oset', 'uset'):
            return t[1]
        if t[0] in ('umap', 'omap'):
            return ('pair', t[1], t[2])
        if t[0] == 'model':
            n, a = tmpl(t[2])
            if n == 'SimplicialComplex':
                return self.M.mtype(a[0])
            if n == 'multi_index_container':
                return self.M.mtype(a[0])
        self.fail('element type of %r' % (t,))

    def deref(self, v):
        idx = v.name if isinstance(v, IterVar) else v.idx
        et = v.t[1]
        if v.rev:
            idx = '(%s - 1)' % idx
        if v.adapt:
            return self.adapt_deref(v)
        if v.ord is not None:
            return self.extend(v.cont, ('idx', '(mic_dget %s %s %s)' % (self.read(v.cont), v.ord, idx)), et)
        if v.view == 'dim':
            self.fail('dereference of an end iterator')
        if v.elems is not None:
            return Val('(vget %s %s)' % (v.elems, idx), et)
        c = v.cont
        if c.t[0] in ('seq', 'mic'):
            return self.extend(c, ('idx', idx), et)
        return Val('(vget %s %s)' % (self.seq_of(c), idx), et)

    def adapt_deref(self, v):
        cls, fields = v.adapt
        fs = [n for q, n in self.tu.funcs if q == cls + '::dereference' and not any(x.get('kind') == 'CXXUnresolvedConstructExpr' for x in walk(n))]
        if len(fs) != 1:
            self.fail('dereference() of %s' % cls)
        return self.call_aleph(fs[0], v, [])

    def ret_node(self, n):
        for x in walk(body(n)):
            if x.get('kind') == 'ReturnStmt' and self.kids(x):
                return self.kids(x)[0]
        return n

    def assign_iter(self, lhs, rhs):
        if not isinstance(rhs, (Iter, IterVar)):
            self.fail('iterator assignment')
        if lhs.cont is None:
            if self.loopstack or self.ret and self.ret[-1][0] == 'exn':
                self.fail('iterator first assigned inside a loop')
            lhs.cont, lhs.elems, lhs.view, lhs.ord, lhs.adapt, lhs.rev = self.freeze(self.topath(rhs.cont)), rhs.elems, rhs.view, rhs.ord, rhs.adapt, rhs.rev
        a = self.contkey(lhs)
        b = self.contkey(rhs)
        if a != b:
            lhs.cont, lhs.elems = rhs.cont, rhs.elems
        if lhs.ord != rhs.ord and rhs.ord is not None:
            lhs.ord = rhs.ord
        self.b.emit('%s <- %s;' % (lhs.name, self.read(rhs)))

    def contkey(self, v):
        if v.elems is not None:
            return v.elems
        if v.cont is None:
            self.fail('use of an uninitialised iterator')
        return self.read(v.cont) + ('#' + v.view if v.view else '')

    def same_cont(self, a, b):
        """Both iterators belong to one container: syntactically, or by an
        obligation that the same element of a container is meant."""
        if self.contkey(a) == self.contkey(b):
            return True
        x, y = self.topath(a.cont), self.topath(b.cont)
        if not (isinstance(x, Path) and isinstance(y, Path)) or x.root != y.root or len(x.acc) != len(y.acc) or a.view != b.view or a.elems or b.elems:
            return False
        eqs = []
        for p, q in zip(x.acc, y.acc):
            if p[0] != q[0]:
                return False
            if p != q:
                if p[0] != 'idx':
                    return False
                eqs.append((p[1], q[1]))
        for p, q in eqs:
            self.b.emit('assert { [@expl:iterators of the same container] %s = %s };' % (self.atom(p), self.atom(q)))
        return True

    def iter_compare(self, op, a, b):
        if not isinstance(b, (Iter, IterVar)):
            self.fail('iterator compared with a non-iterator')
        if not self.same_cont(a, b):
            self.fail('comparison of iterators of different containers (%s / %s)' % (self.contkey(a), self.contkey(b)))
        o = {'==': '=', '!=': '<>'}.get(op, op)
        return Val('(%s %s %s)' % (self.read(a), o, self.read(b)), ('bool',))

    def from_range(self, t, b, e):
        if self.contkey(b) != self.contkey(e):
            self.fail('range with iterators of different containers')
        s = self.elems(b)
        sub = '(vsub %s %s %s)' % (s, self.read(b), self.read(e))
        if b.rev:
            sub = '(vrevsub %s %s %s)' % (s, self.read(e), self.read(b))
        if t[0] == 'seq':
            return Val(sub, t)
        if t[0] == 'oset' and t[1][0] == 'int':
            return Val('(oset_of_seq %s)' % sub, t)
        if t[0] == 'uset':
            return Val('(uset_of_seq %s)' % sub, t)
        if t[0] == 'oset':
            u = self.atom(sub, 's')
            self.strict_weak(u, t[1], self.less_text(t[1]))
            lt = self.less_text(t[1])
            r = self.library(t, 's')
            self.b.emit('assume { [@expl:ordered set] (forall i j. 0 <= i < j < length %s -> %s) /\\ (forall i. 0 <= i < length %s -> smem %s[i] %s) /\\ (forall i. 0 <= i < length %s -> exists j. 0 <= j < length %s /\\ not %s /\\ not %s) };'
                        % (r, lt(r + '[i]', r + '[j]'), r, r, u, u, r, lt(r + '[j]', u + '[i]'), lt(u + '[i]', r + '[j]')))
            return Val(r, t)
        self.fail('range constructor of %r' % (t,))

    def whole_range(self, b, e):
        """If [b,e) is exactly a whole container path return it."""
        if isinstance(b, Iter) and isinstance(e, Iter) and b.idx == '0' and self.contkey(b) == self.contkey(e) and \
                e.idx == self.end_idx(b):
            return b.cont
        return None

    def end_idx(self, it):
        return '(length %s)' % self.elems(it)

    def begin_of(self, c, end=False, rev=False):
        c = self.topath(c)
        t = c.t
        et = self.elem_type(t)
        elems = None
        if t[0] == 'uset' and not rev:
            # the order is arbitrary but the same for begin() and end()
            key, last = self.read(c), getattr(self, 'uset_order', None)
            if end and last and last[0] == key and last[2] == len(self.b.parts):
                elems = last[1]
            else:
                elems = self.atom('(uset_elements %s)' % key, 'es')
            self.uset_order = (key, elems, len(self.b.parts))
        elif t[0] in ('uset', 'umap', 'omap'):
            self.fail('explicit iterators over hashed containers')
        it = Iter(c, '0', ('iter', et), rev, elems)
        if end != rev:
            it.idx = self.end_idx(it)
        return it

    # -- calls
    def e_CXXMemberCallExpr(self, n):
        ks = self.kids(n)
        callee = ks[0]
        while callee['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            callee = self.kids(callee)[0]
        if callee['kind'] != 'MemberExpr':
            self.fail('member call through %s' % callee['kind'])
        mid = callee.get('referencedMemberDecl')
        obj = self.kids(callee)[0]
        d = self.tu.byid.get(mid)
        if d is not None and d.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl'):
            vs = self.call_args(d, [obj] + ks[1:])
            o = vs[0]
            if isinstance(o, (Iter, IterVar)) and not self.adaptor_method(d):
                o = self.deref(o)
            return self.call_aleph(d, o, vs[1:])
        args = [k for k in ks[1:] if k['kind'] != 'CXXDefaultArgExpr']
        vs = self.exprs([obj] + args)
        o = vs[0]
        if isinstance(o, (Iter, IterVar)) and callee['name'] == 'base' and o.adapt:
            r = o.at(self.read(o))
            r.adapt, r.t = None, ('iter', r.cont.t[1])
            return r
        if isinstance(o, (Iter, IterVar)) and callee.get('isArrow'):
            o = self.deref(o)
        return self.std_method(o, callee['name'], vs[1:], n, args)

    def adaptor_method(self, d):
        o = self.tu.owner(d)
        return o is not None and self.tu.class_name(o) in self.M.adaptors

    def ref_params(self, ps, first):
        qs = [p['type']['qualType'].strip() for p in ps]
        return set(i + first for i, q in enumerate(qs) if q.endswith('&') and not q.endswith('&&') and 'const' not in q)

    def call_args(self, d, ks):
        """ks[0] is the object; fills in default arguments from the declaration."""
        ps = params(d)
        real = [ks[0]]
        vs = None
        out = self.exprs([k for k in ks if not (k['kind'] == 'CXXDefaultArgExpr')], self.ref_params(ps, 1))
        i = 1
        res = [out[0]]
        for p, k in zip(ps, ks[1:]):
            if k['kind'] == 'CXXDefaultArgExpr':
                res.append(self.default_arg(d, p, k))
            else:
                res.append(out[i])
                i += 1
        return res

    def default_arg(self, d, p, k):
        if self.kids(k):
            return self.expr(self.kids(k)[0])
        ks = [x for x in self.kids(p) if not x['kind'].endswith('Comment')]
        if ks:
            return self.expr(ks[0])
        self.fail('default argument of parameter %s of %s' % (p.get('name'), d.get('name')))

    def qname(self, d):
        o = self.tu.owner(d)
        return (self.tu.class_name(o) + '::' if o is not None else '') + d.get('name', '')

    def spec_for(self, d):
        q = self.qname(d)
        for s in self.specs:
            if s.match(q, d):
                return s
        return None

    def resolve_body(self, d):
        if body(d) is not None:
            return d
        # declaration only: find the definition of the same function
        q = self.qname(d)
        for name, n in self.tu.funcs:
            if name == q and n.get('type', {}).get('qualType') == d.get('type', {}).get('qualType'):
                return n
        return d

    def call_aleph(self, d, obj, vs):
        d = self.resolve_body(d)
        sp = self.spec_for(d)
        if sp is not None and not (self.force_inline and body(d) is not None):
            return self.call_spec(sp, obj, vs, d)
        return self.inline(d, obj, vs)

    def is_const(self, d):
        return bool(re.search(r'\)\s*const', d.get('type', {}).get('qualType', '')))

    def is_static(self, d):
        return d.get('storageClass') == 'static'

    def call_spec(self, sp, obj, vs, d):
        """Call of a function under contract: use the contract only."""
        if sp not in self.used_specs:
            self.used_specs.append(sp)
        if sp.calls.get('handler'):
            return sp.calls['handler'](self, obj, vs, d)
        args, post = [], []

        def byref(v):
            v = self.topath(v)
            if isinstance(v, Path) and not v.acc and v.mutable:
                args.append(v.root)
                return
            if not isinstance(v, Path) or not v.mutable:
                self.fail('argument of %s is not assignable' % sp.q)
            p = self.freeze(v)
            tname = self.fresh('r')
            self.b.emit('let ref %s = %s in' % (tname, self.read(p)))
            args.append(tname)
            post.append((p, tname))
        if obj is not None and isinstance(obj, (Iter, IterVar)) and obj.adapt:
            args.append('(%s)' % self.seq_of(self.topath(obj.cont)))
            args.append('(%s)' % self.read(obj))
        elif obj is not None and not self.is_static(d) and d.get('kind') != 'CXXConstructorDecl':
            if self.is_const(d):
                args.append('(%s)' % self.read(obj))
            else:
                if isinstance(obj, Val):
                    tname = self.fresh('r')
                    self.b.emit('let ref %s = %s in' % (tname, obj.s))
                    args.append(tname)
                else:
                    byref(obj)
        lastcont = None
        for p, v in zip(params(d), vs):
            q = p['type']['qualType'].strip()
            if isinstance(v, (Iter, IterVar)):
                ck = self.contkey(v)
                if lastcont is None:
                    self.b.emit('let _ = vsize %s in' % self.elems(v))
                    args.append('(%s)' % self.elems(v))
                    lastcont = ck
                elif lastcont != ck:
                    self.fail('iterators of different containers passed to %s' % sp.q)
                args.append(self.read(v) if re.fullmatch(r'\w+', self.read(v)) else '(%s)' % self.read(v))
                continue
            if isinstance(v, Inserter):
                byref(v.path)
                continue
            if isinstance(v, (Lam, FunRef)):
                self.fail('functor passed to contracted function %s' % sp.q)
            if q.endswith('&') and not q.endswith('&&') and 'const' not in q and isinstance(v, (Var, Path)):
                byref(v)
                continue
            pt = self.ty_or_none(p) or v.t
            args.append('(%s)' % self.read(self.conv(v, pt)))
        rt = self.ret_type(d, sp)
        refs = [a for a in args if re.fullmatch(r'\w+', a)]
        call = '%s %s' % (sp.why, ' '.join(args) if args else '()')
        if rt[0] == 'unit':
            self.b.emit('%s;' % call)
            r = Val('()', rt)
        else:
            nm = self.fresh('c')
            self.b.emit('let %s = %s in' % (nm, call))
            r = Val(nm, rt)
        for p, tname in post:
            self.write(p, tname)
        if self.spec and sp.why in self.spec.steps and not self.inlining:
            self.hints([re.sub(r'\$a(\d)', lambda m: args[int(m.group(1)) - 1], h.replace('$result', r.s)) for h in self.spec.steps[sp.why]])
        if rt[0] == 'iter':
            if sp.ret_field is None:
                self.fail('iterator returned by %s' % sp.q)
            c = self.topath(obj)
            for f in sp.ret_field:
                fd = [x for n_, x in self.M.fields(c.t[1]) if n_ == f]
                if not fd:
                    self.fail('no member %s' % f)
                c = self.extend(c, ('field', self.M.fieldname(c.t[1], f)), self.M.mtype(qual(fd[0])))
            return Iter(self.topath(c), nm, rt)
        return r

    def ret_type(self, d, sp=None):
        if sp is not None and sp.ret is not None:
            return sp.ret if isinstance(sp.ret, tuple) else self.M.mtype(sp.ret)
        if d.get('kind') == 'CXXConstructorDecl':
            o = self.tu.owner(d)
            return self.M.mtype(self.tu.class_name(o))
        q = d.get('type', {}).get('qualType', '')
        # return type is the text before the parameter list
        depth = 0
        i = None
        for j, ch in enumerate(q):
            if ch in '<':
                depth += 1
            elif ch in '>':
                if q[j - 1] != '-':
                    depth -= 1
            elif ch == '(' and depth == 0:
                i = j
                break
        r = q[:i].strip()
        if '->' in q and r == 'auto':
            r = q.split('->')[-1].strip()
        try:
            return self.M.mtype(r)
        except ExtractionError:
            # fall back to the returned expressions
            rd = self.resolve_body(d)
            if body(rd) is not None:
                def own(n):
                    yield n
                    for c in n.get('inner', []) or []:
                        if c and c.get('kind') != 'LambdaExpr':
                            yield from own(c)
                for x in own(body(rd)):
                    if x.get('kind') == 'ReturnStmt' and self.kids(x):
                        return self.ty(self.kids(x)[0])
            raise

    def inline(self, d, obj, vs):
        b = body(d)
        if b is None:
            self.fail('function %s has no visible body and no contract' % self.qname(d))
        if d['id'] in self.inlining:
            self.fail('recursive function %s has no contract' % self.qname(d))
        if len(self.inlining) > 12:
            self.fail('inlining too deep')
        self.inlined.append(self.qname(d))
        self.inlining.append(d['id'])
        saved_this = self.this
        nscope = len(self.scope)
        try:
            if not self.is_static(d):
                if obj is not None:
                    self.this = obj if not isinstance(obj, Path) else self.freeze(obj)
            self.frozen = {}        # equal index expressions of the arguments stay equal
            for p, v in zip(params(d), vs):
                self.bind_param(p, v)
            self.frozen = None
            return self.inline_body(b, lambda: self.ret_type(d))
        finally:
            self.this = saved_this
            self.inlining.pop()
            del self.scope[nscope:]

    def inline_body(self, b, rtf):
        ks = self.kids(b)
        # straight-line body with a final return keeps lvalues/iterators
        rets = [x for x in walk(b) if x.get('kind') == 'ReturnStmt']
        inner_lams = [x for x in walk(b) if x.get('kind') == 'LambdaExpr']
        if inner_lams:
            lr = set(id(y) for l in inner_lams for y in walk(l) if y.get('kind') == 'ReturnStmt')
            rets = [r for r in rets if id(r) not in lr]
        if not rets:
            self.stmts(ks)
            return Val('()', ('unit',))
        if len(rets) == 1 and ks and ks[-1].get('kind') == 'ReturnStmt':
            self.stmts(ks[:-1])
            rk = self.kids(ks[-1])
            if not rk:
                return Val('()', ('unit',))
            return self.expr(rk[0])
        rt = rtf()
        if rt[0] in ('iter', 'riter'):
            self.ret_iters.append([])
        # general case
        pre, tail = self.sub(lambda: self.tail_block(ks, rt))
        if tail is not None:
            s = '(%s %s)' % (pre, tail)
            if rt[0] == 'unit':
                self.b.emit(s + ';')
                return Val('()', rt)
            if rt[0] in ('iter', 'riter'):
                return self.join_iters(self.ret_iters.pop(), self.atom(s))
            return Val(self.atom(s), rt)
        if rt[0] in ('iter', 'riter'):
            self.fail('iterator returned from inside a loop')
        exn = 'Ret_' + self.fresh('x')
        self.ret.append(('exn', exn, rt))
        pre, _ = self.sub(lambda: self.stmts(ks))
        self.ret.pop()
        if rt[0] == 'unit':
            self.b.emit('(exception %s in try %s () with %s -> () end);' % (exn, pre, exn))
            return Val('()', rt)
        return Val(self.atom('(exception %s %s in try %s absurd with %s rv -> rv end)' % (exn, self.wt(rt), pre, exn)), rt)

    def join_iters(self, its, idx):
        a = its[0]
        if os.environ.get('CXX2WHY_TRACE'): print([(type(x), x.__dict__) for x in its])
        for b in its[1:]:
            if self.contkey(a) != self.contkey(b) or a.ord != b.ord or a.rev != b.rev or bool(a.adapt) != bool(b.adapt):
                self.fail('iterators of different containers returned')
        return a.at(idx)

    def tail_block(self, ks, rt):
        """Translate a block whose every path ends in a return in tail position;
        returns the value text or None when the block is not of that shape."""
        if not self.tailable(ks):
            return None
        return self.tail(ks, rt)

    def has_return(self, n):
        if n.get('kind') == 'LambdaExpr':
            return False
        if n.get('kind') == 'ReturnStmt':
            return True
        return any(self.has_return(c) for c in self.kids(n))

    def tailable(self, ks):
        ks = [k for k in ks if k['kind'] != 'NullStmt']
        if not ks:
            return False
        for i, k in enumerate(ks):
            last = i == len(ks) - 1
            if k['kind'] == 'ReturnStmt':
                return last
            if self.has_return(k):
                if k['kind'] == 'CompoundStmt' and last:
                    return self.tailable(self.kids(k))
                if k['kind'] != 'IfStmt':
                    return False
                parts = self.kids(k)
                br = parts[1:]
                okb = [self.tailable(self.blk(x)) for x in br]
                if last:
                    return len(br) == 2 and all(okb)
                if len(br) == 1:
                    if not okb[0]:
                        return False
                    continue
                # both branches
                if all(okb):
                    return False   # dead code after
                if okb[0] and not self.has_return(br[1]):
                    continue
                if okb[1] and not self.has_return(br[0]):
                    continue
                return False
            if k['kind'] == 'CXXThrowExpr' or (k['kind'] == 'ExprWithCleanups' and self.is_throw(k)):
                return last
        return False

    def is_throw(self, k):
        while k['kind'] in ('ExprWithCleanups', 'CompoundStmt') and len(self.kids(k)) == 1:
            k = self.kids(k)[0]
        return k['kind'] == 'CXXThrowExpr'

    def blk(self, n):
        return self.kids(n) if n['kind'] == 'CompoundStmt' else [n]

    def tail(self, ks, rt):
        ks = [k for k in ks if k['kind'] != 'NullStmt']
        for i, k in enumerate(ks):
            last = i == len(ks) - 1
            if k['kind'] == 'ReturnStmt':
                rk = self.kids(k)
                if not rk:
                    return '()'
                v = self.expr(rk[0])
                if rt[0] in ('iter', 'riter') and self.ret_iters:
                    self.ret_iters[-1].append(v)
                return self.read(self.conv(v, rt))
            if self.is_throw(k):
                self.do_throw()
                return 'absurd' if self.spec.throws != 'ok' else '(absurd)'
            if self.has_return(k):
                if k['kind'] == 'CompoundStmt':
                    return self.scoped(lambda: self.tail(self.kids(k), rt))
                parts = self.kids(k)
                c = self.cond_text(parts[0])
                br = parts[1:]
                rest = ks[i + 1:]

                def branch(x, follow):
                    def f():
                        if x is None:
                            return self.tail(follow, rt)
                        if self.tailable(self.blk(x)):
                            return self.tail(self.blk(x), rt)
                        self.stmts(self.blk(x))
                        return self.tail(follow, rt)
                    p, r = self.sub(lambda: self.scoped(f))
                    return '(%s %s)' % (p, r)
                a = branch(br[0], rest)
                b = branch(br[1] if len(br) > 1 else None, rest)
                return '(if %s then %s else %s)' % (c, a, b)
            self.stmt(k)
        self.fail('block without return')

    def scoped(self, f):
        n = len(self.scope)
        try:
            return f()
        finally:
            del self.scope[n:]

    def e_CallExpr(self, n):
        ks = self.kids(n)
        callee = ks[0]
        while callee['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            callee = self.kids(callee)[0]
        if callee['kind'] in ('DeclRefExpr',):
            r = callee['referencedDecl']
            d = self.tu.byid.get(r['id'])
            v = self.env.get(r['id'])
            if isinstance(v, Lam):
                return self.call_lambda(v, self.exprs(ks[1:]))
            if d is not None and d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                d = self.resolve_body(d)
                ps = params(d)
                given = self.exprs([k for k in ks[1:] if k['kind'] != 'CXXDefaultArgExpr'], self.ref_params(ps, 0))
                vs, i = [], 0
                for p, k in zip(ps, ks[1:]):
                    if k['kind'] == 'CXXDefaultArgExpr':
                        vs.append(self.default_arg(d, p, k))
                    else:
                        vs.append(given[i])
                        i += 1
                return self.call_aleph(d, None, vs)
            return self.std_function(r['name'], [k for k in ks[1:] if k['kind'] != 'CXXDefaultArgExpr'], n, callee)
        self.fail('call through %s' % callee['kind'])

    def lambda_parts(self, node):
        rec = [c for c in self.kids(node) if c['kind'] == 'CXXRecordDecl'][0]
        op = None
        for c in walk(rec):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' and body(c) is not None:
                op = c
        if op is None:
            self.fail('generic lambda')
        return op

    def call_lambda(self, lam, vs):
        op = self.lambda_parts(lam.node)
        saved = self.this
        self.this = lam.this
        nscope = len(self.scope)
        self.inlining.append(op['id'])
        if len(self.inlining) > 12:
            self.fail('inlining too deep')
        try:
            for p, v in zip(params(op), vs):
                self.bind_param(p, v)
            return self.inline_body(body(op), lambda: self.ret_type(op))
        finally:
            self.inlining.pop()
            self.this = saved
            del self.scope[nscope:]

    def e_CXXOperatorCallExpr(self, n):
        ks = self.kids(n)
        callee = ks[0]
        while callee['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            callee = self.kids(callee)[0]
        r = callee['referencedDecl']
        name = r['name']
        d = self.tu.byid.get(r['id'])
        args = ks[1:]
        if d is not None:
            if d.get('kind') == 'CXXMethodDecl':
                if d.get('isImplicit') and name == 'operator=':
                    lhs, rhs = self.exprs(args)
                    self.write(lhs, self.read(rhs))
                    return lhs
                vs = self.call_args(d, args)
                if isinstance(vs[0], Lam):
                    return self.call_lambda(vs[0], vs[1:])
                return self.call_aleph(d, vs[0], vs[1:])
            vs = self.exprs(args)
            return self.call_aleph(d, None, vs)
        if name == 'operator=':
            lhs = self.expr(args[0])
            rhs = self.expr(args[1])
            if isinstance(lhs, Tie):
                return self.assign_tie(lhs, rhs)
            if isinstance(lhs, IterVar):
                self.assign_iter(lhs, rhs)
                return lhs
            if isinstance(lhs, Inserter):
                self.insert_into(lhs, rhs)
                return lhs
            if isinstance(lhs, (Var, Path)):
                rhs = self.conv(rhs, lhs.t) if isinstance(rhs, (Val, Var, Path)) else rhs
                if rhs.t != lhs.t and not (self.wt(rhs.t) == self.wt(lhs.t)):
                    rhs = self.convert_container(rhs, lhs.t)
                self.write(lhs, self.read(rhs))
                return lhs
            self.fail('operator= target')
        vs = self.exprs(args)
        a = vs[0]
        if name == 'operator()' and isinstance(a, Lam):
            return self.call_lambda(a, vs[1:])
        m = re.match(r'(?:const )?(?:std::)?(less|greater|less_equal|greater_equal|equal_to|not_equal_to)<', qual(args[0]).strip())
        if name == 'operator()' and m and len(vs) == 3:
            return self.compare({'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}[m.group(1)], vs[1], vs[2])
        if name == 'operator*' and isinstance(a, (Iter, IterVar)):
            return self.deref(a)
        if name == 'operator*' and isinstance(a, Inserter):
            return a
        if name == 'operator->' and isinstance(a, (Iter, IterVar)):
            return self.deref(a)
        if name in ('operator++', 'operator--'):
            if isinstance(a, Inserter):
                return a
            return self.incdec(a, name[-2:], len(args) == 2)
        if name in ('operator+', 'operator-') and isinstance(a, (Iter, IterVar)):
            b = vs[1]
            if isinstance(b, (Iter, IterVar)):
                return Val('(%s - %s)' % (self.read(a), self.read(b)), ('int', 'long'))
            o = name[-1]
            if a.rev:
                o = '-' if o == '+' else '+'
            return a.at('(%s %s %s)' % (self.read(a), o, self.read(b)))
        if name in ('operator+=', 'operator-=') and isinstance(a, IterVar):
            self.b.emit('%s <- %s %s %s;' % (a.name, a.name, name[-2], self.read(vs[1])))
            return a
        if name in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
            return self.compare(name[8:], a, vs[1])
        if name == 'operator[]':
            return self.subscript(a, vs[1])
        if name == 'operator()' and isinstance(a, FunRef):
            self.fail('call through function pointer')
        self.fail('operator %s on %r' % (name, getattr(a, 't', a)))

    def convert_container(self, v, t):
        return v

    def assign_tie(self, tie, rhs):
        if isinstance(rhs, Tie):
            if isinstance(rhs.items[0], (Iter, IterVar)):
                tmp = [i.at(self.atom(self.read(i))) for i in rhs.items]
                for l, r in zip(tie.items, tmp):
                    self.assign_iter(l, r)
                return tie
            vs = [Val(self.atom(self.read(i)), i.t) for i in rhs.items]
            for l, r in zip(tie.items, vs):
                self.write(l, self.read(self.conv(r, l.t)))
            return tie
        e = self.read(rhs)
        a, b = self.fresh('p'), self.fresh('q')
        self.b.emit('let (%s, %s) = %s in' % (a, b, e))
        for l, x, t in zip(tie.items, (a, b), rhs.t[1:]):
            self.write(l, self.read(self.conv(Val(x, t), l.t)))
        return tie

    def subscript(self, a, i):
        t = a.t
        if t[0] == 'seq':
            return self.extend(a, ('idx', self.read(i)), t[1])
        if t[0] in ('umap', 'omap'):
            # operator[] inserts a default value when the key is absent
            p = self.topath(a)
            key = self.atom(self.M.key(t[1], self.read(i)), 'k')
            if not isinstance(p, Path):
                self.fail('operator[] on a temporary map')
            self.write(p, '(mtouch %s %s %s)' % (self.read(p), key, self.default(t[2])))
            return Path(p.root, p.acc + [('key', key)], t[2], p.mutable)
        self.fail('operator[] on %r' % (t,))

    def e_ArraySubscriptExpr(self, n):
        a, i = self.exprs(self.kids(n))
        return self.subscript(a, i)

    # -- std containers
    def std_method(self, o, name, vs, n, argnodes):
        if isinstance(o, (Iter, IterVar)):
            self.fail('method %s on iterator' % name)
        t = o.t
        s = lambda: self.read(o)
        INT = ('int', 'unsigned long')
        if name in IGNORED_CALLS:
            return Val('()', ('unit',))
        if isinstance(o, View):
            return self.view_method(o, name, vs)
        if t[0] == 'mic':
            r = self.mic_method(o, name, vs, n)
            if r is not None:
                return r
        if t[0] == 'seq' or t[0] == 'model' and t[1].startswith('seq '):
            q = self.elems(o) if t[0] == 'model' else None
            et = self.elem_type(t)
            if name in ('size',):
                return Val('(vsize %s)' % s(), INT)
            if name == 'empty':
                return Val('(length %s = 0)' % s(), ('bool',))
            if name == 'at':
                return self.extend(o, ('idx', self.read(vs[0])), et)
            if name == 'front':
                return self.extend(o, ('idx', '0'), et)
            if name == 'back':
                return self.extend(o, ('idx', '(length %s - 1)' % s()), et)
            if name in ('begin', 'cbegin'):
                return self.begin_of(o)
            if name in ('end', 'cend'):
                return self.begin_of(o, True)
            if name in ('rbegin', 'crbegin'):
                return self.begin_of(o, False, True)
            if name in ('rend', 'crend'):
                return self.begin_of(o, True, True)
            if name == 'push_back' or name == 'emplace_back':
                if name == 'emplace_back' and (len(vs) != 1 or (vs[0].t != et and et[0] not in ('int', 'real', 'bool'))):
                    v = self.construct_vals(et, vs)
                else:
                    v = self.conv(vs[0], et)
                x = self.read(v)
                self.write(o, '(snoc %s %s)' % (s(), x))
                return Val('()', ('unit',))
            if name == 'pop_back':
                self.write(o, '(vpop %s)' % s())
                return Val('()', ('unit',))
            if name == 'clear':
                self.write(o, self.default(('seq', et)))
                return Val('()', ('unit',))
            if name == 'resize':
                d = self.read(self.conv(vs[1], et)) if len(vs) > 1 else self.default(et)
                self.write(o, '(vresize %s %s %s)' % (s(), self.read(vs[0]), d))
                return Val('()', ('unit',))
            if name == 'assign':
                if isinstance(vs[0], (Iter, IterVar)):
                    self.write(o, self.read(self.from_range(('seq', et), vs[0], vs[1])))
                else:
                    self.write(o, '(vmake %s %s)' % (self.read(vs[0]), self.read(self.conv(vs[1], et))))
                return Val('()', ('unit',))
            if name == 'swap':
                a = self.atom(s())
                b = self.atom(self.read(vs[0]))
                self.write(o, b)
                self.write(vs[0], a)
                return Val('()', ('unit',))
            if name == 'sort' and not vs:
                self.write(o, self.sorted(et, s()))
                return Val('()', ('unit',))
            if name == 'insert':
                pos = vs[0]
                if len(vs) == 3 and isinstance(vs[1], (Iter, IterVar)):
                    mid = self.read(self.from_range(('seq', et), vs[1], vs[2]))
                    self.write(o, '(vinsert %s %s %s)' % (s(), self.read(pos), mid))
                    return Val('()', ('unit',))
                if len(vs) == 2:
                    p = self.atom(self.read(pos))
                    self.write(o, '(vinsert1 %s %s %s)' % (s(), p, self.read(self.conv(vs[1], et))))
                    return Iter(self.topath(o), p, ('iter', et))
            if name == 'erase':
                p = self.atom(self.read(vs[0]))
                if len(vs) == 1:
                    self.write(o, '(verase %s %s (%s + 1))' % (s(), p, p))
                else:
                    self.write(o, '(verase %s %s %s)' % (s(), p, self.read(vs[1])))
                return Iter(self.topath(o), p, ('iter', et))
        if t[0] == 'oset' and t[1][0] != 'int':
            et = t[1]
            if name == 'size':
                return Val('(vsize %s)' % s(), INT)
            if name == 'empty':
                return Val('(length %s = 0)' % s(), ('bool',))
            if name in ('begin', 'cbegin'):
                return Iter(self.topath(o), '0', ('iter', et))
            if name in ('end', 'cend'):
                return Iter(self.topath(o), '(length %s)' % s(), ('iter', et))
        if t[0] == 'oset' and t[1][0] == 'int':
            et = t[1]
            if name == 'size':
                return Val('(vsize %s)' % self.seq_of(o), INT)
            if name == 'empty':
                return Val('(length %s = 0)' % self.seq_of(o), ('bool',))
            if name == 'insert' and len(vs) == 1:
                self.write(o, '(oset_add %s %s)' % (s(), self.read(self.conv(vs[0], et))))
                return Val('()', ('unit',))
            if name == 'insert' and len(vs) == 2 and isinstance(vs[0], (Iter, IterVar)) and isinstance(vs[1], (Iter, IterVar)):
                self.write(o, '(oset_add_seq %s %s)' % (s(), self.read(self.from_range(('seq', et), vs[0], vs[1]))))
                return Val('()', ('unit',))
            if name == 'clear':
                self.write(o, '(oset_empty ())')
                return Val('()', ('unit',))
            if name in ('begin', 'cbegin'):
                return self.begin_of(o)
            if name in ('end', 'cend'):
                return self.begin_of(o, True)
            if name in ('rbegin', 'crbegin'):
                return self.begin_of(o, False, True)
            if name in ('rend', 'crend'):
                return self.begin_of(o, True, True)
            if name == 'count':
                return Val('(b2i (oset_mem %s %s))' % (self.read(vs[0]), s()), INT)
            if name == 'erase' and isinstance(vs[0], (Val, Var, Path)):
                self.write(o, '(oset_remove %s %s)' % (s(), self.read(vs[0])))
                return Val('()', ('unit',))
            if name == 'find':
                return Iter(self.topath(o), '(oset_find %s %s)' % (s(), self.read(vs[0])), ('iter', et))
            if name == 'swap':
                a = self.atom(s())
                b = self.atom(self.read(vs[0]))
                self.write(o, b)
                self.write(vs[0], a)
                return Val('()', ('unit',))
        if t[0] == 'uset':
            if name == 'size':
                return Val('(uset_size %s)' % s(), INT)
            if name == 'empty':
                return Val('(uset_empty %s)' % s(), ('bool',))
            if name == 'erase' and isinstance(vs[0], IterVar) and self.uset_iters.get(s()) == vs[0].elems:
                it = vs[0]
                self.write(o, '(uset_remove %s %s)' % (self.M.key(t[1], '(vget %s %s)' % (it.elems, it.name)), s()))
                self.b.emit('%s <- verase %s %s (%s + 1);' % (it.elems, it.elems, it.name, it.name))
                return Iter(self.topath(o), it.name, ('iter', t[1]), elems=it.elems)
            if name in ('insert', 'emplace', 'erase', 'clear') and s() in self.uset_iters:
                self.fail('hashed container modified while an iterator refers to it')
            if name in ('insert', 'emplace') and len(vs) == 1:
                self.write(o, '(uset_add %s %s)' % (self.M.key(t[1], self.read(self.conv(vs[0], t[1]))), s()))
                return Val('()', ('unit',))
            if name == 'erase' and isinstance(vs[0], (Val, Var, Path)):
                self.write(o, '(uset_remove %s %s)' % (self.M.key(t[1], self.read(self.conv(vs[0], t[1]))), s()))
                return Val('()', ('unit',))
            if name == 'clear':
                self.write(o, self.default(t))
                return Val('()', ('unit',))
            if name == 'count':
                return Val('(b2i (uset_mem %s %s))' % (self.M.key(t[1], self.read(vs[0])), s()), INT)
            if name in ('begin', 'cbegin'):
                return self.begin_of(o)
            if name in ('end', 'cend'):
                last = getattr(self, 'uset_order', None)
                if last and last[2] == len(self.b.parts):
                    return self.begin_of(o, True)
                return SetEnd(o, ('iter', t[1]))
            if name == 'find':
                return SetFind(o, self.M.key(t[1], self.read(vs[0])), ('iter', t[1]))
            if name in ('end', 'cend'):
                return SetEnd(o, ('iter', t[1]))
        if t[0] in ('umap', 'omap'):
            key = lambda v: self.M.key(t[1], self.read(self.conv(v, t[1]) if t[1][0] == 'int' else v))
            if name == 'at':
                return self.extend(o, ('key', key(vs[0])), t[2])
            if name == 'size':
                return Val('(msize %s)' % s(), INT)
            if name == 'empty':
                return Val('(mis_empty %s)' % s(), ('bool',))
            if name == 'find':
                return MapFind(o, self.atom(key(vs[0]), 'k'), ('iter', ('pair', t[1], t[2])))
            if name in ('end', 'cend'):
                return SetEnd(o, ('iter', ('pair', t[1], t[2])))
            if name in ('rbegin', 'crbegin') and t[0] == 'omap' and t[1][0] == 'int':
                return MapFind(o, self.atom('(mlast %s)' % s(), 'k'), ('iter', ('pair', t[1], t[2])))
            if name == 'count':
                return Val('(b2i (mmem %s %s))' % (key(vs[0]), s()), INT)
            if name == 'clear':
                self.write(o, self.default(t))
                return Val('()', ('unit',))
            if name == 'erase' and isinstance(vs[0], (Val, Var, Path)):
                self.write(o, '(mremove %s %s)' % (s(), key(vs[0])))
                return Val('()', ('unit',))
            if name in ('insert', 'emplace'):
                if len(vs) == 2 and isinstance(vs[0], (Val, Var, Path)):
                    k2, v2 = key(vs[0]), self.read(self.conv(vs[1], t[2]))
                else:
                    pr = self.atom(self.read(vs[0]))
                    k2, v2 = self.M.key(t[1], '(fst %s)' % pr), '(snd %s)' % pr
                self.write(o, '(mtouch %s %s %s)' % (s(), k2, v2))
                return Val('()', ('unit',))
        if t[0] == 'pair' and name == 'swap':
            a = self.atom(s())
            b = self.atom(self.read(vs[0]))
            self.write(o, b)
            self.write(vs[0], a)
            return Val('()', ('unit',))
        h = getattr(self, 'ext_method', None)
        if h:
            r = h(o, name, vs, n, argnodes)
            if r is not None:
                return r
        self.fail('method %s on %r' % (name, t))

    def mic_method(self, o, name, vs, n):
        s = self.read(o)
        et = o.t[1]
        INT = ('int', 'unsigned long')
        if name == 'get':
            q = qual(n)
            if 'random_access_index<' in q.split('ordered_index')[0]:
                return o
            m = re.search(r'ordered_index<\s*(?:\w+::)*(\w+)<', q)
            if m and m.group(1) == 'identity':
                return View(o, 'lex', o.t)
            if m and m.group(1) == 'const_mem_fun':
                return View(o, 'dim', o.t)
            self.fail('index of the multi_index container')
        if name == 'project':
            it = vs[0]
            if not isinstance(it, (Iter, IterVar)) or self.read(it.cont) != s:
                self.fail('project() of a foreign iterator')
            if it.ord is not None:
                return Iter(it.cont, self.atom('(mic_dget %s %s %s)' % (s, it.ord, self.read(it))), it.t)
            if it.view == 'dim':
                self.fail('project() of an end iterator')
            return Iter(it.cont, self.read(it), it.t)
        if name == 'size':
            return Val('(vsize %s)' % s, INT)
        if name == 'empty':
            return Val('(length %s = 0)' % s, ('bool',))
        if name in ('begin', 'cbegin'):
            return self.begin_of(o)
        if name in ('end', 'cend'):
            return self.begin_of(o, True)
        if name in ('at', 'operator[]'):
            return self.extend(o, ('idx', self.read(vs[0])), et)
        if name == 'clear':
            self.write(o, self.default(o.t))
            return Val('()', ('unit',))
        if name == 'push_back':
            self.write(o, '(mic_push_back %s %s)' % (s, self.read(vs[0])))
            return Val('()', ('unit',))
        if name == 'insert' and len(vs) == 3 and isinstance(vs[1], (Iter, IterVar)):
            if self.read(vs[0]) != '(length %s)' % s:
                self.fail('insertion not at the end')
            self.write(o, '(mic_append %s %s)' % (s, self.read(self.from_range(('seq', et), vs[1], vs[2]))))
            return Val('()', ('unit',))
        if name == 'replace':
            if vs[0].view:
                self.fail('replace() through another index')
            ok, i, x = self.fresh('ok'), self.atom(self.read(vs[0])), self.atom(self.read(vs[1]))
            self.b.emit('let %s = mic_can_replace %s %s %s in' % (ok, s, i, x))
            self.write(o, '(mic_replace %s %s %s)' % (s, i, x))
            return Val(ok, ('bool',))
        if name == 'remove':
            self.write(o, '(mic_remove %s %s)' % (s, self.read(vs[0])))
            return Val('()', ('unit',))
        if name == 'erase' and len(vs) == 1 and isinstance(vs[0], (Iter, IterVar)) and not vs[0].view:
            i = self.atom(self.read(vs[0]))
            self.write(o, '(mic_erase %s %s)' % (s, i))
            return Iter(self.topath(o), i, ('iter', et))
        if name == 'sort' and len(vs) == 1:
            self.write(o, self.mic_sort(s, vs[0], et))
            return Val('()', ('unit',))
        if name == 'sort' and not vs:
            self.write(o, '(mic_sort_lex_lt %s)' % s)
            return Val('()', ('unit',))
        return None

    def mic_sort(self, s, f, et):
        if f.t[0] == 'cls':
            for sp in self.specs:
                if sp.order and sp.q == f.t[1] + '::operator()':
                    return '(mic_sort_%s %s %s)' % (sp.order, s, self.read(f))
        self.fail('sort of a multi_index container by a comparison without contract')

    def view_method(self, v, name, vs):
        o = v.base
        s = self.read(o)
        et = o.t[1]
        it = ('iter', et)
        if v.tag == 'lex':
            if name == 'find':
                return Iter(self.topath(o), self.atom('(mic_find %s %s)' % (s, self.read(vs[0]))), it, view='lex')
            if name in ('end', 'cend'):
                return Iter(self.topath(o), '(length %s)' % s, it, view='lex')
        if v.tag == 'dim':
            if name in ('end', 'cend'):
                return Iter(self.topath(o), '(length %s)' % s, it, view='dim')
            if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
                od = self.last_ord = self.atom('(mic_dim_order %s)' % s, 'ord')
                if 'rb' in name:
                    return Iter(self.topath(o), '(length %s)' % s, it, True, view='dim', ord=od)
                return Iter(self.topath(o), '0', it, view='dim', ord=od)
            if name == 'range' and len(vs) == 2 and all(isinstance(x, Lam) for x in vs):
                od = self.last_ord = self.atom('(mic_dim_order %s)' % s, 'ord')
                UL = ('int', 'unsigned long')

                def pred(lam, i):
                    pre, r = self.sub(lambda: self.read(self.call_lambda(lam, [Val('(mic_dim %s %s %s)' % (s, od, i), UL)])))
                    return '(%s %s)' % (pre, r) if pre else r
                lo, hi = self.fresh('lo'), self.fresh('hi')
                L = lambda f: re.sub(r'let ref (\w+)(?: : [^=]*)? = ', r'let \1 = ', self.logic(f))
                self.b.emit('let ref %s = 0 in' % lo)
                self.b.emit('while %s < length %s && not (%s) do invariant { 0 <= %s <= length %s } invariant { forall j_:int. 0 <= j_ < %s -> not (%s) } variant { length %s - %s } %s <- %s + 1 done;'
                            % (lo, s, pred(vs[0], lo), lo, s, lo, L(pred(vs[0], 'j_')), s, lo, lo, lo))
                self.b.emit('let ref %s = %s in' % (hi, lo))
                self.b.emit('while %s < length %s && (%s) do invariant { %s <= %s <= length %s } invariant { forall j_:int. %s <= j_ < %s -> (%s) } variant { length %s - %s } %s <- %s + 1 done;'
                            % (hi, s, pred(vs[1], hi), lo, hi, s, lo, hi, L(pred(vs[1], 'j_')), s, hi, hi, hi))
                self.b.emit('assert { [@expl:bounds of the range are monotone] forall j_:int. (%s <= j_ < length %s -> (%s)) /\\ (%s <= j_ < length %s -> not (%s)) };'
                            % (lo, s, L(pred(vs[0], 'j_')), hi, s, L(pred(vs[1], 'j_'))))
                r = Tie([Iter(self.topath(o), self.atom(lo), it, view='dim', ord=od), Iter(self.topath(o), self.atom(hi), it, view='dim', ord=od)])
                r.t = ('iterpair',)
                return r
        self.fail('method %s of index %s' % (name, v.tag))

    def construct_vals(self, t, vs):
        if t[0] == 'pair' and len(vs) == 2:
            return Val('(%s, %s)' % (self.read(self.conv(vs[0], t[1])), self.read(self.conv(vs[1], t[2]))), t)
        if t[0] == 'seq' and not vs:
            return Val(self.default(t), t)
        if t[0] == 'cls' and len(vs) == 1 and vs[0].t == t:
            return vs[0]
        if t[0] == 'cls':
            rec = self.tu.classes[t[1]]
            cands = []
            for c in rec.get('inner', []):
                if c and c.get('kind') == 'CXXConstructorDecl' and len(params(c)) == len(vs) and body(c) is not None:
                    cands.append(c)
                if c and c.get('kind') == 'FunctionTemplateDecl':
                    for d in c.get('inner', [])[1:]:
                        if d and d.get('kind') == 'CXXConstructorDecl' and len(params(d)) == len(vs) and body(d) is not None:
                            cands.append(d)
            if len(cands) == 1:
                sp = self.spec_for(cands[0])
                if sp is not None:
                    return self.call_spec(sp, None, vs, cands[0])
                return self.inline_ctor(cands[0], t[1], t, vs)
        self.fail('in-place construction of %r from %d arguments' % (t, len(vs)))

    def sorted(self, et, s):
        if et[0] == 'int':
            return '(sort_int %s)' % s
        if et[0] == 'real':
            return '(sort_real %s)' % s
        if et[0] == 'pair' and et[1][0] == 'int' and et[2][0] == 'int':
            return '(sort_pair %s)' % s
        if et[0] == 'cls':
            return self.sort_by(s, et, self.less_text(et))
        self.fail('sort of %r' % (et,))

    def insert_into(self, ins, v):
        p = ins.path
        t = p.t
        if t[0] == 'seq':
            self.write(p, '(snoc %s %s)' % (self.read(p), self.read(self.conv(v, t[1]))))
        elif t[0] == 'oset':
            self.write(p, '(oset_add %s %s)' % (self.read(p), self.read(self.conv(v, t[1]))))
        elif t[0] == 'uset':
            self.write(p, '(uset_add %s %s)' % (self.M.key(t[1], self.read(self.conv(v, t[1]))), self.read(p)))
        else:
            self.fail('inserter into %r' % (t,))

    # -- std functions
    def std_function(self, name, ks, n, callee):
        if name in ('move', 'forward', 'ref', 'cref') and len(ks) == 1:
            return self.expr(ks[0])
        if name in ('max', 'min', 'lowest', 'infinity', 'quiet_NaN', 'epsilon') and not ks:
            t = self.ty(n)
            if t[0] == 'int':
                w, s = INTS[t[1]]
                v = (2 ** (w - 1) - 1 if s else 2 ** w - 1) if name == 'max' else (-(2 ** (w - 1)) if s else 0)
                return Val(str(v) if v >= 0 else '(%d)' % v, t)
            if t[0] == 'real' and name in ('max', 'lowest', 'infinity'):
                return Val({'max': 'f_max', 'lowest': 'f_lowest', 'infinity': 'f_inf'}[name], t)
            self.fail('numeric_limits::%s' % name)
        if name == 'bind' and len(ks) == 3 and 'not_equal_to' in qual(ks[0]) and 'Placeholder<1>' in qual(ks[1]):
            return BindNe(self.read(self.expr(ks[2])))
        if name == 'make_filter_iterator' and len(ks) == 3:
            vs = self.exprs(ks)
            if isinstance(vs[0], BindNe):
                return FilterIter(vs[0].x, vs[1], vs[2])
        if name == 'sort' and len(ks) == 3 and re.search(r'(^|::)greater<', qual(ks[2]).strip()):
            vs = self.exprs(ks[:2])
            c = self.whole_range(vs[0], vs[1])
            if c is None or vs[0].t[1][0] != 'int':
                self.fail('descending sort')
            self.write(c, '(sort_int_desc %s)' % self.read(c))
            return Val('()', ('unit',))
        if name == 'make_pair' or (name == 'make_tuple' and len(ks) == 2):
            vs = self.exprs(ks)
            if isinstance(vs[0], (Iter, IterVar)):
                r = Tie(vs)
                r.t = ('iterpair',)
                return r
            try:
                t = self.ty(n)
            except ExtractionError:
                t = ('pair', vs[0].t, vs[1].t)
            return Val('(%s, %s)' % (self.read(self.conv(vs[0], t[1])), self.read(self.conv(vs[1], t[2]))), t)
        if name == 'tie':
            return Tie(self.exprs(ks))
        if name in ('back_inserter', 'inserter'):
            vs = self.exprs(ks)
            return Inserter(self.topath(vs[0]))
        if name in ('begin', 'end') and len(ks) == 1:
            o = self.expr(ks[0])
            return self.begin_of(o, name == 'end')
        vs = self.exprs(ks)
        if name in ('max', 'min') and len(vs) == 2:
            t = vs[0].t
            if t[0] == 'int':
                return Val('(%s_int %s %s)' % (name, self.read(vs[0]), self.read(vs[1])), t)
            if t[0] == 'real':
                return Val('(%s_real %s %s)' % (name, self.read(vs[0]), self.read(vs[1])), t)
        if name in ('abs', 'fabs') and len(vs) == 1:
            if vs[0].t[0] == 'real':
                return Val('(f_abs %s)' % self.read(vs[0]), vs[0].t)
        if name == 'pow' and len(vs) == 2:
            return Val('(rpow %s %s)' % (self.read(self.conv(vs[0], ('real',))), self.read(self.conv(vs[1], ('real',)))), ('real',))
        if name == 'sqrt':
            return Val('(rsqrt %s)' % self.read(self.conv(vs[0], ('real',))), ('real',))
        if name in ('get',) and len(vs) == 1 and vs[0].t[0] == 'pair':
            pass
        if name == 'distance':
            if self.contkey(vs[0]) != self.contkey(vs[1]):
                self.fail('distance between iterators of different containers')
            a, b = (vs[0], vs[1]) if not vs[0].rev else (vs[1], vs[0])
            self.b.emit('let _ = vsize %s in' % self.elems(vs[0]))
            return Val('(%s - %s)' % (self.read(b), self.read(a)), ('int', 'long'))
        if name in ('next', 'prev') and len(vs) in (1, 2):
            k = self.read(vs[1]) if len(vs) == 2 else '1'
            o = '+' if (name == 'next') != vs[0].rev else '-'
            return vs[0].at('(%s %s %s)' % (self.read(vs[0]), o, k))
        if name == 'swap' and len(vs) == 2:
            a = self.atom(self.read(vs[0]))
            b = self.atom(self.read(vs[1]))
            self.write(self.topath(vs[0]), b)
            self.write(self.topath(vs[1]), a)
            return Val('()', ('unit',))
        if name == 'sort' and len(vs) == 2:
            c = self.whole_range(vs[0], vs[1])
            if c is not None:
                self.write(c, self.sorted(vs[0].t[1], self.read(c)))
                return Val('()', ('unit',))
            c = vs[0].cont
            et = vs[0].t[1]
            if et[0] == 'int':
                self.write(c, '(sort_int_range %s %s %s)' % (self.read(c), self.read(vs[0]), self.read(vs[1])))
                return Val('()', ('unit',))
        if name in ('sort', 'stable_sort') and len(vs) == 3 and isinstance(vs[2], Lam):
            c = self.whole_range(vs[0], vs[1])
            if c is None:
                self.fail('std::sort on a part of a container')
            self.write(c, self.sort_by(self.read(c), vs[0].t[1], self.lam_text(vs[2], vs[0].t[1])))
            return Val('()', ('unit',))
        if name == 'remove_if' and len(vs) == 3 and isinstance(vs[2], Lam):
            c = self.whole_range(vs[0], vs[1])
            if c is None:
                self.fail('std::remove_if on a part of a container')
            bs = self.bits(vs)
            p, q = self.fresh('u'), self.fresh('n')
            self.b.emit('let (%s, %s) = vremove %s %s in' % (p, q, self.read(c), bs))
            self.write(c, p)
            return Iter(c, q, vs[0].t)
        if name in ('max_element', 'min_element') and len(vs) == 2:
            et = vs[0].t[1]
            i = self.atom('(%s_%s %s %s %s)' % (name, et[0], self.elems(vs[0]), self.read(vs[0]), self.read(vs[1])))
            return Iter(vs[0].cont, i, vs[0].t, False, vs[0].elems)
        if name == 'unique' and len(vs) == 2 and vs[0].t[1][0] == 'int':
            c = self.whole_range(vs[0], vs[1])
            if c is None:
                self.fail('std::unique on a part of a container')
            p, q = self.fresh('u'), self.fresh('n')
            self.b.emit('let (%s, %s) = vunique %s in' % (p, q, self.read(c)))
            self.write(c, p)
            return Iter(c, q, vs[0].t)
        if name == 'lexicographical_compare' and len(vs) == 4 and vs[0].t[1][0] == 'int':
            a = self.read(self.from_range(('seq', vs[0].t[1]), vs[0], vs[1]))
            b = self.read(self.from_range(('seq', vs[2].t[1]), vs[2], vs[3]))
            return Val('(lex_lt %s %s)' % (a, b), ('bool',))
        if name == 'set_symmetric_difference' and len(vs) == 5 and isinstance(vs[4], Inserter):
            a = self.read(self.from_range(('seq', vs[0].t[1]), vs[0], vs[1]))
            b = self.read(self.from_range(('seq', vs[2].t[1]), vs[2], vs[3]))
            return self.append_to(vs[4], '(set_symdiff %s %s)' % (a, b))
        if name in ('set_intersection', 'set_union', 'set_difference') and len(vs) == 5 and isinstance(vs[4], Inserter):
            a = self.read(self.from_range(('seq', vs[0].t[1]), vs[0], vs[1]))
            b = self.read(self.from_range(('seq', vs[2].t[1]), vs[2], vs[3]))
            return self.append_to(vs[4], '(seq_%s %s %s)' % (name, a, b))
        if name == 'copy' and len(vs) == 3 and isinstance(vs[2], Inserter):
            a = self.read(self.from_range(('seq', vs[0].t[1]), vs[0], vs[1]))
            return self.append_to(vs[2], a)
        if name == 'find' and len(vs) == 3:
            et = vs[0].t[1]
            i = self.atom('(vfind %s %s %s %s)' % (self.elems(vs[0]), self.read(vs[0]), self.read(vs[1]), self.read(self.conv(vs[2], et))))
            if not self.pure_eq(et):
                self.fail('std::find on %r' % (et,))
            return Iter(vs[0].cont, i, vs[0].t, False, vs[0].elems)
        if name in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if') and len(vs) == 3 and isinstance(vs[2], Lam):
            return self.algo_pred(name, vs)
        if name == 'isinf':
            return Val('(f_isinf %s)' % self.read(vs[0]), ('bool',))
        if name == 'isfinite':
            return Val('(f_isfinite %s)' % self.read(vs[0]), ('bool',))
        h = getattr(self, 'ext_function', None)
        if h:
            r = h(name, vs, n, ks)
            if r is not None:
                return r
        self.fail('std function %s' % name)

    def append_to(self, ins, s):
        p = ins.path
        if p.t[0] == 'seq':
            self.write(p, '(%s ++ %s)' % (self.read(p), s))
        elif p.t[0] == 'oset':
            self.write(p, '(oset_add_seq %s %s)' % (self.read(p), s))
        elif p.t[0] == 'uset':
            self.write(p, '(uset_add_seq %s %s)' % (self.read(p), s))
        else:
            self.fail('inserter into %r' % (p.t,))
        return ins

    def algo_pred(self, name, vs):
        """Search algorithms with a pure predicate become an explicit loop whose
        invariant is generated from the predicate's own text."""
        if name == 'count_if':
            return Val('(ones_of %s)' % self.bits(vs), ('int', 'long'))
        lam = vs[2]
        s = self.atom(self.elems(vs[0]), 's')
        lo = self.atom(self.read(vs[0]), 'lo')
        hi = self.atom(self.read(vs[1]), 'hi')
        et = vs[0].t[1]

        def pred(idx):
            pre, r = self.sub(lambda: self.read(self.call_lambda(lam, [Val('(vget %s %s)' % (s, idx), et)])))
            return '(%s %s)' % (pre, r) if pre else r
        k = self.fresh('k')
        ptext = pred(k)
        ltext = self.logic(pred('j_'))
        neg = name in ('all_of',)
        self.b.emit('let ref %s = %s in' % (k, lo))
        self.b.emit('while %s < %s && not (%s%s) do invariant { %s <= %s <= max_int_l %s %s } invariant { forall j_:int. %s <= j_ < %s -> not (%s%s) } variant { %s - %s } %s <- %s + 1 done;'
                    % (k, hi, 'not ' if neg else '', ptext, lo, k, lo, hi, lo, k, 'not ' if neg else '', ltext, hi, k, k, k))
        if name == 'find_if':
            return Iter(vs[0].cont, k, vs[0].t, False, vs[0].elems)
        if name == 'any_of':
            return Val('(%s < %s)' % (k, hi), ('bool',))
        return Val('(%s >= %s)' % (k, hi), ('bool',))

    def pure_call(self, f):
        """Program text of a call whose callees are all inlined."""
        save, self.force_inline = self.force_inline, True
        try:
            pre, r = self.sub(f)
        finally:
            self.force_inline = save
        return '(%s %s)' % (pre, r) if pre else r

    def lam_text(self, lam, et):
        """Logic text of a comparison given as a lambda."""
        return lambda a, b: self.logic(self.pure_call(lambda: self.read(self.call_lambda(lam, [Val(a, et), Val(b, et)]))))

    def less_text(self, et):
        """Logic text of operator<."""
        if et[0] == 'cls':
            f = self.find_member(et[1], 'operator<', 1)
            if f is not None:
                return lambda a, b: self.logic(self.pure_call(lambda: self.read(self.call_aleph(f, Val(a, et), [Val(b, et)]))))
        if et[0] in ('int', 'real'):
            return lambda a, b: '(%s %s %s)' % (a, '<' if et[0] == 'int' else '<.', b)
        self.fail('operator< of %r' % (et,))

    def strict_weak(self, s, et, lt):
        """Obligation of the sorting algorithms and ordered containers."""
        self.b.emit('assert { [@expl:comparison is a strict weak order] forall x_ y_ z_:%s. smem x_ %s -> smem y_ %s -> smem z_ %s -> not %s /\\ (%s -> %s -> %s) /\\ (not %s -> not %s -> not %s -> not %s -> not %s) };'
                    % (self.wt(et), s, s, s, lt('x_', 'x_'), lt('x_', 'y_'), lt('y_', 'z_'), lt('x_', 'z_'),
                       lt('x_', 'y_'), lt('y_', 'x_'), lt('y_', 'z_'), lt('z_', 'y_'), lt('x_', 'z_')))

    def sort_by(self, s, et, lt):
        u = self.atom(s, 's')
        self.strict_weak(u, et, lt)
        r = self.library(('seq', et), 's')
        self.b.emit('assume { [@expl:sorting] length %s = length %s /\\ (forall x_. smem x_ %s <-> smem x_ %s) /\\ (distinct %s -> distinct %s) /\\ (forall x_. times x_ %s = times x_ %s) /\\ (forall i j. 0 <= i < j < length %s -> not %s) };'
                    % (r, u, r, u, u, r, r, u, r, lt(r + '[j]', r + '[i]')))
        return r

    def library(self, t, base):
        """Result of a library call, characterised by the assumption that follows."""
        r = self.fresh(base)
        self.b.emit('let %s = (havoc () : %s) in' % (r, self.wt(t)))
        return r

    def bits(self, vs):
        """Truth values of a predicate along a range."""
        lam, et = vs[2], vs[0].t[1]
        s = self.atom(self.elems(vs[0]), 's')
        lo = self.atom(self.read(vs[0]), 'lo')
        hi = self.atom(self.read(vs[1]), 'hi')
        pred = lambda i: self.pure_call(lambda: self.read(self.call_lambda(lam, [Val('(vget %s %s)' % (s, i), et)])))
        k, bs = self.fresh('k'), self.fresh('bs')
        self.b.emit('let ref %s = %s in let ref %s = (empty : seq bool) in' % (k, lo, bs))
        self.b.emit('while %s < %s do invariant { %s <= %s <= max_int_l %s %s } invariant { length %s = %s - %s } invariant { forall j_:int. 0 <= j_ < length %s -> (%s[j_] <-> %s) } variant { %s - %s } %s <- snoc %s %s; %s <- %s + 1 done;'
                    % (k, hi, lo, k, lo, hi, bs, k, lo, bs, bs, self.logic(pred('(%s + j_)' % lo if lo != '0' else 'j_')), hi, k, bs, bs, pred(k), k, k))
        return bs

    def logic(self, s):
        """Program text of a pure expression -> logic text."""
        s = re.sub(r'\bvget\b', 'Seq.get', s)
        s = re.sub(r'\bvsize\b', 'length', s)
        s = re.sub(r'\buset_size\b', 'Fset.cardinal', s)
        s = re.sub(r'\beqv\b', 'eqv_l', s)
        s = re.sub(r'\bbeq\b', 'eqv_l', s)
        s = re.sub(r'(?<![<>])=\.', '=', s)
        return s

    # -- statements
    def stmts(self, ks):
        n = len(self.scope)
        for k in ks:
            self.stmt(k)
        del self.scope[n:]

    def stmt(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k == 'ExprWithCleanups' or k.endswith('Literal'):
            v = self.expr(n)
            # force evaluation of expressions with proof obligations
            if isinstance(v, Val) and v.t[0] != 'unit' and not re.fullmatch(r'[\w.]+', v.s):
                self.b.emit('let _ = %s in' % v.s)
            return
        self.fail('unsupported statement %s' % k, n)

    def s_NullStmt(self, n):
        pass

    def s_CompoundStmt(self, n):
        # a let-scoped block: parenthesise so that names stay local
        pre, _ = self.sub(lambda: self.stmts(self.kids(n)))
        if pre:
            self.b.emit('(%s ());' % pre)

    def s_DeclStmt(self, n):
        for d in self.kids(n):
            k = d['kind']
            if k in ('TypeAliasDecl', 'TypedefDecl', 'UsingDirectiveDecl', 'UsingDecl', 'StaticAssertDecl'):
                continue
            if k != 'VarDecl':
                self.fail('declaration %s' % k)
            self.vardecl(d)

    def vardecl(self, d):
        ini = [c for c in self.kids(d) if not c['kind'].endswith('Comment')]
        q = d['type']['qualType'].strip()
        name = d.get('name', 'v')
        if not ini:
            t = self.ty(d)
            if t[0] in ('int', 'bool', 'real'):
                return self.declare(name, t, self.havoc(t), d)
            if t[0] in ('iter', 'riter'):
                return self.iter_var(name, d, t)
            return self.declare(name, t, self.default(t), d)
        if self.strip(ini[0]).get('kind') == 'CXXConstructExpr' and not self.kids(self.strip(ini[0])):
            t = self.ty_or_none(d)
            if t is not None and t[0] in ('iter', 'riter'):
                return self.iter_var(name, d, t)
        v = self.expr(ini[0])
        isref = q.endswith('&')
        if isinstance(v, Tie) and getattr(v, 't', None) == ('iterpair',) and not isref and all(isinstance(x, Iter) for x in v.items):
            # a pair of iterators that may be advanced
            items = []
            for x, part in zip(v.items, ('first', 'second')):
                n = self.newname(name + '_' + part)
                self.b.emit('let ref %s = %s in' % (n, self.read(x)))
                items.append(IterVar(n, self.freeze(self.topath(x.cont)), x.t, x.rev, x.elems, x.view, x.ord, x.adapt))
                rec = (name + '_' + part, 'int', n)
                self.locals.append(rec)
                self.scope.append(rec)
            v = Tie(items)
            v.t = ('iterpair',)
        if isinstance(v, (Lam, Tie, View, FunRef, BindNe, FilterIter)):
            self.env[d['id']] = v
            return
        if isinstance(v, (SetFind, SetEnd, MapFind)):
            if not isinstance(v, SetEnd):
                v = v.snapshot(self)
            self.env[d['id']] = v
            return
        if isinstance(v, Inserter):
            self.env[d['id']] = v
            return
        if isinstance(v, IterVar) and isref:
            self.env[d['id']] = v
            return
        if isinstance(v, (Iter, IterVar)):
            n = self.newname(name)
            self.b.emit('let ref %s = %s in' % (n, self.read(v)))
            cont = v.cont
            if isinstance(cont, Path):
                cont = self.freeze(cont)
            if cont is not None and cont.t[0] == 'uset' and v.elems is not None and isinstance(v, Iter):
                # the order of the remaining elements survives erase()
                o = self.newname(name + '_order')
                self.b.emit('let ref %s = %s in' % (o, v.elems))
                v.elems = o
                rec = (name + '_order', 'seq', o)
                self.locals.append(rec)
                self.scope.append(rec)
                self.uset_iters[self.read(cont)] = o
            iv = IterVar(n, cont, v.t, v.rev, v.elems, v.view, v.ord, v.adapt)
            self.env[d['id']] = iv
            rec = (name, 'int', n)
            self.locals.append(rec)
            self.scope.append(rec)
            return iv
        if isref and isinstance(v, Var):
            self.env[d['id']] = v
            self.scope.append((name, self.wt(v.t), v.name))
            return
        if isref and isinstance(v, Path):
            if v.mutable:
                self.env[d['id']] = self.freeze(v)
                return
            nm = self.newname(name)
            self.b.emit('let %s = %s in' % (nm, self.read(v)))
            self.env[d['id']] = Var(nm, v.t, False, name)
            rec = (name, self.wt(v.t), nm)
            self.locals.append(rec)
            self.scope.append(rec)
            return
        try:
            t = self.ty(d)
        except ExtractionError:
            t = v.t
        if v.t[0] in ('seq', 'model', 'cls') and t[0] != v.t[0]:
            t = v.t
        if isref:
            t = v.t
        v = self.conv(v, t)
        return self.declare(name, t, self.read(v), d)

    def iter_var(self, name, d, t):
        n = self.newname(name)
        self.b.emit('let ref %s = 0 in' % n)
        self.env[d['id']] = IterVar(n, None, t, t[0] == 'riter')
        rec = (name, 'int', n)
        self.locals.append(rec)
        self.scope.append(rec)

    def s_ReturnStmt(self, n):
        ks = self.kids(n)
        tgt = self.ret[-1] if self.ret else ('fn', None)
        if tgt[0] == 'exn':
            if not ks:
                self.b.emit('raise %s;' % tgt[1])
            else:
                v = self.read(self.conv(self.expr(ks[0]), tgt[2]))
                self.b.emit('raise (%s (%s));' % (tgt[1], v))
            return
        if tgt[0] == 'ctor':
            self.fail('return inside a constructor')
        if not ks:
            self.hints(self.spec.exit)
            self.b.emit('return;' if False else 'return ();')
            return
        v = self.read(self.conv(self.expr(ks[0]), tgt[1]))
        if self.spec.exit:
            v = self.atom(v, 'res')
            self.hints([h.replace('$result', v) for h in self.spec.exit])
        self.b.emit('return (%s);' % v)

    def s_IfStmt(self, n):
        ks = self.kids(n)
        if n.get('hasInit') or n.get('hasVar'):
            self.fail('if with initialiser')
        c = self.cond_text(ks[0])
        if c == 'true':
            self.s_CompoundStmt({'inner': [ks[1]]})
            return
        if c == 'false':
            if len(ks) > 2:
                self.s_CompoundStmt({'inner': [ks[2]]})
            return
        p1, _ = self.sub(lambda: self.stmts(self.blk(ks[1])))
        p2 = ''
        if len(ks) > 2:
            p2, _ = self.sub(lambda: self.stmts(self.blk(ks[2])))
        if p2:
            self.b.emit('(if %s then (%s ()) else (%s ()));' % (c, p1, p2))
        else:
            self.b.emit('(if %s then (%s ()));' % (c, p1))

    def contains(self, n, kind, stop=('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr')):
        for c in self.kids(n):
            if c['kind'] == kind:
                return True
            if c['kind'] not in stop and self.contains(c, kind, stop):
                return True
        return False

    def s_BreakStmt(self, n):
        self.b.emit('raise %s;' % self.loopstack[-1]['brk'] if self.loopstack[-1].get('brk') else 'break;')

    def s_ContinueStmt(self, n):
        self.b.emit('raise %s;' % self.loopstack[-1]['cont'])

    def next_loop_spec(self):
        i = self.loops_seen
        self.loops_seen += 1
        if i < len(self.spec.loops):
            return i, self.spec.loops[i]
        return i, None

    def subst(self, text, loop=None):
        def rep(m):
            w = m.group(1)
            if re.fullmatch(r'K\d*', w) and (len(w) > 1 or self.loopstack):
                d = int(w[1:]) if len(w) > 1 else len(self.loopstack) - 1
                if d >= len(self.loopstack) or self.loopstack[d]['idx'] is None:
                    self.fail('loop index %s not available' % w)
                return self.loopstack[d]['idx']
            if re.fullmatch(r'E\d*', w):
                d = int(w[1:]) if len(w) > 1 else len(self.loopstack) - 1
                if d >= len(self.loopstack) or self.loopstack[d]['elems'] is None:
                    self.fail('loop elements %s not available' % w)
                return self.loopstack[d]['elems']
            if w == 'result' and not self.loopstack:
                return 'result'
            if w == 'ord':
                return self.last_ord
            if w == 'this':
                return self.read(self.this) if self.this is not None else 'this'
            return self.resolve(w)
        return re.sub(r'\$(\w+)', rep, text)

    def resolve(self, cname):
        """C++ variable name used in a contract -> WhyML variable in scope.
        Falls back on (type, ordinal) of the recorded baseline when renamed."""
        for c, t, w in reversed(self.scope):
            if c == cname:
                return w
        base = self.baseline.get('locals')
        if base:
            types = [t for c, t in base if c == cname]
            if types:
                t0 = types[0]
                same = [c for c, t in base if t == t0]
                pos = same.index(cname)
                seen = []
                for c, t, w in self.locals:
                    if t == t0:
                        seen.append((c, w))
                if pos < len(seen):
                    c, w = seen[pos]
                    if any(w == w2 for _, _, w2 in self.scope):
                        return w
        self.fail('contract variable "%s" cannot be resolved in the current source' % cname)

    def hints(self, hs):
        for h in hs:
            self.b.emit(self.subst(h))

    def loop(self, n, initf, condf, incf, bodyf, auto_inv=(), auto_variant=None, idx=None, elems=None, bodynode=None):
        i, ls = self.next_loop_spec()
        info = {'idx': idx, 'elems': elems, 'cont': None}
        has_cont = bodynode is not None and self.contains(bodynode, 'ContinueStmt')
        exn = None
        if has_cont:
            exn = 'Cont_%d' % i
            info['cont'] = exn
        self.loopstack.append(info)
        try:
            invs = []
            for a in auto_inv:
                invs.append('invariant { [@expl:loop %d range] %s }' % (i, a))
            variant = auto_variant
            if ls is None and i >= len(self.spec.loops) and self.spec.loops:
                pass
            if ls is not None:
                self.hints(ls.before)
                for t in ls.inv:
                    if t.startswith('?'):       # only if its variables exist
                        try:
                            self.subst(t)
                        except ExtractionError:
                            continue
                        t = t[1:]
                    lb, f = label(t)
                    invs.append('invariant { [@expl:loop %d: %s] %s }' % (i, lb or 'invariant', self.subst(f)))
                if ls.variant == 'none':        # partial correctness
                    variant = None
                elif ls.variant:
                    variant = self.subst(ls.variant)
            pre, c = self.sub(condf)

            def bod():
                if ls is not None:
                    self.hints(ls.begin)
                if has_cont:
                    p, _ = self.sub(bodyf)
                    self.b.emit('(exception %s in try %s () with %s -> () end);' % (exn, p, exn))
                else:
                    bodyf()
                if ls is not None:
                    self.hints(ls.end)
                if incf:
                    incf()
            p2, _ = self.sub(lambda: self.scoped(bod))
            v = ''
            if variant:
                v = 'variant { %s }' % variant
            else:
                self.diverges = True
            if pre:
                self.b.emit('while true do %s %s\n(if not (%s %s) then break);\n%s\n() done;' % ('\n'.join(invs), v, pre, c, p2))
            else:
                self.b.emit('while %s do %s %s\n%s\n() done;' % (c, '\n'.join(invs), v, p2))
            if ls is not None:
                self.hints(ls.after)
        finally:
            self.loopstack.pop()

    def s_WhileStmt(self, n):
        c, b = self.kids(n)[-2:]
        self.loop(n, None, lambda: self.cond_text(c), None, lambda: self.stmts(self.blk(b)), bodynode=b)

    def s_DoStmt(self, n):
        b, c = self.kids(n)
        # do S while(c)  ==  first := true; while first || c { first := false; S }
        f = self.fresh('first')
        self.b.emit('let ref %s = true in' % f)

        def cond():
            pre, r = self.sub(lambda: self.cond_text(c))
            if pre:
                return self.atom('(if %s then true else (%s %s))' % (f, pre, r))
            return '(%s || %s)' % (f, r)

        def bod():
            self.b.emit('%s <- false;' % f)
            self.stmts(self.blk(b))
        nsc = len(self.scope)
        self.scope.append(('first', 'bool', f))
        self.loop(n, None, cond, None, bod, bodynode=b)
        del self.scope[nsc:]

    def s_ForStmt(self, n):
        raw = n['inner']
        init, cv, cond, inc, bod = [x if x else None for x in raw]
        if init and 'kind' not in init:
            init = None

        def go():
            nsc = len(self.scope)
            idx = None
            auto, variant = [], None
            if init is not None and init.get('kind'):
                self.stmt(init)
            incvar = self.inc_var(inc)
            v = None
            if incvar is not None:
                v = self.env.get(incvar)
                if isinstance(v, (Var, IterVar)):
                    idx = v.name
            iselems = None
            if isinstance(v, IterVar):
                iselems = self.elems(v)
            if v is not None and idx and self.inc_dir(inc) == '++':
                lo = self.atom(idx, 'lo')
                auto.append('%s <= %s' % (lo, idx))
                ub = self.upper_bound(cond, incvar)
                if ub is not None:
                    auto.append('%s <= %s \\/ %s = %s' % (idx, self.logic(ub), idx, lo))
                    variant = '%s - %s' % (self.logic(ub), idx)
            self.loop(n, None, (lambda: self.cond_text(cond)) if cond is not None and cond.get('kind') else (lambda: 'true'),
                      (lambda: self.stmt(inc)) if inc is not None and inc.get('kind') else None,
                      lambda: self.stmts(self.blk(bod)), auto, variant, idx, iselems, bodynode=bod)
            del self.scope[nsc:]
        pre, _ = self.sub(go)
        self.b.emit('(%s ());' % pre)

    def strip(self, n):
        while n is not None and n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr'):
            n = self.kids(n)[0]
        return n

    def inc_var(self, inc):
        inc = self.strip(inc) if inc and inc.get('kind') else None
        if inc is None:
            return None
        if inc['kind'] == 'UnaryOperator':
            x = self.strip(self.kids(inc)[0])
            if x['kind'] == 'DeclRefExpr':
                return x['referencedDecl']['id']
        if inc['kind'] == 'CXXOperatorCallExpr':
            x = self.strip(self.kids(inc)[1])
            if x['kind'] == 'DeclRefExpr':
                return x['referencedDecl']['id']
        if inc['kind'] == 'CompoundAssignOperator':
            x = self.strip(self.kids(inc)[0])
            if x['kind'] == 'DeclRefExpr':
                return x['referencedDecl']['id']
        return None

    def inc_dir(self, inc):
        inc = self.strip(inc)
        if inc['kind'] == 'UnaryOperator':
            return inc['opcode']
        if inc['kind'] == 'CXXOperatorCallExpr':
            c = self.strip(self.kids(inc)[0])
            return c['referencedDecl']['name'][-2:]
        if inc['kind'] == 'CompoundAssignOperator':
            return {'+=': '++', '-=': '--'}.get(inc['opcode'], '?')
        return '?'

    def upper_bound(self, cond, vid):
        """Loop condition `v < e` / `v != e` with e free of side effects."""
        c = self.strip(cond) if cond and cond.get('kind') else None
        if c is None:
            return None
        if c['kind'] == 'BinaryOperator' and c['opcode'] == '&&':
            return self.upper_bound(self.kids(c)[0], vid)
        op = None
        if c['kind'] == 'BinaryOperator':
            op = c['opcode']
            a, b = self.kids(c)
        elif c['kind'] == 'CXXOperatorCallExpr':
            op = self.strip(self.kids(c)[0])['referencedDecl']['name'][8:]
            if len(self.kids(c)) != 3:
                return None
            a, b = self.kids(c)[1:]
        else:
            return None
        a1 = self.strip(a)
        if a1['kind'] != 'DeclRefExpr' or a1['referencedDecl']['id'] != vid or op not in ('<', '!='):
            return None
        save = (self.tmp, list(self.used_specs), list(self.inlined))
        try:
            pre, r = self.sub(lambda: self.read(self.expr(b)))
        except ExtractionError:
            return None
        if pre:
            self.tmp, self.used_specs, self.inlined = save
            return None
        if '(any' in r or 'raise' in r:
            return None
        return r

    def s_CXXForRangeStmt(self, n):
        ks = [c for c in n['inner'] if c]
        # [init] range begin end cond inc loopvar body
        decls = [c for c in ks if c['kind'] == 'DeclStmt']
        rng = self.kids(decls[0])[0]
        loopvar = self.kids(decls[-1])[0]
        bod = ks[-1]
        rini = [c for c in self.kids(rng)][0]

        def go():
            nsc = len(self.scope)
            o = self.expr(rini)
            if isinstance(o, Tie):
                self.fail('range-for over pair')
            o = self.topath(o)
            es, et, live = self.iteration(o)
            k = self.newname('k')
            self.b.emit('let ref %s = 0 in' % k)

            def body_():
                q = loopvar['type']['qualType'].strip()
                if live is not None:
                    p = self.extend(live, ('idx', k), et)
                    if q.endswith('&') and ('const' not in q):
                        self.env[loopvar['id']] = self.freeze(p)
                    else:
                        self.declare(loopvar['name'], et, self.read(p), loopvar, mutable=not q.endswith('&'))
                else:
                    mp = o.t[0] in ('umap', 'omap') and isinstance(o, Path) and o.mutable and q.endswith('&') and not q.startswith('const')
                    v = self.declare(loopvar['name'], et, '(vget %s %s)' % (es, k), loopvar, mutable=mp or not q.endswith('&'))
                    if mp:
                        pre, _ = self.sub(lambda: self.stmts(self.blk(bod)))
                        self.b.emit(pre)
                        if re.search(r'\b%s <-' % re.escape(v.name), pre):
                            if any(x.get('kind') == 'ContinueStmt' for x in walk(bod)):
                                self.fail('continue in a loop that modifies the values of a map')
                            self.write(o, '(mset %s (fst %s) (snd %s))' % (self.read(o), v.name, v.name))
                        return
                self.stmts(self.blk(bod))
            ltxt = 'length %s' % es
            self.loop(n, None, lambda: '%s < length %s' % (k, es), lambda: self.b.emit('%s <- %s + 1;' % (k, k)), body_,
                      ['0 <= %s <= %s' % (k, ltxt)], '%s - %s' % (ltxt, k), k, es, bodynode=bod)
            del self.scope[nsc:]
        pre, _ = self.sub(go)
        self.b.emit('(%s ());' % pre)

    def modifies_root(self, bod, root):
        return True

    def iteration(self, o):
        """Element sequence for a range-for over o: (seq text, element type, live path or None)."""
        t = o.t
        if t[0] == 'cls':
            f = self.find_member(t[1], 'begin', 0)
            if f is None:
                self.fail('class %s has no begin()' % t[1])
            it = self.inline(f, o, [])
            if not isinstance(it, (Iter, IterVar)):
                self.fail('begin() of %s is not an iterator' % t[1])
            return self.iteration(self.topath(it.cont))
        et = self.elem_type(t)
        if t[0] == 'seq':
            if isinstance(o, Path) and o.mutable:
                f = self.freeze(o)
                return self.read(f), et, f
            es = self.atom(self.read(o), 'es')
            return es, et, None
        if t[0] == 'mic' and isinstance(o, Path) and o.mutable:
            f = self.freeze(o)
            return self.read(f), et, f
        if t[0] == 'oset' and t[1][0] == 'int' or t[0] in ('model', 'mic'):
            es = self.atom(self.seq_of(o), 'es')
            return es, et, None
        if t[0] == 'uset':
            es = self.atom('(uset_elements %s)' % self.read(o), 'es')
            return es, et, None
        if t[0] in ('umap', 'omap'):
            es = self.atom('(m%selements %s)' % ('o' if t[0] == 'omap' else '', self.read(o)), 'es')
            return es, et, None
        self.fail('iteration over %r' % (t,))

    # -- whole function
    def signature(self, d, sp):
        """WhyML parameters for function d: list of (text, scope record)."""
        out = []
        if sp.sig is not None:
            return sp.sig
        if d.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl') and not self.is_static(d):
            o = self.tu.owner(d)
            t = self.M.mtype(self.tu.class_name(o))
            if self.tu.class_name(o) in self.M.adaptors:
                et = self.M.mtype(self.M.adaptor_base[self.tu.class_name(o)])
                out.append(('(this_s : seq %s)' % self.wt(et), 'this_s', ('seq', et), False, None))
                out.append(('(this : int)', 'this', ('iter', et), False, None))
            elif self.is_const(d):
                out.append(('(this : %s)' % self.wt(t), 'this', t, False, None))
            else:
                out.append(('(ref this : %s)' % self.wt(t), 'this', t, True, None))
        itc = None
        used = set()
        for i, p in enumerate(params(d)):
            q = p['type']['qualType'].strip()
            t = self.ty(p)
            nm = sane(p.get('name') or 'p%d' % i)
            while nm in used or nm == 'this':
                nm += '_'
            used.add(nm)
            if t[0] in ('iter', 'riter'):
                if itc is None:
                    itc = nm + '_s'
                    out.append(('(%s : seq %s)' % (itc, self.wt(t[1])), itc, ('seq', t[1]), False, None))
                out.append(('(%s : int)' % nm, nm, t, False, p))
                continue
            if t[0] == 'inserter':
                if nm == 'result':
                    nm = 'output'
                out.append(('(ref %s : %s)' % (nm, self.wt(t[1])), nm, t[1], True, p))
                continue
            byref = q.endswith('&') and not q.endswith('&&') and 'const' not in q
            out.append(('(%s%s : %s)' % ('ref ' if byref else '', nm, self.wt(t)), nm, t, byref, p))
        return out

    def contract_text(self, sp, sigrecs, mapping):
        def rep(text):
            def r(m):
                w = m.group(1)
                if w in ('result', 'this'):
                    return w
                if w in mapping:
                    return mapping[w]
                self.fail('contract of %s names unknown parameter %s' % (sp.q, w))
            return re.sub(r'\$(\w+)', r, text)
        out = []
        for kind, lst in (('requires', sp.requires), ('ensures', sp.ensures)):
            for t in lst:
                lb, f = label(t)
                if lb:
                    out.append('%s { [@expl:%s: %s] %s }' % (kind, sp.why, lb, rep(f)))
                else:
                    out.append('%s { %s }' % (kind, rep(f)))
        return out

    def type_ranges(self, sig):
        """Parameters of machine-integer type are within the range of their type."""
        out = []
        for txt, nm, t, byref, p in sig:
            if t[0] == 'int':
                w, s = INTS[t[1]]
                lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
                out.append('%d <= %s <= %d' % (lo, nm, hi))
        its = [nm for txt, nm, t, b, p in sig if t[0] in ('iter', 'riter')]
        if its:
            s = [nm for txt, nm, t, b, p in sig if t[0] == 'seq' and p is None][0]
            if len(its) == 2:
                out.append('0 <= %s <= %s <= length %s < 9223372036854775808' % (its[0], its[1], s))
        return out

    def param_mapping(self, d, sig, sp, baseline=None):
        m = {}
        i = 0
        ps = [x for x in sig if x[4] is not None]
        for txt, nm, t, byref, p in sig:
            if p is not None:
                m[p.get('name') or nm] = nm
            else:
                m[nm] = nm
        for j, x in enumerate(ps):
            m['p%d' % (j + 1)] = x[1]
        # iterator sequence parameter
        for txt, nm, t, byref, p in sig:
            if p is None and nm != 'this':
                m['s'] = nm
                m[nm] = nm
        base = (baseline or {}).get('params')
        if base:
            for j, c in enumerate(base):
                if c not in m and j < len(ps):
                    m[c] = ps[j][1]
        return m

    def csubst(self, t, mp):
        return re.sub(r'\$(\w+)', lambda m: mp.get(m.group(1), m.group(1)), t)

    def val_decl(self, sp, baseline):
        """Contract of a callee as an assumed `val` (proved in its own module,
        or trusted)."""
        d = sp.node
        if sp.sig is not None and d is None:
            return sp.sig
        sig = self.signature(d, sp)
        rt = self.ret_type(d, sp)
        mp = self.param_mapping(d, sig, sp, baseline)
        ct = self.contract_text(sp, sig, mp)
        rng = ['requires { [@expl:%s: argument range] %s }' % (sp.why, r) for r in self.type_ranges(sig)]
        if rt[0] == 'int':
            w, s = INTS[rt[1]]
            lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
            ct.append('ensures { %d <= result <= %d }' % (lo, hi))
        wr = [x[1] for x in sig if x[3]]
        w = 'writes { %s }' % ', '.join(wr) if wr else ''
        ra = 'raises { Cxx_throw }' if sp.throws == 'ok' and not sp.throw_when else ''
        if sp.throw_when:
            rng.append('requires { [@expl:%s: does not throw] not (%s) }' % (sp.why, self.csubst(sp.throw_when, mp)))
        dv = ''
        return 'val %s %s : %s\n  %s\n  %s %s %s' % (sp.why, ' '.join(x[0] for x in sig) or '()', self.wt(rt), '\n  '.join(rng + ct), w, ra, dv)

    def translate(self):
        sp, d = self.spec, self.spec.node
        sig = self.signature(d, sp)
        rt = self.ret_type(d, sp)
        mp = self.param_mapping(d, sig, sp, self.baseline)
        lastcont = None
        for txt, nm, t, byref, p in sig:
            self.names.add(nm)
            if nm == 'this' and t[0] == 'iter':
                cls = self.tu.class_name(self.tu.owner(d))
                self.this = Iter(lastcont, 'this', ('iter', self.M.mtype(self.M.adaptors[cls])), False, None, None, None,
                                 (cls, {f: lastcont for f, x in self.M.fields(cls)}))
                continue
            if nm == 'this':
                self.this = Var('this', t, byref, 'this') if byref else Path('this', [], t, False)
                continue
            if p is None:
                lastcont = Val(nm, t)
                self.scope.append((nm, self.wt(t), nm))
                continue
            if t[0] in ('iter', 'riter'):
                loc = nm + '_it'
                self.b.emit('let ref %s = %s in' % (loc, nm))
                self.names.add(loc)
                self.env[p['id']] = IterVar(loc, lastcont, t, t[0] == 'riter')
                self.scope.append((p.get('name'), 'int', nm))
                continue
            if byref:
                self.env[p['id']] = Var(nm, t, True, p.get('name'))
                if self.ty(p)[0] == 'inserter':
                    self.env[p['id']] = Inserter(self.topath(self.env[p['id']]))
                self.scope.append((p.get('name'), self.wt(t), nm))
            else:
                q = p['type']['qualType'].strip()
                self.scope.append((p.get('name'), self.wt(t), nm))
                if 'const' in q and q.endswith('&'):
                    self.env[p['id']] = Var(nm, t, False, p.get('name'))
                elif self.assigned(p['id']):
                    # by-value parameter modified in the body
                    self.declare((p.get('name') or nm) + '_loc', t, nm, p)
                else:
                    self.env[p['id']] = Var(nm, t, False, p.get('name'))
        base = self.baseline.get('params')
        for c, w in mp.items():
            if not any(c == x[0] for x in self.scope):
                self.scope.insert(0, (c, '?', w))
        if d.get('kind') == 'CXXConstructorDecl':
            o = self.tu.owner(d)
            cls = self.tu.class_name(o)
            self.hints(sp.entry)
            vs = [self.env[p['id']] for p in params(d)]
            r = self.inline_ctor_top(d, cls, rt)
            self.hints([h.replace('$result', r) for h in sp.exit])
            bodytext = self.b.text() + '\n' + r
        else:
            self.ret.append(('fn', rt))
            self.hints(sp.entry)
            ks = self.kids(body(d))
            tailed = None
            if rt[0] != 'unit' and self.tailable(ks) and not sp.exit:
                tailed = self.tail(ks, rt)
                bodytext = self.b.text() + '\n' + tailed
            else:
                self.stmts(ks)
                if rt[0] == 'unit':
                    # bring exit hints at the end of the body (scope closed): only globals
                    self.hints(sp.exit)
                    bodytext = self.b.text() + '\n()'
                else:
                    bodytext = self.b.text() + '\nabsurd'
            self.ret.pop()
        if self.loops_seen != len(self.spec.loops):
            self.fail('contract annotates %d loops but the source has %d' % (len(self.spec.loops), self.loops_seen))
        ct = self.contract_text(sp, sig, mp)
        rng = ['requires { %s }' % r for r in self.type_ranges(sig)]
        if rt[0] == 'int':
            w, s = INTS[rt[1]]
            lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
            ct.append('ensures { [@expl:%s: result in the range of its type] %d <= result <= %d }' % (sp.why, lo, hi))
        if sp.throw_when:
            tw = re.sub(r'\$(\w+)', r'(old $\1)', sp.throw_when)
            ct.append('ensures { [@expl:%s: throws whenever it must] not (%s) }' % (sp.why, self.csubst(tw, mp)))
        ra = 'raises { Cxx_throw%s }' % (' -> [@expl:%s: throws only when it must] %s' % (sp.why, self.csubst(tw, mp)) if sp.throw_when else '') if (self.raises or sp.throws == 'ok') else ''
        dv = 'diverges' if (self.diverges or sp.diverges) else ''
        var = ''
        if sp.variant:
            var = 'variant { %s }' % re.sub(r'\$(\w+)', lambda m: mp.get(m.group(1), m.group(1)), sp.variant)
        rec = 'rec ' if sp in self.used_specs else ''
        self.is_rec = bool(rec)
        head = 'let %s%s %s : %s' % (rec, sp.why, ' '.join(x[0] for x in sig) or '()', self.wt(rt))
        self.sigtext = head
        self.contract = '\n  '.join(rng + ct)
        return '%s\n  %s\n  %s %s %s\n= %s\n' % (head, '\n  '.join(rng + ct), var, ra, dv, bodytext)

    def delegated(self, c):
        """Call of the constructor to which a constructor delegates."""
        for x in c.get('inner', []):
            if x and x.get('kind') == 'CXXCtorInitializer' and 'delegatingInit' in x:
                return self.kids(x)[0]
        return None

    def inline_ctor_top(self, d, cls, t):
        # parameters are already bound
        out = []
        dc = self.delegated(d)
        if dc:
            obj = self.declare('obj', t, self.read(self.conv(self.expr(dc), t)))
            self.this = obj
            self.ret.append(('ctor',))
            for k in self.kids(body(d)):
                self.stmt(k)
            self.ret.pop()
            return obj.name
        inits = {}
        for x in d.get('inner', []):
            if x and x.get('kind') == 'CXXCtorInitializer':
                inits[x.get('anyInit', {}).get('name')] = self.kids(x)[0] if self.kids(x) else None
        for fn, x in self.M.fields(cls):
            ft = self.M.mtype(qual(x))
            ini = inits.get(fn)
            k2 = [q for q in self.kids(x) if not q['kind'].endswith('Comment')]
            if ini is not None and not (ini['kind'] == 'CXXDefaultInitExpr' and not self.kids(ini)):
                iv = self.read(self.construct(ft, self.kids(ini))) if ini['kind'] == 'ParenListExpr' else self.read(self.conv(self.expr(ini), ft))
            elif k2:
                iv = self.read(self.conv(self.expr(k2[0]), ft))
            elif ft[0] in ('int', 'bool', 'real'):
                iv = self.havoc(ft)
            else:
                iv = self.default(ft)
            out.append('%s = %s' % (self.M.fieldname(cls, fn), self.atom(iv, 'f')))
        obj = self.declare('obj', t, '{ %s }' % '; '.join(out))
        self.this = obj
        self.ret.append(('ctor',))
        for k in self.kids(body(d)):
            self.stmt(k)
        self.ret.pop()
        return obj.name

    def assigned(self, pid):
        """Is the parameter ever assigned / incremented / passed by reference?"""
        for x in walk(body(self.node)):
            k = x.get('kind')
            if k in ('BinaryOperator', 'CompoundAssignOperator') and ('=' == x.get('opcode') or k == 'CompoundAssignOperator'):
                y = self.strip(self.kids(x)[0])
                if y['kind'] == 'DeclRefExpr' and y['referencedDecl']['id'] == pid:
                    return True
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&'):
                y = self.strip(self.kids(x)[0])
                if y['kind'] == 'DeclRefExpr' and y['referencedDecl']['id'] == pid:
                    return True
            if k == 'CXXOperatorCallExpr':
                for y in self.kids(x)[1:]:
                    if y['kind'] == 'DeclRefExpr' and y['referencedDecl']['id'] == pid:
                        return True
            if k == 'CXXMemberCallExpr':
                for m in self.kids(x)[:1]:
                    y = self.kids(m)
                    if y and y[0]['kind'] == 'DeclRefExpr' and y[0]['referencedDecl']['id'] == pid:
                        return True
            if k == 'CallExpr':
                for y in self.kids(x)[1:]:
                    if y['kind'] == 'DeclRefExpr' and y['referencedDecl']['id'] == pid:
                        return True
        return False


class SetFind:
    """result of set.find(k)"""
    def __init__(self, o, key, t):
        self.o, self.key, self.t = o, key, t

    def snapshot(self, tr):
        return SetFind(self.o, tr.atom(self.key, 'k'), self.t)


class MapFind(SetFind):
    def snapshot(self, tr):
        return self


class SetEnd:
    def __init__(self, o, t):
        self.o, self.t = o, t


def _find_compare(self, op, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, IterVar) and isinstance(y, SetEnd) and x.elems is not None and self.uset_iters.get(self.read(y.o)) == x.elems:
            return Val('(%s %s length %s)' % (x.name, {'!=': '<>', '==': '='}[op], x.elems), ('bool',))
    f, e = (a, b) if isinstance(b, SetEnd) else (b, a)
    if not isinstance(e, SetEnd) or not isinstance(f, SetFind):
        self.fail('comparison of hashed-container iterators')
    if self.read(f.o) != self.read(e.o):
        self.fail('iterators of different containers compared')
    fn = 'mmem' if isinstance(f, MapFind) else 'uset_mem'
    mem = '(%s %s %s)' % (fn, f.key, self.read(f.o))
    if op == '!=':
        return Val(mem, ('bool',))
    if op == '==':
        return Val('(not %s)' % mem, ('bool',))
    self.fail('iterator comparison %s' % op)


_old_compare = FnTrans.compare


def _compare(self, op, a, b):
    if isinstance(a, (SetFind, SetEnd)) or isinstance(b, (SetFind, SetEnd)):
        return _find_compare(self, op, a, b)
    return _old_compare(self, op, a, b)


FnTrans.compare = _compare

_old_deref = FnTrans.deref


def _deref(self, v):
    return _old_deref(self, v)


_old_member = FnTrans.e_MemberExpr


def _member(self, n):
    inner = self.kids(n)[0]
    # it->first / it->second on a map find result
    x = inner
    while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr'):
        x = self.kids(x)[0]
    if x.get('kind') == 'CXXOperatorCallExpr':
        c = self.strip(self.kids(x)[0])
        if c.get('referencedDecl', {}).get('name') in ('operator->', 'operator*') and len(self.kids(x)) == 2:
            y = self.strip(self.kids(x)[1])
            if y.get('kind') == 'DeclRefExpr' or (y.get('kind') == 'CXXMemberCallExpr' and self.kids(y)[0].get('name') in ('rbegin', 'crbegin')):
                v = self.env.get(y['referencedDecl']['id']) if y.get('kind') == 'DeclRefExpr' else self.expr(y)
                if isinstance(v, MapFind):
                    if n['name'] == 'second':
                        return self.extend(self.topath(v.o), ('key', v.key), v.t[1][2])
                    if n['name'] == 'first':
                        return Val(v.key, v.t[1][1])
    return _old_member(self, n)


FnTrans.e_MemberExpr = _member
