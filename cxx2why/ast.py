"""Loading of clang's JSON AST and type handling.

The AST is produced by clang from the current working tree of /repo on every
run; nothing here is cached between runs."""
import json, os, re, subprocess


class ExtractionError(Exception):
    """The source uses something the translator does not cover."""


def run_clang(tu, repo, extra=()):
    cmd = ['clang++-18', '-std=c++11', '-include', 'functional', '-I', os.path.join(repo, 'include'),
           '-fsyntax-only', '-Wno-everything', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=aleph'] + list(extra) + [tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractionError('clang rejected the extraction unit: ' + p.stderr.decode()[:2000])
    return p.stdout.decode()


def load_json(s):
    d = json.JSONDecoder()
    i, out = 0, []
    n = len(s)
    while i < n:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


# ---------------------------------------------------------------------------
# types

def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


INTS = {
    'unsigned int': (32, False), 'unsigned': (32, False), 'int': (32, True),
    'unsigned long': (64, False), 'long': (64, True), 'unsigned short': (16, False),
    'short': (16, True), 'unsigned char': (8, False), 'char': (8, True),
    'unsigned long long': (64, False), 'long long': (64, True), 'signed char': (8, True),
    'size_t': (64, False), 'size_type': (64, False), 'difference_type': (64, True),
    'ptrdiff_t': (64, True), 'uint32_t': (32, False), 'uint64_t': (64, False),
}
FLOATS = {'double', 'float', 'long double'}


def norm(t):
    """Normalised spelling: no cv/ref, no namespaces, no default allocators."""
    t = t.strip()
    t = re.sub(r'\b(const|volatile|class|struct|typename|enum)\b', ' ', t)
    t = re.sub(r'\s+', ' ', t).strip()
    while t.endswith('&') or t.endswith('const'):
        t = t[:-1].strip() if t.endswith('&') else t[:-5].strip()
    return _norm(t)


def _norm(t):
    t = t.strip()
    stars = ''
    while t.endswith('*') or t.endswith('&'):
        stars = t[-1] + stars
        t = t[:-1].strip()
    stars = stars.replace('&', '')
    # split into template name and args; handle nested member (A<..>::iterator)
    i = t.find('<')
    if i < 0:
        return t.split('::')[-1].strip() + stars
    # find the matching >
    depth = 0
    for j in range(i, len(t)):
        if t[j] == '<':
            depth += 1
        elif t[j] == '>':
            depth -= 1
            if depth == 0:
                break
    name = t[:i].split('::')[-1].strip()
    args = [_norm(a) for a in split_top(t[i + 1:j])]
    args = [a for a in args if not re.match(r'(allocator|less|hash|equal_to)<', a) and a not in ('less', )]
    rest = t[j + 1:].strip()
    base = name + '<' + ', '.join(args) + '>'
    if rest.startswith('::'):
        rest2 = rest[2:]
        if '<' in rest2:
            return _norm(rest2) + stars
        return base + '::' + rest2.split('::')[-1] + stars
    return base + stars


def tmpl(t):
    """('vector', ['unsigned int']) for vector<unsigned int>"""
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    return t[:i], split_top(t[i + 1:-1])


def qual(node):
    ty = node.get('type') or {}
    return ty.get('desugaredQualType') or ty.get('qualType') or ''


def walk(n):
    yield n
    for c in n.get('inner', []) or []:
        if c:
            yield from walk(c)


class TU:
    def __init__(self, text, cfile):
        self.roots = load_json(text)
        self.byid = {}
        self.parent = {}
        self.cfile = cfile
        self.classes = {}      # normalised name -> record decl with fields
        self.funcs = []        # (qualified, node)
        for r in self.roots:
            self._index(r, None)
        self._collect()

    def _index(self, n, p):
        stack = [(n, p)]
        while stack:
            n, p = stack.pop()
            i = n.get('id')
            k = n.get('kind', '')
            if i is not None and k.endswith('Decl'):
                old = self.byid.get(i)
                if old is None or len(n.get('inner', [])) > len(old.get('inner', [])):
                    self.byid[i] = n
                    self.parent[i] = p
            for c in reversed(n.get('inner', []) or []):
                if c:
                    stack.append((c, n if k.endswith('Decl') else p))

    def class_name(self, c):
        k = c.get('kind')
        nm = c.get('name', '')
        if k == 'ClassTemplateSpecializationDecl':
            args = []
            for x in c.get('inner', []):
                if x.get('kind') == 'TemplateArgument':
                    if 'type' in x:
                        args.append(_norm(re.sub(r'\b(const|class|struct)\b', '', x['type'].get('qualType', ''))))
                    elif 'value' in x:
                        args.append(str(x['value']))
            args = [a for a in args if not re.match(r'(allocator|less|hash|equal_to)<', a)]
            return nm + '<' + ', '.join(args) + '>'
        return nm

    def owner(self, n):
        """Enclosing class of a function node, or None."""
        p = self.parent.get(n.get('id'))
        while p is not None:
            if p.get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl',
                                 'ClassTemplatePartialSpecializationDecl'):
                return p
            if p.get('kind') == 'NamespaceDecl':
                return None
            p = self.parent.get(p.get('id'))
        return None

    def dependent(self, n):
        """True if n lives inside an uninstantiated template."""
        cur = n
        p = self.parent.get(n.get('id'))
        while p is not None:
            if p.get('kind') == 'FunctionTemplateDecl':
                first = [c for c in p.get('inner', []) if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl')]
                if first and first[0].get('id') == cur.get('id'):
                    return True
            if p.get('kind') == 'ClassTemplateDecl' and cur.get('kind') == 'CXXRecordDecl':
                return True
            cur = p
            p = self.parent.get(p.get('id'))
        return False

    def _collect(self):
        for i, n in list(self.byid.items()):
            k = n.get('kind')
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                if any(c.get('kind') in ('FieldDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'FunctionTemplateDecl') for c in n.get('inner', []) if c):
                    if self.dependent(n):
                        continue
                    self.classes.setdefault(self.class_name(n), n)
            if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl'):
                if any(c and c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', [])):
                    if self.dependent(n):
                        continue
                    o = self.owner(n)
                    q = (self.class_name(o) + '::' if o is not None else '') + n.get('name', '')
                    self.funcs.append((q, n))

        # library constants, identified by probe functions of the extraction unit
        self.limits = {}
        for q, n in self.funcs:
            m = re.match(r'vp_limit_(true|false)', q)
            if m:
                for x in walk(n):
                    if x.get('kind') == 'DeclRefExpr':
                        self.limits.setdefault(x['referencedDecl']['id'], []).append(m.group(1))

    def find(self, q, pred=None):
        out = []
        for name, n in self.funcs:
            if name == q and (pred is None or pred(n)):
                if n not in out:
                    out.append(n)
        return out


def params(fn):
    return [c for c in fn.get('inner', []) if c and c.get('kind') == 'ParmVarDecl']


def body(fn):
    for c in fn.get('inner', []):
        if c and c.get('kind') == 'CompoundStmt':
            return c
    return None
