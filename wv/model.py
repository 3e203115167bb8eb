"""Program model of the Python package under /repo: parsed, never imported."""
import ast
import hashlib
import os


class AnalysisBroken(Exception):
    """The anchor of an analysis has vanished: no verdict is possible."""


class Func:
    __slots__ = ('node', 'module', 'cls', 'name', 'kind', 'is_gen')

    def __init__(self, node, module, cls, kind):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        # 'function', 'method', 'classmethod', 'staticmethod', 'property',
        # 'setter', 'nested'
        self.kind = kind
        self.is_gen = is_generator(node)

    @property
    def qual(self):
        return (self.module.name + '.'
                + (self.cls.name + '.' if self.cls is not None else '')
                + self.name)

    @property
    def where(self):
        return '%s:%d (%s)' % (self.module.relpath, self.node.lineno,
                               self.short)

    @property
    def short(self):
        return ((self.cls.name + '.' if self.cls is not None else '')
                + self.name)

    @property
    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args]

    def __repr__(self):
        return '<Func %s>' % self.qual


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}      # class level assignments: name -> expr
        self.base_exprs = node.bases
        self.bases = []      # resolved repo classes
        self.ext_bases = []  # dotted names of external bases
        self.slots = None

    @property
    def qual(self):
        return self.module.name + '.' + self.name

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def all_ext_bases(self):
        out = []
        for c in self.mro():
            out.extend(c.ext_bases)
        return out

    @property
    def is_enum(self):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'IntFlag')
                   for b in self.all_ext_bases())

    def find_method(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_slots(self):
        """Declared slots, None when any class of the chain has a dict."""
        out = set()
        for c in self.mro():
            if c.slots is None:
                return None
            out |= set(c.slots)
        return out

    def __repr__(self):
        return '<Class %s>' % self.name


class Module:
    def __init__(self, name, path, relpath, source):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.source = source
        self.tree = ast.parse(source, filename=path)
        self.globals = {}    # name -> ('func', Func) | ('class', Class) |
        #                      ('import', module, name|None) | ('expr', node)
        self.functions = []  # every Func, methods and nested included
        self.classes = []

    def __repr__(self):
        return '<Module %s>' % self.name


class Program:
    def __init__(self, root='/repo', package='wagyu'):
        self.root = root
        self.package = package
        self.modules = {}
        pkg_dir = os.path.join(root, package)
        if not os.path.isdir(pkg_dir):
            raise AnalysisBroken('package directory %s is missing' % pkg_dir)
        h = hashlib.sha256()
        for base, dirs, files in os.walk(pkg_dir):
            dirs.sort()
            for fn in sorted(files):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(base, fn)
                rel = os.path.relpath(path, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                h.update(rel.encode() + b'\0' + src.encode() + b'\0')
                try:
                    m = Module(name, path, rel, src)
                except SyntaxError as e:
                    raise AnalysisBroken('%s does not parse: %s' % (rel, e))
                self.modules[name] = m
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            for c in m.classes:
                self._resolve_bases(c)

    # -- indexing ---------------------------------------------------------
    def _index(self, m):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                for name, target in self._import_targets(m, st):
                    m.globals.setdefault(name, target)
            elif isinstance(st, ast.FunctionDef):
                f = Func(st, m, None, 'function')
                m.globals[st.name] = ('func', f)
                m.functions.append(f)
            elif isinstance(st, ast.ClassDef):
                self._index_class(m, st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = ('expr', st.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.globals[e.id] = ('item', st.value, i)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    m.globals[st.target.id] = ('expr', st.value)
            elif isinstance(st, ast.Try):
                self._index_body(m, st.body)
                for h in st.handlers:
                    self._index_body(m, h.body)
                self._index_body(m, st.orelse)
                self._index_body(m, st.finalbody)
            elif isinstance(st, ast.If):
                self._index_body(m, st.body)
                self._index_body(m, st.orelse)

    def _import_targets(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                yield (a.asname or a.name.split('.')[0],
                       ('import', a.name if a.asname
                        else a.name.split('.')[0], None))
        else:
            if st.level:
                parts = m.name.split('.')
                is_pkg = m.relpath.endswith('__init__.py')
                up = st.level - (1 if is_pkg else 0)
                base = parts[:len(parts) - up] if up else parts
                mod = '.'.join(base + ([st.module] if st.module else []))
            else:
                mod = st.module
            for a in st.names:
                yield a.asname or a.name, ('import', mod, a.name)

    def _index_class(self, m, st):
        c = Class(st, m)
        m.globals[st.name] = ('class', c)
        m.classes.append(c)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                kind = 'method'
                for d in s.decorator_list:
                    dn = ast.unparse(d)
                    if dn in ('property', 'cached_property',
                              'functools.cached_property'):
                        kind = 'property'
                    elif dn.endswith('.setter'):
                        kind = 'setter'
                    elif dn == 'classmethod':
                        kind = 'classmethod'
                    elif dn == 'staticmethod':
                        kind = 'staticmethod'
                f = Func(s, m, c, kind)
                m.functions.append(f)
                if kind == 'setter':
                    c.setters[s.name] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                        if t.id == '__slots__':
                            try:
                                v = ast.literal_eval(s.value)
                                c.slots = ((v,) if isinstance(v, str)
                                           else tuple(v))
                            except ValueError:
                                c.slots = None
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    c.attrs[s.target.id] = s.value

    def _resolve_bases(self, c):
        for b in c.base_exprs:
            t = self.resolve_expr_static(c.module, b)
            if isinstance(t, Class):
                c.bases.append(t)
            else:
                c.ext_bases.append(ast.unparse(b))

    def resolve_expr_static(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve_name(m, e.id)
        return None

    def resolve_name(self, m, name, depth=0):
        """Class, Func, Module, ('ext', dotted) or ('expr', module, node)."""
        if depth > 20:
            return None
        g = m.globals.get(name)
        if g is None:
            return None
        if g[0] in ('func', 'class'):
            return g[1]
        if g[0] == 'import':
            _, mod, attr = g
            if mod in self.modules:
                target = self.modules[mod]
                if attr is None:
                    return target
                r = self.resolve_name(target, attr, depth + 1)
                if r is not None:
                    return r
                sub = mod + '.' + attr
                if sub in self.modules:
                    return self.modules[sub]
                return None
            if attr is not None and mod + '.' + attr in self.modules:
                return self.modules[mod + '.' + attr]
            return ('ext', mod if attr is None else '%s.%s' % (mod, attr))
        if g[0] == 'expr':
            return ('expr', m, g[1])
        if g[0] == 'item':
            return ('item', m, g[1], g[2])
        return None

    # -- lookups ----------------------------------------------------------
    def cls(self, name):
        for m in self.modules.values():
            g = m.globals.get(name)
            if g is not None and g[0] == 'class':
                return g[1]
        return None

    def need_class(self, name):
        c = self.cls(name)
        if c is None:
            raise AnalysisBroken('class %s not found in %s'
                                 % (name, self.package))
        return c

    def func(self, dotted):
        """'Class.method' or 'function' (module qualified or not)."""
        if '.' in dotted:
            cname, fname = dotted.rsplit('.', 1)
            c = self.cls(cname)
            if c is not None:
                return c.find_method(fname)
            m = self.modules.get(cname)
            if m is None:
                m = self.modules.get(self.package + '.' + cname)
            if m is not None:
                g = m.globals.get(fname)
                if g is not None and g[0] == 'func':
                    return g[1]
            return None
        for m in self.modules.values():
            g = m.globals.get(dotted)
            if g is not None and g[0] == 'func':
                return g[1]
        return None

    def need(self, dotted):
        f = self.func(dotted)
        if f is None:
            raise AnalysisBroken('%s not found in %s'
                                 % (dotted, self.package))
        return f

    def all_functions(self):
        for m in self.modules.values():
            for f in m.functions:
                yield f

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes:
                yield c

    def stats(self):
        return {'modules': len(self.modules),
                'classes': sum(1 for _ in self.all_classes()),
                'functions': sum(1 for _ in self.all_functions())}
