"""Parsed program: modules, functions, classes, exception hierarchy."""
import ast
import os


class Undecided(Exception):
    """The analysis met a construct it has no sound summary for."""


class AnchorMissing(Exception):
    """A public function the rules are anchored at does not exist any more."""


EXC_PARENTS = {
    'BaseException': (), 'Exception': ('BaseException',), 'KeyboardInterrupt': ('BaseException',),
    'SystemExit': ('BaseException',),
    'ValueError': ('Exception',), 'TypeError': ('Exception',), 'AttributeError': ('Exception',),
    'LookupError': ('Exception',), 'KeyError': ('LookupError',), 'IndexError': ('LookupError',),
    'ArithmeticError': ('Exception',), 'OverflowError': ('ArithmeticError',), 'ZeroDivisionError': ('ArithmeticError',),
    'AssertionError': ('Exception',), 'NotImplementedError': ('RuntimeError',), 'RuntimeError': ('Exception',),
    'RecursionError': ('RuntimeError',), 'StopIteration': ('Exception',), 'UnicodeError': ('ValueError',),
    'UnicodeDecodeError': ('UnicodeError',), 'UnicodeEncodeError': ('UnicodeError',), 'NameError': ('Exception',),
    'ImportError': ('Exception',), 'ModuleNotFoundError': ('ImportError',),
    'OSError': ('Exception',), 'ConnectionError': ('OSError',), 'TimeoutError': ('OSError',),
    'ConnectionRefusedError': ('ConnectionError',), 'ConnectionResetError': ('ConnectionError',),
    'ConnectionAbortedError': ('ConnectionError',), 'BrokenPipeError': ('ConnectionError',),
    'requests.exceptions.RequestException': ('OSError',),
    'requests.exceptions.ConnectionError': ('requests.exceptions.RequestException',),
    'requests.exceptions.Timeout': ('requests.exceptions.RequestException',),
    'requests.exceptions.ReadTimeout': ('requests.exceptions.Timeout',),
    'requests.exceptions.ConnectTimeout': ('requests.exceptions.ConnectionError', 'requests.exceptions.Timeout'),
    'requests.exceptions.HTTPError': ('requests.exceptions.RequestException',),
    'requests.exceptions.SSLError': ('requests.exceptions.ConnectionError',),
    'requests.exceptions.ProxyError': ('requests.exceptions.ConnectionError',),
    'requests.exceptions.ChunkedEncodingError': ('requests.exceptions.RequestException',),
    'requests.exceptions.ContentDecodingError': ('requests.exceptions.RequestException',),
    'requests.exceptions.TooManyRedirects': ('requests.exceptions.RequestException',),
    'requests.exceptions.InvalidURL': ('requests.exceptions.RequestException', 'ValueError'),
    'requests.exceptions.JSONDecodeError': ('requests.exceptions.RequestException', 'json.JSONDecodeError'),
    'json.JSONDecodeError': ('ValueError',), 'json.decoder.JSONDecodeError': ('ValueError',),
    'decimal.InvalidOperation': ('ArithmeticError',),
    'binascii.Error': ('ValueError',),
}
EXC_ALIAS = {
    'IOError': 'OSError', 'EnvironmentError': 'OSError',
    'requests.ConnectionError': 'requests.exceptions.ConnectionError',
    'requests.Timeout': 'requests.exceptions.Timeout', 'requests.HTTPError': 'requests.exceptions.HTTPError',
    'requests.ReadTimeout': 'requests.exceptions.ReadTimeout',
    'requests.ConnectTimeout': 'requests.exceptions.ConnectTimeout',
    'requests.RequestException': 'requests.exceptions.RequestException',
}


def exc_name(n):
    return EXC_ALIAS.get(n, n)


class FuncInfo:
    __slots__ = ('qual', 'node', 'module', 'scope', 'cls', 'kind', 'defaults', 'kwdefaults', 'owner_frame')

    def __init__(self, qual, node, module, scope, cls=None, kind='plain'):
        self.qual = qual
        self.node = node
        self.module = module
        self.scope = scope          # tuple of enclosing frame ids, innermost first
        self.cls = cls
        self.kind = kind
        self.defaults = ()
        self.kwdefaults = {}
        self.owner_frame = None

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], (a.vararg.arg if a.vararg else None), \
            [x.arg for x in a.kwonlyargs], (a.kwarg.arg if a.kwarg else None)


class ClassInfo:
    __slots__ = ('qual', 'node', 'module', 'bases', 'ns', 'fields')

    def __init__(self, qual, node, module, bases):
        self.qual = qual
        self.node = node
        self.module = module
        self.bases = bases
        self.ns = {}
        self.fields = None          # namedtuple fields


class Sources:
    """module name -> syntax tree, from the working tree at `roots`."""

    def __init__(self, roots):
        self.roots = roots          # {'bit': '/repo/bit', 'spec': '/verif/specs'}
        self.trees = {}
        self.paths = {}

    def path(self, mod):
        parts = mod.split('.')
        root = self.roots.get(parts[0])
        if root is None:
            return None
        p = os.path.join(root, *parts[1:])
        for c in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(c):
                return c
        return None

    def is_pkg(self, mod):
        p = self.path(mod)
        return p is not None and p.endswith('__init__.py')

    def has(self, mod):
        return self.path(mod) is not None

    def tree(self, mod):
        if mod not in self.trees:
            p = self.path(mod)
            if p is None:
                raise AnchorMissing('module {} not found'.format(mod))
            with open(p, encoding='utf-8') as f:
                src = f.read()
            self.trees[mod] = ast.parse(src, p)
            self.paths[mod] = p
        return self.trees[mod]

    def all_modules(self, root='bit'):
        base = self.roots[root]
        out = []
        for d, dn, fn in os.walk(base):
            dn[:] = [x for x in dn if x != '__pycache__']
            for f in sorted(fn):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), base)[:-3].replace(os.sep, '.')
                    if rel == '__init__':
                        out.append(root)
                    elif rel.endswith('.__init__'):
                        out.append(root + '.' + rel[:-9])
                    else:
                        out.append(root + '.' + rel)
        return sorted(out)


def assigned_names(node):
    """names bound in a function body (not descending into nested functions)"""
    out = set()
    glob, nonl = set(), set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators[:1]:
                self.visit(g.iter)
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            nonl.update(n.names)

    v = V()
    for s in node.body if isinstance(node.body, list) else [node.body]:
        v.visit(s)
    return out - glob - nonl, glob, nonl
