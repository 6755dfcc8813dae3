"""state the code under test keeps between calls

Every path of an obligation starts from the state right after importing the package: values left
behind in module variables, class or function attributes, default arguments, closures and caches by
an earlier path belong to that path only.
"""
import types

CONTAINERS = (dict, list, set)


class State:
    def __init__(self, modules):
        self.modules = modules
        self.owners = []  # (namespace owner, names)
        self.contents = {}  # id -> (container, copy of its contents)
        self.caches = []
        self.seen = set()
        for m in modules:
            names = {k: v for k, v in vars(m).items() if not k.startswith('__')}
            self.owners.append((m, names))
            for v in names.values():
                self.visit(v)

    def mine(self, obj):
        return any(getattr(obj, '__module__', None) == m.__name__ for m in self.modules)

    def visit(self, v, depth=0):
        if id(v) in self.seen or depth > 6:
            return
        self.seen.add(id(v))
        if isinstance(v, CONTAINERS):
            self.contents[id(v)] = (v, v.copy())
            for x in (v.values() if isinstance(v, dict) else v):
                self.visit(x, depth + 1)
        elif hasattr(v, 'cache_clear') and callable(v.cache_clear):
            self.caches.append(v)
            self.visit(getattr(v, '__wrapped__', None), depth + 1)
        elif isinstance(v, types.FunctionType):
            if not self.mine(v):
                return
            self.visit(v.__dict__, depth + 1)
            for x in (v.__defaults__ or ()):
                self.visit(x, depth + 1)
            for x in (v.__kwdefaults__ or {}).values():
                self.visit(x, depth + 1)
            for c in (v.__closure__ or ()):
                try:
                    self.visit(c.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif isinstance(v, (staticmethod, classmethod)):
            self.visit(v.__func__, depth + 1)
        elif isinstance(v, property):
            for f in (v.fget, v.fset, v.fdel):
                self.visit(f, depth + 1)
        elif isinstance(v, type):
            if not self.mine(v):
                return
            names = {k: x for k, x in vars(v).items() if not (k.startswith('__') and k.endswith('__'))}
            self.owners.append((v, names))
            for x in vars(v).values():
                self.visit(x, depth + 1)

    def restore(self):
        for owner, names in self.owners:
            now = [k for k in vars(owner) if not k.startswith('__')]
            for k in now:
                if k not in names:
                    delattr(owner, k)
            for k, v in names.items():
                if vars(owner).get(k, self) is not v:
                    setattr(owner, k, v)
        for v, old in self.contents.values():
            if isinstance(v, dict):
                if not (len(v) == len(old) and all(k is j and v[k] is old[j] for k, j in zip(v, old))):
                    v.clear()
                    v.update(old)
            elif isinstance(v, list):
                v[:] = old
            else:
                v.clear()
                v.update(old)
        for c in self.caches:
            c.cache_clear()
