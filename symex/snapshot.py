"""Reset of module-level state of the code under analysis between paths."""
import collections
import types


class Snapshot:
    def __init__(self, modules):
        self.names = {m.__name__ for m in modules}
        self.recs = []
        self.caches = []
        seen = set()
        stack = []
        for m in modules:
            self.recs.append(("mod", m.__dict__, dict(m.__dict__)))
            stack.extend(v for k, v in m.__dict__.items() if not k.startswith("__"))
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            t = type(o)
            if t in (dict, collections.OrderedDict, collections.defaultdict):
                seen.add(id(o))
                self.recs.append(("dict", o, dict(o)))
                stack.extend(o.values())
            elif t is list:
                seen.add(id(o))
                self.recs.append(("list", o, list(o)))
                stack.extend(o)
            elif t is tuple:
                seen.add(id(o))
                stack.extend(o)
            elif t is set:
                seen.add(id(o))
                self.recs.append(("set", o, set(o)))
            elif isinstance(o, type):
                if o.__module__ in self.names:
                    seen.add(id(o))
                    d = {k: v for k, v in vars(o).items() if k not in ("__dict__", "__weakref__")}
                    self.recs.append(("class", o, d))
                    stack.extend(d.values())
            elif isinstance(o, types.FunctionType):
                if o.__module__ in self.names:
                    seen.add(id(o))
                    for c in o.__closure__ or ():
                        try:
                            v = c.cell_contents
                        except ValueError:
                            continue
                        self.recs.append(("cell", c, v))
                        stack.append(v)
                    stack.extend(o.__defaults__ or ())
                    stack.extend((o.__kwdefaults__ or {}).values())
                    if o.__dict__:
                        stack.append(o.__dict__)
            elif isinstance(o, (staticmethod, classmethod)):
                stack.append(o.__func__)
            elif isinstance(o, property):
                stack.extend(x for x in (o.fget, o.fset, o.fdel) if x)
            elif hasattr(o, "cache_clear"):
                seen.add(id(o))
                self.caches.append(o)
            elif getattr(t, "__module__", None) in self.names and hasattr(o, "__dict__"):
                seen.add(id(o))
                self.recs.append(("dict", o.__dict__, dict(o.__dict__)))
                stack.extend(o.__dict__.values())
        self.keep = [r[1] for r in self.recs]

    def restore(self):
        for kind, o, v in self.recs:
            if kind == "dict" or kind == "mod":
                if len(o) != len(v) or any(o.get(k, self) is not x for k, x in v.items()):
                    o.clear()
                    o.update(v)
            elif kind == "list":
                if len(o) != len(v) or any(a is not b for a, b in zip(o, v)):
                    o[:] = v
            elif kind == "set":
                if o != v:
                    o.clear()
                    o.update(v)
            elif kind == "cell":
                try:
                    if o.cell_contents is not v:
                        o.cell_contents = v
                except ValueError:
                    o.cell_contents = v
            elif kind == "class":
                cur = vars(o)
                for k in [k for k in cur if k not in v and k not in ("__dict__", "__weakref__")]:
                    try:
                        delattr(o, k)
                    except Exception:
                        pass
                for k, x in v.items():
                    if cur.get(k, self) is not x:
                        try:
                            setattr(o, k, x)
                        except Exception:
                            pass
        for c in self.caches:
            c.cache_clear()
