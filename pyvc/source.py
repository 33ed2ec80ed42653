"""Parses the current source of the repository (every run) and resolves names."""
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class Module:
    def __init__(self, name, tree, text):
        self.name, self.tree, self.text = name, tree, text
        self.names = {}      # global name -> ('class', qual) | ('def', node) | ('mod', name) | ('ext', qual)
        self.classes = {}
        self.defs = {}


class Source:
    def __init__(self):
        self.mods = {}
        self.classes = {}    # class name -> list of (module, node); names may repeat over modules
        base = os.path.join(REPO, "pybbn")
        for root, _, files in os.walk(base):
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(root, f)
                    rel = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    text = open(p).read()
                    self.load(rel, text)

    def load(self, name, text):
        m = Module(name, ast.parse(text), text)
        self.mods[name] = m
        for n in m.tree.body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.names[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.names[a.asname or a.name] = ("from", n.module, a.name)
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = n
                m.names[n.name] = ("class", name, n.name)
            elif isinstance(n, ast.FunctionDef):
                m.defs[n.name] = n
                m.names[n.name] = ("def", name, n.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                m.names[n.targets[0].id] = ("const", name, n.value)

    def resolve(self, mod, name):
        """('class', module, name) | ('def', module, name) | ('ext', qual) | None"""
        r = self.mods[mod].names.get(name)
        seen = 0
        while r is not None and r[0] == "from" and seen < 10:
            seen += 1
            if r[1] in self.mods:
                r = self.mods[r[1]].names.get(r[2])
            else:
                return ("ext", "%s.%s" % (r[1], r[2]))
        return r

    def bases(self, mod, cls):
        out = []
        for b in self.mods[mod].classes[cls].bases:
            if isinstance(b, ast.Name):
                r = self.resolve(mod, b.id)
                if r and r[0] == "class":
                    out.append((r[1], r[2]))
        return out

    def mro(self, mod, cls):
        out = [(mod, cls)]
        for b in self.bases(mod, cls):
            out += self.mro(*b)
        return out

    def find_method(self, mod, cls, name):
        for m, c in self.mro(mod, cls):
            for n in self.mods[m].classes[c].body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return m, c, n
        return None

    def function(self, qual):
        """'pkg.mod:Class.name' or 'pkg.mod:name' -> (mod, cls, node) or None"""
        mod, _, rest = qual.partition(":")
        if mod not in self.mods:
            return None
        if "." in rest:
            cls, name = rest.split(".")
            if cls not in self.mods[mod].classes:
                return None
            for n in self.mods[mod].classes[cls].body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    return mod, cls, n
            return None
        n = self.mods[mod].defs.get(rest)
        return (mod, None, n) if n is not None else None


def decorators(node):
    return [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "?") for d in node.decorator_list]


def digest(node):
    return hashlib.sha256(ast.dump(node).encode()).hexdigest()[:12]
