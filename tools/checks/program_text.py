"""Reads exported program texts: text, numpy, torch, julia, tensorkit, itensor
and itf programs become the statements of spec/Program.tla."""
import re
from fractions import Fraction

P = 46337

class Unreadable(Exception):
    pass

# ---------------------------------------------------------------- expressions
TOKEN = re.compile(r"\s*(?:(\d+\.\d+|\d+)|([A-Za-z_]\w*(?::\w+)?)(\s*\[[^\]]*\])?|(\*\*|//|[-+*/^()]))")

def tokens(s):
    out, at = [], 0
    while at < len(s.rstrip()):
        m = TOKEN.match(s, at)
        if not m: raise Unreadable("cannot read %r" % s[at:])
        if m.group(1): out.append(("n", Fraction(m.group(1))))
        elif m.group(2): out.append(("x", m.group(2), None if m.group(3) is None else m.group(3).strip()[1:-1]))
        else: out.append(("o", m.group(4)))
        at = m.end()
    return out

class Reader:
    """sums of products of numbers, names and powers; juxtaposition multiplies"""
    def __init__(self, s): self.t, self.at = tokens(s), 0
    def peek(self, *ops): return self.at < len(self.t) and self.t[self.at][0] == "o" and self.t[self.at][1] in ops
    def next(self):
        if self.at >= len(self.t): raise Unreadable("the expression ends early")
        self.at += 1
        return self.t[self.at - 1]
    def all(self):
        e = self.sum()
        if self.at != len(self.t): raise Unreadable("something follows the expression")
        return e
    def sum(self):
        a = [self.product()]
        while self.peek("+", "-"):
            o = self.next()[1]
            p = self.product()
            a.append(p if o == "+" else ("p", [("c", Fraction(-1)), p]))
        return a[0] if len(a) == 1 else ("+", a)
    def product(self):
        a = [self.unary()]
        while self.at < len(self.t) and not self.peek(")", "+", "-", "^", "**"):
            if self.peek("*"): self.next(); a.append(self.unary())
            elif self.peek("/", "//"):
                self.next(); d = self.unary()
                if d[0] != "c" or not d[1]: raise Unreadable("division by something that is no number")
                a.append(("c", 1 / d[1]))
            else: a.append(self.unary())
        return a[0] if len(a) == 1 else ("p", a)
    def unary(self):
        if self.peek("-"): self.next(); return ("p", [("c", Fraction(-1)), self.unary()])
        return self.power()
    def power(self):
        b = self.atom()
        if self.peek("^", "**"):
            self.next()
            n = fold(self.unary())
            if n[0] != "c": raise Unreadable("the exponent is no number")
            if b[0] == "c" and n[1].denominator == 1: return ("c", b[1] ** int(n[1]))
            return ("^", b, n[1])
        return b
    def atom(self):
        k = self.next()
        if k[0] == "n": return ("c", k[1])
        if k[0] == "x": return k
        if k[1] == "(":
            e = self.sum()
            if not self.peek(")"): raise Unreadable("a parenthesis is not closed")
            self.next()
            return fold(e)
        raise Unreadable("unexpected %r" % k[1])

def fold(e):
    if e[0] == "p" and all(f[0] == "c" for f in map(fold, e[1])):
        v = Fraction(1)
        for f in e[1]: v *= fold(f)[1]
        return ("c", v)
    return e

def scalar(v): return {"re": [v.numerator % P, v.denominator % P], "im": [0, 1]}

# ------------------------------------------------------------------- programs
class Program:
    def __init__(self, r):
        self.r = r
        self.idx, self.objs = list(r["idx"]), list(r["objs"])
        self.byname, self.labels, self.st, self.text = {}, {}, [], []
        self.live, self.bound = set(), {}
        ni, na, nk = r["dims"]
        self.space = {"i": (0, ni), "a": (ni, na), "K": (12, nk)}
        self.tags = {"o": "i", "v": "a", "x": "K", "c": "i", "e": "a", "F": "K"}
        self.clash = None
        self.names(self.name)
    def names(self, name):
        self.byname, self.clash = {}, None
        for x in self.r["inputs"] + self.r["want"]:
            n = name(x["nm"])
            if self.byname.setdefault(n, x["o"]) != x["o"]: self.clash = "two objects are called %s" % n
    # how an object is called, independent of the indices it is used with
    def name(self, nm): return re.sub(r"\s*\[.*", "", nm)
    def new_index(self, lo, n):
        self.idx.append({"lo": lo, "n": n, "pr": []})
        return len(self.idx)
    def index(self, label):
        if label not in self.labels:
            if label == self.r["batch"]: self.labels[label] = self.new_index(self.space[label[0]][0] + self.r["point"], 1)
            else: self.labels[label] = self.new_index(*self.space_of(label))
        return self.labels[label]
    def space_of(self, label):
        if label[0] not in self.space: raise Unreadable("what index is %r" % label)
        return self.space[label[0]]
    def object(self, n, dims):
        if n not in self.byname:
            self.objs.append({"nm": n, "fam": n, "kind": "tensor" if dims else "scalar", "d": [{"lo": a, "n": b} for a, b in dims]})
            self.byname[n] = len(self.objs)
        return self.byname[n]
    def known(self, n):
        if n not in self.byname: raise Unreadable("%s is used before it exists" % n)
        return self.byname[n]
    def say(self, op, o, line, sl=(), z=False, e=None):
        s = {"op": op, "o": o, "sl": list(sl), "z": z}
        if e is not None: s["e"] = e
        if op in ("create", "load"): self.live.add(o)
        if op in ("unload", "destroy", "persist"): self.live.discard(o)
        self.st.append(s); self.text.append(line)
    # zeros are assigned to it: it is made, or set to zero
    def zeros(self, o, line): self.say("zero" if o in self.live else "create", o, line, z=True)
    def tab(self, o, sl): return {"k": "tab", "o": o, "sl": list(sl)}
    def expr(self, e, leaf):
        k = e[0]
        if k == "c": return {"k": "c", "s": scalar(e[1])}
        if k == "x": return leaf(e)
        if k == "p": return {"k": "p", "s": scalar(Fraction(1)), "a": [self.expr(f, leaf) for f in e[1]]}
        if k == "+": return {"k": "+", "a": [self.expr(f, leaf) for f in e[1]]}
        if k == "^": return {"k": "^", "b": self.expr(e[1], leaf), "n": e[2].numerator, "d": e[2].denominator, "cj": False}
        raise Unreadable(k)
    def compute(self, o, sl, e, line):
        for t in (e["a"] if e["k"] == "+" else [e]):
            have = occurring(t)
            if not set(sl) <= have: raise Unreadable("an index of the result does not occur: " + line)
        self.say("compute", o, line, sl, e=e)

def occurring(e):
    if e["k"] == "tab": return set(e["sl"])
    if e["k"] in ("p", "+"): return set().union(*map(occurring, e["a"])) if e["a"] else set()
    return set()

def read_text(p):
    r = p.r
    def key(nm):
        m = re.match(r"\s*([^\[\s]+)\s*(?:\[(.*)\])?\s*$", nm)
        ls = [x.strip() for x in m.group(2).split(",")] if m.group(2) else []
        return m.group(1) + "|" + ",".join(l[0] + ("!" if l == r["batch"] else "") for l in ls), ls
    p.names(lambda nm: key(nm)[0])
    def obj(nm):
        n, ls = key(nm)
        sl = [p.index(l) for l in ls]
        return p.object(n, [(p.idx[q - 1]["lo"], p.idx[q - 1]["n"]) for q in sl]), sl
    declared = {"index": set(), "object": set()}
    def leaf(e): return p.tab(*obj(e[1] + ("" if e[2] is None else "[%s]" % e[2])))
    for line in r["code"].split("\n"):
        s = line.strip()
        m = re.match(r"(Create|Load|Setting|Unload|Delete|Persist) (.*?)( and initialize to zero| and set it to zero| to zero)?$", s)
        if m:
            o, sl = obj(m.group(2))
            z = m.group(3) is not None
            p.say({"Create": "create", "Load": "load", "Setting": "zero", "Unload": "unload", "Delete": "destroy", "Persist": "persist"}[m.group(1)], o, s, z=z)
        elif s.startswith("Compute "):
            lhs, rhs = s[8:].split("+=", 1)
            o, sl = obj(lhs.strip())
            p.compute(o, sl, p.expr(Reader(rhs).all(), leaf), s)
        elif not s or re.match(r"(Declare|section|end section|Start batching|End batching|//)", s): pass
        else: raise Unreadable(s)

def einsum(p, body, result, line, scalarvars):
    """NUMBER * x * lib.einsum('ab,bc->ac', X, Y, ...)"""
    m = re.match(r"(.*?)\b(?:np|torch)\.einsum\('([^']*)'((?:,\s*[\w.=]+)*)\)\s*$", body)
    if not m:
        return None
    pre, spec, args = m.groups()
    names = [a.strip() for a in args.split(",") if a.strip() and "=" not in a]
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if len(ins) != len(names): raise Unreadable("operands and subscripts: " + line)
    letters, factors = {}, []
    for sub, n in zip(ins, names):
        o = p.known(n)
        d = p.objs[o - 1]["d"]
        if len(sub) != len(d): raise Unreadable("an operand has another number of axes: " + line)
        for c, x in zip(sub, d):
            if c not in letters: letters[c] = p.new_index(x["lo"], x["n"])
        factors.append(p.tab(o, [letters[c] for c in sub]))
    if len(set(out)) != len(out) or not set(out) <= set(letters): raise Unreadable("the output subscript: " + line)
    pre = pre.strip()
    if pre:
        if not pre.endswith("*"): raise Unreadable(line)
        factors.insert(0, p.expr(Reader(pre[:-1]).all(), scalarvars))
    return [letters[c] for c in out], {"k": "p", "s": scalar(Fraction(1)), "a": factors}

def read_python(p):
    dims = {"dim_i": p.space["i"], "dim_a": p.space["a"], "dim_K": p.space["K"]}
    def leaf(e):
        if e[2] is not None: raise Unreadable("subscript")
        return p.tab(p.known(e[1]), [])
    for line in p.r["code"].split("\n"):
        s = line.strip()
        if not s or re.match(r"(import \w+|def \w+\(\):|#)", s): continue
        m = re.match(r"(\w+) = (?:np|torch)\.zeros\(\(([^)]*)\)", s)
        if m:
            d = [x.strip() for x in m.group(2).split(",") if x.strip()]
            o = p.object(m.group(1), [dims[x] for x in d])
            if [(x["lo"], x["n"]) for x in p.objs[o - 1]["d"]] != [dims[x] for x in d]: raise Unreadable("another shape: " + s)
            p.zeros(o, s); continue
        m = re.match(r"(\w+) = 0(\.0)?$", s)
        if m: p.zeros(p.object(m.group(1), []), s); continue
        m = re.match(r"(\w+)\.(fill\(0\)|zero_\(\))$", s)
        if m: p.say("zero", p.known(m.group(1)), s); continue
        m = re.match(r"(\w+) = (?:np|torch)\.load\('(\w+)\.(npy|pt)'\)$", s)
        if m:
            if m.group(1) != m.group(2): raise Unreadable("loaded from another's file: " + s)
            p.say("load", p.known(m.group(1)), s); continue
        m = re.match(r"del (\w+)$", s)
        if m: p.say("unload", p.known(m.group(1)), s); continue
        m = re.match(r"np\.save\('(\w+)\.npy', (\w+)\)$", s) or re.match(r"torch\.save\((\w+), '(\w+)\.pt'\)$", s)
        if m:
            if m.group(1) != m.group(2): raise Unreadable("stored under another's name: " + s)
            p.say("persist", p.known(m.group(1)), s); continue
        m = re.match(r"os\.remove\('(\w+)\.(npy|pt)'\)$", s)
        if m: continue
        m = re.match(r"(\w+) \+= (.*)$", s)
        if m:
            o = p.known(m.group(1))
            got = einsum(p, m.group(2), o, s, leaf)
            if got is None: p.compute(o, [], p.expr(Reader(m.group(2)).all(), leaf), s)
            else: p.compute(o, got[0], got[1], s)
            continue
        raise Unreadable(s)

def read_julia(p):
    dims = {"dim_o": p.space["i"], "dim_v": p.space["a"], "dim_x": p.space["K"]}
    itensor = p.r["kind"] == "itensor"
    tmp = None
    def sizes(o, ds, s):
        if [(x["lo"], x["n"]) for x in p.objs[o - 1]["d"]] != [dims[d] for d in ds]: raise Unreadable("another shape: " + s)
    def bind(o, ls): p.bound[o] = [p.index(l) for l in ls]
    def leaf(e):
        o = p.known(e[1])
        if itensor:
            if e[2] is not None: raise Unreadable("an ITensor has no subscripts here")
            return p.tab(o, p.bound.get(o, []))
        return p.tab(o, [p.index(l.strip()) for l in (e[2] or "").split(",") if l.strip()])
    for line in p.r["code"].split("\n"):
        s = line.strip()
        if not s or s.startswith("#"): continue
        m = re.match(r"(\w+) = Index\((\w+), \"(\w+)\"\)$", s)
        if m:
            if m.group(1) != m.group(3) or dims[m.group(2)] != p.space_of(m.group(1)): raise Unreadable(s)
            p.index(m.group(1)); continue
        m = re.match(r"(\w+) = nothing$", s)
        if m: p.say("unload", p.known(m.group(1)), s); continue
        m = re.match(r"return (\w+)$", s)
        if m: p.say("persist", p.known(m.group(1)), s); continue
        m = re.match(r"tmpvar = (0(?:\.0)?|deserialize\(\"(\w+)\.jlbin\"\))$", s)
        if m: tmp = (m.group(2),); continue
        m = re.match(r"(\w+) = ITensor\(tmpvar\)$", s)
        if m:
            if tmp is None: raise Unreadable(s)
            if tmp[0] is None: p.zeros(p.object(m.group(1), []), s)
            elif tmp[0] != m.group(1): raise Unreadable("loaded from another's file: " + s)
            else: p.say("load", p.known(m.group(1)), s)
            tmp = None; continue
        m = re.match(r"(\w+) = 0(?:\.0)?$", s)
        if m: p.zeros(p.object(m.group(1), []), s); continue
        m = re.match(r"(\w+) = (ITensor\(|TensorMap\()?zeros\(Float64((?:, \w+)*)\)(.*)$", s)
        if m:
            ds = [x.strip() for x in m.group(3).split(",") if x.strip()]
            o = p.object(m.group(1), [dims[x] for x in ds])
            sizes(o, ds, s)
            maps(p, m.group(2), m.group(4), o, bind, sizes, s)
            p.zeros(o, s); continue
        m = re.match(r"(\w+) = (ITensor\(|TensorMap\()?deserialize\(\"(\w+)\.jlbin\"\)(.*)$", s)
        if m:
            if m.group(1) != m.group(3): raise Unreadable("loaded from another's file: " + s)
            o = p.known(m.group(1))
            maps(p, m.group(2), m.group(4), o, bind, sizes, s)
            p.say("load", o, s); continue
        m = re.match(r"rm\(", s)
        if m: continue
        m = re.match(r"(@tensor )?(\w+)(\[[^\]]*\])? \+= (.*)$", s)
        if m:
            o = p.known(m.group(2))
            sl = p.bound.get(o, []) if itensor else [p.index(l.strip()) for l in (m.group(3) or "[]")[1:-1].split(",") if l.strip()]
            e = p.expr(Reader(m.group(4)).all(), leaf)
            p.compute(o, sl, e, s)
            if itensor:
                for t in (e["a"] if e["k"] == "+" else [e]):
                    n = [q for f in (t["a"] if t["k"] == "p" else [t]) if f["k"] == "tab" for q in f["sl"]]
                    if {q for q in n if n.count(q) == 1} != set(sl): raise Unreadable("the tensors have other indices: " + s)
            continue
        raise Unreadable(s)

def maps(p, kind, rest, o, bind, sizes, s):
    rest = rest.strip()
    if kind is None:
        if rest: raise Unreadable(s)
    elif kind.startswith("ITensor"):
        if not rest.endswith(")"): raise Unreadable(s)
        bind(o, [x.strip() for x in rest[:-1].strip(", ").split(",") if x.strip()])
        if len(p.bound[o]) != len(p.objs[o - 1]["d"]): raise Unreadable("another number of indices: " + s)
    else:
        sizes(o, re.findall(r"ℝ\^(\w+)", rest), s)

def read_itf(p):
    r, spaces, batched = p.r, {}, set()
    full = {"Closed": "i", "External": "a", "Fitting": "K"}
    letters = lambda b: re.findall(r"\{[^}]*\}|[A-Za-z]\d*", b or "")
    batch = None
    def index(c):
        if c not in spaces: raise Unreadable("index %s was not declared" % c)
        if c not in p.labels:
            lo, n = p.space[spaces[c]]
            p.labels[c] = p.new_index(lo + r["point"], 1) if c == batch else p.new_index(lo, n)
        return p.labels[c]
    def name(x, body): return x + ("!" + ",".join(str(k) for k, c in enumerate(letters(body)) if c == batch) if batch and batch in letters(body) else "")
    def obj(x, body):
        sl = [index(c) for c in letters(body)]
        return p.object(name(x, body), [(p.idx[q - 1]["lo"], p.idx[q - 1]["n"]) for q in sl]), sl
    lines = r["code"].split("\n")
    m = re.search(r"for \[([^\]]*)\]:", r["code"])
    if m: batch = m.group(1).strip()
    whole = lambda s: re.match(r"\s*([A-Za-z_]\w*(?::\w+)?)\s*\[(.*)\]\s*$", s)
    p.names(lambda nm: name(*whole(nm).groups()))
    def leaf(e):
        if e[2] is None: raise Unreadable("a name without brackets")
        return p.tab(*obj(e[1], e[2]))
    known = set()
    for line in lines:
        s = line.strip()
        if not s or s.startswith("----") or s.startswith("for ") or s.startswith("//"): continue
        m = re.match(r"index-space: (\S+), (\w+), (\w+)$", s)
        if m:
            if spaces.get(m.group(1), full[m.group(2)]) != full[m.group(2)]: raise Unreadable("an index has two spaces: " + s)
            spaces[m.group(1)] = full[m.group(2)]; continue
        m = re.match(r"tensor: (\S+?\[.*?\]), (.*)$", s)
        if m: known.add(whole(m.group(1)).group(1)); continue
        m = re.match(r"(alloc|load|drop|store) (\S+)$", s)
        if m:
            g = whole(m.group(2))
            if g.group(1) not in known: raise Unreadable("never declared: " + s)
            o, sl = obj(g.group(1), g.group(2))
            p.say({"alloc": "create", "load": "load", "drop": "unload", "store": "persist"}[m.group(1)], o, s, z=m.group(1) == "alloc"); continue
        m = re.match(r"\.(\S+?\[.*?\]) := 0 \* One\[\]$", s)
        if m:
            g = whole(m.group(1)); p.say("zero", obj(g.group(1), g.group(2))[0], s); continue
        m = re.match(r"\.(\S+?\[.*?\]) \+= (.*)$", s)
        if m:
            g = whole(m.group(1))
            o, sl = obj(g.group(1), g.group(2))
            p.compute(o, sl, p.expr(Reader(m.group(2)).all(), leaf), s); continue
        raise Unreadable(s)

READ = {"text": read_text, "numpy": read_python, "torch": read_python, "julia": read_julia, "tensorkit": read_julia, "itensor": read_julia, "itf": read_itf}

def read(r):
    """the row as a program of the machine; raises Unreadable"""
    p = Program(r)
    READ[r["kind"]](p)
    if p.clash: raise Unreadable(p.clash)
    st = [{"op": "expr+"}] + p.st + [{"op": "expr-"}]
    return {**r, "idx": p.idx, "objs": p.objs, "st": st, "text": ["expr+"] + p.text + ["expr-"], "decl": False}
