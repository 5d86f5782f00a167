"""Symbolic strings: sequences of symbolic character codes of a concrete length (each length is a path)."""
import ast
import builtins

from . import arr, core
from .core import SymNum, Unsupported, b_all, b_and, b_any, b_not, b_or, ite, lift

SPACE = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]


def code(c):
    return ord(c) if isinstance(c, str) else c


def upper1(c):
    if not isinstance(c, SymNum):
        return ord(chr(c).upper()) if c < 128 else _no(c)
    return ite(b_and(c >= 97, c <= 122), c - 32, c)


def lower1(c):
    if not isinstance(c, SymNum):
        return ord(chr(c).lower()) if c < 128 else _no(c)
    return ite(b_and(c >= 65, c <= 90), c + 32, c)


def cased(c):
    if not isinstance(c, SymNum):
        return chr(c).isalpha()
    return b_or(b_and(c >= 65, c <= 90), b_and(c >= 97, c <= 122))


def _no(c):
    raise Unsupported("letter case of character %d" % c)


def among(c, chars):
    return b_any([eq1(c, k) for k in chars])


def eq1(a, b):
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return a == b
    return lift(a) == lift(b)


def mkstr(v):
    v = list(v)
    if all(not isinstance(c, SymNum) for c in v):
        return "".join(chr(c) for c in v)
    return SymStr(v)


def codes(x):
    if isinstance(x, SymStr):
        return x.v
    if isinstance(x, str):
        return [ord(c) for c in x]
    raise TypeError("expected a string, got %s" % type(x).__name__)


def eq(a, b):
    if not (isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr))):
        return False
    a, b = codes(a), codes(b)
    if len(a) != len(b):
        return False
    return b_all([eq1(x, y) for x, y in zip(a, b)])


class SymStr:
    """ASCII string with symbolic characters"""

    def __init__(self, v):
        self.v = list(v)

    def __len__(self): return len(self.v)
    def __bool__(self): return len(self.v) > 0
    def __eq__(self, o): return eq(self, o) if isinstance(o, (str, SymStr)) else NotImplemented
    def __ne__(self, o): return b_not(eq(self, o)) if isinstance(o, (str, SymStr)) else NotImplemented
    __hash__ = None
    def __iter__(self): return iter([mkstr([c]) for c in self.v])
    def __add__(self, o): return mkstr(self.v + codes(o)) if isinstance(o, (str, SymStr)) else NotImplemented
    def __radd__(self, o): return mkstr(codes(o) + self.v) if isinstance(o, (str, SymStr)) else NotImplemented
    def __mul__(self, n): return mkstr(self.v * n)
    __rmul__ = __mul__
    def __str__(self): return "".join(chr(c) if not isinstance(c, SymNum) else "?" for c in self.v)
    def __repr__(self): return repr(str(self))
    def __format__(self, f): return format(str(self), f)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mkstr(self.v[k])
        return mkstr([self.v[k]])

    def __contains__(self, o):
        o = codes(o)
        return bool(b_any([b_all([eq1(a, b) for a, b in zip(self.v[k:k + len(o)], o)]) for k in range(len(self.v) - len(o) + 1)]))

    def _set(self, chars):
        return SPACE if chars is None else codes(chars)

    def lstrip(self, chars=None):
        v, s = list(self.v), self._set(chars)
        while v and bool(among(v[0], s)):
            v.pop(0)
        return mkstr(v)

    def rstrip(self, chars=None):
        v, s = list(self.v), self._set(chars)
        while v and bool(among(v[-1], s)):
            v.pop()
        return mkstr(v)

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        p, v = codes(p), self.v[start:end]
        return len(p) <= len(v) and bool(b_all([eq1(a, b) for a, b in zip(v, p)]))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        p, v = codes(p), self.v[start:end]
        return len(p) <= len(v) and bool(b_all([eq1(a, b) for a, b in zip(v[len(v) - len(p):], p)]))

    def removeprefix(self, p): return mkstr(self.v[len(p):]) if self.startswith(p) else self
    def removesuffix(self, p): return mkstr(self.v[:len(self.v) - len(p)]) if len(p) and self.endswith(p) else self
    def upper(self): return mkstr([upper1(c) for c in self.v])
    def lower(self): return mkstr([lower1(c) for c in self.v])
    casefold = lower
    def capitalize(self): return mkstr([upper1(c) if k == 0 else lower1(c) for k, c in enumerate(self.v)])
    def swapcase(self): return mkstr([ite(cased(c), ite(c >= 97, upper1(c), lower1(c)), c) for c in self.v])

    def title(self):
        out, prev = [], False
        for c in self.v:
            out.append(ite(prev, lower1(c), upper1(c)))
            prev = cased(c)
        return mkstr(out)

    def isalpha(self): return bool(self.v) and bool(b_all([cased(c) for c in self.v]))
    def isspace(self): return bool(self.v) and bool(b_all([among(c, SPACE) for c in self.v]))
    def isascii(self): return True

    def find(self, sub, start=0, end=None):
        s, v = codes(sub), self.v[:end]
        for k in range(start, len(v) - len(s) + 1):
            if bool(b_all([eq1(a, b) for a, b in zip(v[k:k + len(s)], s)])):
                return k
        return -1

    def rfind(self, sub):
        s = codes(sub)
        for k in range(len(self.v) - len(s), -1, -1):
            if bool(b_all([eq1(a, b) for a, b in zip(self.v[k:k + len(s)], s)])):
                return k
        return -1

    def index(self, sub, *a):
        k = self.find(sub, *a)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def count(self, sub):
        return len(self.split(sub)) - 1

    def replace(self, a, b, count=-1):
        return sjoin(b, self.split(a, count))

    def split(self, sep=None, maxsplit=-1):
        out, cur, v = [], [], list(self.v)
        if sep is None:
            while v:
                if bool(among(v[0], SPACE)):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    cur.append(v[0])
                v.pop(0)
            return out + ([mkstr(cur)] if cur else [])
        s = codes(sep)
        if not s:
            raise ValueError("empty separator")
        while v:
            if (maxsplit < 0 or len(out) < maxsplit) and len(v) >= len(s) and bool(b_all([eq1(a, b) for a, b in zip(v, s)])):
                out.append(mkstr(cur))
                cur, v = [], v[len(s):]
            else:
                cur.append(v.pop(0))
        return out + [mkstr(cur)]

    def partition(self, sep):
        k = self.find(sep)
        return (self, "", "") if k < 0 else (self[:k], sep, self[k + len(sep):])

    def rpartition(self, sep):
        k = self.rfind(sep)
        return ("", "", self) if k < 0 else (self[:k], sep, self[k + len(sep):])

    def join(self, it): return sjoin(self, it)
    def encode(self, encoding="utf-8", errors="strict"): return encode(self, encoding, errors)


class SymBytes:
    """bytes with symbolic values"""

    def __init__(self, v): self.v = list(v)
    def __len__(self): return len(self.v)
    def __bool__(self): return len(self.v) > 0
    def __iter__(self): return iter(self.v)
    __hash__ = None

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            return False
        a, b = self.v, list(o)
        return len(a) == len(b) and b_all([eq1(x, y) for x, y in zip(a, b)])

    def __ne__(self, o): return b_not(self == o)
    def __getitem__(self, k): return SymBytes(self.v[k]) if isinstance(k, slice) else self.v[k]
    def __add__(self, o): return SymBytes(self.v + list(o))
    def __radd__(self, o): return SymBytes(list(o) + self.v)
    def startswith(self, p): return len(p) <= len(self.v) and bool(b_all([eq1(x, y) for x, y in zip(self.v, p)]))

    def decode(self, encoding="utf-8", errors="strict"):
        for c in self.v:
            if bool(lift(c) >= 128):
                raise Unsupported("decoding of bytes that are not ASCII")
        return mkstr(self.v)


def encode(s, encoding="utf-8", errors="strict"):
    import codecs
    if isinstance(s, str):
        return s.encode(encoding, errors)
    name = codecs.lookup(encoding).name
    top = {"ascii": 128, "iso8859-1": 256}.get(name, 0x110000)
    if name not in ("ascii", "iso8859-1", "utf-8", "utf-16", "utf-16-le"):
        raise Unsupported("encoding " + name)
    out = [255, 254] if name == "utf-16" else []
    for k, c in enumerate(s.v):
        c = lift(c)
        if top < 0x110000:
            if bool(c >= top):
                if errors == "ignore":
                    continue
                if errors != "replace":
                    raise UnicodeEncodeError(name, "?" * len(s.v), k, k + 1, "ordinal not in range")
                c = 63
            out.append(c)
        elif name == "utf-8":
            if bool(c < 128):
                out.append(c)
            elif bool(c < 0x800):
                out += [192 + c // 64, 128 + c % 64]
            elif bool(c < 0x10000):
                out += [224 + c // 4096, 128 + (c // 64) % 64, 128 + c % 64]
            else:
                raise Unsupported("characters outside the basic plane")
        else:
            if bool(c >= 0x10000):
                raise Unsupported("characters outside the basic plane")
            out += [c % 256, c // 256]
    return SymBytes(out)


def sjoin(sep, it):
    it = list(it)
    if isinstance(sep, str) and not any(isinstance(x, SymStr) for x in it):
        return sep.join(it)
    out = []
    for k, x in enumerate(it):
        out += (codes(sep) if k else []) + codes(x)
    return mkstr(out)


# -- rewriting of f-strings, str.join, str.format, % and in


def h_fstr(*parts):
    if any(isinstance(p[0], SymStr) for p in parts):
        out = []
        for x, conv, spec in parts:
            if isinstance(x, SymStr) and conv in (-1, 115) and not spec:
                out += x.v
            else:
                out += codes(_fmt(x, conv, spec))
        return mkstr(out)
    return "".join(_fmt(*p) for p in parts)


def _fmt(x, conv, spec):
    x = {-1: lambda v: v, 115: builtins.str, 114: repr, 97: ascii}[conv](x)
    return format(x, spec)


def h_join(o, *a, **k):
    if isinstance(o, str) and len(a) == 1 and not k:
        return sjoin(o, a[0])
    return o.join(*a, **k)


def h_format(o, *a, **k):
    if isinstance(o, str) and (any(isinstance(x, SymStr) for x in a) or any(isinstance(x, SymStr) for x in k.values())):
        import string
        out, n = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            out += [ord(c) for c in lit]
            if field is None:
                continue
            if field == "":
                field, n = str(n), n + 1
            x = a[int(field)] if field.isdigit() else k[field]
            out += x.v if isinstance(x, SymStr) else codes(_fmt(x, ord(conv) if conv else -1, spec))
        return mkstr(out)
    return o.format(*a, **k)


def h_mod(o, x):
    if isinstance(o, str):
        t = x if isinstance(x, tuple) else (x,)
        if any(isinstance(v, SymStr) for v in t):
            p = o.split("%s")
            if len(p) != len(t) + 1 or "%" in "".join(p):
                raise Unsupported("string formatting")
            out = codes(p[0])
            for v, q in zip(t, p[1:]):
                out += codes(v if isinstance(v, SymStr) else builtins.str(v)) + codes(q)
            return mkstr(out)
    return o % x


def h_in(x, s):
    if isinstance(x, SymStr):
        if isinstance(s, str):
            return bool(SymStr(codes(s)).__contains__(x))
        return any(bool(eq(x, y)) for y in s)
    return x in s


def h_item(o, k):
    if isinstance(k, SymStr) and isinstance(o, dict):
        for x in o:
            if bool(eq(k, x)):
                return o[x]
        raise KeyError(str(k))
    return o[k]


def h_get(o, *a, **k):
    if a and isinstance(a[0], SymStr) and isinstance(o, dict):
        for x in o:
            if bool(eq(a[0], x)):
                return o[x]
        return a[1] if len(a) > 1 else None
    return o.get(*a, **k)


HELPERS = dict(_v_item=h_item, _v_get=h_get, _v_fstr=h_fstr, _v_join=h_join, _v_format=h_format, _v_mod=h_mod, _v_in=h_in)


class Rewriter(ast.NodeTransformer):
    def call(self, n, name, args):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), n)

    def visit_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(ast.Tuple([p, ast.Constant(-1), ast.Constant("")], ast.Load()))
            else:
                spec = self.visit(p.format_spec) if p.format_spec else ast.Constant("")
                parts.append(ast.Tuple([self.visit(p.value), ast.Constant(p.conversion), spec], ast.Load()))
        return self.call(n, "_v_fstr", parts)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "format", "get"):
            return ast.copy_location(ast.Call(ast.Name("_v_" + n.func.attr, ast.Load()), [n.func.value] + n.args, n.keywords), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Tuple, ast.Constant)):
            return self.call(n, "_v_item", [n.value, n.slice])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return self.call(n, "_v_mod", [n.left, n.right])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.call(n, "_v_in", [n.left, n.comparators[0]])
            return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        return n


def rewrite(tree):
    return ast.fix_missing_locations(Rewriter().visit(tree))


class _Str(type):
    def __call__(cls, x="", *a, **k):
        if isinstance(x, SymStr):
            return x
        if hasattr(x, "_v_decode"):
            return x._v_decode(*a, **k)
        if isinstance(x, SymBytes):
            return x.decode(*a, **k)
        return builtins.str(x, *a, **k)

    def __instancecheck__(cls, o): return isinstance(o, (builtins.str, SymStr)) or getattr(o, "_v_isstr", False)
    def __getattr__(cls, k): return getattr(builtins.str, k)
    def __eq__(cls, o): return cls is o or o is builtins.str
    def __hash__(cls): return hash(builtins.str)
    def __or__(cls, o): return builtins.str | getattr(o, "_vreal", o)
    def __ror__(cls, o): return getattr(o, "_vreal", o) | builtins.str


class VStr(metaclass=_Str):
    _vreal = builtins.str


class _Bytes(type):
    def __call__(cls, x=b"", *a, **k):
        if isinstance(x, SymStr):
            return x.encode(*a, **k)
        if hasattr(x, "_v_encode"):
            return x._v_encode(*a, **k)
        if isinstance(x, SymBytes) or getattr(x, "_v_isbytes", False):
            return x
        return builtins.bytes(x, *a, **k)

    def __instancecheck__(cls, o): return isinstance(o, (builtins.bytes, SymBytes)) or getattr(o, "_v_isbytes", False)
    def __getattr__(cls, k): return getattr(builtins.bytes, k)
    def __or__(cls, o): return builtins.bytes | getattr(o, "_vreal", o)
    def __ror__(cls, o): return getattr(o, "_vreal", o) | builtins.bytes


class VBytes(metaclass=_Bytes):
    _vreal = builtins.bytes


arr._ISA[SymStr] = (str,)
arr._ISA[SymBytes] = (bytes,)
