"""Serial: encoding, decoding, hash codes and rejected arguments."""
import types

BOUNDS = ("instances built from 10 listed shapes with symbolic numbers, serialised lengths from 64 to 2**20 bytes as a symbolic integer, both compression choices, 6 encodings that extend ASCII, histories of 3 encoded instances decoded in any order; "
          "code of strings of 0 to 4 symbolic characters up to U+07FF in 4 encodings and of encoded instances")
ASSUMPTIONS = ["pickle.load inverts pickle.dump, gzip.decompress inverts gzip.compress and rejects serialised instances, base64.b85decode inverts b85encode, io.BytesIO is a byte buffer, hash functions are injective: these stand for the standard library",
               "instances that pickle supports"]

ENC = ["utf-8", "ascii", "latin-1", "cp1252", "iso-8859-15", "UTF-8"]


# -- the standard library in symbolic runs


class Seg:
    def __init__(self, kind, data, n, head):
        self.kind, self.data, self.n, self.head = kind, data, n, head


class Opaque:
    """bytes made of opaque segments of symbolic length"""
    _v_isbytes = True

    def __init__(self, w, segs): self.w, self.segs = w, list(segs)

    def length(self):
        n = 0
        for s in self.segs:
            n = n + s.n
        return n

    def __bool__(self): return len(self.segs) > 0
    __hash__ = None

    def __eq__(self, o):
        return isinstance(o, Opaque) and len(self.segs) == len(o.segs) and all(a is b or (a.kind == b.kind and a.kind not in ("pickle", "part") and a.data == b.data) for a, b in zip(self.segs, o.segs))

    def __add__(self, o): return Opaque(self.w, self.segs + self.w.bytes(o).segs)
    def __radd__(self, o): return Opaque(self.w, self.w.bytes(o).segs + self.segs)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return Opaque(self.w, [Seg("part", (self, k), self.length(), None)])
            if k.start not in (None, 0):
                return Opaque(self.w, [Seg("part", (self, k), self.length() - k.start, None)])
            if k.stop is None or (len(self.segs) and bool(self.length() <= k.stop)):
                return self
            if isinstance(k.stop, int) and 0 <= k.stop <= 3 and self.segs and self.segs[0].head:
                from engine.text import SymBytes
                return SymBytes(self.segs[0].head[:k.stop])
            return Opaque(self.w, [Seg("part", (self, k), k.stop, None)])
        return self.segs[0].head[k]

    def startswith(self, p):
        from engine.text import SymBytes
        return bool(SymBytes(self.segs[0].head[:len(p)]) == p)

    def tobytes(self): return self
    def strip(self, chars=None):
        """whitespace ends no base85 text, pickle or gzip file below 16 MiB; other characters may"""
        if chars is None or not set(bytes(chars, "latin-1") if isinstance(chars, str) else bytes(chars)) - set(b" \t\n\r\x0b\x0c"):
            return self
        return Opaque(self.w, [Seg("part", (self, str(chars)), self.length(), self.segs[0].head if self.segs else None)])
    rstrip = lstrip = strip

    def decode(self, encoding="utf-8", errors="strict"):
        return OText(self, encoding)
    _v_decode = decode


class OText:
    """text of opaque ASCII bytes"""
    _v_isstr = True

    def __init__(self, data, encoding):
        self.data, self.encoding = data, encoding

    def __bool__(self): return bool(self.data)
    __hash__ = None
    def length(self): return self.data.length()
    def __eq__(self, o): return isinstance(o, OText) and self.data == o.data
    def encode(self, encoding="utf-8", errors="strict"): return self.data
    _v_encode = encode
    def strip(self, chars=None):
        d = self.data.strip(chars)
        return self if d is self.data else OText(d, self.encoding)
    rstrip = lstrip = strip
    def isascii(self): return True

    def __getitem__(self, k):
        d = self.data[k]
        return self if d is self.data else OText(d, self.encoding)


class OHex:
    _v_isstr = True

    def __init__(self, alg, data): self.alg, self.data = alg, data
    def __getitem__(self, k): return OHex((self.alg, str(k)), self.data)
    def __len__(self): return 64
    def lower(self): return self
    def upper(self): return OHex((self.alg, "upper"), self.data)
    __hash__ = None


class World:
    """stand-ins for pickle, gzip, base64, io, hashlib"""

    def __init__(self, c, n):
        self.c, self.n, self.k = c, n, 0

    def fresh(self, lo, hi):
        self.k += 1
        from fractions import Fraction
        v = self.c.st.new("len!%d" % self.k, True, Fraction(lo), Fraction(hi))
        return self.c.core.var_num(v)

    def bytes(self, x):
        if isinstance(x, Opaque):
            return x
        from engine.text import SymBytes
        if isinstance(x, SymBytes):
            return Opaque(self, [Seg("raw", x, len(x), None)]) if len(x) else Opaque(self, [])
        if isinstance(x, (bytes, bytearray, memoryview)):
            return Opaque(self, [Seg("raw", bytes(x), len(x), list(bytes(x)[:3]))]) if len(x) else Opaque(self, [])
        raise TypeError("a bytes-like object is required, not %r" % type(x).__name__)

    # pickle
    def dumps(self, x, protocol=None, **k):
        protocol = 4 if protocol is None else 5 if protocol < 0 else protocol
        L = self.n(x)
        head = [128, protocol, self.fresh(0, 255)] if protocol >= 2 else [self.fresh(40, 126), self.fresh(0, 127), self.fresh(0, 127)]
        return Opaque(self, [Seg("pickle", copy(x), L, head)])

    def loads(self, data, **k):
        data = self.bytes(data)
        if not data.segs or data.segs[0].kind != "pickle":
            raise self.pickle.UnpicklingError("invalid load key")
        return copy(data.segs[0].data)

    # gzip
    def compress(self, data, compresslevel=9, mtime=None):
        data = self.bytes(data)
        n = data.length()
        z = self.fresh(20, 1 << 24)
        self.c.assume(self.c.both(z >= n + 18, z <= n + 23 + 5 * (n // 16000)))
        return Opaque(self, [Seg("gzip", data, z, [31, 139, 8])])

    def decompress(self, data):
        data = self.bytes(data)
        if not data.segs:
            return Opaque(self, [])
        if any(s.kind != "gzip" for s in data.segs):
            raise self.gzip.BadGzipFile("Not a gzipped file")
        out = []
        for s in data.segs:
            out += s.data.segs
        return Opaque(self, out)

    def basex(self, name, num, den):
        def enc(b, *a, **k):
            b = self.bytes(b)
            if not b.segs:
                return b""
            return Opaque(self, [Seg(name, b, (b.length() * num + den - 1) // den, None)])

        def dec(b, *a, **k):
            if isinstance(b, OText):
                b = b.data
            b = self.bytes(b)
            if not b.segs:
                return b""
            if len(b.segs) != 1 or b.segs[0].kind != name:
                raise ValueError("bad character")
            return b.segs[0].data
        return enc, dec

    def install(self):
        c, w = self.c, self
        p = self.pickle = types.ModuleType("pickle")
        p.PickleError = type("PickleError", (Exception,), {})
        p.PicklingError = type("PicklingError", (p.PickleError,), {})
        p.UnpicklingError = type("UnpicklingError", (p.PickleError,), {})
        p.HIGHEST_PROTOCOL, p.DEFAULT_PROTOCOL = 5, 4
        p.dumps, p.loads = self.dumps, self.loads
        p.dump = lambda x, f, protocol=None, **k: f.write(self.dumps(x, protocol)) and None
        p.load = lambda f, **k: self.loads(f.read())

        class Pickler:
            def __init__(self, f, protocol=None, **k): self.f, self.p = f, protocol
            def dump(self, x): self.f.write(w.dumps(x, self.p))

        class Unpickler:
            def __init__(self, f, **k): self.f = f
            def load(self): return w.loads(self.f.read())
        p.Pickler, p.Unpickler = Pickler, Unpickler
        g = self.gzip = types.ModuleType("gzip")
        g.BadGzipFile = type("BadGzipFile", (OSError,), {})
        g.compress, g.decompress = self.compress, self.decompress

        class GzipFile:
            def __init__(self, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
                self.f, self.mode, self.b = fileobj, mode or "rb", Opaque(w, [])

            def write(self, x):
                self.b = self.b + x
                return w.bytes(x).length()

            def read(self, *a): return w.decompress(self.f.read())
            def __enter__(self): return self
            def __exit__(self, *a): self.close()

            def close(self):
                if "w" in self.mode:
                    self.f.write(w.compress(self.b))
        g.GzipFile = GzipFile
        g.open = lambda f, mode="rb", *a, **k: GzipFile(None, mode, fileobj=f)
        z = types.ModuleType("zlib")
        z.error = type("error", (Exception,), {})

        def zcomp(data, level=-1, wbits=15):
            if wbits > 15:
                return w.compress(data)
            data = w.bytes(data)
            return Opaque(w, [Seg("zlib", data, w.fresh(1, 1 << 24), [120, w.fresh(0, 255), w.fresh(0, 255)])])

        def zdec(data, wbits=15, bufsize=0):
            if wbits > 15 and data.segs and data.segs[0].kind == "gzip":
                return w.decompress(data)
            if (wbits <= 15 or wbits > 31) and data.segs and data.segs[0].kind == "zlib":
                return data.segs[0].data
            raise z.error("incorrect header check")
        z.compress, z.decompress = zcomp, zdec
        b = types.ModuleType("base64")
        for name, num, den in (("b85", 5, 4), ("a85", 5, 4), ("b64", 4, 3), ("b32", 8, 5), ("b16", 2, 1), ("standard_b64", 4, 3), ("urlsafe_b64", 4, 3)):
            e, d = self.basex(name, num, den)
            setattr(b, name + "encode", e)
            setattr(b, name + "decode", d)
        io = types.ModuleType("io")

        class BytesIO:
            def __init__(self, initial=b""): self.b, self.pos, self.closed = w.bytes(initial), 0, False
            def __enter__(self): return self
            def __exit__(self, *a): self.close()
            def close(self): self.closed = True

            def _open(self):
                if self.closed:
                    raise ValueError("I/O operation on closed file.")

            def write(self, x):
                self._open()
                self.b = self.b + x
                self.pos = None
                return w.bytes(x).length()

            def getvalue(self):
                self._open()
                return self.b

            def getbuffer(self): return self.getvalue()

            def read(self, n=-1):
                self._open()
                if self.pos is None:
                    return b""
                self.pos = None
                return self.b if n in (-1, None) else self.b[:n]

            def seek(self, k, whence=0):
                self._open()
                self.pos = 0 if k == 0 and whence == 0 else None
                return 0

            def tell(self): return self.b.length() if self.pos is None else 0
            def truncate(self, n=None): return 0
        io.BytesIO = BytesIO
        h = types.ModuleType("hashlib")

        class Hash:
            def __init__(self, alg, data=b"", **k):
                self.name, self.b = alg, w.bytes(data)

            def update(self, x): self.b = self.b + x
            def hexdigest(self, *a): return OHex(self.name, self.b)
            def digest(self, *a): return Digest(self)
            def copy(self): return Hash(self.name, self.b)

        class Digest:
            _v_isbytes = True
            def __init__(self, x): self.x = x
            def hex(self): return self.x.hexdigest()
        for alg in ("sha3_256", "sha3_512", "sha3_224", "sha3_384", "sha256", "sha1", "md5", "sha512", "blake2b", "blake2s", "shake_256", "shake_128"):
            setattr(h, alg, lambda data=b"", _a=alg, **k: Hash(_a, data))
        h.new = lambda name, data=b"", **k: Hash(name.lower().replace("-", "_"), data)
        for m in (p, g, z, b, io, h):
            c.stub(m.__name__, m)
        c.stub("builtins.len", lambda x: x.length() if isinstance(x, (Opaque, OText)) else len(x))


def copy(x):
    if isinstance(x, dict):
        return {copy(k): copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(copy(v) for v in x)
    if isinstance(x, (set, bytearray)):
        return type(x)(x)
    return x


def start(c, n=lambda x: 100):
    w = None
    if c.symbolic:
        c.use_text()
        w = World(c, n)
        w.install()
        from engine import arr
        arr._ISA.setdefault(OText, (str,))
        arr._ISA.setdefault(OHex, (str,))
        arr._ISA.setdefault(Opaque, (bytes,))
    return w, c.module("diamondback.commons.serial").Serial


def equal(c, a, b):
    """equal values of the same types"""
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and c.all([equal(c, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return type(a) is type(b) and list(a) == list(b) and c.all([equal(c, a[k], b[k]) for k in a])
    if hasattr(a, "dtype") and hasattr(a, "shape") and not c.symbolic and getattr(a, "shape", ()) != ():
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    return type(a) is type(b) and a == b


def layers(c, y):
    """the layers of an encoded string: is it text, is it Base-85, is it compressed, and the serialised instance"""
    if c.symbolic:
        if not isinstance(y, OText) or len(y.data.segs) != 1 or y.data.segs[0].kind != "b85":
            return False, None, None
        u, z = y.data.segs[0].data, False
        if len(u.segs) == 1 and u.segs[0].kind == "gzip":
            u, z = u.segs[0].data, True
        if len(u.segs) != 1 or u.segs[0].kind != "pickle":
            return False, None, None
        return True, z, u.segs[0].data
    import base64
    import gzip
    import pickle
    try:
        u = base64.b85decode(y.encode("ascii"))
        if base64.b85encode(u).decode("ascii") != y:
            return False, None, None
        z = u[:2] == b"\x1f\x8b"
        return True, z, pickle.loads(gzip.decompress(u) if z else u)
    except Exception:
        return False, None, None


def shapes(c, k, name="x"):
    """instances with symbolic numbers"""
    r, i = c.real(name + ".r", -1000, 1000), c.int(name + ".i", -1000, 1000)
    return [None, False, 0, "", [], r, [r, i], {"a": r, "b": [i, (r, None)], "": {}}, (i, "text", b"\x1f\x8b\x08\x00"), b"\x1f\x8b\x08"][k]


NSHAPES = 10


def encode(c, S, x, compress, encoding, explicit):
    if not explicit:
        return S.encode(x) if compress else S.encode(x, False)
    return S.encode(x, compress=compress, encoding=encoding)


def roundtrip(c, k):
    """decoding what was encoded"""
    w, S = start(c)
    x = shapes(c, k)
    was = copy(x)
    compress, explicit = c.flag("compress"), c.flag("explicit")
    enc = ENC[c.choice("encoding", len(ENC))] if explicit else "utf-8"
    y = encode(c, S, x, compress, enc, explicit)
    c.check(equal(c, was, x), "instance left unchanged")
    ok, z, obj = layers(c, y)
    c.check(ok, "Base-85 of a serialised instance")
    c.check(z == compress, "compressed as requested")
    c.check(equal(c, was, obj), "the instance is what is serialised")
    v = S.decode(y, enc) if explicit else S.decode(y)
    c.check(equal(c, was, v), "decoded instance")
    v2 = S.decode(y, encoding=enc)
    c.check(equal(c, was, v2), "decoded again")
    if isinstance(v, (list, dict)):
        c.check(v is not v2 and v is not x, "decoded instances are new")


def sizes(c):
    """serialised instances of any length"""
    n = c.int("n", 64, 1 << 20)
    w, S = start(c, lambda x: n)
    r, compress = c.real("r"), c.flag("compress")
    for x in [{"pad": "", "r": r}] if c.symbolic else [padded(r, m) for m in (n, n + 400, max(64, n - 400))]:
        y = S.encode(x, compress)
        ok, z, obj = layers(c, y)
        c.check(ok, "Base-85 of a serialised instance")
        c.check(z == compress, "compressed as requested")
        c.check(equal(c, x, obj), "the instance is what is serialised")
        c.check(equal(c, x, S.decode(y)), "decoded instance")


def padded(r, n):
    """an instance of n serialised bytes; lengths of compressed instances are only approximate, so neighbours are tried too"""
    import pickle
    import random
    x = {"pad": b"", "r": r}
    rng = random.Random(1)
    for _ in range(3):
        x["pad"] = rng.randbytes(max(0, len(x["pad"]) + n - len(pickle.dumps(x))))
    return x


def history(c):
    """several instances, decoded in any order"""
    w, S = start(c)
    xs = [shapes(c, 7, "x"), shapes(c, 6, "y"), shapes(c, 5, "z")]
    flags = [c.flag("c%d" % k) for k in range(3)]
    ys = [S.encode(x, f) for x, f in zip(xs, flags)]
    for j in range(3):
        k = c.choice("d%d" % j, 3)
        ok, z, obj = layers(c, ys[k])
        c.check(ok and z == flags[k], "compressed as requested")
        v = S.decode(ys[k])
        c.check(equal(c, xs[k], v), "decoded instance")
        if k == 0:
            v["a"] = None
            v["b"].clear()
        if k == 1:
            v.append(1)


def changed(c):
    """an instance that changes between encodings"""
    w, S = start(c)
    r, i = c.real("r", -1000, 1000), c.int("i", -1000, 1000)
    for x, f in (([r, 1], lambda x: x.append(i)), ([r, 1], lambda x: x.__setitem__(0, i)), ({"a": r}, lambda x: x.__setitem__("a", i)), ({"a": [r]}, lambda x: x["a"].append(i)), (bytearray(b"ab"), lambda x: x.append(99))):
        flags = [c.flag("c%d" % k) for k in range(2)]
        was = copy(x)
        y = S.encode(x, flags[0])
        u = S.decode(y)
        f(x)
        z = S.encode(x, flags[1])
        for k, (e, v) in enumerate(((y, was), (z, x))):
            ok, q, obj = layers(c, e)
            c.check(ok and q == flags[k], "compressed as requested")
            c.check(equal(c, v, obj), "the instance as it is when encoded is what is serialised")
            c.check(equal(c, v, S.decode(e)), "decoded instance")
        c.check(equal(c, was, u), "an instance decoded earlier is left unchanged")
        f(u)
        c.check(equal(c, was, S.decode(y)), "decoded again, after an instance decoded earlier changed")


def digest(c, x, encoding):
    """the SHA3-256 digest of the bytes of a text"""
    if c.symbolic:
        return None
    import hashlib
    return hashlib.sha3_256(x.encode(encoding)).hexdigest()


def samehex(c, w, y, x, encoding):
    if not c.symbolic:
        return isinstance(y, str) and y == digest(c, x, encoding)
    from engine.text import SymStr, encode as enc
    if not isinstance(y, OHex) or y.alg != "sha3_256":
        return False
    b = w.bytes(x.data if isinstance(x, OText) else enc(x, encoding))
    if len(b.segs) != len(y.data.segs):
        return False
    return c.all([(s.data == t.data) if s.kind == "raw" and t.kind == "raw" else s is t for s, t in zip(b.segs, y.data.segs)])


def code(c, n, encoding):
    """hash codes of strings"""
    w, S = start(c)
    x = c.text("x", n, n, lo=1, hi=0x7ff)
    explicit = c.flag("explicit") if encoding == "utf-8" else True
    if encoding in ("ascii", "latin-1"):
        top = 128 if encoding == "ascii" else 256
        bad = c.any([k >= top for k in c.letters(x)])
        if c.raises(lambda: S.code(x, encoding), UnicodeEncodeError):
            c.check(bad, "strings of the encoding are accepted")
            return
        c.check(c.no(bad), "strings outside the encoding are rejected")
    y = S.code(x, encoding=encoding) if explicit else S.code(x)
    c.check(samehex(c, w, y, x, encoding), "SHA3-256 code")
    y2 = S.code(x, encoding)
    c.check(samehex(c, w, y2, x, encoding), "the same code again")


def code_pair(c):
    """codes of different strings in turn"""
    w, S = start(c)
    x, y = c.text("x", 2, 2, lo=1, hi=0x7ff), c.text("y", 2, 1, lo=1, hi=0x7ff)
    a, b = S.code(x), S.code(y, "utf-16" if c.flag("u") else "utf-8")
    c.check(samehex(c, w, a, x, "utf-8"), "code of the first")
    c.check(samehex(c, w, b, y, "utf-16" if c.flag("u") else "utf-8"), "code of the second")


def code_encoded(c):
    """hash codes of encoded instances"""
    w, S = start(c)
    x = shapes(c, 7)
    y = S.encode(x, compress=c.flag("compress"))
    c.check(samehex(c, w, S.code(y), y, "utf-8"), "SHA3-256 code")
    c.check(samehex(c, w, S.code(y, "latin-1"), y, "latin-1"), "SHA3-256 code")
    c.check(equal(c, x, S.decode(y)), "decoded instance")


def rejected(c):
    """empty arguments"""
    w, S = start(c)
    good = S.encode([1.0])
    empty = ["", None][c.choice("empty", 2)]
    enc = ENC[c.choice("encoding", len(ENC))]
    c.check(c.raises(lambda: S.code(empty, enc), ValueError), "empty string has no code")
    c.check(c.raises(lambda: S.decode(empty, enc), ValueError), "empty string is not decoded")
    c.check(c.raises(lambda: S.code(good, empty), ValueError), "no code in an empty encoding")
    c.check(c.raises(lambda: S.decode(good, empty), ValueError), "no decoding in an empty encoding")
    c.check(c.raises(lambda: S.encode([1.0], c.flag("compress"), empty), ValueError), "no encoding in an empty encoding")


def instances(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, budget=120, max_paths=4000))
    for k in range(NSHAPES):
        add("shape %d" % k, "roundtrip", k=k)
    add("sizes", "sizes")
    add("history", "history")
    add("changed", "changed")
    for e in ("utf-8", "ascii", "latin-1", "utf-16"):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            add("code %s of %d" % (e, n), "code", n=n, encoding=e)
    add("codes in turn", "code_pair")
    add("code of an instance", "code_encoded")
    add("empty arguments", "rejected")
    return out
