"""Monitored execution of the Python module: Python's own integers are the oracle."""
import sys, os, random, json, argparse, importlib.util, operator, copy, math, mmap, array, faulthandler, gc, ctypes, struct, time

ap = argparse.ArgumentParser()
for o, t, d in (("module", str, ""), ("mode", str, "ops"), ("seed", int, 1), ("index", int, 0), ("cases", int, 1000), ("out", str, "."), ("replay", str, ""), ("consts", str, "")):
    ap.add_argument("--" + o, type=t, default=d)
A = ap.parse_args()
faulthandler.enable()
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)
spec = importlib.util.spec_from_file_location("pybiginteger", A.module)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
B = mod.BigInteger
rng = random.Random(A.seed * 1000003 + A.index * 7919 + sum(map(ord, A.mode)))
P61 = (1 << 61) - 1  # the modulus of the interpreter's hashes
CONSTS = [0, 1, 2, 31, 32, 64, 128, 255, 256]
if A.consts:
    CONSTS += [int(x) for x in open(A.consts).read().split()]
stat = {"evaluations": 0, "distinct_nontrivial": 0, "ops": {}, "exceptions": {}, "samples": [], "leak_loops": 0, "refcount_checks": 0, "buffers": 0}
seen = set()

# the case being executed, in a file mapping that survives a crash of the interpreter
CASE = os.path.join(A.out, "case_%d.txt" % A.index)
fd = os.open(CASE, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
os.ftruncate(fd, 1 << 20)
CM = mmap.mmap(fd, 1 << 20)


armed = [0.0]


def note(text):
    now = time.monotonic()
    if now - armed[0] > 10:  # a call that does not return within a minute and a half (or blocks for ever) ends the worker
        armed[0] = now
        faulthandler.dump_traceback_later(90, exit=True)
    b = text.encode("utf-8", "replace")[: (1 << 20) - 1]
    CM[: len(b) + 1] = b + b"\n"
    CM[len(b) + 1: len(b) + 2] = b"\0"


def violation(kind, text):
    note_len = CM.find(b"\0")
    cur = CM[:note_len].decode("utf-8", "replace")
    print("\nPYRIG-VIOL kind=%s %s | %s" % (kind, text[:1500], cur[:3000]), flush=True)
    os._exit(77)


def num():
    k = rng.randrange(13)
    if k == 0:
        x = rng.randrange(-3, 4)
    elif k == 1:
        x = rng.choice(CONSTS) + rng.randrange(-2, 3)
    elif k == 2:
        x = (1 << rng.randrange(0, 130)) + rng.randrange(-2, 3)
    elif k == 3:
        x = (1 << (8 * rng.randrange(1, 40) - rng.randrange(0, 2))) + rng.randrange(-2, 3)
    elif k == 4:
        x = (1 << (32 * rng.randrange(1, 12))) + rng.randrange(-2, 3)
    elif k == 5:
        x = rng.getrandbits(rng.randrange(1, 70))
    elif k == 6:
        x = rng.getrandbits(rng.randrange(1, 1400))
    elif k == 7:
        x = rng.getrandbits(rng.randrange(1, 200)) << rng.randrange(0, 300)
    elif k == 8:
        x = rng.choice([1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, 1 << 63, (1 << 63) - 1, 1 << 64, (1 << 64) - 1, (1 << 31) + 1, (1 << 63) + 1])
    elif k == 9:
        x = int.from_bytes(bytes(rng.choice([0, 0xff, 0x80, 0x7f, rng.randrange(256)]) for _ in range(rng.randrange(1, 60))), "little")
    elif k == 10:
        x = 10 ** rng.randrange(0, 120) + rng.randrange(-1, 2)
    elif k == 11:
        x = P61 * rng.choice([1, 1, 2, 3, 8, 16, rng.getrandbits(70), rng.getrandbits(500)]) + rng.randrange(-2, 3)
    elif rng.randrange(60) == 0:
        x = rng.getrandbits(rng.randrange(9000, 60000))
    else:
        x = rng.getrandbits(rng.randrange(1000, 9000)) if rng.randrange(6) == 0 else rng.getrandbits(rng.randrange(60, 400))
    return -x if rng.randrange(2) else x


def related(x):
    k = rng.randrange(7)
    if k == 0:
        return x
    if k == 1:
        return -x
    if k == 2:
        return x + rng.randrange(-2, 3)
    if k == 3:
        return ~x
    if k == 4:
        return x >> rng.randrange(0, 70)
    if k == 5:
        return x * rng.randrange(-5, 6) + rng.randrange(-1, 2)
    return x ^ (1 << rng.randrange(0, max(1, x.bit_length()) + 3))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def tmod(a, b):
    return a - b * tdiv(a, b)


def tpowmod(a, e, m):
    r = pow(abs(a), e, abs(m))
    return -r if a < 0 and e & 1 else r


def shl(a, n):
    return a << n if n >= 0 else a >> -n


class Err(Exception):
    pass


ERR = Err()


class Bits:
    """some value of at least n bits"""
    def __init__(self, n):
        self.n = n


def spec_div(f):
    def g(a, b):
        return ERR if b == 0 else f(a, b)
    return g


def spec_pow(a, e):
    if e < 0:
        return ERR
    if e > 0x7fffffff:
        return ERR if abs(a) > 1 and e >> 36 else (ERR, Bits(e) if abs(a) > 1 else a ** (e & 1) if a else (1 if e == 0 else 0))
    if abs(a) <= 1:
        return (1 if e == 0 else 0) if a == 0 else 1 if a == 1 or e % 2 == 0 else -1
    return a ** e


def spec_shl(a, n):
    if abs(n) > 0x7fffffff:  # the exact result or an exception; no machine holds the results of the largest counts
        if a == 0 or n < 0:
            return (ERR, -1 if a < 0 else 0)
        return ERR if n >> 36 else (ERR, Bits(n))
    return shl(a, n)


def spec_shr(a, n):
    return spec_shl(a, -n)


NUMRES = {
    "add": (operator.add, lambda a, b: a + b), "sub": (operator.sub, lambda a, b: a - b), "mul": (operator.mul, lambda a, b: a * b),
    "mod": (operator.mod, spec_div(tmod)), "truediv": (operator.truediv, spec_div(tdiv)), "floordiv": (operator.floordiv, spec_div(tdiv)),
    "and": (operator.and_, lambda a, b: a & b), "or": (operator.or_, lambda a, b: a | b), "xor": (operator.xor, lambda a, b: a ^ b),
    "lshift": (operator.lshift, spec_shl), "rshift": (operator.rshift, spec_shr), "pow": (operator.pow, spec_pow),
    "divmod": (divmod, spec_div(lambda a, b: (tdiv(a, b), tmod(a, b)))),
    "iadd": (operator.iadd, lambda a, b: a + b), "isub": (operator.isub, lambda a, b: a - b), "imul": (operator.imul, lambda a, b: a * b),
    "ifloordiv": (operator.ifloordiv, spec_div(tdiv)), "imod": (operator.imod, spec_div(tmod)), "iand": (operator.iand, lambda a, b: a & b),
    "ior": (operator.ior, lambda a, b: a | b), "ixor": (operator.ixor, lambda a, b: a ^ b), "ilshift": (operator.ilshift, spec_shl), "irshift": (operator.irshift, spec_shr),
}
CMP = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "gt": operator.gt, "ge": operator.ge}
UN = {"neg": operator.neg, "pos": operator.pos, "abs": abs, "invert": operator.invert}


def record(op, *vals):
    stat["evaluations"] += 1
    stat["ops"][op] = stat["ops"].get(op, 0) + 1
    h = hash((op,) + vals)
    if any(isinstance(v, int) and abs(v) > 0x7fffffff for v in vals) and h not in seen and len(seen) < 3000000:
        seen.add(h)
        stat["distinct_nontrivial"] += 1
        if len(stat["samples"]) < 4 and stat["evaluations"] % 53 == 7:
            stat["samples"].append("%s %s" % (op, " ".join(hex(v) if isinstance(v, int) else repr(v) for v in vals))[:500])


def attempt(f, *args):
    try:
        return f(*args)
    except Exception as e:
        n = type(e).__name__
        stat["exceptions"][n] = stat["exceptions"].get(n, 0) + 1
        if isinstance(e, SystemError):
            violation("systemerror", "the interpreter reported an internal error: %s" % e)
        return e


def val(x):
    return int(x) if type(x) is B else x


def expect_number(got, want, big, what):
    alts = want if isinstance(want, tuple) and any(isinstance(w, Err) or w is None for w in want) else (want,)
    if isinstance(got, Exception):
        if any(isinstance(w, Err) for w in alts):
            return
        violation("error", "%s raised %r instead of returning a value" % (what, got))
    if None in alts:
        return
    vals = [w for w in alts if not isinstance(w, Err)]
    if not vals:
        violation("noerror", "%s returned %r instead of raising an exception" % (what, val(got)))
    w = vals[0]
    if isinstance(w, Bits):
        if abs(val(got)).bit_length() < w.n:
            violation("value", "%s returned %r, which is too small" % (what, val(got)))
        return
    if isinstance(w, tuple):
        if type(got) is not tuple or len(got) != len(w):
            violation("type", "%s returned %r" % (what, got))
        for g, x in zip(got, w):
            expect_number(g, x, big, what)
        return
    t = B if big else int
    if type(got) is not t:
        violation("type", "%s returned a %s instead of a %s" % (what, type(got).__name__, t.__name__))
    if val(got) != w:
        violation("value", "%s: expected %#x, observed %#x" % (what, w, val(got)))


def check_same(obj, v, what):
    if type(obj) is B:
        if int(obj) != v:
            violation("operand", "%s changed from %#x to %#x" % (what, v, int(obj)))
    elif obj != v:
        violation("operand", "%s changed" % what)


def mk(v):
    return B(v)


def one_op():
    k = rng.randrange(20)
    a = num()
    if k < 13:
        op = rng.choice(list(NUMRES))
        b = related(a) if rng.randrange(3) == 0 else num()
        if rng.randrange(25) == 0:
            b = 0
        if "shift" in op:
            b = rng.choice([0, 1, 31, 32, 33, 64, rng.randrange(0, 400), 32 * rng.randrange(0, 20), a.bit_length() + rng.randrange(-2, 3)])
            if rng.randrange(3) == 0:
                b = -b
            if rng.randrange(20) == 0:
                big = rng.choice([1 << 31, (1 << 32) + 1, -(1 << 31) - 1, 1 << 63, (1 << 64) + 3, -(1 << 64), 1 << 200, (1 << 32), -(1 << 32) + 1])
                b = big
            elif rng.randrange(20) == 0:  # far, shrinking only
                b = rng.choice([0x7fffffff, 1 << 30, 100000]) * (1 if "r" == op.replace("i", "")[0] else -1)
            elif rng.randrange(40) == 0:  # counts beyond a byte, beyond 16 bits
                b = rng.choice([255, 256, 1023, 4096, 32767, 32768, 65535, 65536, 70000, rng.randrange(200000)]) * rng.choice([1, -1])
        elif op == "pow":
            if rng.randrange(5) == 0:
                a = rng.randrange(-1, 2)
                b = rng.choice([0, 1, 2, 0x7fffffff, 0x7ffffffe, 12345])
            else:
                b = rng.randrange(0, max(2, 3000 // max(1, a.bit_length())))
            if rng.randrange(30) == 0:  # exponents beyond a byte, beyond 16 bits
                a = rng.choice([2, -2, 3, 4, 8, 10, -16, 1 << rng.randrange(1, 4), rng.randrange(2, 16)])
                b = rng.choice([255, 256, 257, 1000, 4097, 32767, 32768, 40001, 65535, 65536, 65537, rng.randrange(80000)])
                if rng.randrange(6):
                    b >>= rng.randrange(8)
            if rng.randrange(20) == 0:
                b = rng.choice([-1, -5, 1 << 31, 1 << 32, (1 << 32) + 2, -(1 << 32) + 2, (1 << 64) + 1, 1 << 100, -(1 << 31)])
        form = rng.choice(("BB", "BI", "IB"))
        f, s = NUMRES[op]
        x = mk(a) if form[0] == "B" else a
        y = mk(b) if form[1] == "B" else b
        if form == "BB" and rng.randrange(15) == 0:
            y, b = x, a
            if "shift" in op or op == "pow":
                a = b = rng.randrange(-20 if op != "pow" else 0, 20)
                x = y = mk(a)
        if form != "BB" and rng.randrange(30) == 0:  # bool is an int
            if form == "BI":
                b = rng.randrange(2)
                y = bool(b)
            else:
                a = rng.randrange(2)
                x = bool(a)
        note("op %s form %s a %#x b %#x same %d" % (op, form, a, b, x is y))
        record(op, form, a, b)
        got = attempt(f, x, y)
        want = s(a, b)
        expect_number(got, want, form[0] == "B", "%s (%s)" % (op, form))
        check_same(x, a, "left operand")
        check_same(y, b, "right operand")
    elif k < 16:
        op = rng.choice(list(CMP))
        b = related(a) if rng.randrange(2) else num()
        form = rng.choice(("BB", "BI", "IB"))
        x = mk(a) if form[0] == "B" else a
        y = mk(b) if form[1] == "B" else b
        note("op %s form %s a %#x b %#x" % (op, form, a, b))
        record(op, form, a, b)
        got = attempt(CMP[op], x, y)
        if got is not CMP[op](a, b):
            violation("compare", "%s (%s) gave %r" % (op, form, got))
        check_same(x, a, "left operand")
        check_same(y, b, "right operand")
    elif k < 18:
        op = rng.choice(list(UN))
        x = mk(a)
        note("op %s a %#x" % (op, a))
        record(op, a)
        expect_number(attempt(UN[op], x), UN[op](a), True, op)
        check_same(x, a, "operand")
    else:
        form = rng.choice(("BBB", "BIB", "BBI", "BBB", "BII"))
        e = rng.choice([rng.randrange(0, 6), rng.getrandbits(32), rng.getrandbits(rng.randrange(1, 90)), -1])
        m = rng.choice([num(), rng.getrandbits(rng.randrange(1, 1300)) | 1, 1, -1, 0, 1 << rng.randrange(0, 1100)])
        x, y, z = (mk(v) if f == "B" else v for v, f in zip((a, e, m), form))
        note("op pow3 form %s a %#x e %#x m %#x" % (form, a, e, m))
        record("pow3", form, a, e, m)
        want = ERR if e < 0 or m == 0 else tpowmod(a, e, m)
        got = attempt(pow, x, y, z)
        if form == "BII" and isinstance(got, TypeError):
            return
        expect_number(got, want, True, "pow with modulus (%s)" % form)
        for o, v in ((x, a), (y, e), (z, m)):
            check_same(o, v, "operand")


# ------------------------------------------------------------------------------------------------ conversions
def enc(x, unsigned=False, big=False):
    if unsigned:
        n = max(1, (x.bit_length() + 7) // 8)
    else:
        n = (x if x >= 0 else ~x).bit_length() // 8 + 1
    return x.to_bytes(n, "big" if big else "little", signed=not unsigned)


def same(got, want, what):
    if type(got) is not type(want) or got != want:
        violation("conversion", "%s: expected %r, observed %r" % (what, want, got))


def make_buffer(data):
    """the bytes as one of many buffer objects"""
    k = rng.randrange(9)
    if k == 0:
        return data, "bytes"
    if k == 1:
        return bytearray(data), "bytearray"
    if k == 2:
        return memoryview(data), "memoryview"
    if k == 3:
        return array.array("B", data), "array"
    step = rng.choice([2, 3, 5, -1, -2, -3])
    n = len(data)
    pad = rng.randrange(0, 4)
    if step > 0:
        raw = bytearray(rng.getrandbits(8) for _ in range(n * step + 2 * pad))
        raw[pad:pad + n * step:step] = data
        return memoryview(raw)[pad:pad + n * step:step], "strided %d" % step
    s = -step
    raw = bytearray(rng.getrandbits(8) for _ in range(n * s + pad))
    if n == 0:
        return memoryview(raw)[0:0:step], "strided %d" % step
    top = pad + (n - 1) * s
    for i, c in enumerate(data):
        raw[top - i * s] = c
    mv = memoryview(raw)[top::step]
    mv = mv[:n]
    if bytes(mv) != bytes(data):
        raise AssertionError("harness")
    if k == 8:
        mv = mv.toreadonly()
    return mv, "strided %d" % step


def close(a, b):
    if math.isnan(b):
        return math.isnan(a)
    if math.isinf(b) or b == 0:
        return a == b or abs(a - b) < 1e-300
    return abs(a - b) <= 1e-13 * abs(b)


def ilog(x):
    n = x.bit_length()
    if n <= 1000:
        return math.log(x)
    return math.log(x >> (n - 64)) + (n - 64) * math.log(2)


def one_conv():
    x = num()
    note("conv a %#x" % x)
    record("conversions", x)
    b = B(x)
    same(int(b), x, "int()")
    same(str(b), str(x), "str()")
    same(bytes(b), enc(x), "bytes()")
    for big in (False, True):
        same(b.to_array(False, big), enc(x, False, big), "to_array(False, %s)" % big)
        same(b.to_array(is_bigendian=big), enc(x, False, big), "to_array(is_bigendian=%s)" % big)
        got = attempt(lambda: b.to_array(is_unsigned=True, is_bigendian=big))
        if x < 0:
            if not isinstance(got, Exception):
                violation("noerror", "to_array(is_unsigned=True) of a negative value returned %r" % got)
        else:
            same(got, enc(x, True, big), "to_array(True, %s)" % big)
    same(b.to_array(), enc(x), "to_array()")
    same(operator.index(b), x, "index")
    same(hex(b), hex(x), "hex()")
    if abs(x) < 1000:
        same(list(range(b, x + 2)), [x, x + 1], "range()")
    d = attempt(float, b)
    if isinstance(d, Exception):
        try:
            float(x)
            violation("conversion", "float() raised %r" % d)
        except OverflowError:
            pass
    else:
        try:
            w = float(x)
            if type(d) is not float or d != w:
                violation("conversion", "float(): expected %r, observed %r" % (w, d))
        except OverflowError:
            violation("conversion", "float() of a value beyond the range gave %r" % d)
    c = copy.deepcopy(b)
    if type(c) is not B or int(c) != x or not (c == b) or c is b and False:
        violation("conversion", "deepcopy")
    if hash(b) != hash(x) or hash(c) != hash(b):
        violation("hash", "equal objects with different hashes: %d, %d" % (hash(b), hash(x)))
    dct = {x: "int"}
    if dct.get(b) != "int" or {b: "big"}.get(x) != "big" or {c: 1}.get(B(x)) != 1 or len({b, x, c}) != 1:
        violation("hash", "not interchangeable as dictionary keys")
    y = related(x)
    if (B(y) == b) != (x == y) or (b == y) != (x == y):
        violation("hash", "equality")
    if b.get_bit_Length() != (x if x >= 0 else ~x).bit_length():
        violation("query", "bit length %r" % b.get_bit_Length())
    if type(b.sign) is not int or (b.sign > 0) - (b.sign < 0) != (x > 0) - (x < 0):
        violation("query", "sign %r" % b.sign)
    same(b.is_even(), x % 2 == 0, "is_even")
    same(b.is_power_of_two(), x > 0 and x & (x - 1) == 0, "is_power_of_two")
    for arg in (b, x):
        base = rng.choice([2.0, 10.0, 3.5, 0.5, 1e9])
        g1, g2, g3 = attempt(B.log, arg), attempt(B.log10, arg), attempt(B.log, arg, base)
        for g in (g1, g2, g3):
            if type(g) is not float:
                violation("query", "log returned %r" % (g,))
        if x < 0:
            w = (math.nan,) * 3
        elif x == 0:
            w = (-math.inf, -math.inf, -math.inf if base > 1 else math.inf)
        elif x == 1:
            w = (0.0, 0.0, 0.0)
        else:
            l = ilog(x)
            w = (l, l / math.log(10), l / math.log(base))
        for g, v, n in zip((g1, g2, g3), w, ("log", "log10", "log base %r" % base)):
            if not close(g, v):
                violation("query", "%s: expected %r, observed %r" % (n, v, g))
    # construction from buffers: the encoding, padded encodings and arbitrary bytes
    data = enc(x)
    r = rng.randrange(4)
    if r == 0:
        data += (b"\xff" if x < 0 else b"\0") * rng.randrange(1, 9)
    elif r == 1:
        data = bytes(rng.choice([0, 255, 128, 127, rng.randrange(256)]) for _ in range(rng.randrange(0, 50)))
    want = int.from_bytes(data, "little", signed=True)
    buf, kind = make_buffer(data)
    note("buffer %s %s" % (kind, data.hex()))
    record("buffer", kind, want)
    stat["buffers"] += 1
    got = attempt(B, buf)
    if isinstance(got, Exception):
        violation("conversion", "construction from %s raised %r" % (kind, got))
    if int(got) != want:
        violation("conversion", "construction from %s: expected %#x, observed %#x" % (kind, want, int(got)))
    if bytes(buf) != data:
        violation("operand", "the buffer was modified")
    if rng.randrange(3) == 0:  # the object does not refer to the buffer afterwards
        if isinstance(buf, bytearray):
            for i in range(len(buf)):
                buf[i] ^= 0x5a
            buf.extend(b"12")
        if int(got) != want:
            violation("conversion", "the object changed with its source buffer")
    same(int(B(value=x)), x, "keyword construction")


# ------------------------------------------------------------------------------------------------ robustness
class EvilIndex:
    def __index__(self):
        raise ValueError("no index")

    def __int__(self):
        raise ValueError("no int")


class IndexBig:
    def __index__(self):
        return 1 << 70


class Sub(B):
    pass


class SubInt(int):
    pass


class EvilInt(int):
    def __lt__(self, o):
        raise KeyError("lt")

    def __eq__(self, o):
        raise KeyError("eq")
    __hash__ = int.__hash__


class ShortBuf:
    def __buffer__(self, flags):
        raise BufferError("no")


def hostile_buffer():
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, rng.randrange(300)])
    data = bytes(rng.choice([0, 255, 128, 127, rng.randrange(256)]) for _ in range(n))
    k = rng.randrange(12)
    if k < 6:
        return make_buffer(data)[0]
    if k == 6:
        return (ctypes.c_ubyte * n)(*data)
    if k == 7:
        return memoryview(data).cast(rng.choice("cb?"))
    if k == 8:
        mv = memoryview(data)
        mv.release()
        return mv
    if k == 9:
        return memoryview(rng.randbytes(24)).cast("B", rng.choice([(24, 1), (1, 24), (2, 3, 4), (4, 6)]))
    if k == 10:
        f = rng.choice("HIQdhiqfl")
        raw = rng.randbytes(24)
        if rng.randrange(2):
            return array.array(f, raw)
        return memoryview(raw).cast("B").cast(f)[::rng.choice([1, 2, -1])]
    return ctypes.c_ubyte(n & 255)


def weird():
    k = rng.randrange(34)
    v = num()
    if k < 9:
        return B(v)
    if k < 15:
        return v
    if k == 15:
        return hostile_buffer()
    return [None, "", "12", "x" * 50, 1.5, float("nan"), float("inf"), [], [1, 2], (), {}, object(), b"", b"\x80", bytearray(b"\0\xff"), EvilIndex(), IndexBig(), Sub(v), SubInt(v),
            EvilInt(v), True, memoryview(b"abcd"), array.array("I", [1, 2]), array.array("d", [1.0]), array.array("b", [-1]), memoryview(bytes(12)).cast("B", (3, 4)),
            memoryview(b"").cast("B"), complex(1, 2), B, ShortBuf(), Ellipsis, 10 ** 300, -(1 << 64), 1 << 31][rng.randrange(34)]


METHODS = [m for m in dir(B) if callable(getattr(B, m)) and m not in (
    "__class__", "__new__", "__init_subclass__", "__subclasshook__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__dir__", "__reduce__", "__reduce_ex__", "__getstate__", "__sizeof__", "__format__", "__repr__", "__class_getitem__")]


def pow_safe(name, args):
    """do not ask for results of astronomic size: everything else is allowed"""
    vals = []
    for a in args:
        try:
            vals.append(int(a) if isinstance(a, (int, B)) and not isinstance(a, EvilInt) else int.__index__(a) if isinstance(a, EvilInt) else None)
        except Exception:
            vals.append(None)
    if name in ("__pow__", "__rpow__") and len(args) < 3:
        base, e = (vals + [None, None])[:2]
        if name == "__rpow__":
            base, e = e, base
        if base is None or e is None:
            return True
        if abs(base) > 1 and 0 < e <= 0x7fffffff and e * abs(base).bit_length() > 30000:
            return False
        return True
    if name in ("__pow__",) and len(args) == 3:
        e = vals[1]
        return e is None or e.bit_length() < 200
    if "shift" in name:
        if name.startswith("__r") and name != "__rshift__":
            base, n = (vals[1:2] or [None])[0], vals[0]
        else:
            base, n = vals[0], (vals[1:2] or [None])[0]
        if n is None or base is None:
            return True
        left = "lshift" in name
        return abs(n) > 0x80000000 or (n if left else -n) < 20000
    if name == "__eq__":
        return True
    return True


def model(name, args):
    """the correct result where the arguments make sense, else no opinion"""
    tab = {"__add__": "add", "__sub__": "sub", "__mul__": "mul", "__mod__": "mod", "__truediv__": "truediv", "__floordiv__": "floordiv", "__and__": "and", "__or__": "or", "__xor__": "xor", "__divmod__": "divmod"}
    if name in tab and len(args) == 2 and type(args[0]) is B and type(args[1]) in (B, int):
        return NUMRES[tab[name]][1](int(args[0]), int(args[1]))
    return None


def one_robust():
    k = rng.randrange(10)
    if k < 6:
        name = rng.choice(METHODS)
        n = rng.choice([0, 1, 1, 1, 1, 2, 3])
        args = [B(num())] + [weird() for _ in range(n)]
        if rng.randrange(12) == 0:
            args[0] = weird()
        if not pow_safe(name, args):
            return
        note("method %s(%s)" % (name, ", ".join(describe(a) for a in args)))
        record("method " + name, *[int(a) if type(a) is int or type(a) is B else 0 for a in args])
        rc = [sys.getrefcount(a) for a in args]
        vals = [int(a) if type(a) is B else None for a in args]
        got = attempt(getattr(B, name), *args)
        want = model(name, args)
        if want is not None and got is not NotImplemented:
            expect_number(got, want, True, name)
        if type(got) is B:
            int(got), str(got)
        ident = any(got is a for a in args)
        del got
        gc_free = [sys.getrefcount(a) for a in args]
        stat["refcount_checks"] += len(args)
        if rc != gc_free and not ident:
            if attempt_refs(name, args):
                violation("refcount", "%s changed the reference counts of its arguments: %s -> %s" % (name, rc, gc_free))
        for a, v in zip(args, vals):
            if v is not None and int(a) != v:
                violation("operand", "an argument changed")
    elif k < 8:
        w = weird() if rng.randrange(3) else hostile_buffer()
        f, n = rng.choice([(B, "BigInteger()"), (lambda o: B(value=o), "BigInteger(value=)"), (B.log, "log"), (B.log10, "log10"), (lambda o: B.log(o, weird()), "log2"), (Sub, "subclass")])
        note("%s(%s)" % (n, describe(w)))
        record(n, int(w) if type(w) in (int, B) else 0)
        rc = sys.getrefcount(w)
        got = attempt(f, w)
        if n.startswith("BigInteger") and type(w) is int and (isinstance(got, Exception) or int(got) != w):
            violation("value", "construction from an int")
        if n.startswith("BigInteger") and not isinstance(got, Exception) and isinstance(w, (bytes, bytearray, memoryview, array.array, ctypes.Array)):
            if int(got) != int.from_bytes(bytes(w), "little", signed=True):
                violation("value", "construction from a buffer of %s gave %#x" % (bytes(w).hex(), int(got)))
        del got
        if n != "log2" and sys.getrefcount(w) != rc and attempt_refs_f(f, w):
            violation("refcount", "%s changed the reference count of its argument" % n)
    else:
        name = rng.choice(["add", "sub", "mul", "mod", "truediv", "floordiv", "and", "or", "xor", "divmod", "lshift", "rshift", "pow", "eq", "lt", "ne"])
        x, y = weird(), weird()
        if rng.randrange(2):
            x = B(num())
        if type(x) is not B and type(y) is not B:
            y = B(num())
        if not pow_safe("__%s__" % name, [x, y]):
            return
        f = NUMRES[name][0] if name in NUMRES else CMP[name]
        note("operator %s(%s, %s)" % (name, describe(x), describe(y)))
        record("operator " + name, int(x) if type(x) in (int, B) else 0, int(y) if type(y) in (int, B) else 0)
        got = attempt(f, x, y)
        if name in NUMRES and name not in ("pow", "lshift", "rshift") and all(type(a) in (B, int) for a in (x, y)):
            expect_number(got, NUMRES[name][1](int(x), int(y)), type(x) is B, name)


def attempt_refs(name, args):
    """does repeating the call move the counts again and again?"""
    f = getattr(B, name)
    before = [sys.getrefcount(a) for a in args]
    for _ in range(50):
        try:
            f(*args)
        except Exception:
            pass
    after = [sys.getrefcount(a) for a in args]
    return any(abs(x - y) >= 50 for x, y in zip(before, after))


def attempt_refs_f(f, w):
    before = sys.getrefcount(w)
    for _ in range(50):
        try:
            f(w)
        except Exception:
            pass
    return abs(sys.getrefcount(w) - before) >= 50


def describe(a):
    if type(a) is B:
        return "B(%#x)" % int(a)
    if isinstance(a, EvilInt):
        return "EvilInt"
    if isinstance(a, int) and not isinstance(a, bool):
        return "%s(%#x)" % (type(a).__name__, a)
    if isinstance(a, memoryview):
        try:
            return "memoryview(%s %s %s %s)" % (a.format, a.shape, a.strides, a.tobytes().hex()[:600])
        except ValueError:
            return "memoryview(released)"
    return "%s:%r" % (type(a).__name__, a)


# ------------------------------------------------------------------------------------------------ leaks
class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


libc = ctypes.CDLL(None)


def asan_heap():
    try:
        f = libc.__sanitizer_get_current_allocated_bytes
        f.restype = ctypes.c_size_t
        return f
    except AttributeError:
        return None


HEAP = asan_heap()
if HEAP is None:
    libc.mallinfo2.restype = Mallinfo2


def in_use():
    if HEAP:
        return HEAP()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def leak_calls():
    a, b, c = B(num()), B(num() or 7), B(abs(num()) | 1)
    ai, bi = int(a), int(b) or 3
    e = B(rng.randrange(0, 40))
    data = enc(ai) * rng.randrange(1, 20)
    mv = memoryview(bytearray(data * 2))[::2]
    z = B(0)
    L = [
        ("B(int)", lambda: B(ai)), ("B(bytes)", lambda: B(data)), ("B(strided)", lambda: B(mv)), ("int(B)", lambda: int(a)), ("str", lambda: str(a)), ("bytes", lambda: bytes(a)),
        ("to_array", lambda: a.to_array(False, True)), ("to_array error", lambda: B(-5).to_array(True)), ("float", lambda: float(a)), ("hash", lambda: hash(a)), ("deepcopy", lambda: copy.deepcopy(a)),
        ("a+b", lambda: a + b), ("a+int", lambda: a + bi), ("int+a", lambda: bi + a), ("a-b", lambda: a - b), ("a-int", lambda: a - bi), ("int-a", lambda: bi - a), ("a*b", lambda: a * b), ("a*int", lambda: a * bi),
        ("int*a", lambda: bi * a), ("a//b", lambda: a // c), ("a//int", lambda: a // 7), ("int//a", lambda: bi // c), ("a%b", lambda: a % c), ("a%int", lambda: a % 12345678901), ("int%a", lambda: bi % c),
        ("a/b", lambda: a / c), ("a/int", lambda: a / 11), ("int/a", lambda: bi / c), ("divmod", lambda: divmod(a, c)), ("divmod int", lambda: divmod(a, 99)), ("int divmod", lambda: divmod(bi, c)),
        ("zero division", lambda: a // z), ("zero modulo int", lambda: bi % z), ("zero divmod", lambda: divmod(a, 0)), ("pow", lambda: b ** e), ("pow int", lambda: b ** 5), ("int pow", lambda: 3 ** e),
        ("pow negative", lambda: a ** -1), ("pow too large", lambda: a ** (1 << 40)), ("pow3", lambda: pow(a, e, c)), ("pow3 zero", lambda: pow(a, e, z)), ("pow3 int", lambda: pow(a, 5, c)), ("pow3 int2", lambda: pow(a, e, 1000003)),
        ("pow3 negative", lambda: pow(a, B(-3), c)), ("<<", lambda: a << 77), (">>", lambda: a >> 33), ("<<B", lambda: a << e), ("int<<", lambda: bi << e), ("int>>", lambda: bi >> e), ("<< huge", lambda: a << (1 << 70)),
        ("<<B huge", lambda: a << c * B(1 << 80)), ("&", lambda: a & b), ("&int", lambda: a & bi), ("int&", lambda: bi & a), ("|", lambda: a | b), ("|int", lambda: a | bi), ("int|", lambda: bi | a), ("^", lambda: a ^ b),
        ("^int", lambda: a ^ bi), ("int^", lambda: bi ^ a), ("neg", lambda: -a), ("pos", lambda: +a), ("abs", lambda: abs(a)), ("~", lambda: ~a), ("<", lambda: a < b), ("<int", lambda: a < bi), ("==", lambda: a == b), ("==int", lambda: a == bi),
        (">=int", lambda: a >= bi), ("wrong type", lambda: a + "x"), ("wrong type2", lambda: "x" + a), ("wrong type3", lambda: B("12")), ("wrong type4", lambda: B(None)), ("float arg", lambda: a * 1.5), ("bad buffer", lambda: B(array.array("d", [1.0]))),
        ("2d buffer", lambda: B(memoryview(bytes(12)).cast("B", (3, 4)))), ("log", lambda: B.log(c)), ("log base", lambda: B.log(c, 3.0)), ("log int", lambda: B.log(bi)), ("log10", lambda: B.log10(c)), ("log10 int", lambda: B.log10(bi)),
        ("constants", lambda: (B.zero(), B.one(), B.minus_one())), ("queries", lambda: (a.is_even(), a.is_power_of_two(), a.get_bit_Length(), a.sign)), ("index", lambda: operator.index(a)), ("evil", lambda: a + EvilInt(5)),
    ]
    return L, (a, b, c, ai, bi, e, data, mv)


def leak_round(n):
    L, keep = leak_calls()
    for name, f in L:
        note("leak loop %s a %#x b %#x c %#x e %d" % (name, int(keep[0]), int(keep[1]), int(keep[2]), int(keep[5])))

        def loop(k):
            for _ in range(k):
                try:
                    f()
                except Exception:
                    pass
        loop(20)
        gc.collect()
        refs = [sys.getrefcount(o) for o in keep]
        grow = []
        for _ in range(4):
            m0 = in_use()
            loop(n)
            gc.collect() if name.startswith("wrong") else None
            grow.append(in_use() - m0)
            if grow[-1] < n:
                break
        stat["leak_loops"] += 1
        stat["evaluations"] += n
        if len(grow) == 4 and min(grow) >= n:  # caches of the runtime fill up and stop: a leak goes on
            loop(12 * n)
            grow = []
            for _ in range(4):
                m0 = in_use()
                loop(4 * n)
                gc.collect()
                grow.append(in_use() - m0)
        if len(grow) == 4 and min(grow) >= 4 * n:  # every round grows by at least a byte per call
            violation("leak", "%s: memory in use grows by %s bytes per %d calls" % (name, grow, 4 * n))
        r2 = [sys.getrefcount(o) for o in keep]
        if any(abs(x - y) >= n for x, y in zip(refs, r2)):
            violation("refcount", "%s: reference counts of the arguments changed by %s in %d calls" % (name, [y - x for x, y in zip(refs, r2)], n))
        stat["refcount_checks"] += len(refs)


def leak_random():
    """any call with any arguments, repeated: neither the heap nor a reference count goes on growing"""
    k = rng.randrange(6)
    if k < 3:
        name = rng.choice(METHODS)
        args = [B(num())] + [weird() for _ in range(rng.choice([0, 1, 1, 1, 1, 2]))]
        if not pow_safe(name, args):
            return
        f = getattr(B, name)
    elif k == 3:
        f, name = rng.choice([(B, "BigInteger()"), (B.log, "log"), (B.log10, "log10")])
        args = [weird() if rng.randrange(2) else hostile_buffer()]
    elif k == 4:
        name = rng.choice(["int", "str", "bytes", "hash", "float", "deepcopy", "array", "query", "to_bytes"])
        f = {"int": int, "str": str, "bytes": bytes, "hash": hash, "float": float, "deepcopy": copy.deepcopy, "array": lambda o: o.to_array(False, True), "to_bytes": lambda o: o.to_array(True, False),
             "query": lambda o: (o.is_even(), o.is_power_of_two(), o.get_bit_Length(), o.sign)}[name]
        args = [B(num())]
    else:
        name = rng.choice(list(NUMRES))
        x = num()
        args = [x, related(x) if rng.randrange(3) == 0 else num()]
        form = rng.randrange(3)
        args = [B(v) if form == 2 or form == i else v for i, v in enumerate(args)]
        if not pow_safe("__%s__" % name.replace("il", "l").replace("ir", "r"), args):
            return
        f = NUMRES[name][0]
    note("repeated %s(%s)" % (name, ", ".join(describe(a) for a in args)))
    record("repeated " + name, *[int(a) if type(a) is int or type(a) is B else 0 for a in args])

    def loop(n):
        for _ in range(n):
            try:
                f(*args)
            except Exception:
                pass
    loop(3)
    refs = [sys.getrefcount(a) for a in args]
    m0 = in_use()
    loop(8)
    grown = in_use() - m0 >= 64
    if [sys.getrefcount(a) for a in args] == refs and not grown:
        stat["leak_loops"] += 1
        stat["refcount_checks"] += len(args)
        return
    rounds = []
    for i in range(8):  # caches of the runtime fill up and stop
        if i:
            gc.collect()
        m0, r0 = in_use(), [sys.getrefcount(a) for a in args]
        loop(1000)
        if i:
            gc.collect()
        rounds.append((in_use() - m0, max([abs(x - sys.getrefcount(a)) for x, a in zip(r0, args)] or [0])))
        if rounds[-1][0] < 8000 and rounds[-1][1] < 500:
            break
    rounds = rounds[-1:] if len(rounds) < 8 else rounds[3:]
    if min(r[0] for r in rounds) >= 8000:
        violation("leak", "%s: memory in use grows by %s bytes per 1000 calls" % (name, [r[0] for r in rounds]))
    if min(r[1] for r in rounds) >= 500:
        violation("refcount", "%s: reference counts of the arguments change by %s per 1000 calls" % (name, [r[1] for r in rounds]))
    stat["leak_loops"] += 1
    for a in args:  # the exporter of a buffer is released
        if type(a) is bytearray:
            a.append(1)


def threads_round():
    """several threads work on the same objects; whether the module keeps the interpreter lock or not, results are those of one thread"""
    import threading
    vals = [num() for _ in range(24)] + [rng.getrandbits(rng.randrange(20000, 60000)) for _ in range(4)]
    objs = [B(v) for v in vals]
    work = []
    for _ in range(160):
        i, j = rng.randrange(len(vals)), rng.randrange(len(vals))
        op = rng.choice(["add", "sub", "mul", "mod", "floordiv", "and", "or", "xor", "divmod", "str", "bytes", "int", "hash", "pow3", "pow3i", "cmp", "new"])
        form = rng.choice(("BB", "BI", "IB"))
        if op in NUMRES:
            x, y = (objs[i] if form[0] == "B" else vals[i]), (objs[j] if form[1] == "B" else vals[j])
            w = NUMRES[op][1](vals[i], vals[j])
            work.append((op, NUMRES[op][0], (x, y), w, form[0] == "B"))
        elif op in ("pow3", "pow3i"):
            e, m = rng.getrandbits(rng.randrange(1, 60)), rng.getrandbits(rng.randrange(1, 1500)) or 5
            work.append((op, pow, (objs[i], e if op == "pow3i" else B(e), B(m)), tpowmod(vals[i], e, m), True))
        elif op == "cmp":
            work.append((op, lambda a, b: a < b, (objs[i], objs[j]), vals[i] < vals[j], None))
        elif op == "new":
            work.append((op, B, (vals[i],), vals[i], True))
        else:
            f = {"str": str, "bytes": bytes, "int": int, "hash": hash}[op]
            work.append((op, f, (objs[i],), str(vals[i]) if op == "str" else enc(vals[i]) if op == "bytes" else f(vals[i]), None))
    note("threads: %d calls over %d shared objects, 6 threads" % (len(work), len(objs)))
    bad = []
    gate = threading.Barrier(6)

    def body(k):
        order = list(range(len(work)))
        random.Random(k).shuffle(order)
        gate.wait()
        for q in order:
            op, f, args, want, big = work[q]
            try:
                got = f(*args)
            except Exception as e:
                got = e
            if isinstance(want, Err):
                ok = isinstance(got, Exception)
            elif isinstance(want, tuple):
                ok = type(got) is tuple and tuple(map(int, got)) == want
            elif big is None:
                ok = type(got) is type(want) and got == want
            else:
                ok = type(got) is (B if big else int) and int(got) == want
            if not ok:
                bad.append("%s%r" % (op, tuple(describe(a) for a in args)))
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=body, args=(k,)) for k in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    record("threads", *vals[:2])
    stat["evaluations"] += 6 * len(work)
    if bad:
        violation("threads", "%d results differ under threads, first %s" % (len(bad), bad[0][:800]))
    for o, v in zip(objs, vals):
        check_same(o, v, "shared object")


def main():
    if A.mode == "ops":
        for _ in range(A.cases):
            one_op()
    elif A.mode == "conv":
        for _ in range(A.cases):
            one_conv()
    elif A.mode == "robust":
        for k in range(A.cases):
            one_robust()
            if k % 7 == 0:
                one_op()
    elif A.mode == "leak":
        for _ in range(A.cases):
            leak_round(300)
            for _ in range(2500 if HEAP is None else 800):
                leak_random()
    elif A.mode == "threads":
        for _ in range(A.cases):
            threads_round()
    note("done")
    with open(os.path.join(A.out, "stats_%d.json" % A.index), "w") as f:
        json.dump(stat, f)
    print("PYRIG-OK", flush=True)
    os._exit(0)


main()
