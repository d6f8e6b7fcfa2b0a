#!/usr/bin/env python3
"""Drives the Python package built from /repo and records what it does, one JSON object per call.

py_driver.py PROFILE OUTDIR PACKAGE_DIR [SCENARIOS]

Work is done in forked processes, so that every history can start from an interpreter that has not
imported the package yet, and so that a crash or a call that does not return is seen from outside.
"""
import collections
import gc
import hashlib
import json
import mmap
import os
import random
import signal
import struct
import sys
import threading
import time

PROFILE, OUT, PKG = sys.argv[1:4]
SCEN = sys.argv[4] if len(sys.argv) > 4 else None
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
SHARDS = int(os.environ.get("SHARDS", "8"))
HANG_S = float(os.environ.get("HANG_S", "20"))
WORKERS = 8
HERE = os.path.dirname(os.path.abspath(__file__))

MAX = 0x10FFFF
ABBREV = ("Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No "
          "Po So Zp Co Zs Mc Cs Lt Cn Lu").split()
MAJOR = "L M N P S Z C".split()
VERSIONS = ("9.0.0 10.0.0 11.0.0 12.0.0 12.1.0 13.0.0 14.0.0 15.0.0 15.1.0 16.0.0 17.0.0").split()
QUERY_ARGS = ("categories", "exclude_categories", "include_characters", "exclude_characters",
              "min_codepoint", "max_codepoint", "version")

# ------------------------------------------------------------------ signs of life

SLOT = 8192
LIFE = mmap.mmap(-1, SLOT * WORKERS)
ME = 0
BEAT = 0


def begin(what):
    """A call is about to be made."""
    global BEAT
    BEAT += 1
    raw = what.encode("utf-8", "backslashreplace")[: SLOT - 64]
    off = ME * SLOT
    LIFE[off:off + 24] = struct.pack("<QdII", BEAT, time.monotonic(), 1, len(raw))
    LIFE[off + 64:off + 64 + len(raw)] = raw


def end():
    off = ME * SLOT
    LIFE[off:off + 24] = struct.pack("<QdII", BEAT, time.monotonic(), 0, 0)


# ------------------------------------------------------------------ argument values and replies

U = None  # the package
EXC = (("TypeError", TypeError), ("OverflowError", OverflowError), ("ValueError", ValueError),
       ("AttributeError", AttributeError), ("KeyError", KeyError), ("RuntimeError", RuntimeError),
       ("MemoryError", MemoryError), ("RecursionError", RecursionError))


class Planned(Exception):
    """Raised by argument objects of ours."""


def load():
    global U
    if U is None:
        sys.path.insert(0, PKG)
        import unicode_intervals
        U = unicode_intervals
    return U


def n32(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def cps(s):
    return [ord(c) for c in s]


def class_of(e):
    if isinstance(e, Planned):
        return "Planned"
    for name, c in EXC:
        if isinstance(e, c):
            return name
    return type(e).__name__


def failure(e, strings):
    try:
        msg = str(e)
    except Exception:
        msg = ""
    says = []
    for s in strings:
        if s in msg:
            says.append(s)
    return {"exc": class_of(e), "says": says, "msg": msg[:4000]}


def version_no(v):
    """Number of the version a member is equal to, found through the attributes of the class."""
    for i, name in enumerate(VERSIONS):
        if getattr(U.UnicodeVersion, "V" + name.replace(".", "_")) == v:
            return i + 1
    return 0


class V:
    """An argument value: how it is written down and how it is made."""

    def __init__(self, rec, make):
        self.rec = rec
        self.make = make


ABSENT = V({"k": "absent"}, None)
NONE = V({"k": "none"}, lambda: None)


class OwnIterable:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class OwnSequence:
    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]

    def __len__(self):
        return len(self.xs)


class OwnIterator:
    def __init__(self, xs):
        self.it = iter(list(xs))

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


class Hinting:
    """An iterable that also tells (wrongly) how long it is."""

    def __init__(self, xs, n, name):
        self.xs = xs
        self.n = n
        self.name = name

    def __iter__(self):
        return HintingIterator(self.xs, self.n) if self.name == "hint" else iter(self.xs)

    def __len__(self):
        return self.n


class HintingIterator(OwnIterator):
    def __init__(self, xs, n):
        super().__init__(xs)
        self.n = n

    def __length_hint__(self):
        return self.n


def telling(base, xs):
    """A container of a subclass that iterates over other things than it holds."""
    held = dict.fromkeys(["Sc", "Lt"]) if issubclass(base, dict) else ["Sc", "Lt"]
    return type("Telling", (base,), {"__iter__": lambda self: iter(list(xs))})(held)


class Str(str):
    pass


class Int(int):
    pass


class Index:
    def __init__(self, x):
        self.x = x

    def __index__(self):
        return self.x


def generator(xs):
    for x in xs:
        yield x


CONTAINERS = {
    "list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "generator": generator, "iter": lambda x: iter(list(x)),
    "dict": dict.fromkeys, "keys": lambda x: dict.fromkeys(x).keys(), "values": lambda x: dict(enumerate(x)).values(),
    "deque": collections.deque, "map": lambda x: map(str, x), "filter": lambda x: filter(None, list(x)),
    "own iterable": OwnIterable, "own sequence": OwnSequence, "own iterator": OwnIterator,
    "str subclasses": lambda x: [Str(s) for s in x], "list subclass": lambda x: type("L", (list,), {})(x),
    "reversed": lambda x: reversed(list(x)), "chain": lambda x: __import__("itertools").chain(x[:1], x[1:]),
    "userlist": collections.UserList,
    "short length": lambda x: Hinting(x, 1, "len"), "long length": lambda x: Hinting(x, 1000, "len"),
    "short hint": lambda x: Hinting(x, 1, "hint"), "long hint": lambda x: Hinting(x, 1000, "hint"), "dict subclass": lambda x: collections.OrderedDict.fromkeys(x),
    "telling list": lambda x: telling(list, x), "telling tuple": lambda x: telling(tuple, x), "telling set": lambda x: telling(set, x),
    "telling frozenset": lambda x: telling(frozenset, x), "telling dict": lambda x: telling(dict, x), "telling deque": lambda x: telling(collections.deque, x),
    "counter": collections.Counter, "chain map": lambda x: collections.ChainMap(dict.fromkeys(x)),
}
DEDUP = ("set", "frozenset", "dict", "keys", "dict subclass", "counter", "chain map")
ORDERED = [k for k in CONTAINERS if k not in DEDUP + ("reversed", "filter")]


def names(xs, container="list"):
    xs = list(xs)
    rec = list(dict.fromkeys(xs)) if container in DEDUP else (xs[::-1] if container == "reversed" else xs)
    if container == "filter":
        rec = [x for x in xs if x]
    return V({"k": "names", "xs": rec, "as": container}, lambda: CONTAINERS[container](xs))


def chars(s):
    return V({"k": "chars", "xs": cps(s)}, lambda: s)


def text(s):
    return V({"k": "text", "s": s}, lambda: s)


def integer(x, how=lambda x: x):
    if 0 <= x < 1 << 32:
        return V({"k": "int", "x": n32(x)}, lambda: how(x))
    return V({"k": "big", "s": str(x)}, lambda: how(x))


WAYS = ("attribute", "parsed", "available", "latest")


def version(i, way="attribute"):
    """Version number i (from 1)."""
    name = VERSIONS[i - 1]

    def make():
        if way == "parsed":
            return U.UnicodeVersion(name)
        if way == "available":
            return U.available_versions[i - 1]
        if way == "latest" and i == len(VERSIONS):
            return U.UnicodeVersion.latest()
        return getattr(U.UnicodeVersion, "V" + name.replace(".", "_"))

    return V({"k": "ver", "x": i, "way": way}, make)


def bad(label, make):
    return V({"k": "bad", "s": label}, make)


def surr(label, make):
    return V({"k": "surr", "s": label}, make)


def given(args):
    return {k: v.make() for k, v in args.items() if v is not ABSENT}


def recorded(args, every):
    return {k: args.get(k, ABSENT).rec for k in every}


def strings_in(recs):
    out = []
    for r in recs:
        if r["k"] == "names":
            out += r["xs"]
        elif r["k"] == "text":
            out.append(r["s"])
    return list(dict.fromkeys(out))


def call(what, strings, f, shape):
    """Runs f; the reply is what shape makes of its value, or the failure."""
    begin(what)
    try:
        try:
            x = f()
        finally:
            end()
    except BaseException as e:  # a panic is not an Exception
        return failure(e, strings), None
    try:
        return shape(x), x
    except Exception as e:
        return {"odd": f"{type(e).__name__}: {e}"[:300]}, x


# shapes

def as_intervals(x):
    if type(x) is not tuple:
        return {"odd": "not a tuple: " + type(x).__name__}
    for p in x:
        if type(p) is not tuple or len(p) != 2 or any(type(i) is not int for i in p):
            return {"odd": "not a pair of integers: " + repr(p)[:200]}
    return {"ok": [list(p) for p in x]}


def as_names(x):
    if type(x) is not tuple:
        return {"odd": "not a tuple: " + type(x).__name__}
    if any(type(s) is not str for s in x):
        return {"odd": "not strings: " + repr(x)[:200]}
    return {"ok": list(x)}


# calls

def q_line(args):
    rec = recorded(args, QUERY_ARGS)
    kw = given(args)
    r, _ = call("query " + json.dumps(rec), strings_in(rec.values()), lambda: U.query(**kw), as_intervals)
    return {"op": "pyquery", "a": rec, "r": r}


def expand_line(cats, ver=ABSENT, keyword=False):
    args = {"categories": cats, "version": ver}
    rec = recorded(args, ("categories", "version"))
    kw = given(args)

    def f():
        if keyword:
            return U.as_general_categories(**kw)
        return U.as_general_categories(*kw.values())

    r, _ = call("as_general_categories " + json.dumps(rec), strings_in(rec.values()), f, as_names)
    return {"op": "pyexpand", "a": rec, "r": r}


HELD = []    # every listing handed out, kept alive so that identities stay distinct


def steady(ask, n=70_000):
    """The same call very often: the first reply, and those unlike it."""
    first = ask()
    out = [first]
    for _ in range(n):
        again = ask()
        if again != first:
            out.append(again)
            if len(out) > 3:
                break
    return out


def identity(x):
    for i, y in enumerate(HELD):
        if y is x:
            return i + 1
    HELD.append(x)
    return len(HELD)


def list_line(ver=ABSENT, keyword=False):
    rec = ver.rec
    args = () if ver is ABSENT else (ver.make(),)

    def f():
        if keyword and args:
            return U.categories(version=args[0])
        return U.categories(*args)

    r, x = call("categories " + json.dumps(rec), [], f, as_names)
    if "ok" in r:
        r["id"] = identity(x)
    return {"op": "pylist", "a": rec, "r": r}


def parse_line(v, keyword=False):
    arg = v.make()
    r, _ = call("UnicodeVersion " + json.dumps(v.rec), strings_in([v.rec]),
                lambda: U.UnicodeVersion(value=arg) if keyword else U.UnicodeVersion(arg), lambda x: {"ok": version_no(x)})
    return {"op": "pyparse", "a": v.rec, "r": r}


def member_line(v):
    x = v.make()
    r, _ = call("str, repr " + json.dumps(v.rec), [], lambda: [str(x), repr(x)], lambda s: {"ok": s})
    return {"op": "pymember", "v": v.rec["x"], "way": v.rec["way"], "r": r}


def eq_line(v, w):
    x, y = v.make(), w.make()
    r, _ = call(f"== {v.rec} {w.rec}", [], lambda: [int(x == y), int(x != y)], lambda s: {"ok": s})
    return {"op": "pyeq", "v": v.rec["x"], "w": w.rec["x"], "ways": [v.rec["way"], w.rec["way"]], "r": r}


def avail_line():
    def f():
        ms = [a for a in vars(U.UnicodeVersion) if isinstance(getattr(U.UnicodeVersion, a), U.UnicodeVersion)]
        if type(U.available_versions) is not tuple:
            return [], 0, 0
        return [version_no(v) for v in U.available_versions], len(ms), version_no(U.UnicodeVersion.latest())

    r, _ = call("available_versions", [], f, lambda x: {"ok": x[0], "members": x[1], "latest": x[2]})
    return {"op": "pyavail", "r": r}


def raises_line(label, f, classes):
    r, _ = call(label, [], f, lambda x: {"value": repr(x)[:300]})
    return {"op": "pyraises", "what": label, "any": classes, "r": r}


def mutate_line(label, f):
    r, _ = call(label, [], f, lambda x: {"value": repr(x)[:300]})
    return {"op": "pymutate", "what": label, "r": r}


# ------------------------------------------------------------------ choosing arguments

class Pools:
    def __init__(self):
        with open(os.path.join(HERE, "..", "spec", "data", "ucd_runs.json")) as f:
            self.runs = json.load(f)
        self.cats = {v: {} for v in range(11)}

    def point(self, r, v):
        k = r.randrange(10)
        if k < 5:
            run = r.choice(self.runs[v])
            return max(0, min(MAX, run[r.randrange(2)] + r.choice((-1, 0, 0, 1))))
        if k < 7:
            return r.choice((0, 1, 9, 10, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 254, 255, 256, 257, 0xD7FF, 0xD800,
                             0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFD, 0x10FFFE, MAX))
        if k < 8:
            return r.randrange(300)
        return r.randrange(MAX + 1)

    def bounds(self, r, v):
        k = r.randrange(8)
        if k == 0:
            return ABSENT, ABSENT
        a, b = self.point(r, v), self.point(r, v)
        if k == 1:
            b = min(MAX, a + r.randrange(300))
        if k == 2:
            a, b = r.randrange(256), r.randrange(256)
        if a > b and r.randrange(20):
            a, b = b, a
        if k == 3:
            return ABSENT, integer(b)
        if k == 4:
            return integer(a), ABSENT
        if k == 5 and r.randrange(4) == 0:
            return integer(r.choice((MAX + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, a))), integer(r.choice((b, MAX + 1, (1 << 32) - 1)))
        return integer(a), integer(b)

    def text(self, r, v):
        k = r.randrange(8)
        n = r.choice((0, 1, 1, 2, 3, 5, 9, 30)) if r.randrange(6) else r.choice((31, 33, 63, 64, 65, 127, 129, 200, 255, 256, 257, 300, 520, 1030))
        out = []
        a = self.point(r, v)
        step = r.choice((1, 1, 2, 3, 64))
        for i in range(n):
            if k < 2:
                c = a + i * step            # a run, or points at equal distances
            elif k == 2:
                c = r.randrange(300)
            elif k == 3:
                c = a - i                   # downwards
            else:
                c = self.point(r, v)
            if not 0 <= c <= MAX or 0xD800 <= c < 0xE000:
                continue
            out.append(chr(c))
        if k == 4:
            out += out
            r.shuffle(out)
        return "".join(out)

    def near(self, r, args):
        """The same question but for a small change."""
        v = (args["version"].rec.get("x") or 11) - 1
        args = dict(args)
        for _ in range(r.choice((1, 1, 1, 2))):
            k = r.randrange(9)
            if k == 0:
                args["version"] = version(r.randrange(11) + 1, r.choice(WAYS))
            elif k in (1, 2):
                n = ("categories", "exclude_categories")[k - 1]
                rec = args.get(n, ABSENT).rec
                xs = list(rec["xs"]) if rec["k"] == "names" else []
                j = r.randrange(4)
                if xs and j == 0:
                    xs.pop(r.randrange(len(xs)))
                elif j == 1:
                    xs.insert(r.randrange(len(xs) + 1), r.choice(ABBREV))
                elif xs and j == 2:
                    xs[r.randrange(len(xs))] = r.choice(ABBREV)
                else:
                    r.shuffle(xs)
                args[n] = names(xs)
            elif k in (3, 4):
                n = ("include_characters", "exclude_characters")[k - 3]
                rec = args.get(n, ABSENT).rec
                xs = [chr(c) for c in rec["xs"]] if rec["k"] == "chars" else []
                j = r.randrange(4)
                if xs and j == 0:
                    xs.pop(r.randrange(len(xs)))
                elif j == 1:
                    xs.insert(r.randrange(len(xs) + 1), (self.text(r, v) or "a")[0])
                elif j == 2:
                    xs = xs[::-1]
                else:
                    xs += xs
                args[n] = chars("".join(xs[:1200]))
            elif k in (5, 6):
                n = ("min_codepoint", "max_codepoint")[k - 5]
                rec = args.get(n, ABSENT).rec
                x = rec["x"] if rec["k"] == "int" else self.point(r, v)
                x += r.choice((-256, -64, -1, 1, 64, 256, 0x10000))
                args[n] = integer(max(0, min(x, MAX)))
            elif k == 7:
                args["categories"], args["exclude_categories"] = args.get("exclude_categories", ABSENT), args.get("categories", ABSENT)
            else:
                args["include_characters"], args["exclude_characters"] = args.get("exclude_characters", ABSENT), args.get("include_characters", ABSENT)
        return args

    def names(self, r):
        k = r.randrange(8)
        if k == 0:
            return []
        if k == 1:
            return [r.choice(ABBREV)]
        if k == 2:
            return r.sample(ABBREV, 2)
        if k == 3:
            xs = r.sample(ABBREV, r.randrange(20, 31))
            return xs
        if k == 4:
            m = r.choice(("L", "M", "N", "P", "S", "Z", "C"))
            return [c for c in ABBREV if c[0] == m]
        if k == 5:
            xs = r.choices(ABBREV, k=6)
            return xs
        return r.sample(ABBREV, r.randrange(1, 9))

    def some_names(self, r):
        k = r.randrange(10)
        if k < 3:
            return ABSENT
        if k == 3:
            return NONE
        return names(self.names(r), r.choice(ORDERED) if r.randrange(4) == 0 else "list")

    def query(self, r):
        v = r.randrange(11)
        args = {"categories": self.some_names(r), "exclude_categories": self.some_names(r)}
        args["min_codepoint"], args["max_codepoint"] = self.bounds(r, v)
        if r.randrange(6) == 0:
            args["min_codepoint"] = NONE
        if r.randrange(6) == 0:
            args["max_codepoint"] = NONE
        for n in ("include_characters", "exclude_characters"):
            if r.randrange(2):
                args[n] = chars(self.text(r, v))
        if r.randrange(5) == 0 and "include_characters" in args:
            args["exclude_characters"] = args["include_characters"]
        args["version"] = r.choice((ABSENT, NONE)) if r.randrange(6) == 0 else version(v + 1, r.choice(WAYS))
        return args


# sweeps: one call for every argument value, written down as segments (module Sweeps of the specification)

class Segs:
    def __init__(self):
        self.out, self.odd = [], []

    def put(self, x, kind, k):
        out = self.out
        if out and kind <= 1:
            g = out[-1]
            if g[2] == kind and g[3] == k and g[1] + 1 == x:
                g[1] = x
                return
        out.append([x, x, kind, k])

    def strange(self, x, what):
        if len(self.odd) < 3:
            self.odd.append(f"{x}: {what!r}"[:300])


def cat_opt(cats):
    return [] if cats is None else [[ABBREV.index(c) + 1 for c in cats]]


def sweep_line(op, v, inc, exc, lo, hi, a, b, pre="", suf="", both=False):
    """op for every x in a .. b on the query (v, inc, exc, lo, hi)."""
    add, dele = op == "addsweep", op == "delsweep"
    base = {"version": version(v).make()}
    if inc is not None:
        base["categories"] = inc
    if exc is not None:
        base["exclude_categories"] = exc
    if lo and op != "minsweep" and op != "singles":
        base["min_codepoint"] = lo
    if hi != MAX and op != "maxsweep" and op != "singles":
        base["max_codepoint"] = hi
    j = {"v": v, "inc": cat_opt(inc), "exc": cat_opt(exc), "ich": [cps(pre + suf)] if add and pre + suf else [],
         "xch": [cps(pre + suf)] if dele and pre + suf else [], "min": lo, "max": hi}
    head = {"op": op, "q": j, "from": a, "to": b, "full": 1}
    begin(op + " " + json.dumps(head))
    query = U.query
    s = Segs()
    now = {"include_characters": pre + suf} if add else {"exclude_characters": pre + suf} if dele else {}
    if op == "minsweep":
        now["min_codepoint"] = lo
    if op == "maxsweep":
        now["max_codepoint"] = hi
    B = None if op == "singles" else query(**base, **now)
    nb = 0 if B is None else len(B)
    lap = 0
    for x in range(a, b + 1):
        if (add or dele) and 0xD800 <= x < 0xE000:
            continue
        lap += 1
        if lap & 0xFFF == 0:
            begin(op + " " + json.dumps(head))
        try:
            if op == "singles":
                r = query(min_codepoint=x, max_codepoint=x, **base)
            elif op == "maxsweep":
                r = query(max_codepoint=x, **base)
            elif op == "minsweep":
                r = query(min_codepoint=x, **base)
            elif add:
                r = query(include_characters=pre + chr(x) + suf, **base)
            elif both:
                r = query(include_characters=chr(x), exclude_characters=pre + chr(x) + suf, **base)
            else:
                r = query(exclude_characters=pre + chr(x) + suf, **base)
        except BaseException as e:
            s.strange(x, e)
            continue
        if type(r) is not tuple:
            s.strange(x, r)
            continue
        m = len(r)
        if op == "singles":
            if r == ((x, x),):
                s.put(x, 0, 0)
            elif r != ():
                s.strange(x, r)
            continue
        if op == "maxsweep":
            if r == B[:m]:
                s.put(x, 0, m)
            elif m and m <= nb and r[:m - 1] == B[:m - 1] and r[m - 1] == (B[m - 1][0], x):
                s.put(x, 1, m)
            else:
                s.strange(x, r)
            continue
        if op == "minsweep":
            k = nb - m
            if k >= 0 and r == B[k:]:
                s.put(x, 0, k)
            elif k >= 0 and m and r[1:] == B[k + 1:] and r[0] == (x, B[k][1]):
                s.put(x, 1, k + 1)
            else:
                s.strange(x, r)
            continue
        if r == B:
            s.put(x, 0, 0)
            continue
        p = 0
        n = min(m, nb)
        while p < n and r[p] == B[p]:
            p += 1
        if add:
            if m == nb + 1 and r[p] == (x, x) and r[p + 1:] == B[p:]:
                s.put(x, 1, p)
            elif m == nb and r[p + 1:] == B[p + 1:] and r[p] == (B[p][0], x):
                s.put(x, 2, p + 1)
            elif m == nb and r[p + 1:] == B[p + 1:] and r[p] == (x, B[p][1]):
                s.put(x, 3, p)
            elif m + 1 == nb and p < m and r[p + 1:] == B[p + 2:] and r[p] == (B[p][0], B[p + 1][1]):
                s.put(x, 4, p + 1)
            else:
                s.strange(x, r)
        elif m == nb + 1 and p < nb and r[p:p + 2] == ((B[p][0], x - 1), (x + 1, B[p][1])) and r[p + 2:] == B[p + 1:]:
            s.put(x, 1, p + 1)
        elif m == nb and r[p + 1:] == B[p + 1:] and r[p] == (x + 1, B[p][1]):
            s.put(x, 2, p + 1)
        elif m == nb and r[p + 1:] == B[p + 1:] and r[p] == (B[p][0], x - 1):
            s.put(x, 3, p + 1)
        elif m + 1 == nb and r[p:] == B[p + 1:] and B[p] == (x, x):
            s.put(x, 4, p + 1)
        else:
            s.strange(x, r)
    end()
    if op == "singles":
        return {"op": op, "v": v, "inc": j["inc"], "exc": j["exc"], "runs": [g[:2] for g in s.out], "odd": s.odd}
    return dict(head, b=[list(p) for p in B], segs=s.out, odd=s.odd)


# ------------------------------------------------------------------ profiles: lists of (fresh interpreter?, job)

def c19(p):
    jobs = []

    def single(v):
        def job(_):
            out = [[q_line({"version": version(v, w), "categories": names([c])})] for c in ABBREV for w in ("attribute",)]
            out += [[q_line({"version": version(v), "exclude_categories": names([c])})] for c in ABBREV[v % 5::5]]
            return out
        return job

    for v in range(1, 12):
        jobs.append((False, single(v)))

    def subsets(i):
        # every way of giving, omitting and emptying each argument
        def job(_):
            r = random.Random(SEED * 1000 + i)
            v = i % 11
            out = []
            vals = {
                "categories": (ABSENT, NONE, names([]), names(p.names(r)), names(ABBREV)),
                "exclude_categories": (ABSENT, NONE, names([]), names(p.names(r)), names(ABBREV)),
                "include_characters": (ABSENT, chars(""), chars(p.text(r, v))),
                "exclude_characters": (ABSENT, chars(""), chars(p.text(r, v))),
                "min_codepoint": (ABSENT, NONE, integer(0), integer(p.point(r, v) // 2)),
                "max_codepoint": (ABSENT, NONE, integer(MAX), integer(p.point(r, v) // 2 + 0x80000)),
                "version": (ABSENT, NONE, version(v + 1)),
            }
            for _ in range(60):
                args = {k: r.choice(xs) for k, xs in vals.items()}
                out.append([q_line(args)])
            return out
        return job

    def low(i):
        # below 256 another representation is used
        def job(_):
            r = random.Random(SEED * 7000 + i)
            out = []
            for _ in range(60):
                a, b = sorted((r.randrange(257), r.randrange(257)))
                args = {"version": version(r.randrange(11) + 1), "categories": p.some_names(r), "exclude_categories": p.some_names(r),
                        "min_codepoint": integer(a), "max_codepoint": integer(b)}
                for k in ("include_characters", "exclude_characters"):
                    if r.randrange(2):
                        args[k] = chars("".join(chr(r.randrange(258)) for _ in range(r.randrange(6))))
                out.append([q_line(args)])
            return out
        return job

    def mixed(i):
        def job(_):
            r = random.Random(SEED * 100000 + i)
            return [[q_line(p.query(r))] for _ in range(50)]
        return job

    def large(i):
        # very many isolated characters
        def job(_):
            cs = [chr(0x20000 + 2 * k) for k in range((40_000, 70_000)[i % 2])]
            random.Random(SEED * 5000 + i).shuffle(cs)
            key = ("include_characters", "exclude_characters")[i // 2 % 2]
            return [[q_line({"categories": names(["Lo"][i % 2:]), key: chars("".join(cs)), "version": version(i % 11 + 1)})]]
        return job

    for i in range(12 if THOROUGH else 2):
        jobs.append((False, large(i)))

    def often(i):
        def job(_):
            r = random.Random(SEED * 5500 + i)
            args = [{"categories": names([r.choice(ABBREV)]), "min_codepoint": integer(0), "max_codepoint": integer(255 + 300 * (i % 2)),
                     "include_characters": chars("\u2603" * (i % 3)), "version": version(r.randrange(11) + 1)},
                    {"categories": names([]), "exclude_characters": chars("ab"), "include_characters": chars("abc")}]
            return [steady(lambda: q_line(a)) for a in args]
        return job

    for i in range(6 if THOROUGH else 2):
        jobs.append((True, often(i)))

    def chain(i):
        # questions that differ little, one after the other, now and then an earlier one again
        def job(_):
            r = random.Random(SEED * 4000 + i)
            out, asked = [], []
            q = p.query(r)
            if i % 2:
                q["min_codepoint"], q["max_codepoint"] = integer(r.randrange(200)), integer(200 + r.randrange(2000))
            held = {}
            for _ in range(40):
                asked.append(q)
                for k, v in list(q.items()):
                    # one list object for all designations given, changed in between
                    if v.rec["k"] == "names" and v.rec["as"] == "list" and r.randrange(3) == 0:
                        held.setdefault(k, [])[:] = v.rec["xs"]
                        q = dict(q)
                        q[k] = V(v.rec, lambda k=k: held[k])
                out.append(q_line(q))
                q = asked[-1]
                k = r.randrange(6)
                q = r.choice(asked) if k == 0 else p.near(r, q)
                if k == 1:
                    out.append(expand_line(names([r.choice(MAJOR)]), q.get("version", ABSENT)))
                if k == 2:
                    out.append(q_line({"categories": names(["Nope"])}))
            return [out]
        return job

    def repeats(i):
        # long lists of few different names, some of which first appear late
        def job(_):
            r = random.Random(SEED * 4700 + i)
            out = []
            for _ in range(30):
                few = r.sample(ABBREV, r.randrange(1, 6))
                late = r.sample([c for c in ABBREV if c not in few], r.randrange(0, 4))
                n = r.choice((16, 30, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 600))
                xs = [r.choice(few) for _ in range(n)]
                ys = late + [r.choice(few) for _ in range(r.choice((0, 0, 1, 3, 40)))]
                r.shuffle(ys)
                way = r.choice(ORDERED)
                key = r.choice(("categories", "categories", "exclude_categories"))
                out.append([q_line({key: names(xs + ys, way), "version": version(r.randrange(11) + 1),
                                    "max_codepoint": integer(r.choice((200, 255, 256, 1500, 12000)))})])
                out.append([expand_line(names(xs + r.sample(MAJOR, r.randrange(3)) + ys, way), version(r.randrange(11) + 1))])
            return out
        return job

    for i in range(60 if THOROUGH else 6):
        jobs.append((False, repeats(i)))

    def at_once(i):
        # the same and different questions from several threads
        def job(_):
            r = random.Random(SEED * 4500 + i)
            qs = []
            for _ in range(4):
                q = p.query(r)
                q["min_codepoint"], q["max_codepoint"] = integer(r.randrange(200)), integer(200 + r.randrange(2000))
                qs += [q, p.near(r, q)]
            got = []
            n = r.randrange(2, 7)
            start = threading.Barrier(n)
            old = sys.getswitchinterval()
            sys.setswitchinterval(r.choice((1e-6, 1e-5, 1e-4)))

            def body(t):
                rr = random.Random(i * 10 + t)
                start.wait()
                for _ in range(12):
                    q = rr.choice(qs)
                    kw = given(q)
                    rec = recorded(q, QUERY_ARGS)
                    try:
                        got.append((rec, U.query(**kw), None))
                    except BaseException as e:
                        got.append((rec, None, failure(e, strings_in(rec.values()))))

            begin("threads asking " + json.dumps([recorded(q, QUERY_ARGS) for q in qs])[:4000])
            ts = [threading.Thread(target=body, args=(t,)) for t in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            end()
            sys.setswitchinterval(old)
            return [[{"op": "pyquery", "a": rec, "r": err or as_intervals(x)}] for rec, x, err in got]
        return job

    def sweep(i):
        # every code point alone, every bound, every character included, every character excluded
        def job(_):
            r = random.Random(SEED * 4700 + i)
            v = r.randrange(11) + 1
            few = [r.choice(("Zs", "Pc", "Pd", "Sc", "Pi", "Nl"))]
            some = r.sample(ABBREV, r.randrange(1, 12))
            pre, suf = r.choice((("", ""), ("a", ""), ("", "\xe9"), ("\U0010ffffq", "\u03b1"), ("the quick fox", "")))
            k = i % 8
            if k == 0:
                return [[sweep_line("singles", v, *r.choice(((some, None), (None, some), (some, few))), 0, MAX, 0, MAX)]]
            if k == 1:
                return [[sweep_line("maxsweep", v, few, None, 0, MAX, 0, MAX)]]
            if k == 2:
                return [[sweep_line("minsweep", v, few, None, 0, MAX, 0, MAX)]]
            if k in (3, 4):
                inc = [] if k == 3 else few
                return [[sweep_line("addsweep", v, inc, None, 0, MAX, 0, MAX, pre, suf)]]
            if k in (5, 6):
                inc = None if k == 5 else few
                return [[sweep_line("delsweep", v, inc, None, 0, MAX, 0, MAX, pre, suf, r.randrange(2) == 1)]]
            # small ranges
            lo, hi = sorted((r.randrange(300), r.randrange(300)))
            return [[sweep_line("addsweep", v, some, few, lo, hi, 0, 700, pre, suf)],
                    [sweep_line("delsweep", v, some, None, lo, hi, 0, 700, pre, suf)],
                    [sweep_line("maxsweep", v, some, few, lo, lo + 700, lo, lo + 700)],
                    [sweep_line("minsweep", v, some, few, lo, lo + 700, lo, lo + 700)]]
        return job

    jobs += [(False, sweep(i)) for i in range(96 if THOROUGH else 16)]
    jobs += [(bool(i % 3 == 0), chain(i)) for i in range(800 if THOROUGH else 48)]
    jobs += [(True, at_once(i)) for i in range(200 if THOROUGH else 16)]
    jobs += [(False, subsets(i)) for i in range(110 if THOROUGH else 11)]
    jobs += [(False, low(i)) for i in range(200 if THOROUGH else 20)]
    jobs += [(False, mixed(i)) for i in range(1600 if THOROUGH else 40)]
    return jobs


# ------------------------------------------------------------------ C18

def plain_answer(kind, args):
    """One answer, without what is not part of it."""
    if kind == "query":
        return q_line(args)["r"]
    if kind == "expand":
        return expand_line(args["categories"], args.get("version", ABSENT))["r"]
    if kind == "list":
        return {k: x for k, x in list_line(args.get("version", ABSENT))["r"].items() if k != "id"}
    if kind == "member":
        return member_line(args["version"])["r"]
    if kind == "avail":
        return avail_line()["r"]
    return parse_line(args["value"])["r"]


SURROUNDINGS = [{}] + [
    dict([(a + "_" + b, x) for a in ("UNICODE_INTERVALS", "UNICODE", "UCD", "PYTHON_UNICODE")
          for b, x in (("VERSION", v), ("DEFAULT_VERSION", v), ("CACHE", "1"), ("NO_CACHE", "1"), ("DEBUG", "1"), ("STRICT", "1"),
                       ("LEGACY", "1"), ("MAX_CODEPOINT", "65535"))],
         LANG=lang, LC_ALL=lang, TZ="Pacific/Apia", DEBUG="1", CI="true", RUST_BACKTRACE="full", HOME="/", TMPDIR="/nowhere")
    for v, lang in (("9.0.0", "C"), ("12.1.0", "tr_TR.UTF-8"), ("16.0.0", "C.UTF-8"))]


def c18(p):
    def questions(r):
        qs = []
        for _ in range(8):
            q = p.query(r)
            family = [("query", q)]
            for _ in range(4):
                q = p.near(r, q)
                family.append(("query", q))
            # without the version there is a default
            if r.randrange(3) == 0:
                q = {k: v for k, v in q.items() if k != "version"}
            base = {k: v for k, v in q.items() if "codepoint" not in k}
            a, b = r.randrange(1, 300), r.choice((300, 0x3000, 0x10FFFE)) + r.randrange(2)
            good = [{}, {"max_codepoint": integer(a)}, {"max_codepoint": integer(b)}, {"min_codepoint": integer(a)}, {"min_codepoint": integer(b)},
                    {"min_codepoint": integer(a), "max_codepoint": integer(b)}]
            bad_ = [{"min_codepoint": integer(b), "max_codepoint": integer(a)}, {"min_codepoint": integer(a), "max_codepoint": integer(a - 1)},
                    {"min_codepoint": integer(MAX + b)}, {"max_codepoint": integer(MAX + a)}, {"max_codepoint": integer(-a)},
                    {"min_codepoint": integer(b), "max_codepoint": integer(b - 1)},
                    {"categories": names(["Lu", "Nope"])}, {"exclude_categories": names(["Lu", "Nope"])}]
            # after each failure a call with something in common with it
            for x in bad_:
                for y in r.sample(good, 3):
                    family += [("query", dict(base, **x)), ("query", dict(base, **y))]
            qs += family
            v = version(r.randrange(11) + 1)
            qs += [("list", {}), ("list", {"version": v}), ("member", {"version": v}), ("avail", {}),
                   ("expand", {"categories": names(r.sample(MAJOR, 2) + r.sample(ABBREV, 2))}),
                   ("expand", {"categories": names(r.sample(ABBREV, 2) + ["Nope"]), "version": v}),
                   ("parse", {"value": text(r.choice(VERSIONS))}), ("parse", {"value": text("17.0")})]
        return qs

    def key(q):
        return json.dumps([q[0], {k: v.rec for k, v in sorted(q[1].items())}])

    def asker(i, k, qs, out):
        """All questions, in the k-th order, in surroundings of its own; the package is not yet imported."""
        r = random.Random(SEED * 9000 + i * 100 + k)
        late = k % 4 == 3
        around = SURROUNDINGS[k % len(SURROUNDINGS)]
        if not late:
            os.environ.update(around)
        os.chdir(("/", OUT, "/")[k % 3])
        if k % 2:
            sys.argv[:] = ["x", "--version=9.0.0", "-v"]
        load()
        order = list(range(len(qs)))
        if k == 1:
            order.reverse()
        elif k > 1:
            # families stay together for the most part
            at = 0
            for _ in range(60):
                a, b = sorted((r.randrange(len(order)), r.randrange(len(order))))
                order[a:b] = order[b - 1:a - 1 if a else None:-1] if r.randrange(2) else order[a:b][1:] + order[a:b][:1]
            if k > 3:
                r.shuffle(order)
        seen = {}

        def ask(some):
            for j in some:
                a = plain_answer(*qs[j])
                a = {x: y for x, y in a.items() if x != "msg"}
                t = json.dumps(a, sort_keys=True)
                seen.setdefault(key(qs[j]), set()).add(t if len(t) < 300 else t[:250] + hashlib.sha1(t.encode()).hexdigest())

        ask(order)
        if late:
            os.environ.update(around)
            ask(order)
        if k % 2:
            ts = [threading.Thread(target=ask, args=(order[t::1] if t % 2 else order[::-1],)) for t in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        out.write(json.dumps({a: sorted(b) for a, b in seen.items()}).encode())

    def job_of(i):
        def job(_):
            r = random.Random(SEED * 9000 + i)
            qs = questions(r)
            firsts, others = {}, {}
            for k in range(16 if THOROUGH else 6):
                begin(f"questions {i}, order {k}")
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 9
                    try:
                        os.close(rd)
                        with os.fdopen(wr, "wb") as f:
                            asker(i, k, qs, f)
                        code = 0
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                os.close(wr)
                with os.fdopen(rd, "rb") as f:
                    data = f.read()
                _, st = os.waitpid(pid, 0)
                if os.WIFSIGNALED(st):
                    os.kill(os.getpid(), os.WTERMSIG(st))
                    time.sleep(5)
                if os.WEXITSTATUS(st) != 0:
                    raise RuntimeError("asker failed")
                for q, answers in json.loads(data).items():
                    for a in answers:
                        if q not in firsts:
                            firsts[q], others[q] = a, []
                        else:
                            others[q].append(a)
            end()
            return [[{"op": "pysame", "q": q, "first": {"text": firsts[q]},
                      "others": [{"text": a} for a in sorted(set(others[q]))]} for q in firsts]]
        return job

    return [("bare", job_of(i)) for i in range(160 if THOROUGH else 24)]


def c20(p):
    jobs = []
    scen = []
    if SCEN:
        with open(SCEN) as f:
            scen = [json.loads(x) for x in f if x.strip()]

    # A scenario is one list per thread: the versions asked for, 0 for the default.
    def history(i, threads):
        def job(_):
            r = random.Random(SEED * 31 + i)
            # the scenario's versions stand for any versions
            vs = r.sample(range(1, 12), 11)
            if i % 4 == 0:  # neighbours, and the latest next to the default
                k = r.randrange(11)
                vs = [(k + j) % 11 + 1 for j in range(11)]
            prog = [[0 if x == 0 else vs[x - 1] for x in t] for t in threads]
            if len(prog) == 1:
                return [sequential(r, prog[0])]
            return [concurrent(r, prog)]
        return job

    def arg(r, v):
        return (ABSENT if r.randrange(2) else NONE) if v == 0 else version(v, r.choice(WAYS))

    def sequential(r, prog):
        out = []
        for v in prog:
            k = r.randrange(8)
            if k == 0:
                out.append(expand_line(names([r.choice(MAJOR + ABBREV)]), arg(r, v)))
            elif k == 1:
                gc.collect()
            elif k == 2:
                out.append(q_line({"categories": names(["Lu"]), "min_codepoint": integer(0), "max_codepoint": integer(300), "version": arg(r, v)}))
            elif k == 3:
                out.append(parse_line(text(r.choice(VERSIONS + ["nope"]))))
            out.append(list_line(arg(r, v), keyword=bool(r.randrange(2))))
        return out

    def concurrent(r, prog):
        got = []
        args = [[arg(r, v) for v in t] for t in prog]
        start = threading.Barrier(len(prog))
        old = sys.getswitchinterval()
        sys.setswitchinterval(r.choice((1e-6, 1e-5, 1e-4)))

        def body(t):
            start.wait()
            for a in args[t]:
                xs = () if a is ABSENT else (a.make(),)
                try:
                    x = U.categories(*xs)
                    got.append((a.rec, x, None))
                except BaseException as e:
                    got.append((a.rec, None, failure(e, [])))

        begin("threads " + json.dumps([[a.rec for a in t] for t in args]))
        ts = [threading.Thread(target=body, args=(t,)) for t in range(len(prog))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        end()
        sys.setswitchinterval(old)
        out = []
        for rec, x, err in got:
            rr = err or as_names(x)
            if "ok" in rr:
                rr["id"] = identity(x)
            out.append({"op": "pylist", "a": rec, "r": rr})
        for v in {v for t in prog for v in t}:
            out.append(list_line(ABSENT if v == 0 else version(v)))
        return out

    jobs += [(True, history(i, s)) for i, s in enumerate(scen)]

    def long_history(i):
        def job(_):
            r = random.Random(SEED * 77 + i)
            return [sequential(r, [r.randrange(12) for _ in range(60)])]
        return job

    def crowd(i):
        def job(_):
            r = random.Random(SEED * 99 + i)
            k = r.randrange(3, 9)
            return [concurrent(r, [[r.randrange(12) if i % 2 else r.choice((i % 11 + 1, 0)) for _ in range(8)] for _ in range(k)])]
        return job

    jobs += [(True, long_history(i)) for i in range(600 if THOROUGH else 60)]
    jobs += [(True, crowd(i)) for i in range(1200 if THOROUGH else 120)]

    # expansions
    def all_designations(v):
        def job(_):
            out = [expand_line(names([d]), version(v)) for d in MAJOR + ABBREV]
            out.append(expand_line(names([]), version(v)))
            out.append(expand_line(names(MAJOR), version(v)))
            out.append(expand_line(names(ABBREV), version(v)))
            return [out]
        return job

    def some_designations(i):
        def job(_):
            r = random.Random(SEED * 55 + i)
            out = []
            for _ in range(60):
                n = r.choice((r.randrange(7),) * 5 + (8, 16, 17, 30, 31, 32, 33, 50, 64, 65, 100, 128, 256, 257))
                xs = [r.choice(MAJOR) if r.randrange(2) else r.choice(ABBREV) for _ in range(n)]
                if r.randrange(12) == 0:
                    xs.insert(r.randrange(len(xs) + 1), r.choice(("Q", "lu", "", "LC", "L ", "Lu\0")))
                ver = r.choice((ABSENT, NONE)) if r.randrange(6) == 0 else version(r.randrange(11) + 1, r.choice(WAYS))
                out.append([expand_line(names(xs, r.choice(ORDERED)), ver, keyword=bool(r.randrange(2)))])
            return out
        return job

    def in_turns(i):
        # few lists of designations and few versions, in turns; some lists are one object that changes
        def job(_):
            r = random.Random(SEED * 66 + i)
            some = [[r.choice(MAJOR + ABBREV) for _ in range(r.randrange(1, 4))] for _ in range(3)]
            some.append(list(reversed(some[0])))
            some.append(some[1] + ["Qq"])
            some.append([d.lower() for d in some[2]])
            one = []
            vs = [r.randrange(1, 12) for _ in range(3)]
            xs, v = some[0], vs[0]
            out = []
            for _ in range(60):
                if r.randrange(2):
                    xs = r.choice(some)
                else:
                    v = r.choice(vs + [0])
                ver = arg(r, v)
                if r.randrange(3) == 0:
                    one[:] = xs
                    cats = V({"k": "names", "xs": list(xs), "as": "the same list"}, lambda: one)
                else:
                    cats = names(xs, r.choice(ORDERED))
                out.append(expand_line(cats, ver, keyword=bool(r.randrange(2))))
                k = r.randrange(10)
                if k == 0:
                    out.append(list_line(arg(r, r.choice(vs))))
                elif k == 1:
                    out.append(q_line({"categories": cats if cats.rec["as"] == "the same list" else names(xs), "min_codepoint": integer(0),
                                       "max_codepoint": integer(r.randrange(900)), "version": ver}))
                elif k == 2:
                    out.append(parse_line(text(r.choice(VERSIONS + ["nope"]))))
            return [out]
        return job

    def expand_at_once(i):
        def job(_):
            r = random.Random(SEED * 67 + i)
            calls = []
            for _ in range(3):
                cats = names([r.choice(MAJOR + ABBREV) for _ in range(r.randrange(1, 4))])
                calls += [(cats, version(r.randrange(11) + 1)) for _ in range(2)]
            got = []
            n = r.randrange(2, 7)
            start = threading.Barrier(n)
            old = sys.getswitchinterval()
            sys.setswitchinterval(r.choice((1e-6, 1e-5, 1e-4)))

            def body(t):
                rr = random.Random(i * 10 + t)
                start.wait()
                for _ in range(25):
                    cats, ver = rr.choice(calls)
                    rec = {"categories": cats.rec, "version": ver.rec}
                    try:
                        got.append((rec, U.as_general_categories(cats.make(), ver.make()), None))
                    except BaseException as e:
                        got.append((rec, None, failure(e, cats.rec["xs"])))

            begin("threads expanding " + json.dumps([[c.rec, v.rec] for c, v in calls]))
            ts = [threading.Thread(target=body, args=(t,)) for t in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            end()
            sys.setswitchinterval(old)
            return [[{"op": "pyexpand", "a": rec, "r": err or as_names(x)} for rec, x, err in got]]
        return job

    def often(v):
        def job(_):
            return [steady(lambda: list_line(version(v) if v else ABSENT)), steady(lambda: expand_line(names(["N", "Lu"]), version(v or 11)))]
        return job

    jobs += [(True, often(v)) for v in (0, 1 + SEED % 11, 11)]
    jobs += [(False, in_turns(i)) for i in range(300 if THOROUGH else 24)]
    jobs += [(False, expand_at_once(i)) for i in range(200 if THOROUGH else 16)]
    jobs += [(False, all_designations(v)) for v in range(1, 12)]
    jobs += [(False, some_designations(i)) for i in range(300 if THOROUGH else 24)]
    return jobs


def odd_texts(r, base, count):
    """Strings near the given ones."""
    alphabet = "0123456789. vV\t\n\0-+_,LuCcnNsSzZ\u0661\uff11\u00b2\u3000\u200b\U0001d7cf"
    out = ["", " ", ".", "..", "0", "9", "17", "9.0", "17.0", "9.0.0.0", "09.0.0", "9.0.00", "15", "15.0", "15.1", "12.1", "12.1.1",
           "8.0.0", "18.0.0", "17.0.1", "99.0.0", "v9.0.0", "V9_0_0", "9_0_0", "latest", "9,0,0", "9.0.0\0", "9.0.0\n", " 9.0.0",
           "\uff19.0.0", "9\u3002\u0030.0", "\u0669.0.0", "1.0", "1", "None", "a" * 3000]
    out += [b + s for b in base for s in (" ", "\n", "\0", "0", ".", "x")]
    out += [s + b for b in base for s in (" ", "\n", "\0", "0", ".", "x", "v", "+")]
    out += [b[:k] for b in base for k in range(len(b))]
    out += [b[k:] for b in base for k in range(1, len(b))]
    while len(out) < count:
        s = list(r.choice(base))
        for _ in range(r.randrange(1, 3)):
            k = r.randrange(3)
            i = r.randrange(len(s) + 1)
            if k == 0:
                s.insert(i, r.choice(alphabet))
            elif s and i < len(s):
                if k == 1:
                    s[i] = r.choice(alphabet)
                else:
                    del s[i]
        out.append("".join(s))
    return list(dict.fromkeys(out))


def all_pairs(r, n):
    """A walk in which every ordered pair of 0..n-1 occurs in a row (and each twice in a row)."""
    left = {a: r.sample(range(n), n) for a in range(n)}
    stack, walk = [r.randrange(n)], []
    while stack:
        if left[stack[-1]]:
            stack.append(left[stack[-1]].pop())
        else:
            walk.append(stack.pop())
    return walk[::-1]


def c21(p):
    def in_turns(i):
        # the same question about every ordered pair of versions in a row
        def job(_):
            r = random.Random(SEED * 31 + i)
            ways = ("attribute", "parsed", "available")
            out = []
            for v in all_pairs(r, 11):
                x = version(v + 1, r.choice(ways))
                out.append([[member_line(x), parse_line(text(VERSIONS[v])), eq_line(x, version(v + 1, "parsed")),
                             q_line({"version": x, "categories": names(["Cn"]), "min_codepoint": integer(0x800), "max_codepoint": integer(0x1000)}),
                             list_line(x), expand_line(names(["N", "Z"]), x)][i]])
            return [[x[0] for x in out]]
        return job

    def members(_):
        out = [avail_line()]
        allv = [version(v, w) for v in range(1, 12) for w in ("attribute", "parsed", "available")] + [version(11, "latest")]
        out += [member_line(v) for v in allv]
        out += [eq_line(v, w) for v in allv for w in allv]
        for v in allv:
            def setit(x, name):
                def f():
                    setattr(x, name, 1)
                return f

            def delit(x, name):
                def f():
                    delattr(x, name)
                return f
            for name in ("value", "name", "V9_0_0", "V17_0_0", "latest", "__str__", "__repr__", "anything", "_x"):
                out.append(mutate_line(f"setattr {v.rec} {name}", setit(v.make(), name)))
                out.append(mutate_line(f"delattr {v.rec} {name}", delit(v.make(), name)))
            out.append(member_line(v))
        out.append(avail_line())
        return [out]

    def foreign(_):
        # a member is equal to nothing else
        out = []

        class Twin:
            def __init__(self, v):
                self.value, self.v = str(v), v

            def __str__(self):
                return str(self.v)

            def __int__(self):
                return 3

            def __index__(self):
                return 3

        for v in [version(v, w) for v in range(1, 12) for w in ("attribute", "parsed", "available")]:
            i = v.rec["x"] - 1
            m = v.make()
            others = [i, i + 1, float(i), complex(i), True, False, None, str(m), repr(m), str(m).encode(), "V" + str(m).replace(".", "_"),
                      str(m).replace(".", "_"), (m,), [m], {m: 1} if getattr(type(m), "__hash__", None) else {}, tuple(int(x) for x in str(m).split(".")),
                      type(m), object(), Twin(m), NotImplemented, ..., 0, -1, 2 ** 70, "", (), U, U.query]
            for o in others:
                for flip in (False, True):
                    def go(o=o, flip=flip):
                        a, b = (o, m) if flip else (m, o)
                        return [int(bool(a == b)), int(bool(a != b))]
                    r, _ = call(f"{v.rec} == {o!r:.80}", [], go, lambda s: {"ok": s})
                    out.append([{"op": "pyother", "v": v.rec["x"], "w": type(o).__name__, "what": repr(o)[:80], "r": r}])
        return out

    def parsed(i):
        def job(_):
            r = random.Random(SEED * 13 + i)
            xs = odd_texts(r, VERSIONS, 700 if not THOROUGH else 4000)
            return [[parse_line(text(s), keyword=bool(r.randrange(2)))] for s in xs[i::8]] + [[parse_line(text(s)) for s in VERSIONS]]
        return job

    def selects(v):
        # the data a member selects, however it was obtained
        def job(_):
            out = []
            for w in WAYS[:3] + (("latest",) if v == 11 else ()):
                out.append([q_line({"version": version(v, w), "categories": names(["Cn"])})])
                out.append([q_line({"version": version(v, w), "categories": names(["Lo", "So"])})])
                out.append([list_line(version(v, w))])
                out.append([expand_line(names(MAJOR), version(v, w))])
            if v == 11:
                for a in (ABSENT, NONE):
                    out.append([q_line({"version": a, "categories": names(["Cn"])})])
                    out.append([expand_line(names(MAJOR), a)])
            return out
        return job

    def often(i):
        def job(_):
            v = version(1 + (SEED + i) % 11)
            return [steady(lambda: parse_line(text(VERSIONS[(SEED + 3 * i) % 11]))), steady(lambda: parse_line(text("9.0"))),
                    steady(lambda: member_line(v)), steady(lambda: eq_line(v, version(11)))]
        return job

    return [(True, often(i)) for i in range(2)] + [(True, members), (False, foreign)] + [(True, in_turns(i)) for i in range(6)] + [(False, parsed(i)) for i in range(8)] + [(True, selects(v)) for v in range(1, 12)]


class Exploding:
    """An iterable that raises after some names."""

    def __init__(self, xs, exc):
        self.xs, self.exc = xs, exc

    def __iter__(self):
        if len(self.xs) == 1:
            return Stumbling(self.xs, self.exc)
        return self.steps()

    def steps(self):
        yield from self.xs
        raise self.exc


class Stumbling:
    """The same as an iterator that is no generator."""

    def __init__(self, xs, exc):
        self.left, self.exc = list(xs), exc

    def __iter__(self):
        return self

    def __next__(self):
        if self.left:
            return self.left.pop(0)
        raise self.exc


class ExplodingIter:
    def __iter__(self):
        raise Planned("iter")


class ExplodingIndex:
    def __index__(self):
        raise Planned("index")


class BadIter:
    def __iter__(self):
        return 5


def wrong_names():
    return [bad("int", lambda: 5), bad("float", lambda: 1.5), bad("object", object), bad("str", lambda: "Lu"), bad("empty str", lambda: ""),
            bad("str subclass", lambda: Str("Lu")), bad("bytes", lambda: b"Lu"), bad("list of int", lambda: [1, 2]),
            bad("list of None", lambda: [None]), bad("list of bytes", lambda: [b"Lu"]), bad("mixed", lambda: ["Lu", 3]),
            bad("nested", lambda: [["Lu"]]), bad("bool", lambda: True), bad("type", lambda: list), bad("function", lambda: len),
            bad("bad iter", BadIter), bad("range", lambda: range(3)), bad("bytearray", lambda: bytearray(b"Lu")),
            bad("dict of int", lambda: {1: "Lu"}), bad("version in list", lambda: [U.UnicodeVersion.V9_0_0])]


def wrong_ints():
    return [bad("str", lambda: "5"), bad("float", lambda: 1.0), bad("list", lambda: [1]), bad("object", object), bad("bytes", lambda: b"1"),
            bad("complex", lambda: 1j), bad("nan", lambda: float("nan")), bad("tuple", lambda: (1,)), bad("char", lambda: "a")]


def wrong_text():
    return [bad("int", lambda: 5), bad("None", lambda: None), bad("bytes", lambda: b"a"), bad("list", lambda: ["a"]), bad("object", object),
            bad("tuple", lambda: ()), bad("bytearray", lambda: bytearray(b"x"))]


def wrong_versions():
    return [bad("str", lambda: "9.0.0"), bad("int", lambda: 1), bad("float", lambda: 9.0), bad("object", object), bad("list", lambda: []),
            bad("class", lambda: U.UnicodeVersion), bad("tuple", lambda: (9, 0, 0)), bad("empty", lambda: "")]


def surrogates():
    return [surr("lone high", lambda: "\ud800"), surr("lone low", lambda: "a\udfff"), surr("pair", lambda: "\ud83d\ude00"),
            surr("inside", lambda: "abc\udc00def" * 50)]


BIG = [-1, 1 << 32, (1 << 32) + 5, -(1 << 31), 1 << 63, 1 << 64, -(1 << 64), 10 ** 40, (1 << 32) | 0x41, -(1 << 32)]
OKINT = [0, 1, 255, 256, MAX - 1, MAX, MAX + 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 1]


def c22(p):
    PROBE = {"categories": names(["Lu", "Nd"]), "max_codepoint": integer(400), "include_characters": chars("\u2603!")}

    def probe():
        return q_line(PROBE)

    def containers(i):
        def job(_):
            r = random.Random(SEED * 3 + i)
            out = []
            for c in CONTAINERS:
                for xs in ([], ["Lu"], ["Nd", "Lu"], r.sample(ABBREV, 5), ["Zs"] * 3, r.choices(ABBREV, k=40), ["Nd", "Nope"], ["nd"], ABBREV):
                    v = version(r.randrange(11) + 1)
                    rng = {"min_codepoint": integer(r.randrange(200)), "max_codepoint": integer(200 + r.randrange(3000)), "version": v}
                    out.append([q_line({"categories": names(xs, c), **rng})])
                    out.append([q_line({"exclude_categories": names(xs, c), **rng})])
                    out.append([expand_line(names(xs + ["N"], c), v)])
                    out.append([q_line({"categories": names(xs, c), "exclude_categories": names(ABBREV[:9], r.choice(list(CONTAINERS))), **rng})])
            return out
        return job

    def faults(_):
        # every kind of value for every argument, alone
        out = []
        vals = {
            "categories": wrong_names() + [NONE] + [names([x]) for x in ("Q", "lu", "LU", "", "Lu ", " Lu", "Luu", "L", "N", "Lu\0", "L\u0075\u0301",
                                                                           "\U0001f600", "Lu\n", "l", "uppercase_letter", "x" * 2000)],
            "min_codepoint": wrong_ints() + [NONE, integer(1, Int), bad_bool()] + [integer(x) for x in BIG + OKINT] + [integer(7, Index)],
            "include_characters": wrong_text() + surrogates() + [chars(Str("ab"))],
            "version": wrong_versions() + [NONE],
        }
        vals["exclude_categories"] = vals["categories"]
        vals["max_codepoint"] = vals["min_codepoint"]
        vals["exclude_characters"] = vals["include_characters"]
        for a, vs in vals.items():
            for v in vs:
                out.append([q_line({a: v}), probe()])
        for v in vals["categories"]:
            if v is not NONE:
                out.append([expand_line(v), probe()])
        for s in surrogates():
            out.append([q_line({"categories": V(s.rec, lambda s=s: [s.make()])}), probe()])
            out.append([expand_line(V(s.rec, lambda s=s: [s.make()])), probe()])
            out.append([expand_line(V(s.rec, lambda s=s: ["Lu", s.make()]), version(3)), probe()])
            out.append([parse_line(s), probe()])
        for v in wrong_versions():
            out.append([list_line(v), probe()])
            out.append([expand_line(names(["L"]), v), probe()])
        out.append([expand_line(bad("None", lambda: None)), probe()])
        for v in wrong_text():
            out.append([parse_line(v), probe()])
        return out

    def bad_bool():
        # bool is an int
        return V({"k": "int", "x": 1}, lambda: True)

    def bounds(i):
        def job(_):
            out = []
            xs = OKINT + BIG
            k = 0
            for a in xs:
                for b in xs:
                    k += 1
                    if k % 4 == i:
                        out.append([q_line({"min_codepoint": integer(a), "max_codepoint": integer(b),
                                            "categories": names(["Zs", "Cc"] if k % 3 else ["Nope"])})])
            out.append([probe()])
            return out
        return job

    def combos(i):
        # several arguments of any kind at once
        def job(_):
            r = random.Random(SEED * 17 + i)
            out = []
            for _ in range(40):
                args = p.query(r)
                for a in r.sample(QUERY_ARGS, r.randrange(1, 4)):
                    k = r.randrange(5)
                    if a in ("categories", "exclude_categories"):
                        args[a] = r.choice(wrong_names()) if k < 2 else names(p.names(r) + [r.choice(("Q", "lu", "L", "", "\u00df"))], r.choice(ORDERED))
                    elif a in ("min_codepoint", "max_codepoint"):
                        args[a] = r.choice(wrong_ints()) if k < 2 else integer(r.choice(BIG + OKINT))
                    elif a == "version":
                        args[a] = r.choice(wrong_versions())
                    else:
                        args[a] = r.choice(wrong_text() + surrogates())
                out.append([q_line(args)] + ([probe()] if r.randrange(3) == 0 else []))
            return out
        return job

    def raising(_):
        out = []
        V9 = U.UnicodeVersion.V9_0_0
        P, T, A = ["Planned"], ["TypeError"], ["AttributeError", "TypeError"]
        cases = []
        planned = [Planned("x")] + [e("x") for e in (KeyError, RuntimeError, ValueError, IndexError, LookupError, AttributeError, TypeError,
                                                     OverflowError, StopAsyncIteration, EOFError, OSError, AssertionError, RecursionError,
                                                     MemoryError, NotImplementedError, ArithmeticError, UnicodeError, BufferError)]
        for exc in planned:
            cls = [class_of(exc)]
            for xs in ([], ["Lu"], ["Lu"] * 50, ["Nope"]):
                any_ = cls + (["ValueError"] if xs == ["Nope"] else [])
                cases.append((f"categories raising {exc!r} after {len(xs)}", lambda e=exc, x=xs: U.query(categories=Exploding(x, e)), any_))
                cases.append((f"exclude raising {exc!r} after {len(xs)}", lambda e=exc, x=xs: U.query(exclude_categories=Exploding(x, e)), any_))
                cases.append((f"expand raising {exc!r} after {len(xs)}", lambda e=exc, x=xs: U.as_general_categories(Exploding(x, e)), any_))
        cases += [
            ("iter raises", lambda: U.query(categories=ExplodingIter()), P),
            ("iter raises", lambda: U.as_general_categories(ExplodingIter()), P),
            ("index raises", lambda: U.query(min_codepoint=ExplodingIndex()), P),
            ("index raises", lambda: U.query(max_codepoint=ExplodingIndex()), P),
            ("positional query", lambda: U.query(["Lu"]), T), ("positional query", lambda: U.query(V9), T),
            ("unknown keyword", lambda: U.query(category=["Lu"]), T), ("unknown keyword", lambda: U.categories(v=V9), T),
            ("too many", lambda: U.categories(V9, V9), T), ("too many", lambda: U.as_general_categories(["L"], V9, 1), T),
            ("too few", lambda: U.as_general_categories(), T), ("too few", lambda: U.UnicodeVersion(), T),
            ("twice", lambda: U.as_general_categories(["L"], categories=["L"]), T),
            ("too many", lambda: U.UnicodeVersion("9.0.0", "9.0.0"), T),
            ("no such member", lambda: U.UnicodeVersion.V8_0_0, A), ("no such attribute", lambda: U.nothing, A),
            ("latest takes nothing", lambda: U.UnicodeVersion.latest(1), T),
        ]
        for label, f, cls in cases:
            out.append([raises_line(label, f, cls), probe()])
        return out

    def often(i):
        # failures, very often
        def job(_):
            ask = [lambda: q_line({"categories": names(["Lu", "Qq"])}), lambda: q_line({"min_codepoint": integer(MAX + 1)}),
                   lambda: q_line({"min_codepoint": integer(5), "max_codepoint": integer(4)}),
                   lambda: expand_line(names(["L", "Letter"]), version(3))][i]
            return [steady(ask) + [probe()]]
        return job

    def reentrant(_):
        # argument objects that call back into the package
        out = []

        class Nested:
            def __iter__(self):
                for c in ("Lu", "Nd"):
                    out.append([list_line(version(4))])
                    out.append([q_line({"categories": names([c]), "max_codepoint": integer(300)})])
                    yield c

        class NestedIndex:
            def __index__(self):
                out.append([q_line({"categories": names(["Ll"]), "max_codepoint": integer(300)})])
                return 77

        v = V({"k": "names", "xs": ["Lu", "Nd"], "as": "calls back"}, Nested)
        n = V({"k": "int", "x": 77}, NestedIndex)
        out.append([q_line({"categories": v, "min_codepoint": n, "max_codepoint": integer(1000)})])
        out.append([expand_line(v, version(4))])
        out.append([probe()])
        return out

    def lengths(_):
        # long arguments
        out = []
        for n in (1000, 100000):
            out.append([q_line({"categories": names(["Lu", "Zs", "Nd"] * n), "max_codepoint": integer(500)})] if n < 10000 else
                       [q_line({"categories": V({"k": "names", "xs": ["Lu", "Zs"], "as": "long"}, lambda n=n: ["Lu", "Zs"] * n),
                                "max_codepoint": integer(500)})])
            out.append([q_line({"categories": names(["Lu"]), "max_codepoint": integer(500),
                                "include_characters": V({"k": "chars", "xs": cps("ab\u2603")}, lambda n=n: "ab\u2603" * n)})])
            out.append([q_line({"categories": names([]), "exclude_characters": V({"k": "chars", "xs": cps("az")}, lambda n=n: "az" * n),
                                "include_characters": V({"k": "chars", "xs": cps("abz")}, lambda n=n: "zab" * n)})])
            out.append([parse_line(text("9" * n if n < 10000 else "9" * 3500))])
        return out

    def near_names(i):
        # strings that resemble names: all of two characters, names with something more or less, several in one
        def job(_):
            r = random.Random(SEED * 23 + i)
            ascii_ = [chr(c) for c in range(32, 127)]
            xs = [a + b for a in ascii_ for b in ascii_][i::8]
            more = odd_texts(r, ABBREV, 1500)
            more += [a + s + b for a in ABBREV for b in r.sample(ABBREV, 4) for s in (",", ", ", ";", "|", " ", "/", "\n", "", "\0", "+", "-", "&")]
            more += [a + s for a in ABBREV + MAJOR for s in (",", ", ", "|", "*", "&", "_", "\u00a0", "\u3000", "\ufeff", "\u0301", "\u200d")]
            more += [s + a for a in ABBREV + MAJOR for s in (",", "|", "*", "&", "_", "-", "!", "^", "~", "\u00a0", "\u3000", "\ufeff", "gc=", "\\p{")]
            more += [a.translate({k: k + 0xFEE0 for k in range(33, 127)}) for a in ABBREV]
            more += ["LC", "L&", "Letter", "Any", "Assigned", "all", "ASCII", "Uppercase_Letter", "UPPERCASE_LETTER", "General_Category", "C*", "None"]
            xs += more[i::8]
            out = []
            few = {"max_codepoint": integer(300)}
            for n, x in enumerate(xs):
                k = n % 4
                if k == 0:
                    out.append([q_line({"categories": names([x]), **few})])
                elif k == 1:
                    out.append([q_line({"exclude_categories": names([x]), **few})])
                elif k == 2:
                    out.append([expand_line(names([x]))])
                else:
                    out.append([q_line({"categories": names([r.choice(ABBREV), x, r.choice(ABBREV)]), **few})])
            return out
        return job

    def odds(i):
        # one name of a list runs over all strings of at most two ASCII characters
        def job(_):
            r = random.Random(SEED * 31 + i)
            ascii_ = [chr(c) for c in range(128)]
            n = (0, 2, 31, 70)[i // 3 % 4]
            ds = list(ABBREV) if n > 30 else []
            while len(ds) < n:
                ds.append(r.choice(ABBREV))
            r.shuffle(ds)
            at = r.choice((len(ds), len(ds), r.randrange(len(ds) + 1)))
            fn = ("categories", "exclude_categories", "expand")[i % 3]
            ok, odd = [], []
            begin(f"odds {fn} {ds}")
            try:
                for x in [""] + ascii_ + [a + b for a in ascii_ for b in ascii_]:
                    xs = ds[:at] + [x] + ds[at:]
                    try:
                        if fn == "expand":
                            U.as_general_categories(xs)
                        else:
                            U.query(**{fn: xs, "max_codepoint": 2})
                        ok.append(x)
                    except ValueError as e:
                        if x not in str(e) and len(odd) < 3:
                            odd.append(f"{x!r}: {e!r}"[:300])
                    except BaseException as e:
                        if len(odd) < 3:
                            odd.append(f"{x!r}: {e!r}"[:300])
            finally:
                end()
            return [[{"op": "odds", "d": int(fn == "expand"), "what": fn, "pre": ds[:at], "post": ds[at:], "ok": ok, "odd": odd}]]
        return job

    jobs = [(False, faults), (True, faults), (False, raising), (True, reentrant), (False, lengths)]
    jobs += [(True, often(i)) for i in range(4)]
    jobs += [(False, near_names(i)) for i in range(8)]
    jobs += [(False, odds(i)) for i in range(96 if THOROUGH else 12)]
    jobs += [(False, containers(i)) for i in range(30 if THOROUGH else 3)]
    jobs += [(False, bounds(i)) for i in range(4)]
    jobs += [(False, combos(i)) for i in range(600 if THOROUGH else 24)]
    return jobs


# calls of every shape

def c27(p):
    ORDER = {"query": [], "categories": ["version"], "as_general_categories": ["categories", "version"],
             "UnicodeVersion": ["value"], "latest": []}
    KNOWN = {"query": list(QUERY_ARGS), "categories": ["version"], "as_general_categories": ["categories", "version"], "UnicodeVersion": ["value"],
             "latest": []}
    DECLARED = {n for ns in KNOWN.values() for n in ns}
    FUNCS = {"query": lambda: U.query, "categories": lambda: U.categories, "as_general_categories": lambda: U.as_general_categories,
             "UnicodeVersion": lambda: U.UnicodeVersion, "latest": lambda: U.UnicodeVersion.latest}
    SHAPE = {"query": as_intervals, "categories": as_names, "as_general_categories": as_names,
             "UnicodeVersion": lambda x: {"ok": version_no(x)}, "latest": lambda x: {"ok": version_no(x)}}

    def value(r, fn, name, defaults):
        """A value for a parameter of this name; one that stands for the default, if asked for."""
        if name == "exclude_categories" or name == "categories":
            if defaults and fn == "query":
                return NONE
            xs = p.names(r)
            return names(xs + (r.sample(MAJOR, 1) if fn == "as_general_categories" else []), r.choice(ORDERED))
        if name in ("min_codepoint", "max_codepoint"):
            if defaults:
                return r.choice((NONE, integer(0 if name == "min_codepoint" else MAX)))
            return integer(r.randrange(300) if name == "min_codepoint" else r.choice((r.randrange(300, 3000), r.randrange(256), MAX)))
        if name in ("include_characters", "exclude_characters"):
            return chars("" if defaults else r.choice(("abc", "\u2603", "a\u00ff\u0100", "0", "\U0010ffff-")))
        if name == "version":
            return r.choice((NONE, version(11))) if defaults else version(r.randrange(11) + 1, r.choice(WAYS))
        if name == "value":
            return text(r.choice(VERSIONS)) if r.randrange(4) else text(r.choice(("9.0", "", "17.0.0 ", "V9_0_0", "latest")))
        return r.choice(ANY)()

    ANY = [lambda: NONE, lambda: integer(3), lambda: integer(0), lambda: chars("a"), lambda: chars(""), lambda: version(2), lambda: bad("true", lambda: True),
           lambda: bad("false", lambda: False), lambda: names(["Lu"]), lambda: names([]), lambda: bad("dict", dict), lambda: bad("float", lambda: 1.5),
           lambda: bad("bytes", lambda: b"x"), lambda: bad("a callable", lambda: len), lambda: bad("object", object)]

    def advertised(fn):
        # further names a function admits to
        import inspect
        out = []
        try:
            out += list(inspect.signature(FUNCS[fn]()).parameters)
        except (TypeError, ValueError):
            pass
        import re
        for t in (getattr(FUNCS[fn](), "__text_signature__", None), getattr(FUNCS[fn](), "__doc__", None)):
            out += re.findall(r"[A-Za-z_]+", t or "")
        return sorted(set(out) - DECLARED)

    def line(r, shape, defaults, how):
        fn = shape["fn"]
        order = ORDER[fn] + ["version", "categories", "value"]
        n = len(ORDER[fn])
        pos = [value(r, fn, order[i], defaults) if i < n or r.randrange(3) == 0 else r.choice(ANY)() for i in range(shape["pos"])]
        kws = list(shape["kw"])
        r.shuffle(kws)
        kw = [(n, value(r, fn, n, defaults)) for n in kws]
        f = FUNCS[fn]()
        if fn == "latest" and how == 1:
            f = U.UnicodeVersion.V10_0_0.latest      # a static method is there on members too
        args = [v.make() for v in pos]
        named = {n: v.make() for n, v in kw}

        def go():
            if how == 2:
                import functools
                return functools.partial(f, *args[:1], **named)(*args[1:])
            if how == 3:
                return f.__call__(*args, **named) if fn != "UnicodeVersion" else type.__call__(f, *args, **named)
            return f(*args, **named)

        rec = [v.rec for v in pos] + [v.rec for _, v in kw]
        reply, _ = call(f"{fn} {json.dumps(shape)} {json.dumps(rec)}", strings_in(rec), go, SHAPE[fn])
        return {"op": "pycall", "fn": fn, "how": how, "pos": [v.rec for v in pos], "kw": [[n, v.rec] for n, v in kw], "r": reply}

    def names_line():
        def f():
            ns = {}
            exec("from unicode_intervals import *", ns)
            return sorted(n for n in ns if n in U.__all__ and ns[n] is getattr(U, n) and (n != "__version__" or type(ns[n]) is str))
        r, _ = call("from unicode_intervals import *", [], f, lambda x: {"ok": x})
        return {"op": "pynames", "r": r}

    with open(SCEN) as f:
        shapes = [json.loads(x.encode().decode("unicode_escape")) for x in f]
    shapes.sort(key=lambda s: json.dumps(s, sort_keys=True))

    def part(i):
        def job(_):
            r = random.Random(SEED * 41 + i)
            out = [[names_line()]] if i == 0 else []
            for n in range(i, len(shapes), 16):
                s = shapes[n]
                likely = s["pos"] <= len(ORDER[s["fn"]]) and all(n not in ("", "category", "Version", "self") for n in s["kw"])
                for k in range((400 if THOROUGH else 32) if likely else 3):
                    out.append([line(r, s, k % 4 == 1, (n // 16 + k) % 4)])
            return out
        return job

    def surplus(_):
        # well-formed calls with one argument too many, of any kind
        r = random.Random(SEED * 43)
        out = []
        for fn, own in ORDER.items():
            good = [s for s in shapes if s["fn"] == fn and s["pos"] <= len(own) and set(s["kw"]) <= set(KNOWN[fn])
                    and not set(own[:s["pos"]]) & set(s["kw"])]
            more = advertised(fn) + ["strict", "default", "copy", "encoding", "_", "cls", "self", "py", "names", "key", "order", "normalized", "sort"]
            for s in r.sample(good, min(len(good), 40)):
                for k in range(len(ANY)):
                    out.append([line(r, {"fn": fn, "pos": len(own) + 1 + k % 3, "kw": []}, k % 2 == 1, k % 4)])
                for name in r.sample(more, min(len(more), 25)):
                    out.append([line(r, {"fn": fn, "pos": s["pos"], "kw": s["kw"] + [name]}, r.randrange(2) == 1, r.randrange(4))])
        return out

    return [(i < 2, part(i)) for i in range(16)] + [(False, surplus)]


# ------------------------------------------------------------------ running

def run_job(fresh, job, sink):
    """Runs a job in this process, or in a child that has not imported the package."""
    if fresh == "bare":
        # makes processes itself
        sink(job(None))
        return 0
    if not fresh:
        load()
        sink(job(None))
        return 0
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            load()
            data = json.dumps(job(None)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        os.kill(os.getpid(), os.WTERMSIG(st))   # seen by the parent as ours
        time.sleep(5)
    if os.WEXITSTATUS(st) != 0:
        raise RuntimeError("job failed")
    sink(json.loads(data))
    return 0


def prepared(block):
    """Relative numbering is per shard: identities of listings are per interpreter, so each block resets them."""
    return block


def worker(me, jobs):
    global ME
    ME = me
    os.setpgid(0, 0)
    path = os.path.join(OUT, f"part{me:02d}.json")
    blocks = []
    calls = 0
    if any(not fresh for fresh, _ in jobs):
        jobs = sorted(jobs, key=lambda j: not j[0])     # fresh ones first, while the package is not imported
    for fresh, job in jobs:
        got = []
        run_job(fresh, job, got.append)
        # listings from one interpreter belong together
        lists = [b for bs in got for b in bs]
        if fresh:
            lists = [[x for b in lists for x in b]]
        if not fresh:
            HELD.clear()
        blocks += [b for b in lists if b]
    with open(path + ".tmp", "w") as f:
        for b in blocks:
            calls += len(b)
            f.write(json.dumps(b) + "\n")
    os.rename(path + ".tmp", path)
    return calls


def stuck(event):
    with open(os.path.join(OUT, "stuck.ndjson"), "w") as f:
        f.write(json.dumps(event) + "\n")
    sys.exit(3)


def main():
    p = Pools()
    jobs = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C27": c27}[PROFILE](p)
    pids = {}
    for i in range(WORKERS):
        pid = os.fork()
        if pid == 0:
            code = 9
            try:
                worker(i, jobs[i::WORKERS])
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = i
    failed = None
    beats = {}
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid:
            i = pids.pop(pid)
            if st != 0 and failed is None:
                raw = LIFE[i * SLOT:(i + 1) * SLOT]
                beat, _, busy, n = struct.unpack("<QdII", raw[:24])
                what = raw[64:64 + n].decode(errors="replace") if busy else ""
                failed = {"op": "crash", "signal": os.WTERMSIG(st), "what": what} if os.WIFSIGNALED(st) else {"op": "failed"}
                for q in pids:
                    os.killpg(q, signal.SIGKILL)
            continue
        time.sleep(0.02)
        for pid, i in pids.items():
            raw = LIFE[i * SLOT:(i + 1) * SLOT]
            beat, at, busy, n = struct.unpack("<QdII", raw[:24])
            if busy and beat and time.monotonic() - at > HANG_S and failed is None:
                failed = {"op": "hang", "what": raw[64:64 + n].decode(errors="replace")}
                for q in pids:
                    os.killpg(q, signal.SIGKILL)
    if failed is not None:
        if failed["op"] == "failed":
            sys.exit(9)
        stuck(failed)
    blocks = []
    calls = 0
    for i in range(WORKERS):
        path = os.path.join(OUT, f"part{i:02d}.json")
        with open(path) as f:
            for line in f:
                b = json.loads(line)
                calls += len(b)
                blocks.append((len(line), b))
        os.unlink(path)
    blocks.sort(key=lambda x: -x[0])
    load_ = [[0, []] for _ in range(SHARDS)]
    for n, b in blocks:
        s = min(load_, key=lambda s: s[0])
        s[0] += n
        s[1].append(b)
    lines = 0
    for k, (_, bs) in enumerate(load_):
        if not bs:
            continue
        with open(os.path.join(OUT, f"shard{k:02d}.ndjson"), "w") as f:
            for b in bs:
                if any(x["op"] == "pylist" for x in b):
                    f.write('{"op":"pystart"}\n')
                    lines += 1
                for x in b:
                    f.write(json.dumps(x) + "\n")
                    lines += 1
    print(json.dumps({"blocks": len(blocks), "lines": lines, "calls": calls}))


main()
