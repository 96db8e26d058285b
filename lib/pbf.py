"""Concrete PBF bytes for the encodings the specification (Pbf.tla) produces."""
import struct
import zlib

# ---------------------------------------------------------------- protobuf


def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def zz(n):
    return varint((n << 1) ^ (n >> 63))


def f_varint(no, n):
    return varint(no << 3) + varint(n)


def f_sint(no, n):
    return varint(no << 3) + zz(n)


def f_bytes(no, b):
    return varint(no << 3 | 2) + varint(len(b)) + b


def f_packed(no, ns, enc):
    return f_bytes(no, b"".join(enc(n) for n in ns)) if ns else b""


# ---------------------------------------------------------------- concretisation

POOLS = [
    {0: "", 1: "highway", 2: "primary", 3: "name", 4: "inner", 5: "x", 6: "addr:housenumber", 7: "yes", 8: "outer"},
    {0: "", 1: "é", 2: "日本語の名前", 3: "k" * 40, 4: "a\"b<c>&'", 5: "\n\t ", 6: "\U0001F5FA", 7: "0", 8: " "},
    {0: "", 1: "k", 2: "", 3: "key with spaces", 4: "v" * 300, 5: "é", 6: "null", 7: "-1", 8: "=,%20"},
    {0: "", 1: "a", 2: "b", 3: "c", 4: "d", 5: "e", 6: "f", 7: "g", 8: "h"},
]


class Strs(dict):
    """The strings of a pool, and the copies that PbfStretch makes of them: s + 100 * j is copy j of s, 99 is unused.
    Each is `fill` characters longer than in the pool."""

    def __init__(self, pool, fill=0):
        dict.__init__(self, pool)
        self.fill = fill

    def __missing__(self, n):
        if n % 100 == 99:
            v = "unused" + "u" * self.fill
        else:
            v = f"{dict.__getitem__(self, n % 100)}~{n // 100}" + "f" * self.fill
        self[n] = v
        return v


class Conc:
    """How the numbers and strings of the specification become those of a real file.

    Positions and times are linear in what is stored, ids, changesets and users affine: what the
    specification says for its small numbers is carried over exactly."""

    def __init__(self, strings=None, ida=1, idb=0, refa=1, refb=0, csa=1, csb=0, uida=1, uidb=0, posk=1, tsk=1, vera=1,
                 dress=None):
        self.s = strings or POOLS[0]
        self.ida, self.idb, self.refa, self.refb = ida, idb, refa, refb
        self.csa, self.csb, self.uida, self.uidb = csa, csb, uida, uidb
        self.posk, self.tsk, self.vera = posk, tsk, vera
        self.dress = dress or {}

    def d(self, key):
        return self.dress.get(key)

    # values
    def id(self, x):
        return self.ida * x + self.idb

    def ref(self, x):
        return self.refa * x + self.refb

    def delta(self, col, a, b):
        return [a * x + (b if i == 0 else 0) for i, x in enumerate(col)]


DEFAULT = Conc()


def random_dress(rng):
    """Choices of the encoder that must not matter"""
    return {k: rng.random() < 0.4 for k in (
        "rawsize", "unpacked", "table_last", "unknown", "empty_info", "explicit_defaults", "reverse", "extra_strings", "bare")
    } | {"indexdata": rng.choice([0, 0, 0, 1, 1, 30, 300, 3000, 12000]),  # times 5: up to the 64 KiB which a header may have
         "sizeless": rng.random() < 0.25, "level": rng.choice([0, 1, 6, 9])}


def random_conc(rng, positions=True, pool=None):
    # now and then at an end of what the numbers may be
    ida, idb = rng.choice([1, 7, 1_000_003, 4_000_000_000_000]) * rng.choice([1, 1, -1]), rng.choice([0, 0, 5, 6_000_000_000, -3])
    refa, refb = rng.choice([1, 3, 5_000_000_000, -4_000_000_000]), rng.choice([0, 1, 9_000_000_000])
    csa, csb = rng.choice([1, 3, 40_000_000]), rng.choice([0, 11, 100_000_000])
    uida, uidb = rng.choice([1, 2, 5_000_000]), rng.choice([0, 3, 2_000_000])
    if rng.random() < 0.15:
        ida, idb = rng.choice([(-1, 2**63 - 2**16), (1, -2**63 + 2**16)])
    if rng.random() < 0.15:
        refa, refb = rng.choice([(-1, 2**63 - 2**16), (1, -2**63 + 2**16)])
    if rng.random() < 0.15:
        csa, csb = rng.choice([(-1, 2**31 - 1), (-1, 2**32 - 1), (1, 2**31)])
    if rng.random() < 0.15:
        uida, uidb = -1, 2**31 - 1
    return Conc(
        strings=pool or rng.choice(POOLS), ida=ida, idb=idb, refa=refa, refb=refb, csa=csa, csb=csb, uida=uida, uidb=uidb,
        posk=rng.choice([1, 3, 1009, 90_001]) if positions else 1,
        tsk=rng.choice([1, 2, 60, 100_003, 70_000_000]) if positions else 1,
        vera=rng.choice([1, 2, 1_000_000]),
        dress=random_dress(rng),
    )


# ---------------------------------------------------------------- encoding

TYPES = {"n": 0, "w": 1, "r": 2}


def nums(c, no, ns, enc):
    if c.d("unpacked"):
        return b"".join(varint(no << 3) + enc(n) for n in ns)
    return f_packed(no, ns, enc)


def join(c, parts):
    """The fields of a message, in any order"""
    parts = [p for p in parts if p]
    if c.d("unknown"):
        parts.append(f_bytes(1999, b"unknown") + f_varint(1998, 77))
    if c.d("reverse"):
        parts.reverse()
    return b"".join(parts)


def enc_info(c, w):
    parts = []
    if w["ver"] != -1:
        parts.append(f_varint(1, w["ver"] * c.vera))
    if w["ts"] != -1:
        parts.append(f_varint(2, w["ts"] * c.tsk))
    if w["cs"] != -1:
        parts.append(f_varint(3, w["cs"] * c.csa + c.csb))
    if w["uid"] != -1:
        parts.append(f_varint(4, w["uid"] * c.uida + c.uidb))
    if w["sid"] != -1:
        parts.append(f_varint(5, w["sid"]))
    if w["vis"] != -1:
        parts.append(f_varint(6, w["vis"]))
    if not parts and not c.d("empty_info"):
        return b""
    return f_bytes(4, join(c, parts))


def enc_plain(c, kind, w):
    parts = [f_varint(1, c.id(w["id"])),
             nums(c, 2, w["keys"], varint), nums(c, 3, w["vals"], varint), enc_info(c, w)]
    if kind == "ways":
        parts.append(nums(c, 8, c.delta(w["refs"], c.refa, c.refb), zz))
    else:
        parts += [nums(c, 8, w["roles"], varint), nums(c, 9, c.delta(w["memids"], c.refa, c.refb), zz),
                  nums(c, 10, [TYPES[t] for t in w["types"]], varint)]
    return join(c, parts)


def enc_dense(c, g):
    info = [nums(c, 1, [v * c.vera for v in g["ver"]], varint),
            nums(c, 2, [t * c.tsk for t in g["ts"]], zz),
            nums(c, 3, c.delta(g["cs"], c.csa, c.csb), zz),
            nums(c, 4, c.delta(g["uid"], c.uida, c.uidb), zz),
            nums(c, 5, g["sid"], zz), nums(c, 6, g["vis"], varint)]
    has_info = any(info)
    parts = [nums(c, 1, c.delta(g["id"], c.ida, c.idb), zz),
             f_bytes(5, join(c, info)) if has_info or c.d("empty_info") else b"",
             nums(c, 8, [x * c.posk for x in g["lat"]], zz), nums(c, 9, [x * c.posk for x in g["lon"]], zz),
             nums(c, 10, g["kv"], varint)]
    return join(c, parts)


def enc_plain_node(c, w):
    return join(c, [f_sint(1, c.id(w["id"])), f_sint(8, w.get("lat", 1)), f_sint(9, w.get("lon", 1))])


def enc_group(c, g):
    if g["k"] == "dense":
        return f_bytes(2, enc_dense(c, g))
    if g["k"] == "ways":
        return b"".join(f_bytes(3, enc_plain(c, "ways", w)) for w in g["objs"])
    if g["k"] == "relations":
        return b"".join(f_bytes(4, enc_plain(c, "relations", w)) for w in g["objs"])
    if g["k"] == "changesets":
        return f_bytes(5, f_varint(1, 4711))
    if g["k"] == "nodes":  # not dense: not supported by the readers
        return f_bytes(1, enc_plain_node(c, {"id": 1}))
    assert g["k"] == "empty", g
    return b""


def uses_strings(g):
    return any(g.get("kv", [])) or bool(g.get("sid")) or any(
        w["keys"] or w.get("roles") or w["sid"] != -1 for w in g.get("objs", []))


def enc_block(c, b):
    strings = [""] + [c.s[x] for x in b["st"]]
    if c.d("bare") and not any(uses_strings(g) for g in b["gr"]):
        strings = []
    elif c.d("extra_strings"):
        strings = strings + ["unused", ""]
    table = f_bytes(1, b"".join(f_bytes(1, s.encode()) for s in strings) + (f_bytes(1, b"." * c.d("pad")) if c.d("pad") else b""))
    groups = [f_bytes(2, enc_group(c, g)) for g in b["gr"]]
    parts = []
    gran, la, lo, dg = b["gran"], b["la"] * c.posk, b["lo"] * c.posk, b["dg"]
    if c.d("explicit_defaults"):
        gran, dg = gran or 100, dg or 1000
    if gran:
        parts.append(f_varint(17, gran))
    if la or c.d("explicit_defaults"):
        parts.append(f_varint(19, la))
    if lo or c.d("explicit_defaults"):
        parts.append(f_varint(20, lo))
    if dg:
        parts.append(f_varint(18, dg))
    if c.d("unknown"):
        parts.append(f_bytes(1999, b"unknown"))
    if c.d("table_last"):
        return b"".join(groups) + b"".join(parts) + table
    return table + b"".join(parts) + b"".join(groups)


def enc_header(c):
    return b"".join(f_bytes(4, s) for s in (b"OsmSchema-V0.6", b"DenseNodes")) + f_bytes(16, b"verif")


COMPRESSIONS = {"lzma": 4, "bz2": 5, "lz4": 6, "zstd": 7}


def enc_blob_body(c, b):
    if b["k"] == "header":
        data = enc_header(c)
    elif b["k"] == "data":
        data = enc_block(c, b)
    else:
        data = b"\x0a\x03abc whatever"
    if b["c"] == "none":
        return f_varint(2, len(data))
    if b["c"] == "raw":
        return f_bytes(1, data) + (f_varint(2, len(data)) if c.d("rawsize") else b"")
    if b["c"] == "zlib":
        level = c.d("level")
        z = zlib.compress(data, 6 if level is None else level)
        size = b"" if c.d("sizeless") else f_varint(2, len(data))  # the format has it optional
        if c.d("rawsize"):  # allowed to come after, too
            return f_bytes(3, z) + size
        return size + f_bytes(3, z)
    if b["c"] == "badzlib":  # complete as a message, but its compressed data ends early
        z = zlib.compress(data, 6)
        return f_varint(2, len(data)) + f_bytes(3, z[: max(2, len(z) - 5)])
    if b["c"] == "badsum":
        z = zlib.compress(data, 6)
        return f_varint(2, len(data)) + f_bytes(3, z[:-1] + bytes([z[-1] ^ 0x55]))
    return f_varint(2, len(data)) + f_bytes(COMPRESSIONS[b["c"]], zlib.compress(data))


def type_name(b):
    return {"header": "OSMHeader", "data": "OSMData"}.get(b["k"], b.get("name", "OSMDatum"))


def enc_blob(c, b):
    """-> (length prefix, header, body)"""
    body = enc_blob_body(c, b)
    head = f_bytes(1, type_name(b).encode())
    if c.d("indexdata"):
        head += f_bytes(2, b"index" * c.d("indexdata"))
    head += f_varint(3, len(body))
    return struct.pack(">I", len(head)), head, body


def enc_file(wire, c=DEFAULT):
    return b"".join(b"".join(enc_blob(c, b)) for b in wire)


# ---------------------------------------------------------------- what must come out


def expect(x, c=DEFAULT):
    """An object of the specification, in the terms of the harness. ll in nanodegrees, ts in milliseconds."""
    e = {"t": x["t"], "id": c.id(x["id"]),
         "tags": [[c.s[k], c.s[v]] for k, v in x["tags"]],
         "ver": None if x["ver"] == -1 else x["ver"] * c.vera,
         "cs": None if x["cs"] == -1 else x["cs"] * c.csa + c.csb,
         "uid": None if x["uid"] == -1 else x["uid"] * c.uida + c.uidb,
         "user": None if x["user"] == -1 else c.s[x["user"]],
         "del": x["del"], "ms": x["ts"] * c.tsk if x["hasts"] else None}
    if x["t"] == "n":
        e["nano"] = [x["lat"] * c.posk, x["lon"] * c.posk]
    elif x["t"] == "w":
        e["nodes"] = [c.ref(r) for r in x["refs"]]
    else:
        e["mem"] = [[t, c.ref(i), c.s[r]] for t, i, r in x["mem"]]
    return e


def near(obs, n, unit):
    """obs * unit is n, to within one unit; exactly, where n is a multiple"""
    if not isinstance(obs, int):
        return False
    return obs * unit == n if n % unit == 0 else abs(obs * unit - n) < unit


IDENT = ("t", "id")
CONTENT = ("t", "id", "tags", "nodes", "mem", "ver", "cs", "uid", "user", "del")
ALL = CONTENT + ("ll", "ts")


def diff(e, o, fields):
    """None, or the first field of the observed object that is not as expected"""
    for f in fields:
        if f == "ll":
            if e["t"] == "n" and not (isinstance(o.get("ll"), list) and all(
                    near(a, n, 100) for a, n in zip(o["ll"], e["nano"]))):
                return f"ll {o.get('ll')} for {e['nano']} nanodegrees"
        elif f == "ts":
            t = o.get("ts")
            if e["ms"] is None:
                if t is not None:
                    return f"ts {t}, absent in the file"
            elif t is None or not isinstance(t.get("num"), int) or not near(t["num"], e["ms"], 1000):
                return f"ts {t} for {e['ms']} ms"
        elif f in e and o.get(f, "missing") != e[f]:
            return f"{f} {o.get(f)!r:.200} instead of {e[f]!r:.200}"
    return None


def object_group(d, sid, kv="always"):
    """A group with this object (a concrete description, positions in 1e-7 degrees, times in seconds).
    kv, for nodes: "always" with a list of tags, "needed" without when there are none, "mixed" with another, tagged, node after it"""
    keys, vals = [sid(k) for k, _ in d["tags"]], [sid(v) for _, v in d["tags"]]
    ts = d["ts"]["num"] if d["ts"] else None
    cols = [("ver", d["ver"], varint), ("ts", ts, zz), ("cs", d["cs"], zz), ("uid", d["uid"], zz),
            ("sid", None if d["user"] is None else sid(d["user"]), zz), ("vis", 0 if d["del"] else 1, varint)]
    if d["t"] == "n":
        lat, lon = d["ll"]
        info = b"".join(f_packed(i + 1, [v], enc) for i, (_, v, enc) in enumerate(cols) if v is not None)
        more = [0] if kv == "mixed" else []
        tags = [x for p in zip(keys, vals) for x in p] + [0] + ([sid("other"), sid("other"), 0] if more else [])
        return f_bytes(2, f_packed(1, [d["id"]] + more, zz) + f_bytes(5, info) + f_packed(8, [lat] + [0] * len(more), zz)
                       + f_packed(9, [lon] + [0] * len(more), zz) + (f_packed(10, tags, varint) if tags != [0] or kv != "needed" else b""))
    info = b"".join(f_varint(i + 1, v) for i, (_, v, enc) in enumerate(cols) if v is not None)
    head = f_varint(1, d["id"]) + f_packed(2, keys, varint) + f_packed(3, vals, varint) + f_bytes(4, info)
    delta = lambda xs: [x - (xs[i - 1] if i else 0) for i, x in enumerate(xs)]
    if d["t"] == "w":
        return f_bytes(3, head + f_packed(8, delta(d["nodes"]), zz))
    return f_bytes(4, head + f_packed(8, [sid(r) for _, _, r in d["mem"]], varint)
                   + f_packed(9, delta([m[1] for m in d["mem"]]), zz)
                   + f_packed(10, [TYPES[m[0]] for m in d["mem"]], varint))


def objects_file(groups):
    """A file with one block. groups: (object, kv) as for object_group"""
    st, at = [""], {}

    def sid(s):
        if s not in at:
            at[s] = len(st)
            st.append(s)
        return at[s]

    gs = [object_group(d, sid, kv) for d, kv in groups]
    block = f_bytes(1, b"".join(f_bytes(1, s.encode()) for s in st)) + b"".join(f_bytes(2, g) for g in gs)
    blob = f_bytes(1, block)
    head = f_bytes(1, b"OSMData") + f_varint(3, len(blob))
    return struct.pack(">I", len(head)) + head + blob


def one_object(d):
    """A file with this object only: the way to get an object that only a reader can make"""
    return objects_file([(d, "always")])
