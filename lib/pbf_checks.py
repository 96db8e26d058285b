"""P01-P05: PBF files. Cases from PbfStruct and PbfFocus, traces for PbfTrace."""
import json

import pbf

READERS = ("pbf", "arc")
DRAIN = [["drain"], ["next"], ["next"]]
LONG_DRAIN = [["drain", 200_000], ["next"], ["next"]]


def outcome(c, r, case, what):
    """The items of a case that drains a reader and then asks twice for more; None if it failed already"""
    import core

    bad = core.bad_run(r)
    if bad:
        c.fail(f"{what}: {bad}", case)
        return None
    if "calls" not in r:
        c.fail(f"{what}: does not open: {r.get('msg')}", case, observed=r)
        return None
    calls = r["calls"]
    if calls[0]["end"] != "none":
        c.fail(f"{what}: does not read to the end of a well-formed file: {calls[0]['end']} {calls[0].get('msg', '')[:200]}",
               case, observed=calls[0]["items"][-2:])
        return None
    for x in calls[1:]:
        if x["end"] != "none" or x["items"]:
            c.fail(f"{what}: delivers more after the end", case, observed=x)
            return None
    return calls[0]["items"]


def compare(c, case, what, items, expected, fields):
    for i, (o, e) in enumerate(zip(items, expected)):
        d = pbf.diff(e, o, fields)
        if d:
            c.fail(f"{what}: object {i}: {d}", case, e, o)
            return False
    if len(items) != len(expected):
        c.fail(f"{what}: {len(items)} objects instead of {len(expected)}", case,
               [[e["t"], e["id"]] for e in expected][:50], [[o["t"], o["id"]] for o in items][:50])
        return False
    c.events += len(items)
    return True


def replay_files(c, records, fields, concs, readers=READERS, via=("stream",)):
    """Every file of the specification, through every reader"""
    cases, meta = [], []
    for rec in records:
        for conc in concs():
            data = pbf.enc_file(rec["w"], conc).hex()
            exp = [pbf.expect(x, conc) for x in rec["x"]]
            for v in via:
                for rd in readers:
                    cases.append({"op": "read", "reader": rd, "via": v, "data": data, "calls": DRAIN, "sched": {}})
                    meta.append(exp)
    for case, exp, r in zip(cases, meta, c.run_cases(cases)):
        items = outcome(c, r, case, case["reader"])
        if items is not None:
            if case["reader"] == "pos":
                exp = [e for e in exp if e["t"] == "n"]
                flds = ("id", "ll") if "ll" in fields else ("id",)
                compare(c, case, "pos", items, exp, flds)
            else:
                compare(c, case, case["reader"], items, exp, fields)
        c.validated += 1
    if cases:
        c.sample({"file": cases[-1]["data"][:200], "expected": meta[-1][:2]})


# ---------------------------------------------------------------- random files, as traces

ST_N = 8


def random_file(rng, max_blobs=6, max_objs=25, scale=True):
    """An abstract file (as in Pbf.tla), larger than what TLC enumerates"""
    blobs = []
    nid = 0
    for _ in range(rng.randint(0, max_blobs)):
        kind = rng.choices(["data", "header", "other"], [8, 1, 1])[0]
        st = [rng.randint(1, ST_N) for _ in range(rng.randint(1, 6))]
        b = {"k": kind, "c": rng.choice(["raw", "zlib"]), "gran": 0, "la": 0, "lo": 0, "dg": 0, "st": st, "gr": []}
        if scale:
            b["gran"] = rng.choice([0, 0, 1, 100, 250, 1000, 333])
            b["la"] = rng.choice([0, 0, 50, -123456, 77])
            b["lo"] = rng.choice([0, 0, 1000000, -50])
            b["dg"] = rng.choice([0, 0, 1, 1000, 500, 60000])
        if kind == "data":
            for _ in range(rng.randint(0, 4)):
                gk = rng.choice(["dense", "dense", "ways", "relations", "empty"])
                objs = []
                cols = {f for f in ("ver", "ts", "cs", "uid", "user", "vis") if rng.random() < 0.6}
                for _ in range(rng.randint(1 if gk != "dense" else 0, max(1, rng.choice([1, 3, max_objs]) // 1))):
                    if gk == "empty":
                        break
                    nid += rng.randint(1, 5)
                    if gk != "dense":
                        cols = {f for f in ("ver", "ts", "cs", "uid", "user", "vis") if rng.random() < 0.6}
                    s = lambda: rng.choice(st)
                    o = {"t": {"dense": "n", "ways": "w", "relations": "r"}[gk], "id": nid if rng.random() < 0.9 else -nid,
                         "tags": [[s(), s()] for _ in range(rng.choice([0, 0, 1, 2, 5]))],
                         "lat": 0, "lon": 0, "refs": [], "mem": [],
                         "ver": rng.randint(0, 9) if "ver" in cols else -1, "ts": rng.randint(0, 3000) if "ts" in cols else -1,
                         "cs": rng.randint(0, 99) if "cs" in cols else -1, "uid": rng.randint(0, 50) if "uid" in cols else -1,
                         "user": rng.choice([0] + st) if "user" in cols else -1,
                         "vis": rng.randint(0, 1) if "vis" in cols else -1}
                    if gk == "dense":
                        o["lat"], o["lon"] = rng.randint(-900000, 900000), rng.randint(-1800000, 1800000)
                    elif gk == "ways":
                        o["refs"] = [rng.randint(-20, 100) for _ in range(rng.choice([0, 1, 2, 9]))]
                    else:
                        o["mem"] = [[rng.choice("nwr"), rng.randint(-9, 99), rng.choice([0] + st)]
                                    for _ in range(rng.choice([0, 1, 2, 6]))]
                    objs.append(o)
                b["gr"].append({"k": gk, "objs": objs})
        blobs.append(b)
    return blobs


def deltas(xs):
    return [x - (xs[i - 1] if i else 0) for i, x in enumerate(xs)]


def enc_abstract(rng, f):
    """Pbf!Enc (for random files). TLC encodes the file again, and reads that."""
    wire = []
    for b in f:
        where = {}
        for i, x in enumerate(b["st"]):
            where.setdefault(x, []).append(i + 1)

        def idx(s):
            if s <= 0:
                return s
            return rng.choice(where[s])

        gr = []
        for g in b["gr"]:
            os_ = g["objs"]
            if g["k"] == "dense":
                has = lambda f: bool(os_) and os_[0][f] != -1
                kv = []
                if any(o["tags"] for o in os_):
                    for o in os_:
                        for k, v in o["tags"]:
                            kv += [idx(k), idx(v)]
                        kv.append(0)
                col = lambda f: [o[f] for o in os_] if has(f) else []
                gr.append({"k": "dense", "id": deltas([o["id"] for o in os_]), "lat": deltas([o["lat"] for o in os_]),
                           "lon": deltas([o["lon"] for o in os_]), "kv": kv, "ver": col("ver"), "ts": deltas(col("ts")),
                           "cs": deltas(col("cs")), "uid": deltas(col("uid")),
                           "sid": deltas([idx(x) for x in col("user")]), "vis": col("vis")})
            elif g["k"] in ("ways", "relations"):
                gr.append({"k": g["k"], "objs": [
                    {"id": o["id"], "keys": [idx(k) for k, v in o["tags"]], "vals": [idx(v) for k, v in o["tags"]],
                     "refs": deltas(o["refs"]), "roles": [idx(m[2]) for m in o["mem"]],
                     "memids": deltas([m[1] for m in o["mem"]]), "types": [m[0] for m in o["mem"]],
                     "ver": o["ver"], "ts": o["ts"], "cs": o["cs"], "uid": o["uid"],
                     "sid": -1 if o["user"] == -1 else idx(o["user"]), "vis": o["vis"]} for o in os_]})
            else:
                gr.append({"k": g["k"]})
        wire.append({**b, "gr": gr})
    return wire


# ---------------------------------------------------------------- size (PbfStretch)


def run_of(s, n, f):
    return [f(x, j) for x in s for j in range(n)]


def copy_of(s, j):
    return s if s <= 0 else s + 100 * j


def stretch_objs(k, objs):
    plus = lambda v, j: -1 if v == -1 else v + j % 3
    return run_of(objs, k["o"], lambda o, j: {
        **o, "id": o["id"] * k["o"] + j,
        "tags": run_of(o["tags"], k["t"], lambda kv, i: [copy_of(kv[0], i), copy_of(kv[1], i)]),
        "refs": run_of(o["refs"], k["r"], lambda r, i: r * k["r"] + i),
        "mem": run_of(o["mem"], k["m"], lambda m, i: [m[0], m[1] * k["m"] + i, copy_of(m[2], i)]),
        "cs": plus(o["cs"], j), "uid": plus(o["uid"], j), "user": copy_of(o["user"], j)})


def stretch_file(k, f):
    n = max(k["t"], k["m"], k["o"])
    return [{**b, "st": [99] * k["p"] + run_of(b["st"], n, copy_of),
             "gr": [{**g, "objs": stretch_objs(k, g["objs"])} for g in b["gr"]]} for b in f] * k["f"]


def stretch_x(k, x):
    return stretch_objs(k, x) * k["f"]


def stretch_records(c):
    """Small files, and how they stretch: here as in the specification"""
    import core

    recs = c.tlc("PbfStretch", consts={"N": 1})
    for r in recs:
        if stretch_file(r["k"], r["f"]) != r["fk"] or stretch_x(r["k"], r["x"]) != r["xk"]:
            raise core.ToolError(f"not stretched as in PbfStretch: {json.dumps(r)[:500]}")
    seen = {json.dumps(r["f"], sort_keys=True): r for r in recs}
    return [seen[k] for k in sorted(seen)]


DIMS = {"o": (300, 1030, 9000, 33000), "r": (300, 2500, 70000), "m": (300, 2500, 70000), "t": (40, 300, 2500),
        "p": (120, 300, 70000), "f": (300, 3000)}


def stretchings(rng, recs, n):
    """(record, k, fill): in each something is large"""
    out = []

    def fits(r, k):
        objs = len(r["x"]) * k["o"] * k["f"]
        refs = sum(len(x["refs"]) * k["r"] + len(x["mem"]) * k["m"] + len(x["tags"]) * k["t"] for x in r["x"])
        return objs <= 80000 and refs * k["o"] * k["f"] <= 300000

    def has(r, dim):
        f = {"r": "refs", "m": "mem", "t": "tags"}.get(dim)
        return f is None or any(x[f] for x in r["x"])

    plan = [(d, v) for d in DIMS for v in DIMS[d]] + [("s", 300), ("s", 70000), ("s", 3000)]
    kinds = {}
    for r in recs:
        kinds.setdefault(tuple(sorted({x["t"] for x in r["x"]})), []).append(r)
    kinds = [kinds[t] for t in sorted(kinds) if t]
    for i in range(n):
        d, v = plan[i % len(plan)]
        for _ in range(200):
            r = rng.choice(rng.choice(kinds))
            k = {"o": 1, "r": 1, "m": 1, "t": 1, "p": 0, "f": 1}
            fill = 0
            if d == "s":
                fill = v
            else:
                k[d] = v
            if v < 2000 and rng.random() < 0.5:
                e = rng.choice("ormtp")
                k[e] = max(k[e], rng.choice([2, 7, 150]))
            if v == 70000 and d == "p" and rng.random() < 0.5:
                k["p"], fill = 300, 66000  # as large as a block may be
            if has(r, d) and fits(r, k) and fill * max(k["o"], k["m"], k["t"], 1 + k["p"]) <= 20_000_000:
                out.append((r, k, fill))
                break
    return out


def sized_conc(rng, fill, blobs):
    conc = pbf.random_conc(rng)
    conc.s = pbf.Strs(rng.choice([pbf.POOLS[0], pbf.POOLS[3], {**pbf.POOLS[1], 3: "k"}]), fill)
    conc.ida, conc.idb = rng.choice([1, -1, 7, 1_000_003]), rng.choice([0, 5, 6_000_000_000])
    # strings nobody uses: blocks of up to 16 MiB
    conc.dress["pad"] = rng.choice([0, 0, 0, 70_000, 1 << 20, 5_000_000, 16_000_000]) if rng.random() < 0.3 else 0
    if conc.dress["pad"] * blobs > 64_000_000:
        conc.dress["pad"] = 64_000_000 // blobs
    if conc.dress["indexdata"] * blobs > 4_000_000:
        conc.dress["indexdata"] = 1
    conc.posk = rng.choice([1, 3, 1009])
    return conc


def sized(c, fields, n, readers=READERS):
    cases, meta = [], []
    for r, k, fill in stretchings(c.rng, stretch_records(c), n):
        conc = sized_conc(c.rng, fill, len(r["f"]) * k["f"])
        data = pbf.enc_file(enc_abstract(c.rng, stretch_file(k, r["f"])), conc).hex()
        exp = [pbf.expect(x, conc) for x in stretch_x(k, r["x"])]
        for rd in readers:
            cases.append({"op": "read", "reader": rd, "via": c.rng.choice(["stream", "file"]), "data": data, "calls": LONG_DRAIN,
                          "sched": {}})
            meta.append((exp, k, fill))
    most = 0
    for case, (exp, k, fill), r in zip(cases, meta, c.run_cases(cases, 120)):
        what = f"{case['reader']}, stretched {k} strings + {fill}"
        items = outcome(c, r, case, what)
        most = max(most, len(exp))
        if items is not None:
            if case["reader"] == "pos":
                compare(c, case, what, items, [e for e in exp if e["t"] == "n"], ("id", "ll") if "ll" in fields else ("id",))
            else:
                compare(c, case, what, items, exp, fields)
        c.validated += 1
    c.notes["stretched_files"] = c.notes.get("stretched_files", 0) + len(cases)
    c.notes["most_objects_in_a_file"] = max(most, c.notes.get("most_objects_in_a_file", 0))


BIG = (1 << 31) - 1


def small(n):
    return n if isinstance(n, int) and not isinstance(n, bool) and -BIG <= n <= BIG else -BIG


def abstract(o, conc, x=None):
    """The real object in the terms of Pbf.tla (inverse of Conc). Whatever has no abstract value becomes -BIG."""
    inv = {}
    for k, v in conc.s.items():
        inv.setdefault(v, k)
    s = lambda t: inv.get(t, -BIG)

    def lin(n, a, b=0):
        return small((n - b) // a) if isinstance(n, int) and (n - b) % a == 0 else -BIG

    opt = lambda n, a, b=0: -1 if n is None else lin(n, a, b)
    ts = o.get("ts")
    r = {"t": o["t"], "id": lin(o["id"], conc.ida, conc.idb), "tags": [[s(k), s(v)] for k, v in o.get("tags", [])],
         "refs": [lin(n, conc.refa, conc.refb) for n in o.get("nodes", [])],
         "mem": [[t, lin(i, conc.refa, conc.refb), s(ro)] for t, i, ro in o.get("mem", [])],
         "ver": opt(o.get("ver"), conc.vera), "cs": opt(o.get("cs"), conc.csa, conc.csb),
         "uid": opt(o.get("uid"), conc.uida, conc.uidb),
         "user": -1 if o.get("user") is None else s(o["user"]), "del": bool(o.get("del")),
         "hasts": ts is not None, "ts": 0 if ts is None else small(ts.get("num")), "lat": 0, "lon": 0}
    if o["t"] == "n":
        ll = o.get("ll") or [-BIG, -BIG]
        r["lat"], r["lon"] = small(ll[0]), small(ll[1])
        # 32 bit numbers in TLC
        if any(abs(v) > BIG // 101 for v in (r["lat"], r["lon"])):
            r["lat"] = r["lon"] = -BIG // 101
    if abs(r["ts"]) > BIG // 1001:
        r["ts"] = -BIG // 1001
    return r


def corrupt(rng, t, level):
    """A trace that must be rejected"""
    t = json.loads(json.dumps(t))
    obs = t["obs"]
    i = rng.randrange(len(obs))
    how = rng.choice(["drop", "dup", "field", "field"])
    if how == "drop":
        del obs[i]
    elif how == "dup":
        obs.insert(i, json.loads(json.dumps(obs[i])))
    elif level == "ident":
        obs[i]["id"] += 1
    elif level == "scale":
        obs[i]["hasts"] = not obs[i]["hasts"]
    else:
        obs[i]["tags"] = obs[i]["tags"] + [[1, 1]]
    return t


def trace_pbf(c, level, n, max_blobs=6, max_objs=25):
    """Random files, read by the real readers; TLC decides whether the reads are behaviours of the specification"""
    rng = c.rng
    cases, meta = [], []
    for _ in range(n):
        f = random_file(rng, max_blobs, max_objs)
        conc = pbf.random_conc(rng, positions=False)
        # distinct strings, or what was read could not be told apart
        conc.s = {k: v if k != 2 or v else "<" for k, v in conc.s.items()}
        data = pbf.enc_file(enc_abstract(rng, f), conc).hex()
        for rd in READERS:
            cases.append({"op": "read", "reader": rd, "via": "stream", "data": data, "calls": DRAIN, "sched": {}})
            meta.append((f, conc))
    traces, origin = [], []
    for case, (f, conc), r in zip(cases, meta, c.run_cases(cases)):
        items = outcome(c, r, case, case["reader"])
        if items is None:
            continue
        traces.append({"file": f, "obs": [abstract(o, conc) for o in items], "end": "none", "level": level})
        origin.append((case, items))
    validate(c, "PbfTrace", traces, origin, lambda t: corrupt(rng, t, level), lambda t: len(t["obs"]))


def validate(c, module, traces, origin, spoil, size, spoiled=4):
    """TLC accepts or rejects each trace. Some are spoiled on purpose: they must be rejected."""
    import core
    import os

    bad = [spoil(t) for t in traces if size(t) > 0][:spoiled]
    path = os.path.join(c.scratch, "trace.ndjson")
    with open(path, "w") as f:
        for t in traces + bad:
            f.write(json.dumps(t) + "\n")
    module, cfg = module if isinstance(module, tuple) else (module, None)
    recs = c.tlc(module, cfg, env={"TRACE": path})
    acc = {r["acc"] for r in recs}
    wrong = False
    for i, t in enumerate(traces):
        if i + 1 not in acc:
            wrong = True
            case, items = origin[i]
            c.fail(f"{module}: what the code did is not a behaviour of the specification", case, None,
                   {"trace": {k: v for k, v in t.items() if k != "file"}})
    for i in range(len(bad)):
        # spoiling a wrong one may make it right
        if len(traces) + i + 1 in acc and not wrong:
            raise core.ToolError(f"{module} accepts a spoiled trace: {json.dumps(bad[i])[:500]}")
    c.validated += len(traces)
    c.events += sum(size(t) for t in traces)
    c.notes["spoiled_traces_rejected"] = c.notes.get("spoiled_traces_rejected", 0) + len(bad)


# ---------------------------------------------------------------- the checks


def concs(c, extra, positions=True):
    def f():
        yield pbf.Conc()
        for _ in range(extra):
            yield pbf.random_conc(c.rng, positions)

    return f


def struct_records(c, what="all"):
    recs = []
    sets = [(1, 3, 2, 7), (2, 2, 1, 6), (3, 1, 1, 6), (4, 1, 1, 5)]
    if c.thorough:
        sets = [(1, 4, 2, 8), (2, 3, 2, 6), (3, 2, 1, 6), (5, 1, 1, 6)]
    for b, g, o, t in sets:
        recs += c.tlc("PbfStruct", consts={"MaxBlobs": b, "MaxGroups": g, "MaxObjs": o, "MaxTotal": t,
                                           "Rich": "TRUE"})
    seen, out = set(), []
    for r in recs:
        k = json.dumps(r, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def sample_records(c, recs, n):
    if len(recs) <= n:
        return recs
    recs = sorted(recs, key=lambda r: json.dumps(r, sort_keys=True))
    return c.rng.sample(recs, n)


def p01(c):
    recs = struct_records(c)
    c.notes["file_shapes"] = len(recs)
    recs = sample_records(c, recs, c.pick(2500, 20000))
    replay_files(c, recs, pbf.IDENT, concs(c, c.pick(1, 2), False), readers=("pbf", "arc", "pos"))
    replay_files(c, sample_records(c, recs, 60), pbf.IDENT, concs(c, 1), readers=("pbf", "arc", "pos", "read_pbf"),
                 via=("file",))
    sized(c, pbf.IDENT, c.pick(22, 120), ("pbf", "arc", "pos"))
    trace_pbf(c, "ident", c.pick(40, 300), c.pick(8, 20), c.pick(25, 60))


def p02(c):
    n = c.pick(2, 2)
    for cfg in ("PbfTag", "PbfDelta", "PbfCarry", "PbfMeta"):
        recs = c.tlc("PbfFocus", cfg, consts={"N": n})
        replay_files(c, recs, pbf.CONTENT, concs(c, c.pick(1, 6)))
    sized(c, pbf.CONTENT, c.pick(22, 120))
    trace_pbf(c, "content", c.pick(40, 300), c.pick(6, 12), c.pick(25, 50))


def p03(c):
    recs = c.tlc("PbfFocus", "PbfScale", consts={"N": 2})
    replay_files(c, recs, ("t", "id", "ll", "ts"), concs(c, c.pick(2, 20)), readers=("pbf", "arc", "pos"))
    sized(c, ("t", "id", "ll", "ts"), c.pick(11, 60), ("pbf", "arc", "pos"))
    trace_pbf(c, "scale", c.pick(40, 300), c.pick(6, 12), c.pick(25, 50))
    p03_extremes(c)


def p03_extremes(c):
    """The scaling of the specification is linear, so it is carried over to the ends of the ranges"""
    recs = c.tlc("PbfFocus", "PbfScale", consts={"N": 1})
    cases, meta = [], []
    for rec in sample_records(c, recs, c.pick(120, 244)):
        worst = max([abs(x[a]) for x in rec["x"] for a in ("lat", "lon")] + [1])
        wt = max([x["ts"] for x in rec["x"]] + [1])
        for lim in (90 * 10**9, 180 * 10**9, (2**31 - 1) * 100):
            conc = pbf.Conc(posk=lim // worst, tsk=max(1, c.rng.choice([2**31, 2**32, 253402300799]) * 1000 // wt))
            data = pbf.enc_file(rec["w"], conc).hex()
            exp = [pbf.expect(x, conc) for x in rec["x"]]
            for rd in ("pbf", "arc", "pos"):
                cases.append({"op": "read", "reader": rd, "via": "stream", "data": data, "calls": DRAIN, "sched": {}})
                meta.append(exp)
    for case, exp, r in zip(cases, meta, c.run_cases(cases)):
        items = outcome(c, r, case, case["reader"])
        if items is not None:
            if case["reader"] == "pos":
                compare(c, case, "pos", items, [e for e in exp if e["t"] == "n"], ("id", "ll"))
            else:
                compare(c, case, case["reader"], items, exp, ("t", "id", "ll", "ts"))
        c.validated += 1


def p04(c):
    recs = c.tlc("PbfFocus", "PbfMeta", consts={"N": 2})
    replay_files(c, recs, pbf.ALL, concs(c, c.pick(2, 12)))
    sized(c, pbf.ALL, c.pick(11, 60))
    trace_pbf(c, "all", c.pick(30, 200), 5, 25)


def p05(c):
    recs = []
    for cfg in ("PbfTag", "PbfDelta", "PbfCarry", "PbfMeta", "PbfScale"):
        recs += c.tlc("PbfFocus", cfg, consts={"N": c.pick(1, 2)})
    recs += struct_records(c)
    recs = sample_records(c, recs, c.pick(4000, 30000))
    datas = []
    for rec in recs:
        conc = pbf.random_conc(c.rng) if c.rng.random() < 0.7 else pbf.Conc()
        datas.append(pbf.enc_file(rec["w"], conc))
    for _ in range(c.pick(60, 600)):
        f = random_file(c.rng, 8, 40)
        conc = pbf.random_conc(c.rng, positions=False)
        conc.posk = c.rng.choice([1, 3, 100])  # no further: positions stay on the map
        datas.append(pbf.enc_file(enc_abstract(c.rng, f), conc))
    for r, k, fill in stretchings(c.rng, stretch_records(c), c.pick(22, 120)):
        datas.append(pbf.enc_file(enc_abstract(c.rng, stretch_file(k, r["f"])), sized_conc(c.rng, fill, len(r["f"]) * k["f"])))
    cases = []
    for d in datas:
        for rd in ("pbf", "arc", "pos"):
            cases.append({"op": "read", "reader": rd, "via": "stream", "data": d.hex(), "calls": LONG_DRAIN, "sched": {}})
    res = c.run_cases(cases, 120)
    for i in range(0, len(cases), 3):
        got = [outcome(c, res[i + j], cases[i + j], cases[i + j]["reader"]) for j in range(3)]
        c.validated += 1
        if None in got:
            continue
        s, a, p = got
        c.events += len(s) + len(a) + len(p)
        for k, (x, y) in enumerate(zip(s, a)):
            if x != y:
                c.fail(f"string and shared-string reader differ at object {k}", cases[i], x, y)
                break
        if len(s) != len(a):
            c.fail(f"string reader delivers {len(s)} objects, shared-string reader {len(a)}", cases[i])
        nodes = [{"t": "p", "id": x["id"], "ll": x["ll"]} for x in s if x["t"] == "n"]
        if nodes != p:
            c.fail("node positions are not those of the nodes", cases[i + 2], nodes[:20], p[:20])
