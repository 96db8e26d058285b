"""P07: damaged PBF files (PbfDamage)."""
import json

import core
import iter_checks
import pbf
import pbf_checks

BAD = ["lzma", "bz2", "lz4", "zstd", "none", "badzlib"]
KINDS = ["other", "broken", "timeout", "invalid", "denied", "block"]


def blank(k, comp):
    return {"k": k, "c": comp, "gran": 0, "la": 0, "lo": 0, "dg": 0, "st": [1, 2, 3, 4], "gr": []}


def concretise(rng, f, m=1):
    """-> (segments [(blob, segment, bytes)], expected objects, numbered from 1); m real objects for each of f"""
    conc = pbf.random_conc(rng, positions=False)
    conc.dress["indexdata"] = False
    segs, exp, n = [], [], 0
    used = []
    for i, b in enumerate(f):
        if b["c"] == "ok":
            comp = rng.choice(["raw", "zlib"])
        else:
            comp = rng.choice(BAD)
        used.append(comp)
        blob = blank(rng.choice(["header", "other"]) if b["k"] == "skip" else "data", comp)
        if b["k"] == "data":
            for k in range(b["n"] * m):
                n += 1
                if k % m == 0:
                    t = rng.choice("nwr")
                g = {"n": "dense", "w": "ways", "r": "relations"}[t]
                if not blob["gr"] or blob["gr"][-1]["k"] != g:
                    blob["gr"].append({"k": g, "objs": []})
                o = iter_checks.plain_obj(t, n)
                blob["gr"][-1]["objs"].append(o)
                x = {**o, "hasts": True, "ts": 1000, "del": False, "lat": o["lat"] * 100, "lon": o["lon"] * 100}
                exp.append(pbf.expect(x, conc))
        wire = pbf_checks.enc_abstract(rng, [blob])[0]
        for name, part in zip(("len", "hdr", "body"), pbf.enc_blob(conc, wire)):
            segs.append((i + 1, name, part))
    return segs, exp


def places(segs, nblobs):
    """Every byte of the file, and its end, with the place it is in"""
    pos = 0
    for b, s, part in segs:
        for j in range(len(part)):
            yield pos + j, {"b": b, "s": s, "in": j > 0}
        pos += len(part)
    yield pos, {"b": nblobs + 1, "s": "len", "in": False}


def key(f, d):
    return json.dumps([f, d], sort_keys=True)


NODMG = {"b": 0, "s": "none", "in": False, "how": "none"}


def make_cases(c, f, every, readers, typed=False, m=1):
    """(case, damage, expected objects) for damage at each byte (or every so many) of one concretisation of f"""
    segs, exp = concretise(c.rng, f, m)
    if every is None:
        every = max(1, sum(len(p) for _, _, p in segs) // 6)
    data = b"".join(p for _, _, p in segs)
    out = []

    def add(d, sched, dat):
        for rd in readers:
            via = "stream"
            if not sched and c.rng.random() < 0.1:
                via = "file"
            elif c.rng.random() < 0.3:
                sched = {**sched, "chunks": c.rng.choice([[1], [3], [7, 1], [64]])}
            calls = [["drain", 100_000]]
            out.append(({"op": "read", "reader": rd, "via": via, "data": dat.hex(), "calls": calls, "sched": sched}, d, exp))
            if typed and rd != "pos" and c.rng.random() < 0.15:
                t = c.rng.choice(["nodes", "ways", "rels"])
                out.append(({"op": "read", "reader": rd, "via": via, "data": dat.hex(),
                             "calls": [[t, 1]] * (len(exp) + 1), "sched": sched, "typed": t[0]}, d, exp))

    add(dict(NODMG), {}, data)
    off = c.rng.randrange(every)
    for pos, pl in places(segs, len(f)):
        if pl["in"] and pos % every != off:
            continue
        add({**pl, "how": "cut"}, {}, data[:pos])
        s = {"fail_at": pos, "kind": c.rng.choice(KINDS), "once": c.rng.random() < 0.4}
        add({**pl, "how": "fail"}, s, data)
    return out


def observed(case, r):
    """(items, end) of a run: end is ended, refused or something that must not happen"""
    bad = core.bad_run(r)
    if bad:
        return [], bad
    if r.get("open"):
        return [], "refused"
    items, end = [], None
    for x in r["calls"]:
        items += x["items"]
        end = x["end"]
        if end != "more":
            break
    return items, {"none": "ended", "panic": "refused"}.get(end, end)


def wanted(case, exp):
    if case["reader"] == "pos":
        return [e for e in exp if e["t"] == "n"], ("id", "ll")
    t = case.get("typed")
    return [e for e in exp if t is None or e["t"] == t], pbf.ALL


def judge(c, triples, allowed):
    res = c.run_cases([t[0] for t in triples], 120)
    for (case, d, exp), r in zip(triples, res):
        c.validated += 1
        items, end = observed(case, r)
        ok = allowed(d)
        n = next(iter(ok))[0]
        ends = {e for _, e in ok}
        what = f"{case['reader']}: damage {d}"
        if end not in ends:
            c.fail(f"{what}: {end} instead of {'/'.join(sorted(ends))}", case, sorted(ends), [end, len(items)])
            continue
        w, fields = wanted(case, exp[:n])
        pbf_checks.compare(c, case, what, items, w, fields)


def p07(c):
    recs = c.tlc("PbfDamage", consts={"MaxBlobs": 3, "MaxN": c.pick(1, 2)})
    table = {}
    files = {}
    for r in recs:
        table.setdefault(key(r["f"], r["d"]), set()).add((r["n"], r["end"]))
        files[json.dumps(r["f"], sort_keys=True)] = r["f"]
    files = [files[k] for k in sorted(files)]
    c.notes["file_shapes"] = len(files)
    good = [f for f in files if len(f) == 3 and all(b["c"] == "ok" or b["k"] == "skip" for b in f) and sum(b["n"] for b in f)]
    # every byte of some files
    triples = []
    for f in c.rng.sample(good, min(len(good), c.pick(6, 27))):
        triples += [(*t, f) for t in make_cases(c, f, 1, ("pbf", "arc", "pos"), typed=True)]
    # a few bytes of each segment of all of them
    for f in c.rng.sample(files, min(len(files), c.pick(120, 1000))):
        triples += [(*t, f) for t in make_cases(c, f, c.pick(37, 11), ("pbf", "arc", "pos"), typed=True)]
    allowed = {id(t[1]): table[key(t[3], t[1])] for t in triples}
    judge(c, [t[:3] for t in triples], lambda d: allowed[id(d)])
    # many objects in each blob: blobs longer than any buffer
    triples = []
    for m in c.pick((300, 2500, 9000), (300, 1000, 2500, 9000, 20000)):
        for f in c.rng.sample(good, c.pick(2, 8)):
            triples += [(*t, f, m) for t in make_cases(c, f, None, ("pbf", "arc", "pos"), m=m)]
    allowed = {id(t[1]): {(n * t[4], end) for n, end in table[key(t[3], t[1])]} for t in triples}
    judge(c, [t[:3] for t in triples], lambda d: allowed[id(d)])
    c.notes["damages_of_large_files"] = len(triples)
    traces(c, c.pick(30, 300))


def traces(c, n):
    """Larger files, damaged anywhere: recorded, and validated by TLC"""
    runs = []
    for _ in range(n):
        f = [c.rng.choice([{"k": "skip", "c": "ok", "n": 0}, {"k": "data", "c": "ok", "n": c.rng.randint(0, 12)},
                           {"k": "data", "c": "ok", "n": c.rng.randint(0, 12)},
                           {"k": "data", "c": "bad" if c.rng.random() < 0.2 else "ok", "n": 3}])
             for _ in range(c.rng.randint(1, 9))]
        ts = make_cases(c, f, 50, ("pbf", "arc"))
        for t in c.rng.sample(ts, min(len(ts), 20)):
            runs.append((*t, f))
    trs, origin = [], []
    for (case, d, exp, f), r in zip(runs, c.run_cases([t[0] for t in runs])):
        items, end = observed(case, r)
        obs = [i + 1 if i < len(exp) and pbf.diff(exp[i], o, pbf.ALL) is None else 0 for i, o in enumerate(items)]
        trs.append({"f": f, "d": d, "obs": obs, "end": end})
        origin.append((case, items))

    def spoil(t):
        t = json.loads(json.dumps(t))
        t["obs"].pop()
        return t

    pbf_checks.validate(c, "PbfDamageTrace", trs, origin, spoil, lambda t: len(t["obs"]))
