"""P17, P18, P23: histories of edits on every type of object, conversions and queries (Obj, ObjHist, ObjTrace)."""
import json

import core
import pbf
import pbf_checks
import writer_checks
import xmldoc

NONE = -1
BAD = -2
KEYS = ["n", "w", "r"]
BAD_DEG = ["NaN", "inf", "-inf", "1e10", "215", "-215.5", "214.7483648", "-214.7483650", "1e308"]
ASK = 5      # keys 0..4 are asked for


class Conc(writer_checks.WConc):
    def __init__(self, rng=None, area=False):
        super().__init__(rng)
        if rng is not None:
            self.texts = list(self.texts)
            if rng.random() < 0.2:
                self.texts = ["", "name", "Name", "area ", "name:en", "nam", "names", "\0", "AREA", "no "]
        self.texts = list(self.texts)
        if area or (rng is not None and rng.random() < 0.5):
            for t, i in (("area", 3), ("no", 2)):
                if t in self.texts:
                    self.texts[self.texts.index(t)] = self.texts[i] + "~" if self.texts[i] + "~" not in self.texts else f"<{i}>"
                self.texts[i] = t
            if rng is not None and rng.random() < 0.5:
                # almost the same
                for i, t in zip(rng.sample([1, 4, 5, 6], 3), rng.sample(["No", "NO", "nO", "no ", " no", "Area", "AREA", "area:", "yes", "false", "0"], 3)):
                    if t not in self.texts:
                        self.texts[i] = t
        assert len(set(self.texts)) == len(self.texts), self.texts
        self.width = 50
        self.many = 1      # how often each reference and member of a list stands there (lists longer than any history has)
        self.iso = rng is not None and rng.random() < 0.5
        if rng is not None and self.deg * 9 > 2**31 - 1:
            self.deg = 2**31 // 16
        if rng is not None and abs(self.deg) * 9 > 2**31:
            self.deg = -(2**31) // 16

    def uint(self, x):
        return min(x * self.num, 2**32 - 1 - (9 - x)) if x * self.num >= 2**32 else x * self.num

    def text(self, x):
        t = super().text(x)
        return t[:len(t) - len(self.fill)] if self.fill and x in (2, 3) and t.startswith(("area", "no")) else t

    def stamp(self, x):
        t = self.when(x)
        return {"iso": xmldoc.iso(t)} if self.iso else {"num": t}

    def call(self, x, rng):
        """A call of the specification, for the harness"""
        c, a, b = x["c"], x["a"], x["b"]
        none = lambda f: None if a == NONE else f(a)
        if c == "id":
            return ["id", self.id(a)]
        if c in ("ver", "cs", "uid"):
            return [c, none(self.uint)]
        if c == "del":
            return ["del", a == 1]
        if c == "ts":
            return ["ts", none(self.stamp)]
        if c == "user":
            return ["user", none(self.text)]
        if c == "tag":
            return ["tag", self.text(a), self.text(b)]
        if c == "untag":
            return ["untag", self.text(a)]
        if c == "ll":
            return ["ll", [self.inner(a), self.inner(b)]]
        if c == "lldeg":
            f = lambda v: (BAD_DEG[0] if rng is None else rng.choice(BAD_DEG)) if v == BAD else xmldoc.deg_text(self.inner(v))
            return ["lldeg", f(a), f(b)]
        if c == "nodes":
            return ["nodes", [self.id(r) for r in x["n"] for _ in range(self.many)]]
        if c == "members":
            return ["members", [["nwr"[t - 1], self.id(r), self.text(role)] for t, r, role in x["m"] for _ in range(self.many)]]
        return [c]

    def want(self, o):
        """An object of the specification, as the harness shows it"""
        none = lambda x, f: None if x == NONE else f(x)
        e = {"t": o["t"], "id": self.id(o["id"]), "ver": none(o["ver"], self.uint), "cs": none(o["cs"], self.uint),
             "uid": none(o["uid"], self.uint), "user": none(o["user"], self.text), "ts": none(o["ts"], self.when), "del": o["del"],
             "tags": [[self.text(k), self.text(v)] for k, v in o["tags"]]}
        if e["t"] == "n":
            e["ll"] = [self.inner(v) for v in o["ll"]] if o["ll"] else None
        elif e["t"] == "w":
            e["nodes"] = [self.id(r) for r in o["nodes"] for _ in range(self.many)]
        else:
            e["mem"] = [["nwr"[t - 1], self.id(r), self.text(role)] for t, r, role in o["mem"] for _ in range(self.many)]
        return e

    def abstract(self, o):
        ids = {self.id(x): x for x in range(0, self.width)}
        uints = {self.uint(x): x for x in range(0, 10)}
        texts = {self.text(x): x for x in range(0, self.width)}
        inner = {self.inner(x): x for x in range(0, 10)}
        opt = lambda x, m: NONE if x is None else m.get(x, 99)
        t = xmldoc.instant(o["ts"])
        return {"t": o["t"], "id": ids.get(o["id"], 99999), "ver": opt(o["ver"], uints), "cs": opt(o["cs"], uints), "uid": opt(o["uid"], uints),
                "user": opt(o["user"], texts), "del": o["del"],
                "ts": NONE if t is None else t - self.ts0 if isinstance(t, int) and 0 <= t - self.ts0 < 50 else 99,
                "tags": [[texts.get(k, 99), texts.get(v, 99)] for k, v in o["tags"]],
                "ll": [inner.get(x, 99999) for x in o.get("ll") or []], "nodes": [ids.get(x, 99999) for x in o.get("nodes", [])],
                "mem": [["nwr".index(t) + 1, ids.get(x, 99999), texts.get(r, 99)] for t, x, r in o.get("mem", [])]}

    def abstract_q(self, q):
        """Answers of the harness, as those of the specification (for the kind of object)"""
        texts = {self.text(x): x for x in range(0, self.width)}
        ids = {self.id(x): x for x in range(0, self.width)}
        at = q.get("at", [None, None])
        try:
            js = [[texts.get(k, 999), texts.get(v, 999)] for k, v in json.loads(q["json"], object_pairs_hook=list)]
        except ValueError:
            js = [[999, 999]]
        same = (q["has"] == [v is not None for v in q["tag"]] and q["hints"] == [[n, n] for n in q["lens"]]
                and q["tagged"] == (q["num_tags"] > 0) and q["untagged"] == (q["num_tags"] == 0)
                and q.get("nids", []) == at[:-2] and q.get("num_nodes", 0) == len(at) - 2 and q.get("at_max") is None
                and q.get("ll64", False) == q.get("has_ll", False))
        return {"js": js, "same": same, "tag": [NONE if v is None else texts.get(v, 99) for v in q["tag"]], "n": q["num_tags"], "left": q["lens"],
                "at": [NONE if v is None else ids.get(v, 99999) for v in at], "closed": q.get("closed", False), "area": q.get("area", False),
                "ll": q.get("has_ll", False), "mleft": q.get("mem_lens", [0])}


def variants(c, only=None):
    """Every representation, on its own and in the wrapper, made by hand and by a reader"""
    out = [(rp, wrap, how) for rp in ("string", "arc") for wrap in (False, True) for how in ("set", "read")]
    if c.hook:
        out += [("rc", False, "set"), ("rc", True, "set")]
    return [v for v in out if only is None or v[0] in only]


def case_of(conc, start, hist, variant, rng, **more):
    rp, wrap, how = variant
    o = conc.want(start)
    o["ts"] = None if o["ts"] is None else conc.stamp(start["ts"])
    case = {"op": "edit", "repr": rp, "t": start["t"], "wrap": wrap, "calls": [conc.call(x, rng) for x in hist], **more}
    readable = ((start["t"] != "n" or start["ll"]) and all((o[k] or 0) < 2**31 for k in ("ver", "uid", "cs")))
    if how == "read" and readable:
        d = dict(o, ts=None if start["ts"] == NONE else {"num": conc.when(start["ts"])})
        case["seed"] = pbf.one_object(d).hex()
        return case
    case["from"] = dict(o, ll=o.get("ll"), nodes=o.get("nodes", []), mem=o.get("mem", []))
    if rp == "arc":
        case["seed"] = writer_checks.SEEDS[start["t"]]
    return case


def name(case):
    return f"{case['repr']} {dict(n='node', w='way', r='relation')[case['t']]}{' (as any object)' if case['wrap'] else ''}"


def steps(c, case, r):
    """The observations of a history, or None if it failed"""
    bad = core.bad_run(r)
    if bad is None and isinstance(r, dict):
        bad = "panics: " + str(r.get("panic", r))[:200]
    if bad is None and (len(r) != len(case["calls"]) + 1 or "panic" in r[-1]):
        bad = f"call {len(r) - 1} panics: {r[-1].get('panic', '')[:200]}"
    if bad:
        c.fail(f"{name(case)}: {bad}", case, observed=r)
        return None
    return r


def shown(case, i):
    return f"after {json.dumps(case['calls'][:i][-4:], ensure_ascii=False)[:300]}"


def check_edit(c, case, conc, rec, obs):
    prev = None
    for i, (x, o) in enumerate(zip(rec["x"], obs)):
        e = conc.want(x)
        d = xmldoc.diff(e, o["o"])
        if d:
            return c.fail(f"{name(case)} {shown(case, i)}: {d}", case, e, o["o"])
        if i:
            ok = rec["r"][i - 1]
            if (o["res"] == "ok") != ok:
                return c.fail(f"{name(case)} {shown(case, i)}: a position is {'refused' if ok else 'accepted'}", case, ok, o["res"])
            d = xmldoc.diff(prev, o["before"])
            if d:
                return c.fail(f"{name(case)} {shown(case, i)}: a clone taken before the call changes: {d}", case, prev, o["before"])
        prev = e
        c.events += 1


def check_conv(c, case, conc, rec, obs):
    for i, (x, o) in enumerate(zip(rec["x"], obs)):
        e = conc.want(x)
        d = xmldoc.diff(e, o["conv"])
        if d:
            return c.fail(f"{name(case)} {shown(case, i)}, converted to a string object: {d}", case, e, o["conv"])
        c.events += 1


def check_ask(c, case, conc, rec, obs):
    for i, (x, q, o) in enumerate(zip(rec["x"], rec["q"], obs)):
        d = ask_diff(conc, x, q, o, case["wrap"])
        if d:
            return c.fail(f"{name(case)} {shown(case, i)}: {d}", case, {"object": conc.want(x), "answers": q}, o)
        c.events += 1


LONG = {"n": "node", "w": "way", "r": "relation"}


def ask_diff(conc, x, q, o, wrap):
    e = conc.want(x)
    none = lambda v, f: None if v == NONE else f(v)
    base = {"tag": [none(v, conc.text) for v in q["tag"]], "has": [v != NONE for v in q["tag"]], "num_tags": q["n"], "tagged": q["n"] > 0,
            "untagged": q["n"] == 0, "lens": q["left"], "hints": [[n, n] for n in q["left"]], "type": LONG[e["t"]]}
    kind = dict(base)
    if e["t"] == "n":
        kind.update(has_ll=q["ll"], ll64=q["ll"])
    elif e["t"] == "w":
        kind.update(num_nodes=len(e["nodes"]), at=[none(v, conc.id) for v in q["at"] for _ in range(1 if v == NONE else conc.many)], at_max=None, nids=e["nodes"],
                    closed=q["closed"], area=q["area"])
    else:
        kind.update(mem_lens=list(range((len(q["mleft"]) - 1) * conc.many, -1, -1)))
    d = xmldoc.diff(e, o["o"])
    if d:
        return d
    pairs = [(o["q"], base), (o["q"]["inner"], kind)] if wrap else [(o["q"], kind)]
    for have, want in pairs:
        for k, v in want.items():
            if have.get(k) != v:
                return f"{k} is {json.dumps(have.get(k), ensure_ascii=False)}, not {json.dumps(v, ensure_ascii=False)}"
        try:
            js = json.loads(have["json"], object_pairs_hook=list)
        except ValueError:
            return f"not JSON: {have['json'][:200]}"
        if sorted(map(list, js), key=json.dumps) != sorted(e["tags"], key=json.dumps):
            return f"the tags as JSON are {have['json'][:200]}, not {e['tags']}"
    if wrap:
        kinds = o["q"]["kind"]
        at = "nwr".index(e["t"])
        for k in ("as", "as_mut", "into"):
            for i, v in enumerate(kinds[k]):
                if (v is not None) != (i == at):
                    return f"{k}_{list(LONG.values())[i]}() gives {'something' if v else 'nothing'}"
                if v is not None and xmldoc.diff(e, v):
                    return f"{k}_{list(LONG.values())[i]}(): {xmldoc.diff(e, v)}"
        if kinds["is"] != [i == at for i in range(3)]:
            return f"is_node/is_way/is_relation: {kinds['is']}"
    return None


CHECK = {"edit": check_edit, "conv": check_conv, "ask": check_ask}


def flags(what):
    return {"edit": {}, "conv": {"conv": True}, "ask": {"q": True}}[what]


def asked(conc):
    return [conc.text(k) for k in range(ASK)]


def lists(x):
    return x["nodes"] + x["mem"]


def replay(c, recs, what, vs, k, many=0):
    """Each history in k of the variants. many: with lists which get at least so long"""
    cases, meta = [], []
    for n, rec in enumerate(recs):
        for j in range(k):
            rng = None if (n + j) % 4 == 0 else c.rng
            conc = Conc(rng, what == "ask")
            if many:
                conc.many = many // max(len(lists(x)) for x in rec["x"]) + 1
            case = case_of(conc, rec["s"], rec["h"], vs[(n + j * 3) % len(vs)] if k < len(vs) else vs[j], rng, keys=asked(conc), **flags(what))
            cases.append(case)
            meta.append((conc, rec))
    for case, (conc, rec), r in zip(cases, meta, c.run_cases(cases)):
        c.validated += 1
        obs = steps(c, case, r)
        if obs is not None:
            CHECK[what](c, case, conc, rec, obs)
    if cases:
        c.sample({"repr": name(cases[-1]), "calls": cases[-1]["calls"], "then": meta[-1][0].want(meta[-1][1]["x"][-1])})


# ---------------------------------------------------------------- long random histories, as traces


def random_start(rng, t, wide=0):
    opt = lambda: rng.choice([NONE, rng.randint(0, 9)])
    keys = rng.sample(range(10), rng.choice([0, 0, 1, 2, 5])) if not wide else rng.sample(range(wide), rng.choice(MANY_TAGS))
    return {"t": t, "id": rng.randint(0, 9), "ver": opt(), "del": rng.random() < 0.3, "cs": opt(), "ts": opt(), "uid": opt(), "user": opt(),
            "tags": [[k, rng.randint(0, wide or 9)] for k in keys],
            "ll": [rng.randint(0, 9), rng.randint(0, 9)] if t == "n" and rng.random() < 0.8 else [],
            "nodes": random_nodes(rng, wide) if t == "w" else [], "mem": random_members(rng, wide) if t == "r" else []}


MANY_TAGS = [8, 15, 16, 17, 31, 33, 64, 65, 100, 127, 128, 130, 200, 255, 256, 257, 300]
MANY = [0, 1, 100, 127, 128, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 1999, 2000, 2001, 3000]


def random_nodes(rng, wide=0):
    n = rng.choice(MANY if wide else [0, 1, 2, 3, 5, 6, 7, 8, 30])
    out = [rng.randint(0, wide or 9) for _ in range(n)]
    if n > 1 and rng.random() < 0.5:
        out[-1] = out[0]
    return out


def random_members(rng, wide=0):
    return [[rng.randint(1, 3), rng.randint(0, wide or 9), rng.randint(0, wide or 9)] for _ in range(rng.choice(MANY if wide else [0, 1, 2, 5, 20]))]


def random_call(rng, t, wide=0, present=()):
    """present: keys some of the calls are about"""
    key = lambda: rng.choice(present) if present and rng.random() < 0.5 else rng.randint(0, wide or 9)
    call = lambda c, a=0, b=0, n=(), m=(): {"c": c, "a": a, "b": b, "n": list(n), "m": list(m)}
    k = rng.random()
    if k < 0.35:
        return call("tag", key(), rng.randint(0, wide or 9))
    if k < 0.5:
        return call("untag", key())
    if k < 0.75:
        return call(rng.choice(["ver", "cs", "ts", "uid", "user"]), rng.choice([NONE, rng.randint(0, 9)]))
    if k < 0.8:
        return call("strip")
    if k < 0.85:
        return call(*rng.choice([("id", rng.randint(0, 9)), ("del", rng.randint(0, 1))]))
    v = lambda: BAD if rng.random() < 0.3 else rng.randint(0, 9)
    if t == "n":
        return rng.choice([call("ll", rng.randint(0, 9), rng.randint(0, 9)), call("llunset"), call("llnone"), call("lldeg", v(), v()),
                           call("lldeg", v(), v())])
    return call("nodes", n=random_nodes(rng, wide)) if t == "w" else call("members", m=random_members(rng, wide))


def traces(c, n, length, what, vs, wide=0):
    """wide: objects with many tags, references and members, and long texts"""
    cases, meta = [], []
    for i in range(n):
        t = "nwr"[i % 3]
        start = random_start(c.rng, t, wide)
        conc = Conc(c.rng, what == "ask")
        if wide:
            conc.width = wide + 1
            conc.fill = "~" * c.rng.choice([0, 0, 10, 20, 200, 300] if len(start["tags"]) > 20 else [0, 24, 256, 5000, 66000])
            if len(conc.fill) > 1000:
                for k in ("nodes", "mem"):
                    start[k] = start[k][:20]
        present = tuple(k for k, _ in start["tags"])
        hist = [random_call(c.rng, t, 9 if len(conc.fill) > 1000 else wide, present) for _ in range(c.rng.randint(1, length))]
        if len(conc.fill) > 1000:
            hist = [x for x in hist if len(x["m"]) < 30]
        cases.append(case_of(conc, start, hist, c.rng.choice(vs), c.rng, keys=asked(conc), **flags(what)))
        meta.append((conc, start, hist))
    trs, origin = [], []
    for case, (conc, start, hist), r in zip(cases, meta, c.run_cases(cases)):
        obs = steps(c, case, r)
        if obs is None:
            continue
        # the object before each call must not change by it, either
        if what == "edit":
            e = [{"o": conc.abstract(o["o"]), "ok": o.get("res", "ok") == "ok"} for o in obs]
            if any(conc.abstract(b["before"]) != a["o"] for a, b in zip(e, obs[1:])):
                c.fail(f"{name(case)}: a clone taken before a call changes by it", case)
        elif what == "conv":
            e = [{"o": conc.abstract(o["conv"])} for o in obs]
        else:
            e = [{"q": conc.abstract_q(o["q"]["inner"] if case["wrap"] else o["q"])} for o in obs]
        trs.append({"s": start, "h": hist, "e": e, "what": what})
        origin.append((case, [o["o"] for o in obs]))

    def spoil(t):
        t = json.loads(json.dumps(t))
        e = c.rng.choice(t["e"])
        if what == "ask":
            k = c.rng.choice(["n", "js", "same"])
            if k == "n":
                e["q"]["n"] += 1
            elif k == "same":
                e["q"]["same"] = False
            elif e["q"]["js"]:
                e["q"]["js"][-1] = [0, 98]
            else:
                e["q"]["js"] = [[1, 1]]
        elif c.rng.random() < 0.5:
            e["o"]["tags"] = e["o"]["tags"] + [[98, 1]]
        else:
            e["o"]["uid"] = 97
        return t

    pbf_checks.validate(c, ("ObjTrace", "ObjTraceWide") if wide else "ObjTrace", trs, origin, spoil, lambda t: len(t["h"]))


# ---------------------------------------------------------------- the checks

ALL = '{"n", "w", "r"}'


def histories(c, sets, n):
    out = []
    for cfg, length in sets:
        recs = c.tlc("ObjHist", "Obj" + cfg, consts={"N": length, "Kinds": ALL})
        c.notes[f"histories_{cfg}"] = len(recs)
        out.append(pbf_checks.sample_records(c, recs, n))
    return out


def run(c, what, vs):
    for recs in histories(c, c.pick((("All", 2), ("Tag", 3), ("Area", 2)), (("All", 3), ("Tag", 4), ("Area", 3))), c.pick(6000, 25000)):
        replay(c, recs, what, vs, c.pick(2, 4))
        # longer than what 16 bits count
        long = [r for r in recs if any(lists(x) for x in r["x"])]
        replay(c, c.rng.sample(long, min(len(long), c.pick(3, 20))), what, vs, len(vs) if what == "conv" else 3, many=66000)
    traces(c, c.pick(400, 3000), c.pick(25, 40), what, vs)
    traces(c, c.pick(90, 900), c.pick(10, 16), what, vs, wide=600)


def p17(c):
    run(c, "edit", variants(c))


def p18(c):
    run(c, "conv", variants(c, ("arc", "rc")))


def p23(c):
    run(c, "ask", variants(c))
    kinds(c)


def kinds(c):
    """Names of the kinds of objects: the table of the specification"""
    rows = c.tlc("Kind")
    parse = sorted({r["text"] for r in rows})
    chars = [t for t in parse if len(t) == 1]
    r = c.run_cases([{"op": "kinds", "parse": parse, "chars": chars}])[0]
    bad = core.bad_run(r)
    if bad or "names" not in r:
        return c.fail(f"names of kinds: {bad or r}")
    want = {x["text"]: x for x in rows}
    three = range(3)
    if r["order"] != [[(i > j) - (i < j) for j in three] for i in three] or r["below"] != [[i < j for j in three] for i in three]:
        c.fail("kinds are not ordered as nodes, ways, relations", None, None, r)
    if r["serde"] != [[i, i] for i in three]:
        c.fail(f"kinds come back as {r['serde']} from their serialised form", None, None, r)
    for i, n in enumerate(r["names"]):
        for k in ("short", "long", "disp"):
            x = want.get(n[k])
            if x is None or x["kind"] != i or not (x["long"] if k != "short" else x["short"]):
                c.fail(f"the {k} name of kind {i} is {n[k]!r}", None, None, r)
    for have, texts, ok in ((r["parsed"], parse, "str"), (r["chars"], chars, "char")):
        for t, k in zip(texts, have):
            if k != (want[t]["kind"] if want[t][ok] else -1):
                c.fail(f"{t!r} is parsed as kind {k}", None, want[t], r)
            c.events += 1
