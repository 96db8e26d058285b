"""Real XML documents for the trees of XmlDoc.tla, in any markup, and what they mean."""
import datetime
import re

BAD = -2
NONE = -1
TYPES = {1: "node", 2: "way", 3: "relation"}

TEXTS = [
    ["", "name", "Hauptstraße", "highway", "primary", "x", "y", "z", "w", "v"],
    ["", "a&b", "<tag k=\"1\"/>", "it's \"quoted\"", "&amp;", "]]>", "<!--", "&#10;", "a>b", "<![CDATA["],
    ["", " lead", "trail ", "a\tb", "line\nbreak", "cr\rhere", "  ", "\r\n", "\u00a0", "\u2028"],
    ["", "日本語", "\U0001d11e", "é", "e\u0301", "\u200f", "\ud7ff", "\ue000", "\ufffd", "\U0010fffd"],
    ["", "k" * 50, "v" * 255, "=", ";", "null", "0", "-1", "/>", "--"],
]
BAD_INT = ["", "abc", "1.5", "0x10", "99999999999999999999999", "1e3", "--1", "1,000", "-"]
BAD_UINT = BAD_INT + ["-1", "4294967296"]
BAD_DEG = ["", "abc", "1,5", "NaN", "12N", "99999999", "1.2.3", "inf", "--4"]
BAD_VIS = ["", "maybe", "no way"]
BAD_TYPE = ["", "area", "nodes", "?", "12"]


class XConc:
    """How the numbers of the specification become the texts and values of a real document"""

    def __init__(self, rng=None):
        self.rng = rng
        self.fill = ""  # all texts that are not empty are that much longer
        if rng is None:
            self.texts, self.ida, self.idb, self.num, self.deg = TEXTS[0], 1, 0, 1, 15000000
            self.ts0 = 1_000_000_000
            self.frac, self.zone = "", 0
            return
        self.texts = list(rng.choice(TEXTS))
        if rng.random() < 0.5:
            pool = [t for ts in TEXTS for t in ts[1:]]
            self.texts = [""] + rng.sample(pool, 9)
        self.ida, self.idb = rng.choice([(1, 0), (1, 0), (-1, 0), (1000003, 7), (1, 2**40), (-1, 2**63 - 1), (1, -2**63)])
        self.num = rng.choice([1, 1, 1000, 429000000])
        self.deg = rng.choice([15000000, 1, -1, 12345678, -100000000, 112499999])
        self.frac = rng.choice(["", "", "", ".5", ".678", ".000001", ".999999999"])  # of a second, in all time stamps
        self.ts0 = rng.choice([1_000_000_000, 0, -1, -86400 * 365 * 300, 2**31 - 1, 2**32, 253402300000])
        self.zone = rng.choice([0, 0, 0, 2, -11]) if self.ts0 < 253402000000 else 0

    # ---- values

    def id(self, x):
        return self.ida * x + self.idb

    def uint(self, x):
        return x * self.num if x * self.num < 2**32 else x

    def inner(self, x):
        """1e-7 degrees"""
        return x * self.deg

    def text(self, x):
        t = self.texts[x] if x < len(self.texts) else f"t{x}"
        return t + self.fill if t else t

    def when(self, x):
        """As `instant` gives it"""
        return f"{self.ts0 + x}{self.frac}" if self.frac else self.ts0 + x

    # ---- texts

    def stamp(self, x):
        text = iso(self.ts0 + x + 3600 * self.zone)[:-1] + self.frac
        return text + (f"{self.zone:+03d}:00" if self.zone else "Z")

    def bad(self, pool):
        return pool[0] if self.rng is None else self.rng.choice(pool)

    def attr(self, el, k, x):
        if k in ("id", "ref"):
            return self.bad(BAD_INT) if x == BAD else str(self.id(x))
        if k in ("version", "changeset", "uid"):
            return self.bad(BAD_UINT) if x == BAD else str(self.uint(x))
        if k in ("lat", "lon"):
            return self.bad(BAD_DEG) if x == BAD else deg_text(self.inner(x), self.rng)
        if k == "visible":
            return self.bad(BAD_VIS) if x == BAD else ("true" if x == 1 else "false")
        if k == "timestamp":
            return self.stamp(x)
        if k == "type":
            return self.bad(BAD_TYPE) if x == BAD else TYPES[x]
        if k in ("k", "v", "role", "user"):
            return self.text(x)
        return f"other {x} <&>"

    # ---- expectation

    def expect(self, o):
        none = lambda x, f: None if x == NONE else f(x)
        e = {"t": o["t"][0], "id": self.id(o["id"]), "ver": none(o["ver"], self.uint), "cs": none(o["cs"], self.uint),
             "uid": none(o["uid"], self.uint), "user": none(o["user"], self.text), "ts": none(o["ts"], self.when),
             "del": o["del"], "tags": [[self.text(k), self.text(v)] for k, v in o["tags"]]}
        if e["t"] == "n":
            e["ll"] = [self.inner(v) for v in o["ll"]] if o["ll"] else None
        elif e["t"] == "w":
            e["nodes"] = [self.id(r) for r in o["nodes"]]
        else:
            e["mem"] = [[TYPES[t][0], self.id(r), self.text(role)] for t, r, role in o["mem"]]
        return e


def deg_text(n, rng=None):
    s = ("-" if n < 0 else "") + f"{abs(n) // 10**7}.{abs(n) % 10**7:07d}"
    k = rng.random() if rng else 0
    if k < 0.5:
        s = s.rstrip("0").rstrip(".")
        return "0" if s == "-0" else s
    if k < 0.6:
        return s + "0"
    return s


EPOCH = datetime.datetime(1970, 1, 1)


def iso(sec):
    return (EPOCH + datetime.timedelta(seconds=sec)).isoformat() + "Z"


def instant(ts):
    """Seconds denoted by what a reader reported"""
    if ts is None:
        return None
    if "num" in ts:
        return ts["num"]
    m = re.fullmatch(r"([^.]*)(\.\d*?)?0*([Zz]|[+-].*)", ts["iso"]) if "." in ts["iso"] else None
    text, frac = (m[1] + m[3], m[2]) if m else (ts["iso"], "")
    try:
        d = datetime.datetime.fromisoformat(text.upper().replace("Z", "+00:00"))
        n = int((d - EPOCH.replace(tzinfo=datetime.timezone.utc)).total_seconds())
        return f"{n}{frac}" if frac.strip(".") else n
    except (ValueError, TypeError):
        return ts["iso"]


FIELDS = ("t", "id", "ver", "cs", "uid", "user", "ts", "del", "tags", "ll", "nodes", "mem")


def diff(exp, obs, fields=FIELDS):
    """First difference between an expected object and an observed one, or None"""
    for f in fields:
        if f in exp or f in obs:
            e, o = exp.get(f), obs.get(f)
            if f == "ts":
                o = instant(o)
            if e != o:
                return f"{f} is {o!r}, not {e!r}"
    return None


# ---------------------------------------------------------------- markup


def esc(s, quote, rng, enc):
    """An attribute value. White space other than a space must be a character reference to survive."""
    out = []
    names = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}
    for ch in s:
        must = ch in "&<\t\n\r" or ch == quote
        try:
            ch.encode(enc)
        except UnicodeEncodeError:
            must = True
        if not must and (rng is None or rng.random() > 0.1):
            out.append(ch)
        elif ch in names and (rng is None or rng.random() < 0.5):
            out.append(names[ch])
        else:
            k = rng.random() if rng else 0
            out.append(f"&#{ord(ch)};" if k < 0.4 else f"&#x{ord(ch):x};" if k < 0.7 else f"&#x00{ord(ch):X};")
    return "".join(out)


class Style:
    def __init__(self, rng=None):
        self.rng = rng
        self.enc = "utf-8" if rng is None else rng.choice(["utf-8"] * 6 + ["utf-16", "latin-1"])
        self.quote = None if rng is None else rng.choice(['"', "'", None])
        self.noise = 0 if rng is None else rng.choice([0, 0.1, 0.5])
        self.indent = rng is None or rng.random() < 0.5
        self.shuffle = rng is not None and rng.random() < 0.6
        self.short = 0.5 if rng is None else rng.choice([0, 0.5, 1])
        self.long = 0  # a few fillers are that long

    def ws(self, lo=""):
        if self.rng is None or self.rng.random() > self.noise:
            return lo
        return self.rng.choice([" ", "\n", "\t", " \n\t", "\r\n"])

    def long_filler(self):
        if self.long and self.rng.random() < 0.05:
            a, b = self.rng.choice([("<!--", "-->"), ("<![CDATA[", "]]>"), ("", " "), ("<?pi ", "?>")])
            return a + "long & <node> " .replace("&", "&amp;" if not a else "&").replace("<node>", "" if not a else "<node>") * (self.long // 12) + b
        return None

    def filler(self):
        """What may stand between elements without meaning anything"""
        if self.rng is None:
            return "<!-- c -->"
        f = self.long_filler()
        if f:
            return f
        return self.rng.choice([" ", "\n  ", "<!-- <node id=\"1\"/> -->", "<!--x-->", "<?pi <way> ?>", "text & more".replace("&", "&amp;"),
                                "<![CDATA[<node id='9'/>]]>", "\r\n", "&#32;", "<!---->"])

    def attrs(self, pairs):
        pairs = list(pairs)
        rng = self.rng
        if self.shuffle:
            rng.shuffle(pairs)
        if rng and self.noise and rng.random() < self.noise:
            known = {k for k, _ in pairs}
            extra = rng.choice(["foo", "Id", "id2", "ID", "lat2", "versions", "xml:lang", "ref_", "uname", "k2"])
            if extra not in known:
                pairs.insert(rng.randint(0, len(pairs)), (extra, "17"))
        out = ""
        for k, v in pairs:
            q = self.quote or (rng.choice("\"'") if rng else '"')
            out += f"{self.ws(' ') or ' '}{k}{self.ws()}={self.ws()}{q}{esc(v, q, rng, self.enc)}{q}"
        return out

    def element(self, name, pairs, body):
        a = self.attrs(pairs)
        if not body and (self.rng.random() if self.rng else 0) < self.short:
            return f"<{name}{a}{self.ws(' ')}/>"
        return f"<{name}{a}{self.ws()}>{body}</{name}{self.ws()}>"


OTHER = ["note", "bounds", "meta", "foo", "nodes", "Node", "ways", "relationship", "changeset", "osm-node"]
OTHER_KID = ["center", "bounds", "foo", "tags", "ndd", "Tag", "members", "geometry"]


def render(doc, conc, style, root="osm"):
    rng = style.rng

    def kids(seq, depth):
        out = []
        for e in seq:
            if style.indent:
                out.append("\n" + "  " * depth)
            if rng and rng.random() < style.noise:
                out.append(style.filler())
            out.append(one(e, depth))
        if seq and style.indent:
            out.append("\n" + "  " * (depth - 1))
        return "".join(out)

    def one(e, depth):
        if e["n"] == "#":
            return style.filler()
        name = e["n"]
        if name in ("note", "unknown") and rng:
            name = rng.choice(OTHER_KID if name == "unknown" else OTHER)
        pairs = [(k, conc.attr(e["n"], k, v)) for k, v in e["a"]]
        if rng and e["n"] in ("create", "modify", "delete") and rng.random() < 0.3:
            pairs.append(rng.choice([("if-unused", "true"), ("if-unused", "*"), ("if-unused", ""), ("version", "0.6"), ("visible", "true"), ("visible", "false"),
                                     ("id", "5"), ("generator", "x")]))
        return style.element(name, pairs, kids(e["c"], depth + 1))

    head = '<?xml version="1.0" encoding="UTF-8"?>\n'
    pairs = [("version", "0.6"), ("generator", "t")]
    bom = False
    if rng:
        if style.enc == "utf-8":
            head = rng.choice(["", head, "<?xml version='1.0'?>", '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n'])
            bom = rng.random() < 0.1
        elif style.enc == "latin-1":
            head = '<?xml version="1.0" encoding="ISO-8859-1"?>\n'
        else:
            head = rng.choice(["", '<?xml version="1.0" encoding="UTF-16"?>'])
        head += rng.choice(["", "", "<!-- head -->\n", f"<!DOCTYPE {root}>\n", "<?x y?>"])
        pairs = rng.choice([[], pairs, [("version", "0.6"), ("note", "<>")]])
    text = head + style.element(root, pairs, kids(doc, 1))
    if rng:
        text += rng.choice(["", "\n", "<!-- end -->", "\n\n"])
    data = text.encode(style.enc)
    return (b"\xef\xbb\xbf" if bom else b"") + data


# ---------------------------------------------------------------- expat, as an independent parser


def expat_tree(data):
    """[name, {attr: value}, [children]], with text left out; raises if not well-formed"""
    import xml.parsers.expat

    root = [None, {}, []]
    stack = [root]
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True

    def start(n, a):
        e = [n, a, []]
        stack[-1][2].append(e)
        stack.append(e)

    p.StartElementHandler = start
    p.EndElementHandler = lambda n: stack.pop()
    p.Parse(data, True)
    return root[2][0]
