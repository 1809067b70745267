"""Random declarations and requests.  Nothing in here decides what is right: it only produces
inputs, which the specification judges."""
import random

from decls import *

PLAIN = ["a", "b", "c", "users", "posts", "x1", "A", "Users", "new", "v2"]
ODD = ["", "a.b", "a+b", "a*b", "(a)", "[a]", "a|b", "^a", "a$", "%20", "a%2Fb", "%61", "~", "!", "'", "a,b", ";p=1", "@", "=", "&",
       "-", "_", ".", "..", "...", "a-b", "\\d", "[^/]+", ".*", "a{2}", "{a}b", "x{y", "(?i)a", "\\", "a?b", "#", "a b", "*", "+",
       "$", "é", "a&b", "&&", "[a&&b]", "[a-z]", "--", "~~", "a~b"]
# what the http crate takes in a path, besides the slash and percent escapes
PATH_CHARS = "!$&'()*+,-.0123456789:;=@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_abcdefghijklmnopqrstuvwxyz|~\"{}"
FIELD_NAMES = ["id", "name", "x", "y", "z", "k", "path", "request", "body", "context", "captures", "regex", "index", "method",
               "variant", "future", "raw_query", "fld_id", "e", "v", "user_id", "Id", "_u", "q1", "matches", "err", "methods",
               "status", "item", "t0", "t1", "t2", "t3", "t4", "t5", "t6",
               "p9", "_9", "__x", "n0123456789", "abcdefghijklm", "nopqrstuvwxyz", "aBCDEFGHIJKLM", "oNOPQRSTUVWXYZ", "a_"]
PH_TYPES = ["U8", "U16", "I16", "Str", "Bool", "Chr", "Even", "Short"]
Q_TYPES = ["QUnit", "QMap", "QPairs", "QReq", "QDef", "QStrict", "QSel", "Option<QReq>", "Option<QMap>", "Option<QStrict>", "Option<QDef>"]
B_OWN = {"none": ["BRaw", "BIgn", "BErr"], "A": ["BRaw", "BRawA", "BIgn", "BErr"], "B": ["BRaw"], "C": ["BRaw", "BRawA", "BRawC", "BErr"]}
B_LIB = ["JU16", "JStr", "JList", "JPt", "JOpt", "FReq", "FMap", "FPairs", "FDef"]
G_KINDS = {"none": "NI", "A": "NIA", "B": "NIB", "C": "NIABC"}
ALL_METHODS = [m.upper() for m in METHODS]


def segs_of(p):
    if p == "*":
        return None
    out = []
    for s in p[1:].split("/"):
        if s.startswith("{") and s.endswith("}") and len(s) > 2:
            out.append(("rest" if s.endswith("...}") else "ph", s.strip("{}.")))
        else:
            out.append(("lit", s))
    return out


def key(p):
    s = segs_of(p)
    return "*" if s is None else tuple((k, v if k == "lit" else "") for k, v in s)


def clash(p, q):
    """Whether two patterns look as if they compete (only used to produce plausible tables)."""
    a, b = segs_of(p), segs_of(q)
    if a is None or b is None:
        return a is None and b is None
    i = 0
    while True:
        if i >= len(a) or i >= len(b):
            return len(a) == len(b) and i >= len(a)
        (ka, va), (kb, vb) = a[i], b[i]
        if ka == "rest":
            return len(b) >= len(a)
        if kb == "rest":
            return len(a) >= len(b)
        if ka == "lit" and kb == "lit" and va != vb:
            return False
        if ka != kb and (va if ka == "lit" else vb) == "":
            return False
        i += 1


def representable(t):
    """Drops percent signs before bytes that the specification does not represent."""
    while True:
        u = re.sub("(%C3%A9|%c3%bc|%EF%BB%BF)|%([0-9a-fA-F]{2})", lambda m: m[0] if m[1] or 32 <= int(m[2], 16) <= 127 or int(m[2], 16) in (0, 9, 10, 13, 31) else m[0][1:], t)
        if u == t:
            return t
        t = u


def plain_escapes(t):
    """Replaces escapes in JSON texts that stand for characters which the specification does not represent."""
    fine = lambda e: e not in "bf" if len(e) == 1 else 32 <= int(e[1:], 16) <= 126
    return re.sub(r"\\(u[0-9a-fA-F]{4}|.)", lambda m: m[0] if fine(m[1]) else "\\n", t, flags=re.S)


class Gen:
    def __init__(self, seed, tag=""):
        self.r = random.Random("%s/%s" % (seed, tag))
        self.n = 0
        self.gn = 0
        self.gpool = {}

    def pick(self, xs):
        return self.r.choice(list(xs))

    def chance(self, p):
        return self.r.random() < p

    def name(self):
        self.n += 1
        return "R%d" % self.n

    # ---------------------------------------------------------------- patterns

    def literal(self, odd=0.2):
        return self.pick(ODD) if self.chance(odd) else self.pick(PLAIN)

    def pattern(self, names=(), rest=False, odd=0.2, maxlit=3, lit=None):
        """A pattern using the given placeholder names in order."""
        names = list(names)
        lits = [("lit", lit() if lit else self.literal(odd)) for _ in range(self.r.randint(0 if names else 1, maxlit))]
        segs = [("ph", n) for n in names]
        if rest and segs:
            last = segs.pop()
        else:
            last = None
        # interleave
        out = []
        while segs or lits:
            if segs and (not lits or self.chance(len(segs) / (len(segs) + len(lits)))):
                out.append(segs.pop(0))
            else:
                out.append(lits.pop(0))
        s = "".join("/" + (v if k == "lit" else "{%s}" % v) for k, v in out)
        if last:
            s += "/{%s...}" % last[1]
        return s or "/"

    def outer_pattern(self, ip, pool):
        """A pattern that matches at least some of the paths of a nested router's pattern."""
        s = segs_of(ip)
        if s is None:
            return ("*", [], False)
        cut = self.r.randint(0, len(s))
        names, out = [], ""
        for k, v in s[:cut]:
            if k == "rest":
                names.append(pool.pop())
                return (out + "/{%s...}" % names[-1], names, True)
            if k == "ph" or (v and self.chance(0.3)):
                names.append(pool.pop())
                out += "/{%s}" % names[-1]
            else:
                out += "/" + v
        if cut < len(s):
            names.append(pool.pop())
            return (out + "/{%s...}" % names[-1], names, True)
        return (out or "/", names, False)

    # ---------------------------------------------------------------- declarations

    def guard(self, ctx, kinds=None):
        if self.gn and self.chance(0.08) and self.gpool.get(ctx):      # a guard once more
            return self.pick(self.gpool[ctx][-3:])
        self.gn += 1
        g = "G%s%d" % (self.pick(kinds or G_KINDS[ctx]), self.gn)
        self.gpool.setdefault(ctx, []).append(g)
        return g

    def decl(self, nested=(), ctx=None, nvar=(1, 6), phs=(0, 3), guards=(0, 2), p_query=0.25, p_body=0.3, p_fwd=0.2, p_fallback=0.25,
             p_multi=0.25, p_star=0.08, p_get=0.45, odd=0.2, p_share=0.35, p_struct=0.15, p_unbuilt=0.15, p_generic=0.1, p_rest=0.2,
             bodies=None, queries=None, ph_types=None, share_types=True, lit=None, kinds=None):
        ctx = ctx if ctx is not None else self.pick(["none", "none", "none", "A", "C", "C"])
        nested = [d for d in nested if d["ctx"] == ctx]
        name = self.name()
        taken = []          # (key, method) used
        pats = []           # patterns used, with their placeholder names
        is_struct = self.chance(p_struct)
        n = 1 if is_struct else self.r.randint(*nvar)
        variants = []
        subst = []
        fallback_at = self.r.randrange(n + 1) if (nested and self.chance(p_fallback) and not is_struct) else -1
        for i in range(n + (1 if fallback_at >= 0 else 0)):
            vname = "V%d" % i
            pool = [x for x in FIELD_NAMES]
            self.r.shuffle(pool)
            fs = []
            routes = []
            if i == fallback_at:
                fs.append(field(pool.pop(), "R:" + self.pick(nested)["name"], "forward"))
            elif self.chance(p_unbuilt) and not is_struct and n > 1 and variants:
                kind = self.pick(["unit", "tuple", "named"])
                variants.append(variant(vname, [], [] if kind == "unit" else
                                        [field(pool.pop() if kind == "named" else "", self.pick(["Inert", "Str", "U8"])) for _ in range(2)], kind))
                continue
            else:
                target = self.pick(nested) if nested and self.chance(p_fwd) else None
                inner = self.routes_of(target, {}, 0) if target else []
                lead = None          # a route of the nested router that this variant lets through
                if inner and self.chance(0.85):
                    im, ip = self.pick(inner)[:2]
                    lead = self.outer_pattern(ip, pool)
                if lead:
                    names, rest = lead[1], lead[2]
                    k = len(names)
                else:
                    k = self.r.randint(*phs)
                    names = [pool.pop() for _ in range(k)]
                    rest = k > 0 and self.chance(p_rest)
                nroutes = 1 + (self.r.randint(1, 3) if self.chance(p_multi) else 0)
                for nr in range(nroutes):
                    for _try in range(25):
                        m = "get" if self.chance(p_get) else self.pick(METHODS)
                        if lead and nr == 0 and _try == 0:
                            kk = key(lead[0])
                            if self.chance(0.8):
                                m = im.lower()
                            if (kk, m) in taken or any(key(q) != kk and clash(lead[0], q) for q, _, _ in pats):
                                continue
                            routes.append((m, lead[0]))
                            taken.append((kk, m))
                            pats.append((lead[0], names, rest))
                            break
                        same = [p for p, nn, rr in pats if len(nn) == k and rr == rest]
                        if same and self.chance(p_share):
                            # same class of paths, other placeholder names
                            p = self.pick(same)
                            it = iter(names)
                            p = "/".join(("{%s%s}" % (next(it), "..." if s.endswith("...}") else "")) if (s.startswith("{") and s.endswith("}")) else s
                                         for s in p.split("/"))
                        elif k == 0 and self.chance(p_star):
                            p = "*"
                        else:
                            p = self.pattern(names, rest, odd, lit=lit)
                        kk = key(p)
                        if (kk, m) in taken or any(key(q) != kk and clash(p, q) for q, _, _ in pats):
                            continue
                        routes.append((m, p))
                        taken.append((kk, m))
                        pats.append((p, names, rest))
                        break
                if not routes:
                    continue
                for nm in names:
                    ty = self.pick(ph_types or PH_TYPES) if not (lead and self.chance(0.8)) else "Str"
                    if self.chance(p_generic) and len(subst) < 3:
                        subst.append(("T%d" % len(subst), ty))
                        ty = "T%d" % (len(subst) - 1)
                    fs.append(field(nm, ty))
                if self.chance(p_query):
                    ty = self.pick(queries or Q_TYPES)
                    if self.chance(p_generic) and len(subst) < 3:
                        subst.append(("T%d" % len(subst), ty))
                        ty = "T%d" % (len(subst) - 1)
                    fs.append(field(pool.pop(), ty, "query_params"))
                if target:
                    ty = "R:" + target["name"]
                    if self.chance(p_generic * 2) and len(subst) < 3:
                        subst.append(("T%d" % len(subst), ty))
                        ty = "T%d" % (len(subst) - 1)
                    fs.append(field(pool.pop(), ty, "forward"))
                elif self.chance(p_body):
                    fs.append(field(pool.pop(), self.pick(bodies or (B_OWN[ctx] + B_LIB)), "body"))
            for _ in range(self.r.randint(*guards)):
                ty = self.guard(ctx, kinds)
                if self.chance(p_generic / 2) and len(subst) < 3:
                    subst.append(("T%d" % len(subst), ty))
                    ty = "T%d" % (len(subst) - 1)
                fs.append(field(pool.pop(), ty))
            self.r.shuffle(fs)
            variants.append(variant(vname, routes, fs, shape=("named" if fs or self.chance(0.3) else "unit")))
        if not any(v["attrs"] for v in variants) and fallback_at < 0:
            variants.append(variant("V99", [("get", "/only")]))
        if is_struct and len(variants) == 1 and variants[0]["attrs"]:
            v = variants[0]
            return self.spelled(struct(name, [(a["n"], a["a"]) for a in v["attrs"]], v["fields"], ctx, subst, v["shape"]))
        # a type parameter must be used, and only where it was introduced
        return self.spelled(enum(name, variants, ctx, subst))

    def spelled(self, d, p=0.25):
        if self.chance(p):
            d["spell"] = self.pick(["macro", "macro", "module", "noise"])
        if self.chance(0.3):
            d["alias"] = True
        return d

    def wrapper(self, inner, ctx, guards=(0, 2)):
        """A struct that only forwards."""
        fs = [field("inner", "R:" + inner["name"], "forward")]
        for i in range(self.r.randint(*guards)):
            fs.append(field("g%d" % i, self.guard(ctx)))
        self.r.shuffle(fs)
        return struct(self.name(), [], fs, ctx)

    # ---------------------------------------------------------------- requests

    def free_text(self, n, escapes=True):
        """Text of up to about n characters that may stand between two slashes."""
        return "".join("%%%02x" % self.r.randrange(256) if escapes and self.chance(0.08) else self.pick(PATH_CHARS)
                       for _ in range(self.r.randint(1, n)))

    def ph_text(self, ty, bad=0.15):
        good = {"U8": ["0", "7", "255", "007", "+5"], "U16": ["0", "65535", "256", "00012"], "I16": ["-5", "0", "32767", "-32768", "+9"],
                "Str": ["x", "a.b", "%20", "A", "{}"[:0] + "~", "7", "a&b=c", "x" * 30], "Bool": ["true", "false"], "Chr": ["x", "7", "%"],
                "Even": ["0", "2", "65534", "+4"], "Short": ["x", "abc", "%7e"]}
        wrong = {"U8": ["256", "x", "-1", "1e2", "999999999999", "+", "0x1"], "U16": ["65536", "-0", "1.0"], "I16": ["32768", "-", "a"],
                 "Str": ["7"], "Bool": ["True", "1", "TRUE"], "Chr": ["ab", "%20"], "Even": ["1", "x", "65536"], "Short": ["abcd", "longer"]}
        if ty not in good:
            return self.pick(["x", "7", "true", "2"])
        if self.chance(0.35):
            if ty in ("U8", "U16", "I16", "Even"):
                lo, hi = {"U8": (0, 255), "I16": (-32768, 32767)}.get(ty, (0, 65535))
                n = self.r.randint(hi + 1, 10 * hi) if self.chance(bad) else self.r.randint(lo, hi)
                return str(n - n % 2 if ty == "Even" and not self.chance(bad) else n)
            if ty == "Str":
                return self.free_text(self.pick([1, 2, 4, 8, 20, 150] * 3 + [600]))
            if ty == "Short":
                return self.free_text(5 if self.chance(bad) else 3, False)
            if ty == "Chr":
                return self.pick(PATH_CHARS)
        return self.pick(wrong[ty]) if self.chance(bad) else self.pick(good[ty])

    def path_for(self, pat, types, bad=0.15):
        s = segs_of(pat)
        if s is None:
            return "*"
        out = []
        for k, v in s:
            if k == "lit":
                out.append(v)
            elif k == "ph":
                out.append(self.ph_text(types.get(v, "Str"), bad))
            else:
                out.append(self.pick([self.ph_text(types.get(v, "Str"), bad), "", "x/y", "a//b/", "x/", "/", self.ph_text(types.get(v, "Str"), 0)]))
        return "/" + "/".join(out)

    def mutate_path(self, p):
        if p == "*":
            return self.pick(["/*", "*", "/"])
        k = self.r.randrange(17)
        segs = p[1:].split("/")
        i = self.r.randrange(len(segs))
        if k == 0:
            return p + "/"
        if k == 1:
            return "/" + p
        if k == 2:
            return p.swapcase()
        if k == 3 and len(segs) > 1:
            del segs[i]
        elif k == 4:
            segs.insert(i, self.pick(["", "x", "a", "7", "."]))
        elif k == 5:
            segs[i] = segs[i] + self.pick(["x", "/", ".", "0", "%20"])
        elif k == 6:
            segs[i] = self.pick(["x", "z"]) + segs[i]
        elif k == 7:
            segs[i] = "".join("%%%02x" % ord(c) if ord(c) < 128 and self.chance(0.5) else c for c in segs[i])
        elif k == 8:
            segs[i] = ""
        elif k == 9:
            segs[i] = segs[i][:-1]
        elif k == 10:
            segs[i] = self.literal(0.5)
        elif k == 12:
            return p.strip(" \t#?\\") or "/"
        elif k == 13:
            segs[i] = segs[i].strip(" \t#?\\-._~!;,")
        elif k == 14:        # another spelling of the same characters
            segs[i] = re.sub("%([0-9a-fA-F]{2})", lambda m: self.pick([chr(int(m[1], 16)), m[0].lower(), m[0].upper()]) if 33 <= int(m[1], 16) <= 126 and chr(int(m[1], 16)) not in "/?#" else m[0].swapcase(), segs[i])
        elif k == 15 and segs[i]:        # one character replaced or added
            j = self.r.randrange(len(segs[i]))
            segs[i] = segs[i][:j] + self.pick("aX0.-_~") + segs[i][j + self.pick([0, 1]):]
        elif k == 16:
            segs[i] = segs[i].lower() if self.chance(0.5) else segs[i].upper()
        else:
            segs[i] = segs[i].replace(".", "x").replace("+", "").replace("*", "aa") or "q"
        return "/" + "/".join(segs)

    def query_for(self, ty):
        ty = ty.replace("Option<", "").replace(">", "")
        pool = {
            "QUnit": ["", "&", "a=1"],
            "QMap": ["a=1&b=2", "", "a=1&a=2", "b&a=%41+x", "=", "a==b", "%61=1&a=2", "a=1;b=2", "x=%zz", "a=%C3%A9", "k=v&&z=%2"],
            "QPairs": ["a=1&a=2", "", "b=2&a=1&", "a=%26&b=%3D", "=x", "%C3%BC=1"],
            "QReq": ["id=7", "id=7&name=bob", "name=x", "id=x", "id=7&id=8", "id=65536", "name=a%20b&id=0", "id=+5", "id=%37", "id=7&other=1", "id=", "", "id=7&name=", "ID=7",
                     "name=a&name=b&id=1", "id=12;name=x"],
            "QDef": ["", "page=3", "q=hello+world", "page=x", "page=256", "q=a&page=9", "page=1&page=2", "zzz", "q=%2B"],
            "QStrict": ["id=7", "id=7&x=1", "", "id=9&", "x=1", "id=1&id=1"],
            "QSel": ["kind=asc", "kind=desc", "kind=up", "", "kind=ASC", "kind=asc&x", "kind=desc&kind=asc"],
        }
        if ty in pool and self.chance(0.4):
            return self.form(ty)
        return self.pick(pool.get(ty, ["", "a=1"]))

    def form_text(self, n):
        """Encoded text for a form, of up to about n characters."""
        out = ""
        for _ in range(self.r.randint(0, n)):
            k = self.r.randrange(12)
            if k == 0:
                out += "%%%02X" % self.r.randint(32, 126)
            elif k == 1:
                out += "%%%02x" % self.r.randint(32, 126)
            elif k == 2:
                out += self.pick(["+", "%", "%4", "%g1", "%C3%A9", "%c3%bc", ";", "=", "%26", "%3d", "%25", "%2b", "%00", "%0D%0A", "%0a", "%09", "%7F", "%EF%BB%BF"])
            else:
                out += self.pick("abcXYZ0189-_.~!$'()*,:@/?")
        # only bytes the specification represents
        return representable(out)

    def form(self, ty):
        keys = {"QReq": ["id", "name"], "QDef": ["page", "q"], "QStrict": ["id"], "QSel": ["kind"], "QUnit": ["a"]}.get(ty, ["a", "b", "k"])
        parts = []
        for k in self.r.sample(keys, self.r.randint(0 if len(keys) > 1 else 1, len(keys))):
            v = (str(self.r.randint(0, 70000 if self.chance(0.3) else 65535)) if k == "id" else str(self.r.randint(0, 300)) if k == "page" and self.chance(0.8)
                 else self.pick(["asc", "desc"]) if k == "kind" and self.chance(0.7) else self.form_text(self.pick([3, 12, 60])))
            if self.chance(0.1):
                k = "".join("%%%02x" % ord(c) if self.chance(0.5) else c for c in k)
            parts.append(k + "=" + v)
        while self.chance(0.25):
            parts.insert(self.r.randint(0, len(parts)), self.pick(["", "x=1", self.form_text(5), self.form_text(3) + "=" + self.form_text(3)]))
        self.r.shuffle(parts)
        return "&".join(parts)

    def json(self, ty, depth=2):
        """A JSON text, usually of the wanted shape."""
        sp = lambda: self.pick(["", "", "", " ", "\n", "\t ", "\r\n"])
        num = lambda hi: str(self.r.randint(-hi if self.chance(0.2) else 0, hi * 2 if self.chance(0.1) else hi))
        k = {"JU16": 0, "JStr": 1, "JList": 2, "JPt": 3, "JOpt": self.pick([0, 0, 5])}.get(ty, self.r.randrange(6))
        if depth == 2 and self.chance(0.08):
            k = self.r.randrange(6)
        if k == 0:
            t = num(65535)
        elif k == 1:
            t = '"' + "".join(self.pick("abc XYZ09.,:;{}[]()+-*/=&%$#@!?'<>|~^_" + ("\u00c3" if self.chance(0.02) else "a")) if self.chance(0.9) else self.pick(["\u00c3\u00a9", "\\n", '\\"', "\\\\", "\\u0041"])
                              for _ in range(self.r.randint(0, self.pick([3, 10, 80])))) + '"'
        elif k == 2:
            t = "[" + ",".join(sp() + (num(65535) if ty == "JList" and self.chance(0.95) else self.json("", depth - 1) if depth else "1") + sp()
                               for _ in range(self.r.randint(0, self.pick([3, 8, 30])))) + "]"
        elif k == 3:
            ms = []
            for key in ["x", "y"] + ["z", "w"] * self.chance(0.2):
                if self.chance(0.85):
                    ms.append('%s"%s"%s:%s%s%s' % (sp(), key, sp(), sp(), num(32767) if key in "xy" and self.chance(0.9) else self.json("", depth - 1) if depth else "null", sp()))
            self.r.shuffle(ms)
            t = "{" + (",".join(ms) or sp()) + "}"
        else:
            t = self.pick(["null", "true", "false", "nul", "1.5", "-0", "1e3", "0.0", "01", "+1", "'a'"])
        if self.chance(0.06):
            i = self.r.randint(0, len(t))
            t = t[:i] + self.pick(["", "}", "]", ",", '"', " ", "x"]) + t[i + self.pick([0, 1]):]
        return sp() + t + sp() if depth == 2 else t

    def doc(self, ty):
        return plain_escapes(self.doc_text(ty)) if str(ty).startswith("J") else self.doc_text(ty)

    def doc_text(self, ty):
        pool = {
            "JU16": ["12", "0", "65535", " 7 ", "65536", "-1", "1.0", "007", "x", "", "12 3", "\"12\"", "[12]", "1e1", "\n5\n"],
            "JStr": ['"abc"', '""', '"a b"', '"\u00c3\u00a9t\u00c3\u00a9"', '"abc', "abc", '"a"b', '"x\u00c3\u00bc" ', '"\u00c3"', "5", '"a\\"b"', '"\\\\"', '"\\n"', '"\\u0041\\/"', '"\\u00"', '"\\x"', '"a\\', 'null', '"\u00a9"', '"%41"'],
            "JList": ["[]", "[1,2,3]", "[1, 2]", "[1,]", "[", "[1 2]", "[70000]", " [ 5 ] ", "[[1]]", "[1,2,3", '[1,"2"]', "[" + ",".join(str(i) for i in range(60)) + "]"],
            "JOpt": ["null", "7", "", "nul", " null ", "[]", "65536", "null null", "\"null\""],
            "JPt": ['{"x":1}', '{"x":-5,"y":6}', '{"y":null,"x":0}', '{"y":1}', '{"x":1,"x":2}', '{"x":1,"z":[1,{"q":"w"}]}', '{"x":1', "[1,2]", "[1]", '{"x":"1"}', '{"x":1}}', "[1,null]", "{}",
                    '{"x":32768}', '{ "x" : 3 , "y" : -0 }'],
            "FReq": ["id=7", "id=7&name=bob+x", "name=x", "id=7&id=8", "", "id=%37&name=%C3%A9"],
            "FMap": ["a=1&b=2", "", "a=1&a=2", "x=%41&y=a+b", "a", "=&="],
            "FPairs": ["a=1&a=2", "", "&&", "b=1&a=%3D"],
            "FDef": ["", "page=5&q=x", "page=x", "q=" + "y" * 50],
        }
        if ty in B_LIB and self.chance(0.15):        # bytes that some program or other treats specially
            t = self.json(ty) if ty[0] == "J" else self.form({"FReq": "QReq", "FMap": "QMap", "FPairs": "QPairs", "FDef": "QDef"}[ty])
            special = self.pick(["\0", "\0", "\r\n", "\n", "\u00ef\u00bb\u00bf", "\x7f", "\x1f", "\t"])
            i = self.pick([0, len(t), self.r.randint(0, len(t)), max(0, len(t) - 1), min(1, len(t))])
            return representable(t[:i] + special + t[i:] + (special + self.json(ty) if ty[0] == "J" and self.chance(0.3) else ""))
        if ty in ("FReq", "FMap", "FPairs", "FDef") and self.chance(0.15):
            t = self.form({"FReq": "QReq", "FMap": "QMap", "FPairs": "QPairs", "FDef": "QDef"}[ty])
            for _ in range(self.r.randint(1, 3)):
                i = self.r.randint(0, len(t))
                t = t[:i] + self.pick(["\n", "\r\n", "\t", " ", '"', "\\"]) + t[i:]
            return representable(t)
        if ty in B_LIB and self.chance(0.5):
            return self.json(ty) if ty[0] == "J" else self.form({"FReq": "QReq", "FMap": "QMap", "FPairs": "QPairs", "FDef": "QDef"}[ty])
        return self.pick(pool.get(ty, ["", "hello", "a=1&b=2", '{"x":1}', "x" * 20, "12", "caf\u00c3\u00a9"]))

    def chunk(self, doc, err=0.08):
        """A body spelling the document in pieces."""
        out = []
        i = 0
        mode = self.r.randrange(5)
        while i < len(doc):
            n = len(re.match("\r\n|\u00ef\u00bb\u00bf|[^\r\u00ef]+|.", doc[i:], re.S)[0]) if mode == 4 else {0: len(doc), 1: 1, 2: self.r.randint(1, 3), 3: self.r.randint(1, max(1, len(doc)))}[mode]
            if self.chance(0.2):
                out.append({"k": "p", "t": ""})
            if self.chance(0.1):
                out.append({"k": "d", "t": ""})
            out.append({"k": "d", "t": doc[i:i + n]})
            i += n
        if self.chance(0.2):
            out.append({"k": "p", "t": ""})
        if self.chance(err):
            out.insert(self.r.randint(0, len(out)), {"k": "e", "t": "boom%d" % self.r.randrange(100)})
        return out

    def guard_scripts(self, d, by_name, fail=0.25, pend=0.4):
        out = []
        for n in sorted(closure([d["name"]], by_name)):
            dd = by_name[n]
            tys = [f["ty"] for v in dd["variants"] for f in v["fields"]] + [s["ty"] for s in dd["subst"]]
            for ty in tys:
                if not re.match(r"G[NABCI]\d", ty):
                    continue
                s = {"g": ty, "pend": self.r.randint(1, 3) if self.chance(pend) and ty[1] != "I" else 0, "out": "ok", "status": 0, "allow": []}
                if self.chance(fail):
                    s["out"] = self.pick(["lib", "lib", "other"])
                    if s["out"] == "lib":
                        s["status"] = self.pick([400, 401, 403, 404, 405, 418, 500, 503]) if self.chance(0.6) else self.r.randint(400, 599)
                        if s["status"] == 405:
                            s["allow"] = self.r.sample(ALL_METHODS, self.r.randint(0, 3))
                if s["pend"] or s["out"] != "ok":
                    out.append(s)
        return out

    def routes_of(self, d, by_name, depth=3):
        """(method, pattern, {placeholder: type}, query type, body type) of a router and those nested in it."""
        out = []
        sub = {s["n"]: s["ty"] for s in d["subst"]}
        for i, v in enumerate(d["variants"]):
            at = d["attrs"] if d["kind"] == "struct" else v["attrs"]
            types = {f["n"]: sub.get(f["ty"], f["ty"]) for f in v["fields"]}
            q = [types[f["n"]] for f in v["fields"] if any(a["n"] == "query_params" for a in f["attrs"])]
            b = [types[f["n"]] for f in v["fields"] if any(a["n"] == "body" for a in f["attrs"])]
            for a in at:
                if a["n"] in METHODS and a["form"] == "str":
                    out.append((a["n"].upper(), a["a"], types, q[0] if q else None, b[0] if b else None))
            if depth:
                for f in v["fields"]:
                    ty = types[f["n"]]
                    if ty.startswith("R:") and ty[2:] in by_name:
                        out += self.routes_of(by_name[ty[2:]], by_name, depth - 1)
        return out

    def headers(self):
        """Request headers that must not make a difference to anything but what user code sees."""
        out = []
        if self.chance(0.4):
            out.append(["content-type", self.pick(["application/json", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x",
                                                   "application/json; charset=latin1", "application/octet-stream", "text/html", "application/JSON", "text/json",
                                                   "application/vnd.api+json", "application/x-www-form-urlencoded; charset=utf-8", "x", "", "*/*", "application/xml"])])
        if self.chance(0.2):
            out.append(["content-length", self.pick(["0", "1", "3", "9999", "x", str(self.r.randint(0, 50))])])
        for _ in range(self.pick([0, 0, 0, 1, 1, 2, 3])):
            out.append(self.pick([["transfer-encoding", "chunked"], ["content-encoding", "gzip"], ["expect", "100-continue"], ["trailer", "x"], ["te", "trailers"],
                                  ["connection", "close"], ["connection", "upgrade"], ["upgrade", "websocket"], ["host", "other.example"], ["host", ""], ["accept", "text/html"],
                                  ["accept", "application/json;q=0"], ["accept-encoding", "gzip"], ["range", "bytes=0-1"], ["if-none-match", "*"], ["if-match", "x"],
                                  ["if-modified-since", "Thu, 01 Jan 1970 00:00:00 GMT"], ["origin", "http://evil"], ["access-control-request-method", "PUT"],
                                  ["cookie", "a=b"], ["authorization", "Basic x"], ["x-forwarded-for", "1.2.3.4"], ["x-forwarded-prefix", "/a"], ["x-original-url", "/a"],
                                  ["x-rewrite-url", "/b"], ["x-http-method", "DELETE"], ["x-method-override", "PUT"], ["max-forwards", "0"], ["referer", "/"],
                                  ["content-language", "de"], ["content-range", "bytes 0-1/2"], ["user-agent", "curl"], ["accept", "*/*"], ["accept-charset", "x"],
                                  ["content-md5", "x"], ["date", "x"], ["via", "1.1 x"], ["pragma", "no-cache"], ["prefer", "return=minimal"]]))
        for h in out[:]:        # repeated ones stay repeated
            if self.chance(0.15):
                out.insert(self.r.randint(0, len(out)), [h[0], self.pick([h[1], "y", "", "a=b; c=d", "1, 2", "z" * 300])])
        return out

    def case(self, cid, d, by_name, bad=0.12, wrong_method=0.2, mutate=0.2, fail=0.25, pend=0.4, err=0.08, forms=0.1, query=None, focus=None):
        rs = self.routes_of(d, by_name)
        if focus:
            rs = [x for x in rs if focus(x)] or rs
        if rs:
            m, p, types, q, b = self.pick(rs)
        else:
            m, p, types, q, b = "GET", "/", {}, None, None
        path = self.path_for(p, types, bad)
        if self.chance(mutate):
            path = self.mutate_path(path)
        if self.chance(wrong_method):
            m = self.pick(ALL_METHODS + ["PURGE", "get", "HEAD", "GET"])
        elif m == "GET" and self.chance(0.3):
            m = "HEAD"
        target = path
        qs = query if query is not None else (self.query_for(q) if q else self.pick(["", "", "a=1", "id=7", "/x"]))
        if path != "*":
            if qs or self.chance(0.1):
                target += "?" + qs
            if self.chance(forms):
                k = self.r.randrange(4)
                if k == 0:
                    target = "http://h.example" + target
                elif k == 1:
                    target = self.pick(["http://h.example", "http://h.example?" + qs, "https://u:p@h.example:81/"])
                elif k == 2:
                    target = self.pick(["h.example:80", "localhost:1"])
                else:
                    target = self.pick(["*", "/*", "/", "//"])
        doc = self.doc(b)
        hs = []
        hs += self.headers()
        if self.chance(0.2):
            hs += [["x-http-method-override", self.pick(ALL_METHODS)], ["x-multi", "1"], ["x-multi", "2"]]
        return {"id": cid, "router": d["name"], "method": m, "target": target, "tok": "q%d" % cid, "headers": hs,
                "guards": self.guard_scripts(d, by_name, fail, pend), "body": self.chunk(doc, err)}
