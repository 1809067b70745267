"""Checks of the properties about one request in one router (C01, C03-C10, C20): generated routers
and requests, judged by spec/Derive.tla and spec/Dispatch.tla, replayed on the compiled routers."""
import itertools

from common import *
from dispatch import *
from gen import *

ASSUME = ["the http crate's own parsing of request targets", "hyper's body plumbing between the scripted stream and the decoder",
          "std FromStr, serde_urlencoded and serde_json decode single values as spec/Values.tla says (bounded types)",
          "TLC evaluates the specification correctly"]


def fill(g, n, **kw):
    out = []
    while len(out) < n:
        out.append(g.decl(nested=out[-12:], **kw))
    return out


def pair(ck, decls):
    """Keeps the declarations the specification accepts."""
    number(decls)
    vd = spec_verdicts(ck, decls)
    return drop(decls, [d["name"] for d in decls if not vd[d["id"]][0]])


def rand_modes(g, base=("async",)):
    extra = ["sync", "body", "generic", "service", "blocking service"]

    def modes(c):
        return list(base) + ([extra[c["id"] % len(extra)]] if c["id"] % 3 == 0 else [])
    return modes


def go(ck, decls, make_cases, modes=None, min_runs=200, waits=0):
    art = cargo_build("rt")
    ck.log("harness built against the current tree")
    decls = pair(ck, decls)
    fl = build_fleet(ck, art, decls)
    cases = make_cases(fl)
    for i, c in enumerate(cases):
        c["id"] = i
        c["tok"] = "q%d" % i
        if waits and (i * 7919) % 100 < waits:
            c["wait"] = ["timer", "spawn", "thread"][i % 3]
    want = spec_results(ck, fl, cases)
    got = replay(ck, fl, cases, modes or (lambda c: ["async"]))
    compare(ck, fl, cases, want, got, min_runs)
    return ck.finish(assumptions=ASSUME)


def some_cases(g, n, pick=None, **kw):
    def make(fl):
        ds = [d for d in fl.decls if pick is None or pick(d)] or fl.decls
        return [g.case(i, ds[i % len(ds)], fl.by, **kw) for i in range(n)]
    return make


# ------------------------------------------------------------------------------------------ C01

LITS = ["", "a", "A", "a.b", "b", "%61", "a+", ".", "x-y", "(a)", "a*", "~", "\\d"]
SEGS = ["a", "", "A", "aa", "a.b", "axb", "b", "%61", "a+", "7", ".", "x", "x-y", "(a)", "a*", "\\d", "~"]


def weird_literal(g):
    k = g.r.choice([0, 0, 1, 2, 3, 4, 5])
    if k == 0:       # characters of one kind
        cs = g.pick(["ABXYZ", "ABXYZ", "abxyz", "aB", "0189", ".-_~", "..x", "%", "+*()", "AZaz09"])
        return "".join(g.pick(cs) for _ in range(g.r.randint(2, 12)))
    if k == 1:       # percent-encoded characters
        return "".join(g.pick(["%%%02X" % ord(c), "%%%02x" % ord(c), c]) for c in (g.pick("aZ09-._~!'()*;:@&=+$,/?#[] %") for _ in range(g.r.randint(1, 4)))).replace("/", "%2F")
    return "".join(g.pick("abzAZ019.+*?()[]|^$\\-_~!'@=&,;:% #<>é") for _ in range(g.r.randint(1, 5)))


def near_misses(g, path):
    """Every path one step away: a segment emptied, left out, doubled, lengthened, or another one put in, at every place."""
    segs = path.split("/")[1:]
    out = {path, path + "/", path + "//", path + "/x", path + "x", "/" + path, "/x" + path, path[:-1]}
    for i, x in enumerate(segs):
        for new in ([""], [], [x, x], ["x" + x], [x + "x"], [x, ""], ["", x], ["x"], [x[1:]], [x[:-1]], [x.swapcase()], [x, "x"]):
            out.add("/" + "/".join(segs[:i] + new + segs[i + 1:]))
    return sorted(p for p in out if p.startswith("/"))


def c01(ck):
    g = Gen(ck.seed, "C01")
    decls = []
    # every pattern of up to three segments over a few kinds of segment, each in a router of its own
    kinds = [("lit", "a"), ("lit", ""), ("lit", "a.b"), ("ph", ""), ("lit", g.pick(LITS))]
    pats = []
    for n in (1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            for last in (None, "rest"):
                segs = list(combo) + ([("rest", "")] if last else [])
                if len(segs) <= 3:
                    pats.append(segs)
    pats.append([("rest", "")])
    g.r.shuffle(pats)
    plain = []
    for segs in pats[:1000 if ck.thorough else 70]:
        names = iter(["p0", "p1", "p2"])
        p, fs = "", []
        for k, v in segs:
            if k == "lit":
                p += "/" + v
            else:
                n = next(names)
                p += "/{%s%s}" % (n, "..." if k == "rest" else "")
                fs.append(field(n, "Str"))
        g.r.shuffle(fs)
        plain.append(struct(g.name(), [("get", p)], fs))
    plain.append(struct(g.name(), [("get", "*")]))
    # characters that no request has there
    for p in ("/a ", "/ a", "/ ", "/a/ ", "/a\t", "/a?", "/a?b", "/a#", "/#", "/é", "/a%20", "/a{", "/a;", "/a/..", "/./a"):
        plain.append(struct(g.name(), [("get", p)]))
    plain.append(struct(g.name(), [("get", "/x /{p0...}")], [field("p0", "Str")]))
    long = "x" * g.pick([255, 256, 257, 300])
    plain.append(struct(g.name(), [("get", "/%s/{p0}" % long)], [field("p0", "Str")]))
    deep = "/".join(["a", "b"] * 20)
    plain.append(struct(g.name(), [("get", "/%s/{p0}" % deep)], [field("p0", "Str")]))
    # longer ones, of any kinds of segments
    for n in [4, 5, 6, 7, 9] * (20 if ck.thorough else 8):
        mix = g.pick([[1, 0], [0, 1], [1, 1], [1, 1], [4, 1], [1, 4]])
        segs = [g.pick(["a", "b", "A", "x-y", "a.b", "", "ab"]) if g.r.random() * sum(mix) < mix[0] else None for _ in range(n)]
        names = ["p%d" % i for i, x in enumerate(segs) if x is None]
        p = "".join("/" + (x if x is not None else "{p%d%s}" % (i, "..." if i == n - 1 and g.chance(0.3) else "")) for i, x in enumerate(segs))
        plain.append(struct(g.name(), [("get", p)], [field(x, "Str") for x in names]))
    decls += plain
    # many patterns side by side, with awkward literals
    odd = fill(g, 160 if ck.thorough else 40, nvar=(3, 10), odd=0.7, phs=(0, 2), guards=(0, 0), p_query=0, p_body=0, p_fwd=0, p_fallback=0,
               p_multi=0.4, p_star=0.3, p_unbuilt=0, p_generic=0, p_rest=0.35, ph_types=["Str"], ctx="none",
               lit=lambda: weird_literal(g) if g.chance(0.6) else g.pick(ODD + PLAIN))
    decls += odd

    def make(fl):
        out = []
        names = {d["name"] for d in plain}
        pl = [d for d in fl.decls if d["name"] in names]
        paths = ["*"] + ["/" + "/".join(c) for n in (1, 2, 3, 4) for c in itertools.product(SEGS[:9] if n > 2 else SEGS, repeat=n)
                         if n < 4 or "" in c[:1] + c[3:]]
        n = 24000 if ck.thorough else 2200
        for _ in range(n):
            d = g.pick(pl)
            r = g.routes_of(d, fl.by)[0]
            if g.chance(0.4):
                path = g.pick(paths)
            else:
                path = g.path_for(r[1], {}, 0)
                for _ in range(g.pick([0, 1, 1, 2])):
                    path = g.mutate_path(path)
            q = g.pick(["", "", "", "?", "?a", "?/a", "?x=/a/b", "?a#b"]) if path != "*" else ""
            out.append({"router": d["name"], "method": "GET", "target": path + q, "headers": [], "guards": [], "body": []})
        # long texts for placeholders
        for d in pl:
            pattern = g.routes_of(d, fl.by)[0][1]
            if "{" not in pattern:
                continue
            for n in (g.pick([256, 257, 300]), g.pick([127, 128, 129, 254, 255, 511, 512, 513, 1000, 1024, 1025])):
                fill_in = lambda s: s if "{" not in s else g.pick(["x" * n, "a/" * (n // 8) + "x", "/" * (n // 4)]) if "..." in s else g.pick(["x", "%41", "."])[:1] * n
                out.append({"router": d["name"], "method": "GET", "target": "/".join(fill_in(s) for s in pattern.split("/")).replace(" ", "x"), "headers": [], "guards": [], "body": []})
        # one step away from what each pattern spells out
        for d in pl:
            pattern = g.routes_of(d, fl.by)[0][1]
            if len(pattern) > 200:
                continue
            for near in near_misses(g, g.path_for(pattern, {}, 0)):
                out.append({"router": d["name"], "method": "GET", "target": near, "headers": [], "guards": [], "body": []})
        od = [d for d in fl.decls if d["name"] not in names]
        for i in range(16000 if ck.thorough else 3600):
            c = g.case(i, g.pick(od), fl.by, bad=0, wrong_method=0.05, mutate=0.5, forms=0.15, err=0)
            if g.chance(0.12):
                c["target"] = g.pick([str.lower, str.upper, str.swapcase, str.title])(c["target"])
            out.append(c)
        return out
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


# ------------------------------------------------------------------------------------------ C03

def permuted(g, d):
    """The same router with its variants and their routes declared in another order."""
    import copy
    e = copy.deepcopy(d)
    e["name"] = g.name()
    g.r.shuffle(e["variants"])
    for v in e["variants"]:
        g.r.shuffle(v["attrs"])
    return e


def c03(ck):
    g = Gen(ck.seed, "C03")
    k = 3 if ck.thorough else 1
    big = fill(g, 10 * k, nvar=(12, 45), odd=0.05, phs=(0, 2), guards=(0, 1), p_query=0.05, p_body=0.1, p_fwd=0.05, p_fallback=0.2, p_multi=0.5,
               p_star=0.02, p_unbuilt=0.1, p_get=0.3, p_share=0.55, p_struct=0, p_rest=0.12)
    mid = fill(g, 24 * k, nvar=(3, 9), odd=0.1, guards=(0, 1), p_fallback=0.2, p_share=0.6, p_get=0.3, p_multi=0.5, p_struct=0.05)
    # more patterns than any word has bits
    used, vs = set(), []
    while len(used) < (700 if ck.thorough else 280):
        ph = g.chance(0.05)
        p = "/" + "/".join(["x%d" % g.r.randrange(60) for _ in range(g.r.randint(1, 3))] + ["{p}"] * ph)
        if p not in used and not any(clash(p, q) for q in used):
            used.add(p)
            for ms in g.pick([[["get"]], [["get", "post"]], [["put"]], [["get"], ["delete"]], [["head"], ["get"]]]):
                vs.append(variant("V%d" % len(vs), [(m, p) for m in ms], [field("p", "Str")] if ph else []))
    huge = enum(g.name(), vs)
    decls = big + mid + [huge]
    decls += [permuted(g, d) for d in big[:6 * k] + mid[:8 * k] if d["kind"] == "enum"]

    def make(fl):
        out = [g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=0.04, wrong_method=0.35, mutate=0.15, fail=0.05, pend=0.1, err=0.02)
               for i in range(3200 * k)]
        out += [g.case(0, fl.by[huge["name"]], fl.by, bad=0, wrong_method=0.2, mutate=0.15) for i in range(400 * k) if huge["name"] in fl.by]
        # the same requests again, after others
        out += [dict(g.pick(out)) for _ in range(600 * k)]
        return out
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


# ------------------------------------------------------------------------------------------ C04

def c04(ck):
    g = Gen(ck.seed, "C04")
    k = 4 if ck.thorough else 1
    decls = []
    for _ in range(60 * k):
        # GET and HEAD routes on the same and on neighbouring paths, in every order
        n = g.r.randint(1, 4) if not g.chance(0.05) else g.r.randint(8, 16)
        vs, used = [], []
        for i in range(n):
            ph = g.r.randint(0, 2)
            names = ["p%d" % j for j in range(ph)]
            rest = ph > 0 and g.chance(0.3)
            p = g.pattern(names, rest, 0.15, 2)
            if g.chance(0.1):
                p, names = "*", []
            elif g.chance(0.15) and not rest:
                p += g.pick(["/", "//", "/.", "/..", "/head", "/a/b/c/d/e/f/g/h"])
            if any(clash(p, q) for q in used):
                continue
            used.append(p)
            ms = [m for m in ("get", "head") if g.chance(0.65)] or ["get"]
            extra = [m for m in ("post", "put", "options", "delete") if g.chance(0.2)]
            if g.chance(0.12):       # nearly all methods there are
                extra = [m for m in METHODS if m not in ms + ["head"] and (g.chance(0.9))]

            def var(ms):
                fs = [field(x, g.pick(["Str", "Str", "U8", "Even"])) for x in names]
                if g.chance(0.3):
                    fs.append(field("q", g.pick(["QDef", "QMap"]), "query_params"))
                if g.chance(0.3):
                    fs.append(field("g", g.guard("none")))
                if g.chance(0.2):
                    fs.append(field("b", g.pick(B_OWN["none"] + B_LIB), "body"))
                elif decls and g.chance(0.1):
                    fs.append(field("f", "R:" + g.pick(decls[-9:])["name"], "forward"))
                g.r.shuffle(fs)
                ren = p
                if g.chance(0.5):    # other names for the placeholders
                    for x in names:
                        ren = ren.replace("{%s" % x, "{%sx" % x)
                        for f in fs:
                            if f["n"] == x:
                                f["n"] = x + "x"
                vs.append(variant("V%d" % len(vs), [(m, ren) for m in ms], fs))
            if g.chance(0.5):
                for m in ms:
                    var([m])
                if extra:
                    var(extra)
            else:
                both = ms + extra
                g.r.shuffle(both)
                var(both)
        if g.chance(0.5):
            # one variant with several routes, some of them with a HEAD route of their own, here or elsewhere
            names = ["m%d" % j for j in range(g.pick([0, 0, 1, 2]))]
            attrs, away = [], []
            for _ in range(g.r.randint(2, 4)):
                g.r.shuffle(names)
                p = g.pattern(list(names), bool(names) and g.chance(0.2), 0.1, 2)
                if any(clash(p, q) for q in used):
                    continue
                used.append(p)
                for m in ["get"] * g.chance(0.8) + ["head"] * g.chance(0.25) + ["post"] * g.chance(0.15) or ["get"]:
                    attrs.append((m, p))
                if ("head", p) not in attrs and g.chance(0.4):
                    away.append(("head", p))
            if g.chance(0.5):
                g.r.shuffle(attrs)
            tys = {x: g.pick(["Str", "U8"]) for x in names}
            for at in [attrs] + ([away] if g.chance(0.5) else [[a] for a in away]):
                if at:
                    vs.append(variant("V%d" % len(vs), at, [field(x, tys[x]) for x in names]))
        g.r.shuffle(vs)
        if vs:
            if decls and g.chance(0.25):
                vs.insert(g.r.randint(0, len(vs)), variant("VF", [], [field("f", "R:" + g.pick(decls[-9:])["name"], "forward")]))
            decls.append(enum(g.name(), vs))
    # all kinds of other routers
    decls += fill(g, 12 * k, p_get=0.8, p_multi=0.5, p_share=0.6, p_struct=0.3, p_body=0.4)

    def make(fl):
        out = []
        for i in range(1300 * k):
            c = g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=0.1, wrong_method=0, mutate=0.1, fail=0.1)
            for m in ["HEAD", "GET"] + [g.pick(ALL_METHODS)]:
                out.append(dict(c, method=m))
        return out
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


# ------------------------------------------------------------------------------------------ C05

def broad_fallbacks(g, n, ctx="none"):
    """Routers whose fallbacks allow many methods on the same path."""
    decls = []
    for _ in range(n):
        names = ["p%d" % j for j in range(g.pick([0, 0, 1, 2]))]
        p = g.pick(["*", g.pattern(names, False, 0.05, 1)]) if not names else g.pattern(names, g.chance(0.3), 0.05, 1)
        inner = None
        for depth in range(g.pick([2, 2, 3, 4])):
            ms = g.r.sample(METHODS, g.pick([0, 1, 4, 7, 8, 9] if inner else [1, 4, 6, 7, 8, 8, 9, 9]))
            vs = []
            while ms:
                take, ms = ms[:g.r.randint(1, 9)], ms[9:]
                vs.append(variant("V%d" % len(vs), [(m, p) for m in take], [field(x, g.pick(["Str", "Str", "Str", "U8"])) for x in names]))
            if inner:
                fs = [field("f", "R:" + inner["name"], "forward")] + [field("g", g.guard(ctx))] * g.chance(0.25)
                g.r.shuffle(fs)
                vs.insert(g.r.randint(0, len(vs)), variant("VF", [], fs))
            inner = enum(g.name(), vs, ctx)
            decls.append(inner)
    return decls


def c05(ck):
    g = Gen(ck.seed, "C05")
    k = 4 if ck.thorough else 1
    decls = []
    for i in range(70 * k):
        pool = decls[-10:]
        # several variants per path, with conversions that may or may not refuse it
        vs, used = [], []
        for _ in range(g.r.randint(1, 3)):
            ph = g.pick([0, 1, 1, 2, 2, 3, 4])
            names = ["p%d" % j for j in range(ph)]
            p = g.pattern(names, ph > 0 and g.chance(0.25), 0.05, 1, lit=lambda: g.pick(["a", "b", "c"]))
            if g.chance(0.08):
                p, names = "*", []
            if any(clash(p, q) for q in used):
                continue
            used.append(p)
            ms = g.r.sample(METHODS, g.pick([1, 2, 3, 4, 5, 6, 9]))
            while ms:
                take, ms = ms[:g.r.randint(1, 3)], ms[3:] if False else ms[len(ms[:1]):]
                take = take[:1] + [m for m in take[1:] if m in ms and g.chance(0.5)]
                ms = [m for m in ms if m not in take]
                fs = [field(x, g.pick(["U8", "I16", "Even", "Str", "Bool", "Short", "Chr"])) for x in names]
                g.r.shuffle(fs)
                if g.chance(0.15):
                    fs.append(field("g", g.guard("none")))
                vs.append(variant("V%d" % len(vs), [(m, p) for m in take], fs))
        if pool and g.chance(0.55):
            fs = [field("f", "R:" + g.pick(pool)["name"], "forward")]
            if g.chance(0.4):
                fs.append(field("g", g.guard("none")))
                g.r.shuffle(fs)
            vs.append(variant("VF", [], fs))
        g.r.shuffle(vs)
        if vs:
            decls.append(enum(g.name(), vs))
    decls += broad_fallbacks(g, 8 * k)

    def make(fl):
        out = []
        for i in range(3600 * k):
            c = g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=0.3, wrong_method=0.75, mutate=0.05, fail=0.3, err=0)
            for s in c["guards"]:
                if s["out"] == "lib" and g.chance(0.6):
                    s["status"], s["allow"] = 405, g.r.sample(ALL_METHODS, g.r.randint(0, 3))
            out.append(c)
        return out
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


# ------------------------------------------------------------------------------------------ C06

def c06(ck):
    g = Gen(ck.seed, "C06")
    k = 4 if ck.thorough else 1
    decls = fill(g, 60 * k, nvar=(1, 4), phs=(1, 7), guards=(0, 1), p_query=0.1, p_body=0.15, p_fwd=0.15, p_fallback=0.3, p_multi=0.6, p_unbuilt=0.05,
                 odd=0.1, p_share=0.3, p_generic=0.25, p_rest=0.3, p_star=0)
    decls += fill(g, 6 * k, nvar=(1, 2), phs=(9, 14), guards=(0, 1), p_query=0.1, p_body=0.1, p_fwd=0, p_fallback=0, p_multi=0.6, p_rest=0.3, p_star=0)

    def make(fl):
        return [g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=g.pick([0, 0, 0.15]), wrong_method=0.03, mutate=0.08, fail=0.1, pend=0.2,
                       focus=lambda r: "{" in r[1]) for i in range(3600 * k)]
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


# ------------------------------------------------------------------------------------------ C07

def rand_query(g):
    keys = ["id", "name", "page", "q", "kind", "a", "b", "%69d", "", "x y".replace(" ", "+"), "ID", "%C3%A9"]
    vals = ["??", "?a=1", "7", "007", "x", "", "65535", "65536", "asc", "desc", "a%20b", "a+b", "%2B", "=", "1=2", "%", "%zz", "%4", "é".encode().decode("ascii", "ignore") or "e", "%C3%BC", "255", "256", "+3", "-1", "/a/b", "?", "true"]
    parts = []
    for _ in range(g.r.randint(0, 4)):
        x = g.pick(keys)
        if g.chance(0.9):
            x += "=" + g.pick(vals)
        parts.append(x)
    s = "&".join(parts)
    if g.chance(0.1):
        s += "&"
    if g.chance(0.1):
        s = "&" + s
    if g.chance(0.08):
        s = g.pick(["?", "??", "/?", "=", "+", "%3f", "%3F", ";", "/"]) + s
    return s


def c07(ck):
    g = Gen(ck.seed, "C07")
    k = 4 if ck.thorough else 1
    decls = fill(g, 60 * k, nvar=(1, 5), phs=(0, 2), guards=(0, 2), p_query=0.85, p_body=0.3, p_fwd=0.2, p_fallback=0.2, p_multi=0.3, odd=0.05,
                 p_generic=0.2, p_unbuilt=0.05)

    def make(fl):
        out = []
        for i in range(3400 * k):
            d = fl.decls[i % len(fl.decls)]
            c = g.case(i, d, fl.by, bad=0.08, wrong_method=0.03, mutate=0.03, fail=0.1, pend=0.2, forms=0.08,
                       query=rand_query(g) if g.chance(0.45) else None, focus=lambda r: r[3])
            out.append(c)
            if g.chance(0.15):        # the same path with another query, and without
                base = c["target"].split("?")[0]
                out.append(dict(c, target=base + "?" + rand_query(g)))
                out.append(dict(c, target=base))
            if i % 40 == 7 and "?" in c["target"]:        # many pairs, long texts
                base, q = c["target"].split("?", 1)
                more = lambda: "&".join(g.pick(["x=1", "zz", "a=b", "k%d=%s" % (j, "v" * g.r.randint(0, 9)), ""]) for j in range(g.pick([0, 1, 9, 31, 64, 100, 257])))
                long = g.pick(["", "w=" + g.pick(["v", "%41", "+", "="]) * g.pick([20, 255, 1024, 2100])])
                out.append(dict(c, target=base + "?" + "&".join(g.r.sample([more(), q, more(), long], 4))))
        return out
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


# ------------------------------------------------------------------------------------------ C08, C09, C10

def c08(ck):
    g = Gen(ck.seed, "C08")
    k = 4 if ck.thorough else 1
    decls = fill(g, 60 * k, nvar=(1, 4), phs=(0, 2), guards=(1, 7), p_query=0.2, p_body=0.4, p_fwd=0.35, p_fallback=0.35, p_multi=0.2, odd=0.02,
                 p_generic=0.25, p_unbuilt=0.15)

    def make(fl):
        return [g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=0.04, wrong_method=0.06, mutate=0.05, fail=g.pick([0, 0, 0.15, 0.6]),
                       pend=g.pick([0, 0.3, 0.8])) for i in range(3400 * k)]
    return go(ck, decls, make, rand_modes(g), min_runs=1000, waits=10)


def c09(ck):
    g = Gen(ck.seed, "C09")
    k = 4 if ck.thorough else 1
    decls = fill(g, 60 * k, nvar=(1, 4), phs=(0, 2), guards=(0, 3), p_query=0.25, p_body=0.75, p_fwd=0.3, p_fallback=0.25, p_multi=0.2, odd=0.02,
                 p_generic=0.1, p_unbuilt=0.05)

    def make(fl):
        return [g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=0.06, wrong_method=0.08, mutate=0.06, fail=0.08, pend=0.3, err=0.15,
                       focus=lambda r: r[4]) for i in range(3400 * k)]
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


def c10(ck):
    g = Gen(ck.seed, "C10")
    k = 4 if ck.thorough else 1
    decls = []
    for ctx in ("none", "A", "C"):
        layer = [g.decl(nvar=(1, 3), phs=(0, 2), p_body=0.5, p_fallback=0, p_fwd=0, ctx=ctx, odd=0.02, lit=lambda: g.pick("abc")) for _ in range(10 * k)]
        decls += layer
        for depth in range(4):
            nxt = []
            for _ in range(7 * k):
                if g.chance(0.3):
                    nxt.append(g.wrapper(g.pick(layer), ctx))
                else:
                    nxt.append(g.decl(nested=layer, nvar=(1, 4), phs=(0, 2), p_fwd=0.5, p_body=0.25, p_fallback=0.6, ctx=ctx, odd=0.02, p_generic=0.2,
                                      p_struct=0.05, lit=lambda: g.pick("abc")))
            decls += nxt
            layer = nxt + layer[:4]
        decls += broad_fallbacks(g, 3 * k, ctx)

    def make(fl):
        big = [d for d in fl.decls if nested_of(d)]
        return [g.case(i, big[i % len(big)], fl.by, bad=0.08, wrong_method=0.3, mutate=0.1, fail=0.12, pend=0.3, err=0.05) for i in range(3400 * k)]
    return go(ck, decls, make, rand_modes(g), min_runs=1000)


def c20(ck):
    g = Gen(ck.seed, "C20")
    k = 4 if ck.thorough else 1
    decls = fill(g, 50 * k, nvar=(1, 5), phs=(0, 3), guards=(0, 3), p_query=0.3, p_body=0.5, p_fwd=0.3, p_fallback=0.3, p_generic=0.35, odd=0.05)
    decls += [g.wrapper(g.pick(decls[-40:]), "none") for _ in range(0)]
    make = some_cases(g, 1500 * k, bad=0.1, wrong_method=0.12, mutate=0.1, fail=0.15, pend=0.4, err=0.1)
    every = ["async", "sync", "body", "generic", "service", "blocking service", "async", "sync"]
    return go(ck, decls, make, lambda c: every, min_runs=1000, waits=30)


CHECKS = {"C01": c01, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C20": c20}
