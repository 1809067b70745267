"""Checks about which declarations are accepted (C02, C13)."""
import copy
import itertools

from common import *
from dispatch import *
from gen import *

ASSUME = ["rustc -Zno-analysis runs the derive on every item of a file and reports every refusal",
          "TLC evaluates the specification correctly"]


def two_routes(g, routes, split):
    """A router with the given (method, segments) routes, on one variant each or all on one."""
    vs = []
    for i, (m, segs) in enumerate(routes):
        names, p = [], ""
        if segs == "*":
            p = "*"
        else:
            for k, v in segs:
                if k == "lit":
                    p += "/" + v
                else:
                    names.append("p%d%s" % (len(names), g.pick(["", "x"]) if split else ""))
                    p += "/{%s%s}" % (names[-1], "..." if k == "rest" else "")
        fs = [field(n, "Str") for n in names]
        if not split and vs and [f["n"] for f in vs[0]["fields"]] == names:
            vs[0]["attrs"].append(route(m, p))
        else:
            vs.append(variant("V%d" % i, [(m, p)], fs))
    return enum(g.name(), vs)


def c02(ck):
    g = Gen(ck.seed, "C02")
    # The overlap test of the derive against "some path is matched by both", exhaustively for small patterns
    ck.tlc_ok("MC_Overlap", cfg="MC_Overlap3" if ck.thorough else None, timeout=840)
    kinds = [("lit", "a"), ("lit", "b"), ("lit", ""), ("ph", "")]
    small = [[x] for x in kinds] + [[("rest", "")]] + [list(p) + [x] for p in itertools.product(kinds, repeat=1) for x in kinds + [("rest", "")]]
    if ck.thorough:
        small += [list(p) + [x] for p in itertools.product(kinds, repeat=2) for x in kinds + [("rest", "")]]
    small.append("*")
    decls = []
    for a, b in itertools.product(small, repeat=2):
        m = g.pick(METHODS)
        decls.append(two_routes(g, [(m, a), (m if g.chance(0.5) else g.pick(METHODS), b)], g.chance(0.7)))

    def rseg(lits):
        return ("ph", "") if g.chance(0.4) else ("lit", g.pick(lits))
    for _ in range(12000 if ck.thorough else 1500):
        lits = ["", "a", "b", g.pick(ODD), g.pick(PLAIN)]
        if g.chance(0.1):      # literals that are almost the same
            lits = list(set(["a" * g.r.randint(1, 40), "a" * g.r.randint(1, 40), "A", g.pick(ODD), g.pick(ODD)[:-1], g.pick(ODD) + " ", "1", "01", ".", "..", "%61"]))
        deep = g.r.randint(5, 40) if g.chance(0.08) else 0
        base = [rseg(lits) for _ in range(deep)]

        def rpat():
            if g.chance(0.04):
                return "*"
            if deep:           # long ones, which differ somewhere at most
                s = [x if g.chance(0.97) else rseg(lits) for x in base]
                if g.chance(0.3):
                    s = s[:g.r.randint(1, deep)]
            else:
                s = [rseg(lits) for _ in range(g.r.randint(0, 4))]
            if not s or g.chance(0.35):
                s.append(("rest", ""))
            return s
        pats = [rpat() for _ in range(g.r.randint(2, 5) if not g.chance(0.03) else g.r.randint(6, 14))]
        if g.chance(0.5):      # neighbours: one segment changed, dropped or added
            p = g.pick(pats)
            if p != "*":
                q = [list(x) and x for x in p]
                i = g.r.randrange(len(q))
                r = g.r.randrange(4)
                if r == 0 and q[i][0] != "rest":
                    q[i] = rseg(lits)
                elif r == 1 and len(q) > 1:
                    del q[i]
                elif r == 2:
                    q.insert(i, rseg(lits))
                pats.append(q)
        g.r.shuffle(pats)
        ms = [g.pick(["get", "post", "head", "put"]) for _ in pats]
        d = two_routes(g, list(zip(ms, pats)), g.chance(0.7))
        decls.append(d)
        if g.chance(0.5):      # the verdict must not depend on the order
            e = copy.deepcopy(d)
            e["name"] = g.name()
            g.r.shuffle(e["variants"])
            decls.append(e)
    # Large tables in which at most two routes, anywhere, have to do with each other
    for _ in range(400 if ck.thorough else 60):
        n = g.r.randint(7, 40)
        pats = [[("lit", "r%d" % i)] + [rseg(["a", "b", ""]) for _ in range(g.r.randint(0, 3))] + ([("rest", "")] if g.chance(0.2) else []) for i in range(n)]
        q = list(g.pick(pats[:2] + pats[-2:] if g.chance(0.5) else pats))
        i, r = g.r.randint(min(1, len(q) - 1), len(q) - 1), g.r.randrange(6)
        if r == 0:
            q[i] = rseg(["a", "b", ""])
        elif r == 1:
            q[i:] = [("rest", "")]
        elif r == 2:
            q = q[:-1] + [("lit", "a")] if len(q) > 1 else q + [("lit", "")]
        elif r == 3:
            q = [x for x in q if x[0] != "rest"] + [g.pick([("rest", ""), ("ph", ""), ("lit", "a")])]
        elif r == 4:
            q[0] = ("ph", "")
        pats.append(q)
        if g.chance(0.7):
            g.r.shuffle(pats)
        decls.append(two_routes(g, [(g.pick(["get", "post", "put"]), x) for x in pats], g.chance(0.8)))
    number(decls)
    art = cargo_build("rt")
    ck.log("harness built against the current tree")
    vd = spec_verdicts(ck, decls, timeout=840)
    real = derive_verdicts(ck, art, decls)
    ok = judge_derives(ck, decls, vd, real)
    n_acc = sum(1 for v in vd.values() if v[0])
    ck.log("%d declarations: the specification accepts %d; the derive agrees to accept %d" % (len(decls), n_acc, len(ok)))
    ck.notes["declarations"] = {"total": len(decls), "accepted": n_acc}
    for d in decls[::max(1, len(decls) // 6)]:
        ck.sample({"declaration": emit_decl(d, {}), "specified": vd[d["id"]], "derive": real[d["name"]] or "accepted"})
    # Some of the accepted ones are run: what was accepted must also be unambiguous when it runs
    acc = [d for d in decls if d["name"] in set(ok)]
    acc = g.r.sample(acc, min(len(acc), 400 if ck.thorough else 90))
    fl = build_fleet(ck, art, acc)
    cases = [g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=0, wrong_method=0.2, mutate=0.4, err=0, forms=0) for i in range(8000 if ck.thorough else 1200)]
    want = spec_results(ck, fl, cases)
    compare(ck, fl, cases, want, replay(ck, fl, cases, lambda c: ["async"]), 100)
    return ck.finish(assumptions=ASSUME)




# ------------------------------------------------------------------------------------------ C13

BAD_PATHS = ["", "users", "{id}", "users/{id}", "/{}", "/{1a}", "/{a b}", "/{a-b}", "/{...}", "/{a..}", "/{a....}", "/{a...}/x", "/{a...}/", "/{a...}/{b}",
             "/{a...}/{b...}", "/{a}/{a}", "/{a}/x/{a...}", "/{_}", "/{a.b}", "/{ a}", "/{a }", "/{é}", "**", "*/", "/*/{*}", "?", "./a", "\\\\/a", " /a",
             "/{r#type}", "/{a,b}", "/{0}", "//{}", "/{a:u8}", "/{{a}}", "/{}}", "/{_...}", "/a/{b}/{...}", "* ", "http://h/a"]
GOOD_PATHS = ["/", "//", "/x{a}", "/{a}x", "/{", "/}", "/{a", "/a}", "/:id", "/<a>", "/a b", "/%2F", "/{a}{b", "/a...", "/...", "/}{", "/.", "*", "/*", "/é", "/a/", "/{__}"]
FORMS = ["word", "str", "nv", "ty", "empty", "two", "id", "int"]
OURS = METHODS + ["body", "forward", "query_params", "context"]
FOREIGN = [attr("allow", "ty", "dead_code"), attr("doc", "nv", "text"), attr("raw", "raw", "rustfmt::skip"), attr("raw", "raw", "allow(clippy::all)"),
           attr("raw", "raw", "cfg(all())"), attr("raw", "raw", "doc = \"get\""), attr("raw", "raw", "rustfmt::get(\"/x\")"),
           attr("raw", "raw", "clippy::body"), attr("raw", "raw", "rustfmt::context(A)"), attr("raw", "raw", "clippy::forward")]
# attributes of another derive
HELPERS = ["getter(7)", "getter(\"/x\")", "header(x)", "heads", "posts(\"no-slash\")", "putty", "patches = \"x\"", "bodywork", "forwarded", "query_params_x",
          "contextual(7)", "body_x(a)", "forward_to(\"/\")", "xget(\"/\")", "to_get(7)", "my_body", "a_forward", "serde(rename = \"get\")", "serde(get)",
          "route(\"/\")", "delete_all(\"/a\", 7)", "query(7)", "context_type = \"x\"", "options_(\"*\")", "as_ref", "as_ref = \"x\"", "g", "ge(\"/\")"]
FOREIGN += [attr("helper", "helper", a) for a in HELPERS]


def other_derive(ck, art):
    """Compiles a derive that has the helper attributes above, and does nothing."""
    src, out = ck.path("other.rs"), ck.path("libother.so")
    with open(src, "w") as f:
        f.write("extern crate proc_macro;\n#[proc_macro_derive(Other, attributes(%s))]\n" % ", ".join(sorted({re.match(r"\w+", a).group() for a in HELPERS})) +
                "pub fn other(_: proc_macro::TokenStream) -> proc_macro::TokenStream { proc_macro::TokenStream::new() }\n")
    p = subprocess.run(["rustc", "--edition", "2018", "--crate-type", "proc-macro", "--crate-name", "other", "-o", out, src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    if p.returncode:
        raise ToolError("the other derive does not compile: " + p.stdout.decode("utf-8", "replace")[-2000:])
    art.more = {"other": out}


def item_attrs(d, v):
    return d["attrs"] if d["kind"] != "enum" else d["variants"][v]["attrs"]


def rand_attr(g):
    n = g.pick(OURS)
    form = g.pick(FORMS)
    if n in METHODS and g.chance(0.5):
        return route(n, g.pick(BAD_PATHS + GOOD_PATHS + ["/zz%d" % g.r.randrange(50)] * 5))
    a = {"str": g.pick(["/a", "x", ""]), "nv": "/a", "ty": g.pick(["CtxA", "CtxB", "Ctx"]), "two": "/a"}.get(form, "")
    return attr(n, form, a)


def give_role(g, f, d, pool):
    """One more role for a field, often with a type that could play it."""
    role = g.pick(["body", "forward", "query_params"])
    f["attrs"].insert(g.r.randint(0, len(f["attrs"])), attr(role))
    fit = [x["name"] for x in pool if x["ctx"] == d["ctx"] and not x["subst"]]
    if g.chance(0.7):
        f["ty"] = {"body": g.pick(B_OWN["none"] + B_LIB), "query_params": g.pick(Q_TYPES), "forward": "R:" + g.pick(fit) if fit else f["ty"]}[role]


def mutate(g, d, pool):
    """One edit of a declaration, which may or may not leave it well formed."""
    d = copy.deepcopy(d)
    vs = d["variants"]
    v = g.r.randrange(len(vs)) if vs else None
    k = g.r.randrange(29)
    fs = vs[v]["fields"] if vs else []
    at = item_attrs(d, v) if vs else d["attrs"]
    routes_here = [a for a in at if a["n"] in METHODS]
    if k == 0:
        d["attrs"].insert(g.r.randint(0, len(d["attrs"])), rand_attr(g))
    elif k in (1, 2) and vs:
        at.insert(g.r.randint(0, len(at)), rand_attr(g))
    elif k in (3, 4) and fs:
        f = g.pick(fs)
        if g.chance(0.6):
            give_role(g, f, d, pool)
        else:
            f["attrs"].insert(g.r.randint(0, len(f["attrs"])), rand_attr(g))
    elif k == 5 and (fs or at):
        xs = g.pick([f["attrs"] for f in fs if f["attrs"]] + [at] if at else [f["attrs"] for f in fs if f["attrs"]] or [[]])
        if xs:
            xs.append(copy.deepcopy(g.pick(xs)))
    elif k == 6 and fs:
        del fs[g.r.randrange(len(fs))]
    elif k == 7 and fs:
        g.pick(fs)["n"] = g.pick(FIELD_NAMES)
    elif k in (8, 9) and routes_here:
        g.pick(routes_here)["a"] = g.pick(BAD_PATHS + GOOD_PATHS)
    elif k == 10 and routes_here:       # another order, name or number of placeholders in one route
        a = g.pick(routes_here)
        s = segs_of(a["a"]) if a["a"].startswith("/") else None
        if s:
            ph = [i for i, x in enumerate(s) if x[0] == "ph"]
            if len(ph) > 1:
                i, j = g.r.sample(ph, 2)
                s[i], s[j] = s[j], s[i]
            elif s:
                s.insert(g.r.randint(0, len(s)), ("ph", g.pick(FIELD_NAMES)))
            a["a"] = "".join("/" + ("{%s%s}" % (n, "..." if kk == "rest" else "") if kk != "lit" else n) for kk, n in s)
    elif k == 11 and vs:                # unnamed fields
        if all(x["ty"] != "" for x in fs) and fs:
            vs[v]["shape"] = "tuple"
            for f in fs:
                f["n"] = ""
            if g.chance(0.6):
                for a in list(at):
                    if a["n"] in METHODS and (g.chance(0.5) or "{" in a["a"]):
                        at.remove(a)
            if g.chance(0.5):
                for f in fs:
                    f["attrs"] = []
    elif k == 12 and vs:                # no routes
        for a in list(at):
            if a["n"] in METHODS:
                at.remove(a)
    elif k == 13 and d["kind"] == "enum":   # another fallback
        fit = ["R:" + x["name"] for x in pool if x["ctx"] == d["ctx"] and not x["subst"]]
        vs.insert(g.r.randint(0, len(vs)), variant("W%d" % g.r.randrange(100, 1000), [], [field("inner", g.pick(fit or ["String"]), "forward")]))
    elif k == 14 and d["kind"] == "struct" and g.chance(0.4):
        d["kind"] = "union"
    elif k == 15 and d["kind"] == "enum":
        if g.chance(0.3):
            d["variants"] = []
        else:
            for x in vs:
                x["attrs"] = [a for a in x["attrs"] if a["n"] not in METHODS]
                if g.chance(0.7):
                    x["fields"] = [f for f in x["fields"] if not f["attrs"]]
                    x["shape"] = x["shape"] if x["fields"] else "unit"
    elif k in (16, 28):
        g.pick([d["attrs"]] + [x["attrs"] for x in vs if d["kind"] == "enum"] + [f["attrs"] for f in fs]).append(copy.deepcopy(g.pick(FOREIGN)))
    elif k == 17 and routes_here:           # the same route again, here or elsewhere
        a = copy.deepcopy(g.pick(routes_here))
        if g.chance(0.5):
            a["n"] = g.pick(METHODS)
        g.pick([item_attrs(d, i) for i in range(len(vs))]).append(a)
    elif k == 18 and fs:
        f = copy.deepcopy(g.pick(fs))
        f["n"] = "more%d" % g.r.randrange(1000)
        fs.append(f)
    elif k == 19 and routes_here:
        a = g.pick(routes_here)
        a["form"] = g.pick(FORMS)
    elif 20 <= k <= 23 and routes_here:     # one route's placeholders
        a = g.pick(routes_here)
        s = segs_of(a["a"]) if a["a"].startswith("/") else None
        ph = [i for i, x in enumerate(s or []) if x[0] != "lit"]
        if k == 20 and ph:                  # a name again, anywhere
            i = g.r.randint(0, len(s))
            s.insert(i, ("rest" if i == len(s) and g.chance(0.3) else "ph", s[g.pick(ph)][1]))
        elif k == 21 and ph:                # another name
            i = g.pick(ph)
            s[i] = (s[i][0], g.pick(FIELD_NAMES + [f["n"] for f in fs if f["n"]]))
        elif k == 22 and ph:                # a literal instead
            s[g.pick(ph)] = ("lit", g.pick(PLAIN))
        elif k == 23 and ph:                # a rest, anywhere
            i = g.pick(ph)
            s[i] = ("rest" if s[i][0] == "ph" else "ph", s[i][1])
        if s:
            a["a"] = "".join("/" + ("{%s%s}" % (n, "..." if kk == "rest" else "") if kk != "lit" else n) for kk, n in s)
    elif k == 24 and len(fs) > 1:           # parts given to two fields
        for f in g.r.sample(fs, 2):
            give_role(g, f, d, pool)
    elif k == 25 and d["kind"] == "enum" and len(vs) > 1:   # routes of one variant on another
        i, j = g.r.sample(range(len(vs)), 2)
        mine = [a for a in vs[i]["attrs"] if a["n"] in METHODS]
        if mine:
            a = g.pick(mine)
            vs[i]["attrs"].remove(a)
            vs[j]["attrs"].insert(g.r.randint(0, len(vs[j]["attrs"])), a)
    elif k == 26 and d["kind"] == "enum":   # attributes of an item on a variant, and of a variant on the item
        d["attrs"].insert(g.r.randint(0, len(d["attrs"])), copy.deepcopy(g.pick(at)) if at and g.chance(0.5) else rand_attr(g))
    elif k == 27 and len(fs) > 1:           # almost the name of another field
        f, o = g.r.sample(fs, 2)
        if f["n"] and o["n"]:
            f["n"] = g.pick([o["n"] + "_", "_" + o["n"], o["n"] + "0", "fld_" + o["n"], o["n"].upper(), o["n"].capitalize(), "__" + o["n"], "r_" + o["n"],
                             o["n"] + "r", "x" + o["n"], o["n"][:-1] or "o", o["n"] + "__", o["n"] + o["n"], o["n"].replace("_", "") or "o"])
    for x in vs:
        if x["fields"] and x["shape"] == "unit":
            x["shape"] = "named"
        if not x["fields"] and x["shape"] == "named" and g.chance(0.5):
            x["shape"] = "unit"
        names = [f["n"] for f in x["fields"] if f["n"]]
        if len(set(names)) != len(names):
            return None
        if x["shape"] == "named" and any(not f["n"] for f in x["fields"]):
            return None
        if x["shape"] == "tuple" and names:
            return None
    if d["kind"] == "union" and any(x["shape"] != "named" or not x["fields"] for x in vs):
        return None
    return d


def emit_solo(decls, by):
    lines = ["#![allow(warnings)]"] + open(os.path.join(VERIF, "tools", "solo_prelude.rs")).read().splitlines() + guard_aliases(decls, "crate")
    where = {}
    for d in decls:
        a = len(lines) + 1
        lines += emit_decl(d, by)
        lines.append("pub fn use_%s() { is_router::<%s>() }" % (d["name"], inst_rust(d, by)))
        where[d["name"]] = (a, len(lines))
    lines.append("fn main() {}")
    return "\n".join(lines) + "\n", where


def compile_solo(ck, art, decls, name, emit=emit_solo, shards=CORES):
    """Type-checks declarations in a crate that depends only on the library: {name: compiler errors or None}."""
    by = {d["name"]: d for d in decls}
    bad = {}
    left = decls
    for rnd in range(6):
        parts = distribute(groups(left), shards)
        jobs, info = [], []
        for i, part in enumerate(parts):
            text, where = emit(part, by)
            src = ck.path("%s_%d_%d.rs" % (name, rnd, i))
            with open(src, "w") as f:
                f.write(text)
            jobs.append(rustc_cmd(art, src, ck.path("%s_%d_%d.out" % (name, rnd, i)), externs=("hyperdrive",), extra=["--emit=metadata"]))
            info.append((src, where, part))
        new = {}
        for (src, where, part), (rc, msgs) in zip(info, rustc_many(jobs)):
            if rc == 0:
                continue
            found = 0
            for m in msgs:
                ln = top_line(m, src)
                for n, rg in where.items():
                    if ln is not None and rg[0] <= ln <= rg[1]:
                        new.setdefault(n, (m.get("rendered") or m["message"])[:1500])
                        found += 1
            if not found:
                raise ToolError("cannot attribute compiler errors in %s:\n%s" % (src, "\n".join((m.get("rendered") or m["message"]) for m in msgs)[:3000]))
        if not new:
            break
        bad.update(new)
        # what needs a broken declaration cannot be judged
        left = drop(left, new)
    ok = {d["name"] for d in left}
    return {d["name"]: bad.get(d["name"]) or (None if d["name"] in ok else "?") for d in decls}


# Declarations that follow the rules and are known not to work (see DESIGN.md); each is tried on every run.
KNOWN_BROKEN = [
    ("raw identifier", "a guard field with a raw identifier", ["#[derive(FromRequest)]", "enum KnownRaw {", "    #[get(\"/\")]", "    A { r#type: GI1 },", "}"]),
    ("const argument", "a field type with a literal const argument", ["#[derive(FromRequest)]", "enum KnownConst {", "    #[get(\"/\")]", "    A { x: GI<7> },", "}"]),
    ("type named Variant", "a router type called `Variant`", ["#[derive(FromRequest)]", "enum Variant {", "    #[get(\"/\")]", "    A { x: GI1 },", "}"]),
    ("type named Error", "a field type called like a name the generated code imports (`Error`)",
     ["mod known_error {", "    pub struct Error;", "    impl hyperdrive::Guard for Error {", "        type Context = hyperdrive::NoContext;",
      "        type Result = Result<Self, hyperdrive::BoxedError>;",
      "        fn from_request(_: &std::sync::Arc<hyperdrive::http::Request<()>>, _: &hyperdrive::NoContext) -> Self::Result { Ok(Error) }", "    }",
      "    #[derive(hyperdrive::FromRequest)]", "    enum KnownError {", "        #[get(\"/\")]", "        A { x: Error },", "    }", "}"]),
    ("two spellings", "a generic router that uses one guard type under two spellings",
     ["#[derive(FromRequest)]", "enum KnownTwo<T> {", "    #[get(\"/{t}\")]", "    A { t: T, x: GI1, y: crate::GI1 },", "}"]),
]


def c13(ck):
    g = Gen(ck.seed, "C13")
    n_base = 700 if ck.thorough else 130
    base = []
    while len(base) < n_base:
        base.append(g.decl(nested=base[-8:], nvar=(1, 4), phs=(0, 4), p_struct=0.3, p_generic=g.pick([0, 0.5]), p_unbuilt=0.25, p_fallback=0.3, p_multi=0.45, odd=0.4))
        if g.chance(0.08):
            base.append(g.spelled(g.wrapper(g.pick(base), g.pick(["none", "A", "C"]))))
            if base[-1]["ctx"] != {d["name"]: d for d in base}[next(iter(nested_of(base[-1])))]["ctx"]:
                base.pop()
    decls = list(base)
    n_mut = 9000 if ck.thorough else 2000
    while len(decls) < n_base + n_mut:
        d = mutate(g, g.pick(base), base)
        if d and g.chance(0.2):
            d = mutate(g, d, base)
        if d:
            d["name"] = g.name()
            if d["kind"] != "enum":
                d["variants"][0]["name"] = d["name"]
            decls.append(d)
    number(decls)
    art = cargo_build("rt")
    other_derive(ck, art)
    ck.log("harness built against the current tree")
    vd = spec_verdicts(ck, decls, timeout=840)
    real = derive_verdicts(ck, art, decls)
    by = {d["name"]: d for d in decls}
    # Declarations both accept must compile; what only the derive accepts must be refused by the compiler.
    accept = [d for d in decls if vd[d["id"]][0]]
    for d in accept:
        if real[d["name"]]:
            ck.violation("well-formed declaration refused: %s" % real[d["name"]], {"declaration": "\n".join(emit_decl(d, by)), "message": real[d["name"]]})
    ok = drop(decls, [d["name"] for d in decls if not vd[d["id"]][0] or real[d["name"]]])
    ok = [d for d in ok if typed(d)]
    broken = compile_solo(ck, art, ok, "solo")
    n_broken = 0
    for d in ok:
        if broken[d["name"]] and broken[d["name"]] != "?":
            n_broken += 1
            ck.violation("generated code does not compile: %s" % broken[d["name"]][:200], {"declaration": "\n".join(emit_decl(d, by)), "message": broken[d["name"]]})
    slipped = [d for d in decls if not vd[d["id"]][0] and not real[d["name"]]]
    if slipped:
        # each in a file of its own: several compiler passes may be needed to find every error
        later = {}
        for i in range(0, len(slipped), 64):
            part = slipped[i:i + 64]
            jobs = []
            for d in part:
                fam = [by[n] for n in closure([d["name"]], by)]
                src = ck.path("slip_%s.rs" % d["name"])
                with open(src, "w") as f:
                    f.write(emit_solo(fam, by)[0])
                jobs.append(rustc_cmd(art, src, ck.path("slip_%s.out" % d["name"]), externs=("hyperdrive",), extra=["--emit=metadata"]))
            for d, (rc, msgs) in zip(part, rustc_many(jobs)):
                later[d["name"]] = rc != 0
        for d in slipped:
            if not later[d["name"]]:
                ck.violation("declaration accepted although: %s" % vd[d["id"]][1], {"declaration": "\n".join(emit_decl(d, by)), "why": vd[d["id"]][1]})
    why = {}
    for d in decls:
        w = vd[d["id"]][1] or "accept"
        why[w] = why.get(w, 0) + 1
    ck.log("%d declarations: %s" % (len(decls), why))
    ck.log("%d accepted ones type-checked in a crate of their own, %d refused only by the compiler" % (len(ok), len(slipped)))
    ck.notes["verdicts"] = why
    ck.traces += len(decls) + len(ok)
    for d in decls[::max(1, len(decls) // 6)]:
        ck.sample({"declaration": emit_decl(d, by), "specified": vd[d["id"]], "derive": real[d["name"]] or "accepted"})
    contexts(ck, art)
    known(ck, art)
    # accepted ones also work: requests are replayed on some of them
    some = closure([d["name"] for d in g.r.sample(ok, min(len(ok), 240 if ck.thorough else 60))], by)
    fl = build_fleet(ck, art, [d for d in ok if d["name"] in some])
    cases = [g.case(i, fl.decls[i % len(fl.decls)], fl.by, bad=0.08, mutate=0.1) for i in range(6000 if ck.thorough else 900)]
    want = spec_results(ck, fl, cases)
    compare(ck, fl, cases, want, replay(ck, fl, cases, lambda c: ["async"]), 100)
    return ck.finish(assumptions=ASSUME)


def typed(d):
    """Whether every field has a type that can play its part (the rules say nothing about types)."""
    sub = {s["n"]: s["ty"] for s in d["subst"]}
    ctx = d["ctx"]
    for a in d["attrs"]:
        if a["n"] == "context":
            ctx = {"CtxA": "A", "CtxB": "B", "Ctx": "C"}.get(a["a"], "?")
    used = set()
    for v, var in enumerate(d["variants"]):
        at = item_attrs(d, v)
        names = set()
        for a in at:
            if a["n"] in METHODS and a["form"] == "str" and a["a"] != "*":
                names |= {x for k, x in (segs_of(a["a"]) or []) if k != "lit"}
        routed = any(a["n"] in METHODS for a in at)
        built = routed or any(a["n"] == "forward" for f in var["fields"] for a in f["attrs"])
        for f in var["fields"]:
            if f["ty"] in sub:
                used.add(f["ty"])
            ty = sub.get(f["ty"], f["ty"])
            roles = [a["n"] for a in f["attrs"] if a["n"] in ("body", "forward", "query_params")]
            if not built:
                good = True
            elif f["n"] in names:
                good = ty in PH_TYPES
            elif "body" in roles:
                good = ty in B_LIB or ty in B_OWN.get(ctx, [])
            elif "query_params" in roles:
                good = ty in Q_TYPES
            elif "forward" in roles:
                good = ty.startswith("R:") and ctx == d["ctx"]
            else:
                good = bool(re.match(r"G[NABCI]\d", ty)) and ty[1] in G_KINDS.get(ctx, "")
            if not good:
                return False
    return used == set(sub)


def contexts(ck, art):
    """Context declarations, and routers that need parts of them."""
    import contexts as cx
    m = cx.Maker(ck.seed, "C13")
    programs = [m.program(i, 0.3 if i % 2 else 1.0) for i in range(900 if ck.thorough else 160)]
    cx.verdicts(ck, art, programs, cx.judge(ck, programs), 400 if ck.thorough else 64)


def known(ck, art):
    prelude = open(os.path.join(VERIF, "tools", "solo_prelude.rs")).read().splitlines()
    jobs = []
    listed = open(os.path.join(VERIF, "known_findings.txt")).read()
    for i, (kid, what, text) in enumerate(KNOWN_BROKEN):
        src = ck.path("known_%d.rs" % i)
        with open(src, "w") as f:
            f.write("\n".join(["#![allow(warnings)]"] + prelude + ["pub type GI1 = GI<1>;"] + text + ["fn main() {}"]) + "\n")
        jobs.append(rustc_cmd(art, src, ck.path("known_%d.out" % i), externs=("hyperdrive",), extra=["--emit=metadata"]))
    for (kid, what, text), (rc, msgs) in zip(KNOWN_BROKEN, rustc_many(jobs)):
        if rc == 0:
            continue
        if ("known: property=C13 [%s]" % kid) in listed:
            ck.known_finding("[%s] %s is refused or does not compile" % (kid, what))
        else:
            ck.violation("%s is refused or does not compile" % what, {"declaration": "\n".join(text), "message": (msgs[0].get("rendered") if msgs else "")})


CHECKS = {"C02": c02, "C13": c13}
