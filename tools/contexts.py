"""Contexts and their parts (C12), and which context declarations are accepted (part of C13)."""
import random

from bodies import replay_lines
from common import *

ASSUME = ["rustc refuses a program with a conflicting or missing AsRef implementation", "TLC evaluates the specification correctly"]
PARTS = ["P0", "P1", "P2", "P3"]
NAMES = ["a", "b", "inner", "request", "body", "context", "r#type", "_x", "as_ref", "self_", "Cfg", "hyperdrive", "x0", "x1", "x2", "x3"]


def t(h, *a):
    return {"h": h, "a": list(a)}


def rust(x):
    return x["h"] if not x["a"] else "%s<%s>" % (x["h"], ", ".join(rust(y) for y in x["a"]))


class Maker:
    def __init__(self, seed, salt):
        self.r = random.Random("%s/%s" % (seed, salt))

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def ground(self):
        return self.pick([t("u8"), t("String"), t("P1"), t("P0"), t("Q0")])

    def field_type(self, params):
        k = self.r.randrange(10)
        if params and k < 2:
            return t("W", t(self.pick(params)))
        if params and k == 2:
            return t(self.pick(params))
        if k < 5:
            return t("W", self.ground())
        if k == 5:
            return self.pick([t("String"), t("u8")])
        return t(self.pick(PARTS))

    def program(self, n, wild):
        """A context, and a router using it; the wilder, the likelier not to be well formed."""
        name = "C%d" % n
        params = self.r.sample(["T", "U"], self.r.choice([0, 0, 1, 1, 2]))
        p = {"id": n, "name": name, "params": params, "args": [self.ground() for _ in params], "attrs": [], "fields": [], "variants": [], "looks": []}
        p["kind"] = "enum" if self.chance(0.12) else "struct"
        p["shape"] = self.pick(["named", "tuple"])
        p["vis"] = self.pick(["pub ", ""])
        ftypes = [self.field_type(params) for _ in range(self.r.choice([0, 1, 2, 2, 3, 3, 4, 5, 11 if self.chance(0.2) else 6]))]
        if self.chance(0.5) and ftypes:      # the same type more than once
            ftypes.insert(self.r.randint(0, len(ftypes)), self.pick(ftypes))
        used = set(x for f in ftypes for x in self.heads(f))
        ftypes += [t("PhantomData", t(x)) for x in params if x not in used]
        if not ftypes and p["kind"] == "struct":
            p["shape"] = self.pick(["named", "tuple", "unit"])
        fields = [{"n": x, "ty": f, "refs": []} for x, f in zip(self.names(len(ftypes)), ftypes)]
        if p["kind"] == "struct":
            marked = []
            for f in self.r.sample(fields, len(fields)):
                s = [self.subst(p, x) for x in [f["ty"]] + marked]
                if f["ty"]["h"] != "PhantomData" and (self.chance(wild) or f["ty"]["h"] not in params and s[0] not in s[1:] and not self.vars_clash(f["ty"], marked, params)) and self.chance(0.75):
                    f["refs"].append("word")
                    marked.append(f["ty"])
            p["fields"] = fields
        else:
            vs = []
            for k in range(self.r.randint(1, 3)):
                vs.append({"n": "V%d" % k, "attrs": [], "fields": fields if k == 0 else [dict(f, refs=[]) for f in self.r.sample(fields, min(len(fields), 2))]})
            self.r.shuffle(vs)
            p["variants"] = vs
        # attributes where they do not belong
        if self.chance(wild * 0.5):
            form = self.pick(["word", "word", "str", "list", "empty", "nv"])
            where = self.r.randrange(4)
            if where == 0 or not fields:
                p["attrs"].append(form)
            elif where == 1 and p["kind"] == "enum":
                self.pick(p["variants"])["attrs"].append(form)
            else:
                v = self.pick(p["variants"]) if p["kind"] == "enum" else p
                if v["fields"]:
                    f = self.pick(v["fields"])
                    f["refs"] = self.pick([f["refs"] + [form], [form], ["word", "word"], [form] + f["refs"]])
        whole = t(name, *[t(x) for x in params])
        p["generic"] = bool(params) and self.chance(0.4)
        marked = [f["ty"] for f in p["fields"] if f["refs"]]
        p["looks"] = [x for x in marked + [t("NoContext"), whole] if self.chance(0.8)]
        if self.chance(wild * 0.3):
            p["looks"].append(self.pick([t("P0"), t("Q0"), t("String"), t("W", t("u8"))]))
        good = [x for x in marked if x["h"] in PARTS + ["Q0", "W"]] * 2 + [whole, t("NoContext")]
        nroutes = self.r.randint(1, 3)

        def asks(depth):
            out = []
            for _ in range(self.r.randint(0, 4)):
                ty = self.pick(good) if not self.chance(wild * 0.08) else self.pick([t("Q0"), t("P0"), t("P2"), t("W", t("String"))])
                out.append({"who": self.pick(["guard", "guard", "quick"]), "ty": ty})
            end = self.r.randrange(6)
            if end in (0, 1):
                out.insert(self.r.randint(0, len(out)), {"who": self.pick(["body", "quickbody"]), "ty": self.pick(good)})
            elif end == 2:
                out.insert(self.r.randint(0, len(out)), {"who": "hand", "ty": whole})
            elif end in (3, 4) and depth < 2:
                ctx = whole if not self.chance(wild * 0.15) else self.pick(good)
                out.insert(self.r.randint(0, len(out)), {"who": "nested", "ty": ctx, "sub": router(depth + 1, ctx)})
            return out

        def router(depth, ctx):
            return {"ctx": ctx, "routes": [asks(depth) for _ in range(nroutes)]}
        p["router"] = router(0, whole)
        return p

    def names(self, n):
        names = list(NAMES)
        self.r.shuffle(names)
        return names[:n]

    def heads(self, x):
        return [x["h"]] + [h for y in x["a"] for h in self.heads(y)]

    def subst(self, p, x):
        if x["h"] in p["params"]:
            return p["args"][p["params"].index(x["h"])]
        return t(x["h"], *[self.subst(p, y) for y in x["a"]])

    def vars_clash(self, x, marked, params):
        """Whether some types look as if they could become equal (only to make well-formed declarations likely)."""
        def gen(y):
            return any(h in params for h in self.heads(y))
        return any((gen(x) or gen(m)) and m["h"] == x["h"] for m in marked)


FORM = {"word": "#[as_ref]", "str": "#[as_ref = \"x\"]", "list": "#[as_ref(x)]", "empty": "#[as_ref()]", "nv": "#[as_ref(a = \"b\")]"}


def emit(p):
    """A program as a module, and nothing else."""
    gen = "<%s>" % ", ".join(p["params"]) if p["params"] else ""
    inst = t(p["name"], *p["args"])
    attrs = lambda fs: " ".join(FORM[f] for f in fs)
    L = ["pub mod m%d {" % p["id"], "    use super::*;"]
    if p["attrs"]:
        L.append("    " + attrs(p["attrs"]))
    L.append("    #[derive(Clone, RequestContext)]")

    def body(fs, shape, vis):
        if shape == "named":
            return " { %s }" % ", ".join("%s %s%s: %s" % (attrs(f["refs"]), vis, f["n"], rust(f["ty"])) for f in fs)
        return "(%s)" % ", ".join("%s %s%s" % (attrs(f["refs"]), vis, rust(f["ty"])) for f in fs)

    def make(fs, shape, tok="tok"):
        es = ["Part::make(&format!(\"{}.%d\", %s))" % (i + 1, tok) for i in range(len(fs))]
        if shape == "named":
            return " { %s }" % ", ".join("%s: %s" % (f["n"], e) for f, e in zip(fs, es))
        return "(%s)" % ", ".join(es)

    def binds(fs, shape):
        return " { %s }" % ", ".join("%s: f%d" % (f["n"], i) for i, f in enumerate(fs)) if shape == "named" else "(%s)" % ", ".join("f%d" % i for i in range(len(fs)))
    bound = "<%s>" % ", ".join(x + ": Part" for x in p["params"]) if p["params"] else ""
    if p["kind"] == "struct":
        b = "" if p["shape"] == "unit" else body(p["fields"], p["shape"], p["vis"])
        L.append("    pub struct %s%s%s%s" % (p["name"], gen, b, "" if p["shape"] == "named" else ";"))
        mk = p["name"] + ("" if p["shape"] == "unit" else make(p["fields"], p["shape"]))
        arms = ["%s%s => vec![%s]" % (p["name"], "" if p["shape"] == "unit" else binds(p["fields"], p["shape"]), ", ".join("f%d.tok()" % i for i in range(len(p["fields"]))))]
    else:
        vs = []
        for k, v in enumerate(p["variants"]):
            shape = ["named", "tuple"][(p["id"] + k) % 2]
            vs.append("%s %s%s" % (attrs(v["attrs"]), v["n"], body(v["fields"], shape, "")))
        L.append("    pub enum %s%s { %s }" % (p["name"], gen, ", ".join(vs)))
        mk = "match tok.len() %% %d { %s }" % (len(vs), ", ".join(
            "%s => %s::%s%s" % (k if k < len(vs) - 1 else "_", p["name"], v["n"], make(v["fields"], ["named", "tuple"][(p["id"] + k) % 2])) for k, v in enumerate(p["variants"])))
        arms = ["%s::%s%s => vec![%s]" % (p["name"], v["n"], binds(v["fields"], ["named", "tuple"][(p["id"] + k) % 2]),
                                         ", ".join("f%d.tok()" % i for i in range(len(v["fields"])))) for k, v in enumerate(p["variants"])]
    L += ["    impl%s Part for %s%s {" % (bound, p["name"], gen),
          "        fn make(tok: &str) -> Self { %s }" % mk,
          "        fn tok(&self) -> String { let v: Vec<String> = match self { %s }; format!(\"({})\", v.join(\" \")) }" % ", ".join(arms), "    }"]
    sub = {x: y for x, y in zip(p["params"], p["args"])}

    def closed(x):
        return sub[x["h"]] if x["h"] in sub else t(x["h"], *[closed(y) for y in x["a"]])
    count = [0]

    def router(r, generic):
        name = "R%d" % count[0]
        count[0] += 1
        shown = (lambda x: rust(x)) if generic else (lambda x: rust(closed(x)))
        rows, later = [], []
        for n, row in enumerate(r["routes"]):
            fs = []
            for k, a in enumerate(row):
                if a["who"] == "nested":
                    inner = router(a["sub"], generic)
                    later += inner[1]
                    ty = inner[0]
                    pre = "#[forward] "
                else:
                    ty = {"guard": "Gd", "quick": "Gq", "body": "Bd", "quickbody": "Bq", "hand": "Hand"}[a["who"]] + "<%s>" % shown(a["ty"])
                    pre = {"body": "#[body] ", "quickbody": "#[body] ", "hand": "#[forward] "}.get(a["who"], "")
                fs.append("%sx%d: %s" % (pre, k, ty))
            rows.append("        #[post(\"/v%d\")] V%d { %s }," % (n + 1, n + 1, ", ".join(fs)))
        g = gen if generic else ""
        if generic:
            rows.append("        #[allow(dead_code)] Z { z: PhantomData<(%s,)> }," % ", ".join(p["params"]))
        ctx = shown(r["ctx"])
        text = ["    #[derive(FromRequest)]"] + ([] if ctx == "NoContext" and p["id"] % 2 else ["    #[context(%s)]" % ctx]) + [
            "    pub enum %s%s {" % (name, bound if generic else "")] + rows + ["    }"]
        return name + g, later + text
    top, text = router(p["router"], p["generic"])
    L += text
    if p["generic"]:
        top = top[:top.index("<")] + "<%s>" % ", ".join(rust(x) for x in p["args"])
    looks = ["look::<%s, %s>(&c)" % (rust(inst), rust(closed(x))) for x in p["looks"]]
    L += ["    pub fn looks(tok: &str) -> Vec<String> { let c = <%s as Part>::make(tok); vec![%s] }" % (rust(inst), ", ".join(looks)),
          "    pub fn start() -> (fn(&TurnRun) -> serde_json::Value, fn(&str) -> Vec<String>) { (run_turns::<%s, %s>, looks) }" % (top, rust(inst)), "}"]
    return L


def source(ps):
    """A program made of the modules, and which lines belong to which."""
    L = ["#![allow(warnings)]", "use std::marker::PhantomData;", "use hyperdrive::{FromRequest, RequestContext, NoContext};", "use vrt::parts::*;"]
    lines = {}
    for p in ps:
        a = len(L) + 1
        L += emit(p)
        lines[p["id"]] = (a, len(L))
    L += ["fn main() { main_turns(|id| match id { %s, _ => panic!() }) }" % ", ".join("%d => m%d::start()" % (p["id"], p["id"]) for p in ps)]
    return "\n".join(L) + "\n", lines


def compile_all(ck, art, ps, name):
    """Builds programs that should be accepted: ({binary: ids}, {id: error})."""
    bad, left = {}, ps
    for rnd in range(5):
        jobs, info = [], []
        parts = [left[i::CORES] for i in range(CORES) if left[i::CORES]]
        for i, part in enumerate(parts):
            text, lines = source(part)
            src, out = ck.path("%s_%d_%d.rs" % (name, rnd, i)), ck.path("%s_%d_%d.bin" % (name, rnd, i))
            with open(src, "w") as f:
                f.write(text)
            jobs.append(rustc_cmd(art, src, out, externs=("hyperdrive", "vrt", "serde_json")))
            info.append((src, out, lines))
        new, bins = {}, {}
        for (src, out, lines), (rc, msgs) in zip(info, rustc_many(jobs)):
            bins[out] = set(lines)
            if rc == 0:
                continue
            found = 0
            for m in msgs:
                ln = top_line(m, src)
                for k, (a, b) in lines.items():
                    if ln is not None and a <= ln <= b:
                        new.setdefault(k, (m.get("rendered") or m["message"])[:1500])
                        found += 1
            if not found:
                raise ToolError("cannot attribute compiler errors in %s:\n%s" % (src, "\n".join((m.get("rendered") or m["message"]) for m in msgs)[:3000]))
        if not new:
            return bins, bad
        bad.update(new)
        left = [p for p in left if p["id"] not in bad]
    raise ToolError("context declarations keep failing to compile")


def refused(ck, art, ps, name):
    """Compiles each program by itself: {id: message or None}."""
    out = {}
    for i in range(0, len(ps), 64):
        part, jobs = ps[i:i + 64], []
        for p in part:
            src = ck.path("%s_%d.rs" % (name, p["id"]))
            with open(src, "w") as f:
                f.write(source([p])[0])
            jobs.append(rustc_cmd(art, src, ck.path("%s_%d.out" % (name, p["id"])), externs=("hyperdrive", "vrt", "serde_json"), extra=["--emit=metadata"]))
        for p, (rc, msgs) in zip(part, rustc_many(jobs)):
            out[p["id"]] = None if rc == 0 else (msgs[0]["message"] if msgs else "?")
    return out


KEEP = ("id", "kind", "name", "params", "args", "attrs", "fields", "variants", "looks", "router")


def spec(ck, programs, runs, hist, cfg="Context", **k):
    path = ck.path("contexts_%d.json" % len(ck.runs))
    at = {p["id"]: i + 1 for i, p in enumerate(programs)}
    write_json(path, {"programs": [{x: p[x] for x in KEEP} for p in programs], "runs": [dict(r, prog=at[r["prog"]]) for r in runs]})
    k["extra"] = list(k.get("extra", ())) + ["-deadlock"]
    return ck.tlc_ok("Context", cfg=cfg, envv={"VERIF_INPUT": path, "VERIF_HIST": hist}, **k)


def judge(ck, programs, runs=()):
    got = {v["case"]: v["verdict"] for v in spec(ck, programs, list(runs), "no", timeout=800)}
    if len(got) != len(programs):
        raise ToolError("the specification gave %d verdicts for %d programs" % (len(got), len(programs)))
    return got


def verdicts(ck, art, programs, verdict, want_refused):
    """Compares verdicts with what the compiler says; returns the compiled programs."""
    good = [p for p in programs if verdict[p["id"]] == "accept"]
    bins, bad = compile_all(ck, art, good, "ctx")
    for p in good:
        if p["id"] in bad:
            ck.violation("a well-formed use of a context is refused", {"program": "\n".join(emit(p)), "message": bad[p["id"]]})
    others = [p for p in programs if verdict[p["id"]] != "accept"][:want_refused]
    no = refused(ck, art, others, "noctx")
    for p in others:
        if no[p["id"]] is None:
            ck.violation("a program is accepted although: %s" % verdict[p["id"]], {"program": "\n".join(emit(p)), "why": verdict[p["id"]]})
    ck.traces += len(good) + len(others)
    n = {}
    for p in good + others:
        n[verdict[p["id"]]] = n.get(verdict[p["id"]], 0) + 1
    ck.log("%d programs with contexts: %s" % (len(good) + len(others), n))
    ck.notes["context programs"] = n
    return bins, [p for p in good if p["id"] not in bad]


def part_tok(p, part, ctx):
    """How a part of context number ctx shows itself."""
    tok = "c%d" % ctx
    sub = dict(zip(p["params"], p["args"]))

    def show(f, i):
        ty = sub.get(f["ty"]["h"], f["ty"])
        return {"PhantomData": "", "u8": "u8"}.get(ty["h"], "%s.%d" % (tok, i + 1))
    if part == 999:
        return "-"
    if part == 0:
        if p["kind"] == "struct":
            fs = p["fields"]
        else:
            fs = p["variants"][len(tok) % len(p["variants"])]["fields"]
        return "(%s)" % " ".join(show(f, i) for i, f in enumerate(fs))
    return show(p["fields"][part - 1], part - 1)


def c12(ck):
    g = Maker(ck.seed, "C12")
    art = cargo_build("rt")
    ck.log("harness built against the current tree")
    programs = [g.program(i, 0.15 if i % 3 else 1.0) for i in range(2400 if ck.thorough else 420)]

    def reqs(p, n, ways):
        same = g.chance(0.4)
        return [{"route": g.r.randint(1, len(p["router"]["routes"])), "ctx": 1 if same and g.chance(0.5) else k + 1, "via": g.pick(ways)} for k in range(n)]
    ALL = ["request", "request", "parts", "now", "async", "async", "sync"]
    verdict = judge(ck, programs)
    good = [p for p in programs if verdict[p["id"]] == "accept"]
    # every interleaving of a few requests
    small = [{"id": i, "prog": p["id"], "reqs": reqs(p, g.r.randint(1, 3), ALL)} for i, p in enumerate(g.r.sample(good, min(len(good), 200 if ck.thorough else 60)))]
    spec(ck, good, small, "no", timeout=800)
    bins, good = verdicts(ck, art, programs, verdict, 500 if ck.thorough else 80)
    # schedules, taken from the specification and replayed
    runs = []
    for _ in range(8 if ck.thorough else 3):
        for p in good:
            runs.append({"id": len(runs), "prog": p["id"], "reqs": reqs(p, g.r.randint(2, 5), ALL)})
    want, lines, seen = {}, [], set()
    by = {p["id"]: p for p in good}
    for v in spec(ck, good, runs, "yes", cfg="ContextGen", simulate=6000 if ck.thorough else 500, timeout=800):
        key = json.dumps(v)
        if key not in seen:
            seen.add(key)
            r = dict(runs[v["run"]], id=len(lines), steps=[h["r"] for h in v["hist"]])
            lines.append(r)
            want[r["id"]] = [{"r": h["r"], "parts": [part_tok(by[r["prog"]], x, r["reqs"][h["r"] - 1]["ctx"]) for x in h["parts"]],
                              "over": "ok" if h["over"] else None} for h in v["hist"]]
    covered = {r["prog"] for r in lines}
    looks = [{"id": len(lines) + i, "prog": p["id"], "looks": True, "tok": "c7"} for i, p in enumerate(good)]
    got = {}
    for exe, ids in bins.items():
        mine = [r for r in lines + looks if r["prog"] in ids]
        if mine:
            got.update(replay_lines(ck, exe, mine, timeout=300))
    bad = 0
    for r in lines:
        o = got.get(r["id"], {"died": True})
        if o.get("turns") != want[r["id"]]:
            bad += 1
            if bad < 50:
                k = next((i for i, (a, b) in enumerate(zip(o.get("turns") or [], want[r["id"]])) if a != b), None)
                ck.violation("a part of another kind, or of another request: %s" % (json.dumps({"turn": k + 1, "specified": want[r["id"]][k], "observed": o["turns"][k]}) if k is not None else json.dumps(o)),
                             {"program": "\n".join(emit(by[r["prog"]])), "run": r, "specified": want[r["id"]], "observed": o})
    for v in looks:
        p = by[v["prog"]]
        o = got.get(v["id"], {})
        def part(x):
            if x["h"] == "NoContext":
                return 999
            return 0 if x["h"] == p["name"] else next(i + 1 for i, f in enumerate(p["fields"]) if f["refs"] and g.subst(p, f["ty"]) == g.subst(p, x))
        exp = [part_tok(p, part(x), 7) for x in p["looks"]]
        if o.get("looks") != exp:
            ck.violation("a context shows another part: %s instead of %s" % (o.get("looks"), exp), {"program": "\n".join(emit(p)), "observed": o})
    ck.traces += len(lines)
    ck.log("%d behaviours of %d programs replayed, %d contexts looked at" % (len(lines), len(covered), len(looks)))
    for p in programs[::max(1, len(programs) // 5)]:
        ck.sample({"program": emit(p), "specified": verdict[p["id"]]})
    for r in lines[:3]:
        ck.sample({"run": r, "specified": want[r["id"]]})
    return ck.finish(assumptions=ASSUME)


CHECKS = {"C12": c12}
