"""Declarations of routers (the format spec/Decl.tla reads) and their Rust source."""
import re

METHODS = ["get", "head", "post", "put", "delete", "connect", "options", "trace", "patch"]
CTX_TYPE = {"none": None, "A": "CtxA", "B": "CtxB", "C": "Ctx"}
RUST_TYPE = {"U8": "u8", "U16": "u16", "I16": "i16", "Str": "String", "Bool": "bool", "Chr": "char"}


def attr(n, form="word", a=""):
    return {"n": n, "form": form, "a": a}


def route(m, p):
    return attr(m, "str", p)


def field(n, ty, role=None, attrs=()):
    at = list(attrs)
    if role:
        at.append(attr(role))
    return {"n": n, "ty": ty, "attrs": at}


def variant(name, routes=(), fields=(), shape=None, attrs=()):
    fields = list(fields)
    return {"name": name, "shape": shape or ("named" if fields else "unit"),
            "attrs": list(attrs) + [route(m, p) for m, p in routes], "fields": fields}


def enum(name, variants, ctx="none", subst=(), attrs=()):
    at = list(attrs)
    if CTX_TYPE[ctx]:
        at.append(attr("context", "ty", CTX_TYPE[ctx]))
    return {"id": 0, "name": name, "kind": "enum", "ctx": ctx, "attrs": at, "variants": list(variants),
            "subst": [{"n": n, "ty": t} for n, t in subst]}


def struct(name, routes=(), fields=(), ctx="none", subst=(), shape=None, attrs=()):
    fields = list(fields)
    at = list(attrs)
    if CTX_TYPE[ctx]:
        at.append(attr("context", "ty", CTX_TYPE[ctx]))
    at += [route(m, p) for m, p in routes]
    return {"id": 0, "name": name, "kind": "struct", "ctx": ctx, "attrs": at,
            "variants": [{"name": name, "shape": shape or ("named" if fields else "unit"), "attrs": [], "fields": fields}],
            "subst": [{"n": n, "ty": t} for n, t in subst]}


def rust_str(s):
    out = ['"']
    for ch in s:
        if ch in '"\\':
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        else:
            out.append(ch)
    out.append('"')
    return "".join(out)


def attr_text(a, hole_lit=lambda p: p):
    n, f = a["n"], a["form"]
    if f in ("raw", "helper"):    # a foreign attribute, written out (a helper of another derive)
        return "#[%s]" % a["a"]
    if f == "word":
        return "#[%s]" % n
    if f == "str":
        return "#[%s(%s)]" % (n, hole_lit(rust_str(a["a"])))
    if f == "nv":
        return "#[%s = %s]" % (n, rust_str(a["a"]))
    if f == "ty":
        return "#[%s(%s)]" % (n, a["a"])
    if f == "empty":
        return "#[%s()]" % n
    if f == "two":
        return "#[%s(%s, %s)]" % (n, rust_str(a["a"]), rust_str(a["a"] + "2"))
    if f == "id":
        return "#[%s(some_ident)]" % n
    if f == "int":
        return "#[%s(7)]" % n
    raise ValueError(f)


def type_rust(ty, decl, by_name):
    if any(s["n"] == ty for s in decl["subst"]):
        return ty
    if ty.startswith("R:"):
        return inst_rust(by_name[ty[2:]], by_name)
    if decl.get("alias") and ty.startswith("Option<"):
        return "Opt" + ty[7:-1]
    return RUST_TYPE.get(ty, ty)


def inst_rust(decl, by_name):
    """A router type with its type arguments."""
    if not decl["subst"]:
        return decl["name"]
    return "%s<%s>" % (decl["name"], ", ".join(type_rust(s["ty"], dict(decl, subst=[]), by_name) for s in decl["subst"]))


def constructible(d, v):
    var = d["variants"][v]
    at = d["attrs"] if d["kind"] == "struct" else var["attrs"]
    return any(a["n"] in METHODS for a in at) or any(a["n"] == "forward" for f in var["fields"] for a in f["attrs"])


def emit_decl(d, by_name, derive="FromRequest"):
    """The declaration, spelled the way d["spell"] asks for (all spellings mean the same)."""
    spell = d.get("spell")
    if spell == "module":
        return ["pub mod m_%s {" % d["name"], "    use super::*;"] + emit_plain(d, by_name, derive) + ["}", "pub use m_%s::*;" % d["name"]]
    if spell == "macro":
        # types, paths and the name are handed through a macro
        args, pats = [], []

        def hole(kind, text):
            n = "$a%d" % len(args)
            args.append(text)
            pats.append("%s:%s" % (n, kind))
            return n
        name = hole("ident", d["name"])
        body = emit_plain(d, by_name, derive, lambda t: hole("ty", t), lambda p: hole("literal", p), name)
        o = ["macro_rules! mk_%s { (%s) => {" % (d["name"], "; ".join(pats))] + body + ["} }"]
        return o + ["mk_%s!(%s);" % (d["name"], "; ".join(args))]
    if spell == "noise":
        # attributes of other tools, documentation, attributes behind cfg_attr
        o = []
        for line in emit_plain(d, by_name, derive):
            st = line.strip()
            m = re.match(r"#\[(get|post|head|put|context)\b.*\]$", st)
            if m:
                o += ["/// Documented.", "#[cfg_attr(all(), %s)]" % st[2:-1], "#[cfg_attr(any(), get(\"nonsense\"))]", "#[rustfmt::skip]"]
            else:
                o.append(line)
        return o
    return emit_plain(d, by_name, derive)


def emit_plain(d, by_name, derive="FromRequest", hole_ty=lambda t: t, hole_lit=lambda p: p, name=None):
    """The declaration as one line per attribute and field, without observation code."""
    name = name or d["name"]
    attr_rust = lambda a: attr_text(a, hole_lit)
    gen = "<%s>" % ", ".join(s["n"] for s in d["subst"]) if d["subst"] else ""
    if any(a["form"] == "helper" for xs in [d["attrs"]] + [v["attrs"] for v in d["variants"]] + [f["attrs"] for v in d["variants"] for f in v["fields"]] for a in xs):
        derive += ", other::Other"
    o = ["#[derive(%s)]" % derive]
    o += [attr_rust(a) for a in d["attrs"]]

    def fields(v, indent, sep=","):
        r = []
        for f in v["fields"]:
            at = " ".join(attr_rust(a) for a in f["attrs"])
            ty = hole_ty(type_rust(f["ty"], d, by_name))
            pub = "pub " if d["kind"] != "enum" else ""
            r.append("%s%s %s%s%s%s" % (indent, at, pub, (f["n"] + ": ") if f["n"] else "", ty, sep))
        return r

    if d["kind"] == "enum":
        o.append("pub enum %s%s {" % (name, gen))
        for v in d["variants"]:
            o += ["    " + attr_rust(a) for a in v["attrs"]]
            if v["shape"] == "unit":
                o.append("    %s," % v["name"])
            elif v["shape"] == "named":
                o.append("    %s {" % v["name"])
                o += fields(v, "        ")
                o.append("    },")
            else:
                o.append("    %s(" % v["name"])
                o += fields(v, "        ")
                o.append("    ),")
        o.append("}")
    else:
        v = d["variants"][0]
        kw = d["kind"]
        if v["shape"] == "unit":
            o.append("pub struct %s%s;" % (name, gen))
        elif v["shape"] == "named":
            o.append("pub %s %s%s {" % (kw, name, gen))
            o += fields(v, "    ")
            o.append("}")
        else:
            o.append("pub struct %s%s(" % (name, gen))
            o += fields(v, "    ")
            o.append(");")
    return o


def emit_obs(d):
    gen = "<%s>" % ", ".join(s["n"] for s in d["subst"]) if d["subst"] else ""
    bnd = "<%s>" % ", ".join(s["n"] + ": Obs" for s in d["subst"]) if d["subst"] else ""
    o = ["impl%s Obs for %s%s {" % (bnd, d["name"], gen), "    fn obs(&self) -> String {", "        match self {"]
    partial = False
    for i, v in enumerate(d["variants"]):
        if not constructible(d, i) or v["shape"] == "tuple":
            partial = True
            continue
        path = d["name"] if d["kind"] == "struct" else "%s::%s" % (d["name"], v["name"])
        names = [f["n"] for f in v["fields"]]
        pat = "%s { %s }" % (path, ", ".join("%s: f_%d" % (n, k) for k, n in enumerate(names)))
        fmt = "%s{{{{%s}}}}" % (path, ";".join("%s={}" % n.replace("r#", "") for n in names))
        fmt = "%s{{%s}}" % (path, ";".join("%s={}" % n.replace("r#", "") for n in names))
        o.append("            %s => format!(%s%s)," % (pat, rust_str(fmt), "".join(", f_%d.obs()" % k for k in range(len(names)))))
    if partial:
        o.append('            #[allow(unreachable_patterns)] _ => "never built".into(),')
    o += ["        }", "    }", "}"]
    return o


def guard_aliases(decls, crate="vrt"):
    """Guard types are numbered; the derive does not parse `GN<7>` (syn 0.15), so each gets an alias."""
    tys = {f["ty"] for d in decls for v in d["variants"] for f in v["fields"]} | {s["ty"] for d in decls for s in d["subst"]}
    return ["pub type %s = %s::%s<%s>;" % (t, crate, t[:2], t[2:]) for t in sorted(tys) if re.match(r"G[NABCI]\d+$", t)]


def emit_shard(decls, by_name):
    """Source of a program driving the given routers, and the line range of each declaration."""
    lines = ["#![allow(warnings)]", "use vrt::*;"] + guard_aliases(decls)
    where = {}
    for d in decls:
        a = len(lines) + 1
        lines += emit_decl(d, by_name)
        lines += emit_obs(d)
        where[d["name"]] = (a, len(lines))
    lines.append("fn main() {")
    lines.append("    vrt::main_loop(&[")
    regs = {}
    for d in decls:
        lines.append("        (%s, vrt::run::<%s> as vrt::RunFn)," % (rust_str(d["name"]), inst_rust(d, by_name)))
        regs[len(lines)] = d["name"]
    lines += ["    ]);", "}"]
    for ln, n in regs.items():
        where.setdefault("reg", {})[ln] = n
    return "\n".join(lines) + "\n", where


def nested_of(d):
    r = set()
    for v in d["variants"]:
        for f in v["fields"]:
            if f["ty"].startswith("R:"):
                r.add(f["ty"][2:])
    for s in d["subst"]:
        if s["ty"].startswith("R:"):
            r.add(s["ty"][2:])
    return r


def closure(names, by_name):
    todo, seen = list(names), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo += list(nested_of(by_name[n]))
    return seen


def groups(decls):
    """Declarations that refer to each other, as lists."""
    by = {d["name"]: d for d in decls}
    parent = {n: n for n in by}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for d in decls:
        for n in nested_of(d):
            if n in parent:
                parent[find(d["name"])] = find(n)
    g = {}
    for d in decls:
        g.setdefault(find(d["name"]), []).append(d)
    return list(g.values())
