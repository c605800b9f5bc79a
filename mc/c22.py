"""C22: deriving adds the promised trait implementations to a type and nothing else.

Every declaration is written twice, once with and once without the derive and its attributes,
and both are documented by rustdoc, hidden and private items included. The public interface of
the first has to be that of the second plus exactly: Error (with no other methods than source
and provide), Display if the type has messages, and one From per #[from] field, taking that
field's type; with no bounds but the declared ones and bounds on std's formatting traits and
Error, no names of this library, and nothing hidden or deprecated about them."""
import concurrent.futures as cf
import json, os, re, subprocess, time
from .core import Check, CRATE_HEAD, JOBS, MachineryError, NIGHTLY, STABLE, clean_env, log

HEAD = """use ::thiserror::Error as _; use ::std::{boxed::Box, string::String, vec::Vec, marker::PhantomData, option::Option, backtrace::Backtrace, fmt};
#[derive(Debug)] pub struct E; impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } } impl ::std::error::Error for E {}
#[derive(Debug)] pub struct F; impl fmt::Display for F { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } } impl ::std::error::Error for F {}
#[derive(Debug)] pub struct W<X>(pub X); impl<X> fmt::Display for W<X> { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } } impl<X: fmt::Debug> ::std::error::Error for W<X> {}
pub fn f0(_: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
pub fn f1<A>(_: &A, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
pub fn f2<A, B>(_: &A, _: &B, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) }
"""


class F_:
    """A field: own attributes of the derive, other text before the name, name, type."""
    def __init__(self, attrs, ty, name=None, role="plain"):
        self.attrs, self.ty, self.name, self.role = attrs, ty, name, role


PLAIN = [F_("", "u8"), F_("", "String"), F_("", "T"), F_("", "&'a str"), F_("", "Vec<T>"), F_("", "PhantomData<T>")]
SOURCES = [F_("#[source]", "E", role="src"), F_("", "E", "source", "src"), F_("#[source]", "Option<Box<dyn ::std::error::Error + Send + Sync + 'static>>", role="src"), F_("#[source]", "T", role="src"),
           F_("#[from]", "E", role="from"), F_("#[from]", "Option<F>", role="from"), F_("#[source] #[from]", "Box<E>", role="from"), F_("#[from]", "W<T>", role="from"), F_("#[from]", "::std::io::Error", "source", "from"),
           F_("#[backtrace]", "W<u8>", "source", "src"), F_("#[from] #[backtrace]", "F", role="from"), F_("#[source] #[backtrace]", "Option<W<T>>", role="src")]
ROLES = [F_(a, ty, n, "from" if "from" in a else "src") for a in ("#[source]", "#[from]", "#[source] #[from]", "#[from] #[source]", "#[from] #[backtrace]", "#[backtrace] #[source]") for n in (None, "source")
         for ty in ("E", "Option<E>", "Box<E>", "Option<Box<E>>", "W<T>", "Option<W<T>>", "Option<::std::io::Error>", "Box<dyn ::std::error::Error + Send + Sync + 'static>")]
BTS = [F_("", "Backtrace", role="bt"), F_("#[backtrace]", "Option<Backtrace>", role="bt"), F_("#[backtrace]", "Backtrace", role="bt")]
GENERICS = {"": "", "<'a>": "", "<T>": "", "<'a, T>": "", "<T: fmt::Debug + fmt::Display>": "", "<T>w": " where T: fmt::Display, Vec<T>: Clone", "<T: ?Sized>": "", "<T = u8>": "", "<T, const N: usize>": "", "<T: Copy + 'static>": " where W<T>: Send"}
DECOR = ["", "/// documented\n", "#[doc(hidden)]", "#[deprecated]", "#[must_use]", "#[non_exhaustive]", "#[repr(C)]", "#[derive(Clone)]", "#[derive(PartialEq, Eq, Hash)]", "#[cfg_attr(all(), doc = \"x\")]", "#[allow(missing_docs)]"]
VIS = ["pub ", "pub(crate) ", "", "pub(super) "]
HARD = "impl%s fmt::Display for S%s%s { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }"


class Decl:
    """-> text with and without the derive; what is to be added"""
    def __init__(self):
        self.derived = self.plain = ""
        self.display, self.froms = True, []


def fits(fs, generics):
    t = " ".join(f.ty for f in fs)
    needs_t, has_t = bool(re.search(r"\bT\b", t)), bool(re.search(r"\bT\b", generics))
    needs_a, has_a = "'a" in t, "'a" in generics
    if needs_t != has_t or needs_a != has_a:
        return False
    if "?Sized" in generics and any(re.search(r"\bT\b", f.ty) and f.ty != "PhantomData<T>" for f in fs):
        return False
    return True


def legal(fs):
    src = [f for f in fs if f.role in ("src", "from")]
    if len(src) > 1 or sum(f.role == "bt" for f in fs) > 1:
        return False
    if any(f.role == "from" for f in fs) and any(f.role == "plain" for f in fs):
        return False
    if sum("#[backtrace]" in f.attrs for f in fs) > 1 or any("#[backtrace]" in f.attrs for f in src) and any(f.role == "bt" for f in fs):
        return False
    return True


def body(fs, style, mark, fvis="pub "):
    o = []
    for i, f in enumerate(fs):
        at = f.attrs + " " if mark else ""
        o.append("%s%s%s" % (at, fvis, f.ty) if style == "t" else "%s%s%s: %s" % (at, fvis, f.name or "f%d" % i, f.ty))
    return {"u": "", "t": "(%s)", "s": " { %s }"}[style] % ((", ".join(o),) if style != "u" else ())


def message(kind, fs, style):
    """-> attribute or None if it does not fit"""
    ref = lambda i: str(i) if style == "t" else fs[i].name or "f%d" % i
    if kind == "lit":
        return '#[error("m")]'
    if kind == "transparent":
        return "#[error(transparent)]" if len(fs) == 1 and fs[0].role in ("src", "from") and "source" not in fs[0].attrs and (fs[0].name != "source" or style == "s") and "Option" not in fs[0].ty and "dyn" not in fs[0].ty and fs[0].attrs != "#[backtrace]" else None
    if kind == "fmt":
        return "#[error(fmt = f%d)]" % len(fs) if len(fs) < 3 else None
    if not fs:
        return None
    sized = [i for i, f in enumerate(fs) if "Option" not in f.ty and f.ty not in ("Vec<T>", "PhantomData<T>") and f.role != "bt"]
    if kind == "fields":
        return '#[error("%s")]' % " ".join("{%s}" % ref(i) if i in sized else "{%s:?}" % ref(i) for i in range(len(fs)))
    if kind == "spec":
        return '#[error("{%s:>10?} {x}", x = 1)]' % ref(len(fs) - 1)
    if kind == "args":
        return None if any(re.search(r"\bT\b", f.ty) for f in fs[:1]) else '#[error("{:?} {}", .%s, 2)]' % ref(0)
    raise MachineryError(kind)


MESSAGES = ["lit", "fields", "spec", "args", "transparent"]


def params(generics):
    g = generics.rstrip("w")
    names = ", ".join(x.strip().replace("const ", "").split(":")[0].split("=")[0].strip() for x in g.strip("<>").split(",")) if g else ""
    return re.sub(r" = \w+", "", g), "<%s>" % names if g else ""


def debug(generics, where):
    i, p = params(generics)
    return "impl%s fmt::Debug for S%s%s { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }" % (i, p, where)


def finish(d, generics, attrs, head, rest, rest_plain, decor, hard):
    where = GENERICS[generics]
    g = generics.rstrip("w")
    tail = debug(generics, where) + (HARD % (params(generics) + (where,)) if hard else "")
    d.derived = "%s #[derive(::thiserror::Error)] %s %s %s\n%s" % (decor, attrs, head % g, rest, tail)
    d.plain = "%s %s %s\n%s" % (decor, head % g, rest_plain, tail)
    d.display = not hard
    return d


def struct(fs, style, msg, generics, decor="", vis="pub ", fvis="pub "):
    if style != "s" and any(f.name == "source" and f.role == "src" and not f.attrs for f in fs) or not fits(fs, generics) or not legal(fs):
        return None
    a = "" if msg == "none" else message(msg, fs, style)
    if a is None:
        return None
    if msg == "transparent" and "repr" in decor:
        return None
    d = Decl()
    where = GENERICS[generics]
    fmt = "%s%s;" if style != "s" else "%s%s"
    b, p = body(fs, style, True, fvis), body(fs, style, False, fvis)
    if style == "s":
        b, p, where2 = where + b, where + p, ""
    else:
        where2 = where
    d.froms = [(0, i, f.ty.startswith("Option<")) for i, f in enumerate(fs) if f.role == "from"]
    return finish(d, generics, a, vis + "struct S%s", fmt % (b, where2), fmt % (p, where2), decor, msg == "none")


def enum(vs, top, generics, decor="", vis="pub ", vdecor=""):
    """vs: [(fields, style, message kind)]"""
    allf = [f for fs, _, _ in vs for f in fs]
    if not fits(allf, generics) or any(not legal(fs) for fs, _, _ in vs):
        return None
    froms = [f.ty for f in allf if f.role == "from"]
    if len(froms) != len(set(re.sub(r"^Option<(.*)>$", r"\1", t) for t in froms)):
        return None
    d = Decl()
    out, plain = [], []
    hard = top == "none" and all(m == "none" for _, _, m in vs)
    if not hard and top == "none" and any(m == "none" for _, _, m in vs):
        return None
    for k, (fs, style, m) in enumerate(vs):
        if style != "s" and any(f.name == "source" and f.role == "src" and not f.attrs for f in fs) or (style == "u") != (not fs):
            return None
        a = "" if m == "none" else message(m, fs, style)
        if a is None:
            return None
        out.append("%s %s V%d%s" % (vdecor, a, k, body(fs, style, True, "")))
        plain.append("%s V%d%s" % (vdecor, k, body(fs, style, False, "")))
        d.froms += [(k, i, f.ty.startswith("Option<")) for i, f in enumerate(fs) if f.role == "from"]
    if top == "transparent" and any(m == "none" and message("transparent", fs, s) is None for fs, s, m in vs):
        return None
    a = {"none": "", "lit": '#[error("m")]', "transparent": "#[error(transparent)]"}[top]
    if not out and hard:
        hard = False        # an empty enum is displayed
    if "repr" in decor and not vs:
        return None
    return finish(d, generics, a, vis + "enum S%s", GENERICS[generics] + " { %s }" % ", ".join(out), GENERICS[generics] + " { %s }" % ", ".join(plain), decor, hard)


def generate(c, add):
    th = c.thorough
    every = PLAIN + SOURCES + BTS

    def structs(ch):
        n = ch(3)
        fs = [ch(every) for _ in range(n)]
        if not legal(fs):
            return None
        style = ch("st") if n else "u"
        msg = ch(["none"] + MESSAGES)
        # two fields: every pair with one message, of every kind in the thorough tier
        if n == 2 and not th and msg != (["none"] + MESSAGES)[(every.index(fs[0]) + every.index(fs[1])) % 6]:
            return None
        return struct(fs, style, msg, ch(list(GENERICS)))

    def roles(ch):
        """One field with a role: every spelling of the role x type, in a struct or a variant, with a backtrace or a second variant"""
        f = ch(ROLES)
        style = ch("st")
        if style == "t" and f.name:
            return None
        g = ch(["", "<T>", "<T>w"])
        bt = ch([None] + BTS) if "backtrace" not in f.attrs else None
        fs = [x for x in (f, bt) if x]
        if ch.flag():
            return struct(fs, style, ch(["none", "lit", "fields", "transparent"]), g)
        vs = [(fs, style, ch(["none", "lit", "fields", "transparent", "fmt"]))]
        top = ch(["none", "lit", "transparent"])
        if ch.flag():
            vs.insert(ch(2), ([], "u", "lit") if vs[0][2] != "none" else ([PLAIN[0]], "t", "none"))
        return enum(vs, top, g)

    def decorated(ch):
        fs = [ch([every[0], SOURCES[0], SOURCES[5], SOURCES[7], PLAIN[3], SOURCES[3]] if th else [SOURCES[5], SOURCES[7], PLAIN[3]])]
        g = ch(["", "<'a>", "<T>"])
        dec, vis = ch(DECOR), ch(VIS)
        if dec and vis != VIS[0] and (not th or dec != DECOR[2]):
            return None
        if ch.flag():
            return struct(fs, ch("st"), ch(["none", "lit", "fields", "transparent"]), g, dec, vis, ch(VIS) if th or not dec else vis)
        return enum([(fs, ch("st"), ch(["none", "lit", "fields", "fmt", "transparent"] if th or not dec else ["none", "lit", "transparent"]))], ch(["none", "lit", "transparent"] if th or not dec else ["none", "lit"]), g, dec, vis, ch(["", "/// doc\n", "#[doc(hidden)]", "#[deprecated]"]))

    def enums(ch):
        n = ch(4)
        if not th and n == 2:
            pool = [None, PLAIN[2], PLAIN[3], SOURCES[0], SOURCES[4], SOURCES[5], SOURCES[9], SOURCES[11]]
        elif n == 3:
            pool = [None, SOURCES[4], SOURCES[7]] if not th else [None, SOURCES[4], SOURCES[5], SOURCES[7]]
        else:
            pool = [None, PLAIN[0], PLAIN[2], PLAIN[3]] + [s for s in SOURCES if s.attrs or n == 1]
        top = ch(["none", "lit", "transparent"])
        g = ch(["", "<'a>", "<T>", "<'a, T>", "<T>w", "<T: Copy + 'static>"] if n < 3 else ["", "<T>"])
        vs = []
        for _ in range(n):
            f = ch(pool)
            bt = ch([None] + BTS[:2]) if n == 1 and f and f.role in ("src", "from") and "backtrace" not in f.attrs else None
            fs = [x for x in (f, bt) if x]
            vs.append((fs, ch("st") if fs else "u", ch(["none", "lit", "fields", "transparent", "fmt"] if n < 2 else ["lit", "transparent", "none"])))
        return enum(vs, top, g)

    for name, fn in (("struct", structs), ("roles", roles), ("decorated", decorated), ("enum", enums)):
        for d in c.explore(fn):
            add(name, d)


# ---- the interface of a module ----------------------------------------------------------------

class Doc:
    def __init__(self, d):
        self.index, self.paths = d["index"], d["paths"]
        self.root = self.index[str(d["root"])]
        self.modules = {}
        for i in self.root["inner"]["module"]["items"]:
            it = self.index[str(i)]
            if "module" in it["inner"]:
                self.modules[it["name"]] = it

    def path(self, id):
        p = self.paths.get(str(id))
        if not p:
            return "?"
        p = p["path"]
        if p[0] == "c22" and len(p) > 2:
            p = ["c22", "M"] + p[2:]
        return "::".join(p)

    def norm(self, x):
        if isinstance(x, dict):
            if "id" in x and "args" in x:
                a = self.norm(x["args"])
                return [self.path(x["id"]), a if a != {"angle_bracketed": {"args": [], "constraints": []}} else None]
            # the bound of a trait object in a Box, written or not
            if "traits" in x:
                return {"traits": sorted((self.norm(v) for v in x["traits"]), key=str)}
            return {k: self.norm(v) for k, v in sorted(x.items()) if (k, v) != ("lifetime", "'static") and (k, v) != ("lifetime", None)}
        if isinstance(x, list):
            return [self.norm(v) for v in x]
        return x

    def item(self, id):
        """Everything there is to see of an item but its implementations"""
        it = self.index[str(id)]
        kind, inner = next(iter(it["inner"].items()))
        o = {"name": it["name"], "kind": kind, "vis": re.sub(r"::[dp]\d+\b", "::M", json.dumps(it["visibility"])) if "restricted" not in json.dumps(it["visibility"]) else "restricted", "docs": it["docs"], "attrs": [a for a in it["attrs"] if not re.match(r"#\[((error|source|from|backtrace)\b|attr = CfgAttrTrace)", a["other"] if isinstance(a, dict) and "other" in a else a if isinstance(a, str) else "")], "deprecated": it["deprecation"] is not None}
        if kind == "struct_field":
            o["type"] = self.norm(inner)
        for k, v in inner.items() if isinstance(inner, dict) else ():
            if k in ("generics",):
                o[k] = self.norm(v)
            if k == "variants":
                o[k] = [self.item(i) for i in v]
            if k == "kind":
                o["style"] = self.body(v)
        return o

    def body(self, v):
        if not isinstance(v, dict):
            return v
        (k, x), = v.items()
        ids = x if isinstance(x, list) else x.get("fields", [])
        return [k, [self.item(i) if i is not None else None for i in ids]]

    def bounds(self, generics):
        out = set()
        for p in generics["params"]:
            for b in (p["kind"].get("type") or {}).get("bounds", ()):
                out.add((json.dumps({"generic": p["name"]}), json.dumps(self.norm(b), sort_keys=True)))
            for l in (p["kind"].get("lifetime") or {}).get("outlives", ()):
                out.add((p["name"], l))
        for w in generics["where_predicates"]:
            if "bound_predicate" in w:
                for b in w["bound_predicate"]["bounds"]:
                    out.add((json.dumps(self.norm(w["bound_predicate"]["type"]), sort_keys=True), json.dumps(self.norm(b), sort_keys=True)))
            else:
                out.add((json.dumps(w, sort_keys=True), ""))
        return out

    def fields(self, ty):
        inner = next(iter(ty["inner"].values()))
        bodies = [self.index[str(i)]["inner"]["variant"]["kind"] for i in inner["variants"]] if "variants" in inner else [inner["kind"]]
        out = []
        for b in bodies:
            ids = [] if not isinstance(b, dict) else next(iter(b.values()))
            out.append([self.norm(self.index[str(i)]["inner"]["struct_field"]) for i in (ids if isinstance(ids, list) else ids["fields"])])
        return out


ALLOWED = {"core::fmt::" + x for x in ("Display", "Debug", "LowerHex", "UpperHex", "Octal", "Binary", "LowerExp", "UpperExp", "Pointer")} | {"core::error::Error"}


def traits(doc, ty):
    """-> {trait: [(arguments, impl)]}, and the rendered auto traits"""
    own, auto = {}, []
    inner = next(iter(ty["inner"].values()))
    for i in inner["impls"]:
        it = doc.index[str(i)]
        im = it["inner"]["impl"]
        if im["blanket_impl"] is not None:
            continue
        if im["is_synthetic"]:
            auto.append(json.dumps([doc.path(im["trait"]["id"]), im["is_negative"], sorted(doc.bounds(im["generics"]))], sort_keys=True))
            continue
        name = doc.path(im["trait"]["id"]) if im["trait"] else "inherent"
        own.setdefault(name, []).append((it, im))
    return own, sorted(auto)


def compare(doc, d, n, nightly):
    """-> complaint or None"""
    a, b = doc.modules["d%d" % n], doc.modules["p%d" % n]
    ia = [doc.index[str(i)] for i in a["inner"]["module"]["items"]]
    ib = [doc.index[str(i)] for i in b["inner"]["module"]["items"]]
    look = lambda items: sorted(json.dumps(doc.item(i["id"]), sort_keys=True) for i in items if "impl" not in i["inner"] and "use" not in i["inner"])
    if look(ia) != look(ib):
        x, y = look(ia), look(ib)
        return "items differ: %s, by hand %s" % ([i for i in x if i not in y][:2], [i for i in y if i not in x][:2])
    sa = [i for i in ia if i["name"] == "S" and ("struct" in i["inner"] or "enum" in i["inner"])]
    sb = [i for i in ib if i["name"] == "S" and ("struct" in i["inner"] or "enum" in i["inner"])]
    if len(sa) != 1 or len(sb) != 1:
        raise MachineryError("no type S in d%d" % n)
    ta, autoa = traits(doc, sa[0])
    tb, autob = traits(doc, sb[0])
    if autoa != autob:
        return "auto traits differ: %s, by hand %s" % (autoa, autob)
    want = {"core::error::Error": 1}
    if d.display:
        want["core::fmt::Display"] = 1
    if d.froms:
        want["core::convert::From"] = len(d.froms)
    for t in sorted(set(ta) | set(tb) | set(want)):
        have, base = len(ta.get(t, ())), len(tb.get(t, ()))
        if have != base + want.get(t, 0):
            return "%d implementations of %s instead of %d" % (have, t, base + want.get(t, 0))
    declared = doc.bounds(next(iter(sb[0]["inner"].values()))["generics"])
    for t in want:
        for it, im in ta[t]:
            if im["is_negative"] or im["is_unsafe"]:
                return "%s: negative or unsafe" % t
            names = [doc.index[str(i)]["name"] for i in im["items"]]
            legal_names = {"core::error::Error": {"source", "provide"}, "core::fmt::Display": {"fmt"}, "core::convert::From": {"from"}}[t]
            if not set(names) <= legal_names or not nightly and "provide" in names:
                return "%s has the methods %s" % (t, names)
            for x in [it] + [doc.index[str(i)] for i in im["items"]]:
                if x["deprecation"] is not None or "hidden" in json.dumps(x["attrs"]):
                    return "%s: hidden or deprecated" % t
            if "thiserror" in json.dumps(doc.norm(im["for"])) + json.dumps(doc.norm(im["trait"])) + json.dumps(doc.norm(im["generics"])):
                return "%s mentions thiserror" % t
            extra = doc.bounds(im["generics"]) - declared
            for ty, bound in sorted(extra):
                if t == "core::convert::From":
                    return "From has the bound %s: %s" % (ty, bound)
                b = json.loads(bound) if bound else {}
                ok = b == {"outlives": "'static"} or "trait_bound" in b and b["trait_bound"]["trait"][0] in ALLOWED and (t == "core::error::Error" or b["trait_bound"]["trait"][0] != "core::error::Error" or '"transparent"' in d.derived)
                if not ok:
                    return "%s has the bound %s: %s" % (t, ty, bound)
            if not any("maybe" in b for _, b in doc.bounds(im["generics"])) and any("maybe" in b for _, b in declared):
                return "%s requires Sized" % t
    if d.froms:
        fields = doc.fields(sb[0])
        expect = sorted(json.dumps(unoption(fields[v][i]) if opt else fields[v][i], sort_keys=True) for v, i, opt in d.froms)
        have = sorted(json.dumps(doc.norm(im["trait"]["args"])["angle_bracketed"]["args"][0]["type"], sort_keys=True) for _, im in ta["core::convert::From"])
        if expect != have:
            return "converts from %s, fields %s" % (have, expect)
    return None


def unoption(t):
    return t["resolved_path"][1]["angle_bracketed"]["args"][0]["type"]


def document(c, base, decls, part, tc):
    """rustdoc over one crate; -> Doc, or the compiler's errors"""
    o = [CRATE_HEAD if tc == STABLE else CRATE_HEAD.replace("#![allow", "#![feature(error_generic_member_access)]\n#![allow", 1)]
    o.append(HEAD)
    for n, d in decls:
        o.append("pub mod d%d { use super::*; %s }\npub mod p%d { use super::*; %s }" % (n, d.derived, n, d.plain))
    src = os.path.join(c.work, "%s-%d" % (tc, part), "c22.rs")
    os.makedirs(os.path.dirname(src), exist_ok=True)
    open(src, "w").write("\n".join(o))
    cmd = ["rustdoc", "-Zunstable-options", "--output-format", "json", "--document-private-items", "--document-hidden-items", "--crate-type", "lib", "--crate-name", "c22", "--edition", "2021", "-L", "dependency=" + base.deps,
           "--extern", "thiserror=" + base.externs["thiserror"], "-o", os.path.dirname(src), src]
    p = subprocess.run(cmd, env=clean_env(RUSTUP_TOOLCHAIN=tc, RUSTC_BOOTSTRAP="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode:
        return None, p.stderr
    out = os.path.join(os.path.dirname(src), "c22.json")
    d = Doc(json.load(open(out)))
    os.remove(out)
    return d, p.stderr


def run(tier=None):
    c = Check("C22", "model_checking", tier)
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    decls, groups = {}, {}

    def add(group, d):
        if d.derived not in decls:
            decls[d.derived] = d
            groups[group] = groups.get(group, 0) + 1
    generate(c, add)
    decls = list(enumerate(decls.values()))
    log("[C22] %d declarations %s" % (len(decls), groups))
    size = 150
    # backtraces are for the nightly compiler
    day = [x for x in decls if "acktrace" not in x[1].derived]
    night = [x for x in decls if c.thorough or "acktrace" in x[1].derived]
    jobs = [(tc, k, l[k:k + size]) for tc, l in ((STABLE, day), (NIGHTLY, night)) for k in range(0, len(l), size)]

    def one(job):
        tc, k, part = job
        doc, err = document(c, c.bases["std", tc], part, k, tc)
        out = []
        if doc is None:
            if len(part) == 1:
                return [(part[0][1], "does not compile: " + err[-1500:], tc)]
            h = len(part) // 2
            return one((tc, k, part[:h])) + one((tc, k, part[h:]))
        for n, d in part:
            bad = compare(doc, d, n, tc == NIGHTLY)
            if bad:
                out.append((d, bad, tc))
        return out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for res in ex.map(one, jobs):
            for d, bad, tc in res:
                c.direct_violation("interface/" + " ".join(d.derived.split()), "%s (%s)" % (bad[:1500], tc), [], d.derived + "\n\nby hand:\n" + d.plain)
    c.cov["traces_validated_against_impl"] += len(day) + len(night)
    log("[C22] documented, %.1fs" % (time.time() - c.t0))
    return c.finish(declarations=len(decls), groups=groups)
