"""C04: source() returns exactly the designated field."""
from .core import Check, Prog, rust_str, NIGHTLY
from .c01 import DBG

HEADER = """use ::thiserror::Error; use ::mc::{Leaf, Handle, addr};
use ::std::{boxed::Box, sync::Arc, rc::Rc, error::Error as StdError};
pub static LEAF9: Leaf = Leaf(9);
"""
# type, value, Display of the source (None: no source), expression for the inner address given `f: &Field`
KINDS = {
    "leaf": ("Leaf", "Leaf(%d)", "leaf%d", "addr(f)"),
    "opt-some": ("Option<Leaf>", "Some(Leaf(%d))", "leaf%d", "addr(f.as_ref().unwrap())"),
    "opt-none": ("Option<Leaf>", "None", None, ""),
    "opt-path": ("::core::option::Option<Leaf>", "Some(Leaf(%d))", "leaf%d", "addr(f.as_ref().unwrap())"),
    "opt-path-none": ("::std::option::Option<Leaf>", "None", None, ""),
    "boxdyn": ("Box<dyn StdError>", "Box::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "boxdyn-send": ("Box<dyn StdError + Send + 'static>", "Box::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "boxdyn-ss": ("Box<dyn StdError + Send + Sync>", "Box::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "boxdyn-us": ("Box<dyn StdError + Send + Sync + ::std::panic::UnwindSafe>", "Box::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "opt-boxdyn": ("Option<Box<dyn StdError + Send + Sync>>", "Some(Box::new(Leaf(%d)))", "leaf%d", "addr(&**f.as_ref().unwrap())"),
    "opt-boxdyn-none": ("Option<Box<dyn StdError + 'static>>", "None", None, ""),
    "arcdyn": ("Arc<dyn StdError + Send + Sync>", "Arc::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "rcdyn": ("Rc<dyn StdError>", "Rc::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "box": ("Box<Leaf>", "Box::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "arc": ("Arc<Leaf>", "Arc::new(Leaf(%d))", "leaf%d", "addr(&**f)"),
    "boxbox": ("Box<Box<dyn StdError>>", "Box::new(Box::new(Leaf(%d)))", "leaf%d", "addr(&***f)"),
    "handle": ("Handle", "Handle(Box::new(Leaf(%d)))", "leaf%d", "addr(&*f.0)"),
    "opt-handle": ("Option<Handle>", "Some(Handle(Box::new(Leaf(%d))))", "leaf%d", "addr(&*f.as_ref().unwrap().0)"),
    "refleaf": ("&'static Leaf", "&LEAF9", "leaf9", "addr(*f)"),
    "refdyn": ("&'static (dyn StdError + 'static)", "&LEAF9", "leaf9", "addr(*f)"),
    "opt-ref": ("Option<&'static Leaf>", "Some(&LEAF9)", "leaf9", "addr(f.unwrap())"),
    "anyhow": ("::anyhow::Error", "::anyhow::Error::new(Leaf(%d))", "leaf%d", ""),
    "boxstr": ("Box<dyn StdError>", "\"text%d\".into()", "text%d", "addr(&**f)"),
    "result-alias": ("::mc::Leaf", "Leaf(%d)", "leaf%d", "addr(f)"),
    "io": ("::std::io::Error", "::std::io::Error::other(Leaf(%d))", "leaf%d", "addr(f)"),
    "fmt": ("::std::fmt::Error", "::std::fmt::Error", "an error occurred when formatting an argument", ""),
}
DECOY = ["leaf", "opt-some", "boxdyn", "opt-none", "handle"]
PLAIN = ("u64", "%d", None, "")


class Case:
    """fields: list of (name or None, kind, attrs); des: index of the designated source or None."""

    def __init__(self, fields, named, des):
        self.fields, self.named, self.des = fields, named, des

    def kind(self, i):
        k = self.fields[i][1]
        return PLAIN if k == "u8" else KINDS[k]

    def decl(self):
        if not self.fields and self.named is None:
            return ""
        fs = []
        for i, (n, k, a) in enumerate(self.fields):
            fs.append("%s%s%s" % (a + " " if a else "", "%s: " % n if self.named else "", self.kind(i)[0]))
        return (" { %s }" if self.named else "(%s)") % ", ".join(fs)

    def val(self, salt):
        if not self.fields and self.named is None:
            return ""
        fs = []
        for i, (n, k, a) in enumerate(self.fields):
            v = self.kind(i)[1]
            v = v % (salt * 10 + i) if "%d" in v else v
            fs.append("%s%s" % ("%s: " % n if self.named else "", v))
        return (" { %s }" if self.named else "(%s)") % ", ".join(fs)

    def name(self):
        return self.decl() or "unit"

    def check(self, tag, path, salt, enum):
        """Rust statement that checks `e`."""
        if self.des is None or self.kind(self.des)[2] is None:
            return "c.source_is(%s, &e, ::core::option::Option::None);" % rust_str(tag)
        k = self.kind(self.des)
        d = k[2] % (salt * 10 + self.des) if "%d" in k[2] else k[2]
        member = self.fields[self.des][0] if self.named else str(self.des)
        if enum:
            get = "let %s { %s: f, .. } = &e else { unreachable!() };" % (path, member)
        else:
            get = "let f = &e.%s;" % member
        at = "&[addr(f)%s]" % (", " + k[3] if k[3] else "")
        if not k[3]:
            at = "&[]"
        return "%s c.source_is(%s, &e, ::core::option::Option::Some((%s, %s)));" % (get, rust_str(tag), rust_str(d), at)


def structural(ch, quick):
    """Every placement of the designated field, of decoys and of names."""
    named = ch([True, False])
    n = ch([0, 1, 2, 3])
    if n == 0:
        return Case([], ch([True, None]) if named else None, None)
    how = ch(["none", "attr", "name", "from", "attr+name", "from+source"] if named else ["none", "attr", "from", "from+source"])
    if how.startswith("from") and n > 1:
        return None
    des = ch(n) if how != "none" else None
    kinds = list(KINDS)
    dkind = ch(kinds if n < 3 and not (quick and n > 1) else ["leaf", "opt-none", "boxdyn", "opt-some"]) if how != "none" else None
    if how.startswith("from") and "anyhow" in (dkind,) and False:
        return None
    rawdecoy = ch.flag() if named and n > 1 and how in ("none", "attr") else False
    fields = []
    names = ["alpha", "beta", "gamma"]
    placed = False
    for i in range(n):
        nm = names[i] if named else None
        attr = ""
        if i == des:
            kind = dkind
            if how == "attr":
                attr = "#[source]"
            elif how == "name":
                nm = "source"
            elif how == "attr+name":
                attr = "#[source]"
            elif how == "from":
                attr = "#[from]"
            elif how == "from+source":
                attr = ch(["#[from] #[source]", "#[source] #[from]"])
        else:
            kind = ch(DECOY[:2] + ["u8"] if quick or n == 3 else DECOY + ["u8"])
            if rawdecoy and not placed:
                nm, placed = "r#source", True
            elif how == "attr+name" and not placed:
                nm, placed = "source", True      # a field named source that is not the source
        fields.append((nm, kind, attr))
    if how == "attr+name" and not placed:
        fields[des] = ("source",) + fields[des][1:]
    return Case(fields, named, des)


def unit_name(i, c):
    return c


def enum_prog(id, cases):
    o = [HEADER, "#[derive(Error)] #[error(\"m\")] pub enum E {\n"]
    # a From impl per type can exist once: keep each #[from] in an enum of its own
    main = [(i, k) for i, k in enumerate(cases) if not any("from" in f[2] for f in k.fields)]
    froms = [(i, k) for i, k in enumerate(cases) if any("from" in f[2] for f in k.fields)]
    for i, k in main:
        o.append("V%d%s,\n" % (i, k.decl()))
    o.append("}\n" + DBG % "E")
    for i, k in froms:
        o.append("#[derive(Error)] #[error(\"m\")] pub enum F%d { A, V%s, B(u64) }\n" % (i, k.decl()) + DBG % ("F%d" % i))
    o.append("pub fn run(c: &mut ::mc::Ctx) {\n")
    for i, k in main:
        o.append("{ let e = E::V%d%s; %s }\n" % (i, k.val(i % 90 + 1), k.check("enum " + k.name(), "E::V%d" % i, i % 90 + 1, True)))
    for i, k in froms:
        o.append("{ let e = F%d::V%s; %s c.source_is(\"unit\", &F%d::A, None); c.source_is(\"u8\", &F%d::B(1), None); }\n" % (i, k.val(i % 90 + 1), k.check("enum " + k.name(), "F%d::V" % i, i % 90 + 1, True), i, i))
    o.append("}")
    return Prog(id, "".join(o), len(cases))


def struct_prog(id, cases):
    o = [HEADER]
    for i, k in enumerate(cases):
        o.append("#[derive(Error)] #[error(\"m\")] pub struct S%d%s%s\n" % (i, k.decl(), "" if k.named else ";") + DBG % ("S%d" % i))
    o.append("pub fn run(c: &mut ::mc::Ctx) {\n")
    for i, k in enumerate(cases):
        o.append("{ let e = S%d%s; %s }\n" % (i, k.val(i % 90 + 1), k.check("struct " + k.name(), "", i % 90 + 1, False)))
    o.append("}")
    return Prog(id, "".join(o), len(cases))


VARIANTS = {
    "unit": Case([], None, None),
    "plain": Case([(None, "u8", "")], False, None),
    "leafnosrc": Case([("alpha", "leaf", ""), ("r#source", "leaf", "")], True, None),
    "named": Case([("alpha", "leaf", ""), ("source", "leaf", "")], True, 1),
    "attr0": Case([(None, "leaf", "#[source]"), (None, "leaf", "")], False, 0),
    "attr1": Case([(None, "leaf", ""), (None, "boxdyn", "#[source]")], False, 1),
    "from": Case([(None, "io", "#[from]")], False, 0),
    "none": Case([("source", "opt-none", "")], True, 0),
    "some": Case([("source", "opt-some", "")], True, 0),
}


def mixed_prog(id, combos):
    """Enums of several variants of different kinds: the active variant decides."""
    o, runs = [HEADER], []
    for n, combo in enumerate(combos):
        o.append("#[derive(Error)] #[error(\"m\")] pub enum M%d { %s }\n" % (n, ", ".join("V%d%s" % (i, VARIANTS[v].decl()) for i, v in enumerate(combo))) + DBG % ("M%d" % n))
        for i, v in enumerate(combo):
            k = VARIANTS[v]
            runs.append("{ let e = M%d::V%d%s; %s }\n" % (n, i, k.val(i + 1), k.check("/".join(combo), "M%d::V%d" % (n, i), i + 1, True)))
    return Prog(id, "".join(o) + "pub fn run(c: &mut ::mc::Ctx) {\n#![allow(irrefutable_let_patterns)]\n" + "".join(runs) + "}", len(runs))


GEN = HEADER + """
#[derive(Error, Debug)] #[error("m")] pub struct A<T> { source: T }
#[derive(Error, Debug)] #[error("m")] pub struct B<T> { other: u8, #[source] e: Option<T> }
#[derive(Error, Debug)] #[error("m")] pub struct C<T, U>(U, #[source] T);
#[derive(Error, Debug)] #[error("m")] pub struct D<T>(#[from] T);
#[derive(Error, Debug)] #[error("m")] pub enum E<T, U> { X { source: T }, Y(#[source] U), Z(T, U), W { source: Option<U> } }
#[derive(Error, Debug)] #[error("m")] pub enum F<T: StdError + 'static> { X(#[source] Box<T>), Y { source: Box<dyn StdError>, t: T } }
#[derive(Error, Debug)] #[error("m")] pub enum G<'a, const N: usize> { X { a: &'a str, source: Leaf }, Y([u8; N], #[source] Leaf) }
pub fn run(c: &mut ::mc::Ctx) {
  let e = A { source: Leaf(1) }; c.source_is("A", &e, Some(("leaf1", &[addr(&e.source)])));
  let e = A { source: A { source: Leaf(2) } }; c.source_is("AA", &e, Some(("m", &[addr(&e.source)]))); c.source_is("AA2", e.source().unwrap(), Some(("leaf2", &[addr(&e.source.source)])));
  let e = B { other: 1, e: Some(Leaf(3)) }; c.source_is("B", &e, Some(("leaf3", &[addr(e.e.as_ref().unwrap())])));
  let e = B::<Leaf> { other: 1, e: None }; c.source_is("B none", &e, None);
  let e = C(Leaf(1), Leaf(2)); c.source_is("C", &e, Some(("leaf2", &[addr(&e.1)])));
  let e = C(1u8, Leaf(2)); c.source_is("C", &e, Some(("leaf2", &[addr(&e.1)])));
  let e = D(Leaf(2)); c.source_is("D", &e, Some(("leaf2", &[addr(&e.0)])));
  type E2 = E<Leaf, mcNode>; use ::mc::Node as mcNode;
  c.source_is("EX", &E2::X { source: Leaf(4) }, Some(("leaf4", &[])));
  c.source_is("EY", &E2::Y(mcNode(4, None)), Some(("node4[ NoneNone]", &[])));
  c.source_is("EZ", &E2::Z(Leaf(5), mcNode(4, None)), None);
  c.source_is("EW", &E2::W { source: None }, None);
  c.source_is("EW", &E2::W { source: Some(mcNode(6, None)) }, Some(("node6[ NoneNone]", &[])));
  c.source_is("FX", &F::X(Box::new(Leaf(1))), Some(("leaf1", &[])));
  c.source_is("FY", &F::Y { source: Box::new(Leaf(2)), t: Leaf(1) }, Some(("leaf2", &[])));
}
"""
GEN = GEN.replace("pub enum G<'a, const N: usize>", "pub enum G<const N: usize>").replace("a: &'a str", "a: &'static str")


def wide_cases(width):
    """The designated field at every position of a wide tuple and a wide named shape (indices of two digits)."""
    for p in range(width):
        for kind in ("leaf", "opt-none", "boxdyn", "opt-some"):
            dec = "opt-some" if kind == "leaf" else "leaf"
            yield Case([(None, kind if i == p else dec, "#[source]" if i == p else "") for i in range(width)], False, p)
            yield Case([("f%d" % i, kind if i == p else dec, "#[source]" if i == p else "") for i in range(width)], True, p)
            yield Case([("source" if i == p else "f%d" % i, kind if i == p else dec, "") for i in range(width)], True, p)
    yield Case([(None, "leaf", "") for i in range(width)], False, None)


def many_variants(id, n):
    """An enum of n variants: every variant answers for itself."""
    vs = list(VARIANTS)
    return mixed_prog(id, [tuple(v for v in ((vs[(i + shift) % len(vs)]) for i in range(n)) if v != "from") for shift in range(len(vs))])


def run(tier=None):
    import itertools
    c = Check("C04", "model_checking", tier)
    c.base("std")
    cases = [k for k in c.explore(lambda ch: structural(ch, not c.thorough)) if k]
    progs = []
    # #[from] anyhow etc. are fine; a decoy named source next to #[from] is not possible
    step = 50
    ecases = cases
    for i in range(0, len(ecases), step):
        progs.append(enum_prog("enum/%d" % i, ecases[i:i + step]))
    for i in range(0, len(cases), 30):
        progs.append(struct_prog("struct/%d" % i, cases[i:i + 30]))
    vs = list(VARIANTS)
    combos = list(itertools.product(vs, repeat=1)) + list(itertools.product(vs, repeat=2)) + list(itertools.product(vs, repeat=3))
    combos = [x for x in combos if sum(v == "from" for v in x) <= 1]
    if c.thorough:
        combos += [x for x in itertools.product(vs[:7], repeat=4) if sum(v == "from" for v in x) <= 1]
    c.count(len(combos))
    for i in range(0, len(combos), 30):
        progs.append(mixed_prog("mixed/%d" % i, combos[i:i + 30]))
    progs.append(Prog("generic", GEN, 14))
    wide = [k for w in ((13, 23) if c.thorough else (13,)) for k in wide_cases(w)]
    c.count(len(wide))
    for i in range(0, len(wide), 20):
        progs.append(struct_prog("wide/struct/%d" % i, wide[i:i + 20]))
        progs.append(enum_prog("wide/enum/%d" % i, wide[i:i + 20]))
    progs.append(many_variants("wide/variants", 40 if c.thorough else 26))
    c.sample(cases[len(cases) // 2].name())
    c.sample(cases[-1].name())
    c.sample(progs[0].src[:900])
    c.run_progs(progs, tag="src", externs=("thiserror", "mc", "anyhow"))
    sub = progs if c.thorough else progs[::6]
    c.run_progs(sub, tag="srcn", toolchain=NIGHTLY, externs=("thiserror", "mc", "anyhow"))
    c.assumptions += ["a Box/Arc that is itself an Error may be returned as such or dereferenced: both are that field's error"]
    return c.finish(rule="fields, names, attributes, positions and decoys by exhaustive choice up to 3 fields; mixed enums of up to 3 (4) variants; the designated field at every position of 13 (and 23) fields; enums of 26 (40) variants",
                    programs=len(progs), layouts=len(cases), enums=len(combos))
