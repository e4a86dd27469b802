"""C20: what a macro is given keeps the meaning it has at the call site, and what it expands to does not depend on the caller's names."""
import json
import ref
from lib import *

NS = "whippyunits::define_unit_declarators!(loc, Brd, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);\nwhippyunits::define_unit_declarators!(bon, Brd);"
# key, template, storage type, result kind (q quantity, n number).  $V number, $T storage type, $B brand,
# $Q quantity in m, $K quantity in K, $G branded quantity in m, $S text, $J JSON text
FORMS = [
    ("quantity", "whippyunits::quantity!($V, m)", "f64", "q"),
    ("quantity T", "whippyunits::quantity!($V, m, $T)", "f32", "q"),
    ("quantity T B", "whippyunits::quantity!($V, m, $T, $B)", "i32", "q"),
    ("quantity compound", "whippyunits::quantity!($V, km / s^2, $T, $B)", "f64", "q"),
    ("quantity nonstorage", "whippyunits::quantity!($V, ft)", "f64", "q"),
    ("quantity nonstorage T", "whippyunits::quantity!($V, ft, $T)", "f32", "q"),
    ("quantity nonstorage T B", "whippyunits::quantity!($V, ft, $T, $B)", "f64", "q"),
    ("quantity affine", "whippyunits::quantity!($V, degC)", "f64", "q"),
    ("quantity affine nonstorage", "whippyunits::quantity!($V, degF)", "f64", "q"),
    ("quantity affine T", "whippyunits::quantity!($V, degF, $T)", "f64", "q"),
    ("unit", "<whippyunits::unit!(m, $T, $B)>::new($V)", "f64", "q"),
    ("unit compound", "<whippyunits::unit!(kg * mm^2 / s, $T)>::new($V)", "i32", "q"),
    ("value", "whippyunits::value!($Q, mm)", "f64", "n"),
    ("value T", "whippyunits::value!($Q, mm, $T)", "f32", "n"),
    ("value T int", "whippyunits::value!($Q, mm, $T)", "i32", "n"),
    ("value T B", "whippyunits::value!($G, mm, $T, $B)", "f64", "n"),
    ("value nonstorage", "whippyunits::value!($Q, ft)", "f64", "n"),
    ("value nonstorage T", "whippyunits::value!($Q, ft, $T)", "f32", "n"),
    ("value affine", "whippyunits::value!($K, degC)", "f64", "n"),
    ("value affine T", "whippyunits::value!($K, degC, $T)", "f32", "n"),
    ("rescale", "whippyunits::rescale!($Q, mm)", "f64", "q"),
    ("rescale f32", "whippyunits::rescale!($Q, mm, f32)", "f32", "q"),
    ("rescale i32", "whippyunits::rescale!($Q, mm, i32)", "i32", "q"),
    ("from_string", "whippyunits::from_string!($S, mm).unwrap()", "f64", "q"),
    ("from_string T", "whippyunits::from_string!($S, mm, $T).unwrap()", "f64", "q"),
    ("from_json", "whippyunits::from_json!($J, mm).unwrap()", "f64", "q"),
    ("from_json T", "whippyunits::from_json!($J, mm, $T).unwrap()", "f64", "q"),
    ("local quantity", "loc::quantity!($V, m)", "f64", "q"),
    ("local quantity T", "loc::quantity!($V, m, $T)", "i32", "q"),
    ("local quantity nonstorage", "loc::quantity!($V, ft)", "f64", "q"),
    ("local quantity affine", "loc::quantity!($V, degC)", "f64", "q"),
    ("brand quantity", "bon::quantity!($V, m)", "f64", "q"),
    ("brand quantity T", "bon::quantity!($V, ft, $T)", "f32", "q"),
    ("literal", "whippyunits::default_declarators::literals::float::m!(3.5)", "f64", "q"),
    ("literal T", "whippyunits::default_declarators::literals::float::ft_f32!(3.5)", "f32", "q"),
    ("literal int", "whippyunits::default_declarators::literals::integer::km_i64!(28)", "i64", "q"),
    ("local literal", "loc::literals::float::m!(3.5)", "f64", "q"),
    ("local literal T", "loc::literals::integer::m_u64!(28)", "u64", "q"),
    ("brand literal", "bon::literals::float::ft!(3.5)", "f64", "q"),
    ("brand literal T", "bon::literals::integer::km_u32!(28)", "u32", "q"),
    ("local unit", "<whippyunits::local_unit!(m, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian, $T, $B)>::new($V)", "f32", "q"),
]
PRIM = {"f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "bool", "str", "char"}
KW = {"as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move",
      "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async",
      "await", "dyn", "gen", "macro_rules", "_"}


def ALIASED(f):
    # the others match the storage type by its name
    return not f.startswith(("value", "local", "rescale", "literal"))


def lit(t):
    return "3.5" if t[0] == "f" else "28"


def fill(tpl, t, **o):
    d = dict(V=f"{lit(t)}{t}", T=t, B="crate::Mark", S='"3.5m"', J='r#"{"value": 3.5, "unit": "m"}"#')
    d.update(o)
    d.setdefault("Q", f"<whippyunits::unit!(m, {t})>::new({d['V']})")
    d.setdefault("K", f"<whippyunits::unit!(K, {t})>::new({d['V']})")
    d.setdefault("G", f"<whippyunits::unit!(m, {t}, {d['B']})>::new({d['V']})")
    for k, v in d.items():
        tpl = tpl.replace("$" + k, v)
    return tpl


def show(kind):
    return 'crate::showq(k, r)' if kind == "q" else 'crate::shown(k, r)'


HEAD = "#![allow(warnings)]\nmod probe {" + PROBE_SRC + """
pub fn shown<T: Img>(k: &str, v: T) { println!("{}\\t[]\\t[]\\t{}\\t-", k, v.img()) } }
pub use probe::{showq, shown};
#[derive(Clone, Copy, PartialEq)] pub struct MarkT {}
pub use self::MarkT as Mark;
pub const FIX: f64 = 3.5;
pub static TICKS: ::core::sync::atomic::AtomicUsize = ::core::sync::atomic::AtomicUsize::new(0);
pub fn tick<T>(x: T) -> T { TICKS.fetch_add(1, ::core::sync::atomic::Ordering::SeqCst); x }
pub fn ticks(k: &str) { println!("{}\\tticks {}", k, TICKS.swap(0, ::core::sync::atomic::Ordering::SeqCst)); }
pub fn id<T>(x: T) -> T { x }
pub fn now<F: ::core::future::Future>(f: F) -> F::Output {
    let mut f = ::std::boxed::Box::pin(f);
    let mut c = ::core::task::Context::from_waker(::core::task::Waker::noop());
    match f.as_mut().poll(&mut c) { ::core::task::Poll::Ready(x) => x, _ => panic!("pending") }
}
""" + NS



DEPS = ("whippyunits",)  # nothing else: the expansions may name no other crate
CONTROL = "Zq"
PRELUDE_VALUES = {"Some", "None", "Ok", "Err"}


def expansion(c, src, n, head):
    """Of each of the n items `head % i`, the identifiers its expansion has and those it binds."""
    c.bin("exp", src)
    c.write()
    # only this crate may use the unstable flag: the environment variable alone would have every dependency built anew
    w = os.path.join(c.dir, "rustc")
    write_if_changed(w, '#!/bin/sh\nRUSTC_BOOTSTRAP=1 exec "$@"\n')
    os.chmod(w, 0o755)
    p = subprocess.run(["cargo", "rustc", "--offline", "-q", "--bin", "exp", "--", "-Zunpretty=expanded"], cwd=c.dir, env=dict(ENV, RUSTC_WORKSPACE_WRAPPER=w), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    txt = p.stdout.decode()
    out = []
    for i in range(n):
        m = re.search(rf"{head % i}\b(.*?)\b{head % (i + 1)}\b", txt, re.S)
        if not m:
            raise MachineryError(f"no expansion of {head % i}: " + p.stderr.decode()[-2000:])
        body = re.sub(r'\br(#+)".*?"\1|(?:\b[bc]?r?)?"(?:\\.|[^"\\])*"', '""', m.group(1), flags=re.S)
        body = re.sub(r"//[^\n]*|/\*.*?\*/", "", body, flags=re.S)
        ids = set(re.findall(r"(?<![\w'])[^\W\d]\w*", body)) - KW - PRIM - {"zz_r", "Mark", "doc", "allow", "whippyunits"}
        pats = re.findall(r"\blet\b([^=;]*?)[=;]", body) + re.findall(r"([^{}]*)=>", body) + re.findall(r"\|([^|]*)\|", body)
        out.append((ids, {x for q in pats for x in re.findall(r"(?<![\w'])[^\W\d]\w*", q)}))
    return out


def names():
    lines = [HEAD, "fn main() {}"] + [f"fn zz_{i}_zz() {{ let zz_r = {fill(f[1], f[2])}; }}" for i, f in enumerate(FORMS)] + [f"fn zz_{len(FORMS)}_zz() {{}}"]
    return expansion(Crate("c20exp", deps=DEPS), "\n".join(lines), len(FORMS), "fn zz_%d_zz")


def roles(form, t):
    """(role, items, locals, slots, does it need a name no pattern can hold) with N standing for the name."""
    tpl, v = form[1], lit(t)
    o = []
    if "$V" in tpl:
        o += [("value: a function", f"fn N() -> {t} {{ {v} }}", "", dict(V="N()"), 0),
              ("value: a constant", f"const N: {t} = {v};", "", dict(V="N"), 1),
              ("value: a local variable", "", f"let N = {v}{t};", dict(V="N"), 0),
              ("value: a type's function", f"enum N {{}} impl N {{ fn v() -> {t} {{ {v} }} }}", "", dict(V="N::v()"), 0),
              ("value: a tuple struct", f"struct N({t});", "", dict(V=f"N({v}).0"), 1),
              ("value: a module's function", f"mod N {{ pub fn v() -> {t} {{ {v} }} }}", "", dict(V="N::v()"), 0),
              ("value: a macro", f"macro_rules! N {{ () => {{ {v} }} }}", "", dict(V="N!()"), 0)]
    if "$T" in tpl and ALIASED(form[0]):
        o += [("storage: an alias", f"type N = {t};", "", dict(T="N"), 0),
              ("storage: an import", f"use ::core::primitive::{t} as N;", "", dict(T="N"), 0)]
    if "$B" in tpl:
        o += [("brand: a struct", "#[derive(Clone, Copy, PartialEq)] pub struct N;", "", dict(B="N"), 1),
              ("brand: an import", "use crate::MarkT as N;", "", dict(B="N"), 0)]
    for s, u in (("Q", f"m, {t}"), ("K", f"K, {t}"), ("G", f"m, {t}, crate::Mark")):
        if "$" + s in tpl:
            o += [("quantity: an alias", f"type N = whippyunits::unit!({u});", "", {s: f"N::new({v}{t})"}, 0),
                  ("quantity: a function", f"fn N() -> whippyunits::unit!({u}) {{ <whippyunits::unit!({u})>::new({v}{t}) }}", "", {s: "N()"}, 0),
                  ("quantity: a local variable", "", f"let N = <whippyunits::unit!({u})>::new({v}{t});", {s: "N"}, 0)]
    for s in "SJ":
        if "$" + s in tpl:
            x = fill("$" + s, t)
            o += [("text: a function", f"fn N() -> &'static str {{ {x} }}", "", {s: "N()"}, 0),
                  ("text: a constant", f"const N: &str = {x};", "", {s: "N"}, 1),
                  ("text: a local variable", "", f"let N = {x};", {s: "N"}, 0)]
    return o


# what else may bear the name, in the module or the function around the call
BYSTANDERS = [("a type and a value", "struct N;", "", 1),
              ("a generic type", "enum N<X, Y> { A(X), B(Y) }", "", 0),
              ("a trait", "trait N {}", "", 0),
              ("a function", "fn N() {}", "", 0),
              ("a constant", "const N: () = ();", "", 1),
              ("a module", "mod N {}", "", 0),
              ("a macro", 'macro_rules! N { ($($t:tt)*) => { compile_error!("captured") } }', "", 0),
              ("a local variable", "", "let N = ();", 0),
              ("a local type", "", "enum N {}", 0),
              ("a method of every type", "trait ZmethN { fn N(self) -> (); } impl<X> ZmethN for X { fn N(self) {} }", "", 0)]
COMMON = {"Result", "Option", "Some", "None", "Ok", "Err", "String", "Vec", "Box", "From", "Into", "Quantity", "Scale", "Dimension", "Unit", "Length", "T", "E", "x", "value",
          "result", "core", "std", "alloc", "drop", "vec", "format", "panic", "f64_", "rescale", "unit", "m", "mm"}
UNNAMEABLE = {"loc", "bon", "crate", "macro_rules", "unwrap", "new", "Mark", "k", "r"}


def usable(role, need, n, bound, locs):
    if n in UNNAMEABLE or n.startswith("zz_") or not n.isidentifier():
        return False
    if need and (n in bound or n in PRELUDE_VALUES):
        return False  # a pattern of the expansion would be that constant, in every Rust macro
    if locs and n in PRELUDE_VALUES:
        return False  # no variable can be named so
    return True


def case(form, role, n, items, locs, slots):
    R = lambda s: re.sub(r"N\b", n, re.sub(r"\bN\b", n, s)) if "ZmethN" in s else re.sub(r"\bN\b", n, s)
    return (form[0], role, n, R(items), R(locs), fill(form[1], form[2], **{k: R(v) for k, v in slots.items()}), form[3])


def name_cases(exp, each):
    """Each name in each role; the bystanders of one kind together, or one by one."""
    out = []
    for form, (ids, bound) in zip(FORMS, exp):
        out.append((form[0], "control", "", "", "", fill(form[1], form[2]), form[3]))
        for role, items, locs, slots, need in roles(form, form[2]):
            for n in [CONTROL] + sorted(ids | COMMON if each else ids):
                if usable(role, need, n, bound, locs):
                    out.append(case(form, role, n, items, locs, slots))
        for role, items, locs, need in BYSTANDERS:
            ns = [n for n in sorted(ids | COMMON) if usable(role, need, n, bound, locs)]
            cs = [case(form, "bystander: " + role, n, items, locs, {}) for n in ns]
            if each:
                out += cs
            else:
                out.append((form[0], "bystander: " + role, "*", " ".join(x[3] for x in cs), " ".join(x[4] for x in cs), cs[0][5], form[3]))
    return out


# how a user's own macro_rules can hand the argument on: (kind of fragment, argument)
def fragments(form):
    t, v = form[2], lit(form[2])
    tpl = form[1]
    if "$V" in tpl:
        h = {"f": "1.5 + 2.0", "i": "21 + 7", "u": "21 + 7"}[t[0]]
        yield from (("V", f, a) for f, a in [("expr", f"{v}{t}"), ("expr", h), ("expr", f"({h})"), ("expr", f"crate::id({v})"), ("expr", f"{{ {v} }}"), ("literal", f"{v}{t}"),
                                             ("tt", f"{v}{t}"), ("tt", f"({h})"), ("block", f"{{ {h} }}"), ("path", "VV"), ("ident", "VV"), ("tt", "VV"), ("$tt", h), ("$tt", f"crate::id({v})")])
    if "$T" in tpl:
        named = form[0].startswith("local quantity")  # picks its rule by the type's name
        yield from (("T", f, t) for f in ("ident", "tt", "$tt") + (() if named else ("ty", "path")))
        if not named and ALIASED(form[0]):
            yield from (("T", f, f"::core::primitive::{t}") for f in ("ty", "path", "$tt"))
    if "$B" in tpl:
        yield from (("B", f, a) for f in ("ty", "path", "$tt") for a in ("crate::Mark", "super::Mark", "super::super::Mark"))
        yield from (("B", f, "MarkHere") for f in ("ty", "path", "ident", "tt", "$tt"))
    for s in "QKGSJ":
        if "$" + s in tpl:
            e = fill("$" + s, t)
            yield from ((s, f, a) for f, a in [("expr", e), ("expr", f"({e})"), ("expr", f"crate::id({e})"), ("expr", "QQ"), ("ident", "QQ"), ("tt", "QQ"), ("path", "QQ"), ("block", f"{{ {e} }}"), ("$tt", e)])
            if s in "SJ":
                yield from ((s, f, e) for f in ("literal", "tt"))
    u = re.search(r"!\(\$\w, ([^,)]+)|unit!\(([^,)]+)", tpl)
    if u:
        unit = (u.group(1) or u.group(2)).strip()
        one = re.fullmatch(r"\w+", unit)
        yield from (("U" + unit, f, unit) for f in (("expr", "ident", "tt", "path", "$tt") if one else ("expr", "$tt")))
        yield ("U" + unit, "expr", f"({unit})")


def forward_cases():
    out = []
    for form in FORMS:
        for s, frag, arg in dict.fromkeys(fragments(form)):
            x, pat = ("$x", f"$x:{frag}") if frag != "$tt" else ("$($x)*", "$($x:tt)*")
            tpl = form[1]
            if s[0] == "U":
                unit = s[1:]
                i = tpl.index("!(") + 2 if "unit!" in tpl else tpl.index(", ")
                tpl = tpl[:i] + tpl[i:].replace(unit, "$U", 1)
                e = fill(tpl, form[2], U=x)
            else:
                e = fill(tpl, form[2], **{s: x})
            pre = f"macro_rules! wrap {{ ({pat}) => {{ {e} }} }}"
            items = "use super::Mark as MarkHere;"
            if arg == "QQ" or arg == "VV":
                whole = fill("$" + s, form[2])
                ty = {"V": form[2], "Q": f"whippyunits::unit!(m, {form[2]})", "K": f"whippyunits::unit!(K, {form[2]})", "G": f"whippyunits::unit!(m, {form[2]}, crate::Mark)", "S": "&str", "J": "&str"}[s]
                pre = f"let {arg}: {ty} = {whole}; " + pre
            if "super::super" in arg:
                items += f" pub mod deep {{ use crate::{{loc, bon}}; pub fn run(k: &str) {{ {pre} let r = wrap!({arg}); {show(form[3])} }} }}"
                out.append((form[0], "forwarded", f"{s[0]} {frag} {arg}", items, "deep::run(k); return;", fill(form[1], form[2]), form[3]))
            else:
                out.append((form[0], "forwarded", f"{s[0]} {frag} {arg}", items, pre, f"wrap!({arg})", form[3]))
    return out


# where a call can stand: E the call, SHOW prints r
PLACES = [
    ("a closure", "", "let f = || E; let r = f();"),
    ("a moving closure", "", "let f = move |_: u8| E; let r = f(0);"),
    ("an async block", "", "let r = crate::now(async { E });"),
    ("an async function's argument", "", "let r = crate::now(async { crate::id(E) });"),
    ("an argument", "", "let r = crate::id(E);"),
    ("a macro's argument", "", "macro_rules! pass { ($e:expr) => { $e } } let r = pass!(E);"),
    ("a macro's tokens", "", "macro_rules! pass { ($($e:tt)*) => { $($e)* } } let r = pass!(E);"),
    ("a macro's body", "", "macro_rules! body { () => { E } } let r = body!();"),
    ("a macro made by a macro", "", "macro_rules! make { ($n:ident) => { macro_rules! $n { () => { E } } } } make!(made); let r = made!();"),
    ("an array", "", "let r = [E, E][1];"),
    ("a tuple", "", "let (_, r) = (0, E);"),
    ("a match's subject", "", "let r = match E { x => x };"),
    ("a match's arm", "", "let r = match 3 { 3 => E, _ => E };"),
    ("an if's arms", "", "let r = if k.len() > 100 { E } else { E };"),
    ("a loop's result", "", "let r = loop { break E };"),
    ("a labelled block's result", "", "let r = 'a: { break 'a E };"),
    ("the end of a block", "", "let r = { E };"),
    ("behind a reference", "", "let r = *&E;"),
    ("a receiver", "", "let r = E.clone();"),
    ("a function's end", "", "let r = Some(()).map(|()| { E }).unwrap();"),
    ("an unsafe block", "", "let r = unsafe { E };"),
    ("twice in a scope", "", "let q = E; let r = E; let _ = q;"),
    ("a statement first", "", "let _ = E; let r = E;"),
    ("a comparison", "", "assert!(E == E); assert_eq!(E, E); let r = E;"),
    ("a generic function", "fn g<Gen: Copy, const NUM: usize>(_: Gen, k: &str) { let r = E; SHOW }", "g::<u8, 3>(0, k); return; let r = E;"),
    ("a method", "struct Own; impl Own { fn g(&self, k: &str) { let r = E; SHOW } }", "Own.g(k); return; let r = E;"),
    ("a generic type's method", "struct Own<A>(A); impl<A: Copy> Own<A> { fn g(&self, k: &str) { let r = E; SHOW } }", "Own(0u8).g(k); return; let r = E;"),
    ("a trait's method", "trait Tr { fn g(&self, k: &str) { let r = E; SHOW } } impl Tr for u8 {}", "0u8.g(k); return; let r = E;"),
    ("a nested module", "pub mod inner { pub mod most { use crate::{loc, bon}; pub fn g(k: &str) { let r = E; SHOW } } }", "inner::most::g(k); return; let r = E;"),
    ("a module without the prelude", "#[allow(unused_imports)] pub mod bare { #![no_implicit_prelude] use ::whippyunits; use crate::{loc, bon}; pub fn g(k: &str) { let r = E; SHOW } }", "bare::g(k); return; let r = E;"),
    ("a function in a function", "", "fn inner(k: &str) { let r = E; SHOW } inner(k); return; let r = E;"),
    ("a module in a function", "", "mod inner { use crate::{loc, bon}; pub fn g(k: &str) { let r = E; SHOW } } inner::g(k); return; let r = E;"),
    ("a thread", "", "let r = ::std::thread::spawn(|| E).join().unwrap();"),
    ("a thread's own", "thread_local! { static OWN: ::std::cell::Cell<u8> = ::std::cell::Cell::new({ let _ = E; 0 }); }", "OWN.with(|x| x.set(1)); let r = E;"),
]


def place_cases():
    out = []
    for form in FORMS:
        e = fill(form[1], form[2])
        for name, items, locs in PLACES:
            x = [y.replace("SHOW", show(form[3])) for y in (items, locs)]
            x = [re.sub(r"\bE\b", lambda m: e, y) for y in x]
            out.append((form[0], "place", name, x[0], x[1], None, form[3]))
    return out


# the argument is evaluated once, where it stands
def once_cases():
    out = []
    for form in FORMS:
        for s in "VQKGSJ":
            if "$" + s not in form[1]:
                continue
            a = fill("$" + s, form[2])
            ev = lambda x: fill(form[1], form[2], **{s: x})
            out += [(form[0], "once", "counted", "", "", ev(f"crate::tick({a})"), form[3]),
                    (form[0], "once", "a block", "", "let mut n = 0;", ev(f"{{ n += 1; crate::tick(()); let y = {a}; y }}"), form[3]),
                    (form[0], "once", "early exit", "", f"let f = |o: Option<()>| {{ let r = {ev('{ o?; crate::tick(()); ' + a + ' }')}; Some(r) }}; assert!(f(None).is_none());", "f(Some(())).unwrap()", form[3]),
                    (form[0], "once", "return", "", f"let f = |o: bool| {{ let r = {ev('{ if o { return None; } crate::tick(()); ' + a + ' }')}; Some(r) }}; assert!(f(true).is_none());", "f(false).unwrap()", form[3]),
                    (form[0], "once", "break", "", "let mut n = 0;", "loop { n += 1; let r = " + ev('{ if n < 3 { continue; } crate::tick(()); ' + a + ' }') + "; break r; }", form[3]),
                    (form[0], "once", "await", "", "", "crate::now(async { " + ev(f"async {{ crate::tick({a}) }}.await") + " })", form[3]),
                    (form[0], "once", "moved", "", f"let own = ::std::boxed::Box::new({a});", ev("{ let y = own; crate::tick(*y) }"), form[3]),
                    (form[0], "once", "borrowed", "", f"let mut own = ::std::vec![{a}];", ev("{ let y = &mut own; crate::tick(y.pop().unwrap()) }"), form[3]),
                    (form[0], "once", "a variable of the same name in a closure", "", f"let value = 1u8;", ev(f"(|value| crate::tick(value))({a})"), form[3])]
    return out


# macros that declare items: (key, items with NS a fresh name, call, result kind)
ITEMS = [
    ("generic dimension", "whippyunits::dimension_traits::define_generic_dimension!(NS, Length / Time, M.L2/T^2); pub fn NSf<Zz: NS>(zz_x: Zz) -> Zz { zz_x }",
     ["NSf(<whippyunits::unit!(km / s, f64)>::new(3.5f64))"]),
    ("namespace", "whippyunits::define_unit_declarators!(NS, Own, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);",
     ["NS::quantity!(28, m, i32)", "NS::literals::float::ft!(3.5)", "NS::literals::integer::m_u64!(28)"]),
    ("namespace method", "whippyunits::define_unit_declarators!(NS, Own, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);", ["{ use NS::*; 3.5f64.meters() }"]),
    ("namespace without brand", "whippyunits::define_unit_declarators!(NS, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian);", ["NS::quantity!(3.5, ft)", "NS::literals::integer::km!(28)"]),
    ("brand", "whippyunits::define_unit_declarators!(NS, Own);", ["NS::quantity!(3.5, ft, f32)", "NS::literals::integer::km!(28)"]),
    ("brand method", "whippyunits::define_unit_declarators!(NS, Own);", ["{ use NS::*; 3.5f64.meters() }"]),
]
ITEM_PLACES = [
    ("a module", "ITEMS", "EACH"),
    ("a nested module", "pub mod a { pub mod b { ITEMS } } use a::b::*;", "EACH"),
    ("a sibling", "pub mod a { ITEMS } pub mod b { use super::a::*; pub fn g(k: &str) { EACH } }", "b::g(k); return; "),
    ("after its use", "pub fn g(k: &str) { use self::a::*; EACH } pub mod a { ITEMS }", "g(k); return; "),
    ("a module without the prelude", "pub mod a { #![no_implicit_prelude] use ::whippyunits; ITEMS } use a::*;", "EACH"),
    ("a macro's item", "macro_rules! make { () => { ITEMS } } make!();", "EACH"),
    ("a macro's argument", "macro_rules! pass { ($($t:tt)*) => { $($t)* } } pass! { ITEMS }", "EACH"),
    ("a macro's named argument", "macro_rules! pass { ($n:ident) => { NAMED } } pass!(NS);", "EACH"),
]


def item_cases(exp):
    out = []
    # a namespace's expansion is a module of its own and some thousand names long: what every other form expands to stands for it
    ids = set().union(*(i for i, _ in exp)) | COMMON | {"Mass", "Length", "Time", "Kilogram", "Millimeter", "Second", "Ampere", "Kelvin", "Mole", "Candela", "Radian", "M", "L", "T", "L2", "U",
                                                       "SCALE_P2", "SCALE_P3", "SCALE_P5", "SCALE_PI", "dimension_traits", "literals", "float", "integer", "Brand", "Helper", "local_unit", "op_result"}
    bound = set().union(*(i for _, i in exp)) | {"value", "result"}
    for j, (key, items, es) in enumerate(ITEMS):
        def put(tag, s):
            return re.sub(r"\bNS", f"Nq{j}{tag}", s)
        kind = "q"
        shows = " ".join(f"{{ let r = {e}; {show(kind)} }}" for e in es)
        out.append((key, "control", "", put("c", items), put("c", shows), None, None))
        for p, (name, it, locs) in enumerate(ITEM_PLACES):
            if name == "a module without the prelude" and key != "generic dimension":
                continue  # the namespace's own modules would lack the crates' names
            named = re.sub(r"\bNS\b", "$n", items) if "NSf" not in items else items.replace("(NS,", "($n,").replace("Zz: NS", "Zz: $n")
            x = [y.replace("ITEMS", items).replace("NAMED", named).replace("EACH", shows) for y in (it, locs)]
            out.append((key, "declared in", name, put(f"p{p}", x[0]), put(f"p{p}", x[1]), None, None))
        for b, (role, bi, locs, need) in enumerate(BYSTANDERS):
            if not bi:
                continue
            ns = [n for n in sorted(ids | COMMON) if usable(role, need, n, bound, locs) and not n.startswith("Nq") and n != "Own"]
            # a module's own literals, methods and units are looked up in the module
            whole = " ".join(re.sub(r"N\b", n, re.sub(r"\bN\b", n, bi)) if "ZmethN" in bi else re.sub(r"\bN\b", n, bi) for n in ns)
            out.append((key, "bystander: " + role, "all of " + str(len(ns)), whole + " " + put(f"b{b}", items), put(f"b{b}", shows), None, None))
    return out


# where a unit's type can stand: TY the type, X a value of it
TYPE_PLACES = [
    ("a field", "pub struct S { pub f: TY }", "let r = S { f: X }.f;"),
    ("a tuple struct", "pub struct S(pub TY);", "let r = S(X).0;"),
    ("a variant", "pub enum S { A(TY), B { f: TY } }", "let r = match (S::A(X), S::B { f: X }) { (S::A(x), _) => x, _ => panic!() };"),
    ("a parameter", "pub fn g(x: TY, y: &TY) -> TY { x }", "let r = g(X, &X);"),
    ("a generic's default", "pub struct S<A = TY>(pub A);", "let s: S = S(X); let r = s.0;"),
    ("an alias", "pub type A = TY; pub type G<Z> = (Z, TY);", "let r: A = X; let g: G<u8> = (0, r); let r = g.1;"),
    ("an implementation", "pub trait Tr { fn g(self) -> Self; } impl Tr for TY { fn g(self) -> Self { self } } impl Tr for &TY { fn g(self) -> Self { self } }", "let r = X.g(); let r = *(&r).g();"),
    ("implementations for several units", "pub trait Tr { const N: u8; } impl Tr for TY { const N: u8 = 1; } impl Tr for whippyunits::unit!(s) { const N: u8 = 2; } impl Tr for whippyunits::unit!(K, u8) { const N: u8 = 3; } "
     "pub enum All { A(TY), B(whippyunits::unit!(s)) } impl From<TY> for All { fn from(x: TY) -> Self { All::A(x) } } impl From<whippyunits::unit!(s)> for All { fn from(x: whippyunits::unit!(s)) -> Self { All::B(x) } }",
     "assert_eq!((<TY as Tr>::N, <whippyunits::unit!(s) as Tr>::N), (1, 2)); let r = match All::from(X) { All::A(x) => x, _ => panic!() };"),
    ("an associated type", "pub trait Tr { type O; } impl Tr for u8 { type O = TY; }", "let r: <u8 as Tr>::O = X;"),
    ("a bound", "pub fn g<F>(f: F) -> TY where F: Fn(TY) -> TY, TY: Copy { f(X) } pub fn h(f: impl Fn(TY) -> TY) -> TY { f(X) }", "let r = g(|x| x); let r = h(|_| r);"),
    ("a turbofish", "", "let r = crate::id::<TY>(X); let v = ::std::vec::Vec::<TY>::from([r]); let r = v[0];"),
    ("a function pointer", "", "let f: fn(TY) -> TY = |x| x; let r = f(X);"),
    ("a boxed function", "", "let f: ::std::boxed::Box<dyn Fn(&TY) -> TY> = ::std::boxed::Box::new(|x| *x); let r = f(&X);"),
    ("an array", "pub static AR: [Option<TY>; 2] = [None, None];", "let a: [TY; 2] = [X, X]; let s: &[TY] = &a; let r = s[1];"),
    ("a reference", "pub fn g<'a>(x: &'a TY, _y: &'a mut TY) -> &'a TY { x }", "let mut y = X; let r = *g(&X, &mut y);"),
    ("a tuple", "", "let (r, _): (TY, TY) = (X, X);"),
    ("a closure", "", "let f = |x: TY| -> TY { x }; let r = f(X);"),
    ("a constant", "pub const C: TY = <TY>::new(VAL); pub static ST: TY = C;", "let r = C; let r = ST;"),
    ("an associated constant", "pub struct S; impl S { pub const C: TY = <TY>::new(VAL); }", "let r = S::C;"),
    ("a constant function", "pub const fn g() -> TY { <TY>::new(VAL) } pub const C: TY = g();", "let r = C;"),
    ("a cast", "", "let r = X as TY;"),
    ("a trait's parameter", "pub trait Tr<A> { fn g(&self, a: A) -> A { a } } impl Tr<TY> for u8 {}", "let r = Tr::<TY>::g(&0u8, X); let d: &dyn Tr<TY> = &0u8; let r = d.g(r);"),
    ("a qualified path", "", "let r = <TY as ::core::clone::Clone>::clone(&X);"),
    ("a macro's type", "macro_rules! ty { ($t:ty) => { $t } } pub fn g(x: ty!(TY)) -> ty!(TY) { x }", "let r: ty!(TY) = g(X);"),
    ("a macro's tokens", "macro_rules! pass { ($($t:tt)*) => { $($t)* } }", "let r: pass!(TY) = X;"),
    ("a nested module", "pub mod a { pub mod b { use crate::loc; pub type A = TY; } }", "let r: a::b::A = X;"),
    ("a generic function", "pub fn g<'q, Gen: Copy, const NUM: usize>(_: Gen, x: &'q TY) -> TY { let y: TY = *x; y }", "let r = g::<u8, 3>(0, &X);"),
    ("a size", "pub const SZ: usize = ::core::mem::size_of::<TY>();", "let r = X; assert_eq!(SZ, ::core::mem::size_of_val(&r));"),
]
TYPES = [
    ("unit type", "whippyunits::unit!(m)", "3.5"),
    ("unit type T", "whippyunits::unit!(kg * mm^2 / s, i32)", "28"),
    ("unit type T B", "whippyunits::unit!(km, f32, crate::Mark)", "3.5"),
    ("local unit type", "whippyunits::local_unit!(m, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian, f64, crate::Mark)", "3.5"),
    ("local unit type ns", "whippyunits::local_unit!(J, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian, i64, crate::loc::Brd)", "28"),
]


def type_cases():
    out = []
    for key, ty, v in TYPES:
        x = f"<{ty}>::new({v})"
        out.append((key, "control", "", "", "", x, "q"))
        for name, items, locs in TYPE_PLACES:
            y = [re.sub(r"\bX\b", lambda m: x, re.sub(r"\bVAL\b", v, z)) for z in (items, locs)]
            y = [re.sub(r"\bTY\b", lambda m: ty, z) for z in y]
            out.append((key, "type in", name, y[0], y[1], None, "q"))
    return out


def text(i, x):
    f, role, n, items, locs, e, kind = x
    if f.startswith(("local", "brand l", "brand q")) and not f.startswith("brand literal d"):
        items = "use crate::{loc, bon}; " + items
    body = f"{locs} " + (f"let r = {e}; " if e else "") + (show(kind) if kind else "")
    if role == "once":
        body = f"crate::TICKS.store(0, ::core::sync::atomic::Ordering::SeqCst); {body}; crate::ticks(k);"
    return f"mod c{i} {{ {items} pub fn run(k: &str) {{ {body} }} }}"


def build_and_run(ck, name, cs, head=HEAD, edition="2024", rounds=6, nb=8):
    """(case index -> printed result, case index -> compile error)"""
    c = Crate(name, deps=DEPS)
    c.toml = c.toml.replace('edition = "2024"', f'edition = "{edition}"')
    bad, got = {}, {}
    todo = list(range(len(cs)))
    for rnd in range(rounds):
        progs = {}
        for b in range(nb):
            mine = todo[b::nb]
            p = CaseProgram(head + "\nfn main() {\n" + "\n".join(f"c{i}::run(\"{i}\");" for i in mine) + "\n}")
            for i in mine:
                p.case(i, text(i, cs[i]))
            progs[f"b{b}"] = p
            c.bin(f"b{b}", p.src())
        ok, diags = c.build(timeout=850)
        if ok:
            break
        by, un = attribute(diags, progs)
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + c.stderr[-1500:])
        bad.update(by)
        todo = [i for i in todo if i not in by]
    else:
        ck.log("still errors after", rounds, "rounds")
        return got, bad
    for b in progs:
        p = c.run(b)
        if p.returncode:
            raise MachineryError(p.stderr.decode()[-800:])
        for line in p.stdout.decode().splitlines():
            f = line.split("\t")
            got.setdefault(int(f[0]), []).append(f[1:])
    return got, bad


def norm(g):
    return [[y for y in l[:-1]] + ["brand" if "::" in l[-1] else l[-1]] if len(l) > 1 else l for l in g] if g else g


def judge(ck, cs, got, bad):
    ctrl = {}
    for i, x in enumerate(cs):
        if x[1] == "control":
            if i in bad:
                raise MachineryError(f"control {x[0]}: {bad[i][:1]}")
            ctrl[x[0]] = got[i]
    out = []
    for i, x in enumerate(cs):
        if i in bad:
            out.append((x, f"rejected: {bad[i][0][:300]}"))
            continue
        w = ctrl[x[0]] + ([["ticks 1"]] if x[1] == "once" else [])
        if norm(got.get(i)) != norm(w):
            out.append((x, f"gives {got.get(i)}, should be {w}"))
    return out


def controls():
    return [(f[0], "control", "", "", "", fill(f[1], f[2]), f[3]) for f in FORMS]


LINTS = HEAD.replace("#![allow(warnings)]", "#![deny(warnings, unused, nonstandard_style, future_incompatible, rust_2018_idioms, unsafe_code)]\n#![allow(dead_code, unused_imports)]", 1) \
    .replace("mod probe {", "#[allow(warnings)] mod probe {", 1)


def run(ck):
    exp = names()
    if os.environ.get("SHOWN"):
        for f, i in zip(FORMS, exp):
            print(f[0], sorted(i[0]), sorted(i[1]))
    ctl = controls()
    fw, pl, on = forward_cases(), place_cases(), once_cases()
    nm = [x for x in name_cases(exp, ck.thorough) if x[1] != "control"]
    it, ty = item_cases(exp), type_cases()
    cs = ctl + fw + pl + on + it + ty + nm
    ck.log("cases", len(cs), "forwarded", len(fw), "places", len(pl), "once", len(on), "declarations", len(it), "types", len(ty), "names", len(nm))
    got, bad = build_and_run(ck, "c20", cs)
    viol = judge(ck, cs, got, bad)
    ck.log("judged", len(viol))
    total = len(got)
    # name by name where the bystanders of one kind together are not as they should be
    worse = {(x[0], x[1]) for x, m in viol if x[2] == "*"}
    if worse:
        one = ctl + [x for x in name_cases(exp, True) if (x[0], x[1]) in worse]
        g2, b2 = build_and_run(ck, "c20one", one)
        v2 = judge(ck, one, g2, b2)
        found = {(x[0], x[1]) for x, m in v2}
        viol = [(x, m) for x, m in viol if x[2] != "*" or (x[0], x[1]) not in found] + v2
        total += len(g2)
    for ed, head, what in [("2018", HEAD, "edition 2018"), ("2021", HEAD, "edition 2021"), ("2024", LINTS, "with lints"), ("2021", LINTS, "edition 2021 with lints")]:
        n = "c20" + re.sub(r"\W", "", what)
        g, b = build_and_run(ck, n, ctl, head=head, edition=ed, nb=1)
        for i, x in enumerate(ctl):
            if i in b:
                viol.append(((x[0], "crate", what), f"rejected: {b[i][0][:300]}"))
            elif norm(g.get(i)) != norm(got[i]):
                viol.append(((x[0], "crate", what), f"gives {g.get(i)}, should be {got[i]}"))
            else:
                total += 1
    for x, m in viol:
        ck.violation("|".join(x[:3]), (f"{x[3]} {x[4]} {x[5]}: " if len(x) > 3 else "") + m)
    for x in (fw[0], pl[3], on[2], it[4], ty[5], nm[7]):
        ck.sample(dict(macro=x[0], space=x[1], case=x[2], items=x[3][:300], code=(x[4] + (x[5] or ""))[:300]))
    ck.assumptions += ["A name is judged against the control name Zq, a call against the same call standing alone in a function; what that call is worth is the other properties' affair.",
                       "Storage types are named by their own names where a macro picks its rule by that name (value!, rescale!, a namespace's quantity!).",
                       "A lower-case constant or unit struct named like a variable the expansion binds is left out: in every Rust macro a pattern would mean that constant.",
                       "A namespace's name has to be in scope where its macros and literals are used."]
    ck.finish(evaluations=len(cs) + 4 * len(ctl), distinct_nontrivial=total, forms=len(FORMS) + len(ITEMS) + len(TYPES), names=len(set().union(*(i for i, _ in exp)) | COMMON),
              forwarded=len(fw), places=len(pl), once=len(on), declarations=len(it), types=len(ty), roles=len(nm), exhaustive=True,
              rule="every macro form (with and without storage type and brand; storage, non-storage, affine and compound units; namespaces, brands, literals) x every identifier of its expansion "
                   "x every role that name can have in the arguments, and x every kind of bystander item (the names of one kind together; one by one and with common names in the thorough tier); "
                   "every argument through every kind of macro_rules fragment; every form in 34 places, every unit type in 28; every argument's side effects, exits and captures; the declaring macros "
                   "in 8 places and among bystanders; editions 2018, 2021, 2024 and denied lints; non-trivial = compiled, run and compared with the control")


if __name__ == "__main__":
    main(run, "C20", "exploration")
