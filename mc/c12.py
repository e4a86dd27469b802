"""C12: the language-server proxy names every complete quantity type of hovers and inlay hints and touches nothing else."""
import itertools, json, re
from concurrent.futures import ThreadPoolExecutor
import ref
from lib import *
from c11 import check_type, Bad, atom, dims, scales, DIMNAME

DN = ["_M", "_L", "_T", "_I", "_Θ", "_N", "_J", "_A"]
SN = ["_2", "_3", "_5", "_Pi"]

DRIVER = r'''
use whippyunits_lsp_proxy::*;
use std::io::{Read, Write};
fn main() { std::panic::set_hook(Box::new(|_| {}));
 let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 let mut o = std::io::BufWriter::new(std::io::stdout());
 let mk = |verbose, include_raw| LspProxy::with_config(DisplayConfig { verbose, unicode: true, include_raw });
 let ps = [mk(false, false), mk(true, false), mk(false, true), mk(true, true), LspProxy::new()];
 for l in s.split('\n') { if l.is_empty() { continue; }
  let (c, m) = l.split_at(1);
  let p = &ps[c.parse::<usize>().unwrap()];
  let t = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.process_incoming(&format!("Content-Length: {}\r\n\r\n{}", m.len(), m))));
  let _ = match t { Err(_) => writeln!(o, "PANIC"), Ok(Err(e)) => writeln!(o, "ERROR {}", format!("{e}").replace('\n', " ")),
   Ok(Ok(t)) => match t.split_once("\r\n\r\n") {
     Some((h, b)) if h == format!("Content-Length: {}", b.len()) && !b.contains('\n') => writeln!(o, "{b}"),
     _ => writeln!(o, "FRAME {t:?}") } };
 }
}'''


def args(names, es, form):
    """es: exponents as printed texts; '0' is the default"""
    if form == "explicit":
        return "<" + ", ".join(f"{n}<{e}>" for n, e in zip(names, es)) + ">"
    k = max([i + 1 for i, e in enumerate(es) if e != "0"], default=0)
    if not k:
        return ""
    return "<" + ", ".join(n if e == "0" and form == "elided" else f"{n}<{e}>" for n, e in zip(names[:k], es)) + ">"


def printed(d, s, storage="f64", brand=None, form="elided"):
    t = f"Quantity<Scale{args(SN, [str(x) for x in s], form)}, Dimension{args(DN, [str(x) for x in d], form)}"
    if form == "explicit":
        return t + f", {storage}, {brand or '()'}>"
    if brand:
        return t + f", {storage}, {brand}>"
    return t + (f", {storage}>" if storage != "f64" or form == "half" else ">")


class T:
    """A quantity type as it is printed; a complete one has dimensions and a scale."""
    must = True

    def __init__(self, text, d=None, s=None, storage="f64", brand=None):
        self.text, self.d, self.s, self.storage, self.brand = text, d, s, storage, brand

    def accepts(self, out, verbose, must=True):
        """Why `out` is not an acceptable rendering of this type, or None."""
        if out == self.text:
            return "is not named" if must and self.must and self.d is not None else None
        if self.d is None:
            return None if re.search(r"[?ˀ…]|\b_\b", out) else "is shown as if it were known"
        sq = out.replace(" ", "")
        x = re.fullmatch(r"Quantity<(.*)>", out)
        tail = "," + self.storage.replace(" ", "") + ("," + self.brand.replace(" ", "") if self.brand else "") + ">"
        if not x or not sq.endswith(tail):
            return f"does not end in {tail!r}"
        # the tail with whatever spacing, back to the canonical one
        body, n = out, len(tail)
        while n:
            n -= body[-1] != " "
            body = body[:-1]
        body = body[len("Quantity<"):]
        if not any(self.d) and not any(self.s) and body == "1":
            return None
        try:
            check_type(f"Quantity<{body}, S>", verbose, self.d, self.s, "S", None)
        except Bad as e:
            return str(e)


def full(d, s, storage="f64", brand=None, form="elided"):
    return T(printed(d, s, storage, brand, form), d, s, storage, brand)


def fill(template, ts):
    ps = template.split("\0")
    return "".join(a + b for a, b in zip(ps, [t.text for t in ts] + [""]))


def compare(template, ts, out, verbose, must=True):
    """template: text with \0 where the types are"""
    pos = 0
    for i, part in enumerate(template.split("\0")):
        if not out.startswith(part, pos):
            return f"the text around the types is changed: {out!r}"
        pos += len(part)
        if i == len(ts):
            break
        if out.startswith(ts[i].text, pos):
            end = pos + len(ts[i].text)
        elif out.startswith("Quantity<", pos):
            end, depth = pos + 9, 1
            while depth and end < len(out):
                depth += {"<": 1, ">": -1}.get(out[end], 0)
                end += 1
        else:
            return f"{ts[i].text} is lost: {out!r}"
        w = ts[i].accepts(out[pos:end], verbose, must)
        if w:
            return f"{ts[i].text} is shown as {out[pos:end]!r}: {w}"
        pos = end
    if pos != len(out):
        return f"text is added: {out!r}"


LOC = {"uri": "file:///x/q.rs", "range": {"start": {"line": 1, "character": 11}, "end": {"line": 1, "character": 19}}}
LINKED = re.compile(r"(?<![\w:'])(?:Quantity|Scale|Dimension|_2|_3|_5|_Pi|_M|_L|_T|_I|_Θ|_N|_J|_A|Vec|Option|Map|Iter|Br|Rc)(?!\w)")


def label(text):
    """The label parts into which rust-analyzer splits a type: one per linked name, and the text between."""
    out, pos = [{"value": ": "}] if text.startswith(": ") else [], 2 if text.startswith(": ") else 0
    for m in LINKED.finditer(text, pos):
        if m.start() > pos:
            out.append({"value": text[pos:m.start()]})
        out.append({"value": m[0], "location": dict(LOC, uri=f"file:///x/{m[0]}.rs")})
        pos = m.end()
    if pos < len(text):
        out.append({"value": text[pos:]})
    return out


def hint(text, line=3, edit=True):
    h = {"position": {"line": line, "character": 9}, "label": label(text), "kind": 1, "paddingLeft": False, "paddingRight": False}
    if edit:
        p = {"line": line, "character": 9}
        e = lambda x: {"range": {"start": p, "end": p}, "newText": x}
        h["textEdits"] = {"two": [e("("), e(text + ")")], "same": [e(text), e(text)], "empty": [], "null": None}.get(edit) if isinstance(edit, str) else [e(text)]
    return h


def arguments(text):
    out, depth = [""], 0
    for ch in text:
        depth += {"(": 1, ")": -1, "<": 1, ">": -1, "[": 1, "]": -1}.get(ch, 0)
        if ch == "," and not depth:
            out.append("")
        else:
            out[-1] += ch
    return [x.strip() for x in out]


def macro_type(text):
    """`: unit!(..)` -> (dims, magnitude, pi, storage, brand) or None; independent of the code's parser"""
    x = re.fullmatch(r": unit!\((.*)\)", text)
    if not x:
        return None
    unit, *rest = arguments(x[1])
    if len(rest) > 2:
        return None
    toks = re.findall(r"[*/^()]|-?\d+|[^\W\d_]+|\S", unit)

    def power():
        t = toks.pop(0)
        if t == "(":
            v = expr()
            if toks.pop(0) != ")":
                raise Bad("parentheses")
        elif t in ("1", "10"):
            v = ref.ZERO, ref.F(int(t)), 0
        else:
            v = atom(t, False)
        if toks[:1] == ["^"]:
            toks.pop(0)
            e = int(toks.pop(0))
            v = ref.dmul(v[0], e), v[1] ** e, v[2] * e
        return v

    def expr():
        d, m, pi = power()
        while toks[:1] in (["*"], ["/"]):
            s = 1 if toks.pop(0) == "*" else -1
            ad, am, ap = power()
            d, m, pi = ref.dadd(d, ref.dmul(ad, s)), m * am ** s, pi + s * ap
        return d, m, pi
    try:
        v = expr()
        if toks:
            return None
    except (Bad, IndexError, ValueError):
        return None
    rest += ["f64", "()"][len(rest):]
    return *v, *rest


def hint_diff(template, ts, before, after, resolve):
    """Why `after` is not an acceptable hint for the hint `before` with the label text `template`."""
    if not isinstance(after, dict) or set(after) != set(before):
        return f"the hint has the fields {sorted(after) if isinstance(after, dict) else after}"
    for k in before:
        if k not in ("label", "textEdits") and after[k] != before[k]:
            return f"field {k} is changed to {after[k]}"
    text = "".join(p.get("value", "\1") for p in after["label"])
    w = compare(template, ts, text, False)
    if w:
        return w
    # the links: those outside of the types are kept in order, and every type keeps its own
    pos, want = 0, []
    flat = []
    for p in before["label"]:
        flat.append((pos, p))
        pos += len(p["value"])
    spans, q = [], 0
    for i, part in enumerate(template.split("\0")):
        q += len(part)
        if i < len(ts):
            spans.append((q, q + len(ts[i].text)))
            q = spans[-1][1]
    for o, p in flat:
        if "location" in p and not any(a < o < b for a, b in spans):
            want.append(p["location"])
    have = [p["location"] for p in after["label"] if "location" in p]
    it = iter(have)
    if not all(any(x == w for x in it) for w in want):
        return f"links are lost: {after['label']}"
    if any(set(p) - {"value", "location", "tooltip", "command"} for p in after["label"]):
        return f"unknown fields in the label {after['label']}"
    eb, ea = before.get("textEdits"), after.get("textEdits")
    if eb != ea:
        if not resolve or not isinstance(ea, list) or not isinstance(eb, list) or len(ea) != len(eb) or any(dict(a, newText="") != dict(b, newText="") for a, b in zip(ea, eb)):
            return f"the edits are changed to {ea}"
        for a, b in zip(ea, eb):
            if a["newText"] == b["newText"]:
                continue
            if len(ts) != 1 or template != ": \0":
                return f"the edit {b['newText']!r} is replaced by {a['newText']!r}"
            if b["newText"] != ": " + ts[0].text:
                return f"the edit {b['newText']!r}, which is not just the type, is replaced by {a['newText']!r}"
            t = ts[0]
            if t.d is None:
                continue  # a seed, to be completed by the user
            mt = macro_type(a["newText"])
            if mt is None:
                return f"the edit {b['newText']!r} is replaced by {a['newText']!r}, which declares nothing"
            wm, wpi = ref.scale_value(t.s)
            if mt[0] != t.d or mt[1] != wm or mt[2] != wpi or mt[3].replace(" ", "") != t.storage.replace(" ", "") or mt[4].replace(" ", "") != (t.brand or "()").replace(" ", ""):
                return f"the edit {b['newText']!r} is replaced by {a['newText']!r}, which declares another type"


HOVERS = [  # in the code block of the declaration
    "let x: \0", "let mut Δx: \0 = 1.0", "let v: Vec<\0>", "let o: Option<&\0>", "let t: (\0, \0)", "let a: [\0; 3]",
    "let f: impl Fn(\0) -> \0", "let it: Map<Iter<'_, \0>, impl Fn(&\0) -> Vec<\0>>", "let r: Result<\0, Box<dyn Error>>",
    "let 長さ: (i32, \0, &'static str)", "let x: \0;\nlet y: \0;", "let n: Vec<Vec<(\0, Option<\0>)>>",
    "let s: <Helper<{const}, \0> as GetSecondGeneric>::Type", "let 𝛼: \0 // → ²", "let c: {closure#0} |a: \0| -> \0",
]
ITEMS = [  # the hovers of items, which have a block with their path before
    "pub fn speed(x: \0, y: Vec<\0>) -> \0", "pub speed: \0", "pub const LIMIT: \0 = 1.0", "static mut S: [\0; 2]", "impl Trait<\0> for \0\nfn m(&self) -> \0",
    "pub struct S {\n    pub a: \0,\n    b: \0,\n}", "type Speed = \0", "fn g<T>(t: T) -> Option<\0>\nwhere\n    T: Into<\0>,",
]
PATHS = ["\n```rust\nmy_crate::motion\n```\n\n", "\n```rust\nmy_crate\n```\n\n```rust\nimpl<'a> Shape<'a>\n```\n\n"]
LABELS = [": \0", ": &\0", ": Vec<\0>", ": Option<&\0>", ": (\0, \0)", ": [\0; 3]", ": impl Fn(\0) -> \0", ": Map<Iter<'_, \0>, impl Fn(&\0) -> Vec<\0>>",
          ": (i32, \0)", ": Vec<Vec<(\0, Option<\0>)>>", " -> \0", ": Result<\0, Rc<\0>>"]
AFTER = ["\n\n---\n\nsize = 8, align = 0x8, no Drop", "", "\n---\nIt is a Quantity<Scale> of Δ → x\n\n```text\n---\n```\n"]


def run(ck):
    c = Crate("c12", deps=("whippyunits", "whippyunits-lsp-proxy"))
    c.bin("proxy", DRIVER)
    ok, diags = c.build()
    if not ok:
        raise MachineryError("".join(d["rendered"] for d in diags[:3]) + c.stderr[-1500:])
    ck.log("built")
    jobs = []  # (config, message, judge(out text) -> reason or None, key)
    seen_out = set()
    nid = itertools.count(1)

    def hover(template, ts, cfg, after=AFTER[0], before="\n", must=True, shape="markup"):
        block = f"{before}```rust\n\0RS\n```{after}"
        value = block.replace("\0RS", fill(template, ts))
        item = {"kind": "markdown", "value": value} if shape != "marked" else {"language": "rust", "value": value}
        tail = {"kind": "markdown", "value": "tail"}
        at = {"list": 0, "second": 1, "third": 2}.get(shape)
        contents = item if at is None else [tail] * at + [item, tail]
        n = next(nid)
        m = {"jsonrpc": "2.0", "id": n if n % 2 else f"id-{n}", "result": {"contents": contents, "range": {"start": {"line": 1, "character": 2}, "end": {"line": 1, "character": 3}}, "actions": [{"commands": [{"title": "Go", "command": "x", "arguments": [1.5, None]}]}]}}
        raw, verbose = cfg in (2, 3), cfg in (1, 3)

        def judge(o):
            r = json.loads(o)
            got = r["result"]["contents"] if at is None else r["result"]["contents"][at]
            v = got["value"]
            want = json.loads(json.dumps(m))
            (want["result"]["contents"] if at is None else want["result"]["contents"][at])["value"] = v
            if r != want:
                return f"the response is changed: {o}"
            if raw and any(t.d is not None for t in ts):
                # the named types come first; the raw section is inserted before the documentation
                x = re.fullmatch(re.escape(f"{before}```rust\n") + "(.*?)" + re.escape("\n```") + r"(.*?)\n---\nRaw:\n\n```rust\n(.*?)```\n(.*)", v, re.S)
                if not x:
                    return f"no raw section in {v!r}"
                if x[2].strip():
                    return f"unexpected text before the raw section in {v!r}"
                if template.split("\0", 1)[0] in ("let x: ", "let mut Δx: ") and template.count("\0") == 1 and ts[0].text not in x[3]:
                    return f"the raw section {x[3]!r} does not show {ts[0].text}"
                if "---" in after and x[4] != after[after.index("---"):]:
                    return f"the documentation after the code is changed: {x[4]!r}"
                return compare(template, ts, x[1], verbose)
            tb = f"{before}```rust\n{template}\n```{after}"
            return compare(tb, ts, v, verbose, must)
        jobs.append((cfg, m, judge, f"hover:{cfg}:{template!r}:{[t.text for t in ts]}:{shape}"))

    def inlay(items, cfg=0, resolve=False, edit=True):
        hs = [hint(fill(t, ts), i + 3, edit) for i, (t, ts) in enumerate(items)]
        n = next(nid)
        m = {"jsonrpc": "2.0", "id": n, "result": hs[0] if resolve else hs}

        def judge(o):
            r = json.loads(o)
            if {k: v for k, v in r.items() if k != "result"} != {"jsonrpc": "2.0", "id": n}:
                return f"the response is changed: {o}"
            got = [r["result"]] if resolve else r["result"]
            if not isinstance(got, list) or len(got) != len(hs):
                return f"{len(hs)} hints became {got}"
            for (t, ts), b, a in zip(items, hs, got):
                w = hint_diff(t, ts, b, a, resolve)
                if w:
                    return w
                if resolve and a.get("textEdits") and a["textEdits"][0]["newText"].startswith(": unit!") and ts[0].d is not None:
                    edits.setdefault(a["textEdits"][0]["newText"], ts[0])
        jobs.append((cfg, m, judge, f"inlay:{'resolve' if resolve else 'array'}:{cfg}:{[(t, [x.text for x in ts]) for t, ts in items]}"))

    edits = {}

    def same(obj, cfg=0):
        m = obj if isinstance(obj, str) else json.dumps(obj, ensure_ascii=False)
        jobs.append((cfg, m, lambda o: None if o == m or json.loads(o) == json.loads(m) else f"changed to {o}", f"other:{m}"))

    total = [0, 0]

    def flush():
        if not jobs:
            return
        ms = [m if isinstance(m, str) else json.dumps(m, ensure_ascii=False) for _, m, _, _ in jobs]
        lines = [f"{j[0]}{m}\n" for j, m in zip(jobs, ms)]
        k = len(lines) // 8 + 1
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda i: c.run("proxy", input="".join(lines[i:i + k]).encode()), range(0, len(lines), k)))
        out = [l for r in rs for l in r.stdout.decode().split("\n")[:-1]]
        if any(r.returncode for r in rs) or len(out) != len(jobs):
            raise MachineryError(f"driver: {[r.returncode for r in rs]} {len(out)} {len(jobs)} {rs[0].stderr[-300:]}")
        for j, m, o in zip(jobs, ms, out):
            total[0] += 1
            if o.startswith(("PANIC", "ERROR", "FRAME")):
                w = o[:300]
            else:
                w = j[2](o)
            if o != m:
                total[1] += 1
            if w:
                ck.violation(j[3][:300], f"{j[3]}: {w}")
        ck.sample(f"{ms[0][:250]} -> {out[0][:250]}")
        jobs.clear()

    # A: every dimension vector x scale, in the form rust-analyzer prints
    ds = dims(ck.thorough)
    few = len(dims(False))
    all_scales = scales(False)
    some = [s for i, s in enumerate(all_scales) if i % 4 == 0 or s in ((0, 0, 0, 0), (3, 0, 3, 0), (-3, 0, -3, 0), (2, 1, 1, 0))]
    ntypes = 0
    for i, d in enumerate(ds):
        for j, s in enumerate((all_scales if i < few else all_scales[::29]) if ck.thorough else some):
            t = full(d, s)
            ntypes += 1
            basic = sum(map(abs, d)) <= 1
            if (i + j) % 3 == 0 or basic:
                hover("let x: \0", [t], (i + j) // 3 % 2)
            if (i + j) % 3 == 1 or basic:
                inlay([(": \0", [t])], 0, True)
            if (i + j) % 3 == 2:
                inlay([(": i32", []), (": \0", [t]), (": Vec<\0>", [t])])
        if len(jobs) > 60000:
            flush()
    flush()
    ck.log("types", *total)
    # B: storage types, brands, forms, contexts
    D = [ref.ZERO, (0, 1, 0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0, 0, 0), (0, 1, -1, 0, 0, 0, 0, 0), (1, 2, -2, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 0, 0, 1), (1, 2, 3, -4, 5, -6, 7, 8)]
    S = [(0, 0, 0, 0), (3, 0, 3, 0), (-2, -2, -1, 1), (1, 0, -1, 0)]
    forms = ["elided", "explicit", "half"]
    stor = [("f64", None), ("i32", None), ("f32", "Br"), ("Wrapping<u8>", "a::b::Br"), ("f64", "Br"), ("[f64; 3]", None), ("Complex<f32>", "Br<3>"), ("(f64, i8)", None)]
    for d, s, f, (st, br) in itertools.product(D, S, forms, stor):
        t = full(d, s, st, br, f)
        for i, h in enumerate(HOVERS):
            if ck.thorough or h in HOVERS[:2] or (i + sum(d) + sum(s) + forms.index(f)) % 3 == 0:
                u = full((0, 0, 1, 0, 0, 0, 0, 0), (-9, 0, -9, 0), "u16", None, f)
                ts = [t, u, t][:h.count("\0")]
                for cfg in range(5):
                    hover(h, ts, cfg, AFTER[(i + cfg) % 3], "\n" if i % 2 else "", True, ["markup", "list", "markup", "second", "third"][(i + cfg) % 5])
        for i, h in enumerate(ITEMS):
            if ck.thorough or (i + sum(d) + sum(s) + forms.index(f)) % 3 == 0:
                u = full((0, 0, 1, 0, 0, 0, 0, 0), (-9, 0, -9, 0), "u16", None, f)
                for cfg in (range(5) if ": \0" in h else (0, 1, 4)):
                    hover(h, [t, u, t][:h.count("\0")], cfg, AFTER[(i + cfg) % 3], PATHS[(i + cfg) % 2], True, ["markup", "list", "markup", "second", "third"][(i + cfg) % 5])
        for i, h in enumerate(LABELS):
            u = full((0, 0, 1, 0, 0, 0, 0, 0), (-9, 0, -9, 0), "u16", None, f)
            ts = [t, u, t][:h.count("\0")]
            for cfg in ((0, 3, 4) if ck.thorough else (i % 5,)):
                inlay([(h, ts)], cfg, True)
                inlay([(h, ts)], cfg, True, False)
                inlay([(h, ts)], cfg, True, ["two", "same", "empty", "null"][(i + cfg + sum(d) + sum(s)) % 4])
                inlay([(h, ts), (": bool", []), (LABELS[(i + 5) % len(LABELS)], [u, t, u][:LABELS[(i + 5) % len(LABELS)].count("\0")]), (": &str", [])], cfg, False, i % 2 == 0)
        if len(jobs) > 60000:
            flush()
    flush()
    ck.log("contexts", *total)
    # C: types of which something is not known
    unk = ["_", "P", "{const}", "{unknown}", "N_1", "-P"]
    cases = []
    for a, b in itertools.product(["Scale", "Scale<_2<3>, _3, _5<3>>", "_", "…", "{unknown}", "S", "Scale<…, …>", "Scale<_2<3>, _, _5<3>, _>", "{type error}"],
                                  ["Dimension", "Dimension<_M, _L<1>>", "_", "…", "{unknown}", "D", "Dimension<…, …>", "Dimension<_, _L<1>, _T<0>, _>", "Dimension<_M<1>, …>"]):
        if not (a.startswith("Scale") and "_," not in a and "…" not in a and b.startswith("Dimension") and "_," not in b and "…" not in b):
            cases += [f"Quantity<{a}, {b}>", f"Quantity<{a}, {b}, i32>", f"Quantity<{a}, {b}, _, _>", f"Quantity<{a}, {b}, f64, Br>"]
    names = [("s", i) for i in range(4)] + [("d", i) for i in range(8)]
    for n in (1, 2, 12):
        for pos in itertools.combinations(names, n):
            for u in unk:
                for base in ("0", "1", "-2"):
                    for f in ("explicit", "elided"):
                        if not ck.thorough and n == 2 and (base != "1" or f == "elided" or u not in unk[:2]):
                            continue
                        e = {k: base for k in names}
                        e.update({k: u for k in pos})
                        cases.append(f"Quantity<Scale{args(SN, [e['s', i] for i in range(4)], f)}, Dimension{args(DN, [e['d', i] for i in range(8)], f)}" + (", f64, ()>" if f == "explicit" else ">"))
    cases += ["Quantity<{unknown}, {unknown}>", "Quantity<_, _>", "Quantity<…>", "Quantity<…, …, …>", "Quantity<Scale>", "Quantity<{type error}>", "Quantity<>"]
    known = full((0, 1, 0, 0, 0, 0, 0, 0), (3, 0, 3, 0))
    for x in dict.fromkeys(cases):
        t = T(x)
        for cfg in range(2):
            hover("let x: \0", [t], cfg)
            hover("let x: (\0, \0)", [t, known], cfg)
        inlay([(": \0", [t])], 0, True)
        inlay([(": \0", [t]), (": (\0, \0)", [t, known]), (": \0", [known])])
    flush()
    ck.log("unknown parts", *total)
    # the same, however many hints a response has and however long it is
    two = full((1, 2, -2, 0, 0, 0, 0, 0), (0, 0, 0, 0), "i32", "Br")
    for n in (2, 3, 5, 9, 17, 33, 51, 65, 101, 129, 201, 257, 501, 513, 1001, 1025, 2049, 5001) + ((20000, 40000, 65535, 65537) if ck.thorough else ()):
        inlay([(": \0", [[known, two][i % 2]]) for i in range(n)])
        inlay([(": i32", [])] * (n - 1) + [(": (\0, \0)", [known, two])])
        inlay([(": (" + ", ".join(["\0"] * n) + ")", [[known, two][i % 2] for i in range(n)])], 0, True) if n < 600 else None
        hover("let t: (" + ", ".join(["\0"] * n) + ")", [[known, two][i % 2] for i in range(n)], n % 2) if n < 600 else None
        hover("let x: \0", [known], n % 5, "\n\n---\n\n" + "é text" * n * (40 if n < 600 else 1))
        hover("let x: \0;" + "\nlet y: i32;" * n + "\nlet z: \0;", [two, known], n % 2)
    for n in (9, 31, 33, 63, 65, 127, 129, 255, 257, 300) + ((1000,) if ck.thorough else ()):  # deeply nested
        nest = full((1, 2, -2, 0, 0, 0, 0, 0), (3, 0, 3, 0), "Vec<" * min(n, 99) + "f64" + ">" * min(n, 99), "Br")  # syn's stack bounds the nesting inside a type
        for x in (known, nest):
            h = "Vec<" * n + "\0" + ">" * n
            hover("let x: " + h, [x], n % 2)
            hover("let x: (\0, " + h + ", \0)", [nest, x, known], n % 2)
            inlay([(": " + h, [x]), (": \0", [nest])])
            inlay([(": " + h, [x])], 0, True)
            inlay([(": \0", [nest])], 0, True)
    for n in [2 ** k + d for k in range(10, 21 + ck.thorough * 4) for d in ((-300, 0, 300) if ck.thorough else (0,))] + [3000000]:
        hover("let x: \0", [known], n % 2, "\n\n---\n\n" + "d" * n)
        inlay([(": \0", [known]), (": " + "L" * n, []), (": \0", [two])])
    flush()
    ck.log("sizes", *total)
    # D: whatever else may be in a text: nothing is changed unless it is a complete type
    toks = ["Quantity<", "Quantity", "Scale", "Dimension", "<", ">", ", ", "_L<1>", "é", "->"]
    L = 6 if ck.thorough else 5
    well = re.compile(r"Quantity<Scale(<[^<>]*(<[^<>]*>)*>)?, Dimension")
    for n in range(1, L + 1):
        for w in itertools.product(toks, repeat=n):
            s = "".join(w)
            if "Quantity" not in s or (n == L and w[0] not in ("Quantity<", "é")):
                continue
            must_same = "Quantity<Scale" not in s or not re.search(r"Quantity<Scale.*Dimension.*>", s)
            v = f"\n```rust\nlet x: {s};\n```\n\n---\n\n{s}"
            m = {"jsonrpc": "2.0", "id": 1, "result": {"contents": {"kind": "markdown", "value": v}}}
            jobs.append((n % 5, m, (lambda o, m=m: None if json.loads(o) == m else f"changed to {o}") if must_same else (lambda o: json.loads(o) and None), f"text:{s}"))
            h = {"jsonrpc": "2.0", "id": 1, "result": [hint(": " + s)]}
            jobs.append((0, h, (lambda o, m=h: None if json.loads(o) == m else f"changed to {o}") if must_same else (lambda o: json.loads(o) and None), f"label:{s}"))
            if len(jobs) > 80000:
                flush()
    flush()
    ck.log("texts", *total)
    # E: other messages
    q = printed((0, 1, 0, 0, 0, 0, 0, 0), (3, 0, 3, 0))
    for x in ["", "plain", q, f"Vec<{q}> and Scale, Dimension", "Quantity", "Scale Dimension Quantity<", "Content-Length: 3\r\n\r\n{}", "\\\"Δ\u2028"]:
        for m in [
            {"jsonrpc": "2.0", "id": 1, "result": None}, {"jsonrpc": "2.0", "id": 1, "result": {"items": [{"label": x, "detail": x}], "isIncomplete": False}},
            {"jsonrpc": "2.0", "method": "textDocument/publishDiagnostics", "params": {"uri": "file:///a", "diagnostics": [{"message": x, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}}}]}},
            {"jsonrpc": "2.0", "id": 2, "error": {"code": -32801, "message": x, "data": [x]}},
            {"jsonrpc": "2.0", "id": "a", "method": "window/workDoneProgress/create", "params": {"token": x}},
            {"jsonrpc": "2.0", "id": 5, "result": [{"title": x, "kind": "quickfix", "edit": {"changes": {"file:///a": [{"newText": x}]}}}]},
            {"jsonrpc": "2.0", "id": 6, "result": x}, {"jsonrpc": "2.0", "id": 7, "result": []}, {"jsonrpc": "2.0", "id": 8, "result": [1, 2.5, True, None, x, {"a": x}]},
            {"jsonrpc": "2.0", "id": 9, "result": [{"label": x, "position": {"line": 1, "character": 1}}]},
            {"jsonrpc": "2.0", "id": 9, "result": {"label": x, "kind": 3}}, {"jsonrpc": "2.0", "id": 9, "result": {"contents": [], "range": {}}},
            {"jsonrpc": "2.0", "id": 10, "result": {"contents": {"kind": "markdown", "value": "no code"}, "note": "plain"}},
        ]:
            same(m)
            same(m, 3)
            same(json.dumps(m, ensure_ascii=True), 1)
            if q not in x:
                same(json.dumps(m, ensure_ascii=False, indent=None, separators=(" ,  ", " :  ")), 0)
    flush()
    # F: what the edits declare, by the compiler
    items = sorted(edits.items())
    pick = items[::max(1, len(items) // (1200 if ck.thorough else 240))]
    g = Crate("c12e")
    p = CaseProgram("#![allow(unused)]\nuse whippyunits::quantity::*;\nuse whippyunits::unit;\n#[derive(Clone, PartialEq)] pub struct Br;\n")
    npick = 0
    for i, (e, t) in enumerate(pick):
        if re.search(r"Wrapping|Complex|::|\[|\(f64", t.text):
            continue
        npick += 1
        ty = f"Quantity<Scale{args(SN, [str(x) for x in t.s], 'explicit')}, Dimension{args(DN, [str(x) for x in t.d], 'explicit')}, {t.storage}, {t.brand or '()'}>"
        p.case(e, f"fn f{i}(x: {ty}) {{ let y{e} = x; }}")
    p.raw("fn main() {}")
    g.bin("edits", p.src())
    ok, diags = g.build(check_only=True)
    if not ok:
        by, un = attribute(diags, {"edits": p})
        if not by:
            raise MachineryError("".join(d["rendered"] for d in un[:3]) + g.stderr[-1500:])
        for k, m in by.items():
            ck.violation(f"edit:{k}", f"the edit {k!r} for {edits[k].text} is refused by the compiler: {m[:1]}")
    ck.finish(evaluations=total[0], distinct_nontrivial=total[1], exhaustive=True, types=ntypes, edits=len(edits), edits_compiled=npick,
              rule="one message per stated type, context, printed form and configuration; non-trivial: the proxy changed the message")


if __name__ == "__main__":
    main(run, "C12", "exploration")
