"""C18: whippyunits-pretty passes compiler output on line by line, naming every complete quantity type and changing nothing else."""
from concurrent.futures import ThreadPoolExecutor
import itertools, os, re, select, subprocess, time
import ref
from lib import *
from c11 import dims, scales
from c12 import DN, SN, T, args, compare, fill, full, printed

PATIENCE = 30.0


def split_args(s):
    out, depth = [""], 0
    for i, ch in enumerate(s):
        if ch in "<([":
            depth += 1
        elif ch in ">)]" and not (ch == ">" and s[i - 1:i] == "-"):
            depth -= 1
        if ch == "," and not depth:
            out.append("")
        else:
            out[-1] += ch
    return [x.strip() for x in out]


def exps(text, name, names):
    x = re.fullmatch(r"(?:\w+::)*" + name + r"(?:<(.*)>)?", text)
    if not x:
        return None
    out = [0] * len(names)
    for i, a in enumerate(split_args(x[1]) if x[1] else []):
        y = re.fullmatch(r"(?:\w+::)*" + re.escape(names[i]) + r"(?:<(-?\d+)>)?", a) if i < len(names) else None
        if not y:
            return None
        out[i] = int(y[1] or 0)
    return tuple(out)


def read(line):
    """line -> (template, types), by an independent reader of printed types"""
    tpl, ts, pos = "", [], 0
    while True:
        i = line.find("Quantity<", pos)
        if i < 0:
            return tpl + line[pos:], ts
        depth, j = 1, i + 9
        while j < len(line) and depth:
            depth += {"<": 1, ">": -1}.get(line[j], 0)
            j += 1
        if depth:
            return tpl + line[pos:], ts
        text = line[i:j]
        a = split_args(text[9:-1])
        s = exps(a[0], "Scale", SN)
        d = exps(a[1], "Dimension", DN) if len(a) > 1 else None
        st = a[2] if len(a) > 2 else "f64"
        br = a[3] if len(a) > 3 and a[3] != "()" else None
        known = s is not None and d is not None and len(a) <= 4 and not re.search(r"[{}…]", st + (br or "")) and len(a) > 1
        ts.append(T(text, d, s, st, br) if known else T(text))
        # a name that ends in Quantity may be another type
        if re.match(r"\w", line[i - 1:i]) and not re.search(r"\x1b\[[\d;]*m$", line[:i]):
            ts[-1].must = False
        if "::Scale" in text or "::Dimension" in text or "::_" in text:
            ts[-1].must = False
        tpl += line[pos:i] + "\0"
        pos = j


CONTEXTS = ["{0}", "  = note: expected struct `{0}`", "             found struct `{0}`", "error[E0277]: cannot add `{0}` to `{1}`",
            "   = help: the trait `Add<{0}>` is not implemented for `{1}`", "5 |     let x: {0} = f::<{1}>(é); // → ²", "note: `fn(&self, {0}) -> Vec<{1}>` {0}",
            "\x1b[1m\x1b[91merror\x1b[0m: expected `\x1b[35m{0}\x1b[0m`", "\t{0}\t{1}\t", "warning: `Result<({0}, Quantity), Box<[{1}; 3]>>` Scale Dimension Quantity<", "Map<Iter<'_, {0}>, {{closure@src/main.rs:3:5: 3:8}}>"]

PROGRAM = """#![allow(unused)]
use whippyunits::*; use whippyunits::quantity::*;
#[derive(Clone, PartialEq)] struct Brand;
"""


def run(ck):
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "whippyunits-pretty", "Cargo.toml"), "--bins", "--target-dir", TARGET, "--message-format=json"],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise MachineryError(p.stderr.decode()[-2000:])
    exe = [m["executable"] for m in map(json.loads, p.stdout.decode().splitlines()) if m.get("executable")]
    if len(exe) != 1:
        raise MachineryError(f"binaries {exe}")
    exe = exe[0]
    env = {k: v for k, v in ENV.items() if not k.startswith("RUST_LOG")}
    ck.log("built")
    n = [0, 0]

    def tool(args, data):
        return subprocess.run([exe, *args], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, env=env)

    def judge(line, out, verbose, tag):
        tpl, ts = read(line)
        w = compare(tpl, ts, out, verbose)
        n[0] += 1
        n[1] += out != line
        if w:
            ck.violation(f"{tag}:{line}"[:300], f"{tag}: {line!r} -> {out!r}: {w}")

    def bulk(lines, args, tag):
        """A long stream through the tool, in eight parts."""
        verbose = "-v" in args
        k = len(lines) // 8 + 1
        parts = [lines[i:i + k] for i in range(0, len(lines), k)]
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda ls: tool(args, "".join(l + "\n" for l in ls).encode()), parts))
        for ls, r in zip(parts, rs):
            out = r.stdout.decode().split("\n")
            if out[-1:] == [""]:
                out.pop()
            if len(out) != len(ls) or r.returncode:
                bad = ls[min(len(out), len(ls) - 1)]
                ck.violation(f"{tag}:lines:{bad}"[:300], f"{tag}: {len(ls)} lines give {len(out)}, exit code {r.returncode}, near {bad!r}: {r.stderr.decode()[:300]}")
                continue
            for l, o in zip(ls, out):
                judge(l, o, verbose, tag)

    # A: types
    ds, sc = dims(False), scales(False)
    if not ck.thorough:
        sc = [s for i, s in enumerate(sc) if i % 4 == 0 or s in ((0, 0, 0, 0), (3, 0, 3, 0), (-3, 0, -3, 0), (2, 1, 1, 0))]
    lines = [[], []]
    for i, d in enumerate(ds):
        for j, s in enumerate(sc):
            lines[(i + j) % 2].append(CONTEXTS[(i * 3 + j) % 3].format(printed(d, s)))
            if ck.thorough:
                lines[(i + j + 1) % 2].append(CONTEXTS[(i + j) % 3].format(printed(d, s, "i32", None, "explicit")))
    bulk(lines[0], [], "types")
    bulk(lines[1], ["-v"], "types -v")
    ntypes = len(lines[0]) + len(lines[1])
    ck.log("types", *n)
    # B: contexts, storage types, brands, forms
    D = [ref.ZERO, (0, 1, 0, 0, 0, 0, 0, 0), (1, 0, 0, 0, 0, 0, 0, 0), (0, 1, -1, 0, 0, 0, 0, 0), (1, 2, -2, 0, 0, 0, 0, 0), (0, 0, 0, 0, 0, 0, 0, 1), (1, 2, 3, -4, 5, -6, 7, 8)]
    S = [(0, 0, 0, 0), (3, 0, 3, 0), (-2, -2, -1, 1), (1, 0, -1, 0)]
    lines = []
    u = printed((0, 0, 1, 0, 0, 0, 0, 0), (-9, 0, -9, 0), "u16")
    for d, s, f, (st, br), c in itertools.product(D, S, ["elided", "explicit", "half"], [("f64", None), ("i32", None), ("f32", "Br"), ("Wrapping<u8>", "a::b::Br"), ("[f64; 3]", None), ("(f64, i8)", None)], CONTEXTS):
        lines.append(c.format(printed(d, s, st, br, f), u))
    bulk(lines, [], "contexts")
    bulk(lines, ["--verbose"] if False else ["-v"], "contexts -v")
    # C: parts unknown, as rustc elides them
    unk = []
    A = ["Scale", "Scale<_2<3>, _3, _5<3>>", "_", "Scale<_2<3>, _, _5<3>, _>", "Scale<_, _3<2>, _>", "S", "Scale<_2<P>>", "Scale<_2<_>, _3<_>, _5<_>, _Pi<_>>", "whippyunits::quantity::Scale", "..."]
    B = ["Dimension", "Dimension<_M, _L<1>>", "_", "Dimension<_, _L<1>, _T<0>, _, _, _, _, _>", "D", "Dimension<_M<P>, _L<1>>", "Dimension<_M<_>, _L<_>, _T<_>, _I<_>, _Θ<_>, _N<_>, _J<_>, _A<_>>", "Dimension<_L<1>>", "Dimension<_M<{ N + 1 }>>", "whippyunits::quantity::Dimension<_M, _L<1>>"]
    for a, b, t in itertools.product(A, B, ["", ", i32", ", _", ", _, _", ", f64, Br", ", T, B"]):
        unk += [c.format(f"Quantity<{a}, {b}{t}>", u) for c in CONTEXTS]
    names = [("s", i) for i in range(4)] + [("d", i) for i in range(8)]
    for k in (1, 2):
        for pos in itertools.combinations(names, k):
            for x in ("_", "P", "{const}", "-N", "99999"):
                for base in ("0", "1", "-2"):
                    e = {q: base for q in names}
                    e.update({q: x for q in pos})
                    if x == "99999":
                        continue
                    unk.append(f"Quantity<Scale{args(SN, [e['s', i] for i in range(4)], 'explicit')}, Dimension{args(DN, [e['d', i] for i in range(8)], 'explicit')}, f64, ()>")
                    # the whole element elided
                    if x == "_":
                        g = lambda k_, nm, cnt: ", ".join("_" if (k_, i) in pos else f"{nm[i]}<{base}>" for i in range(cnt))
                        unk.append(f"expected `Quantity<Scale<{g('s', SN, 4)}>, Dimension<{g('d', DN, 8)}>>`")
    bulk(unk, [], "unknown parts")
    bulk(unk, ["-v"], "unknown parts -v")
    ck.log("contexts", *n)
    # D: all token sequences
    toks = ["Quantity<", "Quantity", "Scale", "Dimension", "<", ">", ", ", "_L<1>", "é", "->", "`"]
    L = 6 if ck.thorough else 5
    lines = []
    for k in range(1, L + 1):
        for w in itertools.product(toks, repeat=k):
            if k == L and w[0] not in ("Quantity<", "é"):
                continue
            lines.append("".join(w))
    tl = []
    for l in lines:
        tpl, ts = read(l)
        # what is neither a type nor clearly not one is not judged, only passed
        amb = "Quantity<Scale" in l and any(t.d is None for t in ts)
        tl.append((l, amb))
    r = [l for l, amb in tl if not amb]
    bulk(r, [], "texts")
    am = [l for l, amb in tl if amb]
    q = tool([], "".join(l + "\n" for l in am).encode())
    if q.returncode or q.stdout.count(b"\n") != len(am):
        ck.violation("texts:ambiguous", f"{len(am)} lines give {q.stdout.count(b'\n')}, exit code {q.returncode}: {q.stderr.decode()[:300]}")
    n[0] += len(am)
    ck.log("texts", *n)
    # E: the compiler's own output
    prog = CaseProgram(PROGRAM)
    us = ["m", "km", "s", "kg", "g", "N", "J", "min", "deg", "rad", "m/s", "m^2", "kg*m^-3", "Hz", "K", "1", "mol", "cd*A"]
    k = 0
    for a, b in itertools.product(us, repeat=2):
        if a == b:
            continue
        for st, body in enumerate(["let x: unit!({a}) = quantity!(1.0, {b});", "let x = quantity!(1.0, {a}) + quantity!(1.0, {b});", "let x: Vec<unit!({a}, i32)> = vec![quantity!(1, {b}, i32)];",
                                   "let x: f64 = Some(quantity!(1.0, {a}));", "let x: unit!({a}, f32) = <unit!({b}, f32, Brand)>::new(1.0f32);", "quantity!(1.0, {a}).nothing(quantity!(1.0, {b}));"]):
            if ck.thorough or (k + st) % 6 == 0:
                prog.case(f"{k}:{st}", f"fn f{k}_{st}() {{ " + body.format(a=a, b=b) + " }")
        k += 1
    prog.raw("fn main() {}")
    g = Crate("c18e")
    g.bin("errors", prog.src())
    ok, diags = g.build(check_only=True)
    real = [l for d in diags for l in d["rendered"].split("\n")]
    if ok or sum("Quantity<" in l for l in real) < 50:
        raise MachineryError(f"no compiler output to read: {len(real)}")
    bulk(real, [], "rustc")
    bulk(real, ["-v"], "rustc -v")
    ck.sample({"rustc": [l for l in real if "Quantity<Scale" in l][:3]})
    # raw types on request
    some = [l for l in real if "Quantity<Scale" in l][:40] + ["plain", "Quantity<_, _>", CONTEXTS[3].format(printed(D[4], S[1]), u)]
    for l in some:
        for a in (["-r"], ["--include-raw", "--verbose"]):
            o = tool(a, (l + "\n").encode()).stdout.decode()
            tail = f"\n\nRaw:\n\n{l}\n"
            if o == l + "\n" or not o.endswith(tail):
                o2 = o[:-1]
                if o != l + "\n" and not o.endswith(tail):
                    ck.violation(f"raw:{l}"[:300], f"with {a}: {l!r} -> {o!r}: no raw text")
                    continue
            else:
                o2 = o[:-len(tail)]
            judge(l, o2, len(a) > 1, f"raw {a}")
    # files: the same as the stream, to the last line break
    text = "\n".join(real[:400] + ["", "é"])
    f = os.path.join(WORK, "c18.txt")
    for t in (text, text + "\n", "", "\n", "x", "\n\nx\n\n"):
        with open(f, "w", encoding="utf-8", newline="") as h:
            h.write(t)
        for a in ([], ["-v"]):
            o1 = tool(a + ["-f", f], b"").stdout.decode()
            o2 = tool(a, t.encode()).stdout.decode()
            n[0] += 1
            if o1 != o2 and o1 + "\n" != o2 or t.endswith("\n") and o1 != o2:
                ck.violation(f"file:{a}:{t[:40]!r}", f"a file is processed differently from a stream: {o1[-200:]!r} / {o2[-200:]!r}")
    # every byte sequence over an alphabet of line pieces, as a file and as a stream
    ty = CONTEXTS[1].format(printed(D[1], S[1])).encode()
    named = tool([], ty + b"\n").stdout.rstrip(b"\n")
    pieces = [b"\n", b"\r\n", b"x", b"\xff", b" " + ty + b" ", b"\r", b"\t"]
    seqs = [b"".join(t) for k in range(1, 5 if ck.thorough else 4) for t in itertools.product(pieces, repeat=k)]

    def bytes_case(i):
        t = seqs[i]
        want = b"\n".join(l if b"\xff" in l else l.replace(ty, named) for l in t.split(b"\n"))
        g = os.path.join(WORK, f"c18b{i % 64}_{i}.txt")
        with open(g, "wb") as h:
            h.write(t)
        try:
            rs = [("file", tool(["-f", g], b"")), ("stream", tool([], t))]
        finally:
            os.remove(g)
        # the last line may be completed
        return [(m, t, r.stdout) for m, r in rs if r.returncode or r.stdout != want and (t.endswith(b"\n") or r.stdout != want + b"\n")]
    with ThreadPoolExecutor(8) as ex:
        for res in ex.map(bytes_case, range(len(seqs))):
            n[0] += 2
            for m, t, o in res:
                ck.violation(f"bytes:{m}:{t!r}", f"{m} {t!r} gives {o!r}")
    # F: streaming; every cut of a stream, with each line passed on before the next is written
    good = [CONTEXTS[1].format(printed(D[1], S[1])), "note: é", CONTEXTS[3].format(printed(D[4], S[0]), u)]
    bad = b"\xff\xfe link.exe \xe9"
    stream = [l.encode() for l in good[:2]] + [bad, good[2].encode(), b""]
    data = b"".join(l + b"\n" for l in stream)
    want = tool([], data).stdout.split(b"\n")
    for l, o in zip(stream, want):
        if l == bad:
            if o not in (l, l.decode("utf-8", "replace").encode()):
                ck.violation("stream:bytes", f"{l!r} is passed on as {o!r}")
        else:
            judge(l.decode(), o.decode("utf-8", "replace"), False, "stream")
    if len(want) != len(stream) + 1:
        ck.violation("stream:lines", f"{len(stream)} lines give {len(want) - 1}")

    def stepwise(cuts):
        q = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        got = b""
        try:
            cs = [0, *cuts, len(data)]
            for a, b in zip(cs, cs[1:]):
                q.stdin.write(data[a:b])
                q.stdin.flush()
                lines = data[:b].count(b"\n")
                end = time.time() + PATIENCE
                while got.count(b"\n") < lines:
                    if not select.select([q.stdout], [], [], max(0, end - time.time()))[0]:
                        return f"after {data[:b][-40:]!r} only {got.count(b'\n')} of {lines} lines are passed on"
                    d = os.read(q.stdout.fileno(), 65536)
                    if not d:
                        return f"ends after {got.count(b'\n')} of {lines} lines"
                    got += d
            q.stdin.close()
            got += q.stdout.read()
            if q.wait(PATIENCE):
                return f"exit code {q.returncode}"
            return None if got == b"\n".join(want) else f"output {got!r} instead of {b'\n'.join(want)!r}"
        except (BrokenPipeError, subprocess.TimeoutExpired) as e:
            return f"{type(e).__name__}"
        finally:
            q.kill()
            q.wait()
    nl = [i + 1 for i, ch in enumerate(data) if ch == 10][:-1]
    jobs = [nl, list(range(1, len(data)))] + [[c] for c in range(1, len(data))] + [sorted({*nl, c}) for c in range(1, len(data))]
    if ck.thorough:
        jobs += [list(c) for c in itertools.combinations(range(1, len(data), 3), 2)]
    with ThreadPoolExecutor(8) as ex:
        for c, w in zip(jobs, ex.map(stepwise, jobs)):
            n[0] += 1
            if w:
                ck.violation(f"stream:{c}"[:200], f"cut at {c}: {w}")
    ck.sample(f"{good[0]} -> {want[0].decode()}")
    ck.finish(evaluations=n[0], distinct_nontrivial=n[1], exhaustive=True, types=ntypes, stream_schedules=len(jobs), rustc_lines=len(real), rustc_diagnostics=len(diags),
              rule="one line per stated type, context and configuration, and one run per cut of the stream; non-trivial: the tool changed the line")


if __name__ == "__main__":
    main(run, "C18", "exploration")
