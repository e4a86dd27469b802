"""C19: the library is the same in every build configuration: the other properties, under every feature set."""
import itertools, json, os, subprocess, sys
import ref
from lib import *
from lib import _lock
from c06 import ty

# the distinct feature sets (std implies alloc, serde implies alloc); the default one is what the other checks use
STABLE = {"bare": [], "alloc": ["alloc"], "serde": ["serde"], "std": ["std"]}
CGE = {"cge": ["std", "serde", "cge"], "cge-bare": ["cge"], "cge-alloc": ["alloc", "cge"], "cge-serde": ["serde", "cge"], "cge-std": ["std", "cge"]}
NAMES = {**{k: ("stable", v) for k, v in STABLE.items()}, **{k: ("nightly", v) for k, v in CGE.items()}, "nightly": ("nightly", ["std", "serde"])}
BASE = ["C05", "C14", "C03", "C06", "C16"]
MORE = ["C04", "C07", "C08", "C15"]
QUICK = {"bare": BASE + ["C17"], "cge": ["C04", "C05", "C14", "C16"], "alloc": ["C11"], "serde": ["C09", "C10"], "std": ["C11", "C14"], "cge-bare": ["C05", "C03"]}


def plan(thorough):
    if not thorough:
        return QUICK
    out = {}
    for k, (tc, fs) in NAMES.items():
        l = BASE + MORE
        if "cge" not in fs:
            l = l + ["C17"]
        if fs and fs != ["cge"]:
            l = l + ["C11"]
        if "serde" in fs:
            l = l + ["C09", "C10"]
        # one full round per tool chain, the properties whose code depends on features in all of them
        out[k] = l if k in ("bare", "cge", "nightly") else [p for p in l if p in ("C05", "C14", "C03", "C11", "C09", "C10", "C16")]
    return out


# ---- the range of generic_const_exprs: all of i16
LIM = [-32768, -32767, -20000, -16385, -16384, -401, -257, -256, -201, -200, -129, -1, 0, 1, 2, 127, 128, 200, 201, 255, 256, 400, 16383, 16384, 20000, 32766, 32767]
AX = 12


def cge_range(ck, name):
    """runs in the configuration itself (MC_CONFIG set)"""
    trans = []
    fits = lambda x: -32768 <= x <= 32767
    for op in "*/":
        ps = [(a, b) for a in LIM for b in LIM if fits(a + b if op == "*" else a - b)]
        for i in range(0, len(ps), AX):
            g = (ps[i:i + AX] + [(0, 0)] * AX)[:AX]
            for k in (range(AX) if ck.thorough else [(i // AX) % AX]):
                h = g[k:] + g[:k]
                trans.append((op, [x[0] for x in h], [x[1] for x in h]))
    inv = [x for x in LIM if x != -32768]
    for i in range(len(inv)):
        trans.append(("inv", [inv[(i + 5 * k) % len(inv)] for k in range(AX)], None))
    c = Crate("range")
    progs = {}
    for b in range(8):
        p = CaseProgram(PROBE_SRC + "\nfn main() {")
        mine = list(enumerate(trans))[b::8]
        for k, (op, x, y) in mine:
            t = "i32" if k % 2 else "f64"
            q = f"<{ty(x[:4], x[4:], t)}>::new(1 as {t})"
            e = f"(1 as {t}) / {q}" if op == "inv" else f"{q} {op} <{ty(y[:4], y[4:], t)}>::new(1 as {t})"
            p.case(str(k), f'showq("{k}", {e});')
        p.raw("}")
        progs[f"t{b}"] = p
        c.bin(f"t{b}", p.src())
    ok, diags = c.build()
    if not ok:
        by, un = attribute(diags, progs)
        for k, m in by.items():
            op, x, y = trans[int(k)]
            ck.violation(f"range:{op}:{x}:{y}", f"exponents {x} {op} {y} are in range but do not compile: {m[:1]}")
        for m in un:  # errors of instantiated library code
            ck.violation("range:" + m["msg"][:200], "an exponent in range does not compile: " + m["rendered"][:500])
        ck.finish(evaluations=len(trans), rule="(does not build)")
    for b in progs:
        r = c.run(b)
        n = 0
        for line in r.stdout.decode().splitlines():
            k, s, d, v, br = line.split("\t")
            op, x, y = trans[int(k)]
            n += 1
            want = [-e for e in x] if op == "inv" else [e + f if op == "*" else e - f for e, f in zip(x, y)]
            if json.loads(s) + json.loads(d) != want:
                ck.violation(f"range:{op}:{x}:{y}", f"exponents (2,3,5,pi,M,L,T,I,Θ,N,J,A) {x} {op} {y} give {s}{d}, expected {want}")
        if n != len(trans[int(b[1:])::8]):
            raise MachineryError(r.stderr.decode()[-500:])
    # beyond it: no program
    over = [(i, op, a, b) for i in range(AX) for op, a, b in (("*", 32767, 1), ("/", -32768, 1), ("*", -32768, -1), ("/", 32767, -1), ("inv", -32768, 0))]
    if not ck.thorough:
        over = over[::3]
    c2 = Crate("beyond")
    for n, (i, op, a, b) in enumerate(over):
        v = [0] * AX; v[i] = a
        w = [0] * AX; w[i] = b
        q = f"<{ty(v[:4], v[4:], 'f64')}>::new(1.0)"
        e = f"1.0 / {q}" if op == "inv" else f"{q} {op} <{ty(w[:4], w[4:], 'f64')}>::new(1.0)"
        c2.bin(f"o{n}", PROBE_SRC + f'\nfn main() {{ showq("{n}", {e}); }}')
    ok, diags = c2.build()
    bad = {d["bin"] for d in diags}
    for n, (i, op, a, b) in enumerate(over):
        if f"o{n}" not in bad and f"o{n}" in c2.exes:
            ck.violation(f"beyond:{i}:{op}:{a}:{b}", f"exponent {a} {op} {b} in slot {i} overflows i16 but compiles and gives {c2.run(f'o{n}').stdout.decode()}")
    ck.finish(evaluations=len(trans) * AX + len(over), distinct_nontrivial=len(trans), transitions=len(trans), states=len(trans), beyond_range=len(over), exhaustive=True, rule="")


# ---- a program without the standard library
BARE = """#![no_std]
#![no_main]
use whippyunits::{quantity, value};
#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
#[unsafe(no_mangle)] pub extern "C" fn rust_eh_personality() {}
#[link(name = "c")] unsafe extern "C" {}
#[unsafe(no_mangle)] pub extern "C" fn main() -> i32 { let q = quantity!(6.0, m) / quantity!(2.0, s); if value!(q, m/s) == 3.0 { 0 } else { 1 } }
"""


def no_std(ck):
    d = os.path.join(WORK, "gen", "nostd")
    write_if_changed(os.path.join(d, "Cargo.toml"), f"""[package]
name = "nostd"
version = "0.0.0"
edition = "2024"
[dependencies]
whippyunits = {{ path = "{REPO}", default-features = false }}
[profile.dev]
debug = 0
panic = "abort"
opt-level = 1
[workspace]
""")
    write_if_changed(os.path.join(d, "src", "main.rs"), BARE)
    if _lock() and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(_lock(), os.path.join(d, "Cargo.lock"))
    p = subprocess.run(["cargo", "build", "-q", "--offline"], cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    e = p.stderr.decode()
    if p.returncode:
        ck.violation("no_std:" + ("std is linked" if "panic_impl" in e and "`std`" in e else "other"), e[:1500])
    elif subprocess.run([os.path.join(TARGET, "debug", "nostd")]).returncode:
        ck.violation("no_std:result", "6 m / 2 s is not 3 m/s in a program without the standard library")


def run(ck):
    if CONFIG:
        return cge_range(ck, CONFIG["name"])
    jobs = [(k, p) for k, ps in plan(ck.thorough).items() for p in ps]
    jobs += [("cge", "C19")] + ([("cge-bare", "C19")] if ck.thorough else [])
    tot, per, skipped = 0, {}, []
    st = tr = 0

    def one(job):
        k, p = job
        tc, fs = NAMES[k]
        out = os.path.join(WORK, "conf", k, p + ".json")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out):
            os.remove(out)
        env = dict(os.environ, MC_CONFIG=json.dumps(dict(name=k, toolchain=tc, features=fs)), VERIF_TIER="thorough" if p == "C19" and ck.thorough else "quick")
        t0 = time.time()
        r = subprocess.run([sys.executable, os.path.join(VERIF, "mc", p.lower() + ".py")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out):
            return job, None, r.stdout.decode()[-1500:]
        with open(out, encoding="utf-8") as f:
            ck.log(k, p, f"{time.time() - t0:.0f}s")
            return job, json.load(f), r.stdout.decode()
    # the tool chains have separate target directories, so one job of each at a time
    from concurrent.futures import ThreadPoolExecutor
    lanes = [[j for j in jobs if NAMES[j[0]][0] == t] for t in ("stable", "nightly")]
    with ThreadPoolExecutor(2) as ex:
        for res in ex.map(lambda l: [one(j) for j in l], lanes):
            for (k, p), r, txt in res:
                if r is None:
                    raise MachineryError(f"{p} in configuration {k}: {txt}")
                n = r["cov"].get("evaluations", 0)
                tot += n
                st += r["cov"].get("states", 0)
                tr += r["cov"].get("transitions", 0)
                per[f"{k}:{p}"] = n
                for key, detail in r["viol"]:
                    ck.violation(f"{k}:{p}:{key}", detail)
                if not n and not r["viol"]:
                    raise MachineryError(f"{p} in configuration {k} covers nothing: {txt[-800:]}")
    no_std(ck)
    ck.log(per)
    ck.sample(per)
    ck.finish(evaluations=tot, distinct_nontrivial=tot, configurations=len({k for k, _ in jobs}), jobs=len(jobs), type_states=st, type_transitions=tr, exhaustive=True,
              rule="the checks of the other properties (with smaller text and type alphabets for C08-C11 and five namespaces for C15) run on the library built with each feature set; with cge also exponents "
                   "at the limits of i16: every pair of 27 values in every slot, in range exact and beyond it refused; non-trivial = every evaluation of those checks")


if __name__ == "__main__":
    main(run, "C19", "exploration")
