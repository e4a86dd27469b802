"""Shared infrastructure of the checks: building generated harnesses against
/repo's working tree, running them, known findings, evidence, verdicts."""
import json, os, re, shutil, struct, subprocess, sys, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VREPO", "/repo"))
if REPO == "/repo":
    WORK = os.path.join(VERIF, "work")
else:  # scratch copies used while developing the checks
    WORK = os.environ.get("VWORK") or os.path.join("/tmp/vwork", hashlib.sha1(REPO.encode()).hexdigest()[:10])
# one of C19's build configurations: {name, toolchain, features}
CONFIG = json.loads(os.environ.get("MC_CONFIG", "null"))
TARGET = os.path.join(WORK, "target")
if CONFIG:
    TARGET += "" if CONFIG["toolchain"] == "stable" else "-" + CONFIG["toolchain"]
    WORK = os.path.join(WORK, "conf", CONFIG["name"])
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
           RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=TARGET)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)

PROBE_SRC = open(os.path.join(VERIF, "rust", "probe.rs"), encoding="utf-8").read()


class MachineryError(Exception):
    pass


def f64_bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def bits_f64(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def bits_f32(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.viol = []
        self.known_hit = {}
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf, encoding="utf-8"):
                line = line.strip()
                if not line:
                    continue
                r = json.loads(line)
                if r.get("status") == "known" and r["property"] == pid:
                    for k in r["keys"]:
                        self.known[k] = r

    @property
    def thorough(self):
        return self.tier == "thorough"

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, ensure_ascii=False))

    def violation(self, key, detail):
        """key identifies the specific input; detail is the replayable artefact."""
        if key in self.known:
            self.known_hit.setdefault(key, detail)
            return
        self.viol.append((key, detail))

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def finish(self, **cov):
        self.cov.update(cov)
        self.cov.setdefault("samples", self.samples)
        if CONFIG:
            with open(os.path.join(WORK, self.pid + ".json"), "w", encoding="utf-8") as f:
                json.dump(dict(cov=self.cov, viol=self.viol), f, ensure_ascii=False)
            sys.exit(0)
        wall = time.time() - self.t0
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        seen = {}
        for k in self.known_hit:
            seen.setdefault(id(self.known[k]), (self.known[k], []))[1].append(k)
        for r, ks in seen.values():
            print(f"KNOWN-FINDING: property={self.pid} {r['what']} [{len(ks)} listed input(s), e.g. {ks[0]}]")
        nums = {k: v for k, v in self.cov.items() if isinstance(v, (int, bool))}
        self.log("coverage", json.dumps(nums))
        if self.viol:
            d = os.path.join(WORK, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"{self.pid}.json")
            with open(p, "w", encoding="utf-8") as f:
                json.dump([dict(key=k, detail=d_) for k, d_ in self.viol[:5000]], f, ensure_ascii=False, indent=1)
            for k, d_ in self.viol[:10]:
                print("  violating:", k, "|", (d_ if isinstance(d_, str) else json.dumps(d_, ensure_ascii=False))[:600])
            if len(self.viol) > 10:
                print(f"  ... and {len(self.viol)-10} more")
            print(f"VIOLATION property={self.pid} replay={p}")
            sys.exit(1)
        print(f"OK property={self.pid} tier={self.tier} wall={wall:.1f}s")
        sys.exit(0)


def _lock():
    src = os.path.join(REPO, "Cargo.lock")
    return src if os.path.exists(src) else None


def write_if_changed(path, text):
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


class Crate:
    """A generated crate with one or several bins, path deps on /repo."""

    def __init__(self, name, deps=("whippyunits",), extra_deps="", features=None, lib_src=None,
                 overflow_checks=True, opt=0, toolchain=None):
        self.name = name
        self.dir = os.path.join(WORK, "gen", name)
        self.bins = {}
        d = {
            "whippyunits": 'whippyunits = { path = "%s"%s }',
            "whippyunits-core": 'whippyunits-core = { path = "%s/whippyunits-core"%s }',
            "lsp-proxy": None, "whippyunits-pretty": None,
        }
        self.toolchain = toolchain
        feats = dict(features or {})
        if CONFIG:
            self.toolchain = CONFIG["toolchain"]
            feats["whippyunits"] = "default-features = false, features = " + json.dumps(CONFIG["features"])
        lines = []
        for x in deps:
            f = feats.get(x, "")
            f = (", " + f) if f else ""
            if x in ("whippyunits", "whippyunits-core"):
                lines.append(d[x] % (REPO, f))
            elif x == "whippyunits-lsp-proxy":
                lines.append('whippyunits-lsp-proxy = { path = "%s/lsp-proxy"%s }' % (REPO, f))
            elif x == "whippyunits-pretty":
                lines.append('whippyunits-pretty = { path = "%s/whippyunits-pretty"%s }' % (REPO, f))
            else:
                lines.append(x)
        self.toml = f"""[package]
name = "{name}"
version = "0.0.0"
edition = "2024"
publish = false

[dependencies]
{chr(10).join(lines)}
{extra_deps}

[profile.dev]
debug = 0
incremental = false
opt-level = {opt}
overflow-checks = {"true" if overflow_checks else "false"}

[profile.dev.package."*"]
opt-level = 0
debug = 0

[workspace]
"""

    def bin(self, name, src):
        self.bins[name] = src

    def write(self):
        bd = os.path.join(self.dir, "src", "bin")
        os.makedirs(bd, exist_ok=True)
        for f in os.listdir(bd):
            if f[:-3] not in self.bins:
                os.remove(os.path.join(bd, f))
        write_if_changed(os.path.join(self.dir, "Cargo.toml"), self.toml)
        lk = _lock()
        if lk and not os.path.exists(os.path.join(self.dir, "Cargo.lock")):
            shutil.copy(lk, os.path.join(self.dir, "Cargo.lock"))
        for n, s in self.bins.items():
            write_if_changed(os.path.join(bd, n + ".rs"), s)

    def build(self, check_only=False, timeout=800):
        """Returns (ok, diags): diags = [(bin, line, level, message, rendered)] for error diagnostics."""
        self.write()
        env = dict(ENV)
        if self.toolchain:
            env["RUSTUP_TOOLCHAIN"] = self.toolchain
        cmd = ["cargo", "check" if check_only else "build", "--offline", "--bins",
               "--message-format=json", "--keep-going" if True else ""]
        p = subprocess.run(cmd, cwd=self.dir, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        diags = []
        self.exes = {}
        for line in p.stdout.decode("utf-8", "replace").splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m.get("executable"):
                self.exes[m["target"]["name"]] = m["executable"]
            if m.get("reason") != "compiler-message":
                continue
            msg = m["message"]
            if msg["level"] != "error":
                continue
            tgt = m["target"]["name"]
            loc = [(s["file_name"], s["line_start"], s["line_end"], s["is_primary"]) for s in _user_spans(msg)]
            diags.append(dict(bin=tgt, pkg=m.get("package_id", ""), spans=loc, msg=msg["message"],
                              code=(msg.get("code") or {}).get("code") if msg.get("code") else None,
                              rendered=msg.get("rendered", "")))
        self.stderr = p.stderr.decode("utf-8", "replace")
        return p.returncode == 0, diags

    def run(self, name, input=None, timeout=600, args=(), env=None):
        exe = self.exes[name]
        e = dict(ENV)
        if env:
            e.update(env)
        p = subprocess.run([exe, *args], input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e)
        return p


def _user_spans(msg):
    out = []

    def outer(s):
        while s.get("expansion"):
            s2 = s["expansion"]["span"]
            prim = s["is_primary"]
            s = dict(s2)
            s["is_primary"] = prim
        return s
    for s in msg["spans"]:
        out.append(outer(s))
    if not any(s["is_primary"] for s in out):
        for c in msg["children"]:
            for s in c["spans"]:
                out.append(outer(s))
    return out


def shard(items, n):
    """Round-robin split in n shards."""
    return [items[i::n] for i in range(n)]


class CaseProgram:
    """Accumulates one-line cases so that a compile error can be attributed to its case."""

    def __init__(self, header):
        self.lines = header.rstrip("\n").split("\n")
        self.case_at = {}

    def raw(self, text):
        self.lines.extend(text.split("\n"))

    def case(self, key, text):
        assert "\n" not in text
        self.lines.append(text)
        self.case_at[len(self.lines)] = key

    def src(self):
        return "\n".join(self.lines) + "\n"


def attribute(diags, programs):
    """Map error diagnostics to case keys.  programs: bin -> CaseProgram.
    Returns (dict key->[msgs], unattributed list)."""
    by, un = {}, []
    for d in diags:
        if d["msg"].startswith("aborting due to") or d["msg"].startswith("could not compile"):
            continue
        prog = programs.get(d["bin"])
        hit = None
        if prog:
            for f, l0, l1, prim in sorted(d["spans"], key=lambda s: not s[3]):
                if not f.endswith(d["bin"] + ".rs"):
                    continue
                for l in range(l0, l1 + 1):
                    if l in prog.case_at:
                        hit = prog.case_at[l]
                        break
                if hit is not None:
                    break
        if hit is None:
            un.append(d)
        else:
            by.setdefault(hit, []).append(d["msg"])
    return by, un


def main(fn, pid, level):
    ck = Check(pid, level)
    try:
        fn(ck)
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        if ck.viol and not CONFIG:
            # what was found before the exploration broke off stands: it was shown on the code
            print(f"[{pid}] the exploration broke off here, after {len(ck.viol)} violation(s)")
            ck.finish(complete=False)
        print(f"ERROR property={pid}: the check itself failed (no verdict)")
        sys.exit(2)
