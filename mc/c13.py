"""C13: the proxy process forwards every message of a session in both directions, whole, in order, exactly once,
however the streams are cut and interleaved, and ends with the server."""
import fcntl, itertools, json, multiprocessing, os, re, select, shutil, signal, socket, struct, subprocess, sys, tempfile, termios, time
import ref
from lib import *
import c12

PATIENCE = 30.0


class Broken(Exception):
    """The session does not behave as stated."""


class Session:
    def __init__(self, exe, ra_dir, args=(), env=None):
        self.dir = tempfile.mkdtemp(prefix="c13-")
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        path = os.path.join(self.dir, "s")
        self.sock.bind(path)
        self.sock.listen(1)
        self.sock.settimeout(PATIENCE)
        e = {k: v for k, v in ENV.items() if not k.startswith(("WHIPPYUNITS_", "RUST_LOG"))}
        e.update(PATH=ra_dir + ":" + e["PATH"], FAKE_RA_SOCK=path)
        e.update(env or {})
        i0, i1 = os.pipe()
        o0, o1 = os.pipe()
        x0, x1 = os.pipe()
        self.p = subprocess.Popen([exe, *args], stdin=i0, stdout=o1, stderr=x1, env=e)
        for f in (i0, o1, x1):
            os.close(f)
        self.ed_in, self.ed_out, self.err = i1, o0, x0  # what the editor writes to and reads from
        try:
            self.conn, _ = self.sock.accept()
        except socket.timeout:
            raise Broken("rust-analyzer is not started")
        self.conn.settimeout(PATIENCE)
        text, anc, _, _ = self.conn.recvmsg(8192, socket.CMSG_SPACE(12))
        self.args = text.decode().split("\n")[:-2]
        self.ra_in, self.ra_out, self.ra_err = struct.unpack("3i", anc[0][2][:12])
        for f in (self.ed_in, self.ra_out, self.ra_err):
            fcntl.fcntl(f, 1031, 1 << 20)  # F_SETPIPE_SZ
        self.buf = {"editor": b"", "server": b"", "err": b""}
        self.fd = {"editor": self.ed_out, "server": self.ra_in, "err": self.err}
        self.eof = set()
        for f in self.fd.values():
            os.set_blocking(f, False)
        self.closed = set()

    def write(self, who, data, wait=True):
        fd = {"editor": self.ed_in, "server": self.ra_out, "err": self.ra_err}[who]
        os.set_blocking(fd, False)
        end = time.time() + PATIENCE
        while data:
            try:
                n = os.write(fd, data)
                data = data[n:]
            except BlockingIOError:
                if time.time() > end:
                    raise Broken(f"the proxy does not take the input of the {who}")
                if not self.drain():
                    time.sleep(0.001)
            except BrokenPipeError:
                raise Broken(f"the proxy closed the input of the {who}")
        if wait:
            self.taken(fd, who)

    def taken(self, fd, who):
        b = bytearray(4)
        end = time.time() + PATIENCE
        k = 0
        while True:
            fcntl.ioctl(fd, termios.FIONREAD, b)
            if not any(b):
                return
            k += 1
            if k > 50 and not self.drain():
                time.sleep(0.0002)
            if time.time() > end:
                raise Broken(f"the proxy does not take the input of the {who}")
            if self.p.poll() is not None:
                raise Broken(f"the proxy ended with {self.p.returncode} before it took the input of the {who}")

    def drain(self):
        """Take what the proxy has written, so that it is not held up."""
        return any([self.fill(to, 0) and to not in self.eof for to in ("editor", "server")])

    def fill(self, to, timeout):
        """One read of what is there for `to`; False after the timeout."""
        fd = self.fd[to]
        if to in self.eof:
            return False
        r, _, _ = select.select([fd], [], [], timeout)
        if not r:
            return False
        d = os.read(fd, 1 << 20)
        if not d:
            self.eof.add(to)
        self.buf[to] += d
        return True

    def message(self, to):
        """The next message for `to`, None at the end of the stream."""
        end = time.time() + PATIENCE
        while True:
            b = self.buf[to]
            h = b.find(b"\r\n\r\n")
            if h >= 0:
                m = [l for l in b[:h].split(b"\r\n") if l.lower().startswith(b"content-length:")]
                if len(m) != 1 or not re.fullmatch(rb"\s*\d+\s*", m[0][15:]):
                    raise Broken(f"unreadable header {b[:h]!r} sent to the {to}")
                n = int(m[0][15:])
                if len(b) >= h + 4 + n:
                    self.buf[to] = b[h + 4 + n:]
                    return b[h + 4:h + 4 + n]
            if to in self.eof:
                if b:
                    raise Broken(f"the stream to the {to} ends within a message: {b[:200]!r}")
                return None
            if not self.fill(to, max(0.0, end - time.time())) and to not in self.eof and time.time() >= end:
                raise Broken(f"no message arrives at the {to} ({len(b)} bytes pending: {b[:80]!r})")

    def silent(self, to):
        """Nothing (more) has been sent to `to`."""
        self.fill(to, 0)
        if self.buf[to]:
            raise Broken(f"unexpected output to the {to}: {self.buf[to][:200]!r}")

    def close(self, who):
        if who not in self.closed:
            self.closed.add(who)
            os.close({"editor": self.ed_in, "server": self.ra_out, "err": self.ra_err}[who])

    def ended(self):
        try:
            self.p.wait(PATIENCE)
        except subprocess.TimeoutExpired:
            raise Broken("the proxy does not end after rust-analyzer closed its output")

    def destroy(self):
        for w in ("editor", "server", "err"):
            self.close(w)
        for f in self.fd.values():
            os.close(f)
        try:
            self.conn.close()
        except AttributeError:
            pass
        self.sock.close()
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


# messages: (body bytes, headers before and after Content-Length)
MM = c12.full((0, 1, 0, 0, 0, 0, 0, 0), (-3, 0, -3, 0))
KG = c12.full((1, 0, 0, 0, 0, 0, 0, 0), (3, 0, 3, 0), "i32")


def js(o, **k):
    return json.dumps(o, ensure_ascii=False, **k).encode()


def hover_msg(n):
    return {"jsonrpc": "2.0", "id": n, "result": {"contents": {"kind": "markdown", "value": f"\n```rust\nlet Δx: ({MM.text}, {KG.text})\n```\n\n---\n\nsize = 16"}, "range": {"start": {"line": 1, "character": 2}, "end": {"line": 1, "character": 4}}}}


def body(kind, n):
    """(body, judge of what must arrive at the editor; None: the same bytes)"""
    if kind == "req":
        return js({"jsonrpc": "2.0", "id": n, "method": "textDocument/hover", "params": {"p": 1}})
    if kind == "tiny":
        return b'{"id":%d}' % n
    if kind == "uni":
        return js({"id": n, "s": "Δé𝛼\u2028\u0000 ⁻¹"})
    if kind == "embed":
        return b'{"id":%d,\r\n\r\n"s":"Content-Length: 7\\r\\n\\r\\n{}", "t":\r\n "Quantity"}\r\n' % n
    if kind == "embed2":
        return b'{"id":%d,"s":[\r\nContent-Length: 2\r\n\r\n{}]}' % n  # not JSON, but a frame
    if kind == "big":
        return js({"id": n, "s": "é" * 35000})
    if kind == "huge":
        return js({"id": n, "s": "x" * 900000})
    if kind == "hover":
        return js(hover_msg(n))
    if kind == "inlay":
        return js({"jsonrpc": "2.0", "id": n, "result": [c12.hint(": " + MM.text, 3), c12.hint(": i32", 4)]})
    if kind == "compl":
        return js({"jsonrpc": "2.0", "id": n, "result": [{"label": "Quantity<Scale> Dimension " + MM.text, "id": n}]}, separators=(", ", ":"))
    raise AssertionError(kind)


HEAD = {"": "Content-Length: %d\r\n\r\n", "after": "Content-Length: %d\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n",
        "before": "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: %d\r\n\r\n", "lower": "content-length:%d\r\n\r\n"}


def frame(b, head=""):
    return (HEAD[head] % len(b)).encode() + b


def judge(to, sent, got, verbose=False, raw=False):
    if got == sent:
        if to == "editor" and MM.text.encode() in sent and (b'"contents"' in sent or b'"position"' in sent):
            raise Broken(f"the types of {sent[:120]!r} are not named")
        return
    if to == "server":
        raise Broken(f"the editor sent {sent[:200]!r}, rust-analyzer got {None if got is None else got[:200]!r}")
    if got is None:
        raise Broken(f"{sent[:200]!r} does not reach the editor")
    try:
        a, b = json.loads(sent), json.loads(got)
    except ValueError:
        raise Broken(f"rust-analyzer sent {sent[:200]!r}, the editor got {got[:200]!r}")
    if isinstance(a, dict) and isinstance(b, dict) and a.get("id") == b.get("id") and b"Quantity" in sent:
        if isinstance(a.get("result"), dict) and "contents" in a["result"]:
            v = b["result"]["contents"]["value"]
            if json.loads(json.dumps(b).replace(json.dumps(v), json.dumps(a["result"]["contents"]["value"]))) == a:
                if raw:
                    if "Raw:" not in v or MM.text not in v:
                        raise Broken(f"no raw types in {v!r}")
                    v = v[:v.index("\n```\n\n---\nRaw:")]
                    w = c12.compare("\n```rust\nlet Δx: (\0, \0)", [MM, KG], v, verbose)
                else:
                    w = c12.compare("\n```rust\nlet Δx: (\0, \0)\n```\n\n---\n\nsize = 16", [MM, KG], v, verbose)
                if not w:
                    return
                raise Broken(w)
        elif isinstance(a.get("result"), list) and isinstance(b.get("result"), list) and len(a["result"]) == len(b["result"]):
            if dict(a, result=0) == dict(b, result=0):
                if a == b and "position" not in a["result"][0]:
                    return
                if a["result"][0].get("position"):
                    w = c12.hint_diff(": \0", [MM], a["result"][0], b["result"][0], False) or c12.hint_diff(": i32", [], a["result"][1], b["result"][1], False)
                    if not w:
                        return
                    raise Broken(w)
    raise Broken(f"rust-analyzer sent {sent[:200]!r}, the editor got {got[:200]!r}")


OTHER = {"editor": "server", "server": "editor"}


class Runner:
    """Runs schedules, each with messages of its own, in sessions that are replaced when one has failed."""

    def __init__(self, exe, ra):
        self.exe, self.ra, self.s, self.n, self.left = exe, ra, None, 0, 0
        self.transitions = 0

    def session(self):
        if self.s is None or self.left == 0:
            self.drop()
            self.s, self.left = Session(self.exe, self.ra), 400
        self.left -= 1
        return self.s

    def drop(self):
        if self.s:
            self.s.destroy()
        self.s = None

    def cut(self, who, msgs, cuts, wait=True):
        """Messages (kind, head) of one side, written in the pieces between the cuts."""
        s = self.session()
        bs = []
        data = b""
        for k, h in msgs:
            self.n += 1
            b = body(k, 1000 + self.n % 9000)
            bs.append(b)
            data += frame(b, h)
        cs = [0, *[c for c in cuts if c < len(data)], len(data)]
        for a, b in zip(cs, cs[1:]):
            if a < b:
                s.write(who, data[a:b], wait)
                self.transitions += 1
        for b in bs:
            judge(OTHER[who], b, s.message(OTHER[who]))
        s.silent(OTHER[who])
        s.silent(who)


def length(msgs):
    return sum(len(frame(body(k, 1000), h)) for k, h in msgs)


def do(r, job):
    kind = job[0]
    if kind == "cut":
        r.cut(*job[1:])
    elif kind == "weave":
        # two scripts of pieces, one per side, in a given order
        _, emsgs, rmsgs, order, wait = job
        s = r.session()
        q, sent = {}, {}
        for who, msgs in (("editor", emsgs), ("server", rmsgs)):
            bs, fs = [], b""
            for k, h in msgs:
                r.n += 1
                bs.append(body(k, 1000 + r.n % 9000))
                fs += frame(bs[-1], h)
            n = order.count("e" if who == "editor" else "r")
            step = max(1, -(-len(fs) // n))
            q[who] = [fs[i:i + step] for i in range(0, len(fs), step)]
            sent[who] = bs
        if not wait:
            os.kill(s.p.pid, signal.SIGSTOP)
        try:
            for c in order:
                who = "editor" if c == "e" else "server"
                if q[who]:
                    s.write(who, q[who].pop(0), wait)
                    r.transitions += 1
        finally:
            if not wait:
                os.kill(s.p.pid, signal.SIGCONT)
        for who in ("editor", "server"):
            for b in sent[who]:
                judge(OTHER[who], b, s.message(OTHER[who]))
        s.silent("editor")
        s.silent("server")
    elif kind == "life":
        life(r, *job[1:])
    elif kind == "press":
        pressure(r, *job[1:])
    elif kind == "env":
        _, env, verbose, raw, args = job
        s = Session(r.exe, r.ra, args, env)
        try:
            if s.args != list(args):
                raise Broken(f"the arguments {args} arrive as {s.args}")
            for k in ("hover", "inlay"):
                b = body(k, 1234)
                s.write("server", frame(b))
                judge("editor", b, s.message("editor"), verbose, raw)
                r.transitions += 1
        finally:
            s.destroy()


def pieces(msgs, partial):
    """The script of one side: two pieces that cut within a message, optionally ending within one."""
    bs = [body(k, 1000 + i) for i, (k, h) in enumerate(msgs)]
    fs = [frame(b, h) for b, (k, h) in zip(bs, msgs)]
    data = b"".join(fs)
    if partial:
        data, bs = data[:-5], bs[:-1]
    m = len(fs[0]) // 2 if len(fs) > 1 else len(data) // 2
    return bs, [data[:m], data[m:]]


def life(r, emsgs, rmsgs, order, wait, partial):
    """order: e (editor writes its next piece), r (server), x (server writes to stderr), and
    E, R, X (they close these streams), D (the editor stops reading)"""
    s = Session(r.exe, r.ra)
    try:
        eb, eq = pieces(emsgs, partial)
        rb, rq = pieces(rmsgs, partial)
        edone = rdone = 0  # pieces written
        deaf = False
        got = {"editor": 0, "server": 0}
        x_sent = b""

        def progress():
            # what must have arrived by now
            if wait and edone == 2 and not rclosed:
                while got["server"] < len(eb):
                    judge("server", eb[got["server"]], s.message("server"))
                    got["server"] += 1
                s.silent("server")
            if wait and rdone == 2 and not deaf:
                while got["editor"] < len(rb):
                    judge("editor", rb[got["editor"]], s.message("editor"))
                    got["editor"] += 1
                s.silent("editor")
        rclosed = False
        for c in order:
            r.transitions += 1
            if c == "e" and not (rclosed or deaf and s.p.poll() is not None):
                try:
                    s.write("editor", eq[edone], wait)
                except Broken:
                    # the session may be over once the editor has stopped to read
                    if not deaf:
                        raise
                edone += 1
            elif c == "r":
                try:
                    s.write("server", rq[rdone], wait)
                except Broken:
                    if not deaf:
                        raise
                rdone += 1
            elif c == "x":
                try:
                    s.write("err", b"note: x\n", wait and not rclosed)
                    if wait and not rclosed:
                        x_sent += b"note: x\n"
                except Broken:
                    if not (deaf or rclosed):
                        raise
            elif c == "E":
                s.close("editor")
            elif c == "R":
                s.close("server")
                rclosed = True
            elif c == "X":
                s.close("err")
            elif c == "D":
                os.close(s.ed_out)
                s.fd["editor"] = os.open("/dev/null", os.O_RDONLY)
                deaf = True
            if not (deaf and (rdone == 2 or rclosed)):
                progress()
        if "R" not in order and not deaf:
            # still alive: a message that comes now is forwarded
            more = [] if partial else [body("req", 77)]
            for b in more:
                s.write("server", frame(b), wait)
            for x in rb[got["editor"]:] + more:
                judge("editor", x, s.message("editor"))
            got["editor"] = len(rb)
        elif not deaf:
            for x in rb[got["editor"]:] if rdone == 2 else []:
                judge("editor", x, s.message("editor"))
        if not rclosed:
            if edone == 2 and not deaf:
                while got["server"] < len(eb):
                    judge("server", eb[got["server"]], s.message("server"))
                    got["server"] += 1
                if "E" in order and s.message("server") is not None:
                    raise Broken("rust-analyzer gets more than was sent")
            if x_sent and not deaf:
                end = time.time() + PATIENCE
                while s.buf["err"].count(b"note: x\n") * 8 < len(x_sent) and time.time() < end:
                    if not s.fill("err", 0.5) and "err" in s.eof:
                        break
                if s.buf["err"].count(b"note: x\n") * 8 != len(x_sent):
                    raise Broken(f"rust-analyzer wrote {x_sent!r} to its stderr, {s.buf['err']!r} arrives")
            s.close("server")
        if not deaf:
            while True:
                m = s.message("editor")
                if m is None:
                    break
                raise Broken(f"the editor gets {m!r}, which was not sent")
        s.ended()
    finally:
        s.destroy()


def pressure(r, n, kind):
    """The reader of one direction stops; the other direction goes on, and nothing is lost."""
    for slow in ("editor", "server"):
        s = Session(r.exe, r.ra)
        try:
            fast = OTHER[slow]
            bs = [body(kind, 1000 + i) for i in range(n)]
            data = b"".join(frame(b) for b in bs)
            # as much as goes in without a reader
            fd = s.ra_out if slow == "editor" else s.ed_in
            os.set_blocking(fd, False)
            pos, end = 0, time.time() + 0.25
            while pos < len(data) and time.time() < end:
                try:
                    k = os.write(fd, data[pos:pos + 65536])
                    pos += k
                    end = time.time() + 0.25
                except BlockingIOError:
                    time.sleep(0.005)
            if pos < len(data):
                r.blocked = getattr(r, "blocked", 0) + 1
            for i in range(5):
                b = body("req", i)
                s.write(slow, frame(b), False)
                judge(fast, b, s.message(fast))
                r.transitions += 1
            for b in bs:
                while True:
                    if pos < len(data):
                        try:
                            pos += os.write(fd, data[pos:pos + 65536])
                        except BlockingIOError:
                            pass
                    if frame_ready(s, slow) or pos >= len(data):
                        break
                    s.fill(slow, 0.01)
                judge(slow, b, s.message(slow))
            s.silent(slow)
            s.close("server")
            if s.message("editor") is not None:
                raise Broken("the editor gets more than was sent")
            s.ended()
        finally:
            s.destroy()


def frame_ready(s, to):
    b = s.buf[to]
    h = b.find(b"\r\n\r\n")
    m = re.search(rb"(?i)content-length:\s*(\d+)", b[:h]) if h >= 0 else None
    return bool(m) and len(b) >= h + 4 + int(m[1])


def orders(counts):
    """All interleavings of the scripts (strings)."""
    def rec(ss):
        if not any(ss):
            yield ""
        for i, s in enumerate(ss):
            if s:
                for t in rec([*ss[:i], s[1:], *ss[i + 1:]]):
                    yield s[0] + t
    return rec(list(counts))


def worker(a):
    exe, ra, jobs = a
    r = Runner(exe, ra)
    bad, n = [], 0
    for j in jobs:
        try:
            do(r, j)
        except (Broken, BrokenPipeError) as e:
            bad.append((repr(j)[:400], f"{e}"))
            r.drop()
            if len(bad) > 5:
                break
        n += 1
    r.drop()
    return n, r.transitions, bad, getattr(r, "blocked", 0)


def run(ck):
    exe = os.path.join(TARGET, "debug", "lsp-proxy")
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "lsp-proxy", "Cargo.toml"), "--bin", "lsp-proxy", "--target-dir", TARGET],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise MachineryError(p.stdout.decode()[-2000:])
    ra = os.path.join(WORK, "fake-ra")
    os.makedirs(ra, exist_ok=True)
    subprocess.run(["gcc", "-O1", "-o", os.path.join(ra, "rust-analyzer"), os.path.join(VERIF, "rust", "fake_ra.c")], check=True)
    ck.log("built")
    jobs = []
    T = ck.thorough
    # one stream, every cut
    short = [[("tiny", ""), ("uni", "")], [("tiny", "after"), ("req", "")], [("embed", ""), ("tiny", "before")], [("tiny", "lower"), ("embed2", ""), ("tiny", "")]]
    long_ = [[("hover", ""), ("tiny", "")], [("tiny", ""), ("inlay", "after"), ("tiny", "")], [("compl", "before"), ("hover", "")]]
    for who in ("editor", "server"):
        for ms in short:
            n = length(ms)
            jobs += [("cut", who, ms, (c,)) for c in range(n)]
            jobs += [("cut", who, ms, tuple(range(1, n)))]
            jobs += [("cut", who, ms, cs) for cs in itertools.combinations(range(1, n), 2) if T or (cs[0] + cs[1]) % 2 == 0 or cs[1] - cs[0] <= 3]
            if T:
                jobs += [("cut", who, ms, cs) for cs in itertools.combinations(range(1, n, 2), 3) if n < 130 and cs[2] - cs[0] < 40]
        for ms in long_:
            n = length(ms)
            jobs += [("cut", who, ms, (c,)) for c in range(n)]
            jobs += [("cut", who, ms, tuple(range(1, n)))]
            jobs += [("cut", who, ms, (a, a + 1)) for a in range(1, n)]
        for ms in itertools.product([("big", ""), ("tiny", "after"), ("hover", "")], repeat=3):
            n = length(ms)
            for step in (1 << 20, 65536, 8192, 4096, 1000):
                jobs.append(("cut", who, list(ms), tuple(range(step, n, step))))
            f0 = length(ms[:1])
            jobs += [("cut", who, list(ms), (f0 + o,)) for o in (-2, -1, 0, 1, 20)]
        jobs += [("cut", who, [("huge", ""), ("tiny", "")], (k,)) for k in (8191, 8192, 8193, 65535, 65536, 65537, 500000)]
    # both directions
    k = 5 if T else 4
    weaves = ["".join("e" if i in c else "r" for i in range(2 * k)) for c in itertools.combinations(range(2 * k), k)]
    for em, rm in [([("req", ""), ("tiny", "")], [("hover", ""), ("tiny", "")]), ([("uni", "after"), ("embed", "")], [("inlay", ""), ("req", "")]), ([("tiny", "")], [("hover", ""), ("compl", ""), ("big", ""), ("uni", "")])]:
        for w in weaves:
            jobs += [("weave", em, rm, w, True), ("weave", em, rm, w, False)]
    # lifecycles
    em, rm = [("req", ""), ("tiny", "")], [("hover", ""), ("tiny", "")]
    scripts = [("eeE", "rrR", "x"), ("eeE", "rr", "xX"), ("ee", "rrR", "xX"), ("eeE", "rrR", "X")] + ([("eeE", "rrR", "xX")] if T else [])
    for sc in scripts:
        for o in orders(sc):
            for wait in (True, False):
                for partial in (False, True):
                    jobs.append(("life", em, rm, o, wait, partial))
    for o in orders(("eeE", "rr", "D")):
        jobs.append(("life", em, rm, o, True, False))
    for k, n in (("huge", 5), ("hover", 6000), ("big", 40)):
        jobs.append(("press", n, k))
    for v, r_, u in itertools.product((None, "true", "1", "false", "0"), (None, "true", "1", "false"), (None, "true", "1")):
        env = {k: x for k, x in (("WHIPPYUNITS_VERBOSE", v), ("WHIPPYUNITS_INCLUDE_RAW", r_), ("WHIPPYUNITS_UNICODE", u)) if x is not None}
        jobs.append(("env", env, v in ("true", "1"), r_ in ("true", "1"), [(), ("--log-file", "a b"), ("-v", "é")][len(jobs) % 3]))
    # neighbouring jobs in different workers, so that the work is spread evenly
    with multiprocessing.Pool(8) as pool:
        rs = pool.map(worker, [(exe, ra, jobs[i::8]) for i in range(8)], 1)
    for _, _, bad, _ in rs:
        for k, w in bad:
            ck.violation(k, f"{k}: {w}")
    n, t = sum(r[0] for r in rs), sum(r[1] for r in rs)
    for j in (0, len(jobs) // 3, len(jobs) - 1):
        ck.sample(repr(jobs[j]))
    ck.finish(states=len(jobs), transitions=t, traces_validated_against_impl=n, schedules=n, lifecycles=sum(j[0] == "life" for j in jobs), cuts=sum(j[0] == "cut" for j in jobs),
              interleavings=sum(j[0] == "weave" for j in jobs), back_pressured=sum(r[3] for r in rs), exhaustive=True,
              explored="every schedule is executed on the real proxy process: all single and (thorough: all, quick: every other) double cuts of the short streams, all single and adjacent double cuts of the long ones, all interleavings of 4+4 (thorough 5+5) pieces of the two directions, stepwise and as bursts, all orders of the lifecycle events")


if __name__ == "__main__":
    main(run, "C13", "model_checking")
