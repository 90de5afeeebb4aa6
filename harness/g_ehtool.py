"""C12, C13: editing extra headers in files with mseed3details."""
import contextlib
import io
import json
import os
import resource
import shutil
import signal
import struct
import sys
import threading

import vlib
from vlib import drive, outcome
from rec3lib import *
from g_rec3 import rand_regex

import simplemseed.mseed3details as details

BYSTANDERS = ["{0}~", "{0}.bak", "{0}_tmp", "{0}.tmp", "{0}.new", "{0}.old", "other.ms3", ".{0}.swp", "tmp", "{0}.orig"]


# ---------------------------------------------------------------- JSON and records
def ast(x):
    """JSON value as the specification has it."""
    if isinstance(x, dict):
        return dict(t="obj", m=[[cps(k), ast(v)] for k, v in x.items()])
    if isinstance(x, list):
        return dict(t="arr", m=[ast(v) for v in x])
    if isinstance(x, str):
        return dict(t="str", v=cps(x))
    return dict(t="lit", v=cps(json.dumps(x)))


BADEH = dict(t="bad", v=[])


def eh_asts(b):
    """Extra headers of the records of a file, up to the first damage."""
    out = []
    while len(b) >= 40 and b[:3] == b"MS\x03":
        nid, neh, nda = b[33], b[34] + 256 * b[35], struct.unpack_from("<I", b, 36)[0]
        eh = b[40 + nid:40 + nid + neh]
        v, err = outcome(lambda: ast(json.loads(eh.decode("utf-8"))) if eh.strip() else ast({}))
        out.append(v if err is None else BADEH)
        b = b[40 + nid + neh + nda:]
    return out + [BADEH] * (1 if b else 0)


IDS = ["FDSN:CO_BIRD_00_H_H_Z", "FDSN:CO_BIRD_00_H_H_N", "FDSN:CO_JSC_00_H_H_Z", "FDSN:XX_ABC__L_O_G", "FDSN:CO_HODGE_00_B_H_Z"]


def make_record(rng, ident, eh, style=None):
    enc = rng.choice([3, 3, 1, 4, 5, 10, 19, 0, 100])
    n = rng.choice([0, 1, 2, 5])
    if enc in (1, 3, 4, 5):
        payload = bytes(rng.getrandbits(8) for _ in range(n * {1: 2, 3: 4, 4: 4, 5: 8}[enc]))
    elif enc == 10:
        n, payload = 1, struct.pack(">I", 0x00C00000) + struct.pack(">iiI", 7, 7, 7) + bytes(48)
    else:
        payload = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 3, 64])))
    f = dict(flags=rng.choice([0, 1, 255]), nanosecond=rng.randrange(10 ** 9), year=rng.randint(1900, 2100),
             dayOfYear=rng.randint(1, 365), hour=rng.randint(0, 23), minute=rng.randint(0, 59), second=rng.randint(0, 60),
             encoding=enc, rate=list(struct.pack("<d", rng.choice([100.0, -10.0, 0.0, 20.0, 0.1]))), numSamples=n,
             publicationVersion=rng.choice([0, 1, 255]))
    if eh is None:
        ehb = b""
    else:
        kw = rng.choice([dict(), dict(separators=(",", ":")), dict(ensure_ascii=False), dict(indent=1)])
        ehb = (eh if isinstance(eh, str) else json.dumps(eh, **kw)).encode("utf-8", "surrogatepass")
    return lay(f, ident.encode("utf-8"), ehb, payload)


# ---------------------------------------------------------------- scenarios
# a scenario: files (list of bytes), ptr, value, all, filter ast, regex, fset, badjson, toobig

def leaf(rng):
    return rng.choice([None, True, False, 0, 1, -5, 2 ** 53, 1.5, 0.1, 1e300, "", "a", "é€😀", "line\nbreak", "/~", {}, [],
                       [1, 2], {"b": 1}])


def doc(rng, depth=3):
    d = {}
    for k in rng.sample(["a", "b", "c", "FDSN", "a/b", "m~n", "", "0", "é", "~1", "-"], rng.randint(1, 5)):
        r = rng.random()
        if depth and r < 0.35:
            d[k] = doc(rng, depth - 1)
        elif depth and r < 0.55:
            d[k] = [doc(rng, depth - 1) if rng.random() < 0.4 else leaf(rng) for _ in range(rng.randint(0, 4))]
        else:
            d[k] = leaf(rng)
    return d


def esc(k):
    return str(k).replace("~", "~0").replace("/", "~1")


def pointer_into(rng, d):
    """A pointer to somewhere in, just beside, or well off d."""
    p, x = [], d
    while True:
        if isinstance(x, dict) and x and (rng.random() < 0.75 or not p):
            k = rng.choice(list(x))
            p.append(k)
            x = x[k]
        elif isinstance(x, list) and x and rng.random() < 0.75:
            k = rng.randrange(len(x))
            p.append(k)
            x = x[k]
        else:
            break
    r = rng.random()
    if r < 0.2:
        p.append(rng.choice(["new", "é", "n/m", "0", "1", "-", "x~y"]))
    elif r < 0.3:
        p += ["no", "where"]
    elif r < 0.4 and p:
        p[-1] = rng.choice(["added", "0", "1", "01", "-", "~", "5"])
    return "".join("/" + esc(k) for k in p)


def rich(rng, nfiles=None):
    s = dict(all=rng.random() < 0.5, fset=rng.random() < 0.3, badjson=0, toobig=0, files=[])
    ids = rng.sample(IDS, rng.randint(1, 4))
    docs = [doc(rng) for _ in range(3)]
    for _ in range(nfiles or rng.choice([1, 1, 1, 2, 3])):
        recs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            r = rng.random()
            eh = None if r < 0.12 else {} if r < 0.2 else docs[0] if r < 0.6 else rng.choice(docs) if r < 0.9 else doc(rng)
            recs.append(make_record(rng, rng.choice(ids), eh))
        s["files"].append(b"".join(recs))
    r = rng.random()
    if r < 0.35:
        s["filter"], s["regex"] = dict(t="none"), None
    elif r < 0.7:
        w = rng.choice(["BIRD", "H_Z", "JSC", "^FDSN:CO", "CO_BIRD_00_H_H_Z", "L_O_G$", "nothing"])
        k = [dict(t="bos") if ch == "^" else dict(t="eos") if ch == "$" else dict(t="lit", c=ord(ch)) for ch in w]
        s["filter"], s["regex"] = dict(t="cat", k=k), w
    else:
        s["filter"], s["regex"] = rand_regex(rng, [i for i in ids])
    r = rng.random()
    s["ptr"] = "" if r < 0.08 else "/" if r < 0.15 else rng.choice(["a", "a/b", "/~", "/~2", "/a~", "#/a", "//"]) if r < 0.22 \
        else pointer_into(rng, docs[0])
    s["value"] = doc(rng, 2) if rng.random() < 0.5 else leaf(rng)
    s["text"] = json.dumps(s["value"], ensure_ascii=rng.random() < 0.5)
    r = rng.random()
    if r < 0.05:
        s["badjson"] = 1
        s["text"] = rng.choice(["{", "", "nothing", "{'a': 1}", '{"a": 1', "[1,]", '"a', "1 2"])
    elif r < 0.09:
        s["toobig"] = 1
        s["value"] = "toobig"
        s["text"] = json.dumps({"big": "x" * 66000} if s["ptr"] in ("", "/") else "x" * 66000)
        if s["ptr"] in ("", "/"):
            s["value"] = {"big": "x"}
    if rng.random() < 0.08:
        i = rng.randrange(len(s["files"]))
        s["files"][i] = damage(rng, s["files"][i])
    s["names"] = file_names(rng, len(s["files"]))
    return s


def damage(rng, b):
    if not b:
        return rng.choice([b"MS\x03", b"\0" * 60, b"XX\x03" + b"\0" * 50])
    r = rng.random()
    if r < 0.5:
        i = rng.randrange(len(b))
        return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]
    if r < 0.8:
        return b[:-rng.choice([1, 2, 40]) or 1]
    return b + rng.choice([b"M", b"MS\x03", b"\0" * 40, b"\0" * 100, b[:39]])


def from_machine(rng, g):
    """A scenario like a beginning of the edit machine."""
    s = dict(all=g["all"], fset=rng.random() < 0.3, badjson=0, toobig=0, files=[])
    s["filter"], s["regex"] = dict(t="cat", k=[dict(t="lit", c=ord(c)) for c in "BIRD"]), "BIRD"
    s["ptr"], s["value"] = "/FDSN/x", rng.choice([5, "v", {"k": [1]}, None])
    s["text"] = json.dumps(s["value"])
    for recs in g["files"]:
        out = []
        for r in recs:
            eh = rng.choice([{"o": 1}, {"FDSN": 7}, {"FDSN": "s"}, None]) if r["stuck"] else \
                rng.choice([{"FDSN": {}}, {"FDSN": {"x": 1, "y": 2}, "z": [1]}])
            b = make_record(rng, IDS[0] if r["sel"] else IDS[2], eh)
            if r["bad"]:
                # in the checksum, or what it covers after the identifier
                i = rng.choice([28, 29, 30, 31, 5, len(b) - 1])
                b = b[:i] + bytes([b[i] ^ 1]) + b[i + 1:]
            out.append(b)
        s["files"].append(b"".join(out))
    s["names"] = file_names(rng, max(1, len(s["files"])))
    return s


def argv_of(s, names, valfile):
    mode = ("f" if s["fset"] else "") + ("setall" if s["all"] else "set")
    a = ["mseed3details"] + (["-v"] if s.get("verbose") else [])
    if s["regex"] is not None:
        a.append("--match=" + s["regex"])
    a += ["--" + mode, s["ptr"], valfile if s["fset"] else s["text"]]
    return a + ["--"] * s.get("dash", 0) + names


def event(op, s):
    return dict(op=op, files=[dict(bytes=list(b), ehs=eh_asts(b)) for b in s["files"]], filter=s["filter"],
                all=1 if s["all"] else 0, ptr=cps(s["ptr"]), value=ast(s["value"]), badjson=s["badjson"], toobig=s["toobig"],
                _argv=argv_of(s, ["FILE"], "VALUE")[:6])


NAMES = ["f0.ms3", "b.ms3", "a.ms3", "z", "10.ms3", "9.ms3", "with space.ms3", "\u00e9.ms3", "-x.ms3", "A.ms3", ".hidden", "a.ms3.1",
         "sub/f0.ms3", "sub/a.ms3", "later/f0.ms3", "%s{}.ms3"]


def file_names(rng, n):
    return rng.sample(NAMES, n)


def lay_out(d, s):
    """Files of a scenario in a new directory -> names, others with content, value file."""
    os.makedirs(d)
    names, others = [], {}
    for i, b in enumerate(s["files"]):
        fn = os.path.join(d, s["names"][i])
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "wb") as fp:
            fp.write(b)
        names.append(fn)
    for p in BYSTANDERS:
        fn = os.path.join(d, p.format(s["names"][0] if s["files"] else "f0.ms3"))
        if fn in names:
            continue
        others[fn] = f"keep {p}".encode()
    val = os.path.join(d, "value.json")
    others[val] = s["text"].encode("utf-8")
    for fn, b in others.items():
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "wb") as fp:
            fp.write(b)
    return names, others, val


def slurp(fn):
    try:
        with open(fn, "rb") as fp:
            return fp.read()
    except OSError:
        return None


def run_tool(argv):
    old = sys.argv
    sys.argv = argv
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            try:
                r = details.main()
            except SystemExit as e:
                r = e.code
            if r not in (None, 0, False):
                raise RuntimeError("exit status")
    finally:
        sys.argv = old


def content(b):
    return dict(missing=0, bytes=list(b), ehs=eh_asts(b)) if b is not None else dict(missing=1, bytes=[], ehs=[])


# ---------------------------------------------------------------- C12
def run_edits(c):
    """A sequence of edits on the same files."""
    d = c["dir"]
    evs = []
    files = None
    for k, s in enumerate(c["edits"]):
        sub = os.path.join(d, str(k))
        if files is not None:
            s = dict(s, files=files)
        names, others, val = lay_out(sub, s)
        e = event("edit", s)
        _, err = outcome(lambda: run_tool(argv_of(s, names, val)))
        files = [slurp(fn) for fn in names]
        e["out"] = dict(k="ok" if err is None else err, files=[content(b) for b in files],
                        others=1 if all(slurp(fn) == b for fn, b in others.items()) else 0)
        evs.append(e)
        shutil.rmtree(sub)
        if any(b is None for b in files):
            break
    shutil.rmtree(d, ignore_errors=True)
    return evs



def check_C12(ctx):
    ctx.model_check("Json_MC.tla", "Json_MC.cfg")
    ctx.model_check("EhEdit.tla", "EhEdit_MC.cfg")
    ctx.model_check("EhEdit.tla", "EhEdit_Reach.cfg", expect_violation="Unreached")
    ctx.model_check("EhEdit.tla", "EhEdit_Filtered.cfg", expect_violation="OldOrNew")
    rng = ctx.rng
    gen = ctx.generate("EhEdit_Gen.tla", "EhEdit_Gen.cfg", exhaustive=True)
    cases = []
    for g in rng.sample(gen, min(len(gen), ctx.scale(700, 6000))):
        cases.append([from_machine(rng, g)])
    for _ in range(ctx.scale(900, 9000)):
        first = rich(rng)
        edits = [first]
        for _ in range(rng.choice([0, 0, 1, 2])):
            s = rich(rng, nfiles=len(first["files"]))
            edits.append(dict(s, ptr=rng.choice([s["ptr"], first["ptr"], "/" + esc(rng.choice(["a", "b", "FDSN"]))]) if not s["toobig"]
                              else s["ptr"]))
        for s in edits:
            s["verbose"] = rng.random() < 0.2
        cases.append(edits)
    cases = [dict(edits=x, dir=ctx.path(f"e{i}")) for i, x in enumerate(cases)]
    evs = [e for r in drive(run_edits, cases) for e in r]
    ctx.judge("EhTool_Trace.tla", evs)
    ctx.assumptions += ["extra headers and values without duplicate keys, NaN or infinities",
                        "an edit that appends to an array (RFC 6901 '-', or an index just past the end) may be done or refused",
                        "no record matching the filter: may be reported as success or failure, files unchanged"]


# ---------------------------------------------------------------- C13
QUIET = ("argparse", "re", "json", "gettext", "locale", "encodings", "contextlib", "importlib", "copy", "threading", "enum")


class Stop(BaseException):
    pass


class Watch:
    """Looks at the files at every traced step, and stops the run at one of them."""

    def __init__(self, names, at=None, how=None, look=True):
        self.names, self.at, self.how, self.look = names, at, how, look
        self.n = 0
        self.seen = [[] for _ in names]
        self.store = {}
        self.audit = 0
        self.on = False
        self.busy = False

    def see(self):
        for i, fn in enumerate(self.names):
            b = slurp(fn)
            k = self.store.setdefault(b, len(self.store))
            if not self.seen[i] or self.seen[i][-1] != k:
                self.seen[i].append(k)

    def step(self):
        self.on = False
        self.n += 1
        if self.look:
            self.busy = True
            self.see()
            self.busy = False
        stop = self.at is not None and self.n == self.at
        self.on = not stop
        if stop:
            sys.settrace(None)
            sys.setprofile(None)
            if self.how == "kill":
                os._exit(9)
            raise (KeyboardInterrupt if self.how == "interrupt" else MemoryError)()

    def trace(self, frame, ev, arg):
        if not self.on:
            return None
        mod = frame.f_globals.get("__name__", "")
        if mod.split(".")[0] in QUIET or mod in ("vlib", "g_ehtool"):
            return None
        if ev in ("line", "return"):
            self.step()
        return self.trace

    def prof(self, frame, ev, arg):
        # before and after every call of a built in function
        if self.on and ev in ("c_call", "c_return"):
            mod = frame.f_globals.get("__name__", "")
            if mod.split(".")[0] not in QUIET and mod not in ("vlib", "g_ehtool"):
                self.step()

    def start(self):
        self.on = True
        sys.setprofile(self.prof if self.how != "interrupt" else None)
        sys.settrace(self.trace)

    def stop(self):
        sys.settrace(None)
        sys.setprofile(None)
        self.on = False


AUDIT = None
FILEOPS = ("open", "os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.utime", "shutil.")


def auditor(ev, args):
    if AUDIT is None or not ev.startswith(FILEOPS):
        return
    w, k = AUDIT
    p = str(args[0]) if args else ""
    if not any(os.path.dirname(n) == os.path.dirname(p) for n in w.names):
        return
    if w.busy or not w.on and w.at != "audit":
        return
    w.audit += 1
    if w.audit == k:
        raise OSError(5, "injected")


def child(s, d, how, k):
    """
    One run of the tool in a process of its own, stopped or failing at k.
    -> dict(end, n, seen by contents, final)
    """
    global AUDIT
    names, others, val = lay_out(d, s)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            watch = Watch(names, at=k if how in ("kill", "interrupt") else None, how=how, look=how in ("watch", "io"))
            if how == "full":
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                # the pipe is no file, so not limited
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
            if how == "io":
                watch.at = "audit"
                AUDIT = (watch, k)
                sys.addaudithook(auditor)
            argv = argv_of(s, names, val)
            end = "ok"
            try:
                if how in ("watch", "kill", "interrupt", "io"):
                    watch.start()
                run_tool(argv)
            except BaseException:
                end = "failed"
            watch.stop()
            AUDIT = None
            if how in ("watch", "io"):
                watch.see()
            store = {v: kk for kk, v in watch.store.items()}
            body = json.dumps(dict(end=end, n=watch.n, audit=watch.audit,
                                   seen=[[None if store[i] is None else list(store[i]) for i in x] for x in watch.seen])).encode()
            at = 0
            while at < len(body):
                at += os.write(w, body[at:])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    got = b""
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        got += part
    os.close(r)
    os.waitpid(pid, 0)
    out = json.loads(got) if got else dict(end="stopped", n=0, audit=0, seen=[[] for _ in names])
    final = [slurp(fn) for fn in names]
    seen = [[None if b is None else bytes(b) for b in x] for x in out["seen"]]
    for i, b in enumerate(final):
        seen[i].append(b)
    res = dict(end=out["end"], n=out["n"], audit=out["audit"], seen=seen, total=sum(os.path.getsize(os.path.join(d, f)) for f in os.listdir(d)),
               kept=1 if all(slurp(fn) == b for fn, b in others.items()) else 0)
    shutil.rmtree(d)
    return res


def run_crash(c):
    s, rng = c["s"], vlib.random.Random(c["seed"])
    runs = []

    def go(how, k):
        r = child(s, c["dir"], how, k)
        r["_how"] = [how, k]
        runs.append(r)
        return r
    w = go("watch", 0)
    for how, n in (("kill", c["kills"]), ("interrupt", c["ints"])):
        # interruption counts only lines, far fewer
        top = w["n"] if how == "kill" else max(1, w["n"] // 2)
        pts = sorted(rng.sample(range(1, top + 1), min(n, top)))
        for k in pts:
            go(how, k)
    big = max([len(b) for b in s["files"]] + [10]) + 200
    for k in sorted(set([0, 1, big - 1] + [rng.randrange(big) for _ in range(c["fulls"])])):
        go("full", k)
    k = 1
    while True:
        r = go("io", k)
        if r["audit"] < k or k > 40:
            break
        k += 1
    e = event("crash", s)
    contents = [[] for _ in s["files"]]
    erun = {}
    for r in runs:
        seen = []
        for i, x in enumerate(r["seen"]):
            y = []
            for b in x:
                if b not in contents[i]:
                    contents[i].append(b)
                j = contents[i].index(b) + 1
                if not y or y[-1] != j:
                    y.append(j)
            seen.append(y)
        er = dict(seen=seen, end=r["end"], kept=r["kept"])
        erun.setdefault(json.dumps(er), (er, []))[1].append(r["_how"])
    e["contents"] = [[content(b) for b in x] for x in contents]
    e["runs"] = [er for er, _ in erun.values()]
    e["_how"] = [h[:5] for _, h in erun.values()]
    e["_nruns"] = len(runs)
    return e


def check_C13(ctx):
    ctx.model_check("EhEdit.tla", "EhEdit_MC.cfg")
    for cfg in ("EhEdit_InPlace.cfg", "EhEdit_Early.cfg"):
        ctx.model_check("EhEdit.tla", cfg, expect_violation="OldOrNew")
    rng = ctx.rng
    gen = ctx.generate("EhEdit_Gen.tla", "EhEdit_Gen.cfg", exhaustive=True)
    good = [g for g in gen if not any(r["bad"] or r["stuck"] for f in g["files"] for r in f)
            and sum(r["sel"] for f in g["files"] for r in f) >= 1]
    scen = [from_machine(rng, g) for g in rng.sample(good, min(len(good), ctx.scale(20, 72)))]
    scen += [from_machine(rng, g) for g in rng.sample(gen, ctx.scale(25, 200))]
    while len(scen) < ctx.scale(75, 500):
        s = rich(rng)
        if s["files"]:
            scen.append(s)
    # larger files, written in several pieces
    for i in range(ctx.scale(3, 12)):
        s = from_machine(rng, dict(all=True, files=[]))
        n = rng.choice([3, 4])
        f = []
        for j in range(n):
            b = make_record(rng, IDS[j % 2], {"FDSN": {"pad": "p" * 4000, "j": j}})
            f.append(b)
        s["files"] = [b"".join(f)]
        scen.append(s)
    cases = [dict(s=s, dir=ctx.path(f"c{i}"), seed=rng.random(), kills=ctx.scale(12, 40), ints=ctx.scale(14, 60),
                  fulls=ctx.scale(6, 30)) for i, s in enumerate(scen)]
    evs = drive(run_crash, cases)
    ctx.counts["runs of the tool"] = sum(e["_nruns"] for e in evs)
    ctx.judge("EhTool_Trace.tla", evs)
    ctx.assumptions += ["a killed process leaves what the operating system was given; power failure is not considered",
                        "observed before and after every line and built in call of the tool, also after a file operation failed"]
