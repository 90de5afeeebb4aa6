"""C22: the fdsnsourceid tool and the descriptions of codes."""
import contextlib
import io
import json
import os
import re
import struct
import subprocess
import sys

import vlib
from vlib import drive, outcome
from rec3lib import cps
from g_sid import rand_codes, rates, UP, word

import simplemseed.fdsnsourceid as tool
from simplemseed import bandCodeDescribe, sourceCodeDescribe

ROW = re.compile(r"^\s*(Rate|Band|Source|Net|Sta|Loc|Subsource):(?: (.*))?$", re.S)


def published():
    with open(os.path.join(vlib.REPO, "src", "simplemseed", "sourcecode.json"), encoding="utf-8") as f:
        return {d["code"]: d["desc"] for d in json.load(f)}


def parse_rows(text, sids, full):
    """
    The rows of the tool's output.  sids: texts given, to recognise their line;
    full: whether a text after a source row is its full description.
    """
    pub = published()
    rows = []
    todo = list(sids)
    for line in text.split("\n"):
        m = ROW.match(line)
        if todo and line.strip() == todo[0].strip():
            rows.append(dict(k="sid", code=cps(line.lstrip(" ") if todo[0][:1] != " " else line[6:]), says="", full="", pub="", num=[]))
            todo.pop(0)
        elif m:
            k, v = m[1], m[2] or ""
            r = dict(k=k, says="", full="", pub="", num=[])
            if k in ("Rate", "Band", "Source"):
                p = (v + " ").split(" - ", 2 if k == "Rate" else 1)
                if k == "Rate":
                    r["num"] = list(struct.pack(">d", float(p.pop(0))))
                v = p[0].strip()
                r["says"] = p[1].strip() if len(p) > 1 else ""
            r["code"] = cps(v)
            if k == "Source":
                r["pub"] = " ".join(pub.get(v, "").split())
            rows.append(r)
        elif line.strip():
            if full and rows and rows[-1]["k"] == "Source":
                rows[-1]["full"] = (rows[-1]["full"] + " " + " ".join(line.split())).strip()
            else:
                raise ValueError("line not understood: " + line[:100])
    return rows


def run_tool(c):
    argv, sids, sub = c["argv"], c["sids"], c["sub"]
    e = dict(op="tool", asked=c["asked"], _argv=argv)

    def go():
        if sub:
            env = dict(os.environ, PYTHONPATH=os.path.join(vlib.REPO, "src"), PYTHONIOENCODING="utf-8", PYTHONWARNINGS="ignore")
            p = subprocess.run([sys.executable, "-m", tool.__name__] + argv, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=60)
            text, ok = p.stdout.decode("utf-8"), p.returncode == 0
        else:
            old, buf, ok = sys.argv, io.StringIO(), True
            sys.argv = ["fdsnsourceid"] + argv
            try:
                with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        ok = tool.main() in (None, 0)
                    except SystemExit as x:
                        ok = x.code in (None, 0)
                    except Exception as x:
                        ok = False
                        e["_err"] = repr(x)[:200]
            finally:
                sys.argv = old
            text = buf.getvalue()
        e["_text"] = text[:1000]
        return ("ok" if ok else "refused"), parse_rows(text, sids, True)
    v, err = outcome(go, secs=60)
    e["status"], e["rows"] = v if err is None else ("unreadable: " + err, [])
    return e


def run_describe(c):
    what, text = c
    f, g = (bandCodeDescribe, tool.bandCodeInfo) if what == "band" else (sourceCodeDescribe, tool.sourceCodeInfo)
    e = dict(op="describe", what=what, text=cps(text), _note=text)
    v, err = outcome(lambda: (f(text), g(text)["code"]))
    e["out"] = dict(k="refused", _err=err) if err is not None else dict(k="ok", says=v[0], info=cps(v[1]))
    return e


def make(rng, rs):
    """One command line and the requests it stands for, in the order of the tool."""
    asked, argv, sids = [], [], []
    kinds = rng.choice(["sid", "sid", "sid", "sid", "sps", "sps", "band", "source", "all", "mix", "mix"])
    if kinds in ("sps", "mix"):
        r = float(rng.choice(rs) or 0)
        argv += [f"--sps={r!r}"]
        asked.append(dict(k="sps", rate=list(struct.pack(">d", r))))
    if kinds == "all" or kinds == "mix" and rng.random() < 0.2:
        argv.append("--allbands")
        asked.append(dict(k="allbands"))
    if kinds == "band" or kinds == "mix" and rng.random() < 0.5:
        ts = ["".join(rng.choice("JFGDCESHBMLVUWRPTQIAO") for _ in range(rng.choice([1, 1, 2, 5]))) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.15:
            ts[rng.randrange(len(ts))] += rng.choice("KNXYZ19ab_")
        argv += [rng.choice(["-b", "--band"])] + ts
        asked += [dict(k="band", text=cps(t)) for t in ts]
    if kinds == "all" or kinds == "mix" and rng.random() < 0.2:
        argv.append("--allsources")
        asked.append(dict(k="allsources"))
    if kinds == "source" or kinds == "mix" and rng.random() < 0.5:
        ts = [rng.choice(UP) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.15:
            ts[rng.randrange(len(ts))] = rng.choice(["1", "h", "HH", "", "_"])
        argv += [rng.choice(["-s", "--source"])] + ts
        asked += [dict(k="source", text=cps(t)) for t in ts]
    if kinds == "sid" or kinds == "mix" and rng.random() < 0.6:
        for _ in range(rng.randint(1, 4)):
            cs = [x or "" for x in rand_codes(rng, rng.choice([1, 2, 3, 6, 6]))]
            if rng.random() < 0.5 and len(cs) == 6:
                cs[3], cs[4] = rng.choice("JFGDCESHBMLVUWRPTQIAOK" + "N"), rng.choice(UP)
            t = "FDSN:" + "_".join(cs)
            if rng.random() < 0.08:
                t = rng.choice(["CO", "fdsn:CO", "FDSN", "FDSN:A_B_C_D", "FDSN:A_B_C_D_E", "FDSN:A_B_C_D_E_F_G", "FDSN:______"])
            t = "".join(ch for ch in t if ch.isprintable() and ch != " " and ch != "-" or ch in "-")
            sids.append(t)
        argv = argv + ["--"] + sids if argv or rng.random() < 0.3 else sids
        asked += [dict(k="sid", text=cps(t)) for t in sids]
    return dict(argv=argv, asked=asked, sids=sids, sub=rng.random() < 0.04)


def check_C22(ctx):
    ctx.model_check("CodeTool_MC.tla", "CodeTool_MC.cfg")
    ctx.model_check("CodeTool_MC.tla", "CodeTool_Reach.cfg", expect_violation="NeverRefusedLate")
    rng = ctx.rng
    rs = [r for r in rates(ctx) if r is None or r == 0 or abs(r) > 1e-300]
    cases = [make(rng, rs) for _ in range(ctx.scale(1500, 15000))]
    # every band and source on its own, every level with each source and band
    for ch in "".join(chr(x) for x in range(33, 127)):
        cases.append(dict(argv=["--band=" + ch], asked=[dict(k="band", text=cps(ch))], sids=[], sub=False))
        cases.append(dict(argv=["--source=" + ch], asked=[dict(k="source", text=cps(ch))], sids=[], sub=False))
        for t in (f"FDSN:CO_A_00_{ch}_H_Z", f"FDSN:CO_A__B_{ch}_"):
            cases.append(dict(argv=[t], asked=[dict(k="sid", text=cps(t))], sids=[t], sub=False))
    # rates of nothing, and all of the table's bounds
    for r in (0.0, -0.0, 1.0, -1.0, 0.1, -10.0, 80.0, 5000.0, -1e6, 1e-7):
        for sub in (False, True):
            cases.append(dict(argv=[f"--sps={r!r}"], asked=[dict(k="sps", rate=list(struct.pack(">d", r)))], sids=[], sub=sub))
    for argv, asked in ((["--allbands"], ["allbands"]), (["--allsources"], ["allsources"]),
                        ([], []), (["--allsources", "--allbands"], ["allbands", "allsources"])):
        for sub in (False, True):
            cases.append(dict(argv=argv, asked=[dict(k=k) for k in asked], sids=[], sub=sub))
    ctx.judge("CodeTool_Trace.tla", drive(run_tool, cases))
    texts = [chr(x) for x in range(0, 256)] + ["", "BH", "H ", " H", "high", "\u0391", "HH"] + [word(rng, 0, 3) for _ in range(50)]
    ctx.judge("CodeTool_Trace.tla", drive(run_describe, [(w, t) for w in ("band", "source") for t in texts]))
    ctx.assumptions += ["identifiers given to the tool are printable text without blanks; what is printed of a request before it is refused is not judged beyond being right"]
