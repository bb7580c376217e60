"""Running TLC on the specification."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = os.path.join(ROOT, "build", "classes")
SPEC = os.path.join(ROOT, "spec")


class TLCError(Exception):
    out = ""


def compile_overrides():
    srcs = sorted(glob.glob(os.path.join(ROOT, "java", "*.java")))
    outs = [os.path.join(CLASSES, os.path.basename(s)[:-5] + ".class") for s in srcs]
    if all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s) for s, o in zip(srcs, outs)):
        return
    os.makedirs(CLASSES, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(ROOT, "build"))
    subprocess.run(["javac", "-cp", TOOLS, "-d", tmp] + srcs, check=True)
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(CLASSES, f))
    shutil.rmtree(tmp)


def run(module, cfg=None, env=None, args=(), workers=8, timeout=800, heap="6g"):
    """Run TLC on spec/<module>.tla; returns (output, generated, distinct)."""
    compile_overrides()
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    try:
        cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", CLASSES + ":" + TOOLS,
               "-DTLA-Library=" + SPEC, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", cfg or os.path.join(SPEC, module + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        out = output(cmd, dict(os.environ, **(env or {})), timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dis = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return out, gen, dis


def output(cmd, env, timeout, grace=8):
    """What cmd prints.  TLC explains an evaluation error by evaluating again without sharing, which may
    take forever: once an error was reported, it has the grace time to finish."""
    p = subprocess.Popen(cmd, cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    late = threading.Timer(timeout, p.kill)
    late.start()
    soon, lines = None, []
    try:
        for x in p.stdout:
            lines.append(x)
            if x.startswith("Error:") and soon is None:
                soon = threading.Timer(grace, p.kill)
                soon.start()
        p.wait()
    finally:
        over = soon is None and not late.is_alive()
        late.cancel()
        if soon:
            soon.cancel()
        p.kill()
    if over:
        raise subprocess.TimeoutExpired(cmd, timeout)
    return "".join(lines)


def unquote(line, tag):
    """A line printed with PrintT(tag \\o ToJson(..)) as a Python value."""
    s = json.loads(line)             # the TLA+ string literal
    return json.loads(s[len(tag):])


def printed(out, tag):
    return [unquote(x, tag) for x in out.splitlines() if x.startswith('"' + tag)]


def error_text(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-2000:]


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r) + "\n")


def simulate(module, profile, num, seed, depth=60, timeout=300):
    """Behaviours of a generator specification: the values it prints with SCN."""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "profile.json")
        write_ndjson(path, [profile])
        out, _, _ = run(module, env={"PROFILE": path}, workers=1, timeout=timeout,
                        args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)])
    got = printed(out, "SCN ")
    if not got or "Error:" in out:
        raise TLCError("no scenarios from {}:\n{}".format(module, error_text(out)))
    return got


def registry(rows):
    """rows: [{id, m}] -> id -> free parameters, as the specification lists them."""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "trace.json")
        write_ndjson(path, rows)
        out, _, _ = run("Registry", env={"TRACE": path})
    regs = {x["id"]: (x["free"], x["consts"]) for x in printed(out, "REG ")}
    missing = [r["id"] for r in rows if r["id"] not in regs]
    if missing:
        raise TLCError("no registry for {}:\n{}".format(missing[:5], error_text(out)))
    return regs


def judge(rows, timeout=800, module="Trace", workers=8):
    """Replays recorded scenarios.  Returns (broken clauses, states, transitions)."""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "trace.json")
        write_ndjson(path, rows)
        out, gen, dis = run(module, env={"TRACE": path}, timeout=timeout, workers=workers)
    want = sum(len(r["ev"]) + 1 for r in rows)
    if dis != want:
        e = TLCError("{} states instead of {}\n{}".format(dis, want, error_text(out)))
        e.out = out
        raise e
    return printed(out, "BAD "), dis, gen


def stuck(out):
    """The scenario and the event (from 1) at which a run of Trace stopped."""
    i = re.findall(r"^/\\ i = (\d+)$", out, re.M)
    k = re.findall(r"^/\\ l = (\d+)$", out, re.M)
    return (int(i[-1]), int(k[-1]) + 1) if i and k else None


def enumerate_all(module, env=None, timeout=600, profile=None):
    """All scenarios a finite generator specification prints; (scenarios, states, transitions)."""
    with tempfile.TemporaryDirectory() as d:
        env = dict(env or {})
        if profile is not None:
            env["PROFILE"] = os.path.join(d, "profile.json")
            write_ndjson(env["PROFILE"], [profile])
        out, gen, dis = run(module, env=env, timeout=timeout)
    got = printed(out, "SCN ")
    if not got or "Error:" in out:
        raise TLCError("{}:\n{}".format(module, error_text(out)))
    return sorted(got, key=lambda x: json.dumps(x, sort_keys=True)), dis, gen


def explore(module, profile, timeout=600):
    """Exhaustive check of a specification's own invariants; (output, states, transitions)."""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "profile.json")
        write_ndjson(path, [profile])
        out, gen, dis = run(module, env={"PROFILE": path}, timeout=timeout)
    if "Error:" in out or "No error has been found" not in out:
        raise TLCError("{}:\n{}".format(module, error_text(out)))
    return out, dis, gen
