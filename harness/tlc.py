"""Running TLC."""
import os
import re
import subprocess

JAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")


class MachineryError(Exception):
    pass


def build():
    """Compile the Java overrides of RealArith (about a second)."""
    src = os.path.join(SPEC, "java", "RealArith.java")
    cls = os.path.join(BUILD, "RealArith.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(["javac", "-cp", JAR, "-d", BUILD, src],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stdout)


def start(module, cfg, scratch, env=None, workers=1, heap="2g"):
    """Start TLC on spec/<module>.tla with spec/<cfg>; returns a Popen."""
    meta = os.path.join(scratch, "meta-%s-%d" % (module, len(os.listdir(scratch))))
    os.makedirs(meta)
    out = open(os.path.join(meta, "stdout"), "w+")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    p = subprocess.Popen(
        ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC",
         "-XX:TieredStopAtLevel=" + ("1" if workers == 1 else "4"),
         "-Djava.io.tmpdir=" + meta,
         "-cp", ":".join([BUILD, JAR, COMM]),
         "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
         "-noGenerateSpecTE", "-config", cfg, module + ".tla"],
        cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT, text=True)
    p.outfile = out
    return p


def finish(p, timeout):
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise MachineryError("TLC timed out")
    p.outfile.seek(0)
    out = p.outfile.read()
    p.outfile.close()
    res = {"rc": p.returncode, "out": out}
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    if m:
        res["generated"], res["distinct"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        res["depth"] = int(m.group(1))
    res["ok"] = "Model checking completed. No error has been found" in out
    return res
