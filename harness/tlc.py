"""Running TLC: classpath, overrides, parsing of its output."""
import os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def build_java():
    """Compile the override of module Num (idempotent, safe when run concurrently)."""
    out = os.path.join(BUILD, "java")
    src = sorted(glob.glob(os.path.join(VERIF, "java", "taspec", "*.java")))
    stamp = os.path.join(out, "stamp")
    newest = max(os.path.getmtime(f) for f in src)
    if os.path.exists(stamp) and os.path.getmtime(stamp) >= newest:
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + src, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    open(os.path.join(tmp, "stamp"), "w").close()
    shutil.rmtree(out, ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:                      # somebody else was faster
        shutil.rmtree(tmp, ignore_errors=True)
    return out


class Run:
    """Result of one TLC run."""
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.prints = []
        buf = None
        for line in out.splitlines():
            if buf is None:
                if line.startswith("<<"):
                    buf = line
            else:
                buf += " " + line.strip()
            if buf is not None and buf.count("<<") <= buf.count(">>"):
                self.prints.append(parse_tuple(buf))
                buf = None
        self.violated = re.findall(r"Invariant (\S+) is violated|Action property (\S+) is violated", out)
        self.ok = rc == 0 and "No error has been found" in out


def parse_tuple(t):
    """Flat TLA+ tuple of strings, integers and booleans -> python list."""
    toks = re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)|(TRUE|FALSE)', t)
    r = []
    for s, i, b in toks:
        r.append(int(i) if i else (b == "TRUE") if b else s)
    return r


def run(module, cfg=None, env=None, workers=8, heap="12g", timeout=800, args=(), exact=False, library=None):
    cls = build_java()
    work = tempfile.mkdtemp(prefix="tlc_", dir=os.environ.get("TA_TMP") or None)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:taspec.Overrides",
           "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-Djava.io.tmpdir=" + work,
           "-cp", f"{cls}:{JARS}", "tlc2.TLC", "-workers", str(workers), "-checkpoint", "0",
           "-metadir", work, "-noGenerateSpecTE"]
    if exact:
        cmd.insert(1, "-Dtaspec.exact=true")
    if library:
        cmd.insert(1, "-DTLA-Library=" + library)
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError(f"TLC timed out on {module}: {(x.output or b'')[-2000:].decode(errors='replace')}")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return Run(p.stdout.decode(errors="replace"), p.returncode, time.time() - t)
