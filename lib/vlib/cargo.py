"""Building generated packages; compile errors are traced back to programs."""
import json, os, signal, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import common


class BuildTimeout(Exception):
    pass


class BuildError(Exception):
    def __init__(self, errors, text):
        self.errors, self.text = errors, text
        super().__init__(text[-4000:])


def spans_of(msg, acc):
    def span(s):
        acc.append((s.get("file_name", ""), s.get("line_start", 0), s.get("line_end", 0)))
        e = s.get("expansion")
        if e and e.get("span"):
            span(e["span"])
    for s in msg.get("spans", []):
        span(s)
    for c in msg.get("children", []):
        spans_of(c, acc)
    return acc


def build(dir, target, release=False, timeout=600, args=(), bare=False):
    """Returns the directory of the binaries. Raises BuildError with (message, spans) for every error."""
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--keep-going"] + (["--release"] if release else ["--profile", "bare"] if bare else []) + list(args)
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTFLAGS="-Awarnings --cap-lints=warn")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    q = subprocess.Popen(cmd, cwd=dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True)
    try:
        stdout, stderr = q.communicate(timeout=timeout)
        p = subprocess.CompletedProcess(cmd, q.returncode, stdout, stderr)
    except subprocess.TimeoutExpired:
        os.killpg(q.pid, signal.SIGKILL)    # cargo and its compilers
        q.communicate()
        raise BuildTimeout("cargo build did not finish in %d s in %s" % (timeout, dir))
    if p.returncode == 0:
        return os.path.join(target, "release" if release else "bare" if bare else "debug")
    errors = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"].get("level", "").startswith("error"):
            errors.append((m["message"]["message"], spans_of(m["message"], []), m["message"].get("rendered") or "",
                           m.get("target", {}).get("name"), m.get("package_id", "")))
    raise BuildError(errors, p.stderr + "\n".join(e[2] for e in errors))


class Twin:
    """The same package built once more, in the background, as without debug assertions; for `lines` recorded
    by the first build, `differing` gives those the second records otherwise."""

    def __init__(self, out, dir, target):
        self.out = out
        pool = ThreadPoolExecutor(1)
        self.bindir = pool.submit(build, dir, target + "-bare", bare=True)
        pool.shutdown(wait=False)

    def differing(self, lines, record):
        try:
            bindir = self.bindir.result()
        except BuildTimeout as e:
            raise common.ToolError(str(e))
        except BuildError as e:
            self.out.violation({"kind": "rejected", "rules": ["compile"], "error": str(e)[:3000],
                                "text": "what compiles with debug assertions does not compile without: " + (e.errors or [["?"]])[0][0][:300]})
            return []
        again = record(bindir)
        if len(again) != len(lines) and not self.out.violations:
            raise common.ToolError("%d sessions recorded without debug assertions, %d with" % (len(again), len(lines)))
        key = lambda x: x if isinstance(x, str) else json.dumps(x, sort_keys=True)
        known = set(map(key, lines))
        new = [x for x in again if key(x) not in known]
        n = self.out.notes.setdefault("without_debug_assertions", {"sessions": 0, "differing": 0})
        n["sessions"] += len(again)
        n["differing"] += len(new)
        common.say("recorded", len(again), "again without debug assertions,", len(new), "of them differ")
        return new


def run(exe, stdin="", env=None, timeout=400):
    """Recording takes seconds; a program that is still running after this long has hung, which is a verdict."""
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        return subprocess.run([exe], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired as x:
        text = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else b or ""
        return subprocess.CompletedProcess([exe], -9, text(x.stdout), "it did not finish in %d s" % timeout)
