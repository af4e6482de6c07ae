"""Client side of simjom: runs scenarios, wraps replies."""
import base64, json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "sim"))

def build(flavour="plain"):
    r = subprocess.run([sys.executable, os.path.join(VERIF, "sim", "build.py"), flavour],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        sys.stderr.write(r.stderr.decode("utf-8", "replace")[-3000:])
        raise SystemExit(3)
    return r.stdout.decode().strip().splitlines()[-1]

class Reply:
    def __init__(self, raw):
        d = json.loads(raw)
        self.sig = d["sig"]
        self.exit = d["exit"]
        self.out = base64.b64decode(d["out"])
        self.err = base64.b64decode(d["err"])
        i = self.err.find(b"QT_HASH_SEED: forced seed")      # Qt's own remark about the seed we force
        if i >= 0:
            j = self.err.find(b"stable value.", i)
            j = j + 13 if j >= 0 else len(self.err)
            if self.err[j:j + 1] == b"\n":
                j += 1
            self.err = self.err[:i] + self.err[j:]
        self.events = d["events"]
        if i >= 0:
            cut = j - i
            for e in self.events:
                if e.get("e") == "o" and e["s"] == 2:
                    e["n"] -= min(cut, max(0, e["n"] - i))
        self.end = next((e for e in reversed(self.events) if e.get("e") == "end"), None)
        self.status = self.end["status"] if self.end else "crash"
        self.code = self.end["code"] if self.end else None
        self.fs = self.end["fs"] if self.end else {}
        self.running = self.end["running"] if self.end else []
    def crashed(self):
        if self.end is None or self.sig or self.exit:
            return "jom crashed: signal %s, exit %s, stderr %r" % (self.sig, self.exit, self.err[-600:].decode("utf-8", "replace"))
        return None
    def broken(self):
        """crash, deadlock or endless run"""
        c = self.crashed()
        if c:
            return c
        if self.status != "exit":
            return "jom does not terminate (%s); processes still running: %s" % (self.status, self.running)
        return None
    def text(self):
        return self.out.decode("utf-8", "replace")
    def etext(self):
        return self.err.decode("utf-8", "replace")
    def starts(self):
        return [e for e in self.events if e["e"] == "start"]
    def subs(self):
        return [e for e in self.events if e["e"] == "sub"]
    def file(self, path):
        """(time, bytes) of a file given by absolute path with / separators; case-insensitive; or None"""
        for k, v in self.fs.items():
            if k.lower() == path.lower():
                return v[0], base64.b64decode(v[1])
        return None
    def files_list(self):
        return [{"p": k, "t": v[0], "b": v[1]} for k, v in sorted(self.fs.items())]

class Sim:
    def __init__(self, binary):
        self.binary = binary
        self.p = None
        self.n = 0
    def _start(self):
        env = {"PATH": "/usr/bin:/bin", "HOME": "/tmp", "LANG": "C.UTF-8",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
               "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:abort_on_error=1"}
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
    def raw(self, scenario):
        if self.p is None or self.p.poll() is not None:
            self._start()
        self.p.stdin.write(json.dumps(scenario).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("simjom server died")
        self.n += 1
        return line
    def run(self, scenario):
        return Reply(self.raw(scenario))
    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None
