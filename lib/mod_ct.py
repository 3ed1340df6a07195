"""C33: the calls of a behaviour become constant expressions of a generated program."""
import os, re, shutil, subprocess, run
CIRC = {"to_hsv": {0: 360}}
OPS = set(re.findall(r"(?:OP|ONE|TWO)\((\w+)", open(os.path.join(run.HARN, "ct.cpp")).read())) - {"n"}
def TRANSFORM(events, main):
    # a table of one sample has no interval to interpolate in: not offered at compile time (0 / 0)
    cut = {"from_cct": 3, "from_cct_default": 3}
    return [dict(op=e["op"], a=e["a"], e=e["e"][:cut.get(e["op"])], t=e["t"][:cut.get(e["op"])]) for e in events if e["op"] in OPS and len(e["a"]) <= 31 and (e["op"] != "fetch" or len(e["a"]) > 4)]
class REPLAYER(run.Replay):
    def run(self, lines, tag):
        d = os.path.join(run.BUILD, "ct-" + tag); os.makedirs(d, exist_ok=True)
        try:
            with open(os.path.join(d, "ct_calls.inc"), "w") as f:
                for l in lines:
                    w = l.split()
                    a = [("-" if x[0] == "-" else "") + "HUGE_VALF" if abs(float.fromhex(x)) >= 2.0**128 else x + "f" for x in w[1:]]
                    if w[0] == "fetch": a.insert(3, "%d" % (len(a) - 3))
                    f.write("CT(%s, %s)\n" % (w[0], ", ".join(a)))
            exe = os.path.join(d, "ct")
            cmd = run.CXX + ["-fconstexpr-depth=4096", "-I", os.path.join(run.REPO, "include"), "-I", run.HARN, "-I", d, "-O1",
                   "-fmax-errors=20", os.path.join(run.HARN, "ct.cpp"), "-o", exe]
            try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: return [], 1, "compile-time evaluation does not end", True
            if r.returncode:
                m = re.search(r"ct_calls\.inc:(\d+):", r.stderr)
                err = " / ".join(l.split("error:")[1].strip() for l in r.stderr.splitlines() if "error:" in l)[:300]
                k = int(m.group(1)) - 1 if m else 0
                return [[float("nan")]] * 0 if not m else self.prefix(lines, k), 1, "not a constant expression: " + err, False
            self.exe = exe
            return super().run(lines, tag)
        finally: shutil.rmtree(d, ignore_errors=True)
    def prefix(self, lines, k):
        self.skip = k
        return [None] * k
def CMP(ev, r, st):
    return None if r is None else run.cmp_default(ev, r, st, CIRC)
