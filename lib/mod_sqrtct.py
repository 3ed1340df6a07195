"""C32 at compile time: the inputs of the behaviour become constant expressions of a generated program."""
import math, os, shutil, subprocess, run
class REPLAYER(run.Replay):
    def run(self, lines, tag):
        d = os.path.join(run.BUILD, "ct-" + tag); os.makedirs(d, exist_ok=True)
        try:
            def lit(l):
                w = l.split(); f = float.fromhex
                return (f(w[1]) if w[0] == "sqrt" else math.ldexp(f(w[1]), int(f(w[2])))).hex() + "f"
            xs = [lit(l) for l in lines if not l.startswith("sqrt_special")]
            open(os.path.join(d, "ct_list.inc"), "w").write(", ".join(xs))
            open(os.path.join(d, "ct_calls.inc"), "w").write("\n".join("X(%s)" % x for x in xs))
            exe = os.path.join(d, "sqrt_ct")
            cmd = run.CXX + ["-I", os.path.join(run.REPO, "include"), "-I", run.HARN, "-I", d, "-O1",
                   os.path.join(run.HARN, "sqrt_ct.cpp"), "-o", exe]
            try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired: return [], 1, "compile-time evaluation does not end", True
            if r.returncode: return [], r.returncode, "not a constant expression: " + " ".join(l for l in r.stderr.splitlines() if "error" in l)[:400], False
            self.exe = exe
            return super().run(lines, tag)
        finally: shutil.rmtree(d, ignore_errors=True)
