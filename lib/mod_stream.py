"""Encoding and comparison for spec/stream.qnt (integers and byte strings)."""
import sys, run
sys.set_int_max_str_digits(0)
def GENERATE(spec, main, steps, seed, invs, init="init", step="step"):
    st = run.generate(spec, main, steps, seed, invs, init=init, step=step, whole=True)
    out = []
    for s in st:
        e = s["ev"]
        out.append(dict(op=e["op"], a=e["a"], e=e["e"], t=[], n=s["bufn"], v=s["bufv"], p=s["ptr"],
                        rb=s["rbig"], wb=s["wbig"]))
    return out
def hx(v, n):
    return "x" + v.to_bytes(n, "little").hex()
def ENC(ev):
    op, a = ev["op"], ev["a"]
    if op in ("new", "reinit"): return op + " " + hx(a[1], a[0])
    if op in ("write", "pstr"): return "%s %d %s" % (op, a[0], hx(a[1], a[0]))
    if op in ("writeat", "psub"): return "%s %d %s %d" % (op, a[0], hx(a[1], a[0]), a[2])
    return " ".join([op] + [str(x) for x in a])
def exp(ev):
    op, e = ev["op"], ev["e"]
    if op in ("read", "readat", "gstr", "gsub"): r = "%d %s " % (e[0], hx(e[1], e[0]))
    else: r = "".join("%d " % x for x in e)
    n, v = ev["n"], ev["v"]
    r += "| %d %d %d %d " % (ev["p"], ev["p"], 1 if ev["p"] >= n else 0, n)
    b = v.to_bytes((v.bit_length() + 7) // 8, "little")
    return r + "".join("%d:%d " % (i, x) for i, x in enumerate(b) if x)
RAW = True
def LINE(ev): return ENC(ev) + "\t" + exp(ev)      # the harness stops at the first difference
def CMP(ev, r, stats):
    w = exp(ev)
    if r == w: return None
    return "got [%s] expected [%s]" % (r[:300], w[:300])
