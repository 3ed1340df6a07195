"""Read the spectral tables out of a source tree (used once, to write spec/tables.qnt from the pinned commit)."""
import re, sys
def tables(path):
    s = open(path).read()
    out = {}
    for m in re.finditer(r'static constexpr Spectrum (\w+)\(\{(.*?)\}\);', s, re.S):
        out[m.group(1)] = [x.strip().rstrip('f') for x in m.group(2).split(',') if x.strip()]
    return out
if __name__ == "__main__":
    t = tables(sys.argv[1])
    print(len(t), {k: len(v) for k, v in t.items() if len(v) != 400})
