"""Write spec/tables.qnt: the published spectral tables, one packed integer per
table (56-bit slots, units of 1e-14).  Run once against the pinned commit; the
result is committed and never regenerated by a check."""
import sys
from decimal import Decimal
from extract_tables import tables
t = tables(sys.argv[1])
names = ["CIE1931_X", "CIE1931_Y", "CIE1931_Z", "CIE1931_JuddVos_X", "CIE1931_JuddVos_Y", "CIE1931_JuddVos_Z",
         "CIE2012_X", "CIE2012_Y", "CIE2012_Z", "CIE_D65"] + ["CES%02d" % i for i in range(1, 100)] + \
        ["Macbeth%d%d" % (r, c) for r in range(4) for c in range(1, 7)]
assert sorted(names) == sorted(t)
with open(sys.argv[2], "w") as f:
    f.write("""// The spectral tables: %d tables of 400 values, 380 nm .. 779 nm, packed into one
// integer each (56-bit slots, units of 1e-14).  Written by tools/gen_tables.py.
module tables {
  import fixp.* from "./fixp"
  pure def entry(k: int, i: int): int = TAB[k] / 2^(56 * i) %% 2^56 * ONE / 10^14
  pure def table(k: int): List[int] = { val p = TAB[k] range(0, 400).foldl([], (l, i) => l.append(p / 2^(56 * i) %% 2^56 * ONE / 10^14)) }
""" % len(names))
    for k, n in enumerate(names):
        v = 0
        for i, x in enumerate(t[n]):
            q = int(Decimal(x) * 10**14)
            assert Decimal(q) == Decimal(x) * 10**14 and 0 <= q < 2**56
            v |= q << (56 * i)
        f.write("  // %s\n  pure val T%d = 0x%x\n" % (n, k, v))
    f.write("  pure val TAB: List[int] = [%s]\n}\n" % ", ".join("T%d" % k for k in range(len(names))))
