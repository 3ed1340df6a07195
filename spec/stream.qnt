// MemoryStream: the state machine of the byte stream.
// The buffer is one integer in base 256: byte i is bufv / 256^i % 256, for i < bufn.
module stream {
  type Ev = { op: str, a: List[int], e: List[int] }

  var bufn: int          // size in bytes
  var bufv: int          // contents
  var ptr: int           // cursor, 0..bufn
  var rbig: bool         // byte order of reads
  var wbig: bool         // byte order of writes
  var marks: List[(int, int)]    // pointer placeholders: (position, width)
  var old: (int, int)    // buffer before the last call, for the laws below
  var ev: Ev

  pure def imin(a, b) = if (a < b) a else b
  pure def imax(a, b) = if (a > b) a else b
  pure def iabs(a) = if (a < 0) -a else a
  pure def B(k) = 256^k
  // w bytes at p, little-endian integer; bytes beyond the end read as zero
  // (the calls below never write beyond TOPBYTE, so bytes there are zero: law zeroTail)
  pure val TOPBYTE = 200000
  pure def peek(v, p, w) = if (p >= TOPBYTE) 0 else v / B(p) % B(imin(w, TOPBYTE))
  pure def poke(v, p, w, x) = v - peek(v, p, w) * B(p) + x * B(p)
  pure def rev(x, w) = range(0, w).foldl(0, (s, i) => s * 256 + x / B(i) % 256)
  pure def signed(x, w) = if (x >= B(w) / 2) x - B(w) else x
  pure def unsigned(x, w) = if (x < 0) x + B(w) else x
  pure def mkev(op: str, a: List[int], e: List[int]): Ev = { op: op, a: a, e: e }

  // ---- the effect of each call ------------------------------------------------
  def kept = if (bufn < 5000) (bufn, bufv) else (0, 0)      // the laws look back only in small buffers
  action keepOrder = all { rbig' = rbig, wbig' = wbig }
  action fresh(n: int, v: int, op: str, a: List[int]): bool = all {
    bufn' = n, bufv' = v, ptr' = 0, rbig' = false, wbig' = false, marks' = [], old' = (n, v), ev' = mkev(op, a, []) }
  action move(p: int, e: Ev): bool = all {
    bufn' = bufn, bufv' = bufv, ptr' = p, keepOrder, marks' = marks, old' = kept, ev' = e }
  // store the w bytes of x (little-endian integer) at p
  action store(p: int, w: int, x: int, np: int, e: Ev): bool = all {
    bufn' = imax(bufn, p + w), bufv' = poke(bufv, p, w, x), ptr' = np, keepOrder, marks' = marks,
    old' = kept, ev' = e }
  action putv(w: int, x: int, e: Ev): bool = store(ptr, w, if (wbig) rev(x, w) else x, ptr + w, e)
  def taken(w) = imin(w, bufn - ptr)
  // a typed get: single-byte reads in sequence; each one past the end delivers 0
  def got(w) = { val x = peek(bufv, ptr, w) if (rbig) rev(x, w) else x }

  // ---- inputs -----------------------------------------------------------------
  pure def end(k, x, h) = if (k == 0) 0 else if (k == 1) 1 else if (k == 2) h / 2 - 1 else if (k == 3) h / 2 else if (k == 4) h - 1
    else if (k == 5) (h / 2 + h - 1 - x % 100 % h) % h else if (k == 6) (h / 2 + x % 100) % h else x % h
  pure def corner(r, w) = {
    val s = r % 16
    val x = r / 16 % B(w)
    if (s == 0) 0 else if (s == 1) B(w) - 1 else if (s == 2) B(w) / 2 else if (s == 3) B(w) / 2 - 1
    else if (s == 4) 1 else if (s == 5) x % 256 * B(x / 256 % w)             // one byte set
    else if (s == 6) B(w) - 1 - x % 256 * B(x / 256 % w)
    else if (s == 8) {                                                       // halves at their own ends
      val h = B(w) / 2^(4 * w)
      end(x % 8, x / 64, h) + h * end(x / 8 % 8, x / 64, h) }
    else if (s == 7) (x % 256) + (x / 256 % 256) * B(w - 1)
    else x
  }
  pure def isNaN(x, w) = if (w == 4) x / 2^23 % 256 == 255 and x % 2^23 != 0
                         else x / 2^52 % 2048 == 2047 and x % 2^52 != 0
  pure def mant(w) = if (w == 4) 2^23 else 2^52
  pure def signalling(x, w) = isNaN(x, w) and x / (mant(w) / 2) % 2 == 0
  // NaNs are quiet and carry their sign and payload; the bits of signalling NaNs are not ours to promise
  pure def special(x, w, k) = {
    val sg = B(w) / 2 * (x % 2)
    val top = B(w) / 2 - mant(w)                 // infinity
    if (k == 0) sg + top + mant(w) / 2 + x / 2 % (mant(w) / 2)
    else if (k == 1) sg + top
    else if (k == 2) sg + x / 2 % mant(w)
    else if (k == 3) sg
    else if (signalling(x, w)) x + mant(w) / 2 else x
  }
  pure val R8 = 0.to(2^68 - 1)
  pure val MAXN = 400

  // ---- typed puts and gets ------------------------------------------------------
  action doPut(ops: Set[(str, int)]): bool = all {
    bufn < MAXN or bufn > 60000 or ptr + 8 <= bufn,
    ptr < 120000,
    nondet o = ops.oneOf()
    nondet r = R8.oneOf()
    val x = corner(r, o._2)
    putv(o._2, x, mkev(o._1, [x], []))
  }
  pure val PUTU = Set(("pu8", 1), ("pu16", 2), ("pu32", 4), ("pu64", 8))
  pure val PUTS = Set(("pi8", 1), ("pi16", 2), ("pi32", 4), ("pi64", 8))
  action doPutU = doPut(PUTU)
  action doPutS = all {          // signed: the argument is the signed value
    bufn < MAXN or bufn > 60000 or ptr + 8 <= bufn,
    ptr < 120000,
    nondet o = PUTS.oneOf()
    nondet r = R8.oneOf()
    val x = corner(r, o._2)
    putv(o._2, x, mkev(o._1, [signed(x, o._2)], []))
  }
  action doPutF = all {
    bufn < MAXN or bufn > 60000 or ptr + 8 <= bufn,
    ptr < 120000,
    nondet o = Set(("pf", 4), ("pd", 8)).oneOf()
    nondet r = R8.oneOf()
    nondet k = 0.to(9).oneOf()
    val x = special(corner(r, o._2), o._2, k)
    putv(o._2, x, mkev(o._1, [x], []))
  }
  action doGetU = {
    nondet o = Set(("gu8", 1), ("gu16", 2), ("gu32", 4), ("gu64", 8), ("gp32", 4), ("gp64", 8)).oneOf()
    move(ptr + taken(o._2), mkev(o._1, [], [got(o._2)]))
  }
  action doGetS = {
    nondet o = Set(("gi8", 1), ("gi16", 2), ("gi32", 4), ("gi64", 8)).oneOf()
    move(ptr + taken(o._2), mkev(o._1, [], [signed(got(o._2), o._2)]))
  }
  action doGetF = {
    nondet o = Set(("gf", 4), ("gd", 8)).oneOf()
    all { not(signalling(got(o._2), o._2)), move(ptr + taken(o._2), mkev(o._1, [], [got(o._2)])) }
  }
  action doEndian = {
    nondet b = Set(true, false).oneOf()
    nondet which = Set("setr", "setw").oneOf()
    all {
      bufn' = bufn, bufv' = bufv, ptr' = ptr, marks' = marks, old' = kept,
      rbig' = if (which == "setr") b else rbig,
      wbig' = if (which == "setw") b else wbig,
      ev' = mkev(which, [if (b) 1 else 0], []) }
  }
  val widthOf = if (Set("pu8", "pi8").contains(ev.op)) 1 else if (Set("pu16", "pi16").contains(ev.op)) 2
                else if (Set("pu32", "pi32", "pf").contains(ev.op)) 4 else if (Set("pu64", "pi64", "pd").contains(ev.op)) 8 else 0
  // go back over the value just written and read it
  action doRereadTyped = all { widthOf > 0, ptr >= widthOf, move(ptr - widthOf, mkev("seekcur", [-widthOf], [ptr - widthOf])) }
  action doGetTyped = all {
    ev.op == "seekcur",
    val w = -ev.a[0]
    any { all { w == 1, move(ptr + taken(1), mkev("gu8", [], [got(1)])) }, all { w == 1, move(ptr + taken(1), mkev("gi8", [], [signed(got(1), 1)])) },
          all { w == 2, move(ptr + taken(2), mkev("gu16", [], [got(2)])) }, all { w == 2, move(ptr + taken(2), mkev("gi16", [], [signed(got(2), 2)])) },
          all { w == 4, move(ptr + taken(4), mkev("gu32", [], [got(4)])) }, all { w == 4, move(ptr + taken(4), mkev("gi32", [], [signed(got(4), 4)])) },
          all { w == 8, move(ptr + taken(8), mkev("gu64", [], [got(8)])) }, all { w == 8, move(ptr + taken(8), mkev("gi64", [], [signed(got(8), 8)])) },
          all { w == 8, not(signalling(got(8), 8)), move(ptr + taken(8), mkev("gd", [], [got(8)])) },
          all { w == 4, not(signalling(got(4), 4)), move(ptr + taken(4), mkev("gf", [], [got(4)])) } }
  }
  // go back over what was just written or read
  action doBack = {
    nondet k = Set(1, 2, 4, 8).oneOf()
    all { ptr >= k, move(ptr - k, mkev("seekcur", [-k], [ptr - k])) }
  }

  // ---- block writes ---------------------------------------------------------------
  action doWrite = all {
    bufn < MAXN or bufn > 60000 or ptr + 24 <= bufn,
    ptr < 120000,
    nondet k0 = 0.to(24).oneOf()
    nondet long = 0.to(40).oneOf()
    nondet r = 0.to(2^2500 - 1).oneOf()
    val k = if (long == 0) 250 + k0 else k0
    val x = r / 16 % B(k)
    store(ptr, k, x, ptr + k, mkev("write", [k, x], [k]))
  }
  action doWriteAt = {
    nondet k = 1.to(16).oneOf()
    nondet r = 0.to(2^132 - 1).oneOf()
    nondet p = 0.to(imin(bufn, MAXN) + 20).oneOf()
    val x = r / 16 % B(k)
    store(p, k, x, ptr, mkev("writeat", [k, x, p], [k]))
  }
  action doPutAt = {
    nondet b = 0.to(255).oneOf()
    nondet p = 0.to(imin(bufn, MAXN) + 20).oneOf()
    store(p, 1, b, ptr, mkev("putat", [p, b], []))
  }

  // ---- block reads ------------------------------------------------------------------
  action doRead = {
    nondet k = 0.to(40).oneOf()
    nondet huge = 0.to(9).oneOf()
    val w = if (huge == 0) 100 * k + bufn % 10000 else k
    val c = taken(w)
    move(ptr + c, mkev("read", [w], [c, peek(bufv, ptr, c)]))
  }
  action doReadAt = {
    nondet k = 0.to(40).oneOf()
    nondet p = 0.to(imin(bufn, MAXN) + 20).oneOf()
    nondet end = 0.to(30).oneOf()
    val q = if (end % 3 == 0) imax(0, bufn - end) else p
    val c = imax(0, imin(k, bufn - q))
    move(ptr, mkev("readat", [k, q], [c, peek(bufv, q, c)]))
  }
  action doGetAt = {
    nondet p = 0.to(imin(bufn, MAXN) + 20).oneOf()
    nondet end = 0.to(30).oneOf()
    val q = if (end % 3 == 0) imax(0, bufn - 3 + end / 3) else p
    move(ptr, mkev("getat", [q], [peek(bufv, q, 1)]))
  }

  // positions and sizes that do not fit into 31, 32 or 63 bits
  pure val FAR = Set(2^31 - 1, 2^31, 2^31 + 1, 2^32 - 1, 2^32, 2^32 + 1, 2^32 + 7, 2^33, 2^40, 2^63 - 1, 2^63, 2^64 - 1)
  action doFarRead = {
    nondet q = FAR.oneOf()
    nondet k = 0.to(40).oneOf()
    val c = bufn - ptr
    any { move(ptr, mkev("readat", [k, q], [0, 0])), move(ptr, mkev("getat", [q], [0])),
          all { c < 2000, move(ptr + c, mkev("read", [q], [c, peek(bufv, ptr, c)])) } }
  }
  // the bytes are reachable through the buffer and through a pointer into it
  action doPeek = all {
    bufn > 0,
    nondet p = 0.to(imax(0, bufn - 1)).oneOf()
    any { move(ptr, mkev("peekat", [p], [peek(bufv, p, 1)])),
          all { ptr < bufn, move(ptr, mkev("peekcur", [], [peek(bufv, ptr, 1)])) } }
  }
  action doPoke = all {
    bufn < MAXN,
    nondet p = 0.to(imax(0, bufn - 1)).oneOf()
    nondet x = 0.to(255).oneOf()
    any { store(bufn, 1, x, ptr, mkev("bufpush", [x], [])),
          all { bufn > 0, store(p, 1, x, ptr, mkev("bufset", [p, x], [])) },
          all { ptr < bufn, store(ptr, 1, x, ptr, mkev("pokecur", [x], [])) } }
  }
  // a copy has the same state, and writing to one does not touch the other
  action doCopy = {
    nondet o = Set("copy", "assign", "fork").oneOf()
    move(ptr, mkev(o, [], []))
  }

  // ---- positioning ----------------------------------------------------------------
  action doSeekTop = {
    nondet p = 0.to(bufn).oneOf()
    nondet o = Set("seektop", "seekto").oneOf()
    move(p, mkev(o, [p], if (o == "seektop") [p] else []))
  }
  action doSeekNear = {          // near the start, near the end
    nondet k = 0.to(12).oneOf()
    nondet e = Set(true, false).oneOf()
    val p = if (e) imax(0, bufn - k) else imin(bufn, k)
    move(p, mkev("seektop", [p], [p]))
  }
  action doSeekCur = {
    nondet d = (-12).to(12).oneOf()
    nondet p = 0.to(bufn).oneOf()
    nondet far = 0.to(3).oneOf()
    val e = if (far == 0) p - ptr else d
    all { ptr + e >= 0, ptr + e <= bufn, move(ptr + e, mkev("seekcur", [e], [ptr + e])) }
  }
  action doSeekEnd = {
    nondet n = (-1).to(imin(bufn, 40)).oneOf()
    nondet f = (-1).to(bufn).oneOf()
    nondet far = 0.to(3).oneOf()
    val k = if (far == 0) f else n
    all { k < bufn, move(bufn - 1 - k, mkev("seekend", [k], [bufn - 1 - k])) }
  }
  action doAlign = {
    nondet n = Set(1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64, 100).oneOf()
    nondet f = Set(128, 255, 256, 257, 300, 384, 512, 1000, 1024, 4096, 32768, 65535, 65536, 65537, 100000, 131072).oneOf()
    nondet far = 0.to(2).oneOf()
    val m = if (bufn > 128 and far == 0) (if (f <= bufn) f else bufn) else n
    val p = (ptr + m - 1) / m * m
    all { p <= bufn, move(p, mkev("align", [m], [])) }
  }
  action doMarkPtr = all {
    bufn < MAXN or bufn > 60000 or ptr + 8 <= bufn,
    ptr < 120000,
    nondet w = Set(4, 8).oneOf()
    all {
      bufn' = imax(bufn, ptr + w), bufv' = poke(bufv, ptr, w, 0), ptr' = ptr + w, keepOrder,
      marks' = marks.append((ptr, w)), old' = kept,
      ev' = mkev(if (w == 4) "pp32" else "pp64", [], [ptr]) }
  }
  action doAdjust = all {
    marks.length() > 0,
    nondet i = 0.to(imax(0, marks.length() - 1)).oneOf()
    val m = marks[i]
    store(m._1, m._2, if (wbig) rev(bufn, m._2) else bufn, ptr, mkev(if (m._2 == 4) "adj32" else "adj64", [m._1], []))
  }

  // ---- strings ----------------------------------------------------------------------
  // a string of n characters is the little-endian integer of its bytes
  action doPutStr = all {
    bufn < MAXN or bufn > 60000 or ptr + 30 <= bufn,
    ptr < 120000,
    nondet n0 = 0.to(24).oneOf()
    nondet long = 0.to(40).oneOf()
    nondet r = 0.to(2^2500 - 1).oneOf()
    nondet nul = 0.to(3).oneOf()
    val n = if (long == 0) 255 + n0 % 4 else if (long == 1) 126 + n0 % 4 else if (long == 2) 290 + n0 else n0
    val s0 = r / 16 % B(n)
    // mostly without embedded zeros
    val s = if (nul == 0) s0 else range(0, n).foldl(0, (t, i) => t + imax(1, peek(s0, i, 1)) * B(i))
    val hdr = if (wbig) rev(n + 1, 4) else n + 1
    store(ptr, n + 5, hdr + s * B(4), ptr + n + 5, mkev("pstr", [n, s], []))
  }
  action doGetStr = {
    val c = imin(4, bufn - ptr)
    val h = got(4)
    all {
      h < 400 or h <= bufn - ptr,                 // a plausible length prefix at the cursor
      c == 4,
      val n = imax(0, h - 1)
      val t = imin(h, bufn - ptr - 4)
      move(ptr + 4 + t, mkev("gstr", [], [n, peek(bufv, ptr + 4, n)])) }
  }
  action doPutSub = all {
    bufn < MAXN or bufn > 60000 or ptr + 30 <= bufn,
    ptr < 120000,
    nondet n0 = 0.to(20).oneOf()
    nondet len0 = 0.to(24).oneOf()
    nondet long = 0.to(40).oneOf()
    nondet r = 0.to(2^2500 - 1).oneOf()
    val n = if (long == 0) 250 + n0 else n0
    val len = if (long <= 1) 245 + len0 else len0
    val s = r / 16 % B(n)
    val x = s % B(imax(0, len - 1))
    store(ptr, len, x, ptr + len, mkev("psub", [n, s, len], []))
  }
  action doGetSub = {
    nondet len0 = 0.to(30).oneOf()
    nondet long = 0.to(40).oneOf()
    val len = if (long == 0) 245 + len0 else len0
    val n = imax(0, len - 1)
    move(ptr + taken(len), mkev("gsub", [len], [n, peek(bufv, ptr, n)]))
  }
  // long blocks and strings: mostly zero, with a few bytes set anywhere and at both ends
  pure val LENGTHS = Set(300, 513, 1000, 4093, 4096, 16384, 32765, 32768, 40000, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 70000)
  pure def sparse(r, n) = range(0, 6).foldl(1 + r % 255 + (if (n > 1) (1 + r / 255 % 255) * B(n - 1) else 0),
    (s, i) => poke(s, 1 + r / 2^(16 + 24 * i) % 65536 % (n - 2), 1, r / 2^(32 + 24 * i) % 256))
  action doLongWrite = all {
    bufn < 100000, ptr < 70000,
    nondet n = LENGTHS.oneOf()
    nondet r = 0.to(2^180 - 1).oneOf()
    val x = sparse(r, n)
    store(ptr, n, x, ptr + n, mkev("write", [n, x], [n]))
  }
  action doLongWriteAt = all {
    bufn < 100000,
    nondet n = LENGTHS.oneOf()
    nondet r = 0.to(2^180 - 1).oneOf()
    nondet p = 0.to(bufn + 300).oneOf()
    val q = if (r % 2 == 0) p % 70000 else imin(70000, imax(0, bufn - 1 - p % 40))
    val x = sparse(r / 2, n)
    store(q, n, x, ptr, mkev("writeat", [n, x, q], [n]))
  }
  action doFarWrite = all {                       // a gap is filled with zeros
    bufn < 100000,
    nondet g = LENGTHS.oneOf()
    nondet x = 1.to(65535).oneOf()
    any { store(bufn + g, 2, x, ptr, mkev("writeat", [2, x, bufn + g], [2])),
          store(bufn + g, 1, x % 256, ptr, mkev("putat", [bufn + g, x % 256], [])) }
  }
  action doLongRead = {
    nondet w = LENGTHS.oneOf()
    nondet p = 0.to(bufn + 5).oneOf()
    val c = taken(w)
    val d = imax(0, imin(w, bufn - p))
    any { move(ptr + c, mkev("read", [w], [c, peek(bufv, ptr, c)])),
          move(ptr, mkev("readat", [w, p], [d, peek(bufv, p, d)])) }
  }
  action doLongStr = all {
    bufn < 100000, ptr < 70000,
    nondet n = LENGTHS.oneOf()
    nondet r = 0.to(2^180 - 1).oneOf()
    val s = sparse(r, n)
    val hdr = if (wbig) rev(n + 1, 4) else n + 1
    store(ptr, n + 5, hdr + s * B(4), ptr + n + 5, mkev("pstr", [n, s], []))
  }
  action doLongSub = all {
    bufn < 100000, ptr < 70000,
    nondet n0 = LENGTHS.oneOf()
    nondet len = LENGTHS.oneOf()
    nondet r = 0.to(2^180 - 1).oneOf()
    nondet k = 0.to(200).oneOf()
    val n = if (k % 3 == 0) 3 + k / 3 else if (k % 3 == 1) imax(3, len - 3 + k / 3 % 5) else n0
    val s = sparse(r, n)
    store(ptr, len, s % B(len - 1), ptr + len, mkev("psub", [n, s, len], []))
  }
  action doLongGetSub = {
    nondet len = LENGTHS.oneOf()
    move(ptr + taken(len), mkev("gsub", [len], [len - 1, peek(bufv, ptr, len - 1)]))
  }
  // re-read the string field just written
  action doRereadStr = all { ev.op == "pstr", ev.a[0] + 5 <= ptr, move(ptr - ev.a[0] - 5, mkev("seekcur", [-(ev.a[0] + 5)], [ptr - ev.a[0] - 5])) }
  action doRereadSub = all { ev.op == "psub", ev.a[2] <= ptr, move(ptr - ev.a[2], mkev("seekcur", [-ev.a[2]], [ptr - ev.a[2]])) }

  // ---- construction -------------------------------------------------------------------
  action doNew = {
    nondet n = 0.to(48).oneOf()
    nondet r = 0.to(2^384 - 1).oneOf()
    val v = r % B(n)
    nondet o = Set("new", "reinit").oneOf()
    fresh(n, v, o, [n, v])
  }
  // blocks that begin like a file of some kind: byte order marks, signatures, their own size, one byte repeated
  pure val SIGNS = [(0xFFFE, 2), (0xFEFF, 2), (0xBFBBEF, 3), (0x2A4949, 4), (0x2A004D4D, 4), (0x70736361, 4), (0xFEFF0000, 4), (0xFEFF, 4),
    (0x46464952, 4), (0x474E5089, 4), (0x4D5A, 2), (0, 4), (0x01000000, 4), (1, 4)]
  action doSig = {
    nondet n = 4.to(48).oneOf()
    nondet r = 0.to(2^384 - 1).oneOf()
    nondet k = 0.to(17).oneOf()
    nondet o = Set("new", "reinit").oneOf()
    val v = if (k < 14) poke(r % B(n), 0, SIGNS[k]._2, SIGNS[k]._1)
            else if (k == 14) poke(r % B(n), 0, 4, n) else if (k == 15) poke(r % B(n), 0, 4, n * 2^24)
            else range(0, n).foldl(0, (s, i) => s * 256 + (if (k == 16) 255 else r % 256))
    fresh(n, v, o, [n, v])
  }
  action doEmpty = {
    nondet o = Set("empty", "reinit0").oneOf()
    fresh(0, 0, o, [])
  }
  action doZeros = {              // large blocks: sizes around powers of two
    nondet s = Set(8, 12, 15, 16, 17, 24).oneOf()
    nondet d = (-9).to(9).oneOf()
    nondet m = 0.to(255).oneOf()
    val n = 2^s + d + (if (s == 24) m * 65793 else 0)
    fresh(n, 0, "zeros", [n])
  }
  action doAgain = all { bufn > 60000, doEmpty }
  action renew = all { bufn > 250, any { doNew, doSig, doEmpty } }     // start over once the buffer has grown
  action anew = all { bufn > 250, any { doEmpty, doSig } }

  action init = fresh(0, 0, "empty", [])
  action initBig = fresh(65533, 0, "zeros", [65533])

  // ---- one next-state relation per property, all over the same calls ---------------------
  action pos = any { doSeekTop, doSeekNear, doSeekCur, doSeekEnd }
  action stepTyped = any { doPutU, doPutS, doPutF, doGetU, doGetS, doGetF, doEndian, doBack, doBack, pos, anew, doSig }
  action stepTypedTrip = any { doPutU, doPutS, doPutS, doPutF, doRereadTyped, doRereadTyped, doRereadTyped, doRereadTyped, doGetTyped, doGetTyped, doGetTyped, doGetTyped, doEndian, anew }
  action stepWrite = any { doWrite, doWriteAt, doPutAt, doPutU, doPutS, doPutF, doMarkPtr, doAdjust, pos, doEndian, doGetU, doPoke, doCopy, renew }
  action stepRead = any { doRead, doReadAt, doGetAt, doFarRead, doPeek, doGetU, doGetS, doGetF, doGetSub, pos, doEndian, doNew, doSig, doWrite, doPoke, doCopy }
  action stepSeek = any { doSeekTop, doSeekNear, doSeekCur, doSeekEnd, doAlign, doAlign, doMarkPtr, doAdjust, doAdjust, doEndian, doPutU, doWrite, doGetU, renew }
  action stepString = any { doPutStr, doPutStr, doRereadStr, doRereadStr, doRereadStr, doRereadStr, doGetStr, doGetStr, doGetStr, doGetStr, doGetStr, doPutSub, doRereadSub, doGetSub, doEndian, pos, anew, doPutU }
  action stepAll = any { stepTyped, stepWrite, stepRead, stepSeek, stepString }
  action stepBig = any { doPutU, doGetU, doSeekNear, doSeekNear, doSeekEnd, doSeekCur, doAlign, doMarkPtr, doAdjust, doAdjust, doAdjust, doEndian, doRead, doReadAt, doGetAt, doFarRead, doPeek, doZeros }
  action stepLongWrite = any { doLongWrite, doLongWriteAt, doFarWrite, doLongRead, doSeekTop, doSeekNear, doPutU, doAdjust, doMarkPtr, doEndian, doAgain }
  action stepLongRead = any { doLongWrite, doLongRead, doLongRead, doLongRead, doLongGetSub, doReadAt, doGetAt, doGetU, doSeekTop, doSeekNear, doEndian, doAgain }
  action stepLongSeek = any { doLongWrite, doFarWrite, doSeekTop, doSeekNear, doSeekCur, doSeekEnd, doAlign, doMarkPtr, doAdjust, doAdjust, doGetU, doPutU, doEndian, doAgain }
  action stepLongString = any { doLongStr, doLongStr, doRereadStr, doRereadStr, doRereadStr, doGetStr, doGetStr, doGetStr, doGetStr, doLongSub, doRereadSub, doRereadSub, doLongGetSub, doEndian, doAgain }
  action step = stepAll

  // ---- laws, checked in every state ---------------------------------------------------------
  val zeroTail = 0 <= bufv and bufv < B(imin(bufn, TOPBYTE))
  val inRange = 0 <= ptr and ptr <= bufn and 0 <= bufv and bufv < B(bufn)
  val small = bufn < 5000
  val isNew = Set("new", "empty", "zeros", "reinit", "reinit0").contains(ev.op)
  val neverShrinks = isNew or old._1 <= bufn
  val readsDontWrite = Set("gu8", "gu16", "gu32", "gu64", "gi8", "gi16", "gi32", "gi64", "gf", "gd", "gp32", "gp64", "read", "readat",
      "getat", "peekat", "peekcur", "copy", "assign", "fork", "gstr", "gsub", "seektop", "seekto", "seekcur", "seekend", "align", "setr", "setw").contains(ev.op)
      implies old == (bufn, bufv)
  val putIsRead = widthOf > 0 implies {
    val x = peek(bufv, ptr - widthOf, widthOf)
    and { (if (wbig) rev(x, widthOf) else x) == unsigned(ev.a[0], widthOf),
          // nothing else changed
          poke(old._2, ptr - widthOf, widthOf, x) == bufv }
  }
  val laws = zeroTail and (small implies and { inRange, neverShrinks, readsDontWrite, putIsRead })
}
