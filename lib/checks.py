"""Which specification, harness and bounds decide each property."""
CHECKS = {}
def C(pid, campaigns, **kw):
    CHECKS[pid] = dict(campaigns=campaigns, **kw)
def camp(spec, harness, steps, **kw):
    return dict(spec=spec, harness=harness, steps=steps, **kw)

C("C06", [camp("c06_matrix.qnt", "matrix", 6000)])
C("C07", [camp("c07_inverse.qnt", "matrix", 5000)])
C("C08", [camp("c08_tristimulus.qnt", "tri", 8000)])
C("C09", [camp("c09_chromaticity.qnt", "tri", 8000)])
C("C10", [camp("c10_cielab.qnt", "lab", 6000)])
C("C11", [camp("c11_hsv.qnt", "lab", 8000, mod="mod_hsv")])
ASAN = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
AENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}
def stream(pid, step, *long):
    k = dict(mod="mod_stream", flags=ASAN, env=AENV, main="stream")
    C(pid, [camp("stream.qnt", "stream", 6000, step=step, procs=6, **k), camp("stream.qnt", "stream", 6000, step="stepAll", procs=2, **k),
            camp("stream.qnt", "stream", 150, init="initBig", step="stepBig", procs=4 if pid == "C04" else 2, **k)] +
           [camp("stream.qnt", "stream", 80, step=st, procs=n, **k) for st, n in long] +
           ([camp("stream.qnt", "stream", 6000, step="stepTypedTrip", procs=3, **k)] if pid == "C01" else []),
      level="model_checking", rule="behaviours of the stream state machine; a call is counted as distinct by operation and arguments, a state by "
      "buffer contents, cursor and byte orders",
      note="Random walks of the explicit stream state machine (Quint), with the invariants evaluated in every state, replayed call by call on MemoryStream "
           "under AddressSanitizer; the whole buffer, cursor, end-of-file flag and every return value are compared after every call. Bounded: buffers up "
           "to about 400 bytes, sparse contents up to about 170 000 bytes, and zero-filled blocks around 2^8, 2^12, 2^15..2^17 and 2^24..2^25 bytes.",
      technique="Quint state machine of the stream; generated behaviours replayed on MemoryStream, full state compared after every call")
stream("C01", "stepTyped", ("stepLongSeek", 1))
stream("C02", "stepWrite", ("stepLongWrite", 4))
stream("C03", "stepRead", ("stepLongRead", 4))
stream("C04", "stepSeek", ("stepLongSeek", 2))
stream("C05", "stepString", ("stepLongString", 4))

def sweeps(mode, stride):
    return [camp("c14_sweep.qnt", "otf", 1500, main="c14_sweep", init="init%d" % i, procs=1, once=True, mod="mod_sweep",
                 env={"VERIF_SWEEP": str(mode), "VERIF_STRIDE": str(stride)}, thorough_env={"VERIF_STRIDE": "1"}) for i in range(8)]
C("C14", sweeps(1, 1) + [camp("c14_points.qnt", "otf", 4000)])
C("C15", sweeps(2, 1) + [camp("c14_points.qnt", "otf", 3000, step="stepTrip")])
C("C16", [camp("c16_conv.qnt", "otf", 3000, invs=["laws16"], step="step16")])
C("C12", [camp("c12_oklab.qnt", "percept", 3500)])
C("C13", [camp("c13_ictcp.qnt", "percept", 2200)])
C("C17", [camp("c17_gamut.qnt", "gamut", 1200)])
C("C18", [camp("c18_named.qnt", "gamut", 150, step="step18", invs=["laws18"], procs=2)])
C("C19", [camp("c19_convert.qnt", "gamut", 900)])
C("C20", [camp("c20_bradford.qnt", "gamut", 1500)])
C("C21", [camp("c21_cct.qnt", "cct", 6000)])
C("C22", [camp("c22_delta.qnt", "delta", 3000)])
C("C23", [camp("c23_ciede2000.qnt", "delta", 3500)])
C("C24", [camp("c24_fetch.qnt", "spectral", 3000, flags=ASAN, env=AENV), camp("c24_fetch.qnt", "spectral", 40, step="stepBuild", flags=ASAN, env=AENV),
          camp("c24_fetch.qnt", "spectral", 130, step="lines", mod="mod_lines", procs=1, once=True)])
C("C25", [camp("c25_integrate.qnt", "spectral", 600)])
C("C26", [camp("c26_planck.qnt", "spectral", 3500), camp("c26_planck.qnt", "spectral", 10, step="spec1", procs=4)])
C("C27", [camp("c27_data.qnt", "spectral", 133, init="init27", step="step27", mod="mod_table", procs=1, once=True)])
C("C31", [camp("c31_photometry.qnt", "spectral", 700)])
C("C32", [camp("c32_sqrt.qnt", "sqrt", 100, main="c32_sqrt", init="init%d" % i, procs=1, once=True, mod="mod_sqrt",
                env={"VERIF_STRIDE": "5"}, thorough_env={"VERIF_STRIDE": "1"}) for i in range(8)] +
         [camp("c32_sqrt.qnt", "sqrt", 1500, init="initV", step="stepV", procs=4),
          camp("c32_sqrt.qnt", None, 250, init="initV", step="stepV", mod="mod_sqrtct", procs=4)])
C("C28", [camp("c28_solver.qnt", "solver", 1500), camp("c28_solver.qnt", "solver", 150, step="stepFamily", mod="mod_family")])
C("C29", [camp("c29_corrector.qnt", "corrector", 250, mod="mod_family")])

P30 = dict(mod="mod_pure", main="c30_pure")
C("C30", [camp("c30_pure.qnt", "pure", 96, init="init30", step="stepNeighbours", procs=1, flags=["-O2", "-pthread"], **P30)] +
         [camp("c30_pure.qnt", "pure", 96, init="init30", step=s, procs=2, flags=["-O2", "-pthread"], **P30) for s in ("stepOne", "stepThreads", "stepCrowd")] +
         [camp("c30_pure.qnt", "pure", 96, init="init30", step="stepOften", procs=1, flags=["-O2", "-pthread"], **P30),
          camp("c30_pure.qnt", "pure", 96, init="init30", step="stepFirst1", procs=1, flags=["-O2", "-pthread"], **P30),
          camp("c30_pure.qnt", "pure", 96, init="init31", step="stepFirst", procs=2, flags=["-O2", "-pthread"], **P30)] +
         [camp("c30_pure.qnt", "pure", 96, init="init30", step="stepThreads", procs=1, flags=["-O1", "-g", "-pthread", "-fsanitize=thread"],
               env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=67:report_signal_unsafe=0"}, **P30)] +
         [camp(s + ".qnt", h, n, procs=1, mod="mod_silent", flags=["-O2", "-pthread", "-DVERIF_PURE"], **k) for s, h, n, k in (
             ("c06_matrix", "matrix", 1500, {}), ("c07_inverse", "matrix", 1000, {}), ("c08_tristimulus", "tri", 1500, {}),
             ("c09_chromaticity", "tri", 1500, {}), ("c10_cielab", "lab", 1500, {}), ("c11_hsv", "lab", 1500, {}), ("c12_oklab", "percept", 800, {}),
             ("c13_ictcp", "percept", 600, {}), ("c14_points", "otf", 1000, {}), ("c16_conv", "otf", 800, dict(step="step16", invs=["laws16"])),
             ("c17_gamut", "gamut", 300, {}), ("c19_convert", "gamut", 250, {}), ("c20_bradford", "gamut", 400, {}), ("c21_cct", "cct", 1500, {}),
             ("c22_delta", "delta", 800, {}), ("c23_ciede2000", "delta", 1000, {}), ("c24_fetch", "spectral", 800, {}), ("c25_integrate", "spectral", 120, {}),
             ("c26_planck", "spectral", 1000, {}), ("c28_solver", "solver", 500, {}), ("c29_corrector", "corrector", 100, {}), ("c31_photometry", "spectral", 150, {}))])

C("C33", [camp(s + ".qnt", None, n, procs=1, mod="mod_ct", **k) for s, n, k in (
    ("c06_matrix", 400, {}), ("c07_inverse", 300, {}), ("c08_tristimulus", 400, {}), ("c09_chromaticity", 400, {}), ("c10_cielab", 400, {}), ("c11_hsv", 400, {}),
    ("c17_gamut", 250, {}), ("c18_named", 60, dict(step="step18", invs=["laws18"])), ("c19_convert", 250, {}), ("c21_cct", 400, {}),
    ("c24_fetch", 200, {}), ("c24_fetch", 60, dict(step="edge")), ("c25_integrate", 60, {}), ("c31_photometry", 60, {}))])

# memory safety: the behaviours of all specifications with library assertions, AddressSanitizer and UndefinedBehaviorSanitizer (without the
# shift and alignment rules, which the repository's own compilers define), and shorter ones under valgrind
MEM = ["-O1", "-g", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=shift,alignment,vptr,nonnull-attribute,float-cast-overflow,float-divide-by-zero",
       "-fno-sanitize-recover=all"]
MENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=0"}
NUMERIC = (("c06_matrix", "matrix", 1200, {}), ("c07_inverse", "matrix", 600, {}), ("c08_tristimulus", "tri", 1200, {}), ("c09_chromaticity", "tri", 1200, {}),
           ("c10_cielab", "lab", 1200, {}), ("c11_hsv", "lab", 1200, {}), ("c12_oklab", "percept", 600, {}), ("c13_ictcp", "percept", 400, {}),
           ("c14_points", "otf", 800, {}), ("c16_conv", "otf", 600, dict(step="step16", invs=["laws16"])), ("c17_gamut", "gamut", 300, {}),
           ("c18_named", "gamut", 60, dict(step="step18", invs=["laws18"])), ("c19_convert", "gamut", 200, {}), ("c20_bradford", "gamut", 300, {}),
           ("c21_cct", "cct", 1200, {}), ("c22_delta", "delta", 700, {}), ("c23_ciede2000", "delta", 700, {}), ("c24_fetch", "spectral", 1500, {}),
           ("c24_fetch", "spectral", 30, dict(step="stepBuild")), ("c25_integrate", "spectral", 150, {}), ("c26_planck", "spectral", 600, {}), ("c26_planck", "spectral", 12, dict(step="stepSpec")),
           ("c28_solver", "solver", 900, {}), ("c28_solver", "solver", 12, dict(step="stepFamily")), ("c29_corrector", "corrector", 100, {}),
           ("c31_photometry", "spectral", 150, {}))
C("C34", [camp(s + ".qnt", h, n, procs=1, mod="mod_mem", flags=MEM, env=MENV, **k) for s, h, n, k in NUMERIC] +
         [camp("stream.qnt", "stream", 3000, main="stream", step="stepAll", procs=3, mod="mod_memstream", flags=[f for f in MEM if f != "-D_GLIBCXX_ASSERTIONS"], env=MENV),
          camp("stream.qnt", "stream", 150, main="stream", init="initBig", step="stepBig", procs=1, mod="mod_memstream", flags=[f for f in MEM if f != "-D_GLIBCXX_ASSERTIONS"], env=MENV)] +
         [camp("stream.qnt", "stream", 60, main="stream", step=st, procs=1, mod="mod_memstream", flags=[f for f in MEM if f != "-D_GLIBCXX_ASSERTIONS"], env=MENV)
          for st in ("stepLongWrite", "stepLongRead", "stepLongString")] +
         [camp(s + ".qnt", h, max(12, n // 6), procs=1, mod="mod_memvg", flags=["-O1", "-g"], **k) for s, h, n, k in NUMERIC if k.get("step") != "stepFamily"] +
         [camp("stream.qnt", "stream", 500, main="stream", step="stepAll", procs=2, mod="mod_memstreamvg", flags=["-O1", "-g"])],
  rule="calls of the behaviours of all specifications, executed under the sanitizers and valgrind; distinct (operation, inputs) with at least one non-zero input are counted",
  note="The behaviours of all specifications are replayed with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions, and under valgrind memcheck (uninitialised values, "
       "leaks); any report, crash or hang rejects the behaviour. Inputs are sampled; what a sanitizer cannot see (an access that stays inside another live object "
       "and inside no container) is missed.",
  technique="Quint specifications of all parts; generated behaviours replayed under address/undefined sanitizers and valgrind, whose reports reject the behaviour")
