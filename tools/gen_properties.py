#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the prose lives here so that it can be reviewed as a table)."""
import json, os
F = ["include/colorsystem.hpp"]
def P(id, title, statement, over, qtext, why, mech, observe, state=None):
    a = {"files": F, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
MS = "include/colorsystem.hpp class MemoryStream"
MSST = [("buffer", "the bytes of the stream", MS), ("cursor", "next byte to read or write", MS),
        ("read/write byte order", "byte order of multi-byte gets/puts", MS)]
L = []
L.append(P("C01", "Typed values written to the byte stream are read back unchanged",
 "Every integer (8/16/32/64 bit, signed or unsigned), float, double and pointer value put into the memory stream is encoded at the cursor in the selected write byte order (little or big endian), and a get of the same width with the same byte order selected for reading returns exactly that value. Reading with the opposite byte order returns the byte-reversed value. Switching one byte order never affects the other nor bytes already written.",
 ["inputs", "histories"], "all values of every width, both byte orders for reading and writing, any interleaving of puts, gets, seeks and byte-order switches",
 "No test touches the stream at all; sign extension, 64-bit halves and byte-order mixes have 2^64 values and many histories.",
 [("put*/get* typed accessors", MS), ("setReadEndian/setWriteEndian", MS)], ["MemoryStream::put*/get*", "MemoryStream::buffer"], MSST))
L.append(P("C02", "Stream writes change exactly the addressed bytes and advance the cursor",
 "A write of n bytes at the cursor replaces exactly the n bytes from the cursor on, growing the buffer only as far as needed, and moves the cursor forward by n, whether it overwrites, straddles the end or appends. A write at an absolute position does the same there without moving the cursor, zero-filling any gap; no other byte ever changes and the buffer never shrinks.",
 ["histories", "inputs"], "all sequences of sequential and absolute writes from every cursor position, including overwrites in the middle, straddling the end, and absolute writes beyond the end",
 "No test writes to the stream; the failing cases need an overwrite after a seek, or a write beyond the end.",
 [("write/write_at/put_at/putUint8", MS)], ["MemoryStream::buffer", "MemoryStream::ftell"], MSST))
L.append(P("C03", "Stream reads never leave the buffer and report exactly what they got",
 "A block read at the cursor or at an absolute position copies exactly min(requested, remaining) bytes, returns that count and, for cursor reads only, advances by it; single-byte and typed reads past the end deliver zero bytes and do not move the cursor beyond the end. No read modifies the buffer or touches memory outside it, and a stream constructed from (or re-initialised with) a memory block holds exactly that block with the cursor at the start and little-endian byte orders; copies of a stream are independent of it.",
 ["histories", "inputs"], "all buffer sizes, cursor positions, request sizes and absolute positions, including at, across and beyond the end",
 "No test reads from the stream; short reads need a specific cursor/size combination and out-of-bounds access is invisible to value assertions.",
 [("read/read_at/get_at/getUint8/init", MS)], ["return values", "MemoryStream::ftell", "AddressSanitizer"], MSST))
L.append(P("C04", "Stream positioning, alignment and pointer back-patching are exact",
 "Seeking from the start or the current position moves the cursor to precisely that offset, seeking from the end with offset k places it k bytes before the last byte; tell/mark report it, end-of-file holds exactly when no byte is left at the cursor, and align moves to the smallest multiple not below the cursor. A pointer placeholder reserves zeroed 4 or 8 bytes and returns their position, and adjusting it later stores the buffer size of that moment there in the write byte order, changing no other byte and not moving the cursor.",
 ["histories", "inputs"], "all seek origins and offsets that stay inside the buffer, all alignments, all placements and orders of placeholder creation and adjustment, both byte orders and widths",
 "No test seeks or back-patches; errors depend on the history of writes between reserving and adjusting a pointer.",
 [("fseek/seekTo/align/feof/putPointer*/adjustPointer*", MS)], ["MemoryStream::ftell", "MemoryStream::feof", "MemoryStream::buffer"], MSST))
L.append(P("C05", "Strings written to the stream are read back unchanged",
 "A string put into the stream as a length-prefixed string is returned unchanged by the matching string get, for every length including zero, and leaves the cursor right after it. A fixed-field string of length n stores the first n-1 characters (padded with zeros if the string is shorter) and a terminator, and the matching fixed-field get returns those n-1 bytes and skips the terminator; a field of length 0 writes and consumes nothing.",
 ["inputs", "histories"], "all strings (any bytes, any length including empty), all field lengths, any sequence of string reads and writes",
 "No test uses string I/O; the empty string and the last character are the cases that fail.",
 [("putString/get_string/putSubstr/getSubstr", MS)], ["returned strings", "MemoryStream::buffer"], MSST))
L.append(P("C06", "3x3 matrix and vector algebra obeys the laws of linear algebra",
 "Matrix product, sum, scaling, division by a scalar, transposition, determinant, diagonal construction, row/column extraction and matrix-vector application compute the mathematically exact result up to single-precision rounding of the operands' magnitudes (and exactly for small integers). In particular applying a product equals applying its factors in sequence, the determinant is multiplicative, transposition reverses products, and the static and member forms agree.",
 ["inputs"], "all finite matrices, vectors and scalars whose results neither overflow nor underflow",
 "Tests use a few near-symmetric colour matrices through gamuts; index or sign slips that cancel there survive.",
 [("Matrix3::mul/add/div/apply/transpose/det/diag/row/col, Vector3::dot", "include/colorsystem.hpp class Matrix3, Vector3")], ["returned matrices and vectors"]))
L.append(P("C07", "Matrix inversion is a true two-sided inverse",
 "For every well-conditioned matrix, multiplying it with its computed inverse on either side gives the identity up to rounding, whatever the sign of its determinant or the size and layout of its entries. The closed-form crosstalk inverse equals the inverse of the crosstalk matrix for every crosstalk amount other than 1/3.",
 ["inputs"], "all matrices whose determinant is not small relative to its terms; all crosstalk amounts != 1/3",
 "Tests compare three inverses, all with positive determinant and similar scale.",
 [("Matrix3::invert/crosstalk/crosstalkInvert", "include/colorsystem.hpp class Matrix3")], ["returned matrices"]))
L.append(P("C08", "Tristimulus arithmetic, clipping and sign tests act on every channel",
 "Adding, scaling, dividing, multiplying, minimum, maximum and dot product of colour triples act on each of the three channels independently and correctly. Clipping to [lo, hi] leaves every channel inside the range, leaves channels already inside unchanged and is idempotent; positive() replaces exactly the negative channels by zero, hasNegative is true exactly when some channel is negative, and min3/max3 are the smallest/largest channel.",
 ["inputs"], "all finite triples, including equal channels, signed values, bounds coinciding with channel values, and every position of the extremum",
 "No test calls clip, positive, hasNegative, min3/max3 or the operators directly.",
 [("Tristimulus operators, min/max/clip/positive/hasNegative", "include/colorsystem.hpp class Tristimulus")], ["returned triples and flags"]))
L.append(P("C09", "XYZ, Yxy and Yuv conversions are exact inverses of each other",
 "Converting XYZ to Yxy gives luminance Y and chromaticity x=X/(X+Y+Z), y=Y/(X+Y+Z); converting to Yuv gives the CIE 1960 u=4x/(-2x+12y+3), v=6y/(-2x+12y+3); and converting back restores the original XYZ up to rounding. Luminance is preserved, chromaticity does not depend on luminance, black (zero sum) maps to the D65 chromaticity (0.3127, 0.3290) and a chromaticity with y=0 maps back to X=Z=0, so no conversion divides by zero.",
 ["inputs"], "all finite colours with non-cancelling sum, plus black and zero-y chromaticities; all conversion chains between the three forms",
 "Tests cover six points and never Yuv nor black.",
 [("toYxy/fromYxy/toYuv/fromYuv/YxyToYuv/YuvToYxy", "include/colorsystem.hpp class Tristimulus")], ["returned triples"]))
L.append(P("C10", "CIELAB conversion follows CIE 1976 and is invertible up to the white",
 "For any reference white, conversion of a colour not brighter than the white gives L*=116f(Y/Yn)-16, a*=500(f(X/Xn)-f(Y/Yn)), b*=200(f(Y/Yn)-f(Z/Zn)) with the CIE cube-root/linear function f, the white itself gives (100,0,0) and black (0,0,0), and converting back restores the colour on both the cube-root and the linear branch. Channel ratios above 1 are treated as 1 in both directions, and without an explicit white D50 (0.9642, 1, 0.8249) is used.",
 ["inputs"], "all colours with channel/white ratios up to and above 1, including tiny and negative ratios, and all positive whites",
 "Tests check two points to 0.1 and never the inverse, the linear branch, or another white.",
 [("toCIELAB/fromCIELAB and their curve", "include/colorsystem.hpp class Tristimulus")], ["returned triples"]))
L.append(P("C11", "HSV conversion round-trips and treats hue as an angle",
 "For every RGB colour whose largest channel is not negative, toHSV gives value=max, saturation=(max-min)/max (0 for black) and the hexagonal hue in [0,360] (0 for greys), and fromHSV restores the colour; fromHSV depends on the hue only modulo 360 and is continuous across sector boundaries. The arctangent variant gives the same saturation and value and the angle of the colour in the chromatic plane.",
 ["inputs"], "all RGB triples (negative channels allowed, the largest channel positive or zero for black) in every ordering including ties, all hues (negative, beyond 360, exact multiples of 60), saturations and values in range",
 "No test touches HSV.",
 [("toHSV/fromHSV/toHSV_atan, hue wrap-around", "include/colorsystem.hpp class Tristimulus")], ["returned triples"]))
L.append(P("C12", "OKLab conversion matches its definition and inverts",
 "XYZ to OKLab applies the published LMS matrix, a signed cube root and the published Lab matrix; OKLab to XYZ is its inverse, so each round trip restores the colour up to rounding, including colours with negative LMS components. D65 white maps to (1,0,0), and scaling XYZ by k^3 scales OKLab by k.",
 ["inputs"], "all finite colours, including black and out-of-gamut ones with negative cone responses",
 "Tests allow an error of 0.1 on four points.",
 [("XYZ_to_OKLAB/OKLAB_to_XYZ", "include/colorsystem.hpp")], ["returned triples"]))
L.append(P("C13", "ICtCp conversion matches its definition and inverts",
 "XYZ to ICtCp applies the published cone matrix, the PQ curve and the published I/Ct/Cp combination; ICtCp to XYZ is its inverse, so colours with cone responses between 0 and 10000 cd/m2 survive the round trip up to rounding, and neutral D65-coloured light has Ct=Cp=0 at every luminance.",
 ["inputs"], "all colours with cone responses in the PQ range, from black to 10000 cd/m2",
 "No test touches ICtCp.",
 [("XYZ_to_ICtCp/ICtCp_to_XYZ", "include/colorsystem.hpp")], ["returned triples"]))
L.append(P("C14", "Every transfer function computes its published curve over its whole domain",
 "For each supported transfer function (pure gamma, sRGB, BT.709, ST 2084, S-Log, S-Log2, S-Log3, HLG) the scene-to-signal and the signal-to-scene direction equal the published formula, on all of its segments, to within single-precision rounding for every input of the domain. sRGB and BT.709 clamp inputs to [0,1] in both directions; ST 2084 maps <=0 to 0 in both directions and encodes >=100 (10000 cd/m2) as 1, S-Log encoding clamps to [0,10], HLG maps negative inputs to 0, and S-Log2 decoding never returns a negative value.",
 ["inputs"], "every single-precision input of each curve's domain, in particular around segment joints and clamps",
 "Tests evaluate sRGB, BT.709 and HLG at nine inputs and never PQ, S-Log*, or gamma.",
 [("OTF encode/decode functions", "include/colorsystem.hpp class OTF")], ["OTF::toScreen/toScene and the per-curve functions"]))
L.append(P("C15", "Decoding an encoded signal restores it for every transfer function",
 "For each transfer function, decode(encode(x)) equals x and encode(decode(s)) equals s up to single-precision rounding for every x and s of the domain, across segment joints and end points (for BT.709 up to its published constants' own 3e-4 mismatch at the joint). Both directions are monotonically non-decreasing (up to the last bits) and never produce NaN on their domain.",
 ["inputs"], "every single-precision value of each curve's scene and signal domain",
 "Tests round-trip nine inputs of three curves.",
 [("OTF encode/decode functions", "include/colorsystem.hpp class OTF")], ["OTF::toScreen/toScene"]))
L.append(P("C16", "Screen/scene conversion dispatches each type per channel",
 "Converting a triple to screen or scene applies the selected type's curve - and no other - to each of the three channels independently, so permuting or changing one channel permutes or changes only that channel of the result. LINEAR returns the triple unchanged, GAMMA honours the exponent argument, and the exponent does not influence any other type.",
 ["inputs", "configurations"], "all nine types in both directions, all triples with three different channel values, all exponents",
 "Tests use three of nine types, mostly with the same call shape.",
 [("OTF::toScreen/toScene switch", "include/colorsystem.hpp class OTF")], ["OTF::toScreen/toScene"]))
L.append(P("C17", "A gamut built from primaries and white reproduces exactly those",
 "For any non-degenerate primaries and white, the gamut maps RGB (1,1,1) to the XYZ of the white with Y=1 and each unit primary to a colour of the given chromaticity; its XYZ-to-RGB matrix is the inverse of its RGB-to-XYZ matrix, and the reported primaries and white are the given ones. A gamut built from an XYZ-to-RGB matrix keeps that matrix and its inverse.",
 ["inputs"], "all primary triangles of non-negligible area (either orientation, also with imaginary primaries) and all whites with y > 0",
 "Tests compare matrices of three built-in gamuts and never the reported primaries.",
 [("Gamut constructors, primMat/mulDiag, primary*()", "include/colorsystem.hpp class Gamut")], ["Gamut::toXYZ/fromXYZ", "Gamut::primaryRed/Green/Blue/White"]))
L.append(P("C18", "Built-in gamuts and illuminants carry the published values",
 "Each built-in gamut (AdobeRGB, Rec.709, Rec.2020, DCI-P3, S-Gamut, S-Gamut3.Cine, ACEScg, ACES2065, Bradford LMS, XYZ) has the published primaries and white, and hence matrices, in both directions; each built-in illuminant (A, B, C, D50, D55, D60, D65, D75, E, F2, F7, F11) is the published XYZ with Y=1.",
 ["configurations"], "every built-in gamut in both directions and every built-in illuminant",
 "Tests pin AdobeRGB, ACES2065, ACEScg and three illuminants only.",
 [("built-in constants", "include/colorsystem.hpp namespace ColorSystem")], ["Gamut::toXYZ/fromXYZ", "Illuminant_*"]))
L.append(P("C19", "Gamut conversion composes and preserves colour",
 "For any source, intermediate and destination gamut, the conversion matrix maps source RGB to the destination RGB of the same XYZ colour: converting via an intermediate gamut equals converting directly, converting to the same gamut is the identity, converting back is the inverse, and converting to or from XYZ equals the gamut's own matrices.",
 ["configurations", "inputs"], "all ordered pairs and triples of built-in gamuts and arbitrary user-defined ones",
 "One pair (ACES2065 to ACEScg) is tested.",
 [("GamutConvert", "include/colorsystem.hpp")], ["GamutConvert"]))
L.append(P("C20", "Bradford adaptation maps source white to destination white",
 "For any two whites the Bradford matrix maps the source white exactly to the destination white (up to rounding), scales cone responses of every colour by the ratio of the whites' cone responses, is the identity for equal whites, and composes: adapting A to B then B to C equals adapting A to C, and swapping the whites inverts the matrix.",
 ["inputs", "configurations"], "all pairs and triples of built-in illuminants and of arbitrary whites with positive cone responses",
 "One pair (D65 to D50) is tested to 1e-2.",
 [("Bradford, LMS", "include/colorsystem.hpp")], ["Bradford"]))
L.append(P("C21", "Colour temperature conversions follow their approximations everywhere",
 "White from colour temperature, from the Planckian cubic approximation (all its temperature segments) and from CCT with Duv give luminance exactly Y and the chromaticity of the documented polynomials; with Duv=0 the CCT form equals the plain form, and otherwise the result lies at distance |Duv| from the locus point in CIE 1960 uv, perpendicular to the locus, on the green (higher v) side for positive Duv.",
 ["inputs"], "all temperatures in the approximations' ranges (1667-25000 K, 1000-10000 K), all Duv up to +-0.05, all luminances",
 "One temperature per function is tested to 1e-2 and Duv never.",
 [("fromPlanckianLocus/fromCT/fromCCT", "include/colorsystem.hpp class Tristimulus")], ["returned triples"]))
L.append(P("C22", "Colour differences are symmetric, zero only on equality, and as defined",
 "Delta uv, E76, E00 and ICtCp are non-negative, zero for identical colours, and symmetric in their arguments; Delta uv is the Euclidean distance of u and v, E76 that of L*a*b*, and ICtCp is sqrt(dI^2 + 0.25 dCt^2 + dCp^2); the Euclidean ones obey the triangle inequality.",
 ["inputs"], "all pairs (and triples) of finite colours",
 "Tests evaluate E00 twice and nothing else.",
 [("Delta::UV/E76/E00/ICtCp", "include/colorsystem.hpp class Delta")], ["Delta::*"]))
L.append(P("C23", "CIEDE2000 equals the published formula in every hue configuration",
 "Delta E00 equals the CIEDE2000 formula with parametric factors kL, kC, kH for every pair of Lab colours, including hue pairs that straddle 0 degrees, opposite hues, achromatic members, the blue rotation region and any lightness; scaling all three factors by k divides the difference by k.",
 ["inputs"], "all pairs of Lab colours with L from -50 to 400 and chroma up to about 1000, away from the formula's own discontinuity at exactly opposite hues, all positive factors",
 "Two neighbouring blue pairs with default factors are tested.",
 [("Delta::E00", "include/colorsystem.hpp class Delta")], ["Delta::E00"]))
L.append(P("C24", "Spectrum lookup interpolates linearly and clamps at the ends",
 "Looking up a wavelength returns the sample there, the linear interpolation of the two neighbouring samples between them (in the first, last and every other interval), and the first or last sample outside the range; building a spectrum from any number of samples over any wavelength range resamples it that way to 1 nm steps from 380 nm. No lookup reads outside the samples.",
 ["inputs"], "all sample arrays, sample counts >= 2, ranges, and wavelengths inside, at and outside the range",
 "Only the 555 nm sample of one table is looked up.",
 [("Spectrum::fetch and the resampling constructor", "include/colorsystem.hpp class Spectrum")], ["Spectrum::fetch", "Spectrum::operator[]"]))
L.append(P("C25", "Spectral integration is linear and normalised",
 "For any observer, integrating a spectrum gives per channel sum(s*cmf)/sum(cmf) over all 400 samples, so the equal-energy spectrum integrates to exactly its level, scaled and summed spectra integrate to scaled and summed results, and reflectance under a light equals integrating their product. Spectrum addition, multiplication, scaling, sum and dot products act on every one of the 400 samples.",
 ["inputs", "configurations"], "all spectra, reflectances, lights, and built-in or user-defined observers",
 "Tests integrate three spectra with one observer to 1e-2..1e-5 in chromaticity.",
 [("Observer::fromSpectrum/fromReflectanceAndLight, Spectrum algebra", "include/colorsystem.hpp class Observer, Spectrum")], ["Observer::*", "Spectrum::*"]))
L.append(P("C26", "Blackbody spectra follow Planck's law",
 "The Planck function equals 2hc^2/(lambda^5 (exp(hc/(lambda k T))-1)) in W/(m2 sr nm) for every temperature and visible wavelength up to single-precision rounding, the blackbody spectrum samples it at 380..779 nm, and it strictly increases with temperature at every wavelength.",
 ["inputs"], "all temperatures 1000-30000 K and all wavelengths 380-779 nm",
 "One temperature and wavelength is tested to 0.4%.",
 [("Spectrum::planck/blackbody", "include/colorsystem.hpp class Spectrum")], ["Spectrum::planck", "Spectrum::blackbody"]))
L.append(P("C27", "Built-in spectral data sets are complete, ordered and as published",
 "The colour matching functions of the three built-in observers, the D65 illuminant, the 99 TM-30-15 reflectances and the 24 chart patches hold the published value at each of the 400 wavelengths, the indexed collections list them in the published order, and each built-in observer is made of its own three functions.",
 ["configurations"], "each of the 133 tables at each of the 400 wavelengths, and every position of the two collections",
 "Tests read a handful of integrals with tolerances that hide a wrong entry, patch, or order.",
 [("data tables, TM_30_15::sample, Macbeth::Patch, CIE1931/CIE31JV/CIE2012", "include/colorsystem.hpp")], ["Spectrum::operator[]", "Observer::xyz"]))
L.append(P("C28", "The linear solver returns the least-squares solution",
 "For every system with at least as many equations as unknowns and full column rank, the solver returns the unique least-squares solution (the exact solution if consistent) up to rounding and conditioning and reports success; when columns are missing or dependent it returns the least-squares solution of smallest norm (singular values below the given relative tolerance, by default 1e-5 of the largest, count as zero, so an unknown that no equation mentions comes back as 0), and a system with fewer equations than unknowns is reported as failure. The decomposition it is built on returns orthonormal factors and non-negative singular values whose product is the input.",
 ["inputs"], "all system sizes, well-conditioned coefficient matrices (any sign and zero pattern, zero columns, magnitudes whose squares neither overflow nor underflow), right-hand sides consistent or not",
 "No test calls the solver.",
 [("SOLVER::solve/svdcmp/svbksb", "include/colorsystem.hpp namespace SOLVER")], ["SOLVER::solve", "SOLVER::svdcmp"]))
L.append(P("C29", "Colour correction recovers the best matrix from chart patches",
 "Given measured patches and targets, the corrector returns the 3x3 matrix that minimises the summed squared error, hence exactly the generating matrix when targets are a linear function of the patches; the order and number of patches do not matter beyond that. Without explicit targets it uses the 24 chart patches under the given light and observer, and the gamut made from a chart maps the measured patches to those references with its toXYZ.",
 ["inputs", "configurations"], "all patch sets that span three dimensions, all generating matrices, all lights and observers",
 "No test calls the corrector.",
 [("Corrector::solve/makeGamut, Macbeth::reference", "include/colorsystem.hpp class Corrector, namespace Macbeth")], ["Corrector::solve", "Corrector::makeGamut", "Macbeth::reference"]))
L.append(P("C30", "Conversions are pure: history-independent, thread-safe and silent",
 "Every conversion, difference, integration and solver call returns a result that depends only on its arguments: the same call gives the same bits whatever was called before, in whatever order and from however many threads at once, and it modifies none of its inputs. No library call writes to standard output or standard error.",
 ["histories", "schedules"], "all orders and repetitions of calls, and all thread interleavings of concurrent calls on distinct results",
 "Each test makes one call sequence in one thread and ignores what is printed.",
 [("stateless static functions", "include/colorsystem.hpp")], ["return values", "stdout/stderr", "ThreadSanitizer"]))
L.append(P("C31", "Photometric quantities follow the observer at any wavelength",
 "For any observer, luminous flux of monochromatic light is 683 lm/W times the interpolated luminosity function times the watts, the radiance form gives 683 times all three interpolated functions times the radiance, and the observer's response at a wavelength is the interpolated functions divided by their sums; all are linear in power.",
 ["inputs", "configurations"], "all wavelengths inside and outside 380-779 nm, all powers, built-in and user-defined observers",
 "One wavelength (555 nm) and power (1 W) is tested.",
 [("Observer::lumensFromMonochromaticFlux/candellasFromMonochromaticRadiance/xyz", "include/colorsystem.hpp class Observer")], ["Observer::*"]))
L.append(P("C32", "The compile-time square root is correct for every float",
 "The library's compile-time square root terminates and returns the square root to within rounding for every finite non-negative single-precision number including zero, subnormals and the largest finite value, is the same at compile time and run time, and returns NaN for negative numbers, infinity and NaN.",
 ["inputs"], "all 2^32 single-precision bit patterns",
 "It is never tested; non-termination or a wrong last digit needs specific inputs.",
 [("util::sqrtf", "include/colorsystem.hpp namespace util")], ["util::sqrtf"]))
L.append(P("C33", "Constant evaluation by the compiler gives the run-time results",
 "Matrix and triple arithmetic, chromaticity, CIELAB and HSV conversion, whites from colour temperature, gamut construction and conversion, spectrum lookup (of two or more samples), sums and integration, and photometry can be evaluated by the compiler as constant expressions for every valid input. They give the same mathematically specified results there as when they are called at run time on inputs unknown to the compiler.",
 ["inputs", "configurations"], "all functions the header declares constexpr that need no math library but cbrt and pow, all valid inputs, evaluation by the compiler or at run time",
 "No test evaluates them as constants on more than a handful of fixed inputs; an out-of-range access, an indeterminate value or a branch only the compiler takes shows up only there.",
 [("Matrix3, Tristimulus, Gamut, Spectrum, Observer constexpr members", "include/colorsystem.hpp"), ("GamutConvert", "include/colorsystem.hpp")], ["Matrix3::invert", "Spectrum::fetch", "GamutConvert"]))
L.append(P("C34", "Library calls are memory-safe and always return",
 "Every library call with valid arguments returns after finite time, reads and writes only its arguments, its result and memory it owns, indexes every container inside its bounds, never uses an uninitialised value, and has released everything it allocated when its objects are gone - on failure paths as well as on success.",
 ["inputs", "histories"], "all calls of the public API with valid arguments, every sequence of calls on one stream, all sizes of systems, sample tables and patch sets",
 "Tests compare returned numbers only; a stray access, an uninitialised read or a leak usually leaves them unchanged.",
 [("whole header", "include/colorsystem.hpp"), ("MemoryStream", "include/colorsystem.hpp class MemoryStream"), ("SOLVER", "include/colorsystem.hpp namespace SOLVER"), ("Spectrum::fetch", "include/colorsystem.hpp class Spectrum")], ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, valgrind memcheck"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(L), "properties")
