#!/usr/bin/env python3
"""Writes known_findings.json (run by hand)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 dict(property="C12", what="bior5.5/rbio5.5 advertise 5 and 5 vanishing moments; their filters have 6 and 4",
      match=dict(msg="vanishing moments", case=["wav", "bior5.5"], detail=dict(which="rec_hi", advertised=5))),
 dict(property="C12", what="bior5.5/rbio5.5 advertise 5 and 5 vanishing moments; their filters have 6 and 4",
      match=dict(msg="vanishing moments", case=["wav", "rbio5.5"], detail=dict(which="dec_hi", advertised=5))),
]      # dict(property=, what=, match={...})
FIXED = [
 ("threshold_firm keeps large", "C18", "threshold_firm zeroed values above value_high unless the first row held one (np.any applied to the wrong object)"),
 ("soft and garrote", "C18", "threshold(0, value=0, 'soft'/'garrote') gave nan (0/0)"),
 ("threshold_firm returns zero, not nan", "C18", "threshold_firm gave nan where its formula is 0/0"),
 ("imra2 and imran do not modify", "C10", "imra2/imran added into their first input component"),
 ("iswtn does not modify", "C19", "iswtn inserted the approximation into the caller's dictionaries"),
 ("WaveletPacketND.reconstruct trims", "C11", "WaveletPacketND.reconstruct returned one sample too many along odd axes"),
 ("pickling a WaveletPacket or", "C11", "pickle of WaveletPacket/WaveletPacket2D lost axis/axes"),
 ("wavedecn_shapes picks", "C07", "wavedecn_shapes default level differed from wavedecn's for per-axis wavelets"),
 ("mra2 and mran choose", "C10", "mra2/mran default level used untransformed axes"),
 ("mra, mra2 and mran accept", "C10", "mra* raised on lists"),
 ("WaveletPacketND accepts any", "C11", "WaveletPacketND(list) without axes raised AttributeError"),
 ("pad in smooth and", "C15", "pad smooth/antisymmetric with zero right pad or length-1 data was wrong"),
 ("downcoef rejects length-1", "C23", "downcoef looped forever on length-1 data in reflect/antireflect mode"),
 ("dwtn and dwt2 raise AxisError", "C23", "dwtn/dwt2 with an axis outside the data read out of range shape entries / raised IndexError"),
 ("upcoef and downcoef reject", "C23", "upcoef/downcoef accepted part='' and part='ad' (substring test)"),
 ("keep the precision and the imaginary part of byte-swapped", "C19", "byte-swapped complex input lost its imaginary part, byte-swapped float32 was promoted"),
 ("accept sequences of complex", "C19", "a list of complex numbers lost its imaginary part"),
 ("accept read-only 1-D", "C19", "read-only 1-D arrays were rejected by dwt, upcoef and downcoef"),
 ("idwt rejects coefficient", "C23", "idwt of arrays with different ndim returned garbage or an obscure error"),
 ("iswt2 and iswtn keep the wider", "C09", "iswt2/iswtn dropped the imaginary part of details of coarser levels"),
 ("assigning a packet node", "C11", "tree[path] = node cast the node's data to the tree's dtype, dropping imaginary parts"),
 ("pickling or copying a wavelet", "C13", "a pickled or copied Wavelet/ContinuousWavelet lost orthogonality, family, symmetry, vanishing moments, bounds and frequencies"),
 ("ContinuousWavelet accepts any spelling", "C13", "ContinuousWavelet(dtype='float64').wavefun raised"),
 ("central_frequency folds only", "C17", "central_frequency(precision=1) returned a frequency above Nyquist on odd-length grids (e.g. db2)"),
 ("parameters in continuous wavelet names", "C17", "ContinuousWavelet('cmor.5-1') silently used 5 instead of 0.5"),
 ("does not lose precision for scales", "C16", "cwt with int8, uint8, int16 or float16 scales computed sqrt(scale) in half or single precision (error 1e-4)"),
 ("soft, garrote and firm thresholding accept scalar", "C18", "threshold(3.0, 1) in soft and garrote modes and threshold_firm of a scalar raised TypeError"),
 ("most negative value of a signed", "C18", "thresholding int8 data treated -128 as smaller than any threshold (hard zeroed it, soft grew it)"),
 ("half-precision and byte-swapped coefficients do not", "C19", "idwt2/idwtn promoted float32 to double when some coefficients were byte-swapped, and waverec2/waverecn for half-precision coefficients (C20)"),
 ("iswtn processes long double", "C20", "iswtn (and iswt of N-D arrays) returned long double, with double accuracy, for long double coefficients"),
 ("pywt.data loaders return", "C24", "pywt.data.camera/ascent/aero/ecg/nino returned a shared cached array: modifying a sample changed it for the whole process"),
 ("returns a copy of the list of signal names", "C24", "demo_signal('list') returned the module's own list"),
 ("number does not match the coefficient keys", "C23", "idwtn silently returned None when the number of axes differed from the key length"),
 ("trim the transformed axes only", "C23", "waverec/waverec2/waverecn silently cut off samples along untransformed axes whose sizes mismatched"),
 ("iswt: reject coefficient arrays of different", "C23", "iswt returned garbage for coefficient arrays of different lengths"),
 ("iswtn: reject negative axes", "C23", "iswtn accepted out-of-range negative axes"),
 ("swtn, swt2: reject a negative level", "C23", "swtn/swt2 returned [] for a negative level"),
 ("through a negative alias", "C23", "wavedec2/wavedecn/wavedecn_shapes/dwtn_max_level/fswavedecn accepted a repeated axis written as (0, -ndim)"),
 ("validate wavelets and modes", "C23", "FswavedecnResult accepted wavelets and modes of any type (np.all of a generator)"),
 ("integer-valued float levels in indexing", "C06", "FswavedecnResult[(1.0, 1.0)] raised TypeError although float levels are accepted by its validation"),
 ("no longer overflows the level check", "C23", "swt(start_level=1, level=2**64-1) returned [] (overflow of start_level + level)"),
 ("reject details whose shape differs from", "C23", "iswt2/iswtn returned a partly reconstructed array when the details of a level were smaller than the approximation"),
 ("reject too few coefficients along an axis of n-D", "C23", "idwt of n-D arrays with too few coefficients for the wavelet returned an empty array (1-D raises)"),
 ("no crash when there is no memory for the Haar", "C26", "pywt.Wavelet('haar') crashed when its allocation failed (NULL was dereferenced)"),
 ("swt along an axis raises when there is no memory", "C26", "swt2/swtn/swt(axis=) returned unwritten data when the upsampled filter could not be allocated"),
 ("exactly n samples for every n", "C28", "demo_signal returned n+1 samples for n=49, 103, ... (and nan for Doppler)"),
 ("HypChirps raised", "C28", "demo_signal('HypChirps', n) raised for n=7, 31, 63, 2047 and had nan for n=6, 8..11"),
 ("Chirps raised for n not a multiple", "C28", "demo_signal('Chirps', n) raised for most n that are not multiples of 8 and was nan for n=8"),
 ("Piece-Regular and Piece-Polynomial raised", "C28", "demo_signal('Piece-Regular' / 'Piece-Polynomial', n) raised for n a multiple of 5"),
 ("Riemann raised", "C28", "demo_signal('Riemann', n) raised IndexError where the square root of n rounds up, e.g. n=1000"),
 ("a rejected assignment", "C11", "an assignment that raised had already created or discarded nodes"),
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
fixed = []
used = set()
for pre, prop, what in FIXED:
    m = [l for l in log if l.split(" ", 1)[1].startswith("fix: ") and pre in l]
    assert len(m) == 1, (pre, m)
    used.add(m[0])
    fixed.append("fixed: property=%s %s %s" % (prop, m[0].split()[0], what))
for l in log:
    if l.split(" ", 1)[1].startswith("fix:") and l not in used:
        print("unlisted", l)
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump(dict(findings=FINDINGS, fixed=fixed), f, indent=1)
    f.write("\n")
