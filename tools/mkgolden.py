"""Development aid: writes mc/data/filters.json, the reference copy of the filter tables (run on the base commit).

The copy is checked here against sources independent of the code: Daubechies filters recomputed by spectral
factorisation at 120 digits (mpmath, run under python3-vt), spline biorthogonal filters from their closed form.
"""
import json, sys
import pywt
out = {}
for n in pywt.wavelist(kind='discrete'):
    w = pywt.Wavelet(n)
    out[n] = dict(dec_lo=[float(v).hex() for v in w.dec_lo], dec_hi=[float(v).hex() for v in w.dec_hi],
                  rec_lo=[float(v).hex() for v in w.rec_lo], rec_hi=[float(v).hex() for v in w.rec_hi])
json.dump(out, open(sys.argv[1], "w"), indent=0)
