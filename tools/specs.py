"""What each check runs: harness, sources of the real code, configurations, bounds."""
import itertools

CORE = ["utility/sdp_mem.cpp", "utility/sdp_data_model_checks.c", "utility/sdp_device_wrapper.cpp"]
FFT = ["fourier_transforms/sdp_fft.cpp"]
GU = CORE + ["grid_data/sdp_gridder_utils.cpp", "fourier_transforms/sdp_pswf.cpp"]
COMMON_ASSUMPTIONS = [
    "floating point is interpreted as exact real arithmetic (rounding, overflow to infinity and NaN inputs are outside the claim); comparisons tolerate the rounding of constants",
    "the C/C++ library (malloc, memcpy, libm) behaves as documented; pocketfft is replaced by the definition of the DFT in the symbolic run",
    "CPU code path, pocketfft build, as compiled by clang 18 -O1 to LLVM IR from /repo's current sources",
    "within the stated array sizes and value ranges only",
]


def grid(**kw):
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[x if isinstance(x, (list, tuple, range)) else [x] for x in kw.values()])]


SPECS = {}
import glob
import os
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs.d", "*.py"))):
    exec(compile(open(_f).read(), _f, "exec"))
