// C25: the padded FFT size is the smallest even 11-smooth size that is large enough.
#include "common.h"
#include "ska-sdp-func/fourier_transforms/sdp_fft_padded_size.h"
static bool smooth(int n)
{
    if (n <= 0 || n % 2) return false;
    static const int p[] = {2, 3, 5, 7, 11};
    for (int i = 0; i < 5; ++i) while (n % p[i] == 0) n /= p[i];
    return n == 1;
}
extern "C" void harness(void)
{
    const int lo = CFG(lo, 0), hi = CFG(hi, 200);
    const double f = CFG(f, 100) / 100.0;
    if (CFG(leak, 0)) sym_leak_begin();
    // The size wanted ranges over (lo, hi]; the factor is any factor giving it.
    if (CFG(op, 0) == 0)
    {
        const int n = sym_int("n", lo, hi);
        const int r = sdp_fft_padded_size(n, f);
        sym_check(r >= n * f, "large-enough");
        sym_check(smooth(r), "even-and-smooth");
        int best = r - 2;
        while (best > 0 && !smooth(best)) best -= 2;
        if (best > 0) sym_check(best < n * f, "smallest");
    }
    else
    {
        const int n = CFG(n, 50);
        const double g = sym_double("factor", lo / 100.0, hi / 100.0);
        const int r = sdp_fft_padded_size(n, g);
        sym_check(r >= n * g, "large-enough");
        sym_check(smooth(r), "even-and-smooth");
        int best = r - 2;
        while (best > 0 && !smooth(best)) best -= 2;
        if (best > 0) sym_check(best < n * g, "smallest");
    }
    if (CFG(leak, 0)) sym_leak_check();
}
