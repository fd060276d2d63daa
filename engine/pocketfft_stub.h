// Contract stand-in for the vendored pocketfft library: the discrete Fourier
// transform computed from its definition.
#ifndef POCKETFFT_HDRONLY_H
#define POCKETFFT_HDRONLY_H
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace pocketfft {
using std::size_t; using std::ptrdiff_t;
using shape_t = std::vector<size_t>;
using stride_t = std::vector<ptrdiff_t>;
constexpr bool FORWARD = true, BACKWARD = false;
template<typename T> void c2c(const shape_t& shape, const stride_t& si, const stride_t& so, const shape_t& axes,
        bool forward, const std::complex<T>* in, std::complex<T>* out, T fct, size_t = 1)
{
    size_t nd = shape.size(), total = 1;
    for (size_t i = 0; i < nd; ++i) total *= shape[i];
    if (total == 0) return;
    for (size_t a = 0; a < axes.size(); ++a)
    {
        const char* src = a == 0 ? (const char*) in : (const char*) out;
        const stride_t& ss = a == 0 ? si : so;
        size_t ax = axes[a], n = shape[ax];
        double* tw = (double*) malloc(2 * n * sizeof(double));
        for (size_t k = 0; k < n; ++k)
        {
            // Exact at quarter turns.
            double c = std::cos(2 * M_PI * (double) k / (double) n), s = std::sin(2 * M_PI * (double) k / (double) n);
            if (4 * k % n == 0) { size_t q = 4 * k / n; c = q == 0 ? 1 : q == 2 ? -1 : 0; s = q == 1 ? 1 : q == 3 ? -1 : 0; }
            tw[2 * k] = c; tw[2 * k + 1] = forward ? -s : s;
        }
        std::complex<T>* tmp = (std::complex<T>*) malloc(n * sizeof(std::complex<T>));
        for (size_t l = 0; l < total / n; ++l)
        {
            size_t r = l; ptrdiff_t os = 0, oo = 0;
            for (size_t d = nd; d-- > 0;)
            {
                if (d == ax) continue;
                size_t i = r % shape[d]; r /= shape[d];
                os += (ptrdiff_t) i * ss[d]; oo += (ptrdiff_t) i * so[d];
            }
            for (size_t k = 0; k < n; ++k)
            {
                T re = 0, im = 0;
                for (size_t j = 0; j < n; ++j)
                {
                    const T* x = (const T*) (src + os + (ptrdiff_t) j * ss[ax]);
                    T c = (T) tw[2 * ((j * k) % n)], s = (T) tw[2 * ((j * k) % n) + 1];
                    re += x[0] * c - x[1] * s;
                    im += x[0] * s + x[1] * c;
                }
                ((T*) tmp)[2 * k] = re * (a == 0 ? fct : 1); ((T*) tmp)[2 * k + 1] = im * (a == 0 ? fct : 1);
            }
            for (size_t k = 0; k < n; ++k)
            {
                T* y = (T*) ((char*) out + oo + (ptrdiff_t) k * so[ax]);
                y[0] = ((T*) tmp)[2 * k]; y[1] = ((T*) tmp)[2 * k + 1];
            }
        }
        free(tmp); free(tw);
    }
}
}
#endif
