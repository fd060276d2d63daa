// Shared by the CLEAN harnesses.
#pragma once
#include "common.h"
#include <cmath>
#define PI 3.14159265358979323846
// "Same" convolution of n x n with m x m: the central n x n part of the full one.
static inline double same(const double* a, int n, const double* b, int m, int x, int y)
{
    double s = 0;
    const int h = (m - 1) / 2;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    {
        const int p = x + h - i, q = y + h - j;
        if (p >= 0 && p < m && q >= 0 && q < m) s += a[i * n + j] * b[p * m + q];
    }
    return s;
}
// Clean beam of m x m pixels, with its peak at pixel m / 2.
static inline void beam(double sx, double sy, double deg, int m, double* b)
{
    const double t = deg * PI / 180, c = cos(t), s = sin(t);
    for (int x = 0; x < m; ++x) for (int y = 0; y < m; ++y)
    {
        const double dx = x - m / 2, dy = y - m / 2;
        const double A = c * c / (2 * sx * sx) + s * s / (2 * sy * sy), B = 2 * s * c / (4 * sx * sx) - 2 * s * c / (4 * sy * sy), C = s * s / (2 * sx * sx) + c * c / (2 * sy * sy);
        b[x * m + y] = exp(-(A * dx * dx + 2 * B * dx * dy + C * dy * dy));
    }
}
