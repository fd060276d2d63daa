#pragma once
#include <complex>
namespace thrust { using std::complex; using std::conj; using std::norm; using std::abs; using std::exp; using std::polar; }
