// The one call of pocketfft that HEIR makes (it is not installed here): an
// unnormalised complex transform in one dimension, times a factor.
#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <vector>
namespace pocketfft {
using shape_t = std::vector<size_t>;
using stride_t = std::vector<ptrdiff_t>;
constexpr bool FORWARD = true, BACKWARD = false;
template <typename T>
void c2c(const shape_t &shape, const stride_t &, const stride_t &, const shape_t &, bool forward, const std::complex<T> *in,
         std::complex<T> *out, T factor) {
  size_t n = shape[0];
  std::vector<std::complex<long double>> w(n);
  for (size_t k = 0; k < n; ++k) {
    long double a = 2 * M_PIl * k / n;
    w[k] = {std::cos(a), forward ? -std::sin(a) : std::sin(a)};
  }
  for (size_t k = 0; k < n; ++k) {
    long double re = 0, im = 0;
    size_t i = 0;
    for (size_t j = 0; j < n; ++j) {
      re += in[j].real() * w[i].real() - in[j].imag() * w[i].imag();
      im += in[j].real() * w[i].imag() + in[j].imag() * w[i].real();
      if ((i += k) >= n) i -= n;
    }
    out[k] = {T(re * factor), T(im * factor)};
  }
}
}  // namespace pocketfft
