// Naive DFT with pocketfft's c2c signature (pocketfft is not available offline).
#pragma once
#include <cmath>
#include <complex>
#include <cstddef>
#include <vector>
namespace pocketfft {
using shape_t = std::vector<std::size_t>;
using stride_t = std::vector<std::ptrdiff_t>;
constexpr bool FORWARD = true, BACKWARD = false;
template <typename T>
void c2c(const shape_t &shape, const stride_t &, const stride_t &, const shape_t &, bool forward,
         const std::complex<T> *in, std::complex<T> *out, T fct, std::size_t = 1) {
  std::size_t n = shape[0];
  std::vector<std::complex<T>> r(n);
  for (std::size_t k = 0; k < n; ++k) {
    std::complex<long double> s = 0;
    for (std::size_t j = 0; j < n; ++j) {
      long double a = 2.0L * 3.141592653589793238462643383279503L * (long double)((k * j) % n) / n * (forward ? -1 : 1);
      s += std::complex<long double>(in[j].real(), in[j].imag()) * std::complex<long double>(std::cos(a), std::sin(a));
    }
    r[k] = std::complex<T>((T)(s.real() * fct), (T)(s.imag() * fct));
  }
  for (std::size_t k = 0; k < n; ++k) out[k] = r[k];
}
}
