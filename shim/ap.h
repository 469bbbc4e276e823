// Stand-in for ALGLIB's ap.h (ALGLIB is not installed here)
#pragma once
#include <cstddef>
#include <vector>
namespace alglib
{
using ae_int_t = std::ptrdiff_t;
template <class T>
struct shim_array2d
{
    std::vector<T> v{};
    ae_int_t       r{0}, c{0};
    void           setlength(ae_int_t rr, ae_int_t cc)
    {
        r = rr;
        c = cc;
        v.assign(static_cast<size_t>(rr * cc), T{});
    }
    T&       operator()(ae_int_t i, ae_int_t j) { return v.at(static_cast<size_t>(i * c + j)); }
    const T& operator()(ae_int_t i, ae_int_t j) const { return v.at(static_cast<size_t>(i * c + j)); }
    ae_int_t rows() const { return r; }
    ae_int_t cols() const { return c; }
};
using real_2d_array    = shim_array2d<double>;
using integer_2d_array = shim_array2d<ae_int_t>;
}  // namespace alglib
