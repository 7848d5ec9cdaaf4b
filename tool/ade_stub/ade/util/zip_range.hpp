#pragma once
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <utility>
#include <vector>
namespace ade { namespace util {
template <class T> struct Indexed { size_t i; T v; };
template <class R> auto indexed(R&& r) {
    using T = typename std::decay<decltype(*std::begin(r))>::type;
    std::vector<Indexed<T>> out; size_t i = 0;
    for (auto&& x : r) out.push_back(Indexed<T>{i++, x});
    return out;
}
template <class T> size_t index(const Indexed<T>& x) { return x.i; }
template <class T> const T& value(const Indexed<T>& x) { return x.v; }
template <class R, class P> auto filter(R&& r, P p) {
    using T = typename std::decay<decltype(*std::begin(r))>::type;
    std::vector<T> out; for (auto&& x : r) if (p(x)) out.push_back(x);
    return out;
}
template <class R, class O, class F> O transform(R&& r, O o, F f) { for (auto&& x : r) *o++ = f(x); return o; }
} } // namespace ade::util
