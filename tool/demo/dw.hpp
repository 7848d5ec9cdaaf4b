// Small helper for demonstrations against the built library.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <vector>
#include <deepworks/deepworks.hpp>
#include <deepworks/initializers.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/nn.hpp>
#include <deepworks/utils/utils.hpp>
#include "expression/call_impl.hpp"
#include "expression/placeholder_impl.hpp"
#include "runtime/cpu/layers/cpulayer.hpp"
#include "runtime/cpu/kernels/kernels.hpp"
namespace dw = deepworks;
static int g_fail = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); g_fail = 1; } } while (0)
static inline bool near(float a, float b, float eps = 1e-3f) { return std::fabs(a - b) <= eps * (1.f + std::fabs(b)); }
static inline void fillseq(dw::Tensor t, unsigned seed) {
    unsigned s = seed * 2654435761u + 12345u;
    for (size_t i = 0; i < t.total(); i++) { s = s * 1664525u + 1013904223u; t.data()[i] = float((s >> 8) % 20001) / 10000.f - 1.f; }
}
static inline dw::Tensor T(std::vector<int> shape, unsigned seed) { dw::Tensor t(shape); fillseq(t, seed); return t; }
// a layer as the execution backend would create it
struct L {
    dw::LayerInfo info; dw::cpu::ICPULayer::Ptr impl; dw::Shape out;
    L(dw::Placeholder ph) : info(ph.impl().call.value().impl().info), out(ph.shape()) { impl = dw::cpu::ICPULayer::create(dw::LayerInfo(info)); }
};
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
#define DONE() return g_fail
