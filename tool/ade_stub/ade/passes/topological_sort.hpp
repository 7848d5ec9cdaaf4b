#pragma once
#include <ade/graph.hpp>
#include <ade/util/zip_range.hpp>
namespace ade { namespace passes {
struct PassContext { Graph& graph; };
class TopologicalSortData {
public:
    static const char* name() { return "TopologicalSortData"; }
    explicit TopologicalSortData(std::vector<NodeHandle> n = {}) : m_n(std::move(n)) {}
    const std::vector<NodeHandle>& nodes() const { return m_n; }
private:
    std::vector<NodeHandle> m_n;
};
struct TopologicalSort {
    void operator()(PassContext ctx) const {
        std::unordered_map<Node*, size_t> pending; std::vector<NodeHandle> ready, out;
        for (auto& n : ctx.graph.nodes()) { pending[n.get()] = n->inEdges().size(); if (n->inEdges().empty()) ready.push_back(n); }
        for (size_t i = 0; i < ready.size(); ++i) { auto n = ready[i]; out.push_back(n);
            for (auto& e : n->outEdges()) if (--pending[e->dstNode().get()] == 0) ready.push_back(e->dstNode()); }
        ctx.graph.meta[TopologicalSortData::name()] = TopologicalSortData(out);
    }
};
} } // namespace ade::passes
