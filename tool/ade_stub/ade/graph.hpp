// Minimal stand-in for the parts of the `ade` graph library deepworks uses
// (the submodule is absent from the tree).  Functional, so the model sources can
// be parsed with full type resolution (and defects confirmed) against it.
#pragma once
#include <algorithm>
#include <any>
#include <functional>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace ade {
class Node; class Edge; class Graph;
template <class T> class Handle {
public:
    Handle() = default;
    Handle(std::nullptr_t) {}
    explicit Handle(std::shared_ptr<T> p) : m_p(std::move(p)) {}
    T* operator->() const { return m_p.get(); }
    T* get() const { return m_p.get(); }
    bool operator==(const Handle& o) const { return m_p == o.m_p; }
    bool operator!=(const Handle& o) const { return m_p != o.m_p; }
private:
    std::shared_ptr<T> m_p;
};
using NodeHandle = Handle<Node>;
using EdgeHandle = Handle<Edge>;
using MetaMap = std::unordered_map<std::string, std::any>;
class Edge {
public:
    NodeHandle srcNode() const { return m_src; }
    NodeHandle dstNode() const { return m_dst; }
    NodeHandle m_src, m_dst; MetaMap meta;
};
class Node {
public:
    const std::vector<EdgeHandle>& inEdges() const { return m_in; }
    const std::vector<EdgeHandle>& outEdges() const { return m_out; }
    std::vector<NodeHandle> inNodes() const { std::vector<NodeHandle> r; for (auto& e : m_in) r.push_back(e->srcNode()); return r; }
    std::vector<NodeHandle> outNodes() const { std::vector<NodeHandle> r; for (auto& e : m_out) r.push_back(e->dstNode()); return r; }
    std::vector<EdgeHandle> m_in, m_out; MetaMap meta;
};
class Graph {
public:
    NodeHandle createNode() { NodeHandle n(std::make_shared<Node>()); m_nodes.push_back(n); return n; }
    EdgeHandle link(const NodeHandle& a, const NodeHandle& b) {
        EdgeHandle e(std::make_shared<Edge>()); e->m_src = a; e->m_dst = b;
        a->m_out.push_back(e); b->m_in.push_back(e); return e;
    }
    const std::vector<NodeHandle>& nodes() const { return m_nodes; }
    MetaMap meta;
private:
    std::vector<NodeHandle> m_nodes;
};
} // namespace ade
namespace std {
template <class T> struct hash<ade::Handle<T>> { size_t operator()(const ade::Handle<T>& h) const { return hash<T*>()(h.get()); } };
}
