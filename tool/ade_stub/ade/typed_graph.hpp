#pragma once
#include <ade/graph.hpp>
namespace ade {
class TypedMetadata {
public:
    explicit TypedMetadata(MetaMap& m) : m_m(m) {}
    template <class T> T& get() const { return std::any_cast<T&>(m_m.at(T::name())); }
    template <class T> void set(const T& v) { m_m[T::name()] = v; }
    template <class T> bool contains() const { return m_m.count(T::name()) != 0; }
private:
    MetaMap& m_m;
};
template <class... Types> class TypedGraph {
public:
    explicit TypedGraph(Graph& g) : m_g(g) {}
    NodeHandle createNode() { return m_g.createNode(); }
    EdgeHandle link(const NodeHandle& a, const NodeHandle& b) { return m_g.link(a, b); }
    TypedMetadata metadata() { return TypedMetadata(m_g.meta); }
    TypedMetadata metadata(const NodeHandle& n) { return TypedMetadata(n->meta); }
    TypedMetadata metadata(const EdgeHandle& e) { return TypedMetadata(e->meta); }
    const std::vector<NodeHandle>& nodes() const { return m_g.nodes(); }
private:
    Graph& m_g;
};
} // namespace ade
