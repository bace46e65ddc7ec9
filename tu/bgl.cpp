// Analysis-only translation unit: the graph adaptor over an opaque graph.
// The graph interface of the underlying library is declared here, never
// defined; iterators and descriptors are opaque.
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <cstddef>
#include <iterator>
#include <utility>

namespace vw
{
struct BG
{
    long tag;
};
struct ED
{
    long id;
    bool operator==(const ED&) const;
    bool operator!=(const ED&) const;
};
template <typename T>
struct IT
{
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    long pos;
    T operator*() const;
    IT& operator++();
    IT operator++(int);
    IT& operator--();
    bool operator==(const IT&) const;
    bool operator!=(const IT&) const;
};
}
namespace boost
{
template <>
struct graph_traits<vw::BG>
{
    using vertex_descriptor = unsigned long;
    using edge_descriptor = vw::ED;
    using vertex_iterator = vw::IT<unsigned long>;
    using edge_iterator = vw::IT<vw::ED>;
    using out_edge_iterator = vw::IT<vw::ED>;
    static unsigned long null_vertex();
};
std::pair<vw::IT<unsigned long>, vw::IT<unsigned long>> vertices(const vw::BG&);
std::pair<vw::IT<vw::ED>, vw::IT<vw::ED>> edges(const vw::BG&);
std::pair<vw::IT<vw::ED>, vw::IT<vw::ED>> out_edges(unsigned long, const vw::BG&);
unsigned long num_vertices(const vw::BG&);
unsigned long num_edges(const vw::BG&);
unsigned long source(const vw::ED&, const vw::BG&);
unsigned long target(const vw::ED&, const vw::BG&);
std::pair<vw::IT<vw::ED>, vw::IT<vw::ED>> in_edges(unsigned long, const vw::BG&);
std::pair<vw::IT<unsigned long>, vw::IT<unsigned long>> adjacent_vertices(unsigned long, const vw::BG&);
unsigned long out_degree(unsigned long, const vw::BG&);
unsigned long in_degree(unsigned long, const vw::BG&);
std::pair<vw::ED, bool> edge(unsigned long, unsigned long, const vw::BG&);
std::pair<vw::ED, bool> add_edge(unsigned long, unsigned long, vw::BG&);
}
#include <py2cpp/nx2bgl.hpp>

namespace vw
{
using GA = xn::grAdaptor<BG>;
long v_begin(const GA& G) { return G.begin().pos; }
long v_end(const GA& G) { return G.end().pos; }
long v_cbegin(const GA& G) { return G.cbegin().pos; }
long v_cend(const GA& G) { return G.cend().pos; }
long e_begin(const GA& G) { return G.edges().begin().pos; }
long e_end(const GA& G) { return G.edges().end().pos; }
long e_cbegin(const GA& G) { return G.edges().cbegin().pos; }
long e_cend(const GA& G) { return G.edges().cend().pos; }
long o_begin(const GA& G, unsigned long v) { return G.neighbors(v).begin().pos; }
long o_end(const GA& G, unsigned long v) { return G.neighbors(v).end().pos; }
long o_cbegin(const GA& G, unsigned long v) { return G.neighbors(v).cbegin().pos; }
long o_cend(const GA& G, unsigned long v) { return G.neighbors(v).cend().pos; }
unsigned long n_nodes(const GA& G) { return G.number_of_nodes(); }
unsigned long n_edges(const GA& G) { return G.number_of_edges(); }
unsigned long nil(const GA&) { return GA::null_vertex(); }
unsigned long src(const GA& G, const ED& e) { return G.source(e); }
unsigned long dst(const GA& G, const ED& e) { return G.target(e); }
unsigned long ends_s(const GA& G, const ED& e) { return G.end_points(e).first; }
unsigned long ends_t(const GA& G, const ED& e) { return G.end_points(e).second; }
void add(GA& G, unsigned long u, unsigned long v) { G.add_edge(u, v); }
bool add_ok(GA& G, unsigned long u, unsigned long v) { return G.add_edge(u, v).second; }
long add_id(GA& G, unsigned long u, unsigned long v) { return G.add_edge(u, v).first.id; }
long wrapped(BG&& B) { return GA {std::move(B)}.tag; }
long rest(GA& G, unsigned long u, unsigned long v)
{
    G.add_edge(u, v);
    return G.tag;
}
}
