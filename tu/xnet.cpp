// Analysis-only translation unit: clients of the network containers.
#include <cstddef>
#include <utility>
#include <vector>
#include <xnetwork/classes/digraphs.hpp>
#include <xnetwork/classes/graph.hpp>

namespace vw
{
using R = decltype(py::range<int>(1));
using US = xn::Graph<R, py::set<int>>;
using UD = xn::Graph<R, py::dict<int, int>>;
using DS = xn::DiGraphS<R, py::set<int>>;
using DD = xn::DiGraphS<R, py::dict<int, int>>;
using EL = std::vector<std::pair<int, int>>;
using VL = std::vector<int>;

// the undirected container without data
bool us_has(US& G, int p, int q) { return G.has_edge(p, q); }
bool us_add_has(US& G, int u, int v, int p, int q)
{
    G.add_edge(u, v);
    return G.has_edge(p, q);
}
size_t us_count(US& G) { return G.number_of_edges(); }
size_t us_add_count(US& G, int u, int v)
{
    G.add_edge(u, v);
    return G.number_of_edges();
}
size_t us_deg(US& G, int p) { return G.degree(p); }
size_t us_row(US& G, int p) { return G[p].size(); }
size_t us_rows(US& G) { return G.adj().size(); }
bool us_node(US& G, int p) { return G.has_node(p); }
bool us_node2(US& G, int p) { return G.contains(p); }
size_t us_nodes(US& G) { return G.number_of_nodes(); }
size_t us_order(US& G) { return G.order(); }
bool us_dir(US& G) { return G.is_directed(); }
bool us_multi(US& G) { return G.is_multigraph(); }
int us_ends(US& G, int p, int q)
{
    const std::pair<int, int> e {p, q};
    return G.end_points(e).first;
}
int us_ends2(US& G, int p, int q)
{
    const std::pair<int, int> e {p, q};
    return G.end_points(e).second;
}

size_t us_view(US& G, int p) { return G.adj()[p].size(); }

// the undirected container with data
bool ud_has(UD& G, int p, int q) { return G.has_edge(p, q); }
bool ud_add_has(UD& G, int u, int v, int p, int q)
{
    G.add_edge(u, v);
    return G.has_edge(p, q);
}
bool ud_put_has(UD& G, int u, int v, int d, int p, int q)
{
    G.add_edge(u, v, d);
    return G.has_edge(p, q);
}
size_t ud_add_count(UD& G, int u, int v)
{
    G.add_edge(u, v);
    return G.number_of_edges();
}
size_t ud_put_count(UD& G, int u, int v, int d)
{
    G.add_edge(u, v, d);
    return G.number_of_edges();
}
int ud_put_uv(UD& G, int u, int v, int d)
{
    G.add_edge(u, v, d);
    return G[u].at(v);
}
int ud_put_vu(UD& G, int u, int v, int d)
{
    G.add_edge(u, v, d);
    return G[v].at(u);
}
int ud_put_else(UD& G, int u, int v, int d, int p, int q)
{
    G.add_edge(u, v, d);
    return G[p].at(q);
}
int ud_add_uv(UD& G, int u, int v)
{
    G.add_edge(u, v);
    return G[u].at(v);
}
int ud_add_vu(UD& G, int u, int v)
{
    G.add_edge(u, v);
    return G[v].at(u);
}
bool ud_all_has(UD& G, int u, int v, int d, int p, int q)
{
    const EL E {{u, v}};
    const VL W {d};
    G.add_edges_from(E, W);
    return G.has_edge(p, q);
}
int ud_all_last(UD& G, int u, int v, int s, int t, int d, int e)
{
    const EL E {{u, v}, {s, t}};
    const VL W {d, e};
    G.add_edges_from(E, W);
    return G[s].at(t);
}

// the directed container without data
bool ds_has(DS& G, int p, int q) { return G.has_edge(p, q); }
bool ds_suc(DS& G, int p, int q) { return G.has_successor(p, q); }
bool ds_in(DS& G, int p, int q) { return G.successors(p).contains(q); }
bool ds_add_has(DS& G, int u, int v, int p, int q)
{
    G.add_edge(u, v);
    return G.has_edge(p, q);
}
bool ds_add_suc(DS& G, int u, int v, int p, int q)
{
    G.add_edge(u, v);
    return G.has_successor(p, q);
}
size_t ds_add_count(DS& G, int u, int v)
{
    G.add_edge(u, v);
    return G.number_of_edges();
}
size_t ds_deg(DS& G, int p) { return G.degree(p); }
size_t ds_row(DS& G, int p) { return G.succ()[p].size(); }
bool ds_dir(DS& G) { return G.is_directed(); }
bool ds_multi(DS& G) { return G.is_multigraph(); }
bool ds_moved(DS& G, int p, int q)
{
    DS H {std::move(G)};
    return H.has_edge(p, q);
}
bool ds_moved_suc(DS& G, int p, int q)
{
    DS H {std::move(G)};
    return H.successors(p).contains(q);
}
bool ds_moved_add(DS& G, int u, int v, int p, int q)
{
    DS H {std::move(G)};
    H.add_edge(u, v);
    return H.has_edge(p, q);
}

// the directed container with data
bool dd_add_has(DD& G, int u, int v, int p, int q)
{
    G.add_edge(u, v);
    return G.has_edge(p, q);
}
bool dd_put_has(DD& G, int u, int v, int d, int p, int q)
{
    G.add_edge(u, v, d);
    return G.has_edge(p, q);
}
size_t dd_add_count(DD& G, int u, int v)
{
    G.add_edge(u, v);
    return G.number_of_edges();
}
size_t dd_put_count(DD& G, int u, int v, int d)
{
    G.add_edge(u, v, d);
    return G.number_of_edges();
}
int dd_put_uv(DD& G, int u, int v, int d)
{
    G.add_edge(u, v, d);
    return G.successors(u).at(v);
}
int dd_put_else(DD& G, int u, int v, int d, int p, int q)
{
    G.add_edge(u, v, d);
    return G.successors(p).at(q);
}
int dd_add_uv(DD& G, int u, int v)
{
    G.add_edge(u, v);
    return G.successors(u).at(v);
}
bool dd_all_has(DD& G, int u, int v, int s, int t, int d, int e, int p, int q)
{
    const EL E {{u, v}, {s, t}};
    const VL W {d, e};
    G.add_edges_from(E, W);
    return G.has_edge(p, q);
}
int dd_all_last(DD& G, int u, int v, int s, int t, int d, int e)
{
    const EL E {{u, v}, {s, t}};
    const VL W {d, e};
    G.add_edges_from(E, W);
    return G.successors(s).at(t);
}

// moved-to containers
bool us_moved_has(US& G, int u, int v, int p, int q)
{
    US H {std::move(G)};
    H.add_edge(u, v);
    return H.has_edge(p, q);
}
size_t us_moved_count(US& G, int u, int v)
{
    US H {std::move(G)};
    H.add_edge(u, v);
    return H.number_of_edges();
}
bool ds_moved_add_suc(DS& G, int u, int v, int p, int q)
{
    DS H {std::move(G)};
    H.add_edge(u, v);
    return H.has_successor(p, q);
}
size_t ds_moved_count(DS& G, int u, int v)
{
    DS H {std::move(G)};
    H.add_edge(u, v);
    return H.number_of_edges();
}

// new containers
bool us_new(R N, int p, int q)
{
    US G {N};
    return G.has_edge(p, q);
}
size_t us_new_count(R N)
{
    US G {N};
    return G.number_of_edges();
}
bool us_new_int(int n, int p)
{
    US G {n};
    return G.has_node(p);
}
size_t us_new_nodes(R N)
{
    US G {N};
    return G.number_of_nodes();
}
size_t us_new_rows(R N)
{
    US G {N};
    return G.adj().size();
}
size_t us_new_int_rows(int n)
{
    US G {n};
    return G.adj().size();
}
bool ds_new_node(R N, int p)
{
    DS G {N};
    return G.has_node(p);
}
bool ds_new_int_node(int n, int p)
{
    DS G {n};
    return G.has_node(p);
}
size_t ds_new_rows(R N)
{
    DS G {N};
    return G.succ().size();
}
size_t ds_new_int_rows(int n)
{
    DS G {n};
    return G.succ().size();
}
bool ds_new(R N, int u, int v, int p, int q)
{
    DS G {N};
    G.add_edge(u, v);
    return G.has_edge(p, q);
}
bool ds_new_suc(R N, int u, int v, int p, int q)
{
    DS G {N};
    G.add_edge(u, v);
    return G.has_successor(p, q);
}
bool ds_new_int(int n, int u, int v, int p, int q)
{
    DS G {n};
    G.add_edge(u, v);
    return G.has_edge(p, q);
}
}
