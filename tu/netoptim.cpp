// Analysis-only translation unit: network algorithms over an opaque graph.
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <netoptim/parametric.hpp>
#include <utility>
#include <vector>

namespace vw
{
using node_t = unsigned long;
struct edge_t
{
    unsigned long id;
};
struct EdgeList
{
    const edge_t* begin() const;
    const edge_t* end() const;
};
struct Graph
{
    using node_t = vw::node_t;
    using edge_t = vw::edge_t;
    const node_t* begin() const;
    const node_t* end() const;
    EdgeList edges() const;
    std::pair<node_t, node_t> end_points(const edge_t&) const;
    static node_t null_vertex();
};
struct Dist
{
    double& operator[](node_t);
    const double& operator[](node_t) const;
};
struct Weight
{
    double operator()(const edge_t&) const;
};
struct Cost
{
    double operator()(const edge_t&) const;
};
struct Time
{
    double operator()(const edge_t&) const;
};
struct WeightR
{
    double operator()(const double&, const edge_t&) const;
};
struct ZeroCancel
{
    double operator()(const std::vector<edge_t>&) const;
};
struct Param
{
    double eval(const edge_t&, const double&) const;
    double grad(const edge_t&, const double&) const;
    void update(const double&);
};

auto use_finder(const Graph& G, Dist& d, Weight& w)
{
    negCycleFinder<Graph> S(G);
    return S.find_neg_cycle(d, w);
}
auto use_param(const Graph& G, double& r, WeightR& d, ZeroCancel& z, Dist& dist,
    size_t max_iter)
{
    return max_parametric(G, r, d, z, dist, max_iter);
}
auto use_ratio(const Graph& G, double& r, Cost& c, Time& t, Dist& dist,
    size_t max_iter)
{
    return min_cycle_ratio(G, r, c, t, dist, max_iter);
}
auto use_network(const Graph& G, Dist& u, Param h, double x)
{
    network_oracle<Graph, Dist, Param> P(G, u, h);
    P.update(x);
    return P(x);
}
auto use_cycle_ratio(const Graph& G, Dist& u, Cost c, Time t, double x, double& r)
{
    cycle_ratio_oracle<Graph, Dist, Cost, Time> P(G, u, c, t);
    return P(x, r);
}
auto use_optscaling(
    const Graph& G, Dist& u, Cost c, const xt::xarray<double, xt::layout_type::row_major>& x, double& t)
{
    optscaling_oracle<Graph, Dist, Cost> P(G, u, c);
    return P(x, t);
}
} // namespace vw
