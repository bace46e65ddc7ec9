// Analysis-only translation unit: the cycle search over a small explicit graph.
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <netoptim/min_cycle_ratio.hpp>
#include <netoptim/neg_cycle.hpp>
#include <netoptim/parametric.hpp>
#include <utility>
#include <vector>

namespace vw
{
struct Edge
{
    long id;
    long u;
    long v;
};
struct Net
{
    using node_t = long;
    using edge_t = Edge;
    std::vector<long> nodes;
    std::vector<Edge> list;
    auto begin() const { return nodes.begin(); }
    auto end() const { return nodes.end(); }
    auto edges() const -> const std::vector<Edge>& { return list; }
    auto end_points(const Edge& e) const -> std::pair<long, long>
    {
        return {e.u, e.v};
    }
    auto number_of_nodes() const -> size_t { return nodes.size(); }
    auto number_of_edges() const -> size_t { return list.size(); }
    auto source(const Edge& e) const -> long { return e.u; }
    auto target(const Edge& e) const -> long { return e.v; }
    static auto null_vertex() -> long { return -1; }
};
struct Dist
{
    double& operator[](long);
    const double& operator[](long) const;
};
struct Weight
{
    double operator()(const Edge&) const;
};
auto find(const Net& G, Dist& d, Weight& w)
{
    negCycleFinder<Net> S(G);
    return S.find_neg_cycle(d, w);
}
auto find_again(const Net& G, Dist& d, Weight& w, Dist& e, Weight& x)
{
    negCycleFinder<Net> S(G);
    S.find_neg_cycle(d, w);
    return S.find_neg_cycle(e, x);
}
struct WeightAt
{
    double operator()(const double&, const Edge&) const;
};
struct Cancel
{
    double operator()(const std::vector<Edge>&) const;
};
struct Cost
{
    double operator()(const Edge&) const;
};
struct CostL
{
    long operator()(const Edge&) const;
};
struct Param
{
    double eval(const Edge&, const double&) const;
    double grad(const Edge&, const double&) const;
    void update(const double&);
};
auto parametric(const Net& G, double& r, WeightAt& w, Cancel& z, Dist& d, size_t n)
{
    return max_parametric(G, r, w, z, d, n);
}
auto ratio(const Net& G, double& r, Cost& c, Cost& t, Dist& d, size_t n)
{
    return min_cycle_ratio(G, r, c, t, d, n);
}
auto ratio_l(const Net& G, double& r, CostL& c, CostL& t, Dist& d, size_t n)
{
    return min_cycle_ratio(G, r, c, t, d, n);
}
auto ratio_ld(const Net& G, double& r, CostL& c, Cost& t, Dist& d, size_t n)
{
    return min_cycle_ratio(G, r, c, t, d, n);
}
auto ratio_dl(const Net& G, double& r, Cost& c, CostL& t, Dist& d, size_t n)
{
    return min_cycle_ratio(G, r, c, t, d, n);
}
auto network(const Net& G, Dist& u, Param h, const double& x)
{
    network_oracle<Net, Dist, Param> P(G, u, h);
    return P(x);
}
auto network_again(const Net& G, Dist& u, Param h, const double& y, const double& x)
{
    network_oracle<Net, Dist, Param> P(G, u, h);
    P(y);
    return P(x);
}
void network_update(const Net& G, Dist& u, Param h, const double& t)
{
    network_oracle<Net, Dist, Param> P(G, u, h);
    P.update(t);
}
auto cycle_ratio(const Net& G, Dist& u, Cost c, Cost m, const double& x, double& t)
{
    cycle_ratio_oracle<Net, Dist, Cost, Cost> P(G, u, c, m);
    return P(x, t);
}
using Arr = xt::xarray<double, xt::layout_type::row_major>;
auto optscaling(const Net& G, Dist& u, Cost c, const Arr& x, double& t)
{
    optscaling_oracle<Net, Dist, Cost> P(G, u, c);
    return P(x, t);
}
} // namespace vw
