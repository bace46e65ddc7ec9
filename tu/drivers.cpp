// Analysis-only translation unit (never linked, never run): instantiates the
// generic drivers over declared-only (opaque) oracles and search spaces.
#include <ellcpp/cutting_plane.hpp>
#include <optional>
#include <utility>

namespace vw
{
struct Vec
{
    Vec();
    Vec(const Vec&);
    Vec(Vec&&) noexcept;
    Vec& operator=(const Vec&);
    Vec& operator=(Vec&&) noexcept;
    ~Vec();
};
struct Cut
{
    Cut(const Cut&);
    Cut(Cut&&) noexcept;
    ~Cut();
};
struct Space
{
    auto xc() const -> Vec;
    void set_xc(const Vec&);
    auto update(const Cut&) -> std::tuple<CUTStatus, double>;
    auto copy() const -> Space;
    Space(Space&&);
    explicit Space(const Space&);
    ~Space();
};
struct FeasOracle
{
    auto operator()(const Vec&) -> std::optional<Cut>;
    void update(const double&);
};
struct OptOracle
{
    auto operator()(const Vec&, double&) -> std::tuple<Cut, bool>;
};
struct QOracle
{
    auto operator()(const Vec&, double&, bool)
        -> std::tuple<Cut, Vec, bool, bool>;
};
struct Pred
{
    bool operator()(const double&);
};
struct PredI
{
    bool operator()(const int&);
};
struct PredL
{
    bool operator()(const long&);
};

CInfo use_feas(FeasOracle& O, Space& S, const Options& o)
{
    return cutting_plane_feas(O, S, o);
}
auto use_dc(OptOracle& O, Space& S, double& t, const Options& o)
{
    return cutting_plane_dc(O, S, t, o);
}
auto use_q(QOracle& O, Space& S, double& t, const Options& o)
{
    return cutting_plane_q(O, S, t, o);
}
CInfo use_bs(Pred& O, std::pair<double, double>& I, const Options& o)
{
    return bsearch(O, I, o);
}
CInfo use_bsi(PredI& O, std::pair<int, int>& I, const Options& o)
{
    return bsearch(O, I, o);
}
CInfo use_bsl(PredL& O, std::pair<long, long>& I, const Options& o)
{
    return bsearch(O, I, o);
}
bool use_adaptor(FeasOracle& P, Space& S, const Options& o, double t)
{
    bsearch_adaptor<FeasOracle, Space> A(P, S, o);
    return A(t);
}
bool use_adaptor_default(FeasOracle& P, Space& S, double t)
{
    bsearch_adaptor<FeasOracle, Space> A(P, S);
    return A(t);
}
auto use_adaptor_best(FeasOracle& P, Space& S, const Options& o)
{
    bsearch_adaptor<FeasOracle, Space> A(P, S, o);
    return A.x_best();
}
} // namespace vw
