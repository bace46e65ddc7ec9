// Analysis-only translation unit: header-only oracle code over real arrays.
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <ellcpp/oracles/ldlt_ext.hpp>
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <ellcpp/oracles/profit_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>

namespace vw
{
using Arr = xt::xarray<double, xt::layout_type::row_major>;
struct Elem
{
    double operator()(size_t i, size_t j) const;
};
bool use_ldlt(ldlt_ext& Q, Elem& A) { return Q.factor(A); }
bool use_ldlt_semi(ldlt_ext& Q, Elem& A) { return Q.factor<Elem&, true>(A); }
bool use_ldlt_semi_m(ldlt_ext& Q, const Arr& A)
{
    auto f = [&](size_t i, size_t j) { return A(i, j); };
    return Q.factor<decltype(f)&, true>(f);
}
bool use_ldlt_m(ldlt_ext& Q, const Arr& A) { return Q.factorize(A); }
std::optional<std::tuple<Arr, double>> use_qmi(qmi_oracle& Q, double t, const Arr& x)
{
    Q.update(t);
    return Q(x);
}
auto use_profit_rb(profit_rb_oracle& P, const Arr& y, double& t)
{
    return P(y, t);
}
auto use_new_rb(double p, double A, double k, const Arr& a, const Arr& v,
    const Arr& e, double e3)
{
    return profit_rb_oracle(p, A, k, a, v, e, e3);
}
} // namespace vw
