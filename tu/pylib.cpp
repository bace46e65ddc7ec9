// Analysis-only translation unit: utility templates.
#include <py2cpp/fractions.hpp>
#include <py2cpp/py2cpp.hpp>
#include <cstdlib>
#include <vector>

template struct fun::Fraction<int>;
template struct fun::Fraction<long>;
template class py::dict<int, double>;
template class py::set<int>;

namespace vw
{
using F = fun::Fraction<int>;
F add_l(const int& c, const F& f) { return c + f; }
F sub_l(const int& c, const F& f) { return c - f; }
auto cmp(const F& a, const F& b) { return a.cmp(b); }
int use_gcd(int a, int b) { return fun::gcd(a, b); }
int use_lcm(int a, int b) { return fun::lcm(a, b); }
F mul_i(F a, int i) { return a * i; }
F div_i(F a, int i) { return a / i; }

auto use_range(int a, int b)
{
    auto R = py::range(a, b);
    auto T = py::range(b);
    int s = 0;
    for (auto i : R)
        s += i;
    s += R.contains(a) + R.empty() + int(R.size()) + R[0];
    s += (R.begin() == R.end());
    for (auto i : T)
        s += i;
    return s;
}
auto use_enum(std::vector<int>& A)
{
    int s = 0;
    for (auto&& e : py::enumerate(A))
        s += int(std::get<0>(e)) + std::get<1>(e);
    return s;
}
auto use_dict(py::dict<int, double>& d, const py::dict<int, double>& c, int k)
{
    d[k] = c[k] + d.get(k, 0.);
    return d.contains(k) + (k < d) + py::len(d) + c.items().size() +
        d.items().size();
}
auto use_set(const py::set<int>& s, int k)
{
    return s.contains(k) + (k < s) + py::len(s);
}
} // namespace vw
namespace vw
{
using L = fun::Fraction<long>;
// every mixed / derived operator a client can write (the boost-generated ones
// included), over the wide instance
L l_add(const L& a, const L& b) { return a + b; }
L l_sub(const L& a, const L& b) { return a - b; }
L l_mul(const L& a, const L& b) { return a * b; }
L l_div(const L& a, const L& b) { return a / b; }
L l_add_i(const L& a, const long& i) { return a + i; }
L l_sub_i(const L& a, const long& i) { return a - i; }
L l_mul_i(const L& a, const long& i) { return a * i; }
L l_div_i(const L& a, const long& i) { return a / i; }
L l_i_add(const L& a, const long& i) { return i + a; }
L l_i_sub(const L& a, const long& i) { return i - a; }
L l_i_mul(const L& a, const long& i) { return i * a; }
L l_one_add(const L& a) { return 1 + a; }
L l_one_sub(const L& a) { return 1 - a; }
L l_two_mul(const L& a) { return 2 * a; }
L l_addeq(L a, const L& b) { a += b; return a; }
L l_subeq(L a, const L& b) { a -= b; return a; }
L l_muleq(L a, const L& b) { a *= b; return a; }
L l_diveq(L a, const L& b) { a /= b; return a; }
L l_addeq_self(L a) { a += a; return a; }
L l_subeq_self(L a) { a -= a; return a; }
L l_muleq_self(L a) { a *= a; return a; }
L l_diveq_self(L a) { a /= a; return a; }
L l_addeq_i(L a, const long& i) { a += i; return a; }
L l_subeq_i(L a, const long& i) { a -= i; return a; }
L l_muleq_i(L a, const long& i) { a *= i; return a; }
L l_diveq_i(L a, const long& i) { a /= i; return a; }
L l_neg(const L& a) { return -a; }
L l_abs(const L& a) { return a.abs(); }
L l_recip(L a) { a.reciprocal(); return a; }
L l_new(const long& i, const long& j) { return L(i, j); }
L l_new_m(long i, long j) { return L(std::move(i), std::move(j)); }
L l_new1(const long& i) { return L(i); }
L l_new1_m(long i) { return L(std::move(i)); }
bool l_lt(const L& a, const L& b) { return a < b; }
bool l_le(const L& a, const L& b) { return a <= b; }
bool l_gt(const L& a, const L& b) { return a > b; }
bool l_ge(const L& a, const L& b) { return a >= b; }
bool l_eq(const L& a, const L& b) { return a == b; }
bool l_ne(const L& a, const L& b) { return a != b; }
bool l_lt_i(const L& a, const long& i) { return a < i; }
bool l_le_i(const L& a, const long& i) { return a <= i; }
bool l_gt_i(const L& a, const long& i) { return a > i; }
bool l_ge_i(const L& a, const long& i) { return a >= i; }
bool l_eq_i(const L& a, const long& i) { return a == i; }
bool l_ne_i(const L& a, const long& i) { return a != i; }
bool l_i_lt(const L& a, const long& i) { return i < a; }
bool l_i_le(const L& a, const long& i) { return i <= a; }
bool l_i_gt(const L& a, const long& i) { return i > a; }
bool l_i_ge(const L& a, const long& i) { return i >= a; }
bool l_i_eq(const L& a, const long& i) { return i == a; }
bool l_i_ne(const L& a, const long& i) { return i != a; }
long l_cmp(const L& a, const L& b) { return a.cmp(b); }
long l_num(const L& a) { return a.numerator(); }
long l_den(const L& a) { return a.denominator(); }
long l_gcd(long a, long b) { return fun::gcd(a, b); }
long l_lcm(long a, long b) { return fun::lcm(a, b); }
} // namespace vw

#include <vector>
namespace vw
{
// -- containers ---------------------------------------------------------------
struct Sink
{
    void see(long);
    void put(size_t, double);
};
struct Key
{
    unsigned long id;
    bool operator==(const Key&) const;
};
void p_range(int a, int b, Sink& s)
{
    for (auto i : py::range(a, b))
        s.see(i);
}
void p_range_u(unsigned a, unsigned b, Sink& s)
{
    for (auto i : py::range(a, b))
        s.see(i);
}
void p_range1(int b, Sink& s)
{
    for (auto i : py::range(b))
        s.see(i);
}
bool p_range_has(int a, int b, int k) { return py::range(a, b).contains(k); }
bool p_range_none(int a, int b) { return py::range(a, b).empty(); }
size_t p_range_len(int a, int b) { return py::range(a, b).size(); }
int p_range_at(int a, int b, size_t k) { return py::range(a, b)[k]; }
bool p_range1_has(int b, int k) { return py::range(b).contains(k); }
bool p_range1_none(int b) { return py::range(b).empty(); }
size_t p_range1_len(int b) { return py::range(b).size(); }
int p_range1_at(int b, size_t k) { return py::range(b)[k]; }
bool p_range_same(int a, int b, int c, int d)
{
    auto R = py::range(a, b);
    auto S = py::range(c, d);
    return R.begin() == S.end();
}

void p_enum(std::vector<double>& V, Sink& s)
{
    for (auto&& e : py::enumerate(V))
        s.put(std::get<0>(e), std::get<1>(e));
}
void p_enum_set(std::vector<double>& V, double x)
{
    for (auto&& e : py::enumerate(V))
        std::get<1>(e) = x;
}

using D = py::dict<long, double>;
using S = py::set<long>;
bool d_has(const D& d, long k) { return d.contains(k); }
bool d_in(const D& d, long k) { return k < d; }
double d_at(const D& d, long k) { return d[k]; }
double d_get(D& d, long k, double x) { return d.get(k, x); }
bool d_get_keeps(D& d, long k, double x, long j)
{
    d.get(k, x);
    return d.contains(j);
}
double d_set(D& d, long k, double x, long j, double y)
{
    d[k] = x;
    return d.get(j, y);
}
bool d_set_has(D& d, long k, double x, long j)
{
    d[k] = x;
    return d.contains(j);
}
size_t d_len(const D& d) { return py::len(d); }
size_t d_set_len(D& d, long k, double x)
{
    d[k] = x;
    return py::len(d);
}
double d_copy(const D& d, long k, double x, long j, double y)
{
    D c = d.copy();
    c[k] = x;
    return c.get(j, y);
}
bool d_copy_orig(const D& d, long k, double x, long j)
{
    D c = d.copy();
    c[k] = x;
    return d.contains(j);
}
double d_items(D& d, long k, double x, long j, double y)
{
    d.items()[k] = x;
    return d.get(j, y);
}
size_t d_citems(const D& d) { return d.items().size(); }
void d_keys(const D& d, Sink& s)
{
    for (auto&& k : d)
        s.see(k);
}
bool d_lit(long k, double x, long j) { return D {{k, x}}.contains(j); }
double d_lit_get(long k, double x, long j, double y)
{
    D d {{k, x}};
    return d.get(j, y);
}
bool d_none(long k) { return D {}.contains(k); }
bool d_move(D& d, long k)
{
    D c = std::move(d);
    return c.contains(k);
}
bool s_has(const S& s, long k) { return s.contains(k); }
bool s_in(const S& s, long k) { return k < s; }
size_t s_len(const S& s) { return py::len(s); }
bool s_none(long k) { return S {}.contains(k); }
bool s_lit(long k, long j) { return S {k}.contains(j); }
bool s_add(S& s, long k, long j)
{
    s.insert(k);
    return s.contains(j);
}
bool s_copy(const S& s, long k, long j)
{
    S c = s.copy();
    c.insert(k);
    return c.contains(j);
}
bool s_copy_orig(const S& s, long k, long j)
{
    S c = s.copy();
    c.insert(k);
    return s.contains(j);
}
bool s_span(const long* a, const long* b, long k) { return S(a, b).contains(k); }
} // namespace vw
