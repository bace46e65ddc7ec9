From 3a6f5a71dd75ac306fa9f8df41e1d88721cf4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 01/12] fix: keep Fraction denominators positive after
 normalize, reciprocal and /= with a negative value

---
 lib/include/py2cpp/fractions.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..cfc1ad6 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -79,15 +79,15 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void normalize()
     {
         auto common = gcd(this->_numerator, this->_denominator);
-        if (common == Z(1))
-        {
-            return;
-        }
         // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
         if (this->_denominator < Z(0))
         {
             common = -common;
         }
+        if (common == Z(1))
+        {
+            return;
+        }
         this->_numerator /= common;
         this->_denominator /= common;
     }
@@ -151,6 +151,7 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void reciprocal()
     {
         std::swap(_numerator, _denominator);
+        this->normalize(); // keep the denominator positive
     }
 
     /*!
@@ -379,6 +380,7 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
             this->_denominator *= (i / common);
             this->_numerator /= common;
         }
+        this->normalize(); // keep the denominator positive
         return *this;
     }
 
-- 
2.43.0


From bf3c45b69886523cce9b178fd6623ed91447ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 02/12] fix: to_csdfixed terminates when the remainder reaches
 zero or no digit is allowed

---
 lib/src/csd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 86f9775..a92f157 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -103,7 +103,7 @@ auto to_decimal(std::string_view csd_str) noexcept -> double
  */
 auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
 {
-    if (num == 0.)
+    if (num == 0. || nnz == 0)
     {
         return "0";
     }
@@ -111,7 +111,7 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
     auto csd_str = string {an < 1. ? "0" : ""};
     auto limit = pow(2., n) / 3.;
-    while (n > 0 || nnz > 0)
+    while (n > 0 || (nnz > 0 && num != 0.))
     {
         if (n == 0)
         {
-- 
2.43.0


From f95ea4a08f0f2544917df2d1d52102aeab1f7576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 03/12] fix: start the CSD expansion at weight 1 for magnitudes
 above 2/3, so that no two adjacent digits are nonzero

---
 lib/src/csd.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index a92f157..82e41da 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -22,8 +22,8 @@ auto to_csd(double num, int places = 0) noexcept -> string
         return "0";
     }
     auto absnum = fabs(num);
-    auto n = absnum < 1. ? 0 : int(ceil(log2(absnum * 1.5)));
-    auto csd_str = string {absnum < 1. ? "0" : ""};
+    auto n = absnum * 1.5 <= 1. ? 0 : int(ceil(log2(absnum * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
     {
@@ -108,8 +108,8 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
         return "0";
     }
     auto an = fabs(num);
-    auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
-    auto csd_str = string {an < 1. ? "0" : ""};
+    auto n = an * 1.5 <= 1. ? 0 : int(ceil(log2(an * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > 0 || (nnz > 0 && num != 0.))
     {
-- 
2.43.0


From 29dbd5c1fb26f7b4eff242330fc462c2332053a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 04/12] fix: qmi_oracle takes the columns, not the rows, of
 F[k] when it forms the subgradient

---
 lib/src/qmi_oracle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..3bffbb4 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,8 +53,8 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
-        g(k) = -2 * dot(dot(v, Fkp), Av)();
+        const auto Fkp = Arr {COLUMN(this->_F[k], xt::range(start, stop))};
+        g(k) = -2 * dot(dot(Fkp, v), Av)();
     }
     return {{std::move(g), ep}};
 }
-- 
2.43.0


From 43613a8c077aa3b01c81d324ff4f2a623fa66bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:37 +0000
Subject: [PATCH 05/12] fix: draw each random sample once in
 create_2d_isotropic, so that the covariance is symmetric

---
 lib/src/lsq_corr_ell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/lsq_corr_ell.cpp b/lib/src/lsq_corr_ell.cpp
index 995339c..faf3098 100644
--- a/lib/src/lsq_corr_ell.cpp
+++ b/lib/src/lsq_corr_ell.cpp
@@ -69,8 +69,8 @@ Arr create_2d_isotropic(const Arr& s, size_t N = 3000U)
     auto Y = zeros({n, n});
     for (auto k = 0U; k != N; ++k)
     {
-        auto x = var * xt::random::randn<double>({n});
-        auto y = dot(A, x) + tau * xt::random::randn<double>({n});
+        auto x = Arr {var * xt::random::randn<double>({n})};
+        auto y = Arr {dot(A, x) + tau * xt::random::randn<double>({n})};
         // Arr y = dot(A, x);
         Y += xt::linalg::outer(y, y);
     }
-- 
2.43.0


From 1a0e7e04ea6e9e4c6926a152182c06b5226eb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:46 +0000
Subject: [PATCH 06/12] fix: cutting_plane_q tells the oracle to retry after a
 cut that had no effect

---
 lib/include/ellcpp/cutting_plane.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..a2f4aa1 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -141,11 +141,11 @@ auto cutting_plane_q(
     const auto t_orig = t;
     decltype(S.xc()) x_best;
     auto status = CUTStatus::nosoln; // note!!!
+    auto retry = false;
 
     auto niter = 0U;
     while (++niter != options.max_it)
     {
-        auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
         { // best t obtained
@@ -153,7 +153,8 @@ auto cutting_plane_q(
             x_best = x0;
         }
         const auto [cutstatus, tsq] = S.update(cut);
-        if (cutstatus == CUTStatus::noeffect)
+        retry = (cutstatus == CUTStatus::noeffect);
+        if (retry)
         {
             if (!more_alt)
             {
-- 
2.43.0


From ca1530c5468635c47d5b6136346cfd79c96514fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 07/12] fix: honour a zero iteration budget instead of wrapping
 the iteration counter

---
 lib/include/ellcpp/cutting_plane.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index a2f4aa1..156c857 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -39,7 +39,7 @@ auto cutting_plane_feas(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto cut = Omega(S.xc()); // query the oracle at S.xc()
         if (!cut)
@@ -83,7 +83,7 @@ auto cutting_plane_dc(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, shrunk] = Omega(S.xc(), t);
         if (shrunk)
@@ -144,7 +144,7 @@ auto cutting_plane_q(
     auto retry = false;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
-- 
2.43.0


From f4590ee3942fa83b9d02c5267f8607dd39de416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 08/12] fix: gcd and lcm no longer truncate integers wider than
 int

---
 lib/include/py2cpp/fractions.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index cfc1ad6..5e20f31 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -24,7 +24,8 @@ namespace fun
 template <typename Mn>
 constexpr auto gcd(Mn _m, Mn _n) -> Mn
 {
-    return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
+    // no unqualified abs(): it would be ::abs(int) and truncate wider integers
+    return _n != 0 ? gcd(_n, _m % _n) : _m < 0 ? -_m : _m;
 }
 
 /*!
@@ -38,7 +39,9 @@ constexpr auto gcd(Mn _m, Mn _n) -> Mn
 template <typename Mn>
 constexpr auto lcm(Mn _m, Mn _n) -> Mn
 {
-    return (_m != 0 && _n != 0) ? (abs(_m) / gcd(_m, _n)) * abs(_n) : 0;
+    return (_m != 0 && _n != 0)
+        ? ((_m < 0 ? -_m : _m) / gcd(_m, _n)) * (_n < 0 ? -_n : _n)
+        : 0;
 }
 
 template <typename Z>
-- 
2.43.0


From 938945806769ccfbcc11e015ed7e8e00c7672a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 09/12] fix: rank-one update of the factorised ellipsoid when
 the shape change vanishes

A cut with tau + n*beta == 0 has sigma == 0: the update divided by
mu = sigma/(1-sigma) and filled the factor with NaN. Components that take
no part in the update (zero gradient component) are skipped.
---
 lib/src/ell_stable.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/src/ell_stable.cpp b/lib/src/ell_stable.cpp
index 8ba9199..d2db632 100644
--- a/lib/src/ell_stable.cpp
+++ b/lib/src/ell_stable.cpp
@@ -71,17 +71,20 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // rank-one update: 3*n + (n-1)*n/2
     // const auto r = this->_sigma / omega;
-    const auto mu = this->_sigma / (1. - this->_sigma);
-    auto oldt = omega / mu; // initially
+    auto oldt = omega * (1. - this->_sigma); // initially
     const auto m = this->_n - 1;
     for (auto j = 0; j != m; ++j)
     {
         // p=sqrt(k)*vv(j);
         // const auto p = invLg(j);
         // const auto mup = mu * p;
-        const auto t = oldt + gQg(j);
+        if (gQg(j) == 0.)
+        {
+            continue; // this component takes no part in the update
+        }
+        const auto t = oldt + this->_sigma * gQg(j);
         // this->_Q(j, j) /= t; // update invD
-        const auto beta2 = invDinvLg(j) / t;
+        const auto beta2 = this->_sigma * invDinvLg(j) / t;
         this->_Q(j, j) *= oldt / t; // update invD
         for (auto l = j + 1; l != this->_n; ++l)
         {
@@ -93,7 +96,7 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // const auto p = invLg(n1);
     // const auto mup = mu * p;
-    const auto t = oldt + gQg(m);
+    const auto t = oldt + this->_sigma * gQg(m);
     this->_Q(m, m) *= oldt / t; // update invD
 
 
-- 
2.43.0


From 6d535ee0cad3f1cbc165b394a29382b5319b4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 10/12] fix: parallel cuts symmetric about the centre

With b0 + b1 == 0 (or b1 == 0 in the central case) sigma was computed
as 0/0; use the conjugate form of (1 + b0b1n - xi), which has no such
quotient.
---
 lib/src/ell.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..74edf5c 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,11 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
+    // (1 + b0b1n - xi) / (bsumn * bav), also for b0 + b1 = 0
+    const auto hdiff = this->_halfN * bdiff;
+    const auto temp2 = 2. * (1. - hdiff * (hdiff / this->_tsq));
     this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+        this->_c3 + temp2 / (1. + b0b1n + xi) / this->_nPlus1;
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
@@ -68,7 +71,9 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    // (1 - xi) / b1sqn, also for b1 = 0
+    const auto temp2 = (1. - this->_halfN * temp) / (1. + xi);
+    this->_sigma = this->_c3 + this->_c2 * temp2;
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From 19a8cc79505d531a9d64d1b58b48028538e7a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 11/12] fix: count an edge of a graph once however often it is
 added

---
 lib/include/xnetwork/classes/digraphs.hpp | 15 ++++++++++++---
 lib/include/xnetwork/classes/graph.hpp    | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ddd3260..2e2e710 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -343,9 +343,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        if (!this->_succ[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_succ[u].insert(v);
         // this->_prev[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -359,11 +362,14 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        if (!this->_succ[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
         this->_succ[u][v] = data;
         // this->_prev[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -371,8 +377,11 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        if (!this->_succ[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_succ[u][v] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d3eb9db..cd7edf9 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -625,9 +625,12 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         // set
+        if (!this->_adj[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_adj[u].insert(v);
         this->_adj[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -641,11 +644,14 @@ class Graph : public object
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        if (!this->_adj[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
         this->_adj[u][v] = data;
         this->_adj[v][u] = data; // ???
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -653,9 +659,12 @@ class Graph : public object
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        if (!this->_adj[u].contains(v))
+        {
+            this->_num_of_edges += 1;
+        }
         this->_adj[u][v] = data;
         this->_adj[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From bb6ec2db17c96ec4dcb6fae30d31b346d1af5d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:12 +0000
Subject: [PATCH 12/12] fix: a moved directed graph refers to its own adjacency

---
 lib/include/xnetwork/classes/digraphs.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 2e2e710..44f25d2 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -242,6 +242,13 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
     }
 
+    // the successors must refer to the adjacency of the new object
+    DiGraphS(DiGraphS&& G) noexcept
+        : _Base {std::move(G)}
+        , _succ {_Base::_adj}
+    {
+    }
+
     /// @property
     /*! DiGraphS adjacency object holding the neighbors of each node.
 
-- 
2.43.0

