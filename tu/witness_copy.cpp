// Compile-time witnesses: every assertion is a property of the public types.
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell1d.hpp>
#include <ellcpp/ell_stable.hpp>
#include <type_traits>
#include <utility>
using A = ell::Arr;
template <typename T> using copied = decltype(std::declval<const T&>().copy());
template <typename T> using centre = decltype(std::declval<const T&>().xc());
template <typename T> using centre_m = decltype(std::declval<T&>().xc());

static_assert(!std::is_convertible_v<const ell&, ell>, "W01 ell: no implicit copy");
static_assert(!std::is_convertible_v<const ell_stable&, ell_stable>, "W02 ell_stable: no implicit copy");
static_assert(!std::is_convertible_v<const ell1d&, ell1d>, "W03 ell1d: no implicit copy");
static_assert(!std::is_convertible_v<ell&, ell>, "W04 ell: no implicit copy of an lvalue");
static_assert(!std::is_convertible_v<ell_stable&, ell_stable>, "W05 ell_stable: no implicit copy of an lvalue");
static_assert(!std::is_assignable_v<ell&, const ell&>, "W06 ell: not overwritten");
static_assert(!std::is_assignable_v<ell_stable&, const ell_stable&>, "W07 ell_stable: not overwritten");
static_assert(!std::is_assignable_v<ell&, ell&>, "W08 ell: not overwritten by an lvalue");
static_assert(std::is_same_v<copied<ell>, ell>, "W10 ell: the explicit copy is an object of its own");
static_assert(std::is_same_v<copied<ell_stable>, ell_stable>, "W11 ell_stable: the explicit copy is an object of its own");
static_assert(!std::is_reference_v<centre<ell>> && !std::is_reference_v<centre_m<ell>>, "W12 ell: the centre is handed out by value");
static_assert(!std::is_reference_v<centre<ell_stable>> && !std::is_reference_v<centre_m<ell_stable>>, "W13 ell_stable: the centre is handed out by value");
static_assert(!std::is_reference_v<centre<ell1d>> && !std::is_reference_v<centre_m<ell1d>>, "W14 ell1d: the centre is handed out by value");
static_assert(std::is_same_v<std::decay_t<centre<ell>>, A>, "W15 ell: the centre owns its elements");
static_assert(std::is_same_v<std::decay_t<centre<ell_stable>>, A>, "W16 ell_stable: the centre owns its elements");
static_assert(std::is_constructible_v<ell, const ell&> && std::is_constructible_v<ell_stable, const ell_stable&>, "W17 explicit copies exist");
static_assert(std::is_constructible_v<ell1d, const ell1d&>, "W18 ell1d: explicit copies exist");
