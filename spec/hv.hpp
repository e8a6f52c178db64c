// Vocabulary of the static-analysis drivers.  The drivers are compiled to IR and interpreted by vf/;
// they are never linked or executed.  hv_eq and friends state proof obligations.
#pragma once
#include <Kokkos_Core.hpp>
#include <string>
extern "C" {
double hv_sym(char const* name) noexcept;   // arbitrary real
double hv_pos(char const* name) noexcept;   // arbitrary positive real
long hv_isym(char const* name) noexcept;    // arbitrary integer
bool hv_bsym(char const* name) noexcept;    // arbitrary truth value
void* hv_obj(char const* name) noexcept;    // arbitrary object (lazily symbolic memory)
void hv_strsym(std::string* s, char const* name) noexcept;
void hv_assume(bool c) noexcept;
double hv_fn0(char const* f) noexcept;
double hv_fn1(char const* f, double a) noexcept;
double hv_fn2(char const* f, double a, double b) noexcept;
double hv_fn3(char const* f, double a, double b, double c) noexcept;
double hv_fn(char const* f, ...) noexcept;
double hv_unscan(double v, long upto) noexcept; // peel the last term off prefix sums ending there
void hv_eq(char const* what, double a, double b) noexcept;
void hv_near(char const* what, double a, double b) noexcept; // up to the rounding of literal constants
void hv_eqi(char const* what, long a, long b) noexcept;
void hv_eqb(char const* what, bool a, bool b) noexcept;
void hv_true(char const* what, bool b) noexcept;
void hv_opaque(char const* function, char const* name) noexcept;
void hv_ieee(bool on) noexcept; // account for NaN and infinities
void hv_expect_throw(bool c) noexcept;
void hv_streq(char const* what, std::string const* a, std::string const* b) noexcept;
void hv_ptreq(char const* what, void const* a, void const* b) noexcept;
void* hv_nbr(char const* name, long o0, long o1, long o2) noexcept; // a field of the process at this offset
long hv_nbr_size(long d, long o) noexcept; // its number of cells along d
void hv_view_eq(char const* what, void* a, void* b) noexcept;
void hv_note(char const* what, ...) noexcept;
void hv_fact(long nonneg) noexcept;
void hv_let(long symbol, long value) noexcept; // specialise the obligations that follow
void hv_exact_int(bool on) noexcept; // integers of finite width, two's complement
}
template <class V>
auto hv_view(char const* name) -> V
{
    return V(typename V::HVRaw {}, hv_obj(name));
}
