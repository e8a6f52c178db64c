// Lifetime of the MPI library: initialised with the program's arguments before the body, finalised after it.
#include <type_traits>
#include "hv.hpp"
#include "mpi_scope_guard.hpp"
using G = hclpp::MpiScopeGuard;
extern "C" {
void guard_args()
{
    int& argc = *static_cast<int*>(hv_obj("argc"));
    char**& argv = *static_cast<char***>(hv_obj("argv"));
    int* const c = &argc;
    char*** const v = &argv;
    hv_note("arguments", c, v);
    {
        G const g(argc, argv);
        hv_note("body");
    }
    hv_note("after");
}
void guard_plain()
{
    hv_note("arguments", nullptr, nullptr);
    {
        G const g;
        hv_note("body");
    }
    hv_note("after");
}
void guard_early()
{
    hv_note("arguments", nullptr, nullptr);
    G const g;
    hv_note("body");
}
void guard_type()
{
    hv_true("not copyable: no second finalisation", !std::is_copy_constructible_v<G> && !std::is_copy_assignable_v<G>);
    hv_true("not movable: no second finalisation", !std::is_move_constructible_v<G> && !std::is_move_assignable_v<G>);
}
}
