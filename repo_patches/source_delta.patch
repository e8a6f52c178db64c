From 1dcf52a8b738524e08a119be6a0446968e9cc866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 01/12] fix: read hexadecimal integers from the input file as
 documented

---
 vendor/inih/src/INIReader.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index a6d51c6..6e277f9 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -14,6 +14,13 @@
 #include <inih/ini.h>      // for ini_parse
 #include <inih/INIReader.hpp>
 
+// Base of the (non empty) integer literal: 16 for "0x4D2" (hex), 10 for "1234" (decimal).
+static int IntegerBase(const std::string& valstr)
+{
+    const std::string::size_type digits = (valstr[0] == '-' || valstr[0] == '+') ? 1 : 0;
+    return (valstr.compare(digits, 2, "0x") == 0 || valstr.compare(digits, 2, "0X") == 0) ? 16 : 10;
+}
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -39,7 +46,7 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr);
+    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -51,35 +58,35 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr);
+    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr);
+    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoi(valstr);
+    return valstr.empty() ? default_value : std::stoi(valstr, nullptr, IntegerBase(valstr));
 }
 
 long INIReader::GetInteger(const std::string& section, const std::string& name, long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stol(valstr);
+    return valstr.empty() ? default_value : std::stol(valstr, nullptr, IntegerBase(valstr));
 }
 
 long long INIReader::GetInteger(const std::string& section, const std::string& name, long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoll(valstr);
+    return valstr.empty() ? default_value : std::stoll(valstr, nullptr, IntegerBase(valstr));
 }
 
 float INIReader::GetReal(const std::string& section, const std::string& name, float default_value) const
-- 
2.43.0


From ac1ef69b9599ccd202431208538a82cda7bc552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 02/12] fix: use the exact area of azimuthal faces in spherical
 geometry

The other faces and the volumes are exact integrals; the phi faces used the
inner radius instead of the mean radius of the cell.
---
 src/mesh/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..59e2bd0 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -62,7 +62,7 @@ void Spherical::execute(
         KV_cdouble_1d const& x0,
         KV_cdouble_1d const& x1,
         KV_cdouble_1d const& /*x2*/,
-        KV_cdouble_1d const& dx0,
+        KV_cdouble_1d const& /*dx0*/,
         KV_cdouble_1d const& dx1,
         KV_cdouble_1d const& dx2,
         KV_double_4d const& ds,
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * dx1(j); //phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From 1f41cea29605c347bc23d6835fb7c3b708ac0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 03/12] fix: release the horizontal communicator of the grid

---
 src/mesh/grid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mesh/grid.cpp b/src/mesh/grid.cpp
index d98fad8..9a692d6 100644
--- a/src/mesh/grid.cpp
+++ b/src/mesh/grid.cpp
@@ -77,6 +77,10 @@ Grid::Grid(std::array<int, 3> const& nx_glob_ng, std::array<int, 3> const& mpi_d
 
 Grid::~Grid() noexcept
 {
+    if (comm_cart_horizontal != MPI_COMM_NULL) {
+        MPI_Comm_free(&comm_cart_horizontal);
+    }
+
     if (comm_cart != MPI_COMM_NULL) {
         MPI_Comm_free(&comm_cart);
     }
-- 
2.43.0


From 884c9a62ea53936c58f4035c0c996b99708675a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 04/12] fix: apply boundary conditions in the order of the
 priority list

The faces named in 'priority' were indexed by the inverse permutation,
repeated faces were accepted and the names used by the shipped inputs
(X0_left, ...) were rejected.
---
 src/boundary_distribute.cpp | 49 +++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..4d597f3 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -9,13 +9,13 @@
 
 #include <mpi.h>
 
-#include <algorithm>
 #include <array>
 #include <cstddef>
 #include <numeric>
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <string_view>
 #include <vector>
 
 #include <grid.hpp>
@@ -32,39 +32,36 @@ namespace {
 
 void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_priority)
 {
+    static constexpr std::array<std::array<std::string_view, 2>, 6> face_names {
+            {{"X_left", "X0_left"},
+             {"X_right", "X0_right"},
+             {"Y_left", "X1_left"},
+             {"Y_right", "X1_right"},
+             {"Z_left", "X2_left"},
+             {"Z_right", "X2_right"}}};
+
     if (bc_priority.empty()) {
         std::iota(bc_order.begin(), bc_order.end(), 0); // bc_order = {0,1,2,3,4,5};
         return;
     }
-    std::array<std::string, nfaces> tmp_arr;
-    std::stringstream ssin(bc_priority);
-    for (int i = 0; i < nfaces && ssin.good(); ++i) {
-        ssin >> tmp_arr[i];
-    }
 
+    // Faces are listed from high to low priority, conditions are applied from low to high priority
+    std::array<bool, nfaces> is_ordered {};
+    std::stringstream ssin(bc_priority);
+    std::string name;
     int counter = 0;
-    for (int i = 0; i < nfaces; ++i) {
-        if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
-            ++counter;
-        } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
-            ++counter;
-        } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
-            ++counter;
-        } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
-            ++counter;
-        } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
-            ++counter;
-        } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
-            ++counter;
+    while (ssin >> name) {
+        int face = 0;
+        while (face < nfaces && name != face_names[face][0] && name != face_names[face][1]) {
+            ++face;
+        }
+        if (face == nfaces || is_ordered[face]) {
+            throw std::runtime_error("boundary priority: unexpected face " + name + " !");
         }
+        is_ordered[face] = true;
+        bc_order[nfaces - 1 - counter] = face;
+        ++counter;
     }
-    std::ranges::reverse(bc_order);
     if (counter != nfaces) {
         throw std::runtime_error("boundary priority not fully defined !");
     }
-- 
2.43.0


From 80780dbf3c1aa5997813b70e81d40b18384c0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 05/12] fix: use the documented default priority of the
 boundary conditions

Priorities are given from high to low and a condition of high priority
overwrites the others: the default X->Y->Z gives X the highest priority.
---
 src/boundary_distribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 4d597f3..8420a6e 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -41,7 +41,7 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
              {"Z_right", "X2_right"}}};
 
     if (bc_priority.empty()) {
-        std::iota(bc_order.begin(), bc_order.end(), 0); // bc_order = {0,1,2,3,4,5};
+        std::iota(bc_order.rbegin(), bc_order.rend(), 0); // from high to low priority: {0,1,2,3,4,5}
         return;
     }
 
-- 
2.43.0


From d7678ca559da1f96f983e84cdb738bea2f115a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 06/12] fix: report undefined internal energies

Comparisons with NaN are false, so that the minimum over cells dropped them and
the guard of the main loop never saw them.
---
 src/analysis/internal_energy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/analysis/internal_energy.cpp b/src/analysis/internal_energy.cpp
index b6eec69..aeb7d33 100644
--- a/src/analysis/internal_energy.cpp
+++ b/src/analysis/internal_energy.cpp
@@ -35,7 +35,8 @@ auto minimum_internal_energy(Range const& range, Grid const& grid, KV_cdouble_3d
 
                 double const cell_evol = compute_evol(cons);
 
-                local_evol = Kokkos::min(local_evol, cell_evol);
+                // comparisons with NaN are false: the reduction would drop an undefined energy
+                local_evol = Kokkos::min(local_evol, Kokkos::isnan(cell_evol) ? -Kokkos::Experimental::infinity_v<double> : cell_evol);
             },
             Kokkos::Min<double>(evol));
 
-- 
2.43.0


From 675ed7f737fbb37d7af98627691d0d4e63d191a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 07/12] fix: use the velocity normal to each face in the
 pressure fix

The divergences mixed the faces along one direction with the velocity and the
areas along the others, so that a shear flow was heated or cooled.
---
 src/hydro/pressure_fix.hpp | 126 ++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 64 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..3363edf 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -82,90 +82,88 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
-                            EulerCons var_L; // Left, front, down (i,j,k)
-                            EulerCons var_R; // Right, back, top (i,j,k)
+                        EulerCons var_L; // Left, front, down (i,j,k)
+                        EulerCons var_R; // Right, back, top (i,j,k)
 
-                            var_L.rho = rho_rec(i, j, k, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
-                            }
-                            var_L.E = E_rec(i, j, k, 0, idim);
+                        var_L.rho = rho_rec(i, j, k, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
+                        }
+                        var_L.E = E_rec(i, j, k, 0, idim);
 
-                            var_R.rho = rho_rec(i, j, k, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
-                            }
-                            var_R.E = E_rec(i, j, k, 1, idim);
+                        var_R.rho = rho_rec(i, j, k, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
+                        }
+                        var_R.E = E_rec(i, j, k, 1, idim);
 
-                            EulerPrim const primL = to_prim(var_L, eos);
-                            EulerPrim const primR = to_prim(var_R, eos);
+                        EulerPrim const primL = to_prim(var_L, eos);
+                        EulerPrim const primR = to_prim(var_R, eos);
 
-                            EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
-                            EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
+                        EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
+                        EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
 
-                            minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
-                            }
-                            minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
+                        minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
+                        }
+                        minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
 
-                            plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
-                            }
-                            plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
+                        plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
+                        }
+                        plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
 
-                            EulerPrim const prim_mR = to_prim(minus_oneR, eos);
-                            EulerPrim const prim_pL = to_prim(plus_oneL, eos);
+                        EulerPrim const prim_mR = to_prim(minus_oneR, eos);
+                        EulerPrim const prim_pL = to_prim(plus_oneL, eos);
 
-                            EulerCons cons_p; // (i,j,k) + 1
-                            EulerCons cons_m; // (i,j,k) - 1
+                        EulerCons cons_p; // (i,j,k) + 1
+                        EulerCons cons_m; // (i,j,k) - 1
 
-                            cons_p.rho = rho(i_p, j_p, k_p);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
-                            }
-                            cons_p.E = E(i_p, j_p, k_p);
+                        cons_p.rho = rho(i_p, j_p, k_p);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
+                        }
+                        cons_p.E = E(i_p, j_p, k_p);
 
-                            cons_m.rho = rho(i_m, j_m, k_m);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
-                            }
-                            cons_m.E = E(i_m, j_m, k_m);
+                        cons_m.rho = rho(i_m, j_m, k_m);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
+                        }
+                        cons_m.E = E(i_m, j_m, k_m);
 
-                            //--------------------------------------------//
+                        //--------------------------------------------//
 
-                            double const us = (prim_mR.u[ipos] + primL.u[ipos]) / 2; // Not the values from the Riemann solver
-                            double const us_p = (primR.u[ipos] + prim_pL.u[ipos]) / 2;
+                        double const us = (prim_mR.u[idim] + primL.u[idim]) / 2; // Not the values from the Riemann solver
+                        double const us_p = (primR.u[idim] + prim_pL.u[idim]) / 2;
 
-                            divU += ((us_p * ds(i_p, j_p, k_p, ipos)) - (us * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divU += ((us_p * ds(i_p, j_p, k_p, idim)) - (us * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            if (us_p > 0) {
-                                einR = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
-                            }
+                        if (us_p > 0) {
+                            einR = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
+                        }
 
-                            if (us < 0) {
-                                einL = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
-                            }
+                        if (us < 0) {
+                            einL = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
+                        }
 
-                            divUE += ((us_p * einR * ds(i_p, j_p, k_p, ipos)) - (us * einL * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divUE += ((us_p * einR * ds(i_p, j_p, k_p, idim)) - (us * einL * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            double const de_pf = dt * ((-prim.P * divU) - divUE);
+                        double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                            double sum = 0;
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                            }
+                        double sum = 0;
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
+                        }
 
-                            double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
+                        double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
-                        }
+                        E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
                     }
                 }
             });
-- 
2.43.0


From 4691af2de8fda7d71a7b3fd29f711da486d19bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 08/12] fix: keep the new kinetic energy in the pressure fix

The corrected internal energy was added to the kinetic energy before the step
while the momentum is the updated one: the scheme did not match the
conservative update at the limit of the criterion.
---
 src/hydro/pressure_fix.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index 3363edf..7469e9b 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -156,14 +156,9 @@ void pressure_fix(
 
                         double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                        double sum = 0;
-                        for (int idr = 0; idr < ndim; ++idr) {
-                            sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                        }
-
                         double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                        E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
+                        E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
                     }
                 }
             });
-- 
2.43.0


From cbe67f454055b6d241d46e0161121e902a2861e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 09/12] fix: place the 3D Sedov explosion once at the middle of
 the global grid

---
 src/setups/sedov3d/setup.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..b09e537 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // Local indices of the middle of the global grid
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) - grid.range.Corner_min[1] + grid.Nghost[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) - grid.range.Corner_min[2] + grid.Nghost[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
-- 
2.43.0


From 482a4fbfa4b0f31815918860b374e3a6cc066872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 10/12] fix: take the 1D Sedov energies from the first cell of
 the global grid

---
 src/setups/sedov1d/setup.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..2c23e90 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <mpi.h>
+
 #include <cassert>
 #include <string>
 
@@ -78,13 +80,19 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
+        // The energies are those of the first cell of the global grid, which is owned by the root process
+        int const root = 0;
+        int const ibeg = grid.Nghost[0];
+        double dv_beg = 0;
+        if (mpi_rank == root) {
+            Kokkos::deep_copy(dv_beg, Kokkos::subview(grid.dv, ibeg, grid.Nghost[1], grid.Nghost[2]));
+        }
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, root, grid.comm_cart);
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +102,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (mpi_rank == root && i == ibeg) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0


From ccfc9ea3765c58c9d1099acf84e288e71f0d53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 11/12] fix: give the passive scalar of the Rayleigh-Taylor
 setup its upper and lower values

---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From 04fec9161e243c2540cf8d752bdae003b170773d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 12/12] fix: impose the velocity of the atmosphere setups with
 the density of the ghosts

---
 src/setups/eq_hydro_sphe/setup.hpp  | 5 +++--
 src/setups/stratified_atm/setup.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/setups/eq_hydro_sphe/setup.hpp b/src/setups/eq_hydro_sphe/setup.hpp
index 324dc14..c75c096 100644
--- a/src/setups/eq_hydro_sphe/setup.hpp
+++ b/src/setups/eq_hydro_sphe/setup.hpp
@@ -143,10 +143,11 @@ public:
                     rho(i, j, k) = param_setup.rho0 * Kokkos::exp(1. / (xc(i) * x0));
 
                     for (int n = 0; n < rhou.extent_int(3); ++n) {
-                        rhou(i, j, k, n) = param_setup.rho0 * param_setup.u0;
+                        rhou(i, j, k, n) = rho(i, j, k) * param_setup.u0;
                     }
 
-                    E(i, j, k) = eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0);
+                    double const ek = 0.5 * rho(i, j, k) * rhou.extent_int(3) * param_setup.u0 * param_setup.u0;
+                    E(i, j, k) = ek + eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0);
                 });
     }
 };
diff --git a/src/setups/stratified_atm/setup.hpp b/src/setups/stratified_atm/setup.hpp
index 17e52c6..508aaf5 100644
--- a/src/setups/stratified_atm/setup.hpp
+++ b/src/setups/stratified_atm/setup.hpp
@@ -152,10 +152,11 @@ public:
                     rho(i, j, k) = param_setup.rho0 * Kokkos::exp(-xc(i) / x0);
 
                     for (int n = 0; n < rhou.extent_int(3); ++n) {
-                        rhou(i, j, k, n) = param_setup.rho0 * param_setup.u0;
+                        rhou(i, j, k, n) = rho(i, j, k) * param_setup.u0;
                     }
 
-                    E(i, j, k) = eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0);
+                    double const ek = 0.5 * rho(i, j, k) * rhou.extent_int(3) * param_setup.u0 * param_setup.u0;
+                    E(i, j, k) = ek + eos.compute_evol_from_temp(rho(i, j, k), param_setup.T0);
                 });
     }
 };
-- 
2.43.0

