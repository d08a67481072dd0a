From 570e2147a4ddedee320d9c40835b908b6834b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 01/34] fix: data_get no longer overwrites the data of tensors
 sharing the same core

---
 include/TAT/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 2d30575..9d829a4 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -620,6 +620,10 @@ namespace TAT {
 
    template<typename ScalarType, typename Symmetry, typename Name>
    Tensor<ScalarType, Symmetry, Name>& Tensor<ScalarType, Symmetry, Name>::data_get(std::istream& in) {
+      if (core.use_count() != 1) {
+         // the data read below must not be visible through other tensors sharing this core
+         core = std::make_shared<Core<ScalarType, Symmetry>>(*core);
+      }
       if constexpr (std::is_same_v<Symmetry, NoSymmetry>) {
          core->blocks.clear(); // vector的长度不一定相同, 所以还是要clear一下
          in > core->blocks[std::vector<NoSymmetry>(names.size(), NoSymmetry())];
-- 
2.43.0


From 84d7a54aaff8306d48f8623bdb2f491b1c0ef9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:17 +0000
Subject: [PATCH 02/34] fix: definitions in headers are inline, so several
 translation units can include them

---
 include/TAT/transpose.hpp |  8 ++++----
 include/square/basic.hpp  | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/TAT/transpose.hpp b/include/TAT/transpose.hpp
index 539e81f..8d05fe2 100644
--- a/include/TAT/transpose.hpp
+++ b/include/TAT/transpose.hpp
@@ -69,7 +69,7 @@ namespace TAT {
 
 #ifdef TAT_USE_MKL_TRANSPOSE
    template<>
-   void mkl_transpose<float>(
+   inline void mkl_transpose<float>(
          const int dimension_of_M,
          const int dimension_of_N,
          const float* const data_source,
@@ -80,7 +80,7 @@ namespace TAT {
       mkl_somatcopy_("R", "T", &dimension_of_M, &dimension_of_N, &alpha, data_source, &leading_source, data_destination, &leading_destination);
    }
    template<>
-   void mkl_transpose<double>(
+   inline void mkl_transpose<double>(
          const int dimension_of_M,
          const int dimension_of_N,
          const double* const data_source,
@@ -91,7 +91,7 @@ namespace TAT {
       mkl_domatcopy_("R", "T", &dimension_of_M, &dimension_of_N, &alpha, data_source, &leading_source, data_destination, &leading_destination);
    }
    template<>
-   void mkl_transpose<std::complex<float>>(
+   inline void mkl_transpose<std::complex<float>>(
          const int dimension_of_M,
          const int dimension_of_N,
          const std::complex<float>* const data_source,
@@ -102,7 +102,7 @@ namespace TAT {
       mkl_comatcopy_("R", "T", &dimension_of_M, &dimension_of_N, &alpha, data_source, &leading_source, data_destination, &leading_destination);
    }
    template<>
-   void mkl_transpose<std::complex<double>>(
+   inline void mkl_transpose<std::complex<double>>(
          const int dimension_of_M,
          const int dimension_of_N,
          const std::complex<double>* const data_source,
diff --git a/include/square/basic.hpp b/include/square/basic.hpp
index 650db66..8297505 100644
--- a/include/square/basic.hpp
+++ b/include/square/basic.hpp
@@ -27,7 +27,7 @@
 #include <stdexcept>
 
 namespace square {
-   auto clear_line = "\u001b[2K";
+   inline auto clear_line = "\u001b[2K";
 
    class NotImplementedError : public std::logic_error {
       using std::logic_error::logic_error;
@@ -146,7 +146,7 @@ namespace square {
        *
        * 保证各个mpi进程返回值相同, 如果root进程输入非0, 则使用root进程的输入作为种子, 则生成一个,
        */
-      std::uint32_t get_seed(std::uint32_t seed = 0) {
+      inline std::uint32_t get_seed(std::uint32_t seed = 0) {
          if (TAT::mpi.rank == 0) {
             if (seed == 0) {
                seed = std::random_device()();
@@ -230,19 +230,19 @@ namespace square {
    MPI_Datatype get_mpi_type();
 
    template<>
-   MPI_Datatype get_mpi_type<float>() {
+   inline MPI_Datatype get_mpi_type<float>() {
       return MPI_FLOAT;
    }
    template<>
-   MPI_Datatype get_mpi_type<double>() {
+   inline MPI_Datatype get_mpi_type<double>() {
       return MPI_DOUBLE;
    }
    template<>
-   MPI_Datatype get_mpi_type<complex<float>>() {
+   inline MPI_Datatype get_mpi_type<complex<float>>() {
       return MPI_C_FLOAT_COMPLEX;
    }
    template<>
-   MPI_Datatype get_mpi_type<complex<double>>() {
+   inline MPI_Datatype get_mpi_type<complex<double>>() {
       return MPI_C_DOUBLE_COMPLEX;
    }
 } // namespace square
-- 
2.43.0


From 89b600c5d703e0b5b82bfbd3722e79195a790733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:23 +0000
Subject: [PATCH 03/34] fix: element tables of operators are no longer looked
 up by the address of a destroyed tensor

---
 include/square/sampling_gradient_lattice.hpp | 18 +++++++++---------
 square/sampling_gradient_lattice.py          |  9 +++++----
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 09111b4..36b4d80 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -201,7 +201,7 @@ namespace square {
                      current_spin.push_back(spin.configuration[std::get<0>(positions[i])][std::get<1>(positions[i])]);
                   }
                   real<T> value = 0;
-                  for (const auto& [spins_out, element] : _find_element(*tensor).at(current_spin)) {
+                  for (const auto& [spins_out, element] : _find_element(tensor).at(current_spin)) {
                      auto map = std::map<std::tuple<int, int>, int>();
                      for (auto i = 0; i < body; i++) {
                         map[positions[i]] = spins_out[i];
@@ -295,7 +295,7 @@ namespace square {
                   }
                   real<T> value = 0;
 
-                  for (const auto& [spins_out, element] : _find_element(*tensor).at(current_spin)) {
+                  for (const auto& [spins_out, element] : _find_element(tensor).at(current_spin)) {
                      auto map = std::map<std::tuple<int, int>, int>();
                      for (auto i = 0; i < body; i++) {
                         map[positions[i]] = spins_out[i];
@@ -430,7 +430,7 @@ namespace square {
          for (auto i = 0; i < body; i++) {
             current_spin.push_back(spin.configuration[std::get<0>(positions[i])][std::get<1>(positions[i])]);
          }
-         const auto& hamiltonian_elements = _find_hopping_element(*hamiltonian);
+         const auto& hamiltonian_elements = _find_hopping_element(hamiltonian);
          const auto& possible_hopping = hamiltonian_elements.at(current_spin);
          if (!possible_hopping.empty()) {
             int hopping_number = possible_hopping.size();
@@ -456,10 +456,10 @@ namespace square {
          return ws;
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
+      inline static std::map<std::shared_ptr<const Tensor<T>>, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
 
-      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const Tensor<T>& tensor) const {
-         auto tensor_id = &tensor;
+      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const std::shared_ptr<const Tensor<T>>& tensor_id) const {
+         const Tensor<T>& tensor = *tensor_id;
          if (auto found = tensor_element_map.find(tensor_id); found != tensor_element_map.end()) {
             return found->second;
          }
@@ -505,10 +505,10 @@ namespace square {
          }
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
+      inline static std::map<std::shared_ptr<const Tensor<T>>, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
 
-      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_hopping_element(const Tensor<T>& tensor) const {
-         auto tensor_id = &tensor;
+      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_hopping_element(const std::shared_ptr<const Tensor<T>>& tensor_id) const {
+         const Tensor<T>& tensor = *tensor_id;
          if (auto found = tensor_hopping_element_map.find(tensor_id); found != tensor_hopping_element_map.end()) {
             return found->second;
          }
diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index e7a1703..0753368 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -270,18 +270,19 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                 self.spin[i, j] = step % self.dimension_physics
                 step //= self.dimension_physics
 
-    tensor_element_dict: Dict[int, Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]] = {}
+    # the tensor itself is kept in the table, since its id may be reused after it is destroyed
+    tensor_element_dict: Dict[int, Tuple[Tensor, Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]]] = {}
 
     # TODO complex version
     # TODO 这个操作目前似乎很耗时
     def _find_element(self, tensor: Tensor) -> Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]]:
         tensor_id = id(tensor)
         if tensor_id in self.tensor_element_dict:
-            return self.tensor_element_dict[tensor_id]
+            return self.tensor_element_dict[tensor_id][1]
         body = len(tensor.name) // 2
         self._check_hamiltonian_name(tensor, body)
-        self.tensor_element_dict[tensor_id] = {}
-        result: Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]] = self.tensor_element_dict[tensor_id]
+        result: Dict[Tuple[int, ...], Dict[Tuple[int, ...], float]] = {}
+        self.tensor_element_dict[tensor_id] = (tensor, result)
         names = [f"I{i}" for i in range(body)] + [f"O{i}" for i in range(body)]
         index = [0 for _ in range(2 * body)]
         while True:
-- 
2.43.0


From 681f9d5c0c3c4002b6b3e9ab9b5c1a6e0430b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:32 +0000
Subject: [PATCH 04/34] fix: restoring a lazy snapshot invalidates values
 computed from the replaced data

---
 include/lazy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lazy.hpp b/include/lazy.hpp
index 702c833..ebdc495 100644
--- a/include/lazy.hpp
+++ b/include/lazy.hpp
@@ -127,6 +127,7 @@ namespace lazy {
       }
 
       void load(std::any v) override {
+         unset();
          value = std::any_cast<std::shared_ptr<const Type>>(v);
       }
 
@@ -188,6 +189,7 @@ namespace lazy {
       node& operator=(node<Type>&&) = delete;
 
       void load(std::any v) override {
+         unset();
          value = std::any_cast<std::shared_ptr<const RealType>>(v);
       }
 
-- 
2.43.0


From 2f417e040cf7a7c1cb59e11bff0cad5ed5958702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 05/34] fix: expand accounts for the symmetry of the edges it
 expands to

---
 include/TAT/shrink_and_expand.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index 0e0ef35..4ec8922 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -54,11 +54,13 @@ namespace TAT {
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
+            total_symmetry += symmetry;
          } else {
             const auto& [symmetry, index, dimension] = information;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{symmetry, dimension}}});
+            total_symmetry += symmetry;
          }
       }
       if (old_name != InternalName<Name>::No_Old_Name) {
-- 
2.43.0


From 7a4b5fa4a3a259672980dfb3f342a7760a6f5b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:03 +0000
Subject: [PATCH 06/34] fix: changing a site invalidates all cached
 environments above it

---
 square/auxiliaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/auxiliaries.py b/square/auxiliaries.py
index dbe7ece..7651fc7 100644
--- a/square/auxiliaries.py
+++ b/square/auxiliaries.py
@@ -147,7 +147,7 @@ class SquareAuxiliariesSystem:
                     self._try_to_delete_auxiliaries("left-to-right-3-1", index - 1, j)
                     self._try_to_delete_auxiliaries("right-to-left-3-1", index - 1, j)
                 if flag:
-                    self._refresh_line(kind, index + 1)
+                    self._refresh_line(kind, index - 1)
         else:
             raise ValueError("Wrong Type in Refresh Line")
 
-- 
2.43.0


From 5fe7ba34895db2cb3e25484405663bde485a52b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:30 +0000
Subject: [PATCH 07/34] fix: sampling no longer adds the energy to the caller's
 (or the default) observers

---
 square/sampling_gradient_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 0753368..1297c56 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -184,7 +184,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         if calculate_gradient:
             result["Delta"] = {}
@@ -232,7 +232,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         # ergodic sampling
         sum_of_ws_square: float = 0
-- 
2.43.0


From c5df46adc75556110424df98bac1d2dafa1e2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:30 +0000
Subject: [PATCH 08/34] fix: the spin configuration of a copied lattice refers
 to the copy

---
 square/sampling_gradient_lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 1297c56..06e3d3e 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -106,6 +106,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
 
         self.dimension_cut: int = other.dimension_cut
         self.spin: SpinConfiguration = SpinConfiguration(other.spin)
+        self.spin.lattice = self
 
     @multimethod
     def __init__(self, other: simple_update_lattice.SimpleUpdateLattice, *, Dc: int = 2) -> None:
-- 
2.43.0


From b5c3e3b34bd11523ff7af8779640d29b11349038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:30 +0000
Subject: [PATCH 09/34] fix: adding two spin configurations combines both
 operands

---
 square/sampling_gradient_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 06e3d3e..afbfd62 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -58,7 +58,7 @@ class SpinConfiguration(SquareAuxiliariesSystem):
         return self
 
     def __add__(self, other: SpinConfiguration) -> SpinConfiguration:
-        result = SpinConfiguration(other)
+        result = SpinConfiguration(self)
         result += other
         return result
 
-- 
2.43.0


From 15292648f76d4358ed9dff536ce504a4be253d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:36 +0000
Subject: [PATCH 10/34] fix: random numbers of the Python module are returned
 as numbers

---
 PyTAT/PyTAT.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index cc2be5e..0b67273 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -752,7 +752,7 @@ namespace TAT {
       random_m.def(
             "uniform_int",
             [](int min, int max) {
-               return [distribution = std::uniform_int_distribution<int>(min, max)]() mutable { return distribution(random_engine); };
+               return std::uniform_int_distribution<int>(min, max)(random_engine);
             },
             py::arg("min") = 0,
             py::arg("max") = 1,
@@ -760,7 +760,7 @@ namespace TAT {
       random_m.def(
             "uniform_real",
             [](double min, double max) {
-               return [distribution = std::uniform_real_distribution<double>(min, max)]() mutable { return distribution(random_engine); };
+               return std::uniform_real_distribution<double>(min, max)(random_engine);
             },
             py::arg("min") = 0,
             py::arg("max") = 1,
@@ -768,7 +768,7 @@ namespace TAT {
       random_m.def(
             "normal",
             [](double mean, double stddev) {
-               return [distribution = std::normal_distribution<double>(mean, stddev)]() mutable { return distribution(random_engine); };
+               return std::normal_distribution<double>(mean, stddev)(random_engine);
             },
             py::arg("mean") = 0,
             py::arg("stddev") = 1,
-- 
2.43.0


From 2990b32a3dba92bbfa42c76767a97e4bd2b9c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:53 +0000
Subject: [PATCH 11/34] fix: svd with cut selects zero singular values from the
 sector they belong to

---
 include/TAT/svd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/svd.hpp b/include/TAT/svd.hpp
index 3d0acb9..cce620a 100644
--- a/include/TAT/svd.hpp
+++ b/include/TAT/svd.hpp
@@ -366,7 +366,7 @@ namespace TAT {
          }
          for (Size i = 0; i < cut; i++) {
             Symmetry maximum_position;
-            real_base_t<ScalarType> maximum_singular = 0;
+            real_base_t<ScalarType> maximum_singular = -1; // 奇异值可能为0
             for (const auto& [symmetry, vector_s] : result_s) {
                if (auto& this_remain = remain_dimension_u.at(symmetry); this_remain != vector_s.size()) {
                   if (auto this_singular = vector_s[this_remain]; this_singular > maximum_singular) {
-- 
2.43.0


From f451a8770dab9cbda3a40ad34624fa38f4dd241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 12/34] fix: blocks of sectors removed by a cut are skipped in
 edge_operator

---
 include/TAT/edge_operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f0b8117..1b583d6 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -520,7 +520,8 @@ namespace TAT {
       using MapFromTransposeToSourceDestination = NormalMapFromTransposeToSourceDestination;
 #endif
       auto data_before_transpose_to_source = MapFromTransposeToSourceDestination();
-      if (!split_map.empty() || (is_fermi && !reversed_name.empty())) {
+      if (!split_map.empty() || (is_fermi && !reversed_name.empty()) || !edge_and_symmetries_to_cut_before_all.empty()) {
+         // 被cut掉的分块不再出现在edge_after_split中
          // 需要使用reversed前的symmetry，所以
          // 1. 上面判断了是否reversed为空，不然else中的edge不正确 2.下面使用edge_after_split而不是edge_before_transpose
          for (auto& [symmetries_before_transpose, size] : initialize_block_symmetries_with_check(edge_after_split)) {
-- 
2.43.0


From 23cac266ec4e128166542c066187008da851a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 13/34] fix: compare the first element too in is_same_vector

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 1b583d6..e172c2a 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -34,7 +34,7 @@ namespace TAT {
       if (size1 != size2) {
          return false;
       }
-      for (auto i = 1; i < size1; i++) {
+      for (decltype(size1) i = 0; i < size1; i++) {
          if (vector1[i] != vector2[i]) {
             return false;
          }
-- 
2.43.0


From 411c354a803e0ed267dcbc648e33e0292f17f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 14/34] fix: initialize the arrow of an edge merged from no
 directed edge

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index e172c2a..5949026 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -399,7 +399,7 @@ namespace TAT {
                end_of_merge++;
             }
             // arrow begin
-            Arrow arrow;
+            Arrow arrow = false;
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
-- 
2.43.0


From e2a0857bd30000486b5fe0b5d66016cc7c41c63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 15/34] fix: reject contraction of edges with different
 dimension without symmetry

---
 include/TAT/contract.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index fb83f36..283a8f8 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -726,6 +726,14 @@ namespace TAT {
          // 所以尽量大张量放在后侧
       }
 
+      for (Rank i = 0; i < common_rank; i++) {
+         const auto& edge_1 = tensor_1.core->edges[tensor_1.name_to_index.at(common_name_1[i])];
+         const auto& edge_2 = tensor_2.core->edges[tensor_2.name_to_index.at(common_name_2[i])];
+         if (!(edge_1 == edge_2)) {
+            TAT_error("Different Dimension to Contract");
+         }
+      }
+
       // merge
       // 仅对第一个张量的公共边的reverse和merge做符号
       auto tensor_1_merged = tensor_1.edge_operator(
-- 
2.43.0


From 0d89198d73ea8ea97fc38f3a94c6d9174a4c9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 16/34] fix: reject trace of edges with different dimension

---
 include/TAT/trace.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index f71b71c..bdf0884 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -119,6 +119,9 @@ namespace TAT {
       for (const auto& [symmetry_1, dimension] : merged_tensor.core->edges[0].map) {
          // 而source的形状应该是多个分块对角矩阵, 每个元素是一个向量, 我只需要把正对角的向量们求和
          auto symmetry_2 = -symmetry_1;
+         if (merged_tensor.core->edges[1].map.at(symmetry_2) != dimension) {
+            TAT_error("Different Dimension to Trace");
+         }
          auto source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
          auto dimension_plus_one = dimension + 1;
          for (Size i = 0; i < dimension; i++) {
-- 
2.43.0


From 6ae5405cca08bcdfa1771e9b77525a55f64e6d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 17/34] fix: do not overflow the buffer when reading a long
 name

---
 include/TAT/io.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 9d829a4..5057990 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -121,13 +121,10 @@ namespace TAT {
 
    // inline std::istream& operator>>(std::istream& in, std::string& name) {
    inline std::istream& scan_string_for_name(std::istream& in, std::string& name) {
-      char buffer[256]; // max name length = 256
-      Size length = 0;
+      name.clear();
       while (valid_name_character(in.peek())) {
-         buffer[length++] = in.get();
+         name.push_back(in.get());
       }
-      buffer[length] = '\x00';
-      name = (const char*)buffer;
       return in;
    }
 
-- 
2.43.0


From d76f0cae1ef4cf652b2247170a74b5d6a9f1533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 18/34] fix: read back the colored text of symmetric tensors,
 stop when the stream fails

---
 include/TAT/io.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 5057990..958b1ca 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -63,6 +63,12 @@ namespace TAT {
       in.ignore(std::numeric_limits<std::streamsize>::max(), end);
    }
 
+   inline void ignore_color_code(std::istream& in) {
+      while (in.peek() == '\x1B') {
+         ignore_util(in, 'm');
+      }
+   }
+
    template<typename ScalarType>
    std::istream& scan_complex(std::istream& in, std::complex<ScalarType>& value) {
       ScalarType part;
@@ -237,7 +243,7 @@ namespace TAT {
                in >> i;
             }
             char next = in.get();
-            if (next == ']') {
+            if (next == ']' || !in) {
                break;
             }
          }
@@ -489,6 +495,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                std::vector<Symmetry> symmetries;
+               ignore_color_code(in);
                in >> symmetries;
                ignore_util(in, ':');
                in >> tensor.core->blocks[std::move(symmetries)];
@@ -533,6 +540,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                Symmetry symmetry;
+               ignore_color_code(in);
                in >> symmetry;
                ignore_util(in, ':');
                in >> value[symmetry];
-- 
2.43.0


From d89d793f67122d8fbf720b0b4ded228f53d38a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 19/34] fix: reject element positions outside the edge

---
 include/TAT/get_item.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/TAT/get_item.hpp b/include/TAT/get_item.hpp
index 67549d9..72c49db 100644
--- a/include/TAT/get_item.hpp
+++ b/include/TAT/get_item.hpp
@@ -54,6 +54,9 @@ namespace TAT {
             TAT_error("Name not found in position map when finding offset");
          }
          dimensions.push_back(core.edges[i].map.begin()->second);
+         if (scalar_position.back() >= dimensions.back()) {
+            TAT_error("Index out of range when finding offset");
+         }
       }
       Size offset = 0;
       for (Rank j = 0; j < rank; j++) {
@@ -83,6 +86,9 @@ namespace TAT {
          symmetries.push_back(symmetry);
          scalar_position.push_back(index);
          dimensions.push_back(core.edges[i].map.at(symmetry));
+         if (scalar_position.back() >= dimensions.back()) {
+            TAT_error("Index out of range when finding block and offset");
+         }
       }
       Size offset = 0;
       for (Rank j = 0; j < rank; j++) {
-- 
2.43.0


From 22292777174b3aafc06b141105ee2bd774e21bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 20/34] fix: reject indices outside the edge in expand and
 shrink

---
 include/TAT/shrink_and_expand.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index 4ec8922..b170b4c 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -46,17 +46,26 @@ namespace TAT {
          new_names.push_back(name);
          if constexpr (is_no_symmetry) {
             const auto& [index, dimension] = information;
+            if (index >= dimension) {
+               TAT_error("Index out of range in Expand");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{Symmetry(), dimension}}});
          } else if constexpr (is_fermi) {
             const auto& [arrow, symmetry, index, dimension] = information;
+            if (index >= dimension) {
+               TAT_error("Index out of range in Expand");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
             total_symmetry += symmetry;
          } else {
             const auto& [symmetry, index, dimension] = information;
+            if (index >= dimension) {
+               TAT_error("Index out of range in Expand");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{symmetry, dimension}}});
@@ -124,6 +133,9 @@ namespace TAT {
             }
             const auto& this_edge = core->edges[name_to_index.at(name)];
             Size dimension = this_edge.map.at(symmetry);
+            if (index >= dimension) {
+               TAT_error("Index out of range in Shrink");
+            }
             total_offset *= dimension;
             total_offset += index;
             new_names.push_back(name);
-- 
2.43.0


From 56ccfca9c1bd5c92b3725ce8e5483a8f3d8f3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 21/34] fix: reject identity when an edge has no counterpart

---
 include/TAT/tensor_miscellaneous.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 8d95a45..7a6f34a 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -232,6 +232,9 @@ namespace TAT {
                   break;
                }
             }
+            if (name_correspond == nullptr) {
+               TAT_error("Name missing in identity");
+            }
             ordered_pair.push_back({name_to_find, *name_correspond});
             auto index_correspond = name_to_index.at(*name_correspond);
             ordered_pair_index.push_back({i, index_correspond});
-- 
2.43.0


From 4eab783fe500c8ff5deac3c380aa6d90a88c33e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 22/34] fix: reject exponential of tensors which are not square
 matrices, skip empty blocks

---
 include/TAT/exponential.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 606c54c..41417fa 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -197,6 +197,9 @@ namespace TAT {
             }
          }
       }
+      if (current_index != 0 || 2 * half_rank != rank) {
+         TAT_error("Name missing in exponential");
+      }
       auto reverse_set = pmr::set<Name>();
       if constexpr (is_fermi_symmetry_v<Symmetry>) {
          for (Rank i = 0; i < rank; i++) {
@@ -235,6 +238,12 @@ namespace TAT {
       for (auto& [symmetries, data_source] : tensor_merged.core->blocks) {
          auto& data_destination = result.core->blocks.at(symmetries);
          auto n = tensor_merged.core->edges[0].map.at(symmetries[0]);
+         if (data_source.size() != n * n) {
+            TAT_error("Different Dimension in exponential");
+         }
+         if (n == 0) {
+            continue;
+         }
          matrix_exponential(n, data_source.data(), data_destination.data(), step);
       }
       return result.edge_operator({}, split_map_result, reverse_set, {}, result_names);
-- 
2.43.0


From 5ec01eca8f511713e139de8ceb55faccdef7b919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:49 +0000
Subject: [PATCH 23/34] fix: inplace operators with a number taken from the
 tensor itself

---
 include/TAT/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/TAT/scalar.hpp b/include/TAT/scalar.hpp
index 481aef5..4c37fde 100644
--- a/include/TAT/scalar.hpp
+++ b/include/TAT/scalar.hpp
@@ -165,7 +165,7 @@ namespace TAT {
          tensor_1.core = std::make_shared<Core<ScalarType1, Symmetry>>(*tensor_1.core);                                                          \
          TAT_warning_or_error_when_copy_shared("Inplace operator on tensor shared, copy happened here");                                         \
       }                                                                                                                                          \
-      const auto& y = number_2;                                                                                                                  \
+      const auto y = number_2;                                                                                                                   \
       for (auto& [symmetries, block] : tensor_1.core->blocks) {                                                                                  \
          ScalarType1* __restrict a = block.data();                                                                                               \
          for (Size j = 0; j < block.size(); j++) {                                                                                               \
@@ -177,7 +177,7 @@ namespace TAT {
    template<typename ScalarType1, typename ScalarType2, typename Symmetry, typename Name, typename = std::enable_if_t<is_scalar_v<ScalarType2>>> \
    Singular<ScalarType1, Symmetry, Name>& OP(Singular<ScalarType1, Symmetry, Name>& singular, const ScalarType2& number) {                       \
       auto timer_guard = scalar_inplace_guard();                                                                                                 \
-      const auto& y = number;                                                                                                                    \
+      const auto y = number;                                                                                                                     \
       for (auto& [symmetry, singulars] : singular.value) {                                                                                       \
          real_base_t<ScalarType1>* __restrict a = singulars.data();                                                                              \
          for (Size j = 0; j < singulars.size(); j++) {                                                                                           \
-- 
2.43.0


From 2089deeb086a1da1018bcbf5cc3ea91e170bd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:14 +0000
Subject: [PATCH 24/34] fix: do not read before the leadings when a transpose
 is a linear copy

---
 include/TAT/transpose.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/TAT/transpose.hpp b/include/TAT/transpose.hpp
index 8d05fe2..ef936e6 100644
--- a/include/TAT/transpose.hpp
+++ b/include/TAT/transpose.hpp
@@ -235,11 +235,8 @@ namespace TAT {
          Rank line_rank = rank - 1;
          Size expect_leading = 1;
          while (expect_leading *= dimensions_destination[line_rank],
-                leadings_source_by_destination[line_rank - 1] == expect_leading && leadings_destination[line_rank - 1] == expect_leading) {
-            if (line_rank == 0) {
-               // 完全线性copy
-               break;
-            }
+                line_rank != 0 && leadings_source_by_destination[line_rank - 1] == expect_leading && leadings_destination[line_rank - 1] == expect_leading) {
+            // line_rank == 0时是完全线性copy
             line_rank--;
          }
          auto const_expect_leading_varaint = to_const<Size, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>(expect_leading);
@@ -356,11 +353,8 @@ namespace TAT {
          Rank line_rank = rank - 1;
          Size expect_leading = 1;
          while (expect_leading *= real_dimensions[line_rank],
-                real_leadings_source[line_rank - 1] == expect_leading && real_leadings_destination[line_rank - 1] == expect_leading) {
-            if (line_rank == 0) {
-               // 完全线性copy
-               break;
-            }
+                line_rank != 0 && real_leadings_source[line_rank - 1] == expect_leading && real_leadings_destination[line_rank - 1] == expect_leading) {
+            // line_rank == 0时是完全线性copy
             line_rank--;
          }
          auto const_expect_leading_varaint = to_const<Size, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>(expect_leading);
-- 
2.43.0


From 4732bea4612c1779ca68c7e0394aeb952db1ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:14 +0000
Subject: [PATCH 25/34] fix: identity of tensors without edges and with empty
 blocks

---
 include/TAT/tensor_miscellaneous.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 7a6f34a..422ea4f 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -264,6 +264,13 @@ namespace TAT {
             pair_leading.push_back(leading[std::get<0>(ordered_pair_index[i])] + leading[std::get<1>(ordered_pair_index[i])]);
             // ordered_pair_index使用较大的leading进行从大到小排序，所以pair_leading一定降序
          }
+         if (block.size() == 0) {
+            continue;
+         }
+         if (half_rank == 0) {
+            block[0] = 1;
+            continue;
+         }
          set_to_identity(block.data(), pair_dimension, pair_leading, half_rank);
       }
 
-- 
2.43.0


From 5c9c7e288a99ff872932058fca21b4203707523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:50 +0000
Subject: [PATCH 26/34] fix: reject renaming two edges to the same name

---
 include/TAT/edge_miscellaneous.hpp | 1 +
 include/TAT/edge_operator.hpp      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_miscellaneous.hpp b/include/TAT/edge_miscellaneous.hpp
index 67ccfc9..7c0a42f 100644
--- a/include/TAT/edge_miscellaneous.hpp
+++ b/include/TAT/edge_miscellaneous.hpp
@@ -44,6 +44,7 @@ namespace TAT {
          }
       });
       result.name_to_index = construct_name_to_index<decltype(result.name_to_index)>(result.names);
+      check_valid_name(result.names, names.size());
       return result;
    }
 
diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 5949026..69576b6 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -133,7 +133,7 @@ namespace TAT {
          result.names = {new_names.begin(), new_names.end()};
          result.name_to_index = construct_name_to_index<decltype(name_to_index)>(result.names);
          result.core = core; // 因为是rename edge所以不拷贝
-         // check_valid_name(result.names, result.core->edges.size());
+         check_valid_name(result.names, names.size());
          return result;
       }
 
-- 
2.43.0


From 055be34e1ceb9679146031428301b049d13b75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:14 +0000
Subject: [PATCH 27/34] fix: compute sizes and offsets of matrices in 64 bits

---
 include/TAT/contract.hpp    |  8 ++++----
 include/TAT/exponential.hpp |  4 ++--
 include/TAT/qr.hpp          | 18 +++++++++---------
 include/TAT/svd.hpp         | 12 ++++++------
 4 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index 283a8f8..78e7de2 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -778,10 +778,10 @@ namespace TAT {
       if (m && n && k) {
          pmr::vector<const ScalarType*> a_list(l), b_list(l);
          pmr::vector<ScalarType*> c_list(l);
-         for (auto i = 0; i < l; i++) {
-            a_list[i] = data_2 + k * n * i;
-            b_list[i] = data_1 + m * k * i;
-            c_list[i] = data + m * n * i;
+         for (Size i = 0; i < l; i++) {
+            a_list[i] = data_2 + Size(k) * n * i;
+            b_list[i] = data_1 + Size(m) * k * i;
+            c_list[i] = data + Size(m) * n * i;
          }
          gemm_batch<ScalarType, true>(
                put_common_2_right ? "T" : "N",
diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 41417fa..5a087a5 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -57,9 +57,9 @@ namespace TAT {
       // AX=B
       // A: n*n
       // B: n*nrhs
-      vector<ScalarType> AT(n * n);
+      vector<ScalarType> AT(Size(n) * n);
       matrix_transpose(n, n, A, AT.data());
-      vector<ScalarType> BT(n * nrhs);
+      vector<ScalarType> BT(Size(n) * nrhs);
       matrix_transpose(n, nrhs, B, BT.data());
       vector<int> ipiv(n);
       int result;
diff --git a/include/TAT/qr.hpp b/include/TAT/qr.hpp
index 9555a19..c43eddb 100644
--- a/include/TAT/qr.hpp
+++ b/include/TAT/qr.hpp
@@ -225,7 +225,7 @@ namespace TAT {
          // Q matrix
          // data n*m
          // data_1 min*m
-         for (auto i = 0; i < m; i++) {
+         for (Size i = 0; i < m; i++) {
             std::copy(data + i * n, data + i * n + min, data_1 + i * min);
          }
          orglq<ScalarType>(&min, &m, &min, data_1, &min, tau.data(), work.data(), &lwork, &result);
@@ -234,7 +234,7 @@ namespace TAT {
             TAT_error("Error in LQ");
          }
          // L matrix
-         for (auto i = 0; i < min; i++) {
+         for (Size i = 0; i < min; i++) {
             std::fill(data_2 + i * n, data_2 + i * n + i, 0);
             std::copy(data + i * n + i, data + i * n + n, data_2 + i * n + i);
          }
@@ -263,7 +263,7 @@ namespace TAT {
             TAT_error("Error in QR");
          }
          // Q matrix
-         std::copy(data, data + n * min, data_2); // 多复制了无用的上三角部分
+         std::copy(data, data + Size(n) * min, data_2); // 多复制了无用的上三角部分
          // fortran
          // data n*m
          // data_2 n*min
@@ -274,11 +274,11 @@ namespace TAT {
             TAT_error("Error in QR");
          }
          // R matrix
-         for (auto i = 0; i < min; i++) {
+         for (Size i = 0; i < min; i++) {
             std::copy(data + n * i, data + n * i + i + 1, data_1 + min * i);
             std::fill(data_1 + min * i + i + 1, data_1 + min * i + min, 0);
          }
-         std::copy(data + n * min, data + n * m, data_1 + min * min);
+         std::copy(data + Size(n) * min, data + Size(n) * m, data_1 + Size(min) * min);
          // 若为第一种, 则这个copy不做事
       }
    }
@@ -297,9 +297,9 @@ namespace TAT {
       // 有时可能多转置一下更快，参见svd中的做法
       // 经过初步测试m > n看起来最好
       if (m > n) {
-         auto new_data = vector<ScalarType>(n * m);
-         auto old_data_1 = vector<ScalarType>(n * min);
-         auto old_data_2 = vector<ScalarType>(min * m);
+         auto new_data = vector<ScalarType>(Size(n) * m);
+         auto old_data_1 = vector<ScalarType>(Size(n) * min);
+         auto old_data_2 = vector<ScalarType>(Size(min) * m);
          matrix_transpose(m, n, data, new_data.data());
          calculate_qr_kernel(n, m, min, max, new_data.data(), old_data_1.data(), old_data_2.data(), !use_qr_not_lq);
          matrix_transpose(n, min, old_data_1.data(), data_2);
@@ -418,7 +418,7 @@ namespace TAT {
          const int n = tensor_2.core->edges[1].map.at(symmetries[1]);
          const int k = m > n ? n : m;
          const int max = m > n ? m : n;
-         if (m * n != 0) {
+         if (m != 0 && n != 0) {
             calculate_qr<ScalarType>(m, n, k, max, data, data_1, data_2, use_qr_not_lq);
          }
       }
diff --git a/include/TAT/svd.hpp b/include/TAT/svd.hpp
index cce620a..112bb10 100644
--- a/include/TAT/svd.hpp
+++ b/include/TAT/svd.hpp
@@ -145,9 +145,9 @@ namespace TAT {
       auto kernel_guard = svd_kernel_guard();
       // 经过初步测试m > n比m < n和false要好, true是显然更糟糕的
       if (m > n) {
-         auto new_a = vector<ScalarType>(n * m);
-         auto old_u = vector<ScalarType>(n * min);
-         auto old_vt = vector<ScalarType>(min * m);
+         auto new_a = vector<ScalarType>(Size(n) * m);
+         auto old_u = vector<ScalarType>(Size(n) * min);
+         auto old_vt = vector<ScalarType>(Size(min) * m);
          // new_a = a^T
          // u s vt = a
          // vt^T s u^T = a^T
@@ -207,7 +207,7 @@ namespace TAT {
          float* s,
          std::complex<float>* vt) {
       int result;
-      auto rwork = vector<float>(5 * min);
+      auto rwork = vector<float>(5 * Size(min));
       const int lwork_query = -1;
       std::complex<float> float_lwork;
       cgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, &float_lwork, &lwork_query, rwork.data(), &result);
@@ -232,7 +232,7 @@ namespace TAT {
          double* s,
          std::complex<double>* vt) {
       int result;
-      auto rwork = vector<double>(5 * min);
+      auto rwork = vector<double>(5 * Size(min));
       const int lwork_query = -1;
       std::complex<double> float_lwork;
       zgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, &float_lwork, &lwork_query, rwork.data(), &result);
@@ -345,7 +345,7 @@ namespace TAT {
          const int max = m > n ? m : n;
          auto s = vector<real_base_t<ScalarType>>(k);
          auto* s_data = s.data();
-         if (m * n != 0) {
+         if (m != 0 && n != 0) {
             calculate_svd<ScalarType>(m, n, k, max, data, data_u, s_data, data_v);
          }
          result_s[symmetries[put_v_right]] = std::move(s);
-- 
2.43.0


From 84328d187f413c10bf0be1c8e149b04a4ee326e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:22 +0000
Subject: [PATCH 28/34] fix: scaling of the exponential of matrices with
 elements of 2^30 and more

---
 include/TAT/exponential.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 5a087a5..3ffb0ea 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -97,7 +97,7 @@ namespace TAT {
       // j = max(0, 1+floor(log2(|A|_inf)))
       auto j = std::max(0, 1 + int(std::log2(max_of_abs(A, n))));
       // A = A/2^j
-      ScalarType parameter = ScalarType(1) / ScalarType(1 << j);
+      ScalarType parameter = std::ldexp(real_base_t<ScalarType>(1), -j);
       for (Size i = 0; i < n * n; i++) {
          A[i] *= parameter;
       }
-- 
2.43.0


From 47043d9ad9a1d069b5f65d933ac9b9e88170fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:11 +0000
Subject: [PATCH 29/34] fix: trace of a tensor whose free edges leave no block

---
 include/TAT/trace.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index bdf0884..046ccf8 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -112,6 +112,11 @@ namespace TAT {
             std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}});
       // Trace_1和Trace_2一起merge, 而他们相连, 所以要有一个有效, Trace_3等一会会翻转回来, 所以没事
       auto traced_tensor = Tensor<ScalarType, Symmetry, Name>({InternalName<Name>::Trace_3}, {merged_tensor.core->edges[2]}).zero();
+      if (traced_tensor.core->blocks.size() == 0) {
+         // 自由边中没有对称性为零的部分, 结果没有任何block
+         return traced_tensor.edge_operator(
+               {}, pmr::map<Name, decltype(split_plan)>{{InternalName<Name>::Trace_3, std::move(split_plan)}}, reverse_names, {}, result_names);
+      }
       auto& destination_block = traced_tensor.core->blocks.begin()->second;
       // 应该只有一个边, 所以也只有一个block
       const Size line_size = destination_block.size();
-- 
2.43.0


From c086bb6289b927fbe890673d1558f07cea8c5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:11 +0000
Subject: [PATCH 30/34] fix: exponential with a name in several pairs writes
 out of range

---
 include/TAT/exponential.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 3ffb0ea..ab0a321 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -175,6 +175,9 @@ namespace TAT {
                if (a == name_to_found) {
                   auto ia = name_to_index.at(a);
                   auto ib = name_to_index.at(b);
+                  if (ib >= i || !valid_index[ib]) {
+                     TAT_error("Duplicated name in exponential");
+                  }
                   valid_index[ib] = false;
                   current_index--;
                   merge_1[current_index] = a;
@@ -186,6 +189,9 @@ namespace TAT {
                if (b == name_to_found) {
                   auto ia = name_to_index.at(a);
                   auto ib = name_to_index.at(b);
+                  if (ia >= i || !valid_index[ia]) {
+                     TAT_error("Duplicated name in exponential");
+                  }
                   valid_index[ia] = false;
                   current_index--;
                   merge_1[current_index] = a;
-- 
2.43.0


From 790cf633e7dcf69ad2a091de058e51ec18f1c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:44 +0000
Subject: [PATCH 31/34] fix: identity with a name in several pairs writes out
 of range

---
 include/TAT/tensor_miscellaneous.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 422ea4f..0240863 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -237,6 +237,9 @@ namespace TAT {
             }
             ordered_pair.push_back({name_to_find, *name_correspond});
             auto index_correspond = name_to_index.at(*name_correspond);
+            if (index_correspond <= i || !valid_index[index_correspond]) {
+               TAT_error("Duplicated name in identity");
+            }
             ordered_pair_index.push_back({i, index_correspond});
             valid_index[index_correspond] = false;
          }
-- 
2.43.0


From 8b80cdb8b5138e93e2fac9f37412c70282e18749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:44 +0000
Subject: [PATCH 32/34] fix: identity of blocks whose paired sectors are not
 conjugated or of different dimension

---
 include/TAT/tensor_miscellaneous.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 0240863..d6272c5 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -262,12 +262,21 @@ namespace TAT {
          auto pair_leading = pmr::vector<Size>();
          pair_dimension.reserve(half_rank);
          pair_leading.reserve(half_rank);
+         bool conjugated = true;
          for (Rank i = 0; i < half_rank; i++) {
+            const auto& [index_1, index_2] = ordered_pair_index[i];
+            if (symmetries[index_1] + symmetries[index_2] != Symmetry()) {
+               conjugated = false;
+               break;
+            }
+            if (dimension[index_1] != dimension[index_2]) {
+               TAT_error("Different Dimension in identity");
+            }
             pair_dimension.push_back(dimension[std::get<0>(ordered_pair_index[i])]);
             pair_leading.push_back(leading[std::get<0>(ordered_pair_index[i])] + leading[std::get<1>(ordered_pair_index[i])]);
             // ordered_pair_index使用较大的leading进行从大到小排序，所以pair_leading一定降序
          }
-         if (block.size() == 0) {
+         if (!conjugated || block.size() == 0) {
             continue;
          }
          if (half_rank == 0) {
-- 
2.43.0


From 1696b0185184cfadc7c39f0572c4c7f4fbfaed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:08 +0000
Subject: [PATCH 33/34] fix: Tensor::one of a total symmetry that is not zero
 writes to a missing block

---
 include/TAT/tensor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/tensor.hpp b/include/TAT/tensor.hpp
index 655411f..2c26453 100644
--- a/include/TAT/tensor.hpp
+++ b/include/TAT/tensor.hpp
@@ -214,6 +214,9 @@ namespace TAT {
       one(ScalarType number, const VectorName& names_init, const VectorSymmetry& edge_symmetry = {}, const VectorArrow& edge_arrow = {}) {
          auto rank = names_init.size();
          auto result = Tensor(names_init, get_edge_from_edge_symmetry_and_arrow(edge_symmetry, edge_arrow, rank));
+         if (result.core->blocks.size() == 0) {
+            TAT_error("Cannot create a tensor of one element whose total Symmetry is not zero");
+         }
          result.core->blocks.begin()->second.front() = number;
          return result;
       }
-- 
2.43.0


From 7df679bfab9a0b259f41ace8190a7c0d20347511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:08 +0000
Subject: [PATCH 34/34] fix: Tensor::one with fewer edge symmetries than names
 reads out of range

---
 include/TAT/edge.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/edge.hpp b/include/TAT/edge.hpp
index 41235a3..1d960ce 100644
--- a/include/TAT/edge.hpp
+++ b/include/TAT/edge.hpp
@@ -363,6 +363,9 @@ namespace TAT {
       if constexpr (std::is_same_v<Symmetry, NoSymmetry>) {
          return pmr::vector<Edge<Symmetry>>(rank, {1});
       } else {
+         if (edge_symmetry.size() != rank || (is_fermi_symmetry_v<Symmetry> && edge_arrow.size() != rank)) {
+            TAT_error("Wrong number of edge symmetries or arrows");
+         }
          auto result = pmr::vector<Edge<Symmetry>>();
          result.reserve(rank);
          for (auto i = 0; i < rank; i++) {
-- 
2.43.0

