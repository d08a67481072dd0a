CHECK = "c19_state.py"
M = [
 ("static-const-dep", "include/TAT/exponential.hpp", "      auto j = std::max", "      static const auto j = std::max", 1),
 ("static-const-nodep", "include/TAT/exponential.hpp", "      ScalarType parameter = ScalarType(1) /", "      static const ScalarType one_value = ScalarType(1);\n      ScalarType parameter = one_value /", 0),
 ("mutable-field", "include/TAT/edge.hpp", "      map_type map;", "      map_type map; mutable int memo = 0;", 1),
 ("static-scratch", "include/TAT/svd.hpp", "      const int max", "      static std::vector<int> keep; keep.push_back(m);\n      const int max", 1),
 ("cout", "include/TAT/trace.hpp", "      auto timer_guard = trace_guard();", "      auto timer_guard = trace_guard(); std::cout << \"trace\";", 1),
 ("static-cache-by-rank", "include/TAT/edge_operator.hpp", "      auto pmr_guard = scope_resource", "      static std::map<Size, Size> plan; plan[names.size()]++;\n      auto pmr_guard = scope_resource", 1),
 ("global-flag", "include/TAT/qr.hpp", "   template<typename ScalarType, typename Symmetry, typename Name>\n   typename Tensor", "   inline int last_qr = 0;\n   inline void touch_last() { last_qr++; }\n   template<typename ScalarType, typename Symmetry, typename Name>\n   typename Tensor", 1),
 ("static-const-ok", "include/TAT/trace.hpp", "      auto timer_guard = trace_guard();", "      auto timer_guard = trace_guard(); static const int zero = 0; (void)zero;", 0),
 ("redo-ptr-key", [("include/square/sampling_gradient_lattice.hpp","std::map<std::shared_ptr<const Tensor<T>>, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map","std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map"),("include/square/sampling_gradient_lattice.hpp","tensor_element_map.find(tensor_id)","tensor_element_map.find(tensor_id.get())"),("include/square/sampling_gradient_lattice.hpp","tensor_element_map[tensor_id]","tensor_element_map[tensor_id.get()]")],0,0,1),
]
