CHECK = "c06_scratch.py"
PM = "include/TAT/pmr_resource.hpp"
ED = "include/TAT/edge.hpp"
EO = "include/TAT/edge_operator.hpp"
M = [
 ("guard-in-loop", ED, "      auto result = pmr::vector<std::tuple<pmr::vector<Symmetry>, Size>>();\n", "      auto pmr_guard = scope_resource<>();\n      auto result = pmr::vector<std::tuple<pmr::vector<Symmetry>, Size>>();\n", 1),
 ("guard-edges", ED, "         auto result = pmr::vector<Edge<Symmetry>>();\n", "         auto pmr_guard = scope_resource<1 << 10>();\n         auto result = pmr::vector<Edge<Symmetry>>();\n", 1),
 ("guard-inner", EO, "               auto offset_bank = pmr::map<Symmetry, Size>();\n", "               auto inner_guard = scope_resource<1 << 10>();\n               auto offset_bank = pmr::map<Symmetry, Size>();\n", 1),
 ("restore-null", PM, "         pmr::set_default_resource(upstream);\n", "         pmr::set_default_resource(&pmr::new_delete_resource_object);\n", 1),
 ("restore-own", PM, "         pmr::set_default_resource(upstream);\n", "         pmr::set_default_resource(resource.upstream_resource() ? &resource : upstream);\n", 1),
 ("setter-late", PM, "         auto result = default_resource;\n         default_resource = input;\n         return result;", "         default_resource = input;\n         auto result = default_resource;\n         return result;", 1),
 ("order", [(PM, "      pmr::monotonic_buffer_resource resource;\n      pmr::memory_resource* upstream;\n", "      pmr::memory_resource* upstream;\n      pmr::monotonic_buffer_resource resource;\n"), (PM, "scope_resource() : resource(buffer, sizeof(buffer)), upstream(pmr::set_default_resource(&resource)) {}", "scope_resource() : upstream(pmr::set_default_resource(&resource)), resource(buffer, sizeof(buffer)) {}")], 0, 0, 1),
 ("account", PM, "m_current_buffer_size -= aligner + bytes;", "m_current_buffer_size -= bytes;", 1),
 ("account2", PM, "m_current_buffer = result + bytes;", "m_current_buffer = result + bytes - aligner;", 1),
 ("field", "include/TAT/tensor.hpp", "      std::vector<Name> names;\n", "      pmr::vector<Name> names;\n", 1),
 ("guard-callback", ED, "      using Symmetry = typename T::symmetry_type;\n      auto symmetry_iterator_list = pmr", "      using Symmetry = typename T::symmetry_type;\n      auto pmr_guard = scope_resource<1 << 10>();\n      auto symmetry_iterator_list = pmr", 1),
 ("guard-lambda", ED, "               auto symmetry_summary = Symmetry();\n", "               auto pmr_guard = scope_resource<1 << 10>();\n               auto symmetry_summary = Symmetry();\n", 1),
 ("r-upstream", PM, "         pmr::set_default_resource(upstream);\n", "         pmr::set_default_resource(resource.upstream_resource());\n", 0),
 ("r-account", PM, "            std::byte* result = (std::byte*)m_current_buffer + aligner;\n            m_current_buffer = result + bytes;\n            m_current_buffer_size -= aligner + bytes;\n            return result;", "            m_current_buffer_size -= aligner;\n            std::byte* result = (std::byte*)m_current_buffer + aligner;\n            m_current_buffer_size -= bytes;\n            m_current_buffer = (std::byte*)m_current_buffer + (bytes + aligner);\n            return result;", 0),
 ("r-exchange", PM, "         auto result = default_resource;\n         default_resource = input;\n         return result;", "         memory_resource* const previous = get_default_resource();\n         default_resource = input;\n         return previous;", 0),
 ("r-guard-shadow", EO, "               auto offset_bank = pmr::map<Symmetry, Size>();\n", "               pmr::map<Symmetry, Size> offset_bank;\n", 0),
 ("r-guard-more", "include/TAT/trace.hpp", "      auto result_names = pmr::vector<Name>();\n", "      auto second_guard = scope_resource<1 << 10>();\n      auto result_names = pmr::vector<Name>();\n", 0),
 ("r-guard-flat", "include/TAT/transpose.hpp", "      auto leadings_source_by_destination = pmr::vector<Size>();\n", "      auto pmr_guard = scope_resource<1 << 10>();\n      auto leadings_source_by_destination = pmr::vector<Size>();\n", 0),
]
