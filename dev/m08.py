CHECK = "c08_reject.py"
G = "include/TAT/get_item.hpp"
S = "include/TAT/shrink_and_expand.hpp"
C = "include/TAT/contract.hpp"
TR = "include/TAT/trace.hpp"
TM = "include/TAT/tensor_miscellaneous.hpp"
SC = "include/TAT/scalar.hpp"
EX = "include/TAT/exponential.hpp"
EM = "include/TAT/edge_miscellaneous.hpp"
EO = "include/TAT/edge_operator.hpp"
M = [
 ("get-offbyone", G, "         dimensions.push_back(core.edges[i].map.begin()->second);\n         if (scalar_position.back() >= dimensions.back()) {", "         dimensions.push_back(core.edges[i].map.begin()->second);\n         if (scalar_position.back() > dimensions.back()) {", 1),
 ("get-sym-offbyone", G, "         dimensions.push_back(core.edges[i].map.at(symmetry));\n         if (scalar_position.back() >= dimensions.back()) {", "         dimensions.push_back(core.edges[i].map.at(symmetry));\n         if (scalar_position.back() > dimensions.back()) {", 1),
 ("get-onlyfirst", G, "         dimensions.push_back(core.edges[i].map.at(symmetry));\n         if (scalar_position.back() >= dimensions.back()) {", "         dimensions.push_back(core.edges[i].map.at(symmetry));\n         if (i == 0 && scalar_position.back() >= dimensions.back()) {", 1),
 ("get-nocheck", G, "         if (scalar_position.back() >= dimensions.back()) {\n            TAT_error(\"Index out of range when finding block and offset\");\n         }\n", "", 1),
 ("get-total", G, "         if (scalar_position.back() >= dimensions.back()) {\n            TAT_error(\"Index out of range when finding block and offset\");\n         }\n      }\n", "      }\n", 1),
 ("get-find", G, "         if (found == position.end()) {\n            TAT_error(\"Name not found in position map when finding block and offset\");\n         }\n", "         if (found == position.end() && rank != 1) {\n            TAT_error(\"Name not found in position map when finding block and offset\");\n         }\n", 1),
 ("get-at-find", G, "dimensions.push_back(core.edges[i].map.at(symmetry));", "dimensions.push_back(core.edges[i].map.find(symmetry)->second);", 1),
 ("get-block-find", G, "      auto symmetry = get_block_for_get_item<typename decltype(core->blocks)::key_type>(position, names);\n      return core->blocks.at(symmetry);", "      auto symmetry = get_block_for_get_item<typename decltype(core->blocks)::key_type>(position, names);\n      return core->blocks.find(symmetry)->second;", 1),
 ("get-before", G, "         symmetries.push_back(symmetry);\n         scalar_position.push_back(index);\n         dimensions.push_back(core.edges[i].map.at(symmetry));\n         if (scalar_position.back() >= dimensions.back()) {\n            TAT_error(\"Index out of range when finding block and offset\");\n         }\n", "         const Size dimension = core.edges[i].map.at(symmetry);\n         if (!(index < dimension)) {\n            TAT_error(\"Index out of range when finding block and offset\");\n         }\n         symmetries.push_back(symmetry);\n         scalar_position.push_back(index);\n         dimensions.push_back(dimension);\n", 0),
 ("get-oneloop", G, "      Size offset = 0;\n      for (Rank j = 0; j < rank; j++) {\n         offset *= dimensions[j];\n         offset += scalar_position[j];\n      }\n      return offset;", "      Size offset = 0;\n      for (Rank j = 0; j < rank; j++) {\n         offset = offset * dimensions[j] + scalar_position[j];\n      }\n      return offset;", 0),
 ("expand-order", S, "            const auto& [index, dimension] = information;\n            if (index >= dimension) {\n               TAT_error(\"Index out of range in Expand\");\n            }\n            total_offset *= dimension;", "            const auto& [index, dimension] = information;\n            if (index > dimension) {\n               TAT_error(\"Index out of range in Expand\");\n            }\n            total_offset *= dimension;", 1),
 ("shrink-nocheck", S, "            if (index >= dimension) {\n               TAT_error(\"Index out of range in Shrink\");\n            }\n", "            if (dimension == 0) {\n               TAT_error(\"Index out of range in Shrink\");\n            }\n", 1),
 ("shrink-flip", S, "            if (index >= dimension) {\n               TAT_error(\"Index out of range in Shrink\");\n            }\n", "            const bool valid = dimension > index;\n            if (!valid) {\n               TAT_error(\"Index out of range in Shrink\");\n            }\n", 0),
 ("contract-oneside", C, "                     if (const auto dimension_other = found->second; dimension_other != dimension) {", "                     if (const auto dimension_other = found->second; dimension_other < dimension) {", 0),
 ("contract-rank", C, "                     if (const auto dimension_other = found->second; dimension_other != dimension) {", "                     if (const auto dimension_other = found->second; edge_this.map.size() > 1 && dimension_other != dimension) {", 1),
 ("contract-none", C, "                     if (const auto dimension_other = found->second; dimension_other != dimension) {\n                        TAT_error(\"Different Dimension to Contract\");\n                     }\n", "", 1),
 ("contract-warn", C, "                     if (const auto dimension_other = found->second; dimension_other != dimension) {\n                        TAT_error(\"Different Dimension to Contract\");\n", "                     if (const auto dimension_other = found->second; dimension_other != dimension) {\n                        TAT_warning_or_error_when_name_missing(\"Different Dimension to Contract\");\n", 1),
 ("fuse-none", C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Cannot fuse two edge with different shape\");\n         }\n", "", 1),
 ("fuse-self", C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Cannot fuse two edge with different shape\");\n", "         if (!(edge_1 == edge_1)) {\n            TAT_error(\"Cannot fuse two edge with different shape\");\n", 1),
 ("fuse-common-none", C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Different Dimension to Contract\");\n         }\n", "", 1),
 ("fuse-ne", C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Different Dimension to Contract\");\n", "         if (const bool same = edge_1 == edge_2; !same) {\n            TAT_error(\"Different Dimension to Contract\");\n", 0),
 ("fuse-first", C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Different Dimension to Contract\");\n", "         if (i >= 1 && !(edge_1 == edge_2)) {\n            TAT_error(\"Different Dimension to Contract\");\n", 0),
 ("fuse-second", C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Different Dimension to Contract\");\n", "         if (i < 2 && !(edge_1 == edge_2)) {\n            TAT_error(\"Different Dimension to Contract\");\n", 1),
 ("trace-none", TR, "         if (merged_tensor.core->edges[1].map.at(symmetry_2) != dimension) {\n            TAT_error(\"Different Dimension to Trace\");\n         }\n", "", 1),
 ("trace-less", TR, "         if (merged_tensor.core->edges[1].map.at(symmetry_2) != dimension) {", "         if (merged_tensor.core->edges[1].map.at(symmetry_2) < dimension) {", 1),
 ("trace-null", TR, "            if (name_correspond) {\n               // found", "            if (name_correspond || trace_rank > free_rank) {\n               // found", 1),
 ("mult-none", TM, "         if (dimension != k) {\n", "         if (dimension < k) {\n", 1),
 ("mult-find", TM, "      if (found == name_to_index.end()) {\n         TAT_warning_or_error_when_name_missing(\"Name not found in multiple\");\n         return *this;\n      }\n", "      if (found == name_to_index.end()) {\n         TAT_warning_or_error_when_name_missing(\"Name not found in multiple\");\n      }\n", 1),
 ("ident-null", TM, "            if (name_correspond == nullptr) {\n               TAT_error(\"Name missing in identity\");\n            }\n", "", 1),
 ("scalar-outplace", SC, "               } else if (found->second != dimension) { ", "               } else if (found->second > dimension) { ", 1),
 ("scalar-inplace", SC, "      if (tensor_1.core->edges != real_tensor_2->core->edges) {                                                                                  \\\n         TAT_error(", "      if (tensor_1.core->edges.size() != real_tensor_2->core->edges.size()) {                                                                                  \\\n         TAT_error(", 1),
 ("exp-none", EX, "         if (data_source.size() != n * n) {", "         if (data_source.size() < n * n) {", 1),
 ("exp-swap", EX, "         if (data_source.size() != n * n) {", "         if (n * n != data_source.size()) {", 0),
 ("eo-split-find", EO, "                        if (auto found = offset_bank.find(target_symmetry); found != offset_bank.end()) {\n                           this_offset", "                        if (auto found = offset_bank.find(target_symmetry); found != offset_bank.end() || offset_bank.size() == 1) {\n                           this_offset", 1),
 ("eo-rank", EO, "      if (rank_at_transpose != name_before_merge.size()) {", "      if (rank_at_transpose < name_before_merge.size()) {", 1),
 ("eo-rank-debug", EO, "      if (rank_at_transpose != name_before_merge.size()) {\n         TAT_error(\"Tensor to transpose with Different Rank\");\n      }\n", "", 1),
 ("eo-name", EO, "         } else {\n            TAT_error(\"Tensor to transpose with incompatible name list\");\n         }\n", "         }\n", 1),
 ("helper-index", [(G, "   template<typename MapNameSymmetryAndSize, typename VectorName, typename Core>\n   [[nodiscard]] auto get_block_and_offset_for_get_item", "   inline void check_index_of_item(const Size index, const Size dimension) {\n      if (index >= dimension) {\n         TAT_error(\"Index out of range when finding block and offset\");\n      }\n   }\n\n   template<typename MapNameSymmetryAndSize, typename VectorName, typename Core>\n   [[nodiscard]] auto get_block_and_offset_for_get_item"), (G, "         if (scalar_position.back() >= dimensions.back()) {\n            TAT_error(\"Index out of range when finding block and offset\");\n         }\n", "         check_index_of_item(scalar_position.back(), dimensions.back());\n")], "", "", 0),
 ("helper-dim", [(C, "   template<typename ScalarType, typename Name, typename SetNameAndName>\n   Tensor<ScalarType, NoSymmetry, Name> contract_with_fuse(\n         const Tensor<ScalarType, NoSymmetry, Name>& tensor_1,\n         const Tensor<ScalarType, NoSymmetry, Name>& tensor_2,\n         SetNameAndName contract_names) {", "   template<typename E>\n   void check_same_edge(const E& a, const E& b, const char* message) {\n      if (!(a == b)) {\n         TAT_error(message);\n      }\n   }\n   template<typename ScalarType, typename Name, typename SetNameAndName>\n   Tensor<ScalarType, NoSymmetry, Name> contract_with_fuse(\n         const Tensor<ScalarType, NoSymmetry, Name>& tensor_1,\n         const Tensor<ScalarType, NoSymmetry, Name>& tensor_2,\n         SetNameAndName contract_names) {"), (C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Different Dimension to Contract\");\n         }\n", "         check_same_edge(edge_1, edge_2, \"Different\");\n"), (C, "         if (!(edge_1 == edge_2)) {\n            TAT_error(\"Cannot fuse two edge with different shape\");\n         }\n", "         check_same_edge(edge_1, edge_2, \"Different\");\n")], "", "", 0),
 ("contract-oneside-only", [(C, "                     if (const auto dimension_other = found->second; dimension_other != dimension) {", "                     if (const auto dimension_other = found->second; dimension_other < dimension) {"), (C, "            delete_unused_dimension(edge_2, edge_1, name_2, delete_2);", "            delete_unused_dimension(edge_1, edge_2, name_2, delete_2);")], "", "", 1),
]
