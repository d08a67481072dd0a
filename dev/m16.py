CHECK = "c16_labels.py"
T = "include/TAT/tensor.hpp"
N = "include/TAT/name.hpp"
EO = "include/TAT/edge_operator.hpp"
EM = "include/TAT/edge_miscellaneous.hpp"
IO = "include/TAT/io.hpp"
CO = "include/TAT/contract.hpp"
SE = "include/TAT/shrink_and_expand.hpp"
M = [
 ("ctor-nocheck", T, "         check_valid_name(names, core->edges.size());\n", "", 1),
 ("ctor-selfrank", T, "         check_valid_name(names, core->edges.size());\n", "         check_valid_name(names, names.size());\n", 1),
 ("ctor-initrank", T, "         check_valid_name(names, core->edges.size());\n", "         check_valid_name(names_init, edges_init.size());\n", 0),
 ("copy-noindex", T, "         result.name_to_index = name_to_index;\n         result.core = std::make_shared<Core<ScalarType, Symmetry>>(*core);", "         result.core = std::make_shared<Core<ScalarType, Symmetry>>(*core);", 1),
 ("copy-reorder", T, "         result.names = names;\n         result.name_to_index = name_to_index;\n         result.core = std::make_shared<Core<ScalarType, Symmetry>>(*core);", "         result.core = std::make_shared<Core<ScalarType, Symmetry>>(*core);\n         result.name_to_index = name_to_index;\n         result.names = names;", 0),
 ("copy-assign", T, "         Tensor<ScalarType, Symmetry, Name> result;\n         result.names = names;\n         result.name_to_index = name_to_index;\n         result.core = std::make_shared<Core<ScalarType, Symmetry>>(*core);\n         return result;", "         auto result = *this;\n         result.core = std::make_shared<Core<ScalarType, Symmetry>>(*core);\n         return result;", 0),
 ("rename-stale", EM, "      result.name_to_index = construct_name_to_index<decltype(result.name_to_index)>(result.names);\n      check_valid_name", "      if constexpr (std::is_same_v<ResultName, Name>) { result.name_to_index = name_to_index; } else { result.name_to_index = construct_name_to_index<decltype(result.name_to_index)>(result.names); }\n      check_valid_name", 1),
 ("rename-cond", EM, "      check_valid_name(result.names, names.size());\n", "      if (dictionary.size() > 1) {\n         check_valid_name(result.names, names.size());\n      }\n", 1),
 ("rename-order", EM, "      result.core = core;\n      result.names.reserve(names.size());\n", "      result.names.reserve(names.size());\n", 1),
 ("eo-index-early", EO, "      result.names = {new_names.begin(), new_names.end()};\n      result.name_to_index = construct_name_to_index<decltype(name_to_index)>(result.names);\n\n", "      result.name_to_index = construct_name_to_index<decltype(name_to_index)>(name_before_split);\n      result.names = {new_names.begin(), new_names.end()};\n\n", 1),
 ("eo-index-new", EO, "      result.names = {new_names.begin(), new_names.end()};\n      result.name_to_index = construct_name_to_index<decltype(name_to_index)>(result.names);\n\n", "      result.name_to_index = construct_name_to_index<decltype(name_to_index)>(new_names);\n      result.names = {new_names.begin(), new_names.end()};\n\n", 0),
 ("eo-share-nocheck", EO, "         check_valid_name(result.names, names.size());\n", "", 1),
 ("eo-share-copyindex", EO, "         result.name_to_index = construct_name_to_index<decltype(name_to_index)>(result.names);\n         result.core", "         result.name_to_index = name_to_index;\n         result.core", 1),
 ("eo-nocheck", EO, "      check_valid_name(result.names, result.core->edges.size());\n", "", 1),
 ("eo-condcheck", EO, "      check_valid_name(result.names, result.core->edges.size());\n", "      if (!merge_map.empty()) check_valid_name(result.names, result.core->edges.size());\n", 1),
 ("eo-edgevar", EO, "      check_valid_name(result.names, result.core->edges.size());\n", "      const Rank result_rank = result.core->edges.size();\n      check_valid_name(result.names, result_rank);\n", 0),
 ("meta-index-old", IO, "      in > names;\n      name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);\n", "      name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);\n      in > names;\n", 1),
 ("meta-late", IO, "      name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);\n      core = std::make_shared<Core<ScalarType, Symmetry>>();\n      in > core->edges;\n      check_valid_name(names, core->edges.size());\n", "      core = std::make_shared<Core<ScalarType, Symmetry>>();\n      in > core->edges;\n      check_valid_name(names, core->edges.size());\n      name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);\n", 0),
 ("meta-early", IO, "      in > core->edges;\n      check_valid_name(names, core->edges.size());\n", "      check_valid_name(names, names.size());\n      in > core->edges;\n", 1),
 ("text-noindex", IO, "      tensor.name_to_index = construct_name_to_index<std::map<Name, Rank>>(tensor.names);\n", "", 1),
 ("ctx-empty", IO, "      in > names;\n      name_to_index = construct", "      in > names;\n      if (name_to_index.empty()) name_to_index = construct", 1),
 ("pairs-adjacent", N, "for (Rank j = i + 1; j < rank; j++) {", "for (Rank j = i + 2; j < rank; j++) {", 1),
 ("pairs-lastmissing", N, "for (Rank j = i + 1; j < rank; j++) {", "for (Rank j = i + 1; j < rank - 1; j++) {", 1),
 ("pairs-lower", N, "for (Rank j = i + 1; j < rank; j++) {", "for (Rank j = 0; j < i; j++) {", 0),
 ("pairs-len", N, "if (names.size() != rank) {", "if (names.size() < rank) {", 1),
 ("index-off", N, "result[names[name_index]] = name_index;", "result[names[name_index]] = names.size() - 1 - name_index;", 1),
 ("index-short", N, "name_index < names.size(); name_index++", "name_index + 1 < names.size(); name_index++", 1),
 ("index-emplace", N, "result[names[name_index]] = name_index;", "result.emplace(names[name_index], name_index);", 0),
 ("contract-edge", CO, "split_map_result.at(InternalName<Name>::Contract_2).push_back({n, {tensor_2.core->edges[i].map}});", "split_map_result.at(InternalName<Name>::Contract_2).push_back({n, {tensor_2.core->edges[rank_2 - 1 - i].map}});", 1),
 ("contract-noname", CO, "               edge_result.push_back(tensor_2.core->edges[i]);\n               name_result.push_back(n);\n", "               edge_result.push_back(tensor_2.core->edges[i]);\n               if (fuse_names.empty() || i) name_result.push_back(n);\n", 1),
 ("fuse-other", CO, "         edge_result.push_back(edge_1);\n", "         edge_result.push_back(edge_2);\n", 0),
 ("lookup", CO, "const auto& edge_2 = tensor_2.core->edges[tensor_2.name_to_index.at(name)];", "const auto& edge_2 = tensor_2.core->edges[tensor_1.name_to_index.at(name)];", 1),
 ("swap-push", CO, "               free_name_2.push_back(n);\n               edge_result.push_back(tensor_2.core->edges[i]);\n               name_result.push_back(n);\n", "               name_result.push_back(n);\n               free_name_2.push_back(n);\n               edge_result.push_back(tensor_2.core->edges[i]);\n", 0),
 ("to-swap", T, "            result.names = names;\n            result.name_to_index = name_to_index;\n            result.core = core;\n", "            result.core = core;\n            result.names = names;\n", 1),
 ("helper", IO, "      name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);\n      core = std::make_shared<Core<ScalarType, Symmetry>>();\n      in > core->edges;\n      check_valid_name(names, core->edges.size());\n      return *this;\n   }\n", "      auto rebuild = [this]() {\n         name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);\n      };\n      core = std::make_shared<Core<ScalarType, Symmetry>>();\n      in > core->edges;\n      rebuild();\n      check_valid_name(names, core->edges.size());\n      return *this;\n   }\n", 0),
]
