EO="include/TAT/edge_operator.hpp"; TR="include/TAT/trace.hpp"; EX="include/TAT/exponential.hpp"; QR="include/TAT/qr.hpp"; CR="include/TAT/core.hpp"; NA="include/TAT/name.hpp"; MP="include/TAT/mpi.hpp"
M=[
 ("eo-rename-ternary", EO, """            auto name = names[i];
            if (auto position = rename_map.find(name); position != rename_map.end()) {
               real_name_before_split.push_back(position->second);
            } else {
               real_name_before_split.push_back(name);
            }
""", """            const auto& name = names[i];
            const auto position = rename_map.find(name);
            real_name_before_split.push_back(position == rename_map.end() ? name : Name(position->second));
""", 0),
 ("eo-same-helper", EO, """         // share the core
         auto result = Tensor<ScalarType, Symmetry, Name>();
         result.names = {new_names.begin(), new_names.end()};
         result.name_to_index = construct_name_to_index<decltype(name_to_index)>(result.names);
         result.core = core; // 因为是rename edge所以不拷贝
         check_valid_name(result.names, names.size());
         return result;
""", """         // share the core
         auto renamed = Tensor<ScalarType, Symmetry, Name>();
         renamed.core = core;
         renamed.names.assign(new_names.begin(), new_names.end());
         check_valid_name(renamed.names, names.size());
         renamed.name_to_index = construct_name_to_index<decltype(name_to_index)>(renamed.names);
         return renamed;
""", 0),
 ("eo-cut-min", EO, """                     if (auto new_dimension = cut_iterator->second; new_dimension != 0) {
                        // auto new_dimension = cut_iterator->second;
                        this_edge.map[symmetry] = new_dimension < dimension ? new_dimension : dimension;
                     }
""", """                     const Size new_dimension = std::min<Size>(cut_iterator->second, dimension);
                     if (cut_iterator->second == 0) {
                        continue;
                     }
                     this_edge.map.emplace(symmetry, new_dimension);
""", 0),
 ("eo-split-lambda", EO, """               real_name_after_split.push_back(name_before_split[position_before_split]);
               if constexpr (is_fermi) {
                  edge_after_split.push_back({edge_before_split[position_before_split].arrow, edge_before_split[position_before_split].map});
               } else {
                  edge_after_split.push_back({edge_before_split[position_before_split].map});
               }
""", """               const auto& this_edge = edge_before_split[position_before_split];
               if constexpr (is_fermi) {
                  edge_after_split.push_back({this_edge.arrow, this_edge.map});
               } else {
                  edge_after_split.push_back({this_edge.map});
               }
               real_name_after_split.push_back(name_before_split[position_before_split]);
""", 0),
 ("eo-find-negated", EO, """         if (auto found = name_to_index_after_split.find(name_before_merge[i]); found != name_to_index_after_split.end()) {
            plan_destination_to_source[i] = found->second;
         } else {
            TAT_error("Tensor to transpose with incompatible name list");
         }
         plan_source_to_destination[plan_destination_to_source[i]] = i;
         edge_after_transpose.push_back(edge_before_transpose[plan_destination_to_source[i]]);
""", """         const auto found = name_to_index_after_split.find(name_before_merge[i]);
         if (found == name_to_index_after_split.end()) {
            TAT_error("Tensor to transpose with incompatible name list");
         }
         const auto source = found->second;
         plan_destination_to_source[i] = source;
         plan_source_to_destination[source] = i;
         edge_after_transpose.push_back(edge_before_transpose[source]);
""", 0),
 ("eo-offset-helper", [(EO, """         Size total_source_offset = 0;
         for (auto i = 0; i < rank_before_split; i++) {
            // 这里将edge_before_split换为core->edges
            total_source_offset *= core->edges[i].map.at(source_symmetries[i]);
            total_source_offset += source_offsets[i];
         }
         Size total_destination_offset = 0;
         for (auto i = 0; i < rank_after_merge; i++) {
            total_destination_offset *= edge_after_merge[i].map.at(destination_symmetries[i]);
            total_destination_offset += destination_offsets[i];
         }
""", """         const auto get_offset = [](const auto& edges, const auto& symmetries, const auto& offsets, Rank rank) -> Size {
            Size offset = 0;
            for (Rank i = 0; i < rank; i++) {
               offset = offset * edges[i].map.at(symmetries[i]) + offsets[i];
            }
            return offset;
         };
         const Size total_source_offset = get_offset(core->edges, source_symmetries, source_offsets, rank_before_split);
         const Size total_destination_offset = get_offset(edge_after_merge, destination_symmetries, destination_offsets, rank_after_merge);
""")], 0, 0, 0),
 ("eo-leading-running", EO, """         for (auto i = rank_after_merge; i-- > 0;) {
            if (i == rank_after_merge - 1) {
               leadings_of_destination[i] = 1;
            } else {
               leadings_of_destination[i] = leadings_of_destination[i + 1] * edge_after_merge[i + 1].map.at(destination_symmetries[i + 1]);
            }
         }
""", """         Size destination_leading = 1;
         for (auto i = rank_after_merge; i-- > 0;) {
            leadings_of_destination[i] = destination_leading;
            destination_leading *= edge_after_merge[i].map.at(destination_symmetries[i]);
         }
""", 0),
 ("eo-result-name", EO, """      result.core = std::make_shared<Core<ScalarType, Symmetry>>(result_edge);
      check_valid_name(result.names, result.core->edges.size());
""", """      check_valid_name(result.names, result_edge.size());
      result.core = std::make_shared<Core<ScalarType, Symmetry>>(std::move(result_edge));
""", 0),
 ("tr-line", TR, """         auto source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
         auto dimension_plus_one = dimension + 1;
         for (Size i = 0; i < dimension; i++) {
            const ScalarType* __restrict source_data = source_block.data() + dimension_plus_one * i * line_size;
            ScalarType* __restrict destination_data = destination_block.data();
            for (Size j = 0; j < line_size; j++) {
               destination_data[j] += source_data[j];
            }
         }
""", """         const auto& source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
         const auto stride = (dimension + 1) * line_size;
         const ScalarType* source_data = source_block.data();
         for (Size i = 0; i < dimension; i++) {
            for (Size j = 0; j < line_size; j++) {
               destination_block[j] += source_data[i * stride + j];
            }
         }
""", 0),
 ("tr-names", TR, """               traced_names.insert(name_to_find);
               traced_names.insert(*name_correspond);
               auto index_correspond = name_to_index.at(*name_correspond);
               valid_index[index_correspond] = false;
""", """               valid_index[name_to_index.at(*name_correspond)] = false;
               traced_names.insert({name_to_find, *name_correspond});
""", 0),
 ("tr-free", TR, """         if (auto found = traced_names.find(name); found == traced_names.end()) {
            const auto& this_edge = core->edges[i];
            result_names.push_back(name);
            split_plan.push_back({name, {this_edge.map}});
            if constexpr (is_fermi) {
               if (this_edge.arrow) {
                  reverse_names.insert(name);
               }
            }
         }
""", """         if (traced_names.count(name) != 0) {
            continue;
         }
         const auto& this_edge = core->edges[i];
         split_plan.push_back({name, {this_edge.map}});
         result_names.push_back(name);
         if constexpr (is_fermi) {
            if (this_edge.arrow) {
               reverse_names.insert(name);
            }
         }
""", 0),
 ("ex-pairs", EX, """               if (a == name_to_found) {
                  auto ia = name_to_index.at(a);
                  auto ib = name_to_index.at(b);
                  if (ib >= i || !valid_index[ib]) {
                     TAT_error("Duplicated name in exponential");
                  }
                  valid_index[ib] = false;
                  current_index--;
                  merge_1[current_index] = a;
                  merge_2[current_index] = b;
                  split_1[current_index] = {a, core->edges[ia].map};
                  split_2[current_index] = {b, core->edges[ib].map};
                  break;
               }
               if (b == name_to_found) {
                  auto ia = name_to_index.at(a);
                  auto ib = name_to_index.at(b);
                  if (ia >= i || !valid_index[ia]) {
                     TAT_error("Duplicated name in exponential");
                  }
                  valid_index[ia] = false;
                  current_index--;
                  merge_1[current_index] = a;
                  merge_2[current_index] = b;
                  split_1[current_index] = {a, core->edges[ia].map};
                  split_2[current_index] = {b, core->edges[ib].map};
                  break;
               }
""", """               if (a != name_to_found && b != name_to_found) {
                  continue;
               }
               const auto index_a = name_to_index.at(a);
               const auto index_b = name_to_index.at(b);
               const auto partner = a == name_to_found ? index_b : index_a;
               if (partner >= i || !valid_index[partner]) {
                  TAT_error("Duplicated name in exponential");
               }
               valid_index[partner] = false;
               --current_index;
               merge_1[current_index] = a;
               merge_2[current_index] = b;
               split_1[current_index] = {a, core->edges[index_a].map};
               split_2[current_index] = {b, core->edges[index_b].map};
               break;
""", 0),
 ("ex-size", EX, """         auto n = tensor_merged.core->edges[0].map.at(symmetries[0]);
         if (data_source.size() != n * n) {
            TAT_error("Different Dimension in exponential");
         }
         if (n == 0) {
            continue;
         }
         matrix_exponential(n, data_source.data(), data_destination.data(), step);
""", """         const auto rows = tensor_merged.core->edges[0].map.at(symmetries[0]);
         const auto columns = tensor_merged.core->edges[1].map.at(symmetries[1]);
         if (rows != columns) {
            TAT_error("Different Dimension in exponential");
         }
         if (rows != 0) {
            matrix_exponential(rows, data_source.data(), data_destination.data(), step);
         }
""", 0),
 ("ex-swap", EX, """         auto& X_old = k % 2 == 1 ? X1 : X2;
         auto& X_new = k % 2 == 0 ? X1 : X2;
         // new = A @ old
         // new.T = old.T @ A.T
         gemm<ScalarType>("N", "N", &int_n, &int_n, &int_n, &alpha, X_old.data(), &int_n, A, &int_n, &beta, X_new.data(), &int_n);
         ScalarType d = k % 2 == 0 ? c : -c;
         for (Size i = 0; i < n * n; i++) {
            auto x = X_new[i];
            N[i] += c * x;
            D[i] += d * x;
         }
""", """         gemm<ScalarType>("N", "N", &int_n, &int_n, &int_n, &alpha, X1.data(), &int_n, A, &int_n, &beta, X2.data(), &int_n);
         const ScalarType d = k % 2 == 0 ? c : -c;
         for (Size i = 0; i < n * n; i++) {
            N[i] += c * X2[i];
            D[i] += d * X2[i];
         }
         std::swap(X1, X2);
""", 0),
 ("qr-select", QR, """         if ((free_name_set.find(n) != free_name_set.end()) == use_r_name == use_qr_not_lq) {
            free_name_2.push_back(n);
            result_name_2.push_back(n);
            free_names_and_edges_2.push_back({n, {core->edges[i].map}});
            if constexpr (is_fermi) {
               if (core->edges[i].arrow) {
                  reversed_set_2.insert(n);
                  reversed_set_origin.insert(n);
               }
            }
         } else {
            free_name_1.push_back(n);
            result_name_1.push_back(n);
            free_names_and_edges_1.push_back({n, {core->edges[i].map}});
            if constexpr (is_fermi) {
               if (core->edges[i].arrow) {
                  reversed_set_1.insert(n);
                  reversed_set_origin.insert(n);
               }
            }
         }
""", """         const bool in_set = free_name_set.find(n) != free_name_set.end();
         const bool second = (in_set == use_r_name) == use_qr_not_lq;
         (second ? free_name_2 : free_name_1).push_back(n);
         (second ? result_name_2 : result_name_1).push_back(n);
         (second ? free_names_and_edges_2 : free_names_and_edges_1).push_back({n, {core->edges[i].map}});
         if constexpr (is_fermi) {
            if (core->edges[i].arrow) {
               (second ? reversed_set_2 : reversed_set_1).insert(n);
               reversed_set_origin.insert(n);
            }
         }
""", 0),
 ("qr-min", QR, """         auto k = m > n ? n : m;
         common_edge_1.map[sym[1]] = k;
         common_edge_2.map[sym[0]] = k;
""", """         const auto k = std::min(m, n);
         common_edge_1.map.emplace(sym[1], k);
         common_edge_2.map.emplace(sym[0], k);
""", 0),
 ("qr-loop", QR, """         const int m = tensor_1.core->edges[0].map.at(symmetries[0]);
         const int n = tensor_2.core->edges[1].map.at(symmetries[1]);
         const int k = m > n ? n : m;
         const int max = m > n ? m : n;
         if (m != 0 && n != 0) {
            calculate_qr<ScalarType>(m, n, k, max, data, data_1, data_2, use_qr_not_lq);
         }
""", """         const int m = tensor_1.core->edges[0].map.at(symmetries[0]);
         const int n = tensor_2.core->edges[1].map.at(symmetries[1]);
         if (m == 0 || n == 0) {
            continue;
         }
         calculate_qr<ScalarType>(m, n, std::min(m, n), std::max(m, n), data, data_1, data_2, use_qr_not_lq);
""", 0),
 ("core-erase", CR, """         for (const auto& edge : edges) {
            auto& this_mark = edge_mark.emplace_back();
            for (const auto& [symmetry, _] : edge.map) {
               this_mark[symmetry] = true;
            }
         }
         for (const auto& [symmetries, _] : blocks) {
            for (Rank i = 0; i < rank; i++) {
               edge_mark[i].at(symmetries[i]) = false;
            }
         }
""", """         for (Rank i = 0; i < rank; i++) {
            edge_mark.emplace_back();
            for (const auto& item : edges[i].map) {
               edge_mark.back()[item.first] = true;
            }
         }
         for (const auto& item : blocks) {
            Rank position = 0;
            for (const auto& symmetry : item.first) {
               edge_mark[position++][symmetry] = false;
            }
         }
""", 0),
 ("name-insert", NA, """         if (const auto position = fast_name_dataset.name_to_id.find(name); position == fast_name_dataset.name_to_id.end()) {
            id = fast_name_dataset.name_to_id[name] = fast_name_dataset.names_total_index++;
            fast_name_dataset.id_to_name.push_back(name);
         } else {
            id = position->second;
         }
""", """         auto& dataset = fast_name_dataset;
         const auto [position, inserted] = dataset.name_to_id.emplace(name, dataset.names_total_index);
         if (inserted) {
            dataset.id_to_name.push_back(name);
            ++dataset.names_total_index;
         }
         id = position->second;
""", 0),
 ("name-index", NA, """      for (Rank name_index = 0; name_index < names.size(); name_index++) {
         result[names[name_index]] = name_index;
      }
      return result;
""", """      Rank name_index = 0;
      for (const auto& name : names) {
         result[name] = name_index++;
      }
      return result;
""", 0),
 ("mpi-helper", [(MP, """      template<typename Type>
      Type broadcast(const Type& value, const int root) const {
""", """      int real_rank_of(const int fake_rank, const int root) const {
         return (fake_rank + root) % size;
      }

      template<typename Type>
      Type broadcast(const Type& value, const int root) const {
"""), (MP, """         const auto left_son_fake_rank = this_fake_rank * 2 + 1;
         const auto right_son_fake_rank = this_fake_rank * 2 + 2;
         if (left_son_fake_rank < size) {
            const auto left_son_real_rank = (left_son_fake_rank + root) % size;
            send(result, left_son_real_rank);
         }
         if (right_son_fake_rank < size) {
            const auto right_son_real_rank = (right_son_fake_rank + root) % size;
            send(result, right_son_real_rank);
         }
""", """         for (auto son_fake_rank = this_fake_rank * 2 + 1; son_fake_rank <= this_fake_rank * 2 + 2; son_fake_rank++) {
            if (son_fake_rank < size) {
               send(result, real_rank_of(son_fake_rank, root));
            }
         }
"""), (MP, """            const auto father_real_rank = (father_fake_rank + root) % size;
            if (left_son_fake_rank < size) {
               send(result, father_real_rank);
            } else {
               send(value, father_real_rank);
            }
""", """            const auto father_real_rank = real_rank_of(father_fake_rank, root);
            send(left_son_fake_rank < size ? result : value, father_real_rank);
""")], 0, 0, 0),
]
