IO="include/TAT/io.hpp"; SV="include/TAT/svd.hpp"; GI="include/TAT/get_item.hpp"; SE="include/TAT/shrink_and_expand.hpp"; CO="include/TAT/contract.hpp"; SC="include/TAT/scalar.hpp"; TE="include/TAT/tensor.hpp"
M=[
 ("io-vec-read", IO, """         for (Size i = 0; i < count; i++) {
            auto& item = list.emplace_back();
            if constexpr (is_name_v<T>) {
               NameTraits<T>::read(in, item);
            } else {
               in > item;
            }
         }
""", """         list.resize(count);
         for (auto& item : list) {
            if constexpr (is_name_v<T>) {
               NameTraits<T>::read(in, item);
            } else {
               in > item;
            }
         }
""", 0),
 ("io-vec-write", IO, """      Size count = list.size();
      out < count;
      if constexpr (std::is_trivially_destructible_v<T>) {
         out.write(reinterpret_cast<const char*>(list.data()), sizeof(T) * count);
      } else {
         for (const auto& i : list) {
            if constexpr (is_name_v<T>) {
               NameTraits<T>::write(out, i);
            } else {
               out < i;
            }
         }
      }
      return out;""", """      const Size count = list.size();
      out < count;
      if constexpr (std::is_trivially_destructible_v<T>) {
         const auto bytes = count * sizeof(T);
         const auto* data = reinterpret_cast<const char*>(list.data());
         out.write(data, bytes);
      } else {
         for (Size i = 0; i < count; ++i) {
            const T& item = list[i];
            if constexpr (is_name_v<T>) {
               NameTraits<T>::write(out, item);
            } else {
               out < item;
            }
         }
      }
      return out;""", 0),
 ("io-map-read", IO, """      for (Size i = 0; i < size; i++) {
         Key key;
         in > key;
         in > map[std::move(key)];
      }
      return in;""", """      while (size-- > 0) {
         Key key;
         in > key;
         auto& value = map[std::move(key)];
         in > value;
      }
      return in;""", 0),
 ("io-map-write", IO, """      Size size = map.size();
      out < size;
      for (const auto& [key, value] : map) {
         out < key < value;
      }
      return out;""", """      out < Size(map.size());
      for (auto iterator = map.begin(); iterator != map.end(); ++iterator) {
         out < iterator->first;
         out < iterator->second;
      }
      return out;""", 0),
 ("io-string", IO, """      Size count;
      in > count;
      string.resize(count);
      in.read(string.data(), sizeof(char) * count);
      return in;""", """      Size count = 0;
      in > count;
      string.assign(count, '\\0');
      in.read(&string[0], count);
      return in;""", 0),
 ("io-helper-count", [(IO, """   inline std::ostream& operator<(std::ostream& out, const std::string& string) {
      Size count = string.size();
      out < count;
""", """   inline Size write_count(std::ostream& out, Size count) {
      out < count;
      return count;
   }
   inline std::ostream& operator<(std::ostream& out, const std::string& string) {
      const Size count = write_count(out, string.size());
""")], None, None, 0),
 ("svd-early", SV, """      if (m > n) {
         auto new_a = vector<ScalarType>(Size(n) * m);
         auto old_u = vector<ScalarType>(Size(n) * min);
         auto old_vt = vector<ScalarType>(Size(min) * m);
""", """      if (!(m > n)) {
         calculate_svd_kernel(m, n, min, max, a, u, s, vt);
      } else {
         const Size size_m = m;
         const Size size_n = n;
         const Size size_min = min;
         auto new_a = vector<ScalarType>(size_m * size_n);
         auto old_u = vector<ScalarType>(size_n * size_min);
         auto old_vt = vector<ScalarType>(size_m * size_min);
""", 0),
 ("svd-early2", SV, """         matrix_transpose(min, m, old_vt.data(), u); // min*m -> m*min
      } else {
         calculate_svd_kernel(m, n, min, max, a, u, s, vt);
      }
""", """         matrix_transpose(min, m, old_vt.data(), u); // min*m -> m*min
      }
""", 0),
 ("svd-status", [(SV, """   template<>
   inline void
   calculate_svd_kernel<float>(""", """   inline void check_gesvd_status(int status) {
      if (status == 0) {
         return;
      }
      TAT_warning_or_error_when_lapack_error("Error in GESVD");
   }
   template<>
   inline void
   calculate_svd_kernel<float>("""), (SV, """      sgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work.data(), &lwork, &result);
      if (result != 0) {
         TAT_warning_or_error_when_lapack_error("Error in GESVD");
      }
""", """      sgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work.data(), &lwork, &result);
      check_gesvd_status(result);
"""), (SV, """      dgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, &float_lwork, &lwork_query, &result);
      if (result != 0) {
         TAT_warning_or_error_when_lapack_error("Error in GESVD");
      }
      const int lwork = int(float_lwork);
      auto work = vector<double>(lwork);
      dgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work.data(), &lwork, &result);
      if (result != 0) {
         TAT_warning_or_error_when_lapack_error("Error in GESVD");
      }
""", """      auto call = [&](double* work, const int& lwork) {
         dgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work, &lwork, &result);
         check_gesvd_status(result);
      };
      call(&float_lwork, lwork_query);
      const int lwork = int(float_lwork);
      auto work = vector<double>(lwork);
      call(work.data(), lwork);
""")], None, None, 0),
 ("svd-sing", SV, """         std::fill(data_destination.begin(), data_destination.end(), 0);
         for (Size i = 0; i < data_source.size(); i++) {
            data_destination[i * dimension_plus_one] = data_source[i];
         }
""", """         for (auto& element : data_destination) {
            element = 0;
         }
         Size offset = 0;
         for (const auto& value : data_source) {
            data_destination[offset] = value;
            offset += dimension_plus_one;
         }
""", 0),
 ("gi-block", GI, """      for (const auto& name : names) {
         if (auto found = position.find(name); found != position.end()) {
            symmetries.push_back(found->second);
         } else {
            TAT_error("Name not found in position map when finding block");
         }
      }
""", """      for (Rank i = 0; i < names.size(); i++) {
         const auto found = position.find(names[i]);
         const bool missing = found == position.end();
         if (missing) {
            TAT_error("Name not found in position map when finding block");
         }
         symmetries.push_back(found->second);
      }
""", 0),
 ("gi-offset", GI, """      for (auto i = 0; i < rank; i++) {
         if (auto found = position.find(names[i]); found != position.end()) {
            scalar_position.push_back(found->second);
         } else {
            TAT_error("Name not found in position map when finding offset");
         }
         dimensions.push_back(core.edges[i].map.begin()->second);
         if (scalar_position.back() >= dimensions.back()) {
            TAT_error("Index out of range when finding offset");
         }
      }
      Size offset = 0;
      for (Rank j = 0; j < rank; j++) {
         offset *= dimensions[j];
         offset += scalar_position[j];
      }
      return offset;""", """      Size offset = 0;
      for (Rank i = 0; i < rank; i++) {
         auto found = position.find(names[i]);
         if (found == position.end()) {
            TAT_error("Name not found in position map when finding offset");
         }
         const Size index = found->second;
         const Size dimension = core.edges[i].map.begin()->second;
         if (index >= dimension) {
            TAT_error("Index out of range when finding offset");
         }
         offset = offset * dimension + index;
      }
      return offset;""", 0),
 ("gi-own", GI, """      auto pmr_guard = scope_resource<1 << 10>();
      if (core.use_count() != 1) {
         core = std::make_shared<Core<ScalarType, Symmetry>>(*core);
         TAT_warning_or_error_when_copy_shared(
               "Get reference which may change of shared tensor, copy happened here, use const_at to get const reference");
      }
""", """      auto pmr_guard = scope_resource<1 << 10>();
      const bool is_shared = core.use_count() > 1;
      if (is_shared) {
         auto new_core = std::make_shared<Core<ScalarType, Symmetry>>(*core);
         core = std::move(new_core);
         TAT_warning_or_error_when_copy_shared(
               "Get reference which may change of shared tensor, copy happened here, use const_at to get const reference");
      }
""", 0),
 ("se-accumulate", [(SE, """      auto total_symmetry = Symmetry();
      Size total_offset = 0;
      for (const auto& [name, information] : configure) {""", """      auto total_symmetry = Symmetry();
      Size total_offset = 0;
      auto accumulate_offset = [&total_offset](Size index, Size dimension) {
         if (index >= dimension) {
            TAT_error("Index out of range in Expand");
         }
         total_offset = total_offset * dimension + index;
      };
      for (const auto& [name, information] : configure) {"""), (SE, """            const auto& [arrow, symmetry, index, dimension] = information;
            if (index >= dimension) {
               TAT_error("Index out of range in Expand");
            }
            total_offset *= dimension;
            total_offset += index;
""", """            const auto& [arrow, symmetry, index, dimension] = information;
            accumulate_offset(index, dimension);
"""), (SE, """            const auto& [symmetry, index, dimension] = information;
            if (index >= dimension) {
               TAT_error("Index out of range in Expand");
            }
            total_offset *= dimension;
            total_offset += index;
""", """            const auto& [symmetry, index, dimension] = information;
            accumulate_offset(index, dimension);
""")], None, None, 0),
 ("se-shrink", SE, """         if (auto found_position = configure.find(name); found_position != configure.end()) {
            const auto& position = found_position->second;
""", """         const auto found_position = configure.find(name);
         if (found_position == configure.end()) {
            continue;
         }
         {
            const auto& position = found_position->second;
""", 0),
 ("co-find", CO, """      auto iterator = contract_names.begin();
      for (; iterator != contract_names.end(); ++iterator) {
         if (std::get<i>(*iterator) == name) {
            return iterator;
         }
      }
      return iterator;""", """      return std::find_if(contract_names.begin(), contract_names.end(), [&name](const auto& pair) { return std::get<i>(pair) == name; });""", 0),
 ("co-delete", CO, """                  auto found = edge_other.map.find(-symmetry);
                  if (found != edge_other.map.end()) {
                     // found
                     if (const auto dimension_other = found->second; dimension_other != dimension) {
                        TAT_error("Different Dimension to Contract");
                     }
                  } else {
                     // not found
                     delete_map[symmetry] = 0;
                     // 用于merge时cut, cut成0会自动删除
                  }
""", """                  const auto found = edge_other.map.find(-symmetry);
                  if (found == edge_other.map.end()) {
                     delete_map.emplace(symmetry, 0);
                     continue;
                  }
                  if (found->second == dimension) {
                     continue;
                  }
                  TAT_error("Different Dimension to Contract");
""", 0),
 ("co-missing", CO, """         auto found_1 = tensor_1.name_to_index.find(std::get<0>(*iterator));
         auto found_2 = tensor_2.name_to_index.find(std::get<1>(*iterator));
         if (found_1 == tensor_1.name_to_index.end() || found_2 == tensor_2.name_to_index.end()) {
            iterator = contract_names.erase(iterator);
            TAT_warning_or_error_when_name_missing("Name missing in contract");
         } else {
            ++iterator;
         }
""", """         const auto& [name_1, name_2] = *iterator;
         const bool both_exist = tensor_1.name_to_index.count(name_1) != 0 && tensor_2.name_to_index.count(name_2) != 0;
         if (both_exist) {
            ++iterator;
         } else {
            iterator = contract_names.erase(iterator);
            TAT_warning_or_error_when_name_missing("Name missing in contract");
         }
""", 0),
 ("te-map", TE, """         auto result = same_shape();
         for (auto& [symmetries, block] : core->blocks) {
            std::transform(block.begin(), block.end(), result.core->blocks.at(symmetries).begin(), function);
         }
         return result;""", """         auto result = same_shape();
         for (const auto& [symmetries, block] : core->blocks) {
            auto& target = result.core->blocks.at(symmetries);
            for (Size i = 0; i < block.size(); i++) {
               target[i] = function(block[i]);
            }
         }
         return result;""", 0),
 ("te-transform", TE, """         for (auto& [_, block] : core->blocks) {
            std::transform(block.begin(), block.end(), block.begin(), function);
         }
         return *this;""", """         for (auto iterator = core->blocks.begin(); iterator != core->blocks.end(); ++iterator) {
            for (auto& element : iterator->second) {
               element = function(element);
            }
         }
         return *this;""", 0),
 ("te-to", TE, """               auto [iterator, success] = result.core->blocks.emplace(symmetries, block.size());
               auto& this_block = iterator->second;
               for (Size i = 0; i < block.size(); i++) {""", """               const Size size = block.size();
               auto& this_block = result.core->blocks.emplace(symmetries, size).first->second;
               for (Size i = 0; i != size; ++i) {""", 0),
]
