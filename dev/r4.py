import re
SC="include/TAT/scalar.hpp"; TE="include/TAT/tensor.hpp"; ED="include/TAT/edge.hpp"; SY="include/TAT/symmetry.hpp"
full = open("/repo/" + SC).read()
norm = re.sub(r" +\\\n", " \\\\\n", full)
def B(t):
    return "".join(l + " \\\n" for l in t.strip("\n").split("\n"))
def sub(s, old, new):
    old, new = B(old), B(new)
    assert old in s, old
    return s.replace(old, new, 1)
v1 = sub(norm, """
         auto found_1 = tensor_1.core->blocks.find(symmetries);
         auto found_2 = real_tensor_2->core->blocks.find(symmetries);
         if (found_1 != tensor_1.core->blocks.end()) {
            if (found_2 != real_tensor_2->core->blocks.end()) {
               const ScalarType1* __restrict a = tensor_1.core->blocks.at(symmetries).data();
               const ScalarType2* __restrict b = real_tensor_2->core->blocks.at(symmetries).data();
               ScalarType* __restrict c = block.data();
               for (Size j = 0; j < block.size(); j++) {
                  EVAL3;
               }
            } else {
               const ScalarType1* __restrict a = tensor_1.core->blocks.at(symmetries).data();
               ScalarType* __restrict c = block.data();
               for (Size j = 0; j < block.size(); j++) {
                  EVAL2;
               }
            }
         } else {
            if (found_2 != real_tensor_2->core->blocks.end()) {
               const ScalarType2* __restrict b = real_tensor_2->core->blocks.at(symmetries).data();
               ScalarType* __restrict c = block.data();
               for (Size j = 0; j < block.size(); j++) {
                  EVAL1;
               }
            } else {
               std::fill(block.begin(), block.end(), 0);
            }
         }
""", """
         const auto found_1 = tensor_1.core->blocks.find(symmetries);
         const auto found_2 = real_tensor_2->core->blocks.find(symmetries);
         const bool has_1 = found_1 != tensor_1.core->blocks.end();
         const bool has_2 = found_2 != real_tensor_2->core->blocks.end();
         const Size size = block.size();
         ScalarType* __restrict c = block.data();
         if (has_1 && has_2) {
            const ScalarType1* __restrict a = found_1->second.data();
            const ScalarType2* __restrict b = found_2->second.data();
            for (Size j = 0; j < size; ++j) {
               EVAL3;
            }
         } else if (has_1) {
            const ScalarType1* __restrict a = found_1->second.data();
            for (Size j = 0; j < size; ++j) {
               EVAL2;
            }
         } else if (has_2) {
            const ScalarType2* __restrict b = found_2->second.data();
            for (Size j = 0; j < size; ++j) {
               EVAL1;
            }
         } else {
            for (Size j = 0; j < size; ++j) {
               c[j] = 0;
            }
         }
""")
v1 = sub(v1, """
      const auto& x = number_1;
      auto result = Tensor<ScalarType, Symmetry, Name>{tensor_2.names, tensor_2.core->edges};
      for (auto& [symmetries, block] : result.core->blocks) {
         const ScalarType2* __restrict b = tensor_2.core->blocks.at(symmetries).data();
         ScalarType* __restrict c = block.data();
         for (Size j = 0; j < block.size(); j++) {
            EVAL1;
         }
      }
      return result;
""", """
      const ScalarType1 x = number_1;
      auto result = Tensor<ScalarType, Symmetry, Name>{tensor_2.names, tensor_2.core->edges};
      for (const auto& [symmetries, source] : tensor_2.core->blocks) {
         auto& c = result.core->blocks.at(symmetries);
         const auto& b = source;
         for (Size j = source.size(); j-- > 0;) {
            EVAL1;
         }
      }
      return result;
""")
v1 = sub(v1, """
      const auto y = number_2;
      for (auto& [symmetries, block] : tensor_1.core->blocks) {
         ScalarType1* __restrict a = block.data();
         for (Size j = 0; j < block.size(); j++) {
            EVAL1;
         }
      }
      return tensor_1;
""", """
      const ScalarType2 y(number_2);
      auto& blocks = tensor_1.core->blocks;
      for (auto iterator = blocks.begin(); iterator != blocks.end(); ++iterator) {
         auto& a = iterator->second;
         const Size size = a.size();
         Size j = 0;
         while (j < size) {
            EVAL1;
            j++;
         }
      }
      return tensor_1;
""")
v1 = sub(v1, """
      auto real_tensor_2 = &tensor_2;
      auto new_tensor_2 = Tensor<ScalarType2, Symmetry, Name>();
      if (tensor_1.names != tensor_2.names) {
         new_tensor_2 = tensor_2.transpose(tensor_1.names);
         real_tensor_2 = &new_tensor_2;
      }
      if (tensor_1.core->edges != real_tensor_2->core->edges) {
         TAT_error("Scalar Operator In Different Shape Tensor, Maybe You Need Outplace Operator");
      }
      for (auto& [symmetries, block] : tensor_1.core->blocks) {
         ScalarType1* __restrict a = block.data();
         const ScalarType2* __restrict b = real_tensor_2->core->blocks.at(symmetries).data();
         for (Size j = 0; j < block.size(); j++) {
            EVAL2;
         }
      }
      return tensor_1;
""", """
      const bool same_order = tensor_1.names == tensor_2.names;
      const auto transposed = same_order ? Tensor<ScalarType2, Symmetry, Name>() : tensor_2.transpose(tensor_1.names);
      const auto& other = same_order ? tensor_2 : transposed;
      if (!(tensor_1.core->edges == other.core->edges)) {
         TAT_error("Scalar Operator In Different Shape Tensor, Maybe You Need Outplace Operator");
      }
      for (auto& [symmetries, block] : tensor_1.core->blocks) {
         const auto& other_block = other.core->blocks.at(symmetries);
         ScalarType1* a = block.data();
         const ScalarType2* b = other_block.data();
         const Size size = block.size();
         for (Size j = 0; j != size; j++) {
            EVAL2;
         }
      }
      return tensor_1;
""")
M=[
 ("scalar-rewrite", SC, full, v1, 0),
 ("norm-tensor", TE, """            for (const auto& [_, block] : core->blocks) {
               for (const auto& number : block) {
                  if (auto absolute_value = std::abs(number); absolute_value > result) {
                     result = absolute_value;
                  }
               }
            }
""", """            for (const auto& item : core->blocks) {
               for (const auto& number : item.second) {
                  result = std::max(result, real_base_t<ScalarType>(std::abs(number)));
               }
            }
""", 0),
 ("norm-singular", TE, """               for (const auto& element : singulars) {
                  auto absolute = std::abs(element);
                  summation += absolute;
               }
""", """               for (Size i = 0; i < singulars.size(); i++) {
                  summation += singulars[i] < 0 ? -singulars[i] : singulars[i];
               }
""", 0),
 ("edge-loop", ED, """               auto symmetry_summary = Symmetry();
               for (const auto& symmetry_iterator : symmetry_iterator_list) {
                  symmetry_summary += symmetry_iterator->first;
               }
               if (symmetry_summary == Symmetry()) {
                  for (auto i = minimum_changed; i < rank; i++) {
                     symmetries[i] = symmetry_iterator_list[i]->first;
                     sizes[i] = symmetry_iterator_list[i]->second * (i ? sizes[i - 1] : 1);
                  }
                  result.push_back({symmetries, sizes.back()});
                  return rank;
               }
               return minimum_changed;
""", """               Symmetry total;
               for (Rank i = 0; i < rank; i++) {
                  total = total + symmetry_iterator_list[i]->first;
               }
               if (total != Symmetry()) {
                  return minimum_changed;
               }
               for (Rank i = minimum_changed; i < rank; i++) {
                  const auto& [symmetry, dimension] = *symmetry_iterator_list[i];
                  symmetries[i] = symmetry;
                  sizes[i] = i == 0 ? dimension : dimension * sizes[i - 1];
               }
               result.emplace_back(symmetries, sizes[rank - 1]);
               return rank;
""", 0),
 ("sym-ops", [(SY, """      return FermiU1Symmetry(symmetry_1.fermi + symmetry_2.fermi, symmetry_1.u1 + symmetry_2.u1);
""", """      auto result = symmetry_1;
      result.fermi += symmetry_2.fermi;
      result.u1 += symmetry_2.u1;
      return result;
"""), (SY, """      return FermiZ2Symmetry(-symmetry.fermi, symmetry.z2);
""", """      FermiZ2Symmetry result;
      result.fermi = -symmetry.fermi;
      result.z2 = symmetry.z2;
      return result;
"""), (SY, """      return Z2Symmetry(symmetry_1.z2 ^ symmetry_2.z2);
""", """      return symmetry_1.z2 != symmetry_2.z2;
""")], 0, 0, 0),
]
