CHECK = "c25_symmetry.py"
SY = "include/TAT/symmetry.hpp"
M = [
 ("expand-noacc", [("include/TAT/shrink_and_expand.hpp","            total_symmetry += symmetry;\n         } else {","         } else {"),("include/TAT/shrink_and_expand.hpp","            total_symmetry += symmetry;\n         }\n      }","         }\n      }")], 0,0, 1),
 ("shrink-noacc", "include/TAT/shrink_and_expand.hpp","               total_symmetry += symmetry;\n","",1),

 ("neg-z2", SY, "return FermiZ2Symmetry(-symmetry.fermi, symmetry.z2);", "return FermiZ2Symmetry(-symmetry.fermi, !symmetry.z2);", 1),
 ("neg-u1", SY, "return FermiU1Symmetry(-symmetry.fermi, -symmetry.u1);", "return FermiU1Symmetry(-symmetry.fermi, symmetry.u1);", 1),
 ("or-z2", SY, "      symmetry_1.fermi += symmetry_2.fermi;\n      symmetry_1.z2 ^= symmetry_2.z2;", "      symmetry_1.fermi += symmetry_2.fermi;\n      symmetry_1.z2 |= symmetry_2.z2;", 1),
 ("branch", SY, "      symmetry_1.u1 += symmetry_2.u1;\n", "      if (symmetry_2.u1 > 1000) { return symmetry_1; }\n      symmetry_1.u1 += symmetry_2.u1;\n", 1),
 ("cmp-one", SY, "return std::tie(fermi, u1);", "return std::tie(fermi);", 1),
 ("default", SY, "U1Symmetry(const U1 u1 = 0)", "U1Symmetry(const U1 u1 = 1)", 1),
 ("nofilter", "include/TAT/edge.hpp", "if (symmetry_summary == Symmetry()) {", "if (symmetry_summary <= Symmetry()) {", 1),
 ("partial-sum", "include/TAT/edge.hpp", "                  symmetry_summary += symmetry_iterator->first;\n", "                  if (symmetry_iterator->second) { symmetry_summary += symmetry_iterator->first; }\n", 1),
 ("insert-block", "include/TAT/edge_operator.hpp", "result.core->blocks.at(destination_symmetries)", "result.core->blocks[VectorSymmetryOfTensor(destination_symmetries.begin(), destination_symmetries.end())]", 1),
 ("r-early", SY, "      symmetry_1.u1 += symmetry_2.u1;\n", "      if (symmetry_2.u1 == 0) { return symmetry_1; }\n      symmetry_1.u1 = symmetry_2.u1 + symmetry_1.u1;\n", 0),
 ("r-neq", SY, "return Z2Symmetry(symmetry_1.z2 ^ symmetry_2.z2);", "return Z2Symmetry(symmetry_1.z2 != symmetry_2.z2);", 0),
 ("r-and", SY, "return Z2Symmetry(symmetry_1.z2 ^ symmetry_2.z2);", "return Z2Symmetry((symmetry_1.z2 && !symmetry_2.z2) || (!symmetry_1.z2 && symmetry_2.z2));", 0),
 ("r-if", SY, "      symmetry_1.fermi += symmetry_2.fermi;\n      symmetry_1.z2 ^= symmetry_2.z2;", "      symmetry_1.fermi += symmetry_2.fermi;\n      if (symmetry_2.z2) { symmetry_1.z2 = !symmetry_1.z2; }", 0),
 ("r-plus-by-pluseq", [(SY, "   inline FermiU1Symmetry operator+(const FermiU1Symmetry& symmetry_1, const FermiU1Symmetry& symmetry_2) {\n      return FermiU1Symmetry(symmetry_1.fermi + symmetry_2.fermi, symmetry_1.u1 + symmetry_2.u1);\n   }\n", "   inline FermiU1Symmetry& operator+=(FermiU1Symmetry& symmetry_1, const FermiU1Symmetry& symmetry_2);\n   inline FermiU1Symmetry operator+(const FermiU1Symmetry& symmetry_1, const FermiU1Symmetry& symmetry_2) {\n      auto r = symmetry_1; r += symmetry_2; return r;\n   }\n")], 0, 0, 0),
 ("r-filter", "include/TAT/edge.hpp", "if (symmetry_summary == Symmetry()) {", "const bool allowed = !(symmetry_summary != Symmetry());\n               if (allowed) {", 0),
 ("r-filter2", "include/TAT/edge.hpp", "               if (symmetry_summary == Symmetry()) {", "               if (symmetry_summary != Symmetry()) {\n return minimum_changed; }\n {", 0),
]
