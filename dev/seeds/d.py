S = [
 dict(id="C05-power-aliases", property="C05", check="c05_lapack.py",
  edits=[("include/TAT/exponential.hpp", "auto* F_new = k == j ? F : k % 2 == 0 ? F1.data() : F2.data();", "auto* F_new = k == j ? F : F2.data();")],
  needs="the exponential of a matrix with an element of absolute value at least 4, so that the result is squared three times",
  breaks="a product is written into the matrix that is being multiplied",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry>;
   auto a = T({"A", "B"}, {4, 4}).zero();
   auto& b = a.core->blocks.begin()->second;
   const double v[16] = {-1, 3, 0, 2, 3, -9, 1, 0, 0, 1, -5, 4, 2, 0, 4, -7};
   for (int i = 0; i < 16; i++) b[i] = v[i];
   std::set<std::pair<TAT::DefaultName, TAT::DefaultName>> pairs = {{"A", "B"}};
   auto e = a.exponential(pairs, 8);
   auto h = (a / 64).exponential(pairs, 8);
   auto square = [](const T& x) { return x.edge_rename({{"B", "C"}}).contract(x.edge_rename({{"A", "C"}}), {{"C", "C"}}); };
   for (int i = 0; i < 6; i++) h = square(h);
   return (e - h).norm<-1>() < 1e-6 ? 0 : 1;
}
'''),
 dict(id="C05-empty-common-block", property="C05", check="c05_lapack.py",
  edits=[("include/TAT/contract.hpp", "         } else if (m && n) {\n            std::fill(data.begin(), data.end(), 0);\n         }\n", "         }\n")],
  needs="contracting symmetric tensors over an edge one of whose sectors has dimension zero",
  breaks="the block of the result is not written at all",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::Z2Symmetry>;
   { std::vector<std::vector<double>> junk; for (int i = 0; i < 64; i++) junk.emplace_back(6, 7.5 + i); }
   auto a = T({"A", "B"}, {{{{0, 2}, {1, 2}}}, {{{0, 0}, {1, 3}}}}).test(1, 1);
   auto b = T({"C", "D"}, {{{{0, 0}, {1, 3}}}, {{{0, 3}, {1, 3}}}}).test(1, 1);
   for (int r = 0; r < 20; r++) {
      { std::vector<std::vector<double>> junk; for (int i = 0; i < 64; i++) junk.emplace_back(6, 7.5 + i); }
      auto c = a.contract(b, {{"B", "C"}});
      for (auto& x : c.core->blocks.at({0, 0})) if (x != 0) return 1;
   }
   return 0;
}
'''),
 dict(id="C05-fuse-leading", property="C05", check="c05_lapack.py",
  edits=[("include/TAT/contract.hpp", "               put_common_1_right ? &k : &m,", "               put_common_1_right ? &k : &n,")],
  needs="a contraction with a fused edge whose first tensor keeps the contracted edges first, with different numbers of free elements on both sides",
  breaks="the rows of the first matrix are taken the wrong distance apart",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry>;
   auto a = T({"K", "F", "M"}, {3, 4, 2}).test(1, 1);
   auto b = T({"F", "N", "L"}, {4, 5, 3}).test(1, 1);
   auto c = a.contract(b, {{"K", "L"}});
   for (int f = 0; f < 4; f++) for (int m = 0; m < 2; m++) for (int n = 0; n < 5; n++) {
      double s = 0;
      for (int k = 0; k < 3; k++) s += a.const_at({{"K", k}, {"F", f}, {"M", m}}) * b.const_at({{"F", f}, {"N", n}, {"L", k}});
      if (c.const_at({{"F", f}, {"M", m}, {"N", n}}) != s) return 1;
   }
   return 0;
}
'''),
]
