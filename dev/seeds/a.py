S = [
 dict(id="C01-block-two-owners", property="C01", check="c01_cow.py",
  edits=[("include/TAT/get_item.hpp", "auto pmr_guard = scope_resource<1 << 10>();\n      if (core.use_count() != 1) {\n         core = std::make_shared<Core<ScalarType, Symmetry>>(*core);\n         TAT_warning_or_error_when_copy_shared(\n               \"Get reference which may change of shared tensor, copy happened here, use const_block",
   "auto pmr_guard = scope_resource<1 << 10>();\n      if (core.use_count() > 2) {\n         core = std::make_shared<Core<ScalarType, Symmetry>>(*core);\n         TAT_warning_or_error_when_copy_shared(\n               \"Get reference which may change of shared tensor, copy happened here, use const_block")],
  needs="exactly two tensors sharing one storage, one of them written through block()",
  breaks="writing a block of a tensor changes the tensor it was copied from",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry>;
   auto a = T({"A", "B"}, {2, 3}).test();
   auto before = a.copy();
   auto b = a;
   b.block(std::map<TAT::DefaultName, TAT::NoSymmetry>{})[4] = 100;
   return (a - before).norm<-1>() == 0 ? 0 : 1;
}
'''),
 dict(id="C01-inplace-stale-blocks", property="C01", check="c01_cow.py",
  edits=[("include/TAT/tensor.hpp", "         if (core.use_count() != 1) {\n            core = std::make_shared<Core<ScalarType, Symmetry>>(*core);\n            TAT_warning_or_error_when_copy_shared(\"Set tensor shared, copy happened here\");\n         }\n         for (auto& [_, block] : core->blocks) {",
   "         auto keep = core;\n         auto& blocks = keep->blocks;\n         if (core.use_count() > 2) {\n            core = std::make_shared<Core<ScalarType, Symmetry>>(*core);\n            TAT_warning_or_error_when_copy_shared(\"Set tensor shared, copy happened here\");\n         }\n         for (auto& [_, block] : blocks) {")],
  needs="an in-place transform of a tensor that shares its storage with a copy (unshared tensors behave as before)",
  breaks="the in-place operation modifies the other tensor instead of this one",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::U1Symmetry>;
   auto a = T({"A", "B"}, {{{-1, 1}, {0, 2}, {1, 1}}, {{-1, 2}, {0, 1}, {1, 1}}}).test();
   auto before = a.copy();
   auto b = a;
   b.zero();
   if ((a - before).norm<-1>() != 0) return 1;
   return b.norm<-1>() == 0 ? 0 : 1;
}
'''),
 dict(id="C02-stale-sectors", property="C02", check="c02_wire.py",
  edits=[("include/TAT/io.hpp", "      map.clear();\n      Size size;", "      Size size;")],
  needs="loading into an object that already holds symmetry sectors absent from the stored one",
  breaks="the loaded object keeps sectors it had before",
  cpp='''#include <sstream>
#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::U1Symmetry>;
   auto a = T({"A", "B"}, {{{-1, 1}, {0, 2}, {1, 1}}, {{-1, 1}, {0, 2}, {1, 1}}}).test(1, 1);
   auto b = T({"A", "B"}, {{{0, 2}}, {{0, 2}}}).test(1, 1);
   auto [u1, s1, v1] = a.svd({"A"}, "R", "L");
   auto [u2, s2, v2] = b.svd({"A"}, "R", "L");
   auto s = s1;
   s.load(s2.dump());
   return s.value == s2.value ? 0 : 1;
}
'''),
 dict(id="C02-name-length-byte", property="C02", check="c02_wire.py",
  edits=[("include/TAT/io.hpp", "   inline std::ostream& operator<(std::ostream& out, const std::string& string) {\n      Size count = string.size();", "   inline std::ostream& operator<(std::ostream& out, const std::string& string) {\n      unsigned char count = string.size();"),
         ("include/TAT/io.hpp", "   inline std::istream& operator>(std::istream& in, std::string& string) {\n      Size count;", "   inline std::istream& operator>(std::istream& in, std::string& string) {\n      unsigned char count;")],
  needs="a name of more than 255 characters",
  breaks="names are cut and everything after them is read from the wrong position",
  cpp='''#include <sstream>
#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry, std::string>;
   for (int n : {1, 255, 256, 300}) {
      std::string name(n, 'x');
      auto a = T({name, "B"}, {2, 3}).test();
      auto b = T();
      b.load(a.dump());
      if (a.names != b.names || a.core->blocks != b.core->blocks) return 1;
   }
}
'''),
 dict(id="C02-lattice-cut", property="C02", check="c02_wire.py",
  edits=[("include/square/simple_update_lattice.hpp", "lattice.dimension;", "lattice.dimension_virtual;")],
  needs="x", breaks="x", cpp=""),
 dict(id="C13-not-inline", property="C13", check="c13_headers.py",
  edits=[("include/TAT/io.hpp", "   inline void load_fast_name_dataset(", "   void load_fast_name_dataset(")],
  needs="two translation units of one program including the library",
  breaks="programs of more than one translation unit no longer link",
  files={"one.cpp": "#include <TAT/TAT.hpp>\nint other();\nint main() { return other(); }\n", "two.cpp": "#include <TAT/TAT.hpp>\nint other() { return 0; }\n"},
  sh='''g++ -std=c++17 -w -Iinclude -c "$here/one.cpp" -o "$tmp/one.o" || exit 2
g++ -std=c++17 -w -Iinclude -c "$here/two.cpp" -o "$tmp/two.o" || exit 2
g++ "$tmp/one.o" "$tmp/two.o" -o "$tmp/demo" -llapack -lblas || exit 1
"$tmp/demo"'''),
 dict(id="C19-static-scaling", property="C19", check="c19_state.py",
  edits=[("include/TAT/exponential.hpp", "      auto j = std::max(0,", "      static const auto j = std::max(0,")],
  needs="two exponentials in one process, the second of a matrix with a much larger norm",
  breaks="the result of an exponential depends on the matrix of the first call",
  cpp='''#include <cmath>
#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry>;
   auto make = [](double x) {
      auto t = T({"A", "B"}, {1, 1});
      t.block(std::map<TAT::DefaultName, TAT::NoSymmetry>{})[0] = x;
      return t;
   };
   using P = std::set<std::tuple<TAT::DefaultName, TAT::DefaultName>>;
   auto small = make(0.1).exponential(P{{"A", "B"}}, 3);
   auto large = make(10).exponential(P{{"A", "B"}}, 3);
   double got = large.const_block(std::map<TAT::DefaultName, TAT::NoSymmetry>{})[0];
   return std::abs(got / std::exp(10.) - 1) < 1e-3 ? 0 : 1;
}
'''),
]
