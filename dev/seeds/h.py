S = [
 dict(id="C08-multiple-longer", property="C08", check="c08_reject.py",
  edits=[("include/TAT/tensor_miscellaneous.hpp", '''         if (dimension != k) {
''', '''         if (dimension < k) {
''')],
  needs="multiplying by singular values of which there are more than the edge has elements",
  breaks="singular values that do not fit the edge are accepted and some of them silently dropped",
  cpp='''#include <TAT/TAT.hpp>
using T = TAT::Tensor<double>;
int main() {
   auto a = T({"A", "B"}, {2, 3}).test();
   auto s = a.svd({"A"}, "C", "D", -1).S;
   try {
      auto b = T({"A", "B"}, {1, 3}).test().multiple(s, "A", 'u');
      return 1;
   } catch (const std::exception&) {
      return 0;
   }
}
'''),
 dict(id="C08-scalar-smaller", property="C08", check="c08_reject.py",
  edits=[("include/TAT/scalar.hpp", '''               } else if (found->second != dimension) {                                                                                          \\
''', '''               } else if (found->second < dimension) {                                                                                           \\
''')],
  needs="element-wise arithmetic of two tensors of which the second is smaller in some sector",
  breaks="elements behind the end of the second tensor are read",
  cpp='''#include <TAT/TAT.hpp>
using T = TAT::Tensor<double>;
int main() {
   auto a = T({"A", "B"}, {2, 3}).test();
   auto b = T({"A", "B"}, {2, 2}).test();
   try {
      auto c = a + b;
      return 1;
   } catch (const std::exception&) {
      return 0;
   }
}
'''),
 dict(id="C08-missing-name", property="C08", check="c08_reject.py",
  edits=[("include/TAT/get_item.hpp", '''         if (found == position.end()) {
            TAT_error("Name not found in position map when finding block and offset");
''', '''         if (position.size() != std::size_t(rank) && found == position.end()) {
            TAT_error("Name not found in position map when finding block and offset");
''')],
  needs="asking for an element with the right number of names one of which the tensor does not have",
  breaks="the failed lookup is used as if it had succeeded",
  cpp='''#include <TAT/TAT.hpp>
using T = TAT::Tensor<double, TAT::U1Symmetry>;
int main() {
   auto a = T({"A", "B"}, {{{1, 2}, {-1, 2}}, {{1, 2}, {-1, 2}}}).test();
   try {
      volatile double x = a.const_at(std::map<TAT::FastName, std::tuple<TAT::U1Symmetry, TAT::Size>>{{"A", {1, 0}}, {"Z", {-1, 0}}});
      (void)x;
      return 1;
   } catch (const std::out_of_range&) {
      return 1; // found by accident in a later lookup
   } catch (const std::exception&) {
      return 0;
   }
}
'''),
]
