S = [
 dict(id="C17-odd-norm", property="C17", check="c17_elementwise.py",
  edits=[("include/TAT/tensor.hpp", '''if constexpr (p % 2 == 0 && is_real_v<ScalarType>) {''', '''if constexpr (is_real_v<ScalarType>) {''')],
  needs="an odd norm above one of a real tensor with negative elements",
  breaks="negative elements cancel in the sum instead of counting with their absolute value",
  cpp='''#include <TAT/TAT.hpp>
#include <cmath>
int main() {
   auto a = TAT::Tensor<double>({"A"}, {2}).test(-1, 3);
   return std::abs(a.norm<3>() - std::pow(9., 1. / 3)) < 1e-6 ? 0 : 1;
}
'''),
 dict(id="C17-square-transposed", property="C17", check="c17_elementwise.py",
  edits=[("include/TAT/scalar.hpp", '''      if (tensor_1.names != tensor_2.names) {                                                                                                    \\
         new_tensor_2 = tensor_2.transpose(tensor_1.names);                                                                                      \\
         real_tensor_2 = &new_tensor_2;                                                                                                          \\
      }                                                                                                                                          \\
      if (tensor_1.core->edges''', '''      if (tensor_1.names != tensor_2.names && tensor_1.core->edges != tensor_2.core->edges) {                                                    \\
         new_tensor_2 = tensor_2.transpose(tensor_1.names);                                                                                      \\
         real_tensor_2 = &new_tensor_2;                                                                                                          \\
      }                                                                                                                                          \\
      if (tensor_1.core->edges''')],
  needs="in-place arithmetic of two tensors with the same dimensions whose edges are in different order",
  breaks="elements of different positions are combined",
  cpp='''#include <TAT/TAT.hpp>
using T = TAT::Tensor<double>;
int main() {
   auto a = T({"A", "B"}, {2, 2}).test();
   auto b = T({"B", "A"}, {2, 2}).test();
   a += b;
   return a.const_at(std::map<TAT::FastName, TAT::Size>{{"A", 0}, {"B", 1}}) == 1 + 2 ? 0 : 1;
}
'''),
 dict(id="C17-complex-abs", property="C17", check="c17_elementwise.py",
  edits=[("include/TAT/tensor.hpp", '''this_block[i] = OtherScalarType(block[i].real());''', '''this_block[i] = OtherScalarType(block[i].imag() == 0 ? block[i].real() : std::abs(block[i]));''')],
  needs="conversion of a complex tensor with a non-zero imaginary part to a real one",
  breaks="the absolute value is taken instead of the real part",
  cpp='''#include <TAT/TAT.hpp>
using T = TAT::Tensor<std::complex<double>>;
int main() {
   auto a = T({"A"}, {2}).set([]() { return std::complex<double>(3, 4); });
   return a.to<double>().const_at(std::map<TAT::FastName, TAT::Size>{{"A", 0}}) == 3 ? 0 : 1;
}
'''),
]
