CHECK = "c17_elementwise.py"
SC = "include/TAT/scalar.hpp"
TE = "include/TAT/tensor.hpp"
PAD = " " * 20
M = [
 ("swap-minus", SC, "c[j] = x - b[j]", "c[j] = b[j] - x", 1),
 ("swap-div", SC, "operator/, c[j] = x / b[j], c[j] = a[j] / y, c[j] = a[j] / b[j]", "operator/, c[j] = x / b[j], c[j] = a[j] / y, c[j] = b[j] / a[j]", 1),
 ("commuted-plus", SC, "c[j] = x + b[j]", "c[j] = b[j] + x", 0),
 ("neg-minus", SC, "c[j] = a[j] - y", "c[j] = a[j] + (-y)", 0),
 ("inplace-wrong", SC, "a[j] -= y", "a[j] += y", 1),
 ("inplace-long", SC, "a[j] -= y, a[j] -= b[j]", "a[j] = a[j] - y, a[j] = a[j] - b[j]", 0),
 ("inplace-reversed", SC, "a[j] -= y, a[j] -= b[j]", "a[j] -= y, a[j] = b[j] - a[j]", 1),
 ("size-minus-1", SC, "for (Size j = 0; j < singulars.size(); j++)", "for (Size j = 0; j + 1 < singulars.size(); j++)", 1),
 ("from-1", SC, "for (Size j = 0; j < singulars.size(); j++)", "for (Size j = 1; j < singulars.size(); j++)", 1),
 ("singular-ref", SC, "const auto y = number;  ", "const auto& y = number; ", 1),
 ("number-ref", SC, "const auto y = number_2;", "const auto& y = number_2;", 1),
 ("raw-tensor-2", SC, "const ScalarType2* __restrict b = real_tensor_2->core->blocks.at(symmetries).data();                                                    \\\n         for", "const ScalarType2* __restrict b = tensor_2.core->blocks.at(symmetries).data();                                                    \\\n         for", 1),
 ("fill-1", SC, "std::fill(block.begin(), block.end(), 0);", "std::fill(block.begin(), block.end(), 1);", 1),
 ("fill-rest", SC, "std::fill(block.begin(), block.end(), 0);", "std::fill(block.begin() + 1, block.end(), 0);", 1),
 ("names-only-size", SC, "if (tensor_1.names != tensor_2.names) {", "if (tensor_1.names.front() != tensor_2.names.front()) {", 1),
 ("transform-skip-first", TE, "std::transform(block.begin(), block.end(), block.begin(), function);", "std::transform(block.begin() + 1, block.end(), block.begin() + 1, function);", 1),
 ("to-imag", TE, "this_block[i] = OtherScalarType(block[i].real());", "this_block[i] = OtherScalarType(block[i].imag());", 1),
 ("to-abs", TE, "this_block[i] = OtherScalarType(block[i].real());", "this_block[i] = OtherScalarType(std::abs(block[i]));", 1),
 ("to-step", TE, "for (Size i = 0; i < block.size(); i++) {\n                  if constexpr (is_complex_v", "for (Size i = 0; i < block.size(); i += 2) {\n                  if constexpr (is_complex_v", 1),
 ("to-transform", TE, """               for (Size i = 0; i < block.size(); i++) {
                  if constexpr (is_complex_v<ScalarType> && is_real_v<OtherScalarType>) {
                     this_block[i] = OtherScalarType(block[i].real());
                  } else {
                     this_block[i] = OtherScalarType(block[i]);
                  }
               }
""", """               std::transform(block.begin(), block.end(), this_block.begin(), [](const ScalarType& x) {
                  if constexpr (is_complex_v<ScalarType> && is_real_v<OtherScalarType>) {
                     return OtherScalarType(x.real());
                  } else {
                     return OtherScalarType(x);
                  }
               });
""", 0),
 ("map-loop", TE, "            std::transform(block.begin(), block.end(), result.core->blocks.at(symmetries).begin(), function);", "            auto& target = result.core->blocks.at(symmetries);\n            for (Size i = 0; i < block.size(); i++) {\n               target[i] = function(block[i]);\n            }", 0),
 ("map-empty", TE, "            std::transform(block.begin(), block.end(), result.core->blocks.at(symmetries).begin(), function);", "            if (block.size() == 0) {\n               continue;\n            }\n            std::transform(block.begin(), block.end(), result.core->blocks.at(symmetries).begin(), function);", 0),
 ("map-other-begin", TE, "            std::transform(block.begin(), block.end(), result.core->blocks.at(symmetries).begin(), function);", "            std::transform(block.begin(), block.end() - 1, result.core->blocks.at(symmetries).begin(), function);", 1),
 ("transform-skip-large", TE, "         for (auto& [_, block] : core->blocks) {\n            std::transform(block.begin(), block.end(), block.begin(), function);", "         for (auto& [_, block] : core->blocks) {\n            if (block.size() > 65536) {\n               continue;\n            }\n            std::transform(block.begin(), block.end(), block.begin(), function);", 1),
 ("transform-first-only", TE, "            std::transform(block.begin(), block.end(), block.begin(), function);", "            std::transform(block.begin(), block.end(), block.begin(), function);\n            if (block.size() > 1024) {\n               break;\n            }", 1),
 ("transform-range-for", TE, "            std::transform(block.begin(), block.end(), block.begin(), function);", "            for (auto& element : block) {\n               element = function(element);\n            }", 0),
 ("norm-int-root", TE, "std::pow(result, 1. / p)", "std::pow(result, 1 / p)", 1),
 ("norm-sqrt-all", TE, "std::pow(result, 1. / p)", "std::sqrt(result)", 1),
 ("norm-no-abs", TE, "if (auto absolute_value = std::abs(number); absolute_value > result) {\n                     result = absolute_value;", "if (auto absolute_value = std::real(number); absolute_value > result) {\n                     result = absolute_value;", 1),
 ("norm-odd", TE, "if constexpr (p % 2 == 0 && is_real_v<ScalarType>) {", "if constexpr (is_real_v<ScalarType>) {", 1),
 ("norm-max", TE, "                  if (auto absolute_value = std::abs(number); absolute_value > result) {\n                     result = absolute_value;\n                  }", "                  result = std::max(result, std::abs(number));", 0),
 ("norm-min", TE, "maximum = maximum < absolute ? absolute : maximum;", "maximum = maximum > absolute ? absolute : maximum;", 1),
 ("norm-max-ge", TE, "maximum = maximum < absolute ? absolute : maximum;", "maximum = absolute >= maximum ? absolute : maximum;", 0),
 ("norm-abs2", TE, "result += std::norm(number);", "result += std::abs(number) * std::abs(number);", 0),
 ("norm-square-cplx", TE, "result += std::norm(number);", "result += std::real(number * number);", 1),
 ("norm-sum-noabs", TE, "                  auto absolute = std::abs(element);\n                  summation += absolute;", "                  summation += element;", 1),
 ("norm-start", TE, "real_base_t<ScalarType> result = 0;\n         if constexpr (p == -1)", "real_base_t<ScalarType> result = p == -1 ? 1 : 0;\n         if constexpr (p == -1)", 1),
 ("helper", [(SC, "#define TAT_DEFINE_SCALAR_OPERATOR(OP, EVAL1, EVAL2, EVAL3) ", "   template<typename A, typename Y, typename F>\n   void apply_number(A& block, const Y& y, F&& function) {\n      for (auto& x : block) {\n         x = function(x, y);\n      }\n   }\n#define TAT_DEFINE_SCALAR_OPERATOR(OP, EVAL1, EVAL2, EVAL3) ")], 0, 0, 0),
 ("plus-functor", SC, "            for (Size j = 0; j < block.size(); j++) {                                                                                         \\\n                  EVAL1;", "            Size size = block.size(); for (Size j = 0; j != size; ++j) {                                                                                         \\\n                  EVAL1;", 0),
]
M += [
 ("neg-swap", SC, "c[j] = a[j] - y", "c[j] = -(y - a[j])", 0),
 ("unrolled", SC, "         for (Size j = 0; j < singulars.size(); j++) {                                                                                           \\\n            EVAL1; ", "         Size j = 0;  for (; j + 1 < singulars.size(); j++) {                                                                                           \\\n            EVAL1;  }  for (; j < singulars.size(); j++) { \\\n  EVAL1; ", 0),
 ("peeled", SC, "         for (Size j = 0; j < singulars.size(); j++) {                                                                                           \\\n            EVAL1; ", "         if (singulars.size()) { const Size j = 0; EVAL1; } for (Size j = 1; j < singulars.size(); j++) {                                                                                           \\\n            EVAL1; ", 0),
]
M += [
 ("zero-shortcut", SC, "c[j] = a[j] * y, c[j] = a[j] * b[j]", "c[j] = a[j] * y, c[j] = (b[j] == ScalarType2(0) ? ScalarType(0) : ScalarType(a[j] * b[j]))", 0),
 ("div-guard", SC, "c[j] = a[j] / b[j]", "c[j] = (std::abs(b[j]) > 1e-300 ? ScalarType(a[j] / b[j]) : ScalarType(0))", 1),
 ("zero-shortcut-if", SC, "c[j] = a[j] * y, c[j] = a[j] * b[j]", "c[j] = a[j] * y, if (b[j] == ScalarType2(0)) { c[j] = 0; } else { c[j] = a[j] * b[j]; }", 0),
]
