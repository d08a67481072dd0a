S = [
 dict(id="C15-item-offset", property="C15", check="c15_width.py",
  edits=[("include/TAT/get_item.hpp", "      Size offset = 0;\n      for (Rank j = 0; j < rank; j++) {\n         offset *= dimensions[j];\n         offset += scalar_position[j];\n      }\n      return offset;", "      int offset = 0;\n      for (Rank j = 0; j < rank; j++) {\n         offset *= dimensions[j];\n         offset += scalar_position[j];\n      }\n      return Size(offset);")],
  needs="reading or writing an element behind the first 2^31 elements of a block",
  breaks="the offset of the element overflows and memory outside the block is accessed",
  cpp='''#include <TAT/TAT.hpp>
#include <cstdio>
int main() {
   using T = TAT::Tensor<float, TAT::NoSymmetry>;
   try {
      auto a = T({"A", "B"}, {TAT::Size(1) << 16, (TAT::Size(1) << 15) + 8});
      a.at({{"A", 65535}, {"B", 3}}) = 7;
      const auto& b = a.core->blocks.begin()->second;
      return b[TAT::Size(65535) * 32776 + 3] == 7 && a.const_at({{"A", 65535}, {"B", 3}}) == 7 ? 0 : 1;
   } catch (const std::bad_alloc&) {
      return 0;
   }
}
'''),
 dict(id="C15-conversion-loop", property="C15", check="c15_width.py",
  edits=[("include/TAT/tensor.hpp", "               for (Size i = 0; i < block.size(); i++) {", "               for (Rank i = 0; i < block.size(); i++) {")],
  needs="converting the scalar type of a tensor with a block of 65536 or more elements",
  breaks="the counter wraps around and the conversion never ends",
  sh='''g++ -std=c++17 -w -O1 -Iinclude "$here/demo.cpp" -o "$tmp/demo" -llapack -lblas || exit 2
cd "$tmp" && timeout 10 ./demo''',
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry>;
   auto a = T({"A", "B"}, {300, 300}).test(1, 1);
   auto b = a.to<float>();
   return b.const_at({{"A", 299}, {"B", 299}}) == 90000 ? 0 : 1;
}
'''),
]
