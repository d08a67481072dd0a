CHECK = "c15_width.py"
I = "include/TAT/"
M = [
 ("size32", I+"basic_type.hpp", "using Size = std::uint64_t;", "using Size = std::uint32_t;", 1),
 ("total-int", I+"edge_operator.hpp", "Size total_size = 1;", "int total_size = 1;", 1),
 ("total-auto", I+"edge_operator.hpp", "Size total_source_offset = 0;", "auto total_source_offset = 0;", 1),
 ("offset-int", I+"get_item.hpp", "      Size offset = 0;", "      unsigned offset = 0;", 1),
 ("loop-rank", I+"trace.hpp", "for (Size i = 0; i < dimension; i++) {", "for (Rank i = 0; i < dimension; i++) {", 1),
 ("loop-auto", I+"scalar.hpp", "for (Size j = 0; j < block.size(); j++) {", "for (auto j = 0; j < block.size(); j++) {", 1),
 ("loop-auto2", I+"tensor.hpp", "for (Size i = 0; i < block.size(); i++) {", "for (auto i = 0; i < block.size(); i++) {", 1),
 ("kernel-int", I+"tensor_miscellaneous.hpp", "void multiple_kernel(Size m, Size k, Size n,", "void multiple_kernel(int m, int k, int n,", 1),
 ("mult-int", I+"tensor_miscellaneous.hpp", "         Size m = 1;", "         int m = 1;", 1),
 ("svd-total", I+"svd.hpp", "Size total_dimension = 0;", "int total_dimension = 0;", 1),
 ("expect", I+"transpose.hpp", "Size expect_leading = 1;", "Rank expect_leading = 1;", 1),
 ("transposeint", I+"transpose.hpp", "void matrix_transpose(Size m, Size n,", "void matrix_transpose(int m, int n,", 0),
 ("fuse-int", I+"contract.hpp", "data_2 + Size(k) * n * i", "data_2 + k * n * int(i)", 1),
 ("fuse-late", I+"contract.hpp", "data_2 + Size(k) * n * i", "data_2 + Size(k * n) * i", 1),
 ("fuse-ok", I+"contract.hpp", "data_2 + Size(k) * n * i", "data_2 + i * k * n", 0),
 ("qr-vec", I+"qr.hpp", "vector<ScalarType>(Size(n) * m)", "vector<ScalarType>(n * m)", 1),
 ("io-count", I+"io.hpp", "Size count = list.size();", "int count = list.size();", 1),
 ("edge-size", I+"edge.hpp", "Size size() const {", "int size() const {", 0),
 ("rank-loop-ok", I+"contract.hpp", "for (Rank i = 0; i < rank_1; i++) {", "for (int i = 0; i < rank_1; i++) {", 0),
 ("rank-int-ok", I+"contract.hpp", "const Rank rank_1 = tensor_1.names.size();", "const int rank_1 = tensor_1.names.size();", 0),
 ("plain-size-ok", I+"get_item.hpp", "      Size offset = 0;", "      std::size_t offset = 0;", 0),
]
