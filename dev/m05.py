CHECK = "c05_lapack.py"
SV = "include/TAT/svd.hpp"
QR = "include/TAT/qr.hpp"
CO = "include/TAT/contract.hpp"
EX = "include/TAT/exponential.hpp"
Q1 = '''         gelqf<ScalarType>(&n, &m, data, &n, tau.data(), &float_lwork, &lwork_query, &result);
'''
M = [
 ("svd-ldvt", SV, 'sgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work', 'sgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &m, work', 0),
 ("svd-ldvt-n", SV, 'cgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work', 'cgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &n, work', 1),
 ("svd-job", SV, 'zgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work', 'zgesvd_("A", "S", &n, &m, a, &n, s, vt, &n, u, &min, work', 1),
 ("svd-rwork", SV, "auto rwork = vector<float>(5 * Size(min));", "auto rwork = vector<float>(min);", 1),
 ("svd-rwork-max", SV, "auto rwork = vector<float>(5 * Size(min));", "auto rwork = vector<float>(5 * max);", 0),
 ("svd-info", SV, '''      zgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work.data(), &lwork, rwork.data(), &result);
      if (result != 0) {
         TAT_warning_or_error_when_lapack_error("Error in GESVD");
      }
''', '''      zgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work.data(), &lwork, rwork.data(), &result);
''', 1),
 ("svd-info-neg", SV, '''rwork.data(), &result);
      if (result != 0) {
         TAT_warning_or_error_when_lapack_error("Error in GESVD");
      }
   }
''', '''rwork.data(), &result);
      if (result < 0) {
         TAT_warning_or_error_when_lapack_error("Error in GESVD");
      }
   }
''', 1),
 ("svd-work", SV, "auto work = vector<float>(lwork);", "auto work = vector<float>(min);", 1),
 ("svd-guess", SV, "const int lwork = int(float_lwork);\n      auto work = vector<float>(lwork);", "const int lwork = 3 * min + m;\n      auto work = vector<float>(lwork);", 1),
 ("svd-guess-ok", SV, "const int lwork = int(float_lwork);\n      auto work = vector<float>(lwork);", "const int lwork = 5 * min + max + m + n;\n      auto work = vector<float>(lwork);", 0),
 ("svd-swap", SV, "calculate_svd_kernel(n, m, min, max, new_a.data(), old_u.data(), s, old_vt.data());", "calculate_svd_kernel(m, n, min, max, new_a.data(), old_u.data(), s, old_vt.data());", 1),
 ("svd-alloc", SV, "auto old_vt = vector<ScalarType>(Size(min) * m);", "auto old_vt = vector<ScalarType>(min * n);", 1),
 ("svd-uv", SV, "         matrix_transpose(n, min, old_u.data(), vt); // n*min -> min*n\n         matrix_transpose(min, m, old_vt.data(), u); // min*m -> m*min", "         matrix_transpose(n, min, old_u.data(), u); // n*min -> min*n\n         matrix_transpose(min, m, old_vt.data(), vt); // min*m -> m*min", 1),
 ("svd-prefix", SV, "", "", 0),
 ("qr-lq-lda", QR, "orglq<ScalarType>(&min, &m, &min, data_1, &min, tau", "orglq<ScalarType>(&min, &m, &min, data_1, &n, tau", 1),
 ("qr-lq-n", QR, "         orglq<ScalarType>(&min, &m, &min, data_1, &min, tau", "         orglq<ScalarType>(&min, &min, &min, data_1, &min, tau", 0),
 ("qr-qr-n", QR, "         orgqr<ScalarType>(&n, &min, &min, data_2, &n, tau", "         orgqr<ScalarType>(&min, &min, &min, data_2, &n, tau", 1),
 ("qr-kind", QR, "         orgqr<ScalarType>(&n, &min, &min, data_2, &n, tau", "         orglq<ScalarType>(&n, &min, &min, data_2, &n, tau", 1),
 ("qr-fill", QR, "            std::fill(data_1 + min * i + i + 1, data_1 + min * i + min, 0);\n", "", 1),
 ("qr-fill2", QR, "            std::fill(data_2 + i * n, data_2 + i * n + i, 0);\n", "            std::fill(data_2 + i * n + 1, data_2 + i * n + i, 0);\n", 1),
 ("qr-tail", QR, "         std::copy(data + Size(n) * min, data + Size(n) * m, data_1 + Size(min) * min);\n", "", 0),
 ("qr-tail2", QR, "         std::copy(data + Size(n) * min, data + Size(n) * m, data_1 + Size(min) * min);\n", "         if (m > n) std::copy(data + Size(n) * min, data + Size(n) * m, data_1 + Size(min) * min);\n", 0),
 ("qr-tau", QR, "         auto tau = vector<ScalarType>(min);\n         const int lwork_query = -1;\n         ScalarType float_lwork;\n         geqrf", "         auto tau = vector<ScalarType>(m - n);\n         const int lwork_query = -1;\n         ScalarType float_lwork;\n         geqrf", 1),
 ("qr-query", QR, "         geqrf<ScalarType>(&n, &m, data, &n, tau.data(), &float_lwork, &lwork_query", "         geqrf<ScalarType>(&n, &min, data, &n, tau.data(), &float_lwork, &lwork_query", 0),
 ("qr-query2", QR, "         geqrf<ScalarType>(&n, &m, data, &n, tau.data(), &float_lwork, &lwork_query", "         geqrf<ScalarType>(&n, &max, data, &n, tau.data(), &float_lwork, &lwork_query", 0),
 ("qr-info", QR, '''         orgqr<ScalarType>(&n, &min, &min, data_2, &n, tau.data(), work.data(), &lwork, &result);
         // WRONG -> orgqr<ScalarType>(&min, &min, &min, data_2, &n, tau.data(), work.data(), &lwork, &result);
         // same size of lwork
         if (result != 0) {
            TAT_error("Error in QR");
         }
''', '''         orgqr<ScalarType>(&n, &min, &min, data_2, &n, tau.data(), work.data(), &lwork, &result);
''', 1),
 ("qr-complex", QR, "inline auto orgqr<std::complex<float>> = cungqr_;", "inline auto orgqr<std::complex<float>> = cungqr_;\n", 0),
 ("qr-trans", QR, "         matrix_transpose(n, min, old_data_1.data(), data_2);\n         matrix_transpose(min, m, old_data_2.data(), data_1);", "         matrix_transpose(n, min, old_data_1.data(), data_1);\n         matrix_transpose(min, m, old_data_2.data(), data_2);", 1),
 ("qr-copyover", QR, "std::copy(data + i * n, data + i * n + min, data_1 + i * min);", "std::copy(data + i * n, data + i * n + n, data_1 + i * min);", 1),
 ("co-lda", CO, "lda_list[batch_size] = put_common_2_right ? k : n;", "lda_list[batch_size] = put_common_1_right ? k : n;", 1),
 ("co-ldb", CO, "put_common_1_right ? &k : &m,", "put_common_1_right ? &k : &n,", 1),
 ("co-stride", CO, "b_list[i] = data_1 + Size(m) * k * i;", "b_list[i] = data_1 + Size(m) * n * i;", 1),
 ("co-cstride", CO, "c_list[i] = data + Size(m) * n * i;", "c_list[i] = data + Size(m) * k * i;", 1),
 ("co-conj", CO, "put_common_2_right ? \"T\" : \"N\",", "put_common_2_right ? \"C\" : \"N\",", 1),
 ("co-beta", CO, "         const ScalarType beta = 0;\n         if (m && n && k) {", "         const ScalarType beta = 1;\n         if (m && n && k) {", 1),
 ("co-nofill", CO, '''      } else if (m && n) {
         auto& result_vector = product_result.core->blocks.begin()->second;
         std::fill(result_vector.begin(), result_vector.end(), 0);
      }
''', "      }\n", 1),
 ("co-nofill2", CO, '''         } else if (m && n) {
            std::fill(data.begin(), data.end(), 0);
         }
''', "         }\n", 1),
 ("co-noguard", CO, "         if (m && n && k) {\n            transpose_a", "         if (m && n) {\n            transpose_a", 1),
 ("co-batchidx", CO, "&transpose_a[i], &transpose_b[i], &m[i], &n[i], &k[i], &alpha[i], a[i], &lda[i], b[i], &ldb[i], &beta[i], c[i], &ldc[i]);", "&transpose_a[i], &transpose_b[i], &m[i], &n[i], &k[i], &alpha[i], a[i], &lda[0], b[i], &ldb[i], &beta[i], c[i], &ldc[i]);", 1),
 ("ex-alias", EX, "auto* F_new = k == j ? F : k % 2 == 0 ? F1.data() : F2.data();", "auto* F_new = k == j ? F : k % 2 == 1 ? F1.data() : F2.data();", 1),
 ("ex-xalias", EX, "auto& X_new = k % 2 == 0 ? X1 : X2;", "auto& X_new = k % 2 == 1 ? X1 : X2;", 1),
 ("ex-ipiv", EX, "vector<int> ipiv(n);", "vector<int> ipiv(nrhs / 2);", 1),
 ("ex-gesvinfo", EX, '''      if (result != 0) {
         TAT_warning_or_error_when_lapack_error("error in GESV");
      }
''', "", 1),
 # behaviour preserving
 ("r-helper", [(SV, "   template<>\n   inline void\n   calculate_svd_kernel<float>", "   inline void check_gesvd(int status) {\n      if (status) {\n         TAT_warning_or_error_when_lapack_error(\"Error in GESVD\");\n      }\n   }\n   template<>\n   inline void\n   calculate_svd_kernel<float>"), (SV, '''      sgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work.data(), &lwork, &result);
      if (result != 0) {
         TAT_warning_or_error_when_lapack_error("Error in GESVD");
      }
''', '''      sgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, work.data(), &lwork, &result);
      check_gesvd(result);
''')], 0, 0, 0),
 ("r-rows", SV, '''      int result;
      const int lwork_query = -1;
      float float_lwork;
      sgesvd_("S", "S", &n, &m, a, &n, s, vt, &n, u, &min, &float_lwork, &lwork_query, &result);
''', '''      int result;
      const int rows = n;
      const int lwork_query = -1;
      float float_lwork;
      sgesvd_("S", "S", &rows, &m, a, &rows, s, vt, &rows, u, &min, &float_lwork, &lwork_query, &result);
''', 0),
 ("r-qrloop", QR, '''         for (auto i = 0; i < min; i++) {
            std::copy(data + n * i, data + n * i + i + 1, data_1 + min * i);
            std::fill(data_1 + min * i + i + 1, data_1 + min * i + min, 0);
         }
''', '''         for (int column = 0; column < min; ++column) {
            const auto* from = data + n * column;
            auto* to = data_1 + min * column;
            std::fill(to + column + 1, to + min, ScalarType(0));
            std::copy(from, from + column + 1, to);
         }
''', 0),
 ("r-qrswap", QR, "      if (m > n) {\n", "      if (n < m) {\n", 0),
 ("r-svdge", SV, "      if (m > n) {\n", "      if (!(m <= n)) {\n", 0),
 ("r-ptr", CO, '''            a_list[i] = data_2 + k * n * i;
            b_list[i] = data_1 + Size(m) * k * i;
            c_list[i] = data + Size(m) * n * i;
''', '''            a_list[i] = &data_2[n * k * i];
            b_list[i] = data_1 + i * (m * k);
            c_list[i] = data + i * n * m;
''', 0),
 ("r-inc", CO, '''         for (auto i = 0; i < l; i++) {
            a_list[i] = data_2 + k * n * i;
            b_list[i] = data_1 + Size(m) * k * i;
            c_list[i] = data + Size(m) * n * i;
''', '''         const ScalarType* pa = data_2;
         const ScalarType* pb = data_1;
         ScalarType* pc = data;
         for (auto i = 0; i < l; i++, pa += k * n, pb += m * k, pc += m * n) {
            a_list[i] = pa;
            b_list[i] = pb;
            c_list[i] = pc;
''', 0),
 ("r-flags", CO, '''               put_common_2_right ? "T" : "N",
               put_common_1_right ? "N" : "T",
''', '''               !put_common_2_right ? "N" : "T",
               put_common_1_right ? "N" : "T",
''', 0),
 ("r-zero", CO, '''         std::fill(result_vector.begin(), result_vector.end(), 0);
''', '''         for (auto& element : result_vector) {
            element = 0;
         }
''', 0),
 ("r-lambda", QR, '''         if (m * n != 0) {
            calculate_qr<ScalarType>(m, n, k, max, data, data_1, data_2, use_qr_not_lq);
         }
''', '''         if (m == 0 || n == 0) {
            continue;
         }
         calculate_qr<ScalarType>(m, n, k, max, data, data_1, data_2, use_qr_not_lq);
''', 0),
 ("r-min", SV, "const int k = m > n ? n : m;\n         const int max", "const int k = std::min(m, n);\n         const int max", 0),
 ("r-swapbuf", EX, '''      for (auto k = 1; k <= j; k++) {
         // F = F@F
         const auto* F_old = k % 2 == 1 ? F1.data() : F2.data();
         auto* F_new = k == j ? F : k % 2 == 0 ? F1.data() : F2.data();
''', '''      auto* F_current = F1.data();
      auto* F_other = F2.data();
      for (auto k = 1; k <= j; k++) {
         // F = F@F
         const auto* F_old = F_current;
         auto* F_new = k == j ? F : F_other;
         std::swap(F_current, F_other);
''', 0),
]
