CHECK = "c13_headers.py"
M = [
 ("static-names", "include/TAT/name.hpp", "inline auto fast_name_dataset", "static auto fast_name_dataset", 1),
 ("tls-names", "include/TAT/name.hpp", "inline auto fast_name_dataset", "inline thread_local auto fast_name_dataset", 1),
 ("noninline-fn", "include/TAT/io.hpp", "   inline void ignore_util", "   void ignore_util", 1),
 ("anon-ns", "include/TAT/pmr_resource.hpp", "inline memory_resource* default_resource", "static memory_resource* default_resource", 1),
 ("noninline-spec", "include/TAT/exponential.hpp", "inline auto gesv<double>", "auto gesv<double>", 1),
 ("ok-constexpr", "include/TAT/io.hpp", "   inline void ignore_util", "   constexpr char the_end = '}';\n   inline void ignore_util", 0),
 ("static-fn-local", "include/TAT/name.hpp", "inline auto fast_name_dataset = fast_name_dataset_t();", "static fast_name_dataset_t& get_data() { static fast_name_dataset_t d; return d; }\n   inline auto fast_name_dataset = fast_name_dataset_t();", 1),
 ("inline-fn-local", "include/TAT/name.hpp", "inline auto fast_name_dataset = fast_name_dataset_t();", "inline fast_name_dataset_t& get_data() { static fast_name_dataset_t d; return d; }\n   inline auto fast_name_dataset = fast_name_dataset_t();", 0),
]
