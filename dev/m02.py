CHECK = "c02_wire.py"
IO = "include/TAT/io.hpp"
M = [
 ("simple-name-null", IO, "name_in_operator<std::string> read = operator>;", "name_in_operator<std::string> read = nullptr;", 1),
 ("swap-arrow-map-reader", IO, "in > edge.arrow;\n         }\n         in > edge.map;", "}\n         in > edge.map;\n if constexpr (is_fermi_symmetry_v<Symmetry>) { in > edge.arrow;}", 1),
 ("count-int-both", [(IO, "Size count = list.size();\n      out < count;\n      if constexpr", "unsigned int count = list.size();\n      out < count;\n      if constexpr"), (IO, "list.clear();\n      Size count;", "list.clear();\n      unsigned int count;")], 0, 0, 1),
 ("no-clear-map", IO, "map.clear();\n      Size size;", "Size size;", 1),
 ("no-clear-vector", IO, "list.clear();\n      Size count;", "Size count;", 1),
 ("off-by-one-reader", IO, "for (Size i = 0; i < size; i++) {\n         Key key;", "for (Size i = 1; i < size; i++) {\n         Key key;", 1),
 ("sizeof-wrong", IO, "out.write(reinterpret_cast<const char*>(list.data()), sizeof(T) * count);", "out.write(reinterpret_cast<const char*>(list.data()), sizeof(char) * count);", 1),
 ("no-arrow-both", [(IO, "            out < edge.arrow;\n", ""), (IO, "            in > edge.arrow;\n", "")], 0, 0, 1),
 ("swap-MN", "include/square/abstract_lattice.hpp", "in > lattice.M > lattice.N;", "in > lattice.N > lattice.M;", 1),
 ("no-cut-both", [("include/square/sampling_gradient_lattice.hpp", "out < lattice.dimension_cut;\n", ""), ("include/square/sampling_gradient_lattice.hpp", "in > lattice.dimension_cut;\n", "")], 0, 0, 1),
 ("no-clear-env", "include/square/simple_update_lattice.hpp", "      lattice.environment.clear();\n", "", 1),
 ("wrong-size", "include/square/abstract_lattice.hpp", "Size map_size = pool_map.size();", "Size map_size = pool.size();", 1),
 ("data-before-meta", IO, "tensor.meta_get(in).data_get(in);", "tensor.data_get(in).meta_get(in);", 1),
 ("skip-empty", IO, "         out < key < value;\n", "         if (value != Value()) { out < key < value; }\n", 1),
 ("names-bulk", IO, "      in > names;\n", "      Size n; in > n; names.resize(n); for (Size i = 0; i < n; i++) { in > names[i]; }\n", 0),
 ("refactor-loop", IO, "for (Size i = 0; i < size; i++) {\n         Key key;", "while (size-- > 0) {\n         Key key;", 0),
 ("refactor-loop2", IO, "for (Size i = 0; i < size; i++) {\n         Key key;", "for (Size i = size; i != 0; --i) {\n         Key key;", 0),
 ("refactor-helper", [(IO, "   template<typename T, typename A>\n   std::ostream& operator<(std::ostream& out, const std::vector<T, A>& list) {\n      Size count = list.size();\n      out < count;", "   template<typename C> Size write_size(std::ostream& out, const C& c) { const Size n = c.size(); out < n; return n; }\n   template<typename T, typename A>\n   std::ostream& operator<(std::ostream& out, const std::vector<T, A>& list) {\n      const Size count = write_size(out, list);")], 0, 0, 0),
 ("refactor-emplace", IO, "in > map[std::move(key)];", "Value value; in > value; map.emplace(std::move(key), std::move(value));", 0),
 ("refactor-early", IO, "      Size size;\n      in > size;\n", "      Size size = 0;\n      if (!(in > size)) { return in; }\n", 0),
 ("refactor-reserve", IO, "         for (Size i = 0; i < count; i++) {\n            auto& item", "         list.reserve(count);\n for (Size i = 0; i < count; i++) {\n            auto& item", 0),
 ("refactor-local", IO, "      out < names;\n", "      const auto& n = names; out < n;\n", 0),
]
