CHECK = "c14_python.py"
F = "PyTAT/PyTAT.cpp"
M = [
 ("svd-swap-call", F, "tensor.svd(free_name_set_u, common_name_u, common_name_v, cut)", "tensor.svd(free_name_set_u, common_name_v, common_name_u, cut)", 1),
 ("svd-swap-arg", F, '''py::arg("common_name_u"),
                  py::arg("common_name_v"),''', '''py::arg("common_name_v"),
                  py::arg("common_name_u"),''', 1),
 ("svd-result", F, "py::make_tuple(std::move(result.U), std::move(result.S), std::move(result.V))", "py::make_tuple(std::move(result.V), std::move(result.S), std::move(result.U))", 1),
 ("svd-default", F, 'py::arg("cut") = Size(-1)', 'py::arg("cut") = Size(0)', 1),
 ("multiple-division", F, "return tensor.multiple(s, name, direction, division);", "return tensor.multiple(s, name, direction);", 1),
 ("multiple-default", F, 'py::arg("division") = false', 'py::arg("division") = true', 1),
 ("policy", F, '''"Set every element of a tensor by a function",
                  py::return_value_policy::reference_internal)''', '''"Set every element of a tensor by a function")''', 1),
 ("norm", F, '"norm_sum", &T::template norm<1>', '"norm_sum", &T::template norm<2>', 1),
 ("op-missing", F, "            .def(ScalarType() - py::self)\n", "", 1),
 ("to-wrong", F, '''} else if (contain("D")) {
                        return py::cast(tensor.template to<double>()''', '''} else if (contain("D")) {
                        return py::cast(tensor.template to<float>()''', 1),
 ("to-order", F, [], 0, 1),
 ("hub-wrong", F, '''if (contain("complex32")) {
            scalar = "C";''', '''if (contain("complex32")) {
            scalar = "Z";''', 1),
 ("stride", F, "leadings[i] = leadings[i + 1] * dimensions[i + 1];", "leadings[i] = leadings[i + 1] * dimensions[i];", 1),
 ("real-leadings", F, "real_leadings[i] = leadings[j];", "real_leadings[i] = leadings[i];", 1),
 ("edge-operator-swap", F, '''std::move(parity_exclude_name_reverse_set),
                                 std::move(parity_exclude_name_reverse_before_merge_set),''', '''std::move(parity_exclude_name_reverse_before_merge_set),
                                 std::move(parity_exclude_name_reverse_set),''', 1),
 ("contract-swap", F, "return tensor_1.contract(tensor_2, std::move(contract_names));", "return tensor_2.contract(tensor_1, std::move(contract_names));", 1),
 ("zero-copy", F, '"zero", [](T& tensor) -> T& { return tensor.zero(); }, "Set all element zero", py::return_value_policy::reference_internal)', '"zero", [](T tensor) { tensor.zero(); return tensor; }, "Set all element zero", py::return_value_policy::reference_internal)', 1),
 ("rand-swap", F, "std::uniform_real_distribution<real_base_t<ScalarType>>(min.imag(), max.imag());", "std::uniform_real_distribution<real_base_t<ScalarType>>(min.real(), max.imag());", 1),
 ("type-swap", F, "   TAT_SINGLE_SCALAR_SYMMETRY(C, std::complex<float>, SYM) \\\n   TAT_SINGLE_SCALAR_SYMMETRY(Z, std::complex<double>, SYM)", "   TAT_SINGLE_SCALAR_SYMMETRY(Z, std::complex<float>, SYM) \\\n   TAT_SINGLE_SCALAR_SYMMETRY(C, std::complex<double>, SYM)", 1),
 ("readonly", F, '.def_readonly("z2", &FermiZ2Symmetry::z2)', '.def_readonly("z2", &FermiZ2Symmetry::fermi)', 1),
 ("conj-copy", F, '.def("conjugate", &T::conjugate,', '.def("conjugate", &T::copy,', 1),
 # quiet
 ("svd-named", [(F, '''                     auto result = tensor.svd(free_name_set_u, common_name_u, common_name_v, cut);
                     return py::make_tuple(std::move(result.U), std::move(result.S), std::move(result.V));''', '''                     auto [u, s, v] = tensor.svd(free_name_set_u, common_name_u, common_name_v, cut);
                     return py::make_tuple(std::move(u), std::move(s), std::move(v));'''),
   (F, "return tensor.multiple(s, name, direction, division);", "const auto& edge_name = name;\n                     return tensor.multiple(s, edge_name, direction, division);"),
   (F, '''                  [](const T& tensor, const T& other) { return tensor.contract_all_edge(other); },''', '''                  py::overload_cast<const T&>(&T::contract_all_edge, py::const_),'''),
   (F, '''                    return tensor.edge_rename(dictionary);''', '''                    auto result = tensor.edge_rename(dictionary);
                    return result;'''),
   (F, '''                  "zero", [](T& tensor) -> T& { return tensor.zero(); },''', '''                  "zero", &zero_of<T>,'''),
   (F, '''   template<typename ScalarType, typename Symmetry>
   void declare_tensor(''', '''   template<typename T>
   T& zero_of(T& tensor) {
      return tensor.zero();
   }
   template<typename T, typename S>
   auto qr_of(const T& tensor, char direction, const S& names, const DefaultName& q, const DefaultName& r) {
      return tensor.qr(direction, names, q, r);
   }
   template<typename ScalarType, typename Symmetry>
   void declare_tensor('''),
   (F, "auto result = tensor.qr(free_name_direction, free_name_set, common_name_q, common_name_r);", "auto result = qr_of(tensor, free_name_direction, free_name_set, common_name_q, common_name_r);"),
   (F, '''                  if (i == rank - 1) {
                     leadings[i] = sizeof(ScalarType);
                  } else {
                     leadings[i] = leadings[i + 1] * dimensions[i + 1];
                  }''', '''                  leadings[i] = i == rank - 1 ? sizeof(ScalarType) : leadings[i + 1] * dimensions[i + 1];'''),
  ], 0, 0, 0),
 ("order-quiet", [(F, '''            .def("copy", &T::copy, "Deep copy a tensor")
            .def("same_shape", &T::same_shape, "Create a tensor with same shape")
''', '''            .def("same_shape", [](const T& self) { return self.same_shape(); }, "Create a tensor with same shape")
            .def("copy", &T::copy, "Deep copy a tensor")
'''), (F, "return py::cast(tensor.template to<double>(), py::return_value_policy::move);", "auto converted = tensor.template to<double>();\n                        return py::cast(std::move(converted), py::return_value_policy::move);")], 0, 0, 0),
]
M = [m for m in M if m[0] != "to-order"]
M += [
 ("stride-cond", F, "real_leadings[i] = leadings[j];", "real_leadings[i] = leadings[rank == 3 && j == 0 ? i : j];", 1),
 ("shrink-cond", F, '''                 &T::template shrink<std::map<DefaultName, typename T::EdgePoint>>,
''', '''                 [](const T& tensor, const std::map<DefaultName, typename T::EdgePoint>& configure, const DefaultName& new_name, Arrow arrow) {
                    return tensor.shrink(configure, new_name, new_name == DefaultName(",No_New_Name") ? arrow : Arrow(false));
                 },
''', 1),
 ("multiple-path", F, "return tensor.multiple(s, name, direction, division);", "if (direction == 'u') {\n return tensor.multiple(s, name, direction);\n }\n return tensor.multiple(s, name, direction, division);", 1),
 ("quiet2", [(F, "return tensor.multiple(s, name, direction, division);", "if (division) {\n return tensor.multiple(s, name, direction, true);\n }\n return tensor.multiple(s, name, direction);"),
   (F, "                  real_dimensions[i] = dimensions[j];\n                  real_leadings[i] = leadings[j];", "                  const auto k = j;\n                  real_leadings[i] = leadings[k];\n                  real_dimensions[i] = dimensions[j];"),
   (F, '''                 &T::template shrink<std::map<DefaultName, typename T::EdgePoint>>,
''', '''                 [](const T& tensor, const std::map<DefaultName, typename T::EdgePoint>& configure, const DefaultName& new_name, Arrow arrow) {
                    return tensor.shrink(configure, new_name, arrow);
                 },
'''),
   (F, '''                  for (auto i = 0; i < rank; i++) {
                  dimensions[i] = tensor.core->edges[i].map.at(b.position[tensor.names[i]]);''', '''                  for (Rank i = 0; i < rank; ++i) {
                  const auto& edge = tensor.core->edges[i];
                  dimensions[i] = edge.map.at(b.position[tensor.names[i]]);''') if False else (F, "dimensions[i] = tensor.core->edges[i].map.at(b.position[tensor.names[i]]);", "const auto& edge = tensor.core->edges[i];\n                  const auto& edge_name = tensor.names[i];\n                  dimensions[i] = edge.map.at(b.position[edge_name]);"),
  ], 0, 0, 0),
 ("quiet3", [(F, '''                  [](T& tensor, ScalarType first, ScalarType step) -> T& { return tensor.test(first, step); },''', '''                  [](T& self, const ScalarType first, const ScalarType step) -> T& {
                     self.test(first, step);
                     return self;
                  },'''),
   (F, '''                           std::array<std::set<DefaultName>, 4>{
                                 std::move(parity_exclude_name_split_set),
                                 std::move(parity_exclude_name_reverse_set),
                                 std::move(parity_exclude_name_reverse_before_merge_set),
                                 std::move(parity_exclude_name_merge_set)},''', '''                           parity_exclude,'''),
   (F, '''                     return tensor.edge_operator(
                           rename_map,''', '''                     auto parity_exclude = std::array<std::set<DefaultName>, 4>{
                           std::move(parity_exclude_name_split_set),
                           std::move(parity_exclude_name_reverse_set),
                           std::move(parity_exclude_name_reverse_before_merge_set),
                           std::move(parity_exclude_name_merge_set)};
                     return tensor.edge_operator(
                           rename_map,'''),
   (F, '''                        auto distribution = std::uniform_real_distribution<real_base_t<ScalarType>>(min, max);
                        return tensor.set([&distribution]() { return distribution(random_engine); });''', '''                        std::uniform_real_distribution<real_base_t<ScalarType>> uniform{min, max};
                        return tensor.set([&]() { return uniform(random_engine); });'''),
   (F, '''                     if (contain("float32")) {
                        return py::cast(tensor.template to<float>(), py::return_value_policy::move);
                     } else if (contain("complex32")) {''', '''                     if (contain("float32")) {
                        return py::cast(tensor.template to<float>(), py::return_value_policy::move);
                     }
                     if (contain("complex32")) {'''),
   (F, '''                  "load",
                  [](T& tensor, const py::bytes& bytes) -> T& { return tensor.load(std::string(bytes)); },''', '''                  "load",
                  [](T& tensor, const py::bytes& bytes) -> T& {
                     const auto text = std::string(bytes);
                     return tensor.load(text);
                  },'''),
   (F, '''                     auto result = tensor.qr(free_name_direction, free_name_set, common_name_q, common_name_r);
                     return py::make_tuple(std::move(result.Q), std::move(result.R));''', '''                     auto [q, r] = tensor.qr(free_name_direction, free_name_set, common_name_q, common_name_r);
                     auto tuple = py::make_tuple(std::move(q), std::move(r));
                     return tuple;'''),
  ], 0, 0, 0),
]
