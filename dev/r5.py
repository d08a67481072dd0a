# refactorings of PyTAT.cpp that keep the behaviour: strides in a helper, conversion helper, distributions in a helper, temporaries
import re, sys
P = "PyTAT/PyTAT.cpp"
def refactor(root):
    s = open(root + "/" + P).read()
    old = """               for (auto i = rank; i-- > 0;) {
                  if (i == rank - 1) {
                     leadings[i] = sizeof(ScalarType);
                  } else {
                     leadings[i] = leadings[i + 1] * dimensions[i + 1];
                  }
               }
"""
    assert s.count(old) == 2
    which = sys.argv[2] if len(sys.argv) > 2 else "helper"
    if which == "helper":
        s = s.replace(old, "               leadings = row_major_strides<ScalarType>(dimensions);\n")
        helper = """   template<typename ScalarType>
   std::vector<Size> row_major_strides(const std::vector<Size>& dimensions) {
      auto leadings = std::vector<Size>(dimensions.size());
      Size stride = sizeof(ScalarType);
      for (Size i = dimensions.size(); i-- > 0;) {
         leadings[i] = stride;
         stride *= dimensions[i];
      }
      return leadings;
   }

"""
    else:
        s = s.replace(old, """               Size stride = sizeof(ScalarType);
               for (int i = int(rank) - 1; i >= 0; --i) {
                  leadings[i] = stride;
                  stride *= dimensions[i];
               }
""")
        helper = ""
    # conversion of element maps
    old = """                                auto symmetry_map = std::map<Symmetry, Size>();
                                for (const auto& [key, value] : element_map) {
                                   if constexpr (IsTuple) {
                                      symmetry_map[std::make_from_tuple<Symmetry>(key)] = value;
                                   } else {
                                      symmetry_map[Symmetry(key)] = value;
                                   }
                                }
                                return EdgeType<Symmetry>(std::move(symmetry_map));
"""
    assert old in s
    s = s.replace(old, "                                return EdgeType<Symmetry>(to_symmetry_map<Symmetry, Element, IsTuple>(element_map));\n")
    old = """                                   auto symmetry_map = std::map<Symmetry, Size>();
                                   for (const auto& [key, value] : element_map) {
                                      if constexpr (IsTuple) {
                                         symmetry_map[std::make_from_tuple<Symmetry>(key)] = value;
                                      } else {
                                         symmetry_map[Symmetry(key)] = value;
                                      }
                                   }
                                   return EdgeType<Symmetry>(arrow, std::move(symmetry_map));
"""
    assert old in s
    s = s.replace(old, "                                   return EdgeType<Symmetry>(arrow, to_symmetry_map<Symmetry, Element, IsTuple>(element_map));\n")
    old = """                                         auto symmetry_map = std::map<Symmetry, Size>();
                                         for (const auto& [key, value] : element_map) {
                                            if constexpr (IsTuple) {
                                               symmetry_map[std::make_from_tuple<Symmetry>(key)] = value;
                                            } else {
                                               symmetry_map[Symmetry(key)] = value;
                                            }
                                         }
"""
    assert old in s
    s = s.replace(old, "                                         auto symmetry_map = to_symmetry_map<Symmetry, Element, IsTuple>(element_map);\n")
    helper += """   template<typename Symmetry, typename Element, bool IsTuple>
   std::map<Symmetry, Size> to_symmetry_map(const std::map<Element, Size>& element_map) {
      auto symmetry_map = std::map<Symmetry, Size>();
      for (const auto& [key, value] : element_map) {
         if constexpr (IsTuple) {
            symmetry_map[std::make_from_tuple<Symmetry>(key)] = value;
         } else {
            symmetry_map[Symmetry(key)] = value;
         }
      }
      return symmetry_map;
   }

   template<template<typename> class Distribution, typename T, typename ScalarType>
   T& fill_with(T& tensor, ScalarType first, ScalarType second) {
      if constexpr (is_complex_v<ScalarType>) {
         auto distribution_real = Distribution<real_base_t<ScalarType>>(first.real(), second.real());
         auto distribution_imag = Distribution<real_base_t<ScalarType>>(first.imag(), second.imag());
         return tensor.set([&]() -> ScalarType {
            const auto real = distribution_real(random_engine);
            const auto imag = distribution_imag(random_engine);
            return {real, imag};
         });
      } else {
         auto distribution = Distribution<real_base_t<ScalarType>>(first, second);
         return tensor.set([&]() { return distribution(random_engine); });
      }
   }

   template<typename T>
   py::object convert_scalar(const T& tensor, const std::string& name) {
      const auto contain = [&name](const char* other) { return name.find(other) != std::string::npos; };
      if (contain("float32")) {
         return py::cast(tensor.template to<float>(), py::return_value_policy::move);
      }
      if (contain("complex32")) {
         return py::cast(tensor.template to<std::complex<float>>(), py::return_value_policy::move);
      }
      if (contain("float")) {
         return py::cast(tensor.template to<double>(), py::return_value_policy::move);
      }
      if (contain("complex")) {
         return py::cast(tensor.template to<std::complex<double>>(), py::return_value_policy::move);
      }
      if (contain("S")) {
         return py::cast(tensor.template to<float>(), py::return_value_policy::move);
      }
      if (contain("D")) {
         return py::cast(tensor.template to<double>(), py::return_value_policy::move);
      }
      if (contain("C")) {
         return py::cast(tensor.template to<std::complex<float>>(), py::return_value_policy::move);
      }
      if (contain("Z")) {
         return py::cast(tensor.template to<std::complex<double>>(), py::return_value_policy::move);
      }
      throw std::runtime_error("Invalid scalar type in type conversion");
   }

"""
    for nm, d, a, b in (("rand", "uniform_real_distribution", "min", "max"), ("randn", "normal_distribution", "mean", "stddev")):
        i = s.index('[](T& tensor, ScalarType %s, ScalarType %s) -> T& {' % (a, b))
        j = s.index('                  py::arg("%s")' % a, i)
        s = s[:i] + '[](T& tensor, ScalarType %s, ScalarType %s) -> T& { return fill_with<std::%s>(tensor, %s, %s); },\n' % (a, b, d, a, b) + s[j:]
    i = s.index('[](const T& tensor, const py::object& object) -> py::object {')
    j = s.index('                  "Convert to other scalar type tensor"', i)
    s = s[:i] + '[](const T& tensor, const py::object& object) { return convert_scalar(tensor, std::string(py::str(object))); },\n' + s[j:]
    def rep(o, n):
        nonlocal s
        assert o in s, o
        s = s.replace(o, n)
    rep("""                     return tensor_1.contract(tensor_2, std::move(contract_names));
""", """                     auto product = tensor_1.contract(tensor_2, std::move(contract_names));
                     return product;
""")
    rep("""                     auto result = tensor.svd(free_name_set_u, common_name_u, common_name_v, cut);
                     return py::make_tuple(std::move(result.U), std::move(result.S), std::move(result.V));
""", """                     auto [u, s, v] = tensor.svd(free_name_set_u, common_name_u, common_name_v, cut);
                     return py::make_tuple(std::move(u), std::move(s), std::move(v));
""")
    rep("""                     tensor.at(position) = value;
""", """                     auto& element = tensor.at(position);
                     element = value;
""")
    rep('[](T& tensor) -> T& { return tensor.zero(); }', '[](T& tensor) -> T& {\n tensor.zero();\n return tensor;\n }')
    rep("""                     return tensor.edge_operator(
                           rename_map,""", """                     auto excluded = std::array<std::set<DefaultName>, 4>{
                                 std::move(parity_exclude_name_split_set),
                                 std::move(parity_exclude_name_reverse_set),
                                 std::move(parity_exclude_name_reverse_before_merge_set),
                                 std::move(parity_exclude_name_merge_set)};
                     return tensor.edge_operator(
                           rename_map,""")
    rep("""                           std::array<std::set<DefaultName>, 4>{
                                 std::move(parity_exclude_name_split_set),
                                 std::move(parity_exclude_name_reverse_set),
                                 std::move(parity_exclude_name_reverse_before_merge_set),
                                 std::move(parity_exclude_name_merge_set)},
""", "                           excluded,\n")
    rep("""                  auto j = tensor.name_to_index.at(std::get<0>(b.position[i]));
""", """                  const auto& [name, symmetry] = b.position[i];
                  const Rank j = tensor.name_to_index.find(name)->second;
""")
    rep("""               for (const auto& [name, symmetry] : b.position) {
                  position_map[name] = symmetry;
               }
""", """               for (const auto& item : b.position) {
                  position_map[std::get<0>(item)] = std::get<1>(item);
               }
""")
    rep("""            .def("conjugate", &T::conjugate, "Get the conjugate Tensor")
""", """            .def(
                  "conjugate", [](const T& tensor) { return tensor.conjugate(); }, "Get the conjugate Tensor")
""")
    rep("""                       return tensor.show();
                    } else {
                       return std::string("{}");
                    }
""", """                       return tensor.show();
                    }
                    return std::string("{}");
""")
    i = s.index("   template<", s.index("struct blocks_of_tensor"))
    i = s.rindex("   template<", 0, s.index("struct blocks_of_tensor"))
    s = s[:i] + helper + s[i:]
    open(root + "/" + P, "w").write(s)
refactor(sys.argv[1])
