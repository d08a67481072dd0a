SHPY = 'PYTHONPATH="$PWD/_build" timeout 120 python3 "$here/demo.py"\n'
F = "PyTAT/PyTAT.cpp"
S = [
 dict(id="C14-parity-sets", property="C14", check="c14_python.py",
  edits=[(F, '''std::move(parity_exclude_name_reverse_set),
                                 std::move(parity_exclude_name_reverse_before_merge_set),''', '''std::move(parity_exclude_name_reverse_before_merge_set),
                                 std::move(parity_exclude_name_reverse_set),''')],
  needs="edge_operator from Python on a fermionic tensor that reverses an edge whose parity is excluded",
  breaks="the exclusion is applied to the reversal before merging instead: signs of odd sectors are wrong",
  sh=SHPY, files={"demo.py": '''import sys
import TAT
E = TAT._internal.Edge.Fermi
T = TAT.Tensor.DFermi
t = T(["A", "B"], [E({0: 1, 1: 1}), E({0: 1, -1: 1})]).test(1)
direct = t.reverse_edge({"A"}, True, {"A"})
general = t.edge_operator({}, {}, {"A"}, {}, ["A", "B"], True, set(), {"A"}, set(), set())
sys.exit(0 if (direct - general).norm_max() == 0 else 1)
'''}),
 dict(id="C14-ordered-strides", property="C14", check="c14_python.py",
  edits=[(F, '''                  auto j = tensor.name_to_index.at(std::get<0>(b.position[i]));
                  real_dimensions[i] = dimensions[j];
                  real_leadings[i] = leadings[j];''', '''                  auto j = tensor.name_to_index.at(std::get<0>(b.position[i]));
                  real_dimensions[i] = dimensions[j];
                  real_leadings[i] = leadings[rank == 3 && j == 0 ? i : j];''')],
  needs="a block of a tensor of three edges seen as an array in an order where its first edge is not first",
  breaks="two directions of the array have the same stride",
  sh=SHPY, files={"demo.py": '''import sys
import TAT
t = TAT.Tensor.DNo(["A", "B", "C"], [2, 2, 2]).test()
a = t.block[["C", "A", "B"]]
ok = all(a[k, i, j] == t[{"A": i, "B": j, "C": k}] for i in range(2) for j in range(2) for k in range(2))
sys.exit(0 if ok else 1)
'''}),
 dict(id="C14-division-ignored", property="C14", check="c14_python.py",
  edits=[(F, '''return tensor.multiple(s, name, direction, division);''', '''return tensor.multiple(s, name, direction);''')],
  needs="multiple called from Python with division=True",
  breaks="the tensor is multiplied by the singular values instead of divided",
  sh=SHPY, files={"demo.py": '''import sys
import TAT
t = TAT.Tensor.DNo(["A", "B"], [2, 2]).test(1)
t[{"A": 0, "B": 0}] = 5
u, s, v = t.svd({"A"}, "R", "L")
r = u.multiple(s, "R", "u").multiple(s, "R", "u", True)
sys.exit(0 if (u - r).norm_max() < 1e-9 else 1)
'''}),
 dict(id="C14-convert-order", property="C14", check="c14_python.py",
  edits=[(F, '''                     if (contain("float32")) {
                        return py::cast(tensor.template to<float>(), py::return_value_policy::move);
                     } else if (contain("complex32")) {
                        return py::cast(tensor.template to<std::complex<float>>(), py::return_value_policy::move);
                     } else if (contain("float")) {
                        return py::cast(tensor.template to<double>(), py::return_value_policy::move);
                     } else if (contain("complex")) {
                        return py::cast(tensor.template to<std::complex<double>>(), py::return_value_policy::move);
                     } else if (contain("S")) {''', '''                     if (contain("float32")) {
                        return py::cast(tensor.template to<float>(), py::return_value_policy::move);
                     } else if (contain("float")) {
                        return py::cast(tensor.template to<double>(), py::return_value_policy::move);
                     } else if (contain("complex")) {
                        return py::cast(tensor.template to<std::complex<double>>(), py::return_value_policy::move);
                     } else if (contain("complex32")) {
                        return py::cast(tensor.template to<std::complex<float>>(), py::return_value_policy::move);
                     } else if (contain("S")) {''')],
  needs="conversion to complex32 from Python",
  breaks="the tensor gets the double precision complex type",
  sh=SHPY, files={"demo.py": '''import sys
import TAT
t = TAT.Tensor.DNo(["A"], [2]).test(1)
sys.exit(0 if isinstance(t.to("complex32"), TAT.Tensor.CNo) else 1)
'''}),
 dict(id="C14-arrow-ignored", property="C14", check="c14_python.py",
  edits=[(F, '''            .def("shrink",
                 &T::template shrink<std::map<DefaultName, typename T::EdgePoint>>,
                 "Shrink Edge of tensor",''', '''            .def("shrink",
                 [](const T& tensor, const std::map<DefaultName, typename T::EdgePoint>& configure, const DefaultName& new_name, Arrow arrow) {
                    return tensor.shrink(configure, new_name, new_name == DefaultName(",No_New_Name") ? arrow : Arrow(false));
                 },
                 "Shrink Edge of tensor",''')],
  needs="shrink from Python of a fermionic tensor with a new edge of reversed arrow",
  breaks="the arrow of the new edge is not the requested one",
  sh=SHPY, files={"demo.py": '''import sys
import TAT
E = TAT._internal.Edge.Fermi
t = TAT.Tensor.DFermi(["A", "B"], [E({0: 1, 1: 1}), E({0: 1, -1: 1})]).test(1)
r = t.shrink({"A": (TAT._internal.Symmetry.Fermi(1), 0)}, "N", True)
sys.exit(0 if r.edge[r.name.index("N")].arrow else 1)
'''}),
]
