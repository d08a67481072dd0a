S = [
 dict(id="C16-index-kept-on-load", property="C16", check="c16_labels.py",
  edits=[("include/TAT/io.hpp", '''      in > names;
      name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);
''', '''      const Rank old_rank = names.size();
      in > names;
      if (names.size() != old_rank || old_rank > 2) {
         // the index of a matrix that is read again does not change
         name_to_index = construct_name_to_index<std::map<Name, Rank>>(names);
      }
''')],
  needs="loading a stored tensor of rank 2 into a tensor of rank 2 with other names",
  breaks="the name index belongs to the old names: lookups by name fail or find another edge",
  cpp='''#include <TAT/TAT.hpp>
using T = TAT::Tensor<double>;
int main() {
   auto a = T({"A", "B"}, {2, 3}).test();
   auto b = T({"B", "A"}, {2, 3}).test();
   b.load(a.dump());
   return b.names[b.name_to_index.at("A")] == TAT::FastName("A") && b.names[b.name_to_index.at("B")] == TAT::FastName("B") ? 0 : 1;
}
'''),
 dict(id="C16-merge-only-check", property="C16", check="c16_labels.py",
  edits=[("include/TAT/edge_operator.hpp", '''      check_valid_name(result.names, result.core->edges.size());
''', '''      if (!merge_map.empty() || rank_after_merge != rank_before_split) {
         check_valid_name(result.names, result.core->edges.size());
      }
''')],
  needs="an edge operation that splits one edge into one edge with a name the tensor has already",
  breaks="the result has two edges with the same name",
  cpp='''#include <TAT/TAT.hpp>
using T = TAT::Tensor<double>;
int main() {
   auto a = T({"A", "B"}, {2, 3}).test();
   try {
      auto b = a.split_edge(std::map<TAT::FastName, std::vector<std::tuple<TAT::FastName, TAT::BoseEdge<TAT::NoSymmetry>>>>{{"A", {{"B", 2}}}});
      return b.names.size() == b.name_to_index.size() ? 0 : 1;
   } catch (const std::exception&) {
      return 0;
   }
}
'''),
]
