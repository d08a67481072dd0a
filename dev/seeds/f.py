S = [
 dict(id="C20-counter-after-load", property="C20", check="c20_names.py",
  edits=[("include/TAT/io.hpp", '''      dataset.names_total_index = dataset.id_to_name.size();
      dataset.name_to_id.clear();
      for (auto i = 0; i < dataset.names_total_index; i++) {
         dataset.name_to_id[dataset.id_to_name[i]] = i;
      }
''', '''      dataset.name_to_id.clear();
      fast_name_dataset_t::FastNameId index = 0;
      for (const auto& name : dataset.id_to_name) {
         dataset.name_to_id[name] = index++;
      }
''')],
  needs="loading a stored table of names that is longer or shorter than the present one, and then creating a new name",
  breaks="the new name gets a number that is not its place in the list",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   auto before = TAT::dump_fast_name_dataset();
   for (int i = 0; i < 5; i++) TAT::FastName("extra" + std::to_string(i));
   TAT::load_fast_name_dataset(before);
   TAT::FastName a("fresh one"), b("fresh two");
   return TAT::fast_name_dataset.id_to_name.size() > (size_t)b.id && (const std::string&)a == "fresh one" && (const std::string&)b == "fresh two" ? 0 : 1;
}
'''),
 dict(id="C20-ordering", property="C20", check="c20_names.py",
  edits=[("include/TAT/name.hpp", "TAT_DEFINE_NAME_OPERATOR(operator>=, name_1.id >= name_2.id)", "TAT_DEFINE_NAME_OPERATOR(operator>=, name_2 < name_1 || name_1.id > name_2.id)"),
         ("include/TAT/name.hpp", "inline bool OP(const FastName& name_1, const FastName& name_2) { \\\n", "inline bool operator<(const FastName& name_1, const FastName& name_2);\n   inline bool OP(const FastName& name_1, const FastName& name_2) { \\\n")],
  needs="comparing a name with itself by >=",
  breaks="a name is not >= itself: the order of names is not reflexive",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   TAT::FastName a("A"), b("B"), c("A");
   return a >= c && b >= a && !(a >= b) ? 0 : 1;
}
'''),
]
S[1]["edits"] = [("include/TAT/name.hpp", "TAT_DEFINE_NAME_OPERATOR(operator>=, name_1.id >= name_2.id)", "TAT_DEFINE_NAME_OPERATOR(operator>=, name_1.id - name_2.id > 0)")]
