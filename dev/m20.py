CHECK = "c20_names.py"
N = "include/TAT/name.hpp"
OLD = '''         if (const auto position = fast_name_dataset.name_to_id.find(name); position == fast_name_dataset.name_to_id.end()) {
            id = fast_name_dataset.name_to_id[name] = fast_name_dataset.names_total_index++;
            fast_name_dataset.id_to_name.push_back(name);
         } else {
            id = position->second;
         }
'''
M = [
 ("preinc", N, "fast_name_dataset.names_total_index++;", "++fast_name_dataset.names_total_index;", 1),
 ("noinc", N, "fast_name_dataset.names_total_index++;", "fast_name_dataset.names_total_index;", 1),
 ("nopush", N, "            fast_name_dataset.id_to_name.push_back(name);\n", "", 1),
 ("always", N, OLD, '''         id = fast_name_dataset.name_to_id[name] = fast_name_dataset.names_total_index++;
            fast_name_dataset.id_to_name.push_back(name);
''', 1),
 ("emplace", N, OLD, '''         auto [it, inserted] = fast_name_dataset.name_to_id.try_emplace(name, fast_name_dataset.names_total_index);
         if (inserted) {
            fast_name_dataset.id_to_name.push_back(name);
            fast_name_dataset.names_total_index++;
         }
         id = it->second;
''', 0),
 ("emplace2", N, OLD, '''         const auto result = fast_name_dataset.name_to_id.emplace(name, fast_name_dataset.names_total_index);
         if (result.second) {
            fast_name_dataset.id_to_name.emplace_back(name);
            ++fast_name_dataset.names_total_index;
         }
         id = result.first->second;
''', 0),
 ("emplace-bad", N, OLD, '''         auto [it, inserted] = fast_name_dataset.name_to_id.try_emplace(name, fast_name_dataset.names_total_index++);
         if (inserted) {
            fast_name_dataset.id_to_name.push_back(name);
         }
         id = it->second;
''', 1),
 ("count", N, OLD, '''         auto& data = fast_name_dataset;
         if (data.name_to_id.count(name) == 0) {
            data.name_to_id[name] = int(data.id_to_name.size());
            data.id_to_name.push_back(name);
            data.names_total_index = data.id_to_name.size();
         }
         id = data.name_to_id.at(name);
''', 0),
 ("subscript", N, OLD, '''         auto& slot = fast_name_dataset.name_to_id[name];
         if (slot == 0 && !name.empty()) {
            slot = fast_name_dataset.names_total_index++;
            fast_name_dataset.id_to_name.push_back(name);
         }
         id = slot;
''', 0),
 ("swapped", N, OLD, OLD.replace("position == fast", "position != fast"), 1),
 ("helper", [(N, OLD, '''         id = fast_name_dataset.intern(name);
'''), (N, '''      std::vector<std::string> id_to_name = {""};
''', '''      std::vector<std::string> id_to_name = {""};
      FastNameId intern(const std::string& text) {
         const auto found = name_to_id.find(text);
         if (found != name_to_id.end()) {
            return found->second;
         }
         const auto result = names_total_index++;
         name_to_id.insert({text, result});
         id_to_name.push_back(text);
         return result;
      }
''')], "", "", 0),
 ("helper-bad", [(N, OLD, '''         id = fast_name_dataset.intern(name);
'''), (N, '''      std::vector<std::string> id_to_name = {""};
''', '''      std::vector<std::string> id_to_name = {""};
      FastNameId intern(const std::string& text) {
         const auto found = name_to_id.find(text);
         if (found != name_to_id.end()) {
            return found->second;
         }
         const auto result = names_total_index++;
         name_to_id.insert({text, names_total_index});
         id_to_name.push_back(text);
         return result;
      }
''')], "", "", 1),
 ("init2", N, "names_total_index = 1;", "names_total_index = 0;", 1),
 ("le", N, "TAT_DEFINE_NAME_OPERATOR(operator<=, name_1.id <= name_2.id)", "TAT_DEFINE_NAME_OPERATOR(operator<=, name_1.id < name_2.id)", 1),
 ("le-ok", N, "TAT_DEFINE_NAME_OPERATOR(operator<=, name_1.id <= name_2.id)", "TAT_DEFINE_NAME_OPERATOR(operator<=, !(name_2.id < name_1.id))", 0),
 ("gt-call", N, "TAT_DEFINE_NAME_OPERATOR(operator<=, name_1.id <= name_2.id)", "TAT_DEFINE_NAME_OPERATOR(operator<=, !(name_1 == name_2) && !(name_1 >= name_2))", 1),
 ("reserved", N, "TAT_DEFINE_DEFAULT_INTERNAL_NAME(Trace_2, 1)", "TAT_DEFINE_DEFAULT_INTERNAL_NAME(Trace_2, 0)", 1),
 ("plain", N, 'InternalName<FastName>::x = "," #x;', 'InternalName<FastName>::x = #x;', 1),
 ("reload", "include/TAT/io.hpp", "dataset.name_to_id[dataset.id_to_name[i]] = i;", "dataset.name_to_id[dataset.id_to_name[i]] = i + 1;", 1),
 ("reload1", "include/TAT/io.hpp", "for (auto i = 0; i < dataset.names_total_index; i++) {", "for (auto i = 1; i < dataset.names_total_index; i++) {", 1),
 ("reloadn", "include/TAT/io.hpp", "      dataset.names_total_index = dataset.id_to_name.size();\n", "      dataset.names_total_index = dataset.id_to_name.size() - 1;\n", 1),
 ("reloadnn", "include/TAT/io.hpp", "      dataset.names_total_index = dataset.id_to_name.size();\n", "", 1),
 ("reload-ok", "include/TAT/io.hpp", '''      for (auto i = 0; i < dataset.names_total_index; i++) {
         dataset.name_to_id[dataset.id_to_name[i]] = i;
      }
''', '''      fast_name_dataset_t::FastNameId index = 0;
      for (const auto& name : dataset.id_to_name) {
         dataset.name_to_id[name] = index++;
      }
''', 0),
 ("reload-ok2", "include/TAT/io.hpp", '''      for (auto i = 0; i < dataset.names_total_index; i++) {
         dataset.name_to_id[dataset.id_to_name[i]] = i;
      }
''', '''      for (auto i = 0; i < dataset.names_total_index; i++) {
         dataset.name_to_id.emplace(dataset.id_to_name[i], i);
      }
''', 0),
]
