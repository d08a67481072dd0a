CHECK = "c11_lazy.py"
L = "include/lazy.hpp"
M = [
 ("base", L, "         release();\n         for", "         release(); ;\n         for", 0),
 ("set-nounset", L, "      void set(const Type& v) {\n         unset();\n", "      void set(const Type& v) {\n", 1),
 ("set-cond", L, "      void set(Type&& v) {\n         unset();\n", "      void set(Type&& v) {\n         if (value) { unset(); }\n", 1),
 ("load-nounset", L, "      void load(std::any v) override {\n         unset();\n         value = std::any_cast<std::shared_ptr<const RealType>>(v);", "      void load(std::any v) override {\n         value = std::any_cast<std::shared_ptr<const RealType>>(v);", 1),
 ("break", L, "               ptr->unset();\n               ++iter;\n", "               ptr->unset();\n               ++iter;\n               break;\n", 1),
 ("release-only", L, "               ptr->unset();\n", "               ptr->release();\n", 1),
 ("erase-after", L, "               ptr->unset();\n               ++iter;", "               ptr->unset();\n               iter = downstream.erase(iter);", 1),
 ("register-not-path", L, "      auto result = std::make_shared<path<Type>>(std::move(f));\n      (args->downstream.push_back(result->shared_from_this()), ...);", "      auto result = std::make_shared<path<Type>>(std::move(f));\n", 1),
 ("graph-notadded", L, "      result->set(std::forward<Type>(v));\n      current_graph().add(result);\n", "      result->set(std::forward<Type>(v));\n", 1),
 ("node-release", L, "      std::shared_ptr<const RealType> value;\n\n      void release() override {\n         value.reset();\n      }", "      std::shared_ptr<const RealType> value;\n\n      void release() override {\n      }", 1),
 ("skip-if-expensive", L, "            if (auto ptr = iter->lock(); ptr) {\n               ptr->unset();", "            if (auto ptr = iter->lock(); ptr) {\n               if (ptr.use_count() > 1) ptr->unset();", 1),
 ("snapshot-skip", L, "               result.emplace_back(*iter, ptr->dump());\n", "               if (auto d = ptr->dump(); d.has_value()) result.emplace_back(*iter, d);\n", 1),
 ("anytype", L, "         return std::any(value);\n      }\n\n      using", "         return std::any(std::shared_ptr<Type>(new Type(*value)));\n      }\n\n      using", 1),
 ("first-arg-only", L, "auto result = std::make_shared<node<Type>>(std::move(f));\n      (args->downstream.push_back(result->shared_from_this()), ...);", "auto result = std::make_shared<node<Type>>(std::move(f));\n bool first = true;\n      ((first ? (args->downstream.push_back(result->shared_from_this()), first = false) : false), ...);", 1),
 ("skip-after-dead", L, "               iter = downstream.erase(iter);\n", "               iter = downstream.erase(iter);\n               if (iter != downstream.end()) {\n                  ++iter;\n               }\n", 1),
 ("r-erasepp", L, "               iter = downstream.erase(iter);\n", "               downstream.erase(iter++);\n", 0),
 ("r-forinc", L, "         for (auto iter = downstream.begin(); iter != downstream.end();) {\n            if (auto ptr = iter->lock(); ptr) {\n               ptr->unset();\n               ++iter;\n            } else {\n               iter = downstream.erase(iter);\n            }\n         }", "         downstream.remove_if([](const auto& w) { return w.expired(); });\n         for (auto iter = downstream.begin(); iter != downstream.end(); ++iter) {\n            if (auto ptr = iter->lock(); ptr) {\n               ptr->unset();\n            }\n         }", 0),
 ("r-rangefor", L, "         for (auto iter = downstream.begin(); iter != downstream.end();) {\n            if (auto ptr = iter->lock(); ptr) {\n               ptr->unset();\n               ++iter;\n            } else {\n               iter = downstream.erase(iter);\n            }\n         }", "         for (auto& weak : downstream) {\n            if (auto ptr = weak.lock()) {\n               ptr->unset();\n            }\n         }", 0),
 ("r-negated", L, "            if (auto ptr = iter->lock(); ptr) {\n               ptr->unset();\n               ++iter;\n            } else {\n               iter = downstream.erase(iter);\n            }", "            auto ptr = iter->lock();\n            if (ptr == nullptr) {\n               iter = downstream.erase(iter);\n               continue;\n            }\n            ptr->unset();\n            ++iter;", 0),
 ("r-helper", [(L, "      void set(Type&& v) {\n         unset();\n         value.reset(new Type(std::move(v)));\n      }\n      void set(const Type& v) {\n         unset();\n         value.reset(new Type(v));\n      }\n", "      void replace(std::shared_ptr<const Type> n) { unset(); value = std::move(n); }\n      void set(Type&& v) {\n         replace(std::make_shared<const Type>(std::move(v)));\n      }\n      void set(const Type& v) {\n         replace(std::make_shared<const Type>(v));\n      }\n")], 0, 0, 0),
 ("r-get", L, "         if (!bool(value)) {\n            set(function());\n         }\n         return *value;", "         if (value != nullptr) {\n            return *value;\n         }\n         set(function());\n         return *value;", 0),
 ("r-reg-helper", [(L, "   template<typename Function, typename... Args>\n   auto Node(", "   template<typename A, typename R>\n   void depend(A& arg, const R& result) {\n      arg->downstream.push_back(result->shared_from_this());\n   }\n   template<typename Function, typename... Args>\n   auto Node("), (L, "(args->downstream.push_back(result->shared_from_this()), ...);", "(depend(args, result), ...);")], 0, 0, 0),
 ("r-release-nullptr", L, "      void release() override {\n         value.reset();\n", "      void release() override {\n         value = nullptr;\n", 0),
 ("r-while", L, "         for (auto iter = downstream.begin(); iter != downstream.end();) {", "         auto iter = downstream.begin();\n         while (iter != downstream.end()) {", 0),
]
