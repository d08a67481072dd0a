// Instantiates the lazy evaluation graph.  Never executed: only parsed.
#include <lazy.hpp>
#include <string>
#include <vector>
void harness_lazy() {
   int one = 1;
   auto a = lazy::Root<int>();
   auto b = lazy::Root<int>(1);
   auto b2 = lazy::Root(one);
   auto s = lazy::Root<std::string>(std::string("x"));
   auto c = lazy::Path([](int x, int y) { return x + y; }, a, b);
   auto d = lazy::Node([](int x, int y) { return x * y; }, c, a);
   auto e = lazy::Node([](int x, const std::string& y, int z) { return y; }, d, s, c);
   auto f = lazy::Node([]() { return std::vector<int>(3); });
   auto g = lazy::Path([](const std::vector<int>& v) -> const int& { return v[0]; }, f);
   a->set(2);
   a->set(one);
   b->unset();
   (void)a->get();
   (void)c->get();
   (void)d->get();
   (void)e->get();
   (void)f->get();
   (void)g->get();
   lazy::Graph graph;
   lazy::use_graph(graph);
   lazy::use_graph();
   auto snap = lazy::current_graph().dump();
   lazy::current_graph().load(snap);
}
template struct lazy::root<int>;
template struct lazy::root<std::string>;
template struct lazy::node<int>;
template struct lazy::node<std::string>;
template struct lazy::path<int>;
template struct lazy::path<const int&>;
