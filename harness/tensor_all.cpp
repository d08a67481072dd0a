// Instantiates the whole public tensor API for the (scalar, symmetry) pairs
// selected by -D flags.  Never executed: only parsed by the extractor.
#include <sstream>
#include <TAT/TAT.hpp>

using namespace TAT;

template<typename Scalar, typename Symmetry, typename Name>
struct harness_use {
   using T = Tensor<Scalar, Symmetry, Name>;
   using E = Edge<Symmetry>;

   static void construct(std::vector<Name> names, std::vector<E> edges) {
      T a(names, edges);
      T b(names, edges, true);
      T c(Scalar(1));
      T d = T::one(Scalar(2), names, std::vector<Symmetry>{}, std::vector<Arrow>{});
      Scalar s(d);
      (void)s;
      T e = a;
      T f = std::move(e);
      e = f;
      f = std::move(b);
      (void)a.copy();
      (void)a.is_valid();
      (void)a.shape();
      (void)a.same_shape();
   }
   static void expand_shrink(const T& a, const std::map<Name, typename T::EdgePoint>& sh, const std::map<Name, typename T::EdgePointWithArrow>& ex, Name n) {
      (void)a.expand(ex);
      (void)a.expand(ex, n);
      (void)a.shrink(sh);
      (void)a.shrink(sh, n, true);
      (void)a.slice(pmr::map<Name, typename T::EdgePoint>{}, n, true);
   }
   static void elementwise(T& a, const T& b) {
      (void)b.map([](Scalar x) { return x; });
      a.transform([](Scalar x) { return x; });
      T(a).transform([](Scalar x) { return x; });
      a.set([]() { return Scalar(0); });
      T(a).set([]() { return Scalar(0); });
      a.zero();
      T(a).zero();
      a.test(1, 2);
      T(a).test(1, 2);
   }
   static void access(T& a, const T& b, const std::map<Name, Symmetry>& p, const std::map<Name, typename T::EdgePoint>& q) {
      (void)a.block(p);
      (void)b.block(p);
      (void)b.const_block(p);
      (void)a.at(q);
      (void)b.at(q);
      (void)b.const_at(q);
      (void)b.template norm<-1>();
      (void)b.template norm<0>();
      (void)b.template norm<1>();
      (void)b.template norm<2>();
      (void)b.template norm<3>();
      (void)b.template norm<4>();
   }
   static void convert(const T& b) {
      (void)b.template to<float>();
      (void)b.template to<double>();
      (void)b.template to<std::complex<float>>();
      (void)b.template to<std::complex<double>>();
   }
   static void edges(
         const T& b,
         const std::map<Name, Name>& r,
         const std::map<Name, std::vector<std::tuple<Name, BoseEdge<Symmetry>>>>& s,
         const std::set<Name>& v,
         const std::map<Name, std::vector<Name>>& m,
         const std::vector<Name>& n,
         const std::map<Name, std::map<Symmetry, Size>>& c) {
      (void)b.edge_operator(r, s, v, m, n);
      (void)b.edge_operator(r, s, v, m, n, true, std::array<std::set<Name>, 4>{{v, v, v, v}}, c);
      (void)b.edge_rename(r);
      (void)b.transpose(n);
      (void)b.reverse_edge(v);
      (void)b.reverse_edge(v, true, std::set<Name>(v));
      (void)b.merge_edge(m);
      (void)b.merge_edge(m, true, std::set<Name>(v), std::set<Name>(v));
      (void)b.split_edge(s);
      (void)b.split_edge(s, true, std::set<Name>(v));
   }
   static void algebra(const T& a, const T& b, std::set<std::tuple<Name, Name>> p) {
      (void)a.contract(b, std::set<std::tuple<Name, Name>>(p));
      (void)T::contract(a, b, std::set<std::tuple<Name, Name>>(p));
      (void)TAT::contract(a, b, std::set<std::tuple<Name, Name>>(p));
      (void)a.contract_all_edge(b);
      (void)a.contract_all_edge();
      (void)a.identity(p);
      (void)a.exponential(p, 3);
      (void)a.conjugate();
      (void)a.trace(p);
      (void)(a + b);
      (void)(a - b);
      (void)(a * b);
      (void)(a / b);
      (void)(a + Scalar(1));
      (void)(a - Scalar(1));
      (void)(a * Scalar(1));
      (void)(a / Scalar(1));
      (void)(Scalar(1) + a);
      (void)(Scalar(1) - a);
      (void)(Scalar(1) * a);
      (void)(Scalar(1) / a);
      T c = a;
      c += b;
      c -= b;
      c *= b;
      c /= b;
      c += Scalar(1);
      c -= Scalar(1);
      c *= Scalar(1);
      c /= Scalar(1);
   }
   template<typename Other>
   static void mixed(const T& a, const Tensor<Other, Symmetry, Name>& b, std::set<std::tuple<Name, Name>> p) {
      (void)a.contract(b, std::set<std::tuple<Name, Name>>(p));
      (void)(a + b);
      (void)(a - b);
      (void)(a * b);
      (void)(a / b);
      (void)(a + Other(1));
      (void)(Other(1) + a);
   }
   static void decompose(const T& a, const std::set<Name>& s, const Name& n1, const Name& n2, const Name& n3, const Name& n4) {
      auto r = a.svd(s, n1, n2, Size(3), n3, n4);
      (void)r.U.multiple(r.S, n1, 'U', true);
      r.S += real_base_t<Scalar>(1);
      r.S -= real_base_t<Scalar>(1);
      r.S *= real_base_t<Scalar>(1);
      r.S /= real_base_t<Scalar>(1);
      auto q = a.qr('r', s, n1, n2);
      (void)q.Q;
   }
   static void io(T& a, const T& b, std::istream& in, std::ostream& out) {
      out << b;
      in >> a;
      out < b;
      in > a;
      out << a.shape();
      b.meta_put(out);
      b.data_put(out);
      a.meta_get(in);
      a.data_get(in);
      (void)b.show();
      (void)b.dump();
      a.load(b.dump());
      T(a).load(b.dump());
   }
   static void io_singular(Singular<Scalar, Symmetry, Name>& a, const Singular<Scalar, Symmetry, Name>& b, std::istream& in, std::ostream& out) {
      out << b;
      in >> a;
      out < b;
      in > a;
      (void)b.show();
      (void)b.dump();
      a.load(b.dump());
      Singular<Scalar, Symmetry, Name>(a).load(b.dump());
      (void)b.template norm<1>();
      (void)b.template norm<-1>();
      (void)b.copy();
   }
#ifdef TAT_USE_MPI
   static void parallel(T& a, const T& b) {
      TAT::mpi.send(b, 1);
      a = TAT::mpi.receive<T>(0);
      (void)TAT::mpi.send_receive(b, 0, 1);
      (void)TAT::mpi.broadcast(b, 0);
      (void)TAT::mpi.reduce(b, 0, [](const T& x, const T& y) { return x + y; });
      TAT::mpi.barrier();
      b.send(1);
      a = T::receive(0);
      (void)b.send_receive(0, 1);
      (void)b.broadcast(0);
      (void)b.reduce(0, [](const T& x, const T& y) { return x + y; });
      (void)b.summary(0);
      T::barrier();
   }
#endif
   static void all() {
      auto use = [](auto...) {};
      use(&construct, &expand_shrink, &elementwise, &access, &convert, &edges, &algebra, &decompose, &io, &io_singular);
      using R = real_base_t<Scalar>;
      use(&mixed<R>, &mixed<std::complex<R>>);
#ifdef TAT_USE_MPI
      use(&parallel);
#endif
   }
};

inline void harness_misc(std::istream& in, std::ostream& out) {
   load_fast_name_dataset(dump_fast_name_dataset());
   out < fast_name_dataset;
   in > fast_name_dataset;
   TAT_log("x");
   TAT_warning("x");
   TAT_nothing("x");
#ifdef TAT_USE_MPI
   mpi.out_one(1) << "x";
   mpi.log_one() << "x";
   mpi.err_one() << "x";
   mpi.out_rank() << "x";
   mpi.log_rank() << "x";
   mpi.err_rank() << "x";
#endif
}

#ifndef HARNESS_NAME
#define HARNESS_NAME DefaultName
#endif
#define INST(SCALAR, SYM) template struct TAT::Tensor<SCALAR, SYM, HARNESS_NAME>; template struct TAT::Singular<SCALAR, SYM, HARNESS_NAME>; template struct harness_use<SCALAR, SYM, HARNESS_NAME>;
using cfloat = std::complex<float>;
using cdouble = std::complex<double>;
HARNESS_INST
