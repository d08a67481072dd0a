// Instantiates the square-lattice layer.  Never executed: only parsed.
#include <sstream>
#include <square/square.hpp>
using namespace square;
template<typename T>
struct use_io {
   static void run(std::ostream& out, std::istream& in, SimpleUpdateLattice<T>& s, SamplingGradientLattice<T>& g, ExactLattice<T>& e) {
      using TAT::operator<;
      using TAT::operator>;
      out < s;
      in > s;
      out < g;
      in > g;
      out < e;
      in > e;
   }
   static void convert(SimpleUpdateLattice<T>& s, SamplingGradientLattice<T>& g) {
      ExactLattice<T> e2(g);
      ExactLattice<T> e3(s);
      SimpleUpdateLattice<T> s2(g);
      SamplingGradientLattice<T> g2(s, 4);
   }
};
template struct use_io<double>;
template struct use_io<std::complex<double>>;
template struct square::AbstractLattice<double>;
template struct square::AbstractNetworkLattice<double>;
template struct square::ExactLattice<double>;
template struct square::SimpleUpdateLattice<double>;
template struct square::SamplingGradientLattice<double>;
