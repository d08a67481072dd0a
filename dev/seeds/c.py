RUNMPI = '''g++ -std=c++17 -w -O1 -Iinclude -DTAT_USE_MPI -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi "$here/demo.cpp" -o "$tmp/demo" -llapack -lblas -lmpi_cxx -lmpi || exit 2
cd "$tmp"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 TMPDIR="$tmp"
run() { timeout -k 5 60 mpirun --mca btl self,tcp --mca btl_tcp_if_include lo --mca oob_tcp_if_include lo --oversubscribe -n $1 ./demo; }
run 1 || { echo "mpi does not run here"; exit 0; }
for n in %s; do run $n || exit 1; done
exit 0'''
S = [
 dict(id="C12-fake-rank-direction", property="C12", check="c12_mpi.py",
  edits=[("include/TAT/mpi.hpp", "         const auto this_fake_rank = (size + rank - root) % size;\n         Type result;\n         // get from son", "         const auto this_fake_rank = rank < root ? root - rank : rank - root;\n         Type result;\n         // get from son")],
  needs="a reduction whose root is not process 0, on three or more processes",
  breaks="two processes take the same place in the tree: a value is lost and another one is waited for forever",
  sh=RUNMPI % "2 3 5",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry>;
   int bad = 0;
   for (int root = 0; root < TAT::mpi.size; root++) {
      T r = TAT::mpi.reduce(T(double(1 << TAT::mpi.rank)), root, [](const T& a, const T& b) { return a + b; });
      if (TAT::mpi.rank == root && double(r) != (1 << TAT::mpi.size) - 1) bad = 1;
      TAT::mpi.barrier();
   }
   return bad;
}
'''),
 dict(id="C12-right-son-guard", property="C12", check="c12_mpi.py",
  edits=[("include/TAT/mpi.hpp", "            if (left_son_fake_rank < size) {\n               send(result, father_real_rank);\n            } else {\n               send(value, father_real_rank);\n            }", "            const bool leaf = right_son_fake_rank >= size;\n            send(leaf ? value : result, father_real_rank);")],
  needs="a process that has a left son but no right son and is not the root (four processes)",
  breaks="the contribution of the left son never reaches the root of the reduction",
  sh=RUNMPI % "2 3 4 6",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::NoSymmetry>;
   int bad = 0;
   for (int root = 0; root < TAT::mpi.size; root++) {
      T r = TAT::mpi.reduce(T(double(1 << TAT::mpi.rank)), root, [](const T& a, const T& b) { return a + b; });
      if (TAT::mpi.rank == root && double(r) != (1 << TAT::mpi.size) - 1) bad = 1;
      TAT::mpi.barrier();
   }
   return bad;
}
'''),
 dict(id="C06-arena-padding", property="C06", check="c06_scratch.py",
  edits=[("include/TAT/pmr_resource.hpp", "m_current_buffer_size -= aligner + bytes;", "m_current_buffer_size -= bytes;")],
  needs="allocations that need alignment padding until the buffer is nearly full",
  breaks="the arena hands out memory behind the end of its buffer",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   alignas(16) static std::byte buffer[4096];
   TAT::pmr::monotonic_buffer_resource resource(buffer, 1024);
   for (int i = 0; i < 300; i++) {
      auto* p = (std::byte*)resource.allocate(i % 2 ? 1 : 8, i % 2 ? 1 : 8);
      if (p >= buffer && p < buffer + 4096 && p + (i % 2 ? 1 : 8) > buffer + 1024) return 1;
   }
   return 0;
}
'''),
 dict(id="C06-edges-in-dead-arena", property="C06", check="c06_scratch.py",
  edits=[("include/TAT/edge.hpp", "      if constexpr (std::is_same_v<Symmetry, NoSymmetry>) {\n         return pmr::vector<Edge<Symmetry>>(rank, {1});\n      } else {\n", "      auto pmr_guard = scope_resource<1 << 16>();\n      if constexpr (std::is_same_v<Symmetry, NoSymmetry>) {\n         return pmr::vector<Edge<Symmetry>>(rank, {1});\n      } else {\n")],
  needs="creating a tensor with Tensor::one, whose edge list is then read from memory that has been released; the contents survive until the stack is reused",
  breaks="the list of edges lies in a released stack buffer",
  sh='''g++ -std=c++17 -w -g -O1 -fsanitize=address -fno-omit-frame-pointer -Iinclude "$here/demo.cpp" -o "$tmp/demo" -llapack -lblas || exit 2
cd "$tmp" && ASAN_OPTIONS=detect_stack_use_after_return=1:detect_leaks=0 timeout 60 ./demo''',
  cpp='''#include <TAT/TAT.hpp>
int main() {
   using T = TAT::Tensor<double, TAT::U1Symmetry>;
   auto a = T::one(2.0, {"A", "B"}, {1, -1});
   return double(a) == 2.0 ? 0 : 1;
}
'''),
]
