CHECK = "c12_mpi.py"
MP = "include/TAT/mpi.hpp"
SU = "include/square/simple_update_lattice.hpp"
BA = "include/square/basic.hpp"
FATHER = "            const auto father_fake_rank = (this_fake_rank - 1) / 2;\n            const auto father_real_rank = (father_fake_rank + root) % size;\n            result = receive<Type>(father_real_rank);"
M = [
 ("fake", MP, "const auto this_fake_rank = (size + rank - root) % size;", "const auto this_fake_rank = (size + root - rank) % size;", 1),
 ("fakeneg", MP, "const auto this_fake_rank = (size + rank - root) % size;", "const auto this_fake_rank = (rank - root) % size;", 1),
 ("father", MP, FATHER, FATHER.replace("(this_fake_rank - 1) / 2", "this_fake_rank / 2"), 1),
 ("noroot", MP, FATHER, FATHER.replace("(father_fake_rank + root) % size", "father_fake_rank % size"), 1),
 ("nomod", MP, FATHER, FATHER.replace("(father_fake_rank + root) % size", "father_fake_rank + root"), 1),
 ("songuard", MP, "         if (right_son_fake_rank < size) {\n            const auto right_son_real_rank = (right_son_fake_rank + root) % size;\n            send", "         if (right_son_fake_rank + 1 < size) {\n            const auto right_son_real_rank = (right_son_fake_rank + root) % size;\n            send", 1),
 ("songuard2", MP, "         if (right_son_fake_rank < size) {\n            const auto right_son_real_rank = (right_son_fake_rank + root) % size;\n            send", "         if (left_son_fake_rank < size) {\n            const auto right_son_real_rank = (right_son_fake_rank + root) % size;\n            send", 1),
 ("sonle", MP, "         if (left_son_fake_rank < size) {", "         if (left_son_fake_rank <= size) {", 1),
 ("sons3", MP, "const auto right_son_fake_rank = this_fake_rank * 2 + 2;", "const auto right_son_fake_rank = this_fake_rank * 2 + 3;", 1),
 ("redval", MP, "result = function(result, receive<Type>(right_son_real_rank));", "result = function(value, receive<Type>(right_son_real_rank));", 1),
 ("redleaf", MP, "               send(value, father_real_rank);\n", "               send(result, father_real_rank);\n", 1),
 ("reddup", MP, "            if (left_son_fake_rank < size) {\n               send(result, father_real_rank);", "            if (right_son_fake_rank < size) {\n               send(result, father_real_rank);", 1),
 ("bcval", MP, "            send(result, right_son_real_rank);\n", "            send(value, right_son_real_rank);\n", 1),
 ("bcret", MP, "         return result;\n      }\n\n      template<typename Type, typename Func>", "         return value;\n      }\n\n      template<typename Type, typename Func>", 1),
 ("length", MP, "data.data(), data.length(), MPI_BYTE", "data.data(), data.length() - 1, MPI_BYTE", 1),
 ("tag", MP, "MPI_Probe(source, mpi_tag,", "MPI_Probe(source, 1,", 1),
 ("srmix", MP, "            return receive<Type>(source);\n", "            return receive<Type>(destination);\n", 1),
 ("srmix2", MP, "         if (rank == source) {\n            send(value, destination);", "         if (rank == destination) {\n            send(value, source);", 1),
 ("owner", SU, "if (i % TAT::mpi.size == TAT::mpi.rank) {", "if ((i + 1) % TAT::mpi.size == TAT::mpi.rank) {", 1),
 ("owner2", SU, "auto root = i % TAT::mpi.size;", "auto root = (i + 1) % TAT::mpi.size;", 1),
 ("noenv", SU, "            for (const auto& [d, x, y] : _get_related_environment(positions)) {\n               environment[{d, x, y}] = TAT::mpi.broadcast(environment[{d, x, y}], root);\n            }\n", "", 1),
 ("range", SU, "         MPI_Barrier(MPI_COMM_WORLD);\n         for (auto i = 0;", "         MPI_Barrier(MPI_COMM_WORLD);\n         for (auto i = 1;", 1),
 ("swapxy", SU, "lattice[x][y] = TAT::mpi.broadcast(lattice[x][y], root);", "lattice[x][y] = TAT::mpi.broadcast(lattice[y][x], root);", 1),
 ("rankloop", SU, "         MPI_Barrier(MPI_COMM_WORLD);\n", "         if (group.size() > TAT::mpi.rank) { MPI_Barrier(MPI_COMM_WORLD); }\n", 1),
 ("rootrank", SU, "auto root = i % TAT::mpi.size;", "auto root = TAT::mpi.rank;", 1),
 ("bcastin", BA, "         MPI_Bcast(&seed, /*count*/ 1, MPI_UINT32_T, /*root*/ 0, MPI_COMM_WORLD);", "         if (TAT::mpi.rank != 0 || seed != 0) { MPI_Bcast(&seed, /*count*/ 1, MPI_UINT32_T, /*root*/ 0, MPI_COMM_WORLD); }", 1),
 ("btype", BA, "MPI_UINT32_T, /*root*/", "MPI_UINT64_T, /*root*/", 1),
 ("mtype", BA, "return MPI_C_FLOAT_COMPLEX;", "return MPI_C_DOUBLE_COMPLEX;", 1),
 ("r-cond", MP, "const auto this_fake_rank = (size + rank - root) % size;", "const auto this_fake_rank = rank >= root ? rank - root : rank - root + size;", 0),
 ("r-rank", MP, "         if (this_fake_rank != 0) {\n            const auto father_fake_rank", "         if (rank != root) {\n            const auto father_fake_rank", 0),
 ("r-helper", [(MP, "      template<typename Type>\n      Type broadcast(", "      int real_rank(int fake, int root) const { return (fake + root) % size; }\n      template<typename Type>\n      Type broadcast("), (MP, "const auto father_real_rank = (father_fake_rank + root) % size;", "const auto father_real_rank = real_rank(father_fake_rank, root);"), (MP, "const auto left_son_real_rank = (left_son_fake_rank + root) % size;", "const auto left_son_real_rank = real_rank(left_son_fake_rank, root);")], 0, 0, 0),
 ("r-lambda", [(MP, "         // send to son\n", "         const auto to_son = [&](int son) {\n            if (son < size) {\n               send(result, (son + root) % size);\n            }\n         };\n"), (MP, "         if (left_son_fake_rank < size) {\n            const auto left_son_real_rank = (left_son_fake_rank + root) % size;\n            send(result, left_son_real_rank);\n         }\n         if (right_son_fake_rank < size) {\n            const auto right_son_real_rank = (right_son_fake_rank + root) % size;\n            send(result, right_son_real_rank);\n         }\n", "         to_son(left_son_fake_rank);\n         to_son(right_son_fake_rank);\n")], 0, 0, 0),
 ("r-loop", [(MP, "         if (left_son_fake_rank < size) {\n            const auto left_son_real_rank = (left_son_fake_rank + root) % size;\n            send(result, left_son_real_rank);\n         }\n         if (right_son_fake_rank < size) {\n            const auto right_son_real_rank = (right_son_fake_rank + root) % size;\n            send(result, right_son_real_rank);\n         }\n", "         for (const auto son : {left_son_fake_rank, right_son_fake_rank}) { if (son < size) { send(result, (son + root) % size); } }\n")], 0, 0, 0),
 ("r-nest", MP, "         if (right_son_fake_rank < size) {\n            const auto right_son_real_rank = (right_son_fake_rank + root) % size;\n            send", "         if (size > right_son_fake_rank) {\n            const int right_son_real_rank = (root + right_son_fake_rank) % size;\n            send", 0),
 ("r-redinit", [(MP, "         Type result;\n         // get from son", "         Type result = value;\n         // get from son"), (MP, "result = function(value, receive<Type>(left_son_real_rank));", "result = function(result, receive<Type>(left_son_real_rank));"), (MP, "            if (left_son_fake_rank < size) {\n               send(result, father_real_rank);\n            } else {\n               send(value, father_real_rank);\n            }\n", "            send(result, father_real_rank);\n")], 0, 0, 0),
 ("r-owner", SU, "if (i % TAT::mpi.size == TAT::mpi.rank) {", "const auto owner = i % TAT::mpi.size;\n            if (TAT::mpi.rank == owner) {", 0),
 ("r-owner-cont", SU, "            if (i % TAT::mpi.size == TAT::mpi.rank) {", "            if (i % TAT::mpi.size != TAT::mpi.rank) {\n continue; }\n {", 0),
 ("r-k", [(SU, "         MPI_Barrier(MPI_COMM_WORLD);\n         for (auto i = 0; i < group.size(); i++) {\n            const auto& positions = group[i];\n            auto root = i % TAT::mpi.size;", "         TAT::mpi.barrier();\n         int k = 0;\n         for (const auto& positions : group) {\n            auto root = k++ % TAT::mpi.size;")], 0, 0, 0),
 ("r-tmp", SU, "lattice[x][y] = TAT::mpi.broadcast(lattice[x][y], root);", "auto& site = lattice[x][y];\n               site = TAT::mpi.broadcast(site, root);", 0),
 ("r-recv", MP, "         auto data = std::string(length, '\\0'); // 这里", "         std::string data;\n         data.resize(length); // 这里", 0),
 ("r-len", MP, "data.data(), data.length(), MPI_BYTE", "data.data(), static_cast<int>(data.size()), MPI_BYTE", 0),
 ("r-seed", BA, "if (TAT::mpi.rank == 0) {", "const bool is_root = TAT::mpi.rank == 0;\n         if (is_root) {", 0),
]
