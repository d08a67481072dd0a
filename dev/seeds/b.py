PY = '''import os, sys
'''
RUNPY = '''[ -f _build/TAT.so ] || ls _build/TAT*.so >/dev/null 2>&1 || { [ -d /repo/_build ] || exit 2; }
. /opt/vp/env.sh
OMPI_MCA_ess_singleton_isolated=1 PYTHONPATH=/repo/_build:$PWD:/opt/vp/py timeout 120 $PYTHON "$here/demo.py" >/dev/null 2>"$tmp/err"; rc=$?
[ $rc = 0 ] || [ $rc = 7 ] || { tail -5 "$tmp/err"; exit 2; }
exit $rc'''
S = [
 dict(id="C11-skip-after-dead", property="C11", check="c11_lazy.py",
  edits=[("include/lazy.hpp", "               iter = downstream.erase(iter);\n", "               iter = downstream.erase(iter);\n               if (iter != downstream.end()) {\n                  ++iter;\n               }\n")],
  needs="a dependent that was destroyed, followed by a living one in the list of dependents",
  breaks="the living dependent is not invalidated when its argument is set and keeps returning the old value",
  cpp='''#include <lazy.hpp>
int main() {
   auto a = lazy::Root(1);
   { auto dead = lazy::Node([](int x) { return x; }, a); dead->get(); }
   auto b = lazy::Node([](int x) { return x + 1; }, a);
   if (b->get() != 2) return 1;
   a->set(10);
   return b->get() == 11 ? 0 : 1;
}
'''),
 dict(id="C21-left-corner", property="C21", check="c21_cache.py",
  edits=[("square/auxiliaries.py", '                    self._try_to_delete_auxiliaries("down-to-up-3-1", i, index - 1)\n', '')],
  needs="the environment of a vertical pair is queried, then a site to the right of it changes, then it is queried again",
  breaks="the second query mixes the old and the new tensor",
  files={"demo.py": '''import random, sys
import TAT
from square.auxiliaries import SquareAuxiliariesSystem as S
M = N = 4
def site(i, j, seed):
    random.seed(seed)
    names = [n for n, ok in (("U", i > 0), ("D", i < M - 1), ("L", j > 0), ("R", j < N - 1)) if ok]
    return TAT.Tensor.DNo(names, [2] * len(names)).set(lambda: random.random())
def value(s, p, q):
    return float(s[{p: s._lattice[p[0]][p[1]], q: s._lattice[q[0]][q[1]]}])
def fresh(s):
    r = S(M, N, 100)
    for i in range(M):
        for j in range(N):
            r[i, j] = s._lattice[i][j]
    return r
bad = False
for (x, y) in [(i, j) for i in range(M) for j in range(N)]:
    a = S(M, N, 100)
    for i in range(M):
        for j in range(N):
            a[i, j] = site(i, j, i * 10 + j)
    pairs = [((i, j), (i + 1, j)) for i in range(M - 1) for j in range(N)] + [((i, j), (i, j + 1)) for i in range(M) for j in range(N - 1)]
    for p, q in pairs:
        value(a, p, q)
    a[x, y] = site(x, y, 999)
    v = value(fresh(a), (0, 0), (0, 1))
    for p, q in pairs:
        if abs(value(a, p, q) - v) > 1e-6 * abs(v):
            bad = True
sys.exit(7 if bad else 0)
'''}, sh=RUNPY),
 dict(id="C21-copy-shares-cache", property="C21", check="c21_cache.py",
  edits=[("square/auxiliaries.py", "Tensor] = other._auxiliaries.copy()", "Tensor] = other._auxiliaries")],
  needs="a copy of a system, a change of a site in one of them and a query of the other",
  breaks="the change in the copy drops or fills entries of the original, which then answers with the tensors of the copy",
  files={"demo.py": '''import random, sys
import TAT
from square.auxiliaries import SquareAuxiliariesSystem as S
M = N = 3
def site(i, j, seed):
    random.seed(seed)
    names = [n for n, ok in (("U", i > 0), ("D", i < M - 1), ("L", j > 0), ("R", j < N - 1)) if ok]
    return TAT.Tensor.DNo(names, [2] * len(names)).set(lambda: random.random())
a = S(M, N, 100)
for i in range(M):
    for j in range(N):
        a[i, j] = site(i, j, i * 10 + j)
v = float(a[None])
b = S(a)
b[1, 1] = site(1, 1, 999)
w = float(b[None])
sys.exit(0 if float(a[None]) == v and abs(v - w) > 1e-12 else 7)
'''}, sh=RUNPY),
 dict(id="C25-fermiz2-sum", property="C25", check="c25_symmetry.py",
  edits=[("include/TAT/symmetry.hpp", "symmetry_1.z2 ^ symmetry_2.z2);\n   }\n   inline FermiZ2Symmetry& operator+=", "symmetry_1.z2 | symmetry_2.z2);\n   }\n   inline FermiZ2Symmetry& operator+=")],
  needs="two labels of the combined fermion parity symmetry that are both odd",
  breaks="odd plus odd stays odd: label sums are no longer a group",
  cpp='''#include <TAT/TAT.hpp>
int main() {
   auto odd = TAT::FermiZ2Symmetry(0, true);
   return odd + odd == TAT::FermiZ2Symmetry() ? 0 : 1;
}
'''),
]
