CHECK = "c21_cache.py"
A = "square/auxiliaries.py"
RIGHT = '''            if index != self._N:
                flag = False
                for i in range(self._M):
                    flag = self._try_to_delete_auxiliaries("left-to-right", i, index)
                    self._try_to_delete_auxiliaries("up-to-down-3", i, index + 1)
                    self._try_to_delete_auxiliaries("down-to-up-3", i, index + 1)
                    self._try_to_delete_auxiliaries("up-to-down-3-1", i, index + 1)
                    self._try_to_delete_auxiliaries("down-to-up-3-1", i, index + 1)
                if flag:
                    self._refresh_line(kind, index + 1)
'''
M = [
 ("up+1", A, "self._try_to_delete_auxiliaries(\"right-to-left-3-1\", index - 1, j)\n                if flag:\n                    self._refresh_line(kind, index - 1)", "self._try_to_delete_auxiliaries(\"right-to-left-3-1\", index - 1, j)\n                if flag:\n                    self._refresh_line(kind, index + 1)", 1),
 ("drop31", A, '                    self._try_to_delete_auxiliaries("down-to-up-3-1", i, index + 1)\n', "", 1),
 ("index-not+1", A, 'self._try_to_delete_auxiliaries("up-to-down-3-1", i, index + 1)', 'self._try_to_delete_auxiliaries("up-to-down-3-1", i, index)', 0),
 ("bound", A, "if index != self._N:", "if index != self._N - 1:", 1),
 ("bound-M", A, "if index != self._N:", "if index != self._M:", 1),
 ("range", A, "if index != self._N:\n                flag = False\n                for i in range(self._M)", "if index != self._N:\n                flag = False\n                for i in range(self._N)", 1),
 ("range-1", A, "if index != self._N:\n                flag = False\n                for i in range(self._M)", "if index != self._N:\n                flag = False\n                for i in range(self._M - 1)", 1),
 ("set-nodel", A, "        self.__delitem__(position)\n        i, j = position", "        i, j = position", 1),
 ("set-condel", A, "        self.__delitem__(position)\n        i, j = position", "        i, j = position\n        if self._lattice[i][j] is None:\n            self.__delitem__(position)", 1),
 ("t<i", A, "            if t < i:\n                self._try_to_delete_auxiliaries(\"down-to-up-3\", t, j)", "            if t < i - 1:\n                self._try_to_delete_auxiliaries(\"down-to-up-3\", t, j)", 0),
 ("else-drop", A, '            else:\n                self._try_to_delete_auxiliaries("down-to-up-3", t, j)\n', "            else:\n", 1),
 ("swap", A, "        self._refresh_line(\"right\", j)", "        self._refresh_line(\"right\", i)", 1),
 ("flagwrong", A, 'flag = self._try_to_delete_auxiliaries("left-to-right", i, index)\n                    self._try_to_delete_auxiliaries("up-to-down-3", i, index + 1)', 'self._try_to_delete_auxiliaries("left-to-right", i, index)\n                    flag = self._try_to_delete_auxiliaries("up-to-down-3", i, index + 1)', 1),
 ("share", A, "other._auxiliaries.copy()", "other._auxiliaries", 1),
 ("rows", A, "[[other._lattice[i][j] for j in range(self._N)] for i in range(self._M)]", "other._lattice.copy()", 1),
 ("newread", A, '.contract(self._get_auxiliaries("up-to-down", i - 1, j), {("R1", "L")})', '.contract(self._get_auxiliaries("up-to-down", i, j), {("R1", "L")})', 1),
 ("early", A, "        i, j = position\n        self._refresh_line(\"right\", j)", "        i, j = position\n        if self._lattice[i][j] is None:\n            return\n        self._refresh_line(\"right\", j)", 1),
 ("sub", "square/sampling_gradient_lattice.py", "        x, y = position\n        super().__delitem__((x, y))\n", "        x, y = position\n", 1),
 ("sub2", "square/sampling_gradient_lattice.py", "            super().__setitem__((x, y), self.lattice[x, y].shrink({\"P\": value}))\n            self.configuration[x][y] = value", "            super().__setitem__((x, y), self.lattice[x, y].shrink({\"P\": value}))\n        self.configuration[x][y] = value", 1),
 ("owner", "square/sampling_gradient_lattice.py", "        self.spin.lattice = self\n", "", 1),
 ("pydef", "square/sampling_gradient_lattice.py", 'observers = {**observers, "Energy": self.hamiltonian}', 'observers["Energy"] = self.hamiltonian', 1, "c19_state.py"),
 ("pyid", "square/sampling_gradient_lattice.py", "self.tensor_element_dict[tensor_id] = (tensor, result)", "self.tensor_element_dict[tensor_id] = (None, result)", 1, "c19_state.py"),
 ("r-pydef", "square/sampling_gradient_lattice.py", "        if calculate_energy:\n            if \"Energy\" in observers:", "        observers = dict(observers)\n        if calculate_energy:\n            if \"Energy\" in observers:", 0, "c19_state.py"),
 ("r-index", A, 'self._try_to_delete_auxiliaries("down-to-up-3-1", i, index - 1)', 'self._try_to_delete_auxiliaries("down-to-up-3-1", i, index)', 0),
 # refactors
 ("r-while", A, RIGHT, '''            while index != self._N:
                flag = False
                for i in range(self._M):
                    flag = self._try_to_delete_auxiliaries("left-to-right", i, index)
                    for name in ["up-to-down-3", "down-to-up-3", "up-to-down-3-1", "down-to-up-3-1"]:
                        self._try_to_delete_auxiliaries(name, i, index + 1)
                if not flag:
                    return
                index += 1
''', 0),
 ("r-clear", A, '        self._refresh_line("right", j)\n        self._refresh_line("left", j)\n', '        self._auxiliaries.clear()\n        self._refresh_line("right", j)\n        self._refresh_line("left", j)\n', 0),
 ("r-or", A, 'flag = self._try_to_delete_auxiliaries("left-to-right", i, index)', 'flag |= self._try_to_delete_auxiliaries("left-to-right", i, index)', 0),
 ("r-lt", A, "if index != self._N:", "if index < self._N:", 0),
 ("r-pop", A, '''        if (index, i, j) in self._auxiliaries:
            del self._auxiliaries[index, i, j]
            return True
        else:
            return False
''', '''        key = (index, i, j)
        if key not in self._auxiliaries:
            return False
        del self._auxiliaries[key]
        return True
''', 0),
 ("r-pop2", A, '''        if (index, i, j) in self._auxiliaries:
            del self._auxiliaries[index, i, j]
            return True
        else:
            return False
''', '''        return self._auxiliaries.pop((index, i, j), None) is not None
''', 0),
 ("r-loop", A, '''        for t in range(self._M):
            if t < i:
                self._try_to_delete_auxiliaries("down-to-up-3", t, j)
                self._try_to_delete_auxiliaries("down-to-up-3-1", t, j)
            elif t > i:
                self._try_to_delete_auxiliaries("up-to-down-3", t, j)
                self._try_to_delete_auxiliaries("up-to-down-3-1", t, j)
            else:
                self._try_to_delete_auxiliaries("down-to-up-3", t, j)
                self._try_to_delete_auxiliaries("up-to-down-3", t, j)
                self._try_to_delete_auxiliaries("down-to-up-3-1", t, j)
                self._try_to_delete_auxiliaries("up-to-down-3-1", t, j)
''', '''        for t in range(i + 1):
            for suffix in ("", "-1"):
                self._try_to_delete_auxiliaries(f"down-to-up-3{suffix}", t, j)
        for t in range(i, self._M):
            for suffix in ("", "-1"):
                self._try_to_delete_auxiliaries("up-to-down-3" + suffix, t, j)
''', 0),
 ("r-le", A, '''            if t < i:
                self._try_to_delete_auxiliaries("down-to-up-3", t, j)
                self._try_to_delete_auxiliaries("down-to-up-3-1", t, j)
            elif t > i:
                self._try_to_delete_auxiliaries("up-to-down-3", t, j)
                self._try_to_delete_auxiliaries("up-to-down-3-1", t, j)
            else:
                self._try_to_delete_auxiliaries("down-to-up-3", t, j)
                self._try_to_delete_auxiliaries("up-to-down-3", t, j)
                self._try_to_delete_auxiliaries("down-to-up-3-1", t, j)
                self._try_to_delete_auxiliaries("up-to-down-3-1", t, j)
''', '''            if t <= i:
                self._try_to_delete_auxiliaries("down-to-up-3", t, j)
                self._try_to_delete_auxiliaries("down-to-up-3-1", t, j)
            if t >= i:
                self._try_to_delete_auxiliaries("up-to-down-3", t, j)
                self._try_to_delete_auxiliaries("up-to-down-3-1", t, j)
''', 0),
 ("r-helper", [(A, '                    self._try_to_delete_auxiliaries("up-to-down-3", i, index + 1)\n                    self._try_to_delete_auxiliaries("down-to-up-3", i, index + 1)\n                    self._try_to_delete_auxiliaries("up-to-down-3-1", i, index + 1)\n                    self._try_to_delete_auxiliaries("down-to-up-3-1", i, index + 1)\n', '                    self._drop_vertical(i, index + 1)\n'),
   (A, "    def _try_to_delete_auxiliaries", '''    def _drop_vertical(self, row: int, column: int) -> None:
        for direction in ["up-to-down", "down-to-up"]:
            self._try_to_delete_auxiliaries(direction + "-3", row, column)
            self._try_to_delete_auxiliaries(direction + "-3-1", row, column)

    def _try_to_delete_auxiliaries''')], 0, 0, 0),
 ("r-setorder", A, "        self.__delitem__(position)\n        i, j = position\n", "        i, j = position\n        del self[i, j]\n", 0),
 ("r-fillhelper", [(A, '''                    line_1 = [self._get_auxiliaries(kind, i - 1, t) for t in range(self._N)]
                    line_2 = [self._lattice[i][t] for t in range(self._N)]
''', '''                    line_1 = [self._get_auxiliaries(kind, i - 1, t) for t in range(self._N)]
                    line_2 = self._row(i)
'''), (A, "    def _try_to_delete_auxiliaries", '''    def _row(self, i: int) -> List[Tensor]:
        return [self._lattice[i][t] for t in range(self._N)]

    def _try_to_delete_auxiliaries''')], 0, 0, 0),
 ("r-earlyret", A, "        if (kind, i, j) not in self._auxiliaries:\n            if kind ==", "        if (kind, i, j) in self._auxiliaries:\n            return self._auxiliaries[kind, i, j]\n        if True:\n            if kind ==", 0),
]
