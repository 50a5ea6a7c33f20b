#!/usr/bin/env python3
"""Writes the translation units of C32: every header alone, and all of them in various orders."""
import glob, os, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = sorted(os.path.basename(p)[:-4] for p in glob.glob("/repo/include/NazaraUtils/*.hpp"))
names = []
def unit(name, hs, rename, order, twice=False):
    names.append(f"c32_{name}.cpp")
    t = (f"#define Nz Nz_{name} // a copy of the library of its own\n" if rename else "")
    t += "".join(f"#include <NazaraUtils/{h}.hpp>\n" * (2 if twice else 1) for h in hs) + "".join(f"#define C32_{h}\n" for h in hs)
    open(f"{V}/src/c32_{name}.cpp", "w").write(t + f'#define C32_ORDER "{order}"\n#include "../src/c32_probe.hpp"\n')
for h in H: unit("alone_" + h, [h], True, "alone", True)
unit("sorted1", H, False, "all, first unit"); unit("sorted2", H, False, "all, second unit")
unit("reverse", H[::-1], True, "reverse order")
for k in range(1, 9):
    p = list(H); random.Random(k).shuffle(p); unit(f"order{k}", p, True, f"random order {k}")
print(len(names))
