#!/usr/bin/env python3-vt
"""Generates harness/mersenne_factors.hpp: the distinct primes of 2^n-1 (n = 2..100)
computed by sympy, independent of MTToolBox's tables."""
import sympy
out = ["// generated by tools/gen_factors.py (sympy); prime divisors of 2^n-1", "#ifndef MERSENNE_FACTORS_HPP", "#define MERSENNE_FACTORS_HPP",
       "#include <map>", "#include <string>", "#include <vector>",
       "inline const std::map<int, std::vector<std::string>> &mersenne_factors() {", "    static const std::map<int, std::vector<std::string>> m = {"]
for n in range(2, 101):
    fs = set()
    for d in sympy.divisors(n):            # 2^n-1 = prod of cyclotomic values
        v = int(sympy.cyclotomic_poly(d, 2))
        fs |= set(sympy.factorint(v))
    fs.discard(1)
    assert all(sympy.isprime(p) for p in fs)
    m = 2**n - 1
    for p in fs:
        while m % p == 0:
            m //= p
    assert m == 1
    out.append("        {%d, {%s}}," % (n, ", ".join('"%d"' % p for p in sorted(fs))))
out += ["    };", "    return m;", "}", "#endif"]
open("/verif/harness/mersenne_factors.hpp", "w").write("\n".join(out) + "\n")
