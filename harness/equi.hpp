// Independent dimension of equidistribution: k(v) = the largest k such that the k*v
// functionals "bit j of output i" are linearly independent on the span of the orbit.
#ifndef EQUI_HPP
#define EQUI_HPP
#include "gens.hpp"
namespace equi {
using gf2::BV;
// seq[t] = output t (already reversed when asked for); dim >= dimension of the orbit's span
template <class U> struct Orbit {
    int dim; std::vector<BV> s; // s[j]: bit j from the MSB, as a sequence
    template <class NEXT> Orbit(int dim_, int maxk, NEXT next) : dim(dim_) {
        int L = dim + maxk + 1; for (int j = 0; j < gens::W<U>::bits; j++) s.push_back(gf2::bv((size_t)L + 64));
        for (int t = 0; t < L; t++) { U u = next(); for (int j = 0; j < gens::W<U>::bits; j++) if (gens::W<U>::get(u, gens::W<U>::bits - 1 - j)) gf2::setbit(s[(size_t)j], (size_t)t); }
    }
    BV row(int j, int t) const {
        BV r = gf2::bv((size_t)dim); int q = t / 64, b = t % 64; const BV &v = s[(size_t)j];
        for (size_t i = 0; i < r.size(); i++) { r[i] = v[i + (size_t)q] >> b; if (b && i + (size_t)q + 1 < v.size()) r[i] |= v[i + (size_t)q + 1] << (64 - b); }
        if (dim % 64) r.back() &= ~UINT64_C(0) >> (64 - dim % 64); return r;
    }
    int k(int v) const {
        gf2::Echelon e((size_t)dim);
        for (int t = 0;; t++) for (int j = 0; j < v; j++) if (!e.insert(row(j, t))) return t;
    }
    int rank() const { gf2::Echelon e((size_t)dim); for (int t = 0; t < dim && (int)e.rank() < dim; t++) for (size_t j = 0; j < s.size(); j++) e.insert(row((int)j, t)); return (int)e.rank(); }
};
// the sequence of a clone, as AlgorithmEquidistribution would see it
template <class U> Orbit<U> orbit_of(const gens::Gen<U> &g) {
    gens::Gen<U> o(g); int n = o.bitSize(); return Orbit<U>(n, n, [&]() { U u = o.generate(); return o.revflag ? gens::rev<U>(u) : u; });
}
template <class U> std::vector<int> all_k(const Orbit<U> &o, int len) { std::vector<int> r; for (int v = 1; v <= len; v++) r.push_back(o.k(v)); return r; }
} // namespace equi
#endif
