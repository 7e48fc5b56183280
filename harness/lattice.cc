// Records operations on real lattices (C09).  Lengths are multiples of 1/64, so that nothing is rounded.
// usage: lattice SEED LATTICES OPS OUT
#include <array>
#include <memory>

#include "smash/configuration.h"
#include "smash/fourvector.h"
#include "smash/lattice.h"
#include "smash/logging.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;
static vh::Rng *R;
static constexpr double U = 1. / 64;
using Lat = RectangularLattice<double>;
using I3 = std::array<int, 3>;
using D3 = std::array<double, 3>;
static long u(double x) { return vh::fix(x, U); }
static std::vector<long> u3(const ThreeVector &v) { return {u(v[0]), u(v[1]), u(v[2])}; }
static std::vector<long> i3(int a, int b, int c) { return {a, b, c}; }
static D3 scale(const I3 &x) { return {x[0] * U, x[1] * U, x[2] * U}; }
static I3 len(const I3 &n, const I3 &c) { return {n[0] * c[0], n[1] * c[1], n[2] * c[2]}; }
static I3 numbers(int max) { return {static_cast<int>(R->in(1, max)), static_cast<int>(R->in(1, max)), static_cast<int>(R->in(1, max))}; }
static I3 sizes() {
  auto s = []() { return static_cast<int>(R->pick(std::vector<int64_t>{2, 4, 6, 10, 64, 100, 34})); };
  return {s(), s(), s()};
}
static I3 origin() { return {static_cast<int>(R->in(-200, 200)), static_cast<int>(R->in(-200, 200)), static_cast<int>(R->in(-50, 50))}; }
static double volume_integrand(ThreeVector, double &v, ThreeVector) { return v; }

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  vh::Rng r(std::atoll(argv[1]));
  R = &r;
  vh::Log log(argv[4]);
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  for (int round = 0; round < std::atoi(argv[2]); round++) {
    I3 n = r.chance(0.3) ? I3{static_cast<int>(r.in(2, 3)), static_cast<int>(r.in(2, 3)), static_cast<int>(r.in(2, 3))} : numbers(5), c = sizes(), o = origin();
    const bool per = r.chance(0.5);
    std::unique_ptr<Lat> lat;
    const std::string res = vh::outcome([&]() { lat = std::make_unique<Lat>(scale(len(n, c)), n, scale(o), per, LatticeUpdate::EveryTimestep); });
    log(Rec()("op", "new")("reset", true)("n", n)("c", c)("o", o)("per", per)("res", res));
    if (!lat) return 0;
    {  // refused
      I3 bad = n;
      bad[r.in(0, 2)] = 0;
      log(Rec()("op", "bad")("res", vh::outcome([&]() { Lat x(scale(len(n, c)), bad, scale(o), per, LatticeUpdate::EveryTimestep); })));
      D3 neg = scale(len(n, c));
      neg[r.in(0, 2)] *= -1;
      log(Rec()("op", "bad")("res", vh::outcome([&]() { Lat x(neg, n, scale(o), per, LatticeUpdate::EveryTimestep); })));
      log(Rec()("op", "bad")("res", vh::outcome([&]() { lat->reset_and_resize(std::nullopt, std::nullopt, std::nullopt); })));
    }
    auto look = [&](const Lat &l0) {
      Lat l(l0);  // index1d is not const; copying is part of what is looked at
      std::vector<J> cells;
      for (int iz = 0; iz < l.n_cells()[2]; iz++)
        for (int iy = 0; iy < l.n_cells()[1]; iy++)
          for (int ix = 0; ix < l.n_cells()[0]; ix++) {
            const int k = l.index1d(ix, iy, iz);
            cells.push_back(J::raw("[" + J(k).t + "," + J(u3(l.cell_center(ix, iy, iz))).t + "," + J(u3(l.cell_center(k))).t + "," +
                                   (static_cast<size_t>(k) < l.size() ? J(vh::fix(l0[k], 1)).t : "\"none\"") + "]"));
          }
      log(Rec()("op", "look")("n", l.n_cells())("c", std::vector<long>{u(l.cell_sizes()[0]), u(l.cell_sizes()[1]), u(l.cell_sizes()[2])})(
          "o", std::vector<long>{u(l.origin()[0]), u(l.origin()[1]), u(l.origin()[2])})(
          "l", std::vector<long>{u(l.lattice_sizes()[0]), u(l.lattice_sizes()[1]), u(l.lattice_sizes()[2])})("per", l.periodic())("cells", cells));
      if (l.size() != static_cast<size_t>(l.n_cells()[0]) * l.n_cells()[1] * l.n_cells()[2]) log(Rec()("op", "size")("n", l.size()));
      size_t m = 0;
      for (double v : l0) (void)v, m++;
      if (m != l.size()) log(Rec()("op", "iteration")("n", m));
    };
    // a point: random, on a border, on a centre, outside
    auto coord = [&](int d, bool inside) {
      const int L = n[d] * c[d];
      switch (r.in(0, 4)) {
        case 0: return o[d] + c[d] * static_cast<int>(r.in(0, inside ? n[d] - 1 : n[d]));
        case 1: return o[d] + c[d] / 2 + c[d] * static_cast<int>(r.in(inside ? 0 : -1, inside ? n[d] - 1 : n[d]));
        case 2: return inside ? o[d] + L - 1 : o[d] + L * static_cast<int>(r.in(-3, 3)) + static_cast<int>(r.in(-1, 1));
        default: return o[d] + static_cast<int>(inside ? r.in(0, L - 1) : r.in(-2 * L, 3 * L));
      }
    };
    auto point = [&](bool inside) { return I3{coord(0, inside), coord(1, inside), coord(2, inside)}; };
    auto vec = [](const I3 &x) { return ThreeVector(x[0] * U, x[1] * U, x[2] * U); };
    std::vector<J> seen;
    auto visitor = [&](double &v, int ix, int iy, int iz) {
      v += 1000;
      seen.push_back(i3(ix, iy, iz));
    };
    look(*lat);
    for (int k = 0; k < std::atoi(argv[3]); k++) {
      const size_t N = lat->size();
      seen.clear();
      switch (r.in(0, 14)) {
        case 0: {
          const int j = r.in(0, N - 1), v = r.in(-99, 99);
          if (r.chance(0.5)) lat->assign_value(j, v); else (*lat)[j] = v;
          log(Rec()("op", "set")("k", j)("v", v));
          break;
        }
        case 1: {
          std::vector<long> v;
          for (double &x : *lat) v.push_back(x = r.in(-99, 99));
          log(Rec()("op", "fill")("v", v));
          break;
        }
        case 2: if (r.chance(0.2)) { lat->reset(); log(Rec()("op", "reset")); } break;
        case 3: {
          if (!r.chance(0.25)) break;
          const bool ln = r.chance(0.6), og = r.chance(0.5), nc = r.chance(0.4);
          if (!ln && !og && !nc) break;
          const I3 c2 = ln ? sizes() : c, o2 = og ? origin() : o;
          I3 n2 = nc ? numbers(4) : n;
          if (nc && !ln) {  // the length stays: only divisors keep the numbers exact
            for (int d = 0; d < 3; d++) n2[d] = (n[d] * c[d]) % (2 * n2[d]) ? n[d] : n2[d];
          }
          const I3 L = ln ? len(n2, c2) : len(n, c);
          lat->reset_and_resize(ln ? std::optional<D3>(scale(L)) : std::nullopt, og ? std::optional<D3>(scale(o2)) : std::nullopt,
                                nc ? std::optional<I3>(n2) : std::nullopt);
          n = n2;
          o = o2;
          c = {L[0] / n[0], L[1] / n[1], L[2] / n[2]};
          log(Rec()("op", "resize")("n", n)("c", c)("o", o));
          look(*lat);
          break;
        }
        case 4: case 5: {
          const I3 p = point(r.chance(0.5));
          double v = 77;
          const bool f = lat->value_at(vec(p), v);
          log(Rec()("op", "at")("r", p)("found", f)("v", vh::fix(v, 1)));
          break;
        }
        case 6: {
          I3 s{static_cast<int>(r.in(0, n[0] - 1)), static_cast<int>(r.in(0, n[1] - 1)), static_cast<int>(r.in(0, n[2] - 1))};
          if (per)
            for (int &x : s) x += r.in(-8, 8);
          log(Rec()("op", "node")("s", s)("v", vh::fix(lat->node(s[0], s[1], s[2]), 1)));
          break;
        }
        case 7: {
          I3 s;
          for (int d = 0; d < 3; d++) s[d] = r.in(-2, n[d] + 1);
          log(Rec()("op", "bounds")("s", s)("out", lat->out_of_bounds(s[0], s[1], s[2])));
          break;
        }
        case 8: {
          I3 lo, hi;
          for (int d = 0; d < 3; d++) {
            lo[d] = per ? r.in(-6, 4) : r.in(0, n[d]);
            hi[d] = per ? lo[d] + r.in(0, 4) : r.in(lo[d], n[d]);
          }
          lat->iterate_sublattice(lo, hi, visitor);
          log(Rec()("op", "sub")("lo", lo)("hi", hi)("seen", seen));
          look(*lat);
          break;
        }
        case 9: case 10: {
          const I3 p = point(r.chance(0.6));
          I3 q;
          for (int d = 0; d < 3; d++) q[d] = r.chance(0.3) ? r.in(1, 3) * c[d] / 2 : r.in(1, 2 * c[d] + 8);
          if (r.chance(0.5)) {
            for (int d = 1; d < 3; d++) q[d] = q[0];
            if (q[0] > 2 * c[1] + 8 || q[0] > 2 * c[2] + 8) q = {4, 4, 4};
            lat->iterate_in_cube(vec(p), q[0] * U, visitor);
          } else {
            lat->iterate_in_rectangle(vec(p), scale(q), visitor);
          }
          log(Rec()("op", "region")("p", p)("q", q)("seen", seen));
          look(*lat);
          break;
        }
        case 11: {
          const I3 p = point(r.chance(0.6));
          lat->iterate_nearest_neighbors(vec(p), [&](double &v, int a, int b) {
            v += 1000;
            seen.push_back(std::vector<long>{a, b});
          });
          log(Rec()("op", "near")("p", p)("seen", seen));
          look(*lat);
          break;
        }
        case 12: {
          const I3 p = point(r.chance(0.6));
          const int q = 1 + 2 * r.in(0, 20);
          if (q > 3 * c[0] || q > 3 * c[1] || q > 3 * c[2]) break;
          double sum = 0;
          lat->integrate_volume(sum, volume_integrand, q * U, vec(p));
          const double vol = c[0] * c[1] * c[2] * U * U * U;
          log(Rec()("op", "integral")("p", p)("q", I3{q, q, q})("sum", vh::fix(sum / vol, 1)));
          break;
        }
        case 13: {
          if (r.chance(0.5)) {
            RectangularLattice<ThreeVector> g(lat->lattice_sizes(), lat->n_cells(), lat->origin(), per, LatticeUpdate::EveryTimestep);
            const std::string res2 = vh::outcome([&]() { lat->compute_gradient_lattice(g); });
            std::vector<J> gr;
            for (const ThreeVector &v : g) gr.push_back(std::vector<long>{vh::fix(v[0] * 2 * c[0] * U, 1), vh::fix(v[1] * 2 * c[1] * U, 1), vh::fix(v[2] * 2 * c[2] * U, 1)});
            log(Rec()("op", "grad")("res", res2)("g", gr));
          } else {
            auto mk = [&]() { return RectangularLattice<FourVector>(lat->lattice_sizes(), lat->n_cells(), lat->origin(), per, LatticeUpdate::EveryTimestep); };
            auto now = mk(), old = mk();
            RectangularLattice<std::array<FourVector, 4>> g(lat->lattice_sizes(), lat->n_cells(), lat->origin(), per, LatticeUpdate::EveryTimestep);
            std::vector<long> ov;
            for (size_t j = 0; j < N; j++) {
              const double v = (*lat)[j], w = r.in(-50, 50);
              ov.push_back(w);
              now[j] = FourVector(v, 2 * v, 3 * v, 4 * v);
              old[j] = FourVector(w, 2 * w, 3 * w, 4 * w);
            }
            const double dt = 0.125;
            const std::string res2 = vh::outcome([&]() { now.compute_four_gradient_lattice(old, dt, g); });
            std::vector<J> gr;
            for (size_t j = 0; j < N; j++) {
              std::vector<J> q;
              for (int d = 0; d < 4; d++) {
                const double f = d ? 2 * c[d - 1] * U : dt;
                std::vector<long> z;
                for (int m = 0; m < 4; m++) z.push_back(vh::fix(g[j][d][m] * f, 1));
                q.push_back(z);
              }
              gr.push_back(q);
            }
            log(Rec()("op", "grad4")("res", res2)("g", gr)("old", ov));
          }
          break;
        }
        default: {
          I3 n2 = n, c2 = c, o2 = o;
          bool p2 = per;
          switch (r.in(0, 5)) {
            case 0: n2[r.in(0, 2)]++; break;
            case 1: c2[r.in(0, 2)] += 2; break;
            case 2: o2[r.in(0, 2)]++; break;
            case 3: p2 = !p2; break;
          }
          RectangularLattice<FourVector> other(scale(len(n2, c2)), n2, scale(o2), p2, LatticeUpdate::AtOutput);
          log(Rec()("op", "same")("n", n2)("c", c2)("o", o2)("per", p2)("same", lat->identical_to_lattice(&other)));
          RectangularLattice<ThreeVector> g(scale(len(n2, c2)), n2, scale(o2), p2, LatticeUpdate::AtOutput);
          if (n[0] > 1 && n[1] > 1 && n[2] > 1 && (n != n2 || c != c2 || o != o2 || per != p2))
            log(Rec()("op", "bad")("res", vh::outcome([&]() { lat->compute_gradient_lattice(g); })));
        }
      }
    }
    look(*lat);
  }
}
