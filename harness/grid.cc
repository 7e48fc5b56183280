// Records what the real search grid offers and what the real search finds (C07).
// usage: grid SEED GRIDS SEARCHES OUT
#include <array>
#include <memory>
#include <set>

#include "smash/configuration.h"
#include "smash/experiment.h"
#include "smash/grid.h"
#include "smash/logging.h"
#include "smash/particles.h"
#include "smash/scatteractionsfinder.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;
static vh::Rng *R;

static ParticleData hadron(const std::string &pdg, const FourVector &x, double pmax) {
  ParticleData p{ParticleType::find(PdgCode(pdg))};
  const double m = p.type().mass();
  p.set_4momentum(m, ThreeVector((2 * R->unit() - 1) * pmax, (2 * R->unit() - 1) * pmax, (2 * R->unit() - 1) * pmax));
  p.set_4position(x);
  p.set_formation_time(x.x0());
  return p;
}
static double coordinate(double L, double l, int kind) {
  switch (kind) {
    case 0: return R->unit() * L;
    case 1: return R->in(0, 1) ? R->unit() * 0.3 * l : L - (1e-9 + R->unit()) * 0.3 * l;  // at the walls
    case 2: return std::min(std::nextafter(L, 0.), l * R->in(0, static_cast<int>(L / l)));  // at cell borders
    case 3: return 0.4 * L + 0.2 * L * R->unit();                                          // dense
    default: return R->in(0, 3) * L / 4;
  }
}
template <GridOptions O>
static void one_grid(vh::Log &log, double L, double l, const Particles &P, double dt, CellNumberLimitation lim, bool unf,
                     CellSizeStrategy strat) {
  std::vector<ParticleData> all;
  std::map<int, int> num;
  J parts = J::raw("[");
  for (const ParticleData &p : P) {
    all.push_back(p);
    num[p.id()] = all.size();
    Rec q;
    q("x", std::vector<long>{vh::fix(p.position()[1], 1e-4), vh::fix(p.position()[2], 1e-4), vh::fix(p.position()[3], 1e-4)})(
        "formed", p.formation_time() <= p.position().x0() + dt || p.initial_xsec_scaling_factor() > 0 ||
                      (ParticleData::formation_power_ > 0 && p.begin_formation_time() < p.position().x0() + dt));
    parts.t += (all.size() > 1 ? "," : "") + q.j().t;
  }
  parts.t += "]";
  auto make = [&]() {
    if (O == GridOptions::PeriodicBoundaries) return Grid<O>({{0, 0, 0}, {L, L, L}}, P, l, dt, lim, unf, strat);
    return Grid<O>(P, l, dt, lim, unf, strat);
  };
  const Grid<O> g = make();
  std::vector<J> offers, singles;
  int other = 0;  // pairs whose displacement is not a whole number of boxes or that differ in something else
  auto image = [&](const ParticleData &p, std::array<long, 3> &w) {
    const ParticleData &o = all[num[p.id()] - 1];
    for (int c = 0; c < 3; c++) {
      const double d = p.position()[c + 1] - o.position()[c + 1];
      w[c] = O == GridOptions::PeriodicBoundaries ? std::lround(d / L) : 0;
      if (std::abs(d - w[c] * L) > 1e-9) other++;
    }
    if (p.momentum() != o.momentum() || p.type() != o.type() || p.position()[0] != o.position()[0] ||
        p.formation_time() != o.formation_time() || p.id_process() != o.id_process())
      other++;
  };
  auto offer = [&](const ParticleData &a, const ParticleData &b) {
    std::array<long, 3> wa, wb;
    image(a, wa);
    image(b, wb);
    std::vector<long> w{wa[0] - wb[0], wa[1] - wb[1], wa[2] - wb[2]};
    offers.push_back(J::raw("[" + std::to_string(num[a.id()]) + "," + std::to_string(num[b.id()]) + "," + J(w).t + "]"));
  };
  g.iterate_cells(
      [&](const ParticleList &c) {
        for (const ParticleData &p : c) singles.push_back(num[p.id()]);
        for (const ParticleData &a : c)
          for (const ParticleData &b : c)
            if (a.id() < b.id()) offer(a, b);
      },
      [&](const ParticleList &c, const ParticleList &n) {
        for (const ParticleData &a : c)
          for (const ParticleData &b : n) offer(a, b);
      });
  log(Rec()("op", "grid")("reset", true)("periodic", O == GridOptions::PeriodicBoundaries)("L", vh::fix(L, 1e-4))("cell", vh::fix(l, 1e-4))(
      "unformed", unf || (O == GridOptions::Normal && strat == CellSizeStrategy::Largest))("parts", parts)("offers", offers)("singles", singles)(
      "other", other));
}
// actions as [a, b, time]
static std::vector<J> found(const ActionList &l, double t0) {
  std::vector<J> r;
  for (const ActionPtr &a : l) {
    const ParticleList in = a->incoming_particles();
    long x = in[0].id(), y = in.size() > 1 ? in[1].id() : -1;
    r.push_back(std::vector<long>{std::min(x, y), std::max(x, y), vh::fix(a->time_of_execution() - t0, 1e-5)});
  }
  return r;
}
static void append(ActionList &to, ActionList from) {
  for (auto &a : from) to.push_back(std::move(a));
}
static void one_search(vh::Log &log) {
  const bool box = R->chance(0.5);
  const double L = box ? 3.0 + R->in(0, 6) : 2.0 + R->in(0, 6);
  const double dt = R->pick(std::vector<double>{0.05, 0.1, 0.3, 1.0});
  const double el = R->pick(std::vector<double>{10., 40., 100.});
  const bool cov = R->chance(0.3);
  const bool inel = R->chance(0.4);
  const double maxxs = R->pick(std::vector<double>{40., 100., 200.});
  Configuration c((std::string("General: {Modus: ") + (box ? "Box" : "Sphere") + ", End_Time: 10.0, Delta_Time: 0.1}\n" +
                      (box ? "Modi: {Box: {Length: " + std::to_string(L) + "}}\n" : "Modi: {Sphere: {Radius: 2.0}}\n") +
                      "Collision_Term: {Strings: False, Pseudoresonance: None, Total_Cross_Section_Strategy: BottomUp, Maximum_Cross_Section: " +
                      std::to_string(maxxs) + ", Collision_Criterion: " + (cov ? "Covariant" : "Geometric") +
                      (inel ? "" : ", Two_to_One: False, Included_2to2: [Elastic], Elastic_Cross_Section: " + std::to_string(el)) + "}\n").c_str(),
                  Configuration::InitializeFromYAMLString);
  const ExperimentParameters par = create_experiment_parameters(c);
  const ScatterActionsFinder f(c, par);
  c.clear();
  const double l = std::sqrt(4 * dt * dt + f.max_transverse_distance_sqr(1));
  if (box && 2 * l > L) return;
  Particles P;
  const double t0 = R->in(0, 5);
  const int N = R->in(2, 60);
  for (int k = 0; k < N; k++) {
    ParticleData p = hadron(R->pick(std::vector<std::string>{"211", "-211", "111", "2212", "2112", "321"}),
                            FourVector(t0, R->unit() * L, R->unit() * L, R->unit() * L), 1.5);
    if (R->chance(0.2)) {
      HistoryData h;
      h.id_process = R->in(1, 3);
      h.process_type = ProcessType::Elastic;
      p.set_history(std::move(h));
    }
    P.insert(p);
  }
  const std::vector<FourVector> beam;
  ActionList direct, grid, around, pairs, single, close;
  std::vector<ParticleData> all(P.copy_to_vector());
  for (size_t a = 0; a < all.size(); a++)
    for (size_t b = a + 1; b < all.size(); b++) {
      append(direct, f.find_actions_with_neighbors({all[a]}, {all[b]}, dt, beam));
      for (int w = 0; w < (box ? 27 : 1); w++) {
        const ThreeVector s = box ? ThreeVector(L * (w % 3 - 1), L * (w / 3 % 3 - 1), L * (w / 9 - 1)) : ThreeVector(0, 0, 0);
        const ThreeVector d = all[a].translated(s).position().threevec() - all[b].position().threevec();
        if (std::abs(d[0]) < l * (1 - 1e-9) && std::abs(d[1]) < l * (1 - 1e-9) && std::abs(d[2]) < l * (1 - 1e-9))
          append(close, f.find_actions_with_neighbors({all[a].translated(s)}, {all[b]}, dt, beam));
        append(pairs, f.find_actions_with_neighbors({all[a].translated(s)}, {all[b]}, dt, beam));
      }
    }
  append(single, f.find_actions_in_cell(P.copy_to_vector(), dt, 1.0, beam));
  auto cell = [&](const ParticleList &x) { append(grid, f.find_actions_in_cell(x, dt, 1.0, beam)); };
  auto nb = [&](const ParticleList &x, const ParticleList &y) { append(grid, f.find_actions_with_neighbors(x, y, dt, beam)); };
  const auto lim = R->chance(0.5) ? CellNumberLimitation::None : CellNumberLimitation::ParticleNumber;
  if (box) {
    Grid<GridOptions::PeriodicBoundaries> g({{0, 0, 0}, {L, L, L}}, P, l, dt, lim);
    g.iterate_cells(cell, nb);
  } else {
    Grid<GridOptions::Normal> g(P, l, dt, lim);
    g.iterate_cells(cell, nb);
  }
  ParticleList some;
  std::vector<J> ids;
  for (const ParticleData &p : all)
    if (some.size() < 3 && R->chance(0.3)) {
      some.push_back(p);
      ids.push_back(p.id());
    }
  append(around, f.find_actions_with_surrounding_particles(some, P, dt, beam));
  log(Rec()("op", "search")("reset", true)("box", box)("pairs", found(pairs, t0))("close", found(close, t0))("grid", found(grid, t0))("direct", found(direct, t0))(
      "single", found(single, t0))("some", ids)("around", found(around, t0)));
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  vh::Rng r(std::atoll(argv[1]));
  R = &r;
  vh::Log log(argv[4]);
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  verif_types();
  verif_decays();
  ParticleType::check_consistency();
  IsoParticleType::tabulate_integrals({}, "");
  for (int n = 0; n < std::atoi(argv[2]); n++) {
    const bool periodic = r.chance(0.5);
    ParticleData::formation_power_ = r.pick(std::vector<double>{0.0, 1.0, 2.0});
    const double l = r.pick(std::vector<double>{0.5, 1.0, 2.5, 1.7});
    const double L = l * r.pick(std::vector<double>{2.0, 2.5, 3.0, 4.0, 3.3, 5.7, 7.0, 10.0});
    const double Ly = periodic ? L : r.chance(0.3) ? 0.5 * l : r.chance(0.3) ? 12 * l : L;
    const double off = periodic ? 0 : r.in(-20, 20);
    const int N = r.chance(0.1) ? 1 : r.chance(0.3) ? r.in(2, 8) : r.in(9, 45);
    Particles P;
    const int kind = r.in(0, 5);
    for (int k = 0; k < N; k++) {
      const int kd = kind == 5 ? r.in(0, 4) : kind;
      ParticleData p = hadron("211", FourVector(1.0, off + coordinate(L, l, kd), off + coordinate(Ly, l, kd), off + coordinate(L, l, kd)), 1.0);
      const double dt = 0.1;
      if (r.chance(0.3)) {
        // formed later, begun earlier, begun in this time step, formed in this time step, just formed
        switch (r.in(0, 4)) {
          case 0: p.set_slow_formation_times(1.0 + dt + 1, 1.0 + dt + 3); break;
          case 1: p.set_slow_formation_times(0.5, 1.0 + dt + 3); break;
          case 2: p.set_slow_formation_times(1.0 + 0.5 * dt, 1.0 + 3 * dt); break;
          case 3: p.set_slow_formation_times(1.0 + 0.2 * dt, 1.0 + 0.7 * dt); break;
          default: p.set_formation_time(1.0 + 0.3 * dt);
        }
        p.set_cross_section_scaling_factor(r.chance(0.5) ? 0.0 : 0.3);
      }
      P.insert(p);
    }
    // holes in the list
    if (r.chance(0.3) && N > 4)
      for (int k = 0; k < 2; k++) P.remove(*std::next(P.begin(), r.in(0, static_cast<int>(P.size()) - 1)));
    const auto lim = r.chance(0.5) ? CellNumberLimitation::None : CellNumberLimitation::ParticleNumber;
    const bool unf = r.chance(0.3);
    const auto strat = r.chance(0.15) ? CellSizeStrategy::Largest : CellSizeStrategy::Optimal;
    if (periodic)
      one_grid<GridOptions::PeriodicBoundaries>(log, L, strat == CellSizeStrategy::Largest ? std::min(l, L / 2) : l, P, 0.1, lim, unf, strat);
    else
      one_grid<GridOptions::Normal>(log, L, strat == CellSizeStrategy::Largest ? 1e5 : l, P, 0.1, lim, unf, strat);
  }
  ParticleData::formation_power_ = 0.;
  for (int n = 0; n < std::atoi(argv[3]); n++) one_search(log);
}
