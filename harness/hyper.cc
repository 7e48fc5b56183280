// Conformance driver of the search for crossings of a surface of constant proper time.
// usage: hyper SEED ROUNDS OUT
#include "smash/action.h"
#include "smash/configuration.h"
#include "smash/hypersurfacecrossingfinder.h"
#include "smash/logging.h"
#include "smash/particles.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J; using vh::Rec; using vh::big;
int main(int, char **argv) {
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  verif_types();
  vh::Rng r(std::strtoull(argv[1], nullptr, 10));
  vh::Log log(argv[3]);
  for (int n = 0; n < std::atoi(argv[2]); n++) {
    const double tau = r.pick(std::vector<double>{0.5, 1.0, 2.3, 5.0}) + r.unit() * 0.1;
    const double ycut = r.chance(0.3) ? 0.2 + 2 * r.unit() : 0.0, ptcut = r.chance(0.3) ? 0.1 + r.unit() : 0.0;
    HyperSurfaceCrossActionsFinder f(tau, ycut, ptcut);
    Particles P;
    // particles of the same start time, as in an event
    const double t0 = r.chance(0.4) ? -6 * r.unit() : 6 * r.unit();
    std::vector<FourVector> beam;
    const int k = r.in(1, 5), nbeam = r.chance(0.3) ? r.in(0, k) : 0;
    for (int j = 0; j < k; j++) {
      ParticleData p{ParticleType::find(PdgCode(r.pick(std::vector<std::string>{"211", "2212", "2112", "2224", "321"})))};
      const double a = r.pick(std::vector<double>{0.0, 0.3, 1.0, 8.0}), b = r.pick(std::vector<double>{0.3, 0.8});
      p.set_4momentum(p.type().mass(), b * (2 * r.unit() - 1), b * (2 * r.unit() - 1), a * (2 * r.unit() - 1));
      const double vz = p.velocity().x3();
      const double z = r.pick(std::vector<double>{0, 1, 2}) < 1 ? vz * t0 + 2 * r.unit() - 1 : 10 * (2 * r.unit() - 1);
      p.set_4position(FourVector(t0, 3 * r.unit(), -3 * r.unit(), z));
      HistoryData h;
      h.collisions_per_particle = r.chance(0.4) ? 0 : r.in(1, 3);
      p.set_history(std::move(h));
      if (r.chance(0.15)) p.fluidize();
      P.insert(p);
      if (j < nbeam) {
        FourVector q(0, 0, 0, 3 * (2 * r.unit() - 1));
        q.set_x0(std::sqrt(0.88 + q.x3() * q.x3()));
        beam.push_back(q);
      }
    }
    ParticleList l = P.copy_to_vector();
    const ParticleList start = l;
    std::vector<double> found(l.size(), 0);
    std::vector<int> times(l.size(), 0);
    const double T = t0 + r.pick(std::vector<double>{0.1, 1.0, 5.0, 30.0}) * (0.05 + r.unit());
    const int steps = r.pick(std::vector<int>{1, 1, 2, 5, 20});
    bool strange = false;
    auto velocity = [&](const ParticleData &p) {
      return p.get_history().collisions_per_particle == 0 && static_cast<size_t>(p.id()) < beam.size() ? beam[p.id()].velocity() : p.velocity();
    };
    double t = t0;
    for (int s = 0; s < steps; s++) {
      const double next = s == steps - 1 ? T : t + (T - t) * (r.chance(0.2) ? r.unit() : 1.0 / (steps - s));
      ParticleList left;
      for (size_t j = 0; j < l.size(); j++)
        if (!times[j]) left.push_back(l[j]);
      for (const auto &a : f.find_actions_in_cell(left, next - t, 1., beam)) {
        bool known = false;
        for (size_t j = 0; j < l.size(); j++)
          if (a->incoming_particles().size() == 1 && a->incoming_particles()[0].id() == l[j].id()) {
            times[j]++;
            found[j] = a->time_of_execution();
            known = true;
            strange = strange || found[j] < t - 1e-6 || found[j] > next + 1e-6;
          }
        strange = strange || !known;
      }
      strange = strange || !f.find_actions_with_neighbors(l, l, next - t, beam).empty() || !f.find_actions_with_surrounding_particles(l, P, next - t, beam).empty();
      for (auto &p : l) {
        const ThreeVector v = velocity(p);
        FourVector x = p.position() + FourVector(0, v * (next - t));
        x.set_x0(next);
        p.set_4position(x);
      }
      t = next;
    }
    strange = strange || !f.find_final_actions(P).empty();
    for (size_t j = 0; j < l.size(); j++) {
      const ParticleData &p = start[j];
      log(Rec()("op", times[j] > 1 || strange ? "strange" : "find")("reset", true)("tau", big(tau))("tanhy", big(std::tanh(ycut)))("ptcut", big(ptcut))(
          "t", big(t0))("z", big(p.position().x3()))("v", big(velocity(p).x3()))("dt", big(T - t0))("core", p.is_core())("steps", steps)(
          "p", std::vector<J>{big(p.momentum().x0()), big(p.momentum().x1()), big(p.momentum().x2()), big(p.momentum().x3())})("found", times[j] == 1)("tc", big(found[j])));
    }
  }
}
