// Records wall crossings found and performed by the real code (C08).
// usage: walls SEED SEARCHES BOXES OUT
#include <memory>

#include "smash/boxmodus.h"
#include "smash/configuration.h"
#include "smash/experiment.h"
#include "smash/listmodus.h"
#include "smash/logging.h"
#include "smash/outputinterface.h"
#include "smash/particles.h"
#include "smash/wallcrossingaction.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;
static vh::Rng *R;
static constexpr double U = 1e-6;

struct Counter : OutputInterface {
  int n = 0, bad = 0;
  Counter() : OutputInterface("Collisions") {}
  void at_interaction(const Action &a, const double) override {
    n++;
    if (a.get_type() != ProcessType::Wall || a.incoming_particles().size() != 1 || a.outgoing_particles().size() != 1 ||
        a.incoming_particles()[0].id() != a.outgoing_particles()[0].id())
      bad++;
  }
};
static std::vector<long> pos(const ParticleData &p) {
  return {vh::fix(p.position()[1], U), vh::fix(p.position()[2], U), vh::fix(p.position()[3], U)};
}
static bool same(const ParticleData &a, const ParticleData &b) {
  const auto g = a.get_history(), h = b.get_history();
  return a.id() == b.id() && a.type() == b.type() && a.momentum() == b.momentum() && a.formation_time() == b.formation_time() &&
         a.begin_formation_time() == b.begin_formation_time() && a.belongs_to() == b.belongs_to() && a.is_core() == b.is_core() &&
         a.initial_xsec_scaling_factor() == b.initial_xsec_scaling_factor() && a.perturbative_weight() == b.perturbative_weight() &&
         g.collisions_per_particle == h.collisions_per_particle && g.id_process == h.id_process && g.process_type == h.process_type &&
         g.p1 == h.p1 && g.p2 == h.p2 && a.spin_vector() == b.spin_vector() &&
         (g.time_last_collision == h.time_last_collision || (std::isnan(g.time_last_collision) && std::isnan(h.time_last_collision)));
}
static ParticleData random_particle(double L, bool outside) {
  ParticleData p{ParticleType::find(PdgCode(R->pick(std::vector<std::string>{"211", "2212", "22", "-321"})))};
  auto comp = [&]() {
    switch (R->in(0, 4)) {
      case 0: return 0.0;
      case 1: return R->in(0, 1) ? 1.0 : -1.0;
      case 2: return (2 * R->unit() - 1) * 1e-3;
      default: return 2 * R->unit() - 1;
    }
  };
  ThreeVector k(comp(), comp(), comp());
  if (p.type().mass() == 0 && k.abs() < 1e-6) k = ThreeVector(1, 0, 0);
  p.set_4momentum(p.type().mass(), k);
  auto coord = [&]() {
    if (outside && R->chance(0.4)) {
      const double reach = (R->chance(0.4) ? 5.0 : 0.99) * L * R->unit();
      return R->in(0, 1) ? -reach : L + reach;
    }
    switch (R->in(0, 5)) {
      case 0: return 0.0;
      case 1: return L * 0.5;
      case 2: return L - 1e-3 * R->unit();
      case 3: return 1e-3 * R->unit();
      case 4: return outside ? 0.0 : L;
      default: return L * R->unit();
    }
  };
  p.set_4position(FourVector(R->in(-3, 20) + R->unit(), coord(), coord(), coord()));
  p.set_slow_formation_times(R->unit(), 5 * R->unit() + 1);
  p.set_cross_section_scaling_factor(R->unit());
  p.set_belongs_to(static_cast<BelongsTo>(R->in(0, 2)));
  p.set_spin_vector(FourVector(0, R->unit(), R->unit(), R->unit()));
  HistoryData h;
  h.collisions_per_particle = R->in(0, 4);
  h.id_process = R->in(0, 9);
  h.process_type = ProcessType::Elastic;
  h.time_last_collision = R->unit();
  h.p1 = PdgCode(0x211);
  p.set_history(std::move(h));
  return p;
}

int main(int argc, char **argv) {
  if (argc < 5) return 2;
  vh::Rng r(std::atoll(argv[1]));
  R = &r;
  vh::Log log(argv[4]);
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  verif_types();
  verif_decays();
  for (int n = 0; n < std::atoi(argv[2]); n++) {
    const double L = r.pick(std::vector<double>{1.0, 5.0, 10.0, 7.3, 20.0});
    const double tmax = r.pick(std::vector<double>{0.01, 0.1, 1.0, 5.0, 30.0});
    WallCrossActionsFinder f(L);
    Particles P;
    ParticleList in;
    const int k = r.in(1, 4);
    for (int j = 0; j < k; j++) {
      P.insert(random_particle(L, false));
      in.push_back(P.back());
    }
    // follow the first particle through several walls
    ParticleData p = in[0];
    double left = tmax;
    uint32_t process = 5;
    for (int hop = 0; hop < 6; hop++) {
      ActionList l = f.find_actions_in_cell(hop ? ParticleList{p} : in, left, 1.0, {});
      const Action *mine = nullptr;
      int found = 0;
      for (const ActionPtr &a : l)
        if (a->incoming_particles()[0].id() == p.id()) {
          found++;
          mine = a.get();
        }
      const ThreeVector v = p.velocity();
      Rec q;
      q("op", "search")("reset", true)("L", vh::fix(L, U))("x", pos(p))("xt", vh::fix(p.position().x0(), U))(
          "v", std::vector<long>{vh::fix(v[0], 1e-6), vh::fix(v[1], 1e-6), vh::fix(v[2], 1e-6)})("max", vh::fix(left, U))("found", found);
      if (!found) {
        log(q);
        break;
      }
      const double t = mine->time_of_execution();
      for (const ActionPtr &a : l)
        if (a.get() == mine) {
          a->generate_final_state();
          if (a->is_valid(P)) a->perform(&P, process++);
        }
      ParticleData after = p;
      for (const ParticleData &d : P)
        if (d.id() == p.id()) after = d;
      q("t", vh::fix(t - p.position().x0(), U))("y", pos(after))("yt", vh::fix(after.position().x0(), U))(
          "same", same(p, after) && P.size() == in.size() && mine->get_type() == ProcessType::Wall);
      log(q);
      left -= t - p.position().x0();
      p = after;
      if (left <= 1e-5) break;
    }
    // nothing to be found with neighbours or the rest
    if (!f.find_actions_with_neighbors(in, in, tmax, {}).empty() || !f.find_actions_with_surrounding_particles(in, P, tmax, {}).empty())
      log(Rec()("op", "unexpected"));
  }
  for (int n = 0; n < std::atoi(argv[3]); n++) {
    const double L = r.pick(std::vector<double>{5.0, 10.0, 7.3});
    const std::string ls = std::to_string(L);
    Configuration c(("General: {Modus: Box, End_Time: 10.0, Delta_Time: 0.1}\nModi: {Box: {Length: " + ls +
                     ", Temperature: 0.2, Start_Time: 0.0, Initial_Condition: peaked momenta, Init_Multiplicities: {2212: 1}}}\n").c_str(),
                    Configuration::InitializeFromYAMLString);
    const ExperimentParameters par = create_experiment_parameters(c);
    c.clear();
    Configuration m(("Modi: {Box: {Length: " + ls +
                     ", Temperature: 0.2, Start_Time: 0.0, Initial_Condition: peaked momenta, Init_Multiplicities: {2212: 1}}}\n").c_str(),
                    Configuration::InitializeFromYAMLString);
    BoxModus box(std::move(m), par);
    Particles P;
    const int k = r.in(0, 12);
    for (int j = 0; j < k; j++) P.insert(random_particle(L, true));
    if (k > 5) P.remove(P.front());
    ParticleList before = P.copy_to_vector();
    OutputsList out;
    out.emplace_back(std::make_unique<Counter>());
    const int wraps = box.impose_boundary_conditions(&P, out);
    const Counter &cnt = static_cast<const Counter &>(*out.front());
    bool ok = cnt.bad == 0 && before.size() == P.size();
    std::vector<J> b, a;
    size_t j = 0;
    for (const ParticleData &p : P) {
      ok = ok && j < before.size() && same(before[j], p) && before[j].position().x0() == p.position().x0();
      if (j < before.size()) b.push_back(pos(before[j]));
      a.push_back(pos(p));
      j++;
    }
    log(Rec()("op", "impose")("reset", true)("L", vh::fix(L, U))("before", b)("after", a)("n", wraps)("reported", cnt.n)("same", ok));
  }
}
