// Conformance driver of decays: what the real finder offers for random particles, and what decays give.
// usage: decays SEED ROUNDS OUT PARTICLES DECAYMODES
#include <algorithm>
#include <memory>
#include "smash/configuration.h"
#include "smash/decayaction.h"
#include "smash/decayactionsfinder.h"
#include "smash/logging.h"
#include "smash/particles.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J; using vh::Rec; using vh::fix;
constexpr double U = 1e-6;
static int index_of(const ParticleType &t) { return static_cast<int>(std::addressof(t) - std::addressof(ParticleType::list_all()[0])) + 1; }
static std::vector<int> outs(const ParticleTypePtrList &l) {
  std::vector<int> r;
  for (const auto &t : l) r.push_back(index_of(*t));
  std::sort(r.begin(), r.end());
  return r;
}
static J table() {
  std::string s = "[";
  for (const ParticleType &t : ParticleType::list_all()) {
    std::string m;
    for (const auto &d : t.decay_modes().decay_mode_list()) {
      bool lep[2] = {false, false};
      for (const auto &x : d->particle_types()) {
        const int c = x->pdgcode().get_decimal();
        if (c == 11 || c == 13) lep[0] = true;
        if (c == -11 || c == -13) lep[1] = true;
      }
      m += (m.empty() ? "" : ",") + Rec()("out", outs(d->particle_types()))("dilepton", lep[0] && lep[1]).j().t;
    }
    s += (s.size() > 1 ? "," : "") + Rec()("mass", fix(t.mass(), U))("stable", t.width_at_pole() < 1e-5)("pdg", t.pdgcode().get_decimal())("modes", J::raw("[" + m + "]")).j().t;
  }
  return J::raw(s + "]");
}
static J particle(const ParticleData &p, double m) {
  return Rec()("k", index_of(p.type()))("m", fix(m, U))("t", fix(p.position().x0(), U))("f", fix(p.formation_time(), U))(
             "xs", fix(p.initial_xsec_scaling_factor(), U))("formed", p.xsec_scaling_factor() >= 1.0)("nc", p.get_history().collisions_per_particle).j();
}
int main(int, char **argv) {
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  ParticleType::create_type_list(verif_slurp(argv[4]));
  DecayModes::load_decaymodes(verif_slurp(argv[5]));
  vh::Rng r(std::strtoull(argv[1], nullptr, 10));
  random::set_seed(r.next());
  vh::Log log(argv[3]);
  if (std::atoi(argv[2]) == 0) {  // only the table
    log(Rec()("op", "types")("reset", true)("T", table()));
    return 0;
  }
  const ParticleTypeList &types = ParticleType::list_all();
  const J T = table();
  auto make = [&](double now) {
    const ParticleType &t = r.pick(types);
    ParticleData p{t};
    double m = t.mass();
    if (t.width_at_pole() > 1e-5) {
      double lo = 1e9;
      for (const auto &b : t.decay_modes().decay_mode_list())
        if (!b->type().is_dilepton_decay()) {
          // next to the threshold of broad daughters nothing is open
          double broad = 0;
          for (const auto &x : b->particle_types()) broad = std::max(broad, x->is_stable() ? 0 : 0.1);
          lo = std::min(lo, b->threshold() + broad);
        }
      switch (r.in(0, 5)) {
        case 0: break;
        case 1: m = lo + 0.02 * r.unit() + 1e-4; break;
        case 2: m = t.mass() + r.unit(); break;
        case 3: m = std::max(lo + 1e-4, t.mass() - 0.4 * r.unit()); break;
        default: m = std::max(lo + 1e-4, t.mass() + t.width_at_pole() * (2 * r.unit() - 1));
      }
    }
    const double pm = r.pick(std::vector<double>{0.0, 0.5, 5.0});
    ThreeVector k(pm * (2 * r.unit() - 1), pm * (2 * r.unit() - 1), pm * (2 * r.unit() - 1));
    if (m < 1e-6 && k.abs() < 1e-3) k = ThreeVector(0, 0, 1);
    p.set_4momentum(m, k);
    p.set_4position(FourVector(now, 5 * r.unit(), 5 * r.unit(), 5 * r.unit()));
    HistoryData h;
    h.collisions_per_particle = r.chance(0.4) ? 0 : r.in(1, 4);
    p.set_history(std::move(h));
    if (r.chance(0.4)) {
      p.set_slow_formation_times(now - r.unit(), now + r.pick(std::vector<double>{0.05, 0.5, 3.0}) * r.unit() + 1e-3);
      p.set_cross_section_scaling_factor(r.pick(std::vector<double>{0.0, 0.3, 0.99, 1.0}));
    } else p.set_formation_time(now - r.unit());
    if (r.chance(0.2)) p.fluidize();
    return p;
  };
  auto final_state = [&](Action &a, const ParticleData &p, Particles &P, double t, bool in_list) {
    std::string res = "ok";
    Rec q;
    q("op", "decay")("p", particle(p, p.momentum().abs()))("final", !in_list)("t", fix(t, U));
    try {
      a.generate_final_state();
      P.insert(p);
    } catch (const std::exception &e) { res = "failed"; }
    q("res", res);
    std::vector<J> o;
    if (res == "ok")
      for (const ParticleData &x : a.outgoing_particles())
        o.push_back(Rec()("k", index_of(x.type()))("m", fix(x.momentum().abs(), U))("f", fix(x.formation_time(), U))("formed", x.xsec_scaling_factor() >= 1.0)(
            "core", x.is_core() == p.is_core())("x", std::vector<long>{fix(x.position().x0(), U), fix(x.position().x1(), U), fix(x.position().x2(), U), fix(x.position().x3(), U)}).j());
    const double dt = t - p.position().x0();
    const FourVector at = p.position() + FourVector(dt, p.velocity() * dt);
    log(q("out", o)("at", std::vector<long>{fix(t, U), fix(at.x1(), U), fix(at.x2(), U), fix(at.x3(), U)}));
  };
  for (int n = 0; n < std::atoi(argv[2]); n++) {
    if (n % 100 == 0) log(Rec()("op", "types")("reset", true)("T", T));
    const double now = r.in(0, 30) + r.unit();
    Particles P;
    const int k = r.in(1, 7);
    for (int j = 0; j < k; j++) P.insert(make(now));
    const bool force = r.chance(0.7), every = r.chance(0.4), initial = r.chance(0.6);
    const double factor = r.pick(std::vector<double>{1e-12, 1e-12, 1.0, 1.0, 0.1});
    const double dt = r.pick(std::vector<double>{0.1, 1.0, 0.01, 5.0});
    DecayActionsFinder f(factor, every, force, SpinInteractionType::Off, initial);
    const ParticleList l = P.copy_to_vector();
    std::vector<J> ps;
    for (const auto &p : l) ps.push_back(particle(p, p.momentum().abs()));
    ActionList found = f.find_actions_in_cell(l, dt, 1., {});
    auto which = [&](const ActionPtr &a) {
      for (size_t j = 0; j < l.size(); j++)
        if (a->incoming_particles().size() == 1 && a->incoming_particles()[0].id() == l[j].id()) return static_cast<int>(j) + 1;
      return 0;
    };
    std::vector<J> fs;
    for (const auto &a : found) fs.push_back(Rec()("n", which(a))("t", fix(a->time_of_execution(), U)).j());
    log(Rec()("op", "search")("ps", ps)("dt", fix(dt, U))("sure", factor < 1e-9)("initial", initial)("found", fs));
    if (!f.find_actions_with_neighbors(l, l, dt, {}).empty() || !f.find_actions_with_surrounding_particles(l, P, dt, {}).empty()) log(Rec()("op", "unexpected"));
    // which modes are offered
    for (const auto &p : l) {
      const bool all = r.chance(0.4);
      std::vector<J> ms;
      for (const auto &b : p.type().get_partial_widths(p.momentum(), p.position().threevec(), all ? WhichDecaymodes::All : WhichDecaymodes::Hadronic))
        ms.push_back(Rec()("out", outs(b->particle_types()))("ok", b->weight() > 0).j());
      log(Rec()("op", "modes")("p", particle(p, p.momentum().abs()))("all", all)("modes", ms));
    }
    for (const auto &a : found) {
      Particles tmp;
      ParticleData p = a->incoming_particles()[0];
      const double t = a->time_of_execution();
      const ParticleData old = p;
      // the particle moves freely until then
      P.update_particle(P.lookup(p), [&] { ParticleData q = p; q.set_4position(p.position() + FourVector(t - now, p.velocity() * (t - now))); return q; }());
      a->update_incoming(P);
      final_state(*a, old, tmp, t, true);
    }
    Particles Q;
    for (const auto &p : l) Q.insert(p);
    const ParticleList l2 = Q.copy_to_vector();
    ActionList fin = f.find_final_actions(Q);
    fs.clear();
    for (const auto &a : fin) {
      int w = 0;
      for (size_t j = 0; j < l2.size(); j++)
        if (a->incoming_particles()[0].id() == l2[j].id()) w = static_cast<int>(j) + 1;
      fs.push_back(Rec()("n", w)("t", fix(a->time_of_execution(), U)).j());
    }
    log(Rec()("op", "final")("ps", ps)("force", force)("every", every)("found", fs));
    for (const auto &a : fin) {
      Particles tmp;
      final_state(*a, a->incoming_particles()[0], tmp, now, false);
    }
  }
}
