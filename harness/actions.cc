// Random chains of real interactions on a real particle list (C03, C05).
// usage: actions SEED TRACES LENGTH OUT
#include <algorithm>
#include <array>
#include <memory>
#include <optional>

#include "smash/decayaction.h"
#include "smash/fluidizationaction.h"
#include "smash/freeforallaction.h"
#include "smash/particles.h"
#include "smash/quantumnumbers.h"
#include "smash/random.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionmulti.h"
#include "smash/wallcrossingaction.h"
#include "smash/logging.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::fix;
using vh::J;
using vh::Rec;

static J vec(const FourVector &v, double unit) {
  std::vector<int64_t> r;
  for (int k = 0; k < 4; k++) r.push_back(fix(v[k], unit));
  return J(r);
}
static J full(const ParticleData &p) {
  const auto h = p.get_history();
  const double m2 = p.momentum().sqr();
  return Rec()("id", p.id())("type", p.pdgcode().string())("pid", h.id_process)("nc", h.collisions_per_particle)(
      "pt", static_cast<int>(h.process_type))("p1", h.p1.string())("p2", h.p2.string())("tl", fix(h.time_last_collision, 1e-6))(
      "x", vec(p.position(), 1e-6))("p", vec(p.momentum(), 1e-7))("m", fix(m2 > 0 ? std::sqrt(m2) : 0, 1e-5))(
      "pole", fix(p.pole_mass(), 1e-5))("min", fix(p.type().min_mass_kinematic(), 1e-5))("stable", p.type().is_stable())(
      "q", p.type().charge())("b", p.type().baryon_number())("s", p.type().strangeness())(
      "f", fix(p.formation_time(), 1e-6))("sc", fix(p.initial_xsec_scaling_factor(), 1e-6))("core", p.is_core())(
      "w", fix(p.perturbative_weight(), 1e-6))("bt", static_cast<int>(p.belongs_to())).j();
}
template <class L>
static J fulls(const L &l) {
  std::string s = "[";
  bool first = true;
  for (const auto &p : l) { s += (first ? "" : ",") + full(p).t; first = false; }
  return J::raw(s + "]");
}
static J ids(const ParticleList &l) {
  std::vector<int> v;
  for (auto &p : l) v.push_back(p.id());
  return J(v);
}
static vh::Rng *R;
static ParticleData fresh(const ParticleType &t, double time, double L) {
  ParticleData p{t};
  const double pm = R->pick<double>({0., 0.3, 1., 3., 20.});
  p.set_4momentum(t.is_stable() ? t.mass() : t.mass() * (1 + 0.2 * R->unit()), pm * (2 * R->unit() - 1),
                  pm * (2 * R->unit() - 1), pm * (2 * R->unit() - 1) + (pm == 0 && t.mass() == 0 ? 0.1 : 0));
  p.set_4position(FourVector(time, L * R->unit(), L * R->unit(), L * R->unit()));
  p.set_formation_time(time);
  if (R->chance(0.1)) {  // not yet formed
    p.set_slow_formation_times(time, time + 2 * R->unit());
    p.set_cross_section_scaling_factor(0.25 + 0.5 * R->unit());
  }
  return p;
}

struct Pending {
  std::unique_ptr<Action> a;
  ParticleList copies;
  int kind;
  double box;
};

int main(int, char **a) {
  const long long seed = std::atoll(a[1]);
  vh::Rng r(seed);
  R = &r;
  const int traces = std::atoi(a[2]), len = std::atoi(a[3]);
  vh::Log log(a[4]);
  random::set_seed(seed);
  verif_types();
  verif_decays();
  for (auto area : {"Action", "ScatterAction", "DecayModes"}) (void)area;
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  std::vector<ParticleTypePtr> types;
  for (const ParticleType &t : ParticleType::list_all())
    if (t.is_hadron() || t.is_nucleus()) types.push_back(&t);
  const std::vector<std::string> common = {"211", "-211", "111", "2212", "2112", "-2212", "-2112", "221", "321", "-321", "3122", "2224", "113", "223", "-1114", "1000010020", "12212"};
  auto charges = [](const ParticleType &t) { return std::array<int, 3>{t.charge(), t.baryon_number(), t.strangeness()}; };
  for (int n = 0; n < traces; n++) {
    auto P = std::make_unique<Particles>();
    double now = r.in(-5, 20);
    const double L = 4.0;
    const int start = r.in(3, 12);
    for (int k = 0; k < start; k++) {
      ParticleData p = fresh(ParticleType::find(PdgCode(r.pick(common))), now, L);
      if (r.chance(0.3)) { HistoryData h; h.collisions_per_particle = r.in(0, 5); p.set_history(std::move(h)); }
      P->insert(p);
    }
    log(Rec()("op", "start")("reset", true)("live", fulls(*P)));
    std::vector<Pending> pool;
    int idp = 0;
    for (int step = 0; step < len; step++) {
      // ---- find some actions from the present state
      for (int tries = 0; tries < 8; tries++) {
        std::vector<ParticleData> l(P->begin(), P->end());
        for (size_t m = l.size(); m > 1; m--) std::swap(l[m - 1], l[r.in(0, m - 1)]);
        const double dt = 0.05 + r.unit();
        const int kind = r.in(0, 9);
        std::unique_ptr<Action> act;
        ParticleList in;
        double used_box = -1;
        if ((kind <= 3) && l.size() >= 2) {
          in = {l[0], l[1]};
          const double box = r.chance(0.3) ? L : -1.;
          used_box = box;
          auto s = std::make_unique<ScatterAction>(l[0], l[1], dt, r.chance(0.5), 1., box);
          std::array<int, 3> tot;
          for (int c = 0; c < 3; c++) tot[c] = charges(l[0].type())[c] + charges(l[1].type())[c];
          const double srts = s->sqrt_s();
          bool ok = false;
          if (kind == 0) {
            s->add_collision(std::make_unique<CollisionBranch>(l[0].type(), l[1].type(), 10., ProcessType::Elastic));
            ok = srts > l[0].effective_mass() + l[1].effective_mass() + 1e-3;
          } else if (kind == 1) {
            for (auto t : types)
              if (!t->is_stable() && charges(*t) == tot && t->min_mass_kinematic() < srts && (!ok || r.chance(0.5))) {
                s = std::make_unique<ScatterAction>(l[0], l[1], dt, false, 1., box);
                s->add_collision(std::make_unique<CollisionBranch>(*t, 10., ProcessType::TwoToOne));
                ok = true;
              }
          } else if (kind == 2) {
            for (int j = 0; j < 400 && !ok; j++) {
              auto t1 = r.pick(types), t2 = r.pick(types);
              std::array<int, 3> o;
              for (int c = 0; c < 3; c++) o[c] = charges(*t1)[c] + charges(*t2)[c];
              // (below these masses the spectral functions, and so all cross sections, are zero)
              if (o == tot && t1->min_mass_spectral() + t2->min_mass_spectral() + 0.01 < srts) {
                s->add_collision(std::make_unique<CollisionBranch>(*t1, *t2, 10., ProcessType::TwoToTwo));
                ok = true;
              }
            }
          } else {
            const int m = r.in(3, 5);
            for (int j = 0; j < 2000 && !ok; j++) {
              ParticleTypePtrList o;
              std::array<int, 3> q{0, 0, 0};
              double min = 0;
              for (int z = 0; z < m; z++) {
                auto t = r.pick(types);
                if (!t->is_stable()) t = &ParticleType::find(PdgCode(r.pick<std::string>({"111", "211", "-211"})));
                o.push_back(t);
                for (int c = 0; c < 3; c++) q[c] += charges(*t)[c];
                min += t->mass();
              }
              if (q == tot && min + 0.01 < srts) {
                s->add_collision(std::make_unique<CollisionBranch>(o, 10., m == 3 ? ProcessType::TwoToThree : m == 4 ? ProcessType::TwoToFour : ProcessType::TwoToFive));
                ok = true;
              }
            }
          }
          if (ok) act = std::move(s);
        } else if (kind <= 5) {
          for (auto &p : l)
            if (!p.type().is_stable() && !act) {
              auto d = std::make_unique<DecayAction>(p, dt);
              auto w = p.type().get_partial_widths(p.momentum(), p.position().threevec(), WhichDecaymodes::Hadronic);
              if (w.empty()) continue;
              d->add_decays(std::move(w));
              in = {p};
              act = std::move(d);
            }
        } else if (kind == 6 && !l.empty()) {
          ParticleData out(l[0]);
          FourVector x = l[0].position() + FourVector(dt, l[0].velocity() * dt);
          x[1 + r.in(0, 2)] += r.chance(0.5) ? L : -L;
          out.set_4position(x);
          in = {l[0]};
          act = std::make_unique<WallcrossingAction>(l[0], out, dt);
        } else if (kind == 7 && l.size() >= 3) {
          const int m = l.size() >= 5 && r.chance(0.4) ? 5 : l.size() >= 4 && r.chance(0.2) ? 4 : 3;
          // choose species that can react: look through some random choices
          for (int j = 0; j < 60 && !act; j++) {
            for (size_t q = l.size(); q > 1; q--) std::swap(l[q - 1], l[r.in(0, q - 1)]);
            in = ParticleList(l.begin(), l.begin() + m);
            auto s = std::make_unique<ScatterActionMulti>(in, dt);
            MultiParticleReactionsBitSet all;
            all.set();
            try { s->add_possible_reactions(0.1, 8., all); } catch (const std::exception &) { continue; }
            if (s->reaction_channels().empty() || !(s->get_total_weight() > 0)) continue;
            act = std::move(s);
          }
        } else if (kind == 8 && !l.empty() && r.chance(0.4)) {
          in = {l[0]};
          FluidizationAction::remove_particle_ = r.chance(0.3);
          act = std::make_unique<FluidizationAction>(l[0], l[0], dt);
        } else if (kind == 9 && r.chance(0.5)) {
          if (r.chance(0.6)) {
            ParticleList out;
            for (int j = r.in(1, 3); j > 0; j--) out.push_back(fresh(ParticleType::find(PdgCode(r.pick(common))), now - r.unit(), L));
            act = std::make_unique<FreeforallAction>(ParticleList{}, out, now + dt);
          } else if (l.size() > 2) {
            in = {l[0], l[1]};
            act = std::make_unique<FreeforallAction>(in, ParticleList{}, now + dt);
          }
        }
        if (act) pool.push_back({std::move(act), in, kind, used_box});
        if (pool.size() > 5) break;
      }
      if (pool.empty()) continue;
      // ---- which of them are still up to date?
      const size_t pick = r.in(0, pool.size() - 1);
      std::string v = "[";
      for (size_t k = 0; k < pool.size(); k++) {
        Rec c;
        std::string cp = "[";
        for (size_t m = 0; m < pool[k].copies.size(); m++)
          cp += (m ? "," : "") + Rec()("id", pool[k].copies[m].id())("pid", pool[k].copies[m].id_process()).j().t;
        v += (k ? "," : "") + c("copies", J::raw(cp + "]"))("valid", pool[k].a->is_valid(*P)).j().t;
      }
      log(Rec()("op", "check")("pool", J::raw(v + "]")));
      Pending x = std::move(pool[pick]);
      pool.erase(pool.begin() + pick);
      if (pool.size() > 6) pool.clear();
      if (!x.a->is_valid(*P)) continue;
      // ---- free motion up to its time, then perform
      const double t = x.a->time_of_execution();
      if (x.kind != 8 && x.kind != 6) {
        for (ParticleData &p : *P) p.set_4position(p.position() + FourVector(t - p.position().x0(), p.velocity() * (t - p.position().x0())));
        now = std::max(now, t);
        log(Rec()("op", "move")("live", fulls(*P)));
      }
      x.a->update_incoming(*P);
      const ParticleList before = x.a->incoming_particles();
      std::string res = "ok";
      try {
        const bool rm = FluidizationAction::remove_particle_;
        if (x.a->get_type() == ProcessType::Fluidization) FluidizationAction::remove_particle_ = true;
        if (x.a->get_type() == ProcessType::FluidizationNoRemoval) FluidizationAction::remove_particle_ = false;
        (void)rm;
        x.a->generate_final_state();
      } catch (const std::runtime_error &e) { res = "refused"; }
      catch (const std::invalid_argument &e) { res = "refused"; }
      if (res == "ok") {
        idp++;
        try { x.a->perform(P.get(), idp); } catch (const std::exception &e) { res = std::string("failed: ") + e.what(); }
      }
      const ParticleList out = res == "ok" ? x.a->outgoing_particles() : ParticleList{};
      if (res != "ok" && res != "refused") { log(Rec()("op", "perform")("res", res)("in", fulls(before))); break; }
      log(Rec()("op", "perform")("res", res)("kind", static_cast<int>(x.a->get_type()))("t", fix(t, 1e-6))("n", idp)(
          "in", fulls(before))("out", fulls(out))("live", fulls(*P))("box", x.box > 0 ? fix(x.box, 1e-6) : 0));
      if (P->size() < 3)
        for (int k = 0; k < 4; k++) {
          ParticleData p = fresh(ParticleType::find(PdgCode(r.pick(common))), now, L);
          P->insert(p);
          if (k == 3) { log(Rec()("op", "start")("live", fulls(*P))); pool.clear(); }
        }
    }
  }
}
