// Reaction channels offered to pairs of particles by the real ScatterAction.
// usage: channels PARTICLES DECAYS SEED NUM OUT
#include "smash/experiment.h"
#include "smash/scatteraction.h"
#include "smash/scatteractionsfinder.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;

static const std::vector<std::string> CLASSES = {"Elastic", "NN_to_NR", "NN_to_DR", "KN_to_KN", "KN_to_KDelta", "Strangeness_exchange", "NNbar",
                                                 "PiDeuteron_to_NN", "PiDeuteron_to_pidprime", "NDeuteron_to_Ndprime"};
struct Switches {
  std::vector<bool> on = std::vector<bool>(10, true);
  bool two_to_one = true, to3 = false, to4 = false;
  std::string nnbar = "no annihilation";
  bool top = false;
  double elastic = -1, scale = 1, extra = 0, cutoff = 1.98;
};
static std::string text(const Switches &s) {
  std::string l, m;
  for (int k = 0; k < 10; k++)
    if (s.on[k]) l += (l.empty() ? "" : ", ") + CLASSES[k];
  if (s.to3) m += "Deuteron_3to2";
  if (s.to4) m += std::string(m.empty() ? "" : ", ") + "A3_Nuclei_4to2";
  char b[2000];
  std::snprintf(b, sizeof b,
                "General: {Modus: Sphere, Time_Step_Mode: Fixed, Delta_Time: 0.1, End_Time: 1.0, Nevents: 1, Randomseed: 1}\n"
                "Collision_Term: {Strings: False, Two_to_One: %s, Included_2to2: [%s], Multi_Particle_Reactions: [%s], NNbar_Treatment: %s, "
                "%sElastic_NN_Cutoff_Sqrts: %g, Cross_Section_Scaling: %.17g, Additional_Elastic_Cross_Section: %.17g, Pseudoresonance: None, "
                "Total_Cross_Section_Strategy: %s, Collision_Criterion: %s}\nOutput: {}\n"
                "Modi: {Sphere: {Radius: 1.0, Temperature: 0.2, Start_Time: 0.0, Init_Multiplicities: {211: 1}}}\n",
                s.two_to_one ? "True" : "False", l.c_str(), m.c_str(), s.nnbar.c_str(),
                s.elastic > 0 ? ("Elastic_Cross_Section: " + std::to_string(s.elastic) + ", ").c_str() : "", s.cutoff, s.scale, s.extra, s.top ? "TopDown" : "BottomUp",
                s.to3 || s.to4 || s.nnbar == "two to five" ? "Stochastic" : "Geometric");
  return b;
}
static J sw(const Switches &s) {
  std::vector<J> v;
  for (int k = 0; k < 10; k++)
    if (s.on[k]) v.push_back(J(CLASSES[k]));
  return Rec()("on", J(v))("res", s.two_to_one)("to3", s.to3)("to4", s.to4)("nnbar", s.nnbar).j();
}
struct Offer {
  std::vector<std::tuple<int, std::vector<std::string>, double>> c;
  double total = 0, weight = 0;
  std::string res = "ok";
  int proc = 0;
  std::vector<std::string> out;
  double sum_w = 0;
};

static Offer offer(const ParticleData &a, const ParticleData &b, const Switches &s, bool perform) {
  Offer o;
  Configuration conf(text(s).c_str(), Configuration::InitializeFromYAMLString);
  ExperimentParameters par = create_experiment_parameters(conf);
  ScatterActionsFinderParameters fp(conf, par);
  conf.clear();
  try {
    ScatterAction act(a, b, 0.0, false, 1.0, -1.0, s.top);
    if (s.top) act.set_parametrized_total_cross_section(fp);
    act.add_all_scatterings(fp);
    for (const auto &p : act.collision_channels()) {
      std::vector<std::string> t;
      for (const auto &x : p->particle_types()) t.push_back(x->pdgcode().string());
      std::sort(t.begin(), t.end());
      o.c.push_back({static_cast<int>(p->get_type()), t, p->weight()});
    }
    o.total = act.cross_section();
    o.weight = act.get_total_weight();
    if (perform && o.total > 0) {
      act.generate_final_state();
      o.proc = static_cast<int>(act.get_type());
      for (const auto &p : act.outgoing_particles()) o.out.push_back(p.pdgcode().string());
      std::sort(o.out.begin(), o.out.end());
    }
  } catch (const std::exception &e) { o.res = std::string("failed: ") + e.what(); }
  return o;
}
static J json(const Offer &o, double unit) {
  std::vector<J> v;
  auto num = [&](double w) { return std::isnan(w) ? J(-2000000000) : J(static_cast<int>(std::llround(std::max(-2e9, std::min(2e9, w / unit))))); };
  for (const auto &[p, t, w] : o.c) v.push_back(Rec()("proc", p)("out", J(t))("w", num(w))("neg", !(w >= 0))("some", w > 0).j());
  return Rec()("res", o.res)("c", J(v))("total", num(o.total))("proc", o.proc)("final", J(o.out)).j();
}
static std::string kind(const ParticleType &t) {
  const PdgCode c = t.pdgcode();
  if (c.is_nucleon()) return "N";
  if (t.is_dprime()) return "d'";
  if (c.is_deuteron()) return "d";
  if (c.is_nucleus()) return "nucleus";
  if (c.is_Delta()) return "D";
  if (t.is_Nstar()) return "N*";
  if (t.is_Deltastar()) return "D*";
  if (c.is_pion()) return "pi";
  if (c.is_kaon()) return "K";
  if (c.is_hyperon()) return "Y";
  if (c.is_meson()) return "meson";
  if (c.is_baryon()) return "baryon";
  return "other";
}

int main(int, char **a) {
  set_default_loglevel(einhard::OFF);
  ParticleType::create_type_list(verif_slurp(a[1]));
  DecayModes::load_decaymodes(verif_slurp(a[2]));
  ParticleType::check_consistency();
  IsoParticleType::tabulate_integrals({}, "");
  vh::Rng rng(std::stoul(a[3]));
  const int num = std::stoi(a[4]);
  vh::Log log(a[5]);
  random::set_seed(std::stoul(a[3]) + 5);
  std::vector<J> T;
  std::vector<ParticleTypePtr> ts;
  for (const auto &t : ParticleType::list_all()) {
    if (!t.is_hadron() && !t.is_nucleus() && !t.is_dprime()) continue;
    ts.push_back(&t);
    const PdgCode c = t.pdgcode();
    T.push_back(Rec()("pdg", c.string())("q", t.charge())("b", t.baryon_number())("s", t.strangeness())("c", c.charmness())(
                          "min", static_cast<int>(std::llround(t.min_mass_kinematic() * 1e6)))("kind", kind(t))("sign", c.antiparticle_sign())(
                          "stable", t.is_stable()).j());
  }
  log(Rec()("op", "types")("T", J(T))("reset", true));
  auto make = [&](const ParticleType &t) {
    ParticleData p{t};
    double m = t.is_stable() ? t.mass() : std::max(t.min_mass_kinematic() + 1e-4, t.mass() + (rng.unit() - 0.5) * t.width_at_pole());
    p.set_4momentum(m, ThreeVector(0, 0, 0));
    p.set_4position(FourVector(0, 0, 0, 0));
    return p;
  };
  // most pairs of all types only scatter elastically
  std::vector<ParticleTypePtr> some;
  for (const auto &t : ts) {
    const std::string k = kind(*t);
    if (k == "N" || k == "K" || k == "pi" || k == "Y" || k == "D" || k == "d" || k == "d'" || k == "nucleus" || t->pdgcode() == pdg::h1 || t->pdgcode() == pdg::rho_z)
      some.push_back(t);
  }
  for (int n = 0; n < num; n++) {
    const bool two = rng.chance(0.7);
    const ParticleType &ta = *(two ? rng.pick(some) : rng.pick(ts)), &tb = *(two || rng.chance(0.4) ? rng.pick(some) : rng.pick(ts));
    ParticleData pa = make(ta), pb = make(tb);
    const double ma = pa.effective_mass(), mb = pb.effective_mass();
    const double over = rng.chance(0.25) ? rng.unit() * 0.05 : rng.chance(0.7) ? rng.unit() * 1.5 : rng.unit() * 6;
    const double sq = ma + mb + over + 1e-5, p = pCM(sq, ma, mb);
    pa.set_4momentum(ma, 0, 0, p);
    pb.set_4momentum(mb, 0, 0, -p);
    pa.set_4position(FourVector(0, 0, 0, 0));
    pb.set_4position(FourVector(0, 0.1, 0, 0));
    Switches all, part;
    if (rng.chance(0.2)) all.elastic = 5 + 20 * rng.unit();
    if (rng.chance(0.2)) all.scale = 0.3 + rng.unit();
    if (rng.chance(0.2)) all.extra = 10 * rng.unit();
    if (rng.chance(0.3)) all.nnbar = rng.chance(0.5) ? "resonances" : "two to five";
    if (all.nnbar != "two to five" && rng.chance(0.3)) {
      // direct reactions of light nuclei replace those through resonances
      all.to3 = rng.chance(0.7);
      all.to4 = !all.to3 || rng.chance(0.5);
      if (all.to3) all.on[8] = all.on[9] = false;
    }
    // without the class of the option these are not available
    if (all.nnbar == "no annihilation") all.on[6] = false;
    if (all.nnbar != "two to five" && rng.chance(0.2)) all.top = true;
    part = all;
    for (int k = 0; k < 10; k++)
      if (k != 6 && rng.chance(0.4)) part.on[k] = false;
    // a total cross section cannot be given for elastic scatterings alone
    if (all.top) part.on[1] = all.on[1] = true;
    if (rng.chance(0.3)) part.two_to_one = false;
    if (rng.chance(0.3)) part.to3 = part.to4 = false;
    const Offer x = offer(pa, pb, all, true), y = offer(pb, pa, all, false), z = offer(pa, pb, part, true);
    double unit = std::max({x.total, y.total, z.total, 1e-6}) / 1e7;
    log(Rec()("op", "pair")("a", ta.pdgcode().string())("b", tb.pdgcode().string())("sqrts", static_cast<int>(std::llround(sq * 1e6)))("sw", sw(all))("psw", sw(part))(
        "x", json(x, unit))("y", json(y, unit))("z", json(z, unit))("top", all.top)("low", sq < all.cutoff));
  }
}
