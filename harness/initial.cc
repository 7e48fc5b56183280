// What the real modi prepare as initial state of events.
// usage: initial CASES OUT; CASES: one case per line, tab separated: modus, calls, testparticles, box length, the Modi section as one line of YAML
#include <sstream>
#include "smash/boxmodus.h"
#include "smash/collidermodus.h"
#include "smash/configuration.h"
#include "smash/experimentparameters.h"
#include "smash/logging.h"
#include "smash/random.h"
#include "smash/spheremodus.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;
using vh::big;

namespace smash {
ExperimentParameters create_experiment_parameters(Configuration &config);
}
static J vec(const FourVector &v) { return J(std::vector<J>{big(v[0]), big(v[1]), big(v[2]), big(v[3])}); }

template <class M>
static void use(M &m, int calls, const ExperimentParameters &par, Rec &r) {
  std::vector<J> out;
  for (int k = 0; k < calls; k++) {
    Particles ps;
    Rec e;
    std::string res = "ok";
    double start = 0;
    try {
      if constexpr (std::is_same_v<M, ColliderModus>) {
        m.sample_impact();
        e("b", big(m.impact_parameter()))("sqrtsnn", big(m.sqrt_s_NN()));
        e("pass", big(m.nuclei_passing_time()));
      }
      start = m.initial_conditions(&ps, par);
      if constexpr (std::is_same_v<M, ColliderModus>)
        if (m.fermi_motion() == FermiMotion::Frozen) e("va", big(m.velocity_projectile()))("vb", big(m.velocity_target()));
    } catch (const std::exception &x) { res = "refused"; }
    e("res", res)("start", big(start));
    std::vector<J> v;
    if (res == "ok")
      for (const auto &p : ps) {
        Rec q;
        const auto h = p.get_history();
        q("id", p.id())("pdg", p.pdgcode().string())("own", static_cast<int>(p.belongs_to()))("r", vec(p.position()))("p", vec(p.momentum()))(
            "f", big(p.formation_time()))("xs", big(p.xsec_scaling_factor()))("n", h.collisions_per_particle)("proc", static_cast<int>(h.process_type))(
            "pole", big(p.pole_mass()));
        v.push_back(q.j());
      }
    e("ps", J(v));
    out.push_back(e.j());
  }
  r("calls", J(out));
}

int main(int, char **a) {
  verif_types();
  verif_decays();
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  std::istringstream in(verif_slurp(a[1]));
  vh::Log log(a[2]);
  std::string line;
  int n = 0;
  while (std::getline(in, line)) {
    std::vector<std::string> f;
    std::istringstream ls(line);
    for (std::string x; std::getline(ls, x, '\t');) f.push_back(x);
    random::set_seed(977 + n++);
    const std::string len = f[3] == "0" ? "10.0" : f[3];
    Configuration base(("General: {Modus: Box, End_Time: 10.0, Delta_Time: 0.1, Testparticles: " + f[2] + "}\nModi: {Box: {Length: " + len + "}}").c_str(),
                       Configuration::InitializeFromYAMLString);
    ExperimentParameters par = create_experiment_parameters(base);
    base.clear();
    Rec r;
    std::string ctor = "ok", why;
    std::unique_ptr<ColliderModus> c;
    std::unique_ptr<BoxModus> b;
    std::unique_ptr<SphereModus> s;
    try {
      Configuration m(("Modi: " + f[4]).c_str(), Configuration::InitializeFromYAMLString);
      try {
        if (f[0] == "Collider") c = std::make_unique<ColliderModus>(m.extract_complete_sub_configuration(InputSections::modi), par);
        else if (f[0] == "Box") b = std::make_unique<BoxModus>(m.extract_complete_sub_configuration(InputSections::modi), par);
        else s = std::make_unique<SphereModus>(m.extract_complete_sub_configuration(InputSections::modi), par);
      } catch (...) {
        try { m.clear(); } catch (...) {}
        throw;
      }
    } catch (const std::exception &e) { ctor = "refused"; why = e.what(); }
    r("ctor", ctor)("why", why);
    if (c) use(*c, std::stoi(f[1]), par, r);
    else if (b) use(*b, std::stoi(f[1]), par, r);
    else if (s) use(*s, std::stoi(f[1]), par, r);
    else r("calls", J(std::vector<J>{}));
    log(r);
  }
}
