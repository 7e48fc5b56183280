// What the real list modus makes of files with particle lists.
// usage: listin CASES OUT; CASES: one case per line, tab separated:
//   dir, Filename or -, File_Prefix or -, shift, calls, fields (comma separated, - for none, * for the default), box length or 0, ensembles, spin 0/1
#include <sstream>
#include "smash/configuration.h"
#include "smash/experimentparameters.h"
#include "smash/logging.h"
#include "smash/listmodus.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;

namespace smash {
ExperimentParameters create_experiment_parameters(Configuration &config);
}
static J big(double x) {  // multiples of 1e-9 as a number of BigInt.tla
  if (!std::isfinite(x) || std::abs(x) > 4e9) return J::raw("[1,9999,9999,9999,9999,9999,9999]");
  int64_t v = std::llrint(x * 1e9);
  if (v == 0) return J::raw("[0]");
  std::string s = v < 0 ? "[-1" : "[1";
  for (uint64_t u = v < 0 ? -v : v; u; u /= 10000) s += "," + std::to_string(u % 10000);
  return J::raw(s + "]");
}
static J vec(const FourVector &v) { return J(std::vector<J>{big(v[0]), big(v[1]), big(v[2]), big(v[3])}); }

int main(int, char **a) {
  verif_types();
  verif_decays();
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  Configuration base("General: {Modus: Box, End_Time: 10.0, Delta_Time: 1.0}\nModi: {Box: {Length: 10.0}}",
                     Configuration::InitializeFromYAMLString);
  ExperimentParameters par = create_experiment_parameters(base);
  base.clear();
  std::istringstream in(verif_slurp(a[1]));
  vh::Log log(a[2]);
  std::string line;
  auto list = [](const std::string &s) {
    std::string r;
    for (char c : s) r += c == ',' ? std::string(", ") : std::string(1, c);
    return "[" + r + "]";
  };
  while (std::getline(in, line)) {
    std::vector<std::string> f;
    std::istringstream ls(line);
    for (std::string x; std::getline(ls, x, '\t');) f.push_back(x);
    const double box = std::stod(f[6]);
    const std::string sec = box > 0 ? "ListBox" : "List";
    std::string y = "Modi:\n  " + sec + ":\n    File_Directory: \"" + f[0] + "\"\n";
    if (f[1] != "-") y += "    Filename: \"" + f[1] + "\"\n";
    if (f[2] != "-") y += "    File_Prefix: \"" + f[2] + "\"\n    Shift_Id: " + f[3] + "\n";
    if (f[5] != "*") y += "    Optional_Quantities: " + (f[5] == "-" ? "[]" : list(f[5])) + "\n";
    if (box > 0) y += "    Length: " + f[6] + "\n";
    par.n_ensembles = std::stoi(f[7]);
    par.spin_interaction_type = f[8] == "1" ? SpinInteractionType::On : SpinInteractionType::Off;
    Rec r;
    std::unique_ptr<ListModus> lm;
    std::unique_ptr<ListBoxModus> lb;
    std::string ctor = "ok";
    try {
      Configuration c(y.c_str(), Configuration::InitializeFromYAMLString);
      try {
        if (box > 0) lb = std::make_unique<ListBoxModus>(std::move(c), par);
        else lm = std::make_unique<ListModus>(std::move(c), par);
      } catch (...) {
        try { c.clear(); } catch (...) {}
        throw;
      }
    } catch (const std::exception &e) { ctor = "refused"; }
    r("ctor", ctor);
    std::vector<J> calls;
    for (int k = 0; ctor == "ok" && k < std::stoi(f[4]); k++) {
      Particles ps;
      Rec e;
      double start = 0;
      std::string res = "ok";
      try {
        start = box > 0 ? lb->initial_conditions(&ps, par) : lm->initial_conditions(&ps, par);
        if (box > 0) lb->impose_boundary_conditions(&ps, {});
      } catch (const std::exception &x) { res = "refused"; }
      e("res", res)("start", big(start));
      std::vector<J> v;
      if (res == "ok")
        for (const auto &p : ps) {
          Rec q;
          const auto h = p.get_history();
          q("id", p.id())("pdg", p.pdgcode().string())("r", vec(p.position()))("p", vec(p.momentum()))("f", big(p.formation_time()))(
              "xs", big(p.initial_xsec_scaling_factor()))("ncoll", h.collisions_per_particle)("proc", static_cast<int>(h.process_type))(
              "last", big(h.time_last_collision))("m1", h.p1 == PdgCode(0x0) ? std::string("0") : h.p1.string())(
              "m2", h.p2 == PdgCode(0x0) ? std::string("0") : h.p2.string())("w", big(p.perturbative_weight()))("spin", vec(p.spin_vector()));
          v.push_back(q.j());
        }
      e("ps", J(v));
      calls.push_back(e.j());
    }
    r("calls", J(calls));
    log(r);
  }
}
