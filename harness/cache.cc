// One process that uses a directory of tabulated integrals.
// usage: cache PARTICLES DECAYS VERSION DIR            prints what it sees of the integrals
//        cache fake PARTICLES DECAYS VERSION FILE...   writes well-formed tabulations of something else for these lists
#include <cstdio>
#include <cstring>
#include "smash/input_keys.h"
#include "smash/library.h"
#include "smash/sha256.h"
#include "smash/tabulation.h"
#include "types.h"
using namespace smash;

int main(int argc, char **argv) {
  if (!std::strcmp(argv[1], "fake")) {
    set_default_loglevel(einhard::OFF);
    Configuration config("", Configuration::InitializeFromYAMLString);
    config.set_value(InputKeys::particles, verif_slurp(argv[2]));
    config.set_value(InputKeys::decaymodes, verif_slurp(argv[3]));
    const auto hash = initialize_particles_decays_and_return_hash(config, argv[4]);
    for (int k = 5; k < argc; k++) {
      std::ofstream f(argv[k]);
      Tabulation(1.0, 1.0, 3, [](double x) { return 7.0 + x; }).write(f, hash);
    }
    return 0;
  }
  set_default_loglevel(einhard::OFF);
  Configuration config("", Configuration::InitializeFromYAMLString);
  config.set_value(InputKeys::particles, verif_slurp(argv[1]));
  config.set_value(InputKeys::decaymodes, verif_slurp(argv[2]));
  initialize_particles_decays_and_tabulations(config, argv[3], argv[4]);
  const bool pi = IsoParticleType::try_find("π"), n = IsoParticleType::try_find("N"), k = IsoParticleType::try_find("K");
  const auto delta = const_cast<IsoParticleType *>(IsoParticleType::try_find("Δ"));
  const auto rho = const_cast<IsoParticleType *>(IsoParticleType::try_find("ρ"));
  const auto h1 = const_cast<IsoParticleType *>(IsoParticleType::try_find("h₁(1170)"));
  std::string out;
  const auto see = [&](const std::string &what, auto f) {
    char b[64];
    out += what;
    for (int j = 0; j < 60; j++) {
      std::snprintf(b, sizeof b, " %a", static_cast<double>(f(0.9 + 0.07 * j)));
      out += b;
    }
    out += "\n";
  };
  for (const auto res : IsoParticleType::list_baryon_resonances())
    for (auto r : {const_cast<IsoParticleType *>(res), const_cast<IsoParticleType *>(res->anti_multiplet())}) {
      if (!r) continue;
      if (n) see("N" + r->name(), [&](double x) { return r->get_integral_NR(x); });
      if (pi) see("π" + r->name(), [&](double x) { return r->get_integral_piR(x); });
      if (k) see("K" + r->name(), [&](double x) { return r->get_integral_RK(x); });
      if (delta) see("Δ" + r->name(), [&](double x) { return r->get_integral_RR(delta, x); });
    }
  if (rho) see("ρρ", [&](double x) { return rho->get_integral_rhoR(x); });
  if (rho && h1) see("ρh₁", [&](double x) { return h1->get_integral_rhoR(x); });
  std::fputs(("\n@\n" + out).c_str(), stdout);
  return 0;
}
