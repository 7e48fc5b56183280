// Prints the table of all particle types of given lists.
// usage: typetable PARTICLES DECAYMODES OUT
#include "smash/logging.h"
#include "smash/configuration.h"
#include "types.h"
#include "vh.h"
using namespace smash;
int main(int, char **a) {
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  ParticleType::create_type_list(verif_slurp(a[1]));
  DecayModes::load_decaymodes(verif_slurp(a[2]));
  FILE *f = std::fopen(a[3], "w");
  std::fputs("[", f);
  bool first = true;
  for (const ParticleType &t : ParticleType::list_all()) {
    std::fprintf(f, "%s{\"pdg\":%d,\"name\":%s,\"mass\":%.17g,\"width\":%.17g,\"min\":%.17g,\"minspec\":%.17g,\"stable\":%s,\"modes\":[",
                 first ? "" : ",\n", t.pdgcode().get_decimal(), vh::esc(t.name()).c_str(), t.mass(), t.width_at_pole(),
                 t.min_mass_kinematic(), t.min_mass_spectral(), t.is_stable() ? "true" : "false");
    first = false;
    bool m1 = true;
    if (!t.is_stable())
      for (const auto &m : t.decay_modes().decay_mode_list()) {
        std::fprintf(f, "%s[", m1 ? "" : ",");
        m1 = false;
        bool p1 = true;
        for (const auto &d : m->particle_types()) {
          std::fprintf(f, "%s%d", p1 ? "" : ",", d->pdgcode().get_decimal());
          p1 = false;
        }
        std::fputs("]", f);
      }
    std::fputs("]}", f);
  }
  std::fputs("]\n", f);
  std::fclose(f);
}
