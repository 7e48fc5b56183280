// Drives events of the real program through its library interface.
// usage: pieces CONFIG PARTICLES DECAYS OUTDIR SCRIPT REPORT
// SCRIPT, one word per field: event | evolve T | add PDG t x y z m px py pz | take K SHIFT | miss K | finals | final
//   take K SHIFT: ask for the removal of the K-th particle (modulo their number), as it is SHIFT fm away from now on its path
//   miss K: the same with an other momentum, so that there is no such particle
// REPORT: one JSON record per script line of event, evolve, finals and final.
#include <unistd.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include "smash/boxmodus.h"
#include "smash/collidermodus.h"
#include "smash/experiment.h"
#include "smash/library.h"
#include "smash/listmodus.h"
#include "smash/spheremodus.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;

static std::string num(double x) { char b[40]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
static Rec one(const ParticleData &p) {
  Rec r;
  const auto h = p.get_history();
  const FourVector x = p.position(), k = p.momentum();
  r("ID", p.id())("pdg", p.pdgcode().get_decimal())("charge", p.type().charge())("baryon_number", p.type().baryon_number())(
      "strangeness", p.type().strangeness())("t", num(x[0]))("x", num(x[1]))("y", num(x[2]))("z", num(x[3]))("p0", num(k[0]))("px", num(k[1]))(
      "py", num(k[2]))("pz", num(k[3]))("mass", num(p.effective_mass()))("form_time", num(p.formation_time()))(
      "xsecfac", num(p.xsec_scaling_factor()))("ncoll", h.collisions_per_particle)("proc_id_origin", static_cast<int>(h.id_process))(
      "proc_type_origin", static_cast<int>(h.process_type))("pdg_mother1", h.p1.get_decimal())("pdg_mother2", h.p2.get_decimal())(
      "time_last_coll", num(h.time_last_collision));
  return r;
}
static J all(const ParticleList &l) { std::vector<J> v; for (const auto &p : l) v.push_back(one(p).j()); return J(v); }
// lengths of the output files at this moment
static J sizes(const std::string &dir) {
  std::fflush(nullptr);
  Rec r;
  for (const auto &e : std::filesystem::directory_iterator(dir))
    if (e.is_regular_file()) {
      std::string n = e.path().filename().string();
      if (auto k = n.find(".unfinished"); k != std::string::npos) n = n.substr(0, k);
      r(n.c_str(), static_cast<int>(std::filesystem::file_size(e.path())));
    }
  return r.j();
}

template <class M>
static void use(Configuration &conf, const std::string &dir, std::istream &script, std::ostream &out) {
  Experiment<M> x(conf, dir);
  conf.clear();
  ParticleList add, away;
  std::string line;
  int n = 0;
  while (std::getline(script, line)) {
    std::istringstream s(line);
    std::string op;
    s >> op;
    Rec r;
    if (op == "add") {
      int pdg; double t, a, b, c, m, px, py, pz;
      s >> pdg >> t >> a >> b >> c >> m >> px >> py >> pz;
      ParticleData p{ParticleType::find(PdgCode::from_decimal(pdg))};
      p.set_4momentum(m, px, py, pz);
      p.set_4position(FourVector(t, a, b, c));
      add.push_back(p);
      continue;
    }
    if (op == "take" || op == "miss") {
      int k; double shift = 0;
      s >> k >> shift;
      ParticleList now = x.first_ensemble()->copy_to_vector();
      if (now.empty()) continue;
      ParticleData p = now[k % now.size()];
      ParticleData q{p.type()};
      q.set_4momentum(p.momentum());
      q.set_4position(p.position() + FourVector(1.0, p.velocity()) * shift);
      if (op == "miss") q.set_4momentum(p.type().mass() > 0 ? p.effective_mass() : 0.1, 0.37, 0.11, 2.5);
      away.push_back(q);
      continue;
    }
    std::cout << std::flush; std::cerr << std::flush; std::fflush(nullptr);
    const std::string mark = "@@" + std::to_string(n++) + "\n";
    if (write(2, mark.data(), mark.size()) < 0) return;
    std::string res = "ok";
    double T = 0;
    try {
      if (op == "event") {
        x.initialize_new_event();
      } else if (op == "evolve") {
        s >> T;
        r("add", all(add))("away", all(away));
        ParticleList a = add, b = away;
        add.clear(); away.clear();
        x.run_time_evolution(T, std::move(a), std::move(b));
      } else if (op == "finals") {
        x.do_final_interactions();
      } else if (op == "final") {
        x.final_output();
        x.increase_event_number();
      }
    } catch (const std::logic_error &) { res = "logic";
    } catch (const std::runtime_error &) { res = "runtime";
    } catch (const std::exception &) { res = "other"; }
    r("op", op)("res", res)("T", num(T))("sizes", sizes(dir));
    std::vector<J> e;
    for (auto &ps : *x.all_ensembles()) e.push_back(all(ps.copy_to_vector()));
    r("ens", J(e));
    out << r.j().t << "\n";
  }
}

int main(int, char **a) {
  auto conf = setup_config_and_logging(a[1], a[2], a[3]);
  initialize_particles_decays_and_tabulations(conf, "pieces", "");
  const std::string modus = conf.read(InputKeys::gen_modus);
  std::ifstream script(a[5]);
  std::ofstream out(a[6]);
  if (modus == "Box") use<BoxModus>(conf, a[4], script, out);
  else if (modus == "Sphere") use<SphereModus>(conf, a[4], script, out);
  else if (modus == "Collider") use<ColliderModus>(conf, a[4], script, out);
  else use<ListModus>(conf, a[4], script, out);
}
