// What the real code makes of particle and decay mode lists.
// usage: lists IN OUT; IN: blocks "@T" (types text), "@D" (decay modes text), "@Q" (codes to look up), "@E" end of one trial.
// Every trial runs in a process of its own, because the lists are global and loaded once.
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;

static int dec(const ParticleType &t) { return static_cast<int>(t.pdgcode().get_decimal()); }
static J codes(const ParticleTypePtrList &l) {
  std::vector<int> v;
  for (const auto &p : l) v.push_back(dec(*p));
  std::sort(v.begin(), v.end());
  return J(v);
}
static J table() {
  std::vector<J> v;
  for (const auto &t : ParticleType::list_all()) {
    Rec r;
    std::string iso = t.iso_multiplet() ? t.iso_multiplet()->name() : "";
    r("code", dec(t))("name", t.name())("mass", vh::fix(t.mass(), 1e-6))("width", vh::fix(t.width_at_pole(), 1e-9))(
        "par", t.parity() == Parity::Pos ? "+" : "-")("charge", static_cast<int>(t.charge()))("iso", t.isospin())("iso3", t.isospin3())(
        "stable", t.is_stable())("spin", static_cast<int>(t.spin()))("B", t.baryon_number())("S", t.strangeness())("mult", iso)(
        "anti", t.has_antiparticle() ? dec(*t.get_antiparticle()) : 0)("hasanti", t.has_antiparticle())(
        "self", ParticleType::exists(t.name()) && &ParticleType::find(t.pdgcode()) == &t);
    v.push_back(J::raw(r.t + "}"));
  }
  return J(v);
}
static J mults() {
  std::vector<J> v;
  for (const auto &m : IsoParticleType::list_all()) {
    Rec r;
    r("name", m.name())("mass", vh::fix(m.mass(), 1e-6))("width", vh::fix(m.width(), 1e-9))("spin", static_cast<int>(m.spin()))(
        "par", m.parity() == Parity::Pos ? "+" : "-")("iso", m.isospin())("states", codes(m.get_states()))(
        "anti", m.has_anti_multiplet() ? m.anti_multiplet()->name() : "");
    v.push_back(J::raw(r.t + "}"));
  }
  return J(v);
}
static J modes() {
  std::vector<J> v;
  for (const auto &t : ParticleType::list_all()) {
    std::vector<J> l;
    for (const auto &b : t.decay_modes().decay_mode_list()) {
      Rec r;
      r("ds", codes(b->particle_types()))("L", b->angular_momentum())("w", std::isfinite(b->weight()) ? vh::fix(b->weight(), 1e-6) : -1);
      l.push_back(J::raw(r.t + "}"));
    }
    Rec r;
    r("code", dec(t))("list", J(l));
    if (!l.empty()) v.push_back(J::raw(r.t + "}"));
  }
  return J(v);
}
int main(int, char **a) {
  std::istringstream in(verif_slurp(a[1]));
  std::string line, types, decays;
  std::vector<std::string> q;
  std::vector<std::string> early;  // decay lists tried before
  char mode = 0;
  FILE *out = std::fopen(a[2], "w");
  std::vector<std::string> early_types;
  while (std::getline(in, line)) {
    if (line.size() == 2 && line[0] == '@') {
      mode = line[1];
      if (mode == 'T' && !types.empty()) early_types.push_back(types), types.clear();
      if (mode == 'D' && !decays.empty()) early.push_back(decays), decays.clear();
      if (mode == 'E') {
        int fd[2];
        if (pipe(fd)) return 3;
        pid_t p = fork();
        if (p == 0) {
          close(fd[0]);
          FILE *o = fdopen(fd[1], "w");
          alarm(60);
          Rec r;
          std::vector<std::string> first, dfirst;
          for (auto &t : early_types) first.push_back(vh::outcome([&] { ParticleType::create_type_list(t); }));
          std::string e = vh::outcome([&] { ParticleType::create_type_list(types); });
          r("first", J(first))("types", e);
          if (e == "ok") {
            std::vector<J> look;
            for (const auto &s : q) {
              PdgCode c(s);
              auto f = ParticleType::try_find(c);
              look.push_back(J(std::vector<int>{static_cast<int>(c.get_decimal()), ParticleType::exists(c), f ? 1 : 0, f ? dec(*f) : 0}));
            }
            std::vector<std::string> isores;
            for (const auto *m : IsoParticleType::list_baryon_resonances()) isores.push_back(m->name());
            std::sort(isores.begin(), isores.end());
            r("table", table())("mults", mults())("look", J(look))("nucleons", codes(ParticleType::list_nucleons()))(
                "antinucleons", codes(ParticleType::list_anti_nucleons()))("deltas", codes(ParticleType::list_Deltas()))(
                "antideltas", codes(ParticleType::list_anti_Deltas()))("resonances", codes(ParticleType::list_baryon_resonances()))(
                "nuclei", codes(ParticleType::list_light_nuclei()))("isores", J(isores));
            if (!decays.empty()) {
              // the result of the types is kept even if the decays crash the process
              for (auto &t : early) dfirst.push_back(vh::outcome([&] { DecayModes::load_decaymodes(t); }));
              e = vh::outcome([&] { DecayModes::load_decaymodes(decays); });
              if (e == "ok") e = vh::outcome([&] { ParticleType::check_consistency(); });
              r("dfirst", J(dfirst))("decays", e);
              if (e == "ok") r("modes", modes());
            }
          }
          std::fputs((r.t + "}\n").c_str(), o);
          std::fflush(o);
          _exit(0);
        }
        close(fd[1]);
        std::string got;
        char buf[65536];
        ssize_t n;
        while ((n = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, n);
        close(fd[0]);
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || got.empty()) got = "{\"crash\":" + std::to_string(st) + "}\n";
        std::fputs(got.c_str(), out);
        types.clear(), decays.clear(), q.clear(), early.clear(), early_types.clear();
        mode = 0;
      }
      continue;
    }
    if (mode == 'T') types += line + "\n";
    if (mode == 'D') decays += line + "\n";
    if (mode == 'Q' && !line.empty()) q.push_back(line);
  }
  std::fclose(out);
}
