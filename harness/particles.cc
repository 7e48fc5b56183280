// Records operation histories on the real particle list (C02).
// usage: particles SEED TRACES LENGTH OUT
#include <algorithm>
#include <array>
#include <memory>

#include "smash/particles.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;

static ParticleData make(PdgCode pdg, int tag, int pid) {
  ParticleData p{ParticleType::find(pdg)};
  const double t = tag;
  p.set_4momentum(FourVector(t + 1000, t + 0.25, t + 0.5, -t));
  p.set_4position(FourVector(t, 2 * t, 3 * t, -4 * t));
  p.set_slow_formation_times(t - 1, t + 1);
  p.set_cross_section_scaling_factor(t / 65536);
  p.set_perturbative_weight(t / 32768);
  p.set_spin_vector(FourVector(t, -t, t / 2, t / 4));
  p.set_belongs_to(static_cast<BelongsTo>(tag % 3));
  if (tag % 2) p.fluidize();
  HistoryData h;
  h.collisions_per_particle = tag % 7;
  h.id_process = pid;
  h.process_type = tag % 2 ? ProcessType::Decay : ProcessType::Elastic;
  h.time_last_collision = t + 7;
  h.p1 = PdgCode(0x211);
  h.p2 = tag % 2 ? PdgCode(0x2212) : PdgCode(0x111);
  p.set_history(std::move(h));
  return p;
}
// The tag of a particle, if its whole state is that of this tag; -1 otherwise.
static int tag_of(const ParticleData &p) {
  const auto h = p.get_history();
  if (p.momentum() == FourVector(0, 0, 0, 0) && p.position() == FourVector(0, 0, 0, 0)) {
    const bool fresh = std::isnan(p.formation_time()) && std::isnan(p.begin_formation_time()) &&
                       p.initial_xsec_scaling_factor() == 1.0 && p.perturbative_weight() == 1.0 &&
                       p.belongs_to() == BelongsTo::Nothing && !p.is_core() && h.id_process == 0 &&
                       h.collisions_per_particle == 0 && h.process_type == ProcessType::None &&
                       std::isnan(h.time_last_collision) && h.p1 == PdgCode(0x0) && h.p2 == PdgCode(0x0);
    return fresh ? 0 : -1;
  }
  const double t = p.position().x0();
  const int tag = static_cast<int>(t);
  const ParticleData q = make(p.pdgcode(), tag, h.id_process);
  const auto g = q.get_history();
  auto same = [](double a, double b) { return a == b; };
  bool ok = same(t, tag);
  for (int k = 0; k < 4; k++)
    ok = ok && same(p.momentum()[k], q.momentum()[k]) && same(p.position()[k], q.position()[k]) &&
         same(p.spin_vector()[k], q.spin_vector()[k]);
  ok = ok && same(p.formation_time(), q.formation_time()) && same(p.begin_formation_time(), q.begin_formation_time()) &&
       same(p.initial_xsec_scaling_factor(), q.initial_xsec_scaling_factor()) &&
       same(p.perturbative_weight(), q.perturbative_weight()) && p.belongs_to() == q.belongs_to() &&
       p.is_core() == q.is_core() && h.collisions_per_particle == g.collisions_per_particle &&
       h.process_type == g.process_type && same(h.time_last_collision, g.time_last_collision) && h.p1 == g.p1 && h.p2 == g.p2;
  return ok ? tag : -1;
}
static J pj(const ParticleData &p, bool with_id = true) {
  Rec r;
  if (with_id) r("id", p.id());
  r("type", p.pdgcode().string())("pid", static_cast<int>(p.id_process()))("tag", tag_of(p));
  return r.j();
}
template <class It>
static J list(It b, It e, bool with_id = true) {
  std::string s = "[";
  bool first = true;
  for (; b != e; ++b) { s += (first ? "" : ",") + pj(*b, with_id).t; first = false; }
  return J::raw(s + "]");
}

int main(int, char **a) {
  vh::Rng r(std::atoll(a[1]));
  const int traces = std::atoi(a[2]), len = std::atoi(a[3]);
  vh::Log log(a[4]);
  verif_types();
  const std::vector<std::string> names = {"211", "-211", "111", "2212", "2112", "2224", "321"};
  int tag = 0;
  for (int n = 0; n < traces; n++) {
    auto P = std::make_unique<Particles>(), other = std::make_unique<Particles>();
    for (int k = 0; k < 3; k++) other->insert(make(PdgCode("211"), 5, 3));
    std::vector<ParticleData> held;
    int pid = 0;
    const bool big = r.chance(0.1);  // histories that make the storage grow
    const double grow = r.pick<double>({0.25, 0.4, 0.55});
    auto see = [&] {
      Rec o;
      std::vector<ParticleData> vec = P->copy_to_vector();
      std::string bwd = "[";
      int guard = 0;
      if (P->size() > 0) {
        auto it = P->end();
        const auto b = P->begin();
        do {
          --it;
          bwd += (guard ? "," : "") + pj(*it).t;
        } while (++guard < 100000 && it != b);
      }
      std::string fwd = "[";
      guard = 0;
      const Particles &C = *P;
      for (auto it = C.begin(); it != C.end() && guard < 100000; it++, guard++) fwd += (guard ? "," : "") + pj(*it).t;
      o("size", P->size())("empty", P->is_empty())("fwd", J::raw(fwd + "]"))("bwd", J::raw(bwd + "]"))(
          "vec", list(vec.begin(), vec.end()));
      if (P->size() > 0) o("front", pj(C.front()))("back", pj(C.back()));
      log(Rec()("op", "see")("o", o.j()));
    };
    auto valid = [&] {
      std::vector<bool> v;
      std::string s = "[", l = "[";
      bool first = true;
      for (auto &h : held) {
        const bool ok = P->is_valid(h);
        s += (first ? "" : ",") + J(ok).t;
        l += (first ? "" : ",") + (ok ? pj(P->lookup(h)).t : std::string("0"));
        first = false;
      }
      const ParticleData loose = make(PdgCode("211"), 3, 0);
      log(Rec()("op", "valid")("valid", J::raw(s + "]"))("look", J::raw(l + "]"))("foreign", P->is_valid(loose)));
    };
    auto start = [&](bool first) {
      // numbering starts again: look at the number of a first particle, then empty the list
      const int id = P->insert(make(PdgCode("111"), 1, 0)).id();
      P->reset();
      held.clear();
      log(first ? Rec()("op", "new")("reset", true)("firstid", id) : Rec()("op", "new")("firstid", id));
    };
    start(true);
    see();
    for (int k = 0; k < len; k++) {
      std::vector<ParticleData> now(P->begin(), P->end());
      for (size_t m = now.size(); m > 1; m--) std::swap(now[m - 1], now[r.in(0, m - 1)]);
      // remove the last or first slot rather often
      if (now.size() > 1 && r.chance(0.3)) { now[0] = r.chance(0.5) ? P->back() : P->front();
        for (size_t m = 1; m < now.size(); m++) if (now[m].id() == now[0].id()) { std::swap(now[m], now.back()); now.pop_back(); break; } }
      const double x = r.unit();
      const PdgCode pdg(r.pick(names));
      if (x < grow) {
        const int how = r.in(0, 2);
        if (how == 0) {
          tag = tag % 30000 + 1;
          const ParticleData p = make(pdg, tag, r.in(0, pid));
          const ParticleData q = P->insert(p);
          log(Rec()("op", "insert")("new", list(&p, &p + 1, false))("res", list(&q, &q + 1)));
        } else {
          const int m = how == 1 ? 1 : big ? r.in(0, 130) : r.in(0, 4);
          std::vector<int> before;
          for (auto &p : *P) before.push_back(p.id());
          if (how == 1) P->create(pdg); else P->create(m, pdg);
          std::vector<ParticleData> added, want;
          for (auto &p : *P) if (std::find(before.begin(), before.end(), p.id()) == before.end()) added.push_back(p);
          for (int j = 0; j < m; j++) want.emplace_back(ParticleType::find(pdg));
          log(Rec()("op", "insert")("new", list(want.begin(), want.end(), false))("res", list(added.begin(), added.end())));
        }
      } else if (x < 0.60) {
        if (now.empty()) continue;
        P->remove(now[0]);
        log(Rec()("op", "remove")("id", now[0].id()));
      } else if (x < 0.75) {
        const int m = std::min<int>(now.size(), r.in(0, 3)), l = r.in(0, 4);
        ParticleList out(now.begin(), now.begin() + m), in;
        pid++;
        for (int j = 0; j < l; j++) { tag = tag % 30000 + 1; in.push_back(make(PdgCode(r.pick(names)), tag, pid)); }
        const ParticleList want = in;
        std::vector<int> ids;
        for (auto &p : out) ids.push_back(p.id());
        if (r.chance(0.5)) P->replace(out, in); else P->update(out, in, true);
        // what the caller is told is what the list then holds
        bool same = in.size() == want.size();
        ParticleList res;
        for (auto &p : in) { same = same && P->is_valid(p); if (same) res.push_back(P->lookup(p)); same = same && P->lookup(p).id() == p.id(); }
        if (!same) res.clear();
        log(Rec()("op", "replace")("out", ids)("new", list(want.begin(), want.end(), false))("res", list(res.begin(), res.end())));
      } else if (x < 0.85) {
        if (now.empty()) continue;
        pid++;
        tag = tag % 30000 + 1;
        if (r.chance(0.5) || now.size() < 2) {
          const ParticleData q = P->update_particle(now[0], make(now[0].pdgcode(), tag, pid));
          log(Rec()("op", "update")("id", now[0].id())("pid", pid)("tag", tag)("res", pj(q)));
        } else {
          ParticleList old = {now[0], now[1]}, nw = {make(now[0].pdgcode(), tag, pid), make(now[1].pdgcode(), tag + 1, pid)};
          P->update(old, nw, false);
          log(Rec()("op", "update")("id", now[0].id())("pid", pid)("tag", tag)("res", pj(nw[0])));
          log(Rec()("op", "update")("id", now[1].id())("pid", pid)("tag", tag + 1)("res", pj(nw[1])));
          tag++;
        }
      } else if (x < 0.93) {
        held.clear();
        for (size_t m = 0; m < std::min<size_t>(now.size(), 6); m++) held.push_back(now[m]);
        log(Rec()("op", "hold")("copies", list(held.begin(), held.end())));
      } else if (x < 0.95) {
        P->reset();
        start(false);
      }
      valid();
      if (!big || k % 5 == 0 || k == len - 1) see();
    }
  }
}
