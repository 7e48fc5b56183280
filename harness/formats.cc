// Writes random events through the real outputs of every format and content (C12, C13).
// usage: formats SEED SESSIONS DIR LOG     files go to DIR/<session>/<n>, the calls to LOG
#include <algorithm>
#include <array>
#include <filesystem>
#include <memory>

#include "smash/action.h"
#include "smash/binaryoutput.h"
#include "smash/experimentparameters.h"
#include "smash/icoutput.h"
#include "smash/logging.h"
#include "smash/oscaroutput.h"
#include "smash/outputformatter.h"
#include "smash/particles.h"
#include "smash/setup_particles_decaymodes.h"
#include "smash/vtkoutput.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;
namespace fs = std::filesystem;

namespace smash {
ExperimentParameters create_experiment_parameters(Configuration &config);
}
static vh::Rng *R;
static J d(double x) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", x);
  return J(std::string(b));
}
struct TestAction : public Action {
  double w, pw;
  TestAction(const ParticleList &in, const ParticleList &out, double t, ProcessType ty, double w_, double pw_)
      : Action(in, out, t, ty), w(w_), pw(pw_) {}
  double get_total_weight() const override { return w; }
  double get_partial_weight() const override { return pw; }
  void generate_final_state() override {}
  void format_debug_output(std::ostream &) const override {}
};
// all quantities by their documented meaning
static J truth(const ParticleData &p) {
  const auto &x = p.position();
  const auto &q = p.momentum();
  const auto h = p.get_history();
  const double m2 = q[0] * q[0] - q[1] * q[1] - q[2] * q[2] - q[3] * q[3];
  const double tau2 = x[0] * x[0] - x[3] * x[3], mt2 = q[0] * q[0] - q[3] * q[3];
  const auto &s = p.spin_vector();
  return Rec()("t", d(x[0]))("x", d(x[1]))("y", d(x[2]))("z", d(x[3]))("mass", d(p.pole_mass() < 1e-6 ? p.pole_mass() : std::sqrt(m2)))(
      "p0", d(q[0]))("px", d(q[1]))("py", d(q[2]))("pz", d(q[3]))("pdg", p.pdgcode().get_decimal())("ID", p.id())("id", p.id())(
      "charge", p.type().charge())("ncoll", h.collisions_per_particle)("form_time", d(p.formation_time()))(
      "xsecfac", d(p.xsec_scaling_factor()))("proc_id_origin", static_cast<int>(h.id_process))(
      "proc_type_origin", static_cast<int>(h.process_type))("time_last_coll", d(h.time_last_collision))(
      "pdg_mother1", h.p1.get_decimal())("pdg_mother2", h.p2.get_decimal())("baryon_number", p.type().baryon_number())(
      "strangeness", p.type().strangeness())("0", 0)("tau", d(tau2 > 0 ? std::sqrt(tau2) : 0))(
      "eta", d(std::atanh(x[3] / x[0])))("eta_s", d(std::atanh(x[3] / x[0])))("mt", d(std::sqrt(mt2)))(
      "Rap", d(std::atanh(q[3] / q[0])))("y_rap", d(std::atanh(q[3] / q[0])))("spin0", d(s[0]))("spinx", d(s[1]))("spiny", d(s[2]))(
      "spinz", d(s[3]))("perturbative_weight", d(p.perturbative_weight()))("pdgs", p.pdgcode().string()).j();
}
template <class L>
static J truths(const L &l) {
  std::string s = "[";
  bool first = true;
  for (const auto &p : l) { s += (first ? "" : ",") + truth(p).t; first = false; }
  return J::raw(s + "]");
}
static const std::vector<ProcessType> PT = {ProcessType::Elastic, ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::Decay,
                                            ProcessType::Wall, ProcessType::MultiParticleThreeToTwo, ProcessType::StringHard,
                                            ProcessType::Freeforall, ProcessType::None, ProcessType::TwoToFive};
static double size() {
  return R->pick<double>({1., 1., 1., 10., 1000., 1e-3, 1e5, 1e-7, 1e-130}) * (2 * R->unit() - 1);
}
static void dress(ParticleData &p, double time, bool timelike) {
  const auto &t = p.type();
  const double pm = R->pick<double>({0.3, 1., 3., 20., 1e-4, 1e-120});
  p.set_4momentum(t.is_stable() ? t.mass() : t.mass() * (1 + 0.2 * R->unit()), pm * (2 * R->unit() - 1), pm * (2 * R->unit() - 1),
                  pm * (2 * R->unit() - 1) + (t.mass() == 0 ? 0.1 : 0));
  p.set_4position(FourVector(time, size(), size(), timelike ? time * (1.98 * R->unit() - 0.99) : size()));
  if (R->chance(0.3))
    p.set_slow_formation_times(time - 1, time + 3 * (R->unit() - 0.5));
  else
    p.set_formation_time(time - R->unit());
  if (R->chance(0.3)) p.set_cross_section_scaling_factor(R->unit());
  if (R->chance(0.3)) p.set_perturbative_weight(R->unit() * 3);
  if (R->chance(0.6)) {
    for (int k = 0; k < 4; k++) p.set_spin_vector_component(k, 2 * R->unit() - 1);
  }
  if (R->chance(0.7)) {
    const auto &all = ParticleType::list_all();
    ParticleList par;
    for (int k = 0; k < 2; k++) par.push_back(ParticleData{all[R->in(0, all.size() - 1)]});
    p.set_history(static_cast<int>(R->in(0, 300)), static_cast<uint32_t>(R->in(0, 2000000)), R->pick(PT), time - R->unit(), par);
  }
}
static const ParticleType &anytype() {
  const auto &all = ParticleType::list_all();
  return all[R->in(0, all.size() - 1)];
}

int main(int, char **a) {
  vh::Rng r(std::atoll(a[1]));
  R = &r;
  const int sessions = std::atoi(a[2]);
  const fs::path dir = a[3];
  vh::Log log(a[4]);
  verif_types();
  verif_decays();
  set_default_loglevel(einhard::OFF);
  create_all_loggers(Configuration("", Configuration::InitializeFromYAMLString));
  Configuration c("General: {Modus: Box, End_Time: 10.0, Delta_Time: 1.0}\nModi: {Box: {Length: 10.0}}",
                  Configuration::InitializeFromYAMLString);
  const ExperimentParameters par = create_experiment_parameters(c);
  c.clear();
  const DensityParameters dens(par);
  const std::vector<std::string> allq = {"t", "x", "y", "z", "mass", "p0", "px", "py", "pz", "pdg", "ID", "charge", "ncoll", "form_time",
      "xsecfac", "proc_id_origin", "proc_type_origin", "time_last_coll", "pdg_mother1", "pdg_mother2", "baryon_number", "strangeness",
      "spin0", "spinx", "spiny", "spinz", "eta_s", "mt", "y_rap", "perturbative_weight", "0", "tau"};
  auto somequantities = [&](bool tau) {
    std::vector<std::string> q = allq;
    if (!tau) q.pop_back();
    for (auto &s : q) {
      if (s == "ID" && r.chance(0.4)) s = "id";
      if (s == "eta_s" && r.chance(0.4)) s = "eta";
      if (s == "y_rap" && r.chance(0.4)) s = "Rap";
    }
    for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[r.in(0, i - 1)]);
    q.resize(r.in(1, q.size()));
    return q;
  };
  for (int s = 0; s < sessions; s++) {
    const fs::path sd = dir / std::to_string(s);
    fs::create_directories(sd);
    log(Rec()("op", "session")("reset", true)("dir", std::to_string(s)));
    const int nens = r.chance(0.6) ? 1 : static_cast<int>(r.in(2, 4)), nev = static_cast<int>(r.in(1, 3));
    const bool ic = r.chance(0.3);  // only fluidizations reach the initial-condition outputs
    struct Out {
      std::unique_ptr<OutputInterface> o;
      std::string format, content;
    };
    std::vector<Out> outs;
    int n = 0;
    auto make = [&](const std::string &format, const std::string &content) {
      OutputParameters op;
      op.part_only_final = r.pick<OutputOnlyFinal>({OutputOnlyFinal::Yes, OutputOnlyFinal::IfNotEmpty, OutputOnlyFinal::No, OutputOnlyFinal::No});
      op.coll_printstartend = r.chance(0.5);
      const bool ext = r.chance(0.5);
      op.part_extended = content == "Particles" ? ext : r.chance(0.5);
      op.coll_extended = content == "Collisions" ? ext : r.chance(0.5);
      op.dil_extended = content == "Dileptons" ? ext : r.chance(0.5);
      op.photons_extended = content == "Photons" ? ext : r.chance(0.5);
      op.ic_extended = content == "Initial_Conditions" ? ext : r.chance(0.5);
      std::vector<std::string> q;
      if (format == "ASCII" || (format == "Binary" && r.chance(0.8))) q = somequantities(true);
      if (format == "Binary" && r.chance(0.1)) q = OutputDefaultQuantities::oscar2013;
      if ((format == "Binary" || format == "ASCII") && r.chance(0.1)) q = OutputDefaultQuantities::oscar2013extended;
      for (auto k : {"Particles", "Collisions", "Dileptons", "Photons", "Initial_Conditions"})
        op.quantities[k] = k == content ? q : somequantities(true);
      const fs::path od = sd / std::to_string(n);
      fs::create_directories(od);
      std::unique_ptr<OutputInterface> o;
      std::string res = vh::outcome([&] {
        if (format == "VTK") o = std::make_unique<VtkOutput>(od, content, op);
        else if (format == "For_vHLLE") o = std::make_unique<ICOutput>(od, content, op);
        else if (format == "Binary" || format == "Oscar2013_bin") o = create_binary_output(format, content, od, op);
        else o = create_oscar_output(format, content, od, op);
      });
      log(Rec()("op", "open")("n", n)("format", format)("content", content)("q", J(q))("ext", ext)(
          "only", op.part_only_final == OutputOnlyFinal::Yes ? "Yes" : op.part_only_final == OutputOnlyFinal::No ? "No" : "IfNotEmpty")(
          "pse", op.coll_printstartend)("res", res));
      n++;
      if (o) outs.push_back({std::move(o), format, content});
    };
    // refused quantity lists
    for (int k = 0; k < 3; k++) {
      std::vector<std::string> q = somequantities(true);
      const int kind = static_cast<int>(r.in(0, 4));
      auto put = [&](const std::string &x) { q.insert(q.begin() + r.in(0, q.size()), x); };
      if (kind == 0) put(r.pick<std::string>({"Id", "energy", "p", "T", "", "pdgcode", "x ", "eta_"}));
      if (kind == 1) put(r.pick(q));
      if (kind == 2) { put("eta"); put("eta_s"); }
      if (kind == 3 && r.chance(0.5)) { put("id"); put("ID"); }
      if (kind == 3 && r.chance(0.5)) { put("Rap"); put("y_rap"); }
      if (kind == 4 && r.chance(0.3)) q.clear();
      const std::string res = vh::outcome([&] {
        if (k % 2) OutputFormatter<ToASCII> f(q);
        else OutputFormatter<ToBinary> f(q);
      });
      log(Rec()("op", "quantities")("q", J(q))("res", res));
    }
    for (auto f : {"Oscar2013", "Oscar1999", "ASCII", "Binary", "Oscar2013_bin"}) {
      if (ic) { make(f, "Initial_Conditions"); continue; }
      make(f, "Particles");
      make(f, "Collisions");
      if (r.chance(0.4)) make(f, r.chance(0.5) ? "Dileptons" : "Photons");
    }
    if (ic && nens == 1) make("For_vHLLE", "Initial_Conditions");
    if (!ic && r.chance(0.7)) make("VTK", "Particles");
    std::vector<Particles> ens(nens);
    std::unique_ptr<Clock> noclock;
    const double tau = 0.5 + r.unit();
    for (int ev = 0; ev < nev; ev++) {
      double time = 0.5 + 10 * r.unit();
      EventInfo info{r.chance(0.3) ? 0. : r.chance(0.1) ? 123.4567 : 10 * r.unit(), 0., time, 0., 0., 0., 1, nens, false, false};
      auto change = [&](Particles &p) {  // content of an ensemble at one moment
        if (r.chance(0.4)) p.reset();
        const int k = r.chance(0.1) ? 0 : r.chance(0.1) ? 30 : static_cast<int>(r.in(1, 5));
        for (int i = 0; i < k; i++) {
          ParticleData x{anytype()};
          p.insert(x);
        }
        for (auto &x : p) dress(x, time, true);
        if (p.size() > 1 && r.chance(0.4)) p.remove(p.front());
      };
      for (int e = 0; e < nens; e++) {
        do change(ens[e]); while (ens[e].size() == 0 && std::any_of(outs.begin(), outs.end(), [](Out &o) { return o.format == "VTK"; }));
        log(Rec()("op", "start")("ev", ev)("ens", e)("parts", truths(ens[e])));
        for (auto &o : outs) o.o->at_eventstart(ens[e], EventLabel{ev, e}, info);
      }
      const int steps = static_cast<int>(r.in(0, 8));
      for (int k = 0; k < steps; k++) {
        time += r.unit();
        if (!ic && r.chance(0.4)) {
          for (int e = 0; e < nens; e++) {
            do change(ens[e]); while (ens[e].size() == 0 && std::any_of(outs.begin(), outs.end(), [](Out &o) { return o.format == "VTK"; }));
            log(Rec()("op", "mid")("ev", ev)("ens", e)("parts", truths(ens[e])));
            for (auto &o : outs) o.o->at_intermediate_time(ens[e], noclock, dens, EventLabel{ev, e}, info);
          }
          continue;
        }
        ParticleList in, out;
        const int nin = ic ? 1 : static_cast<int>(r.in(0, 3)), nout = ic ? static_cast<int>(r.in(0, 1)) : static_cast<int>(r.in(nin ? 0 : 1, 5));
        for (int i = 0; i < nin + nout; i++) {
          ParticleData x{anytype(), static_cast<int>(r.in(0, 5000))};
          dress(x, time, true);
          if (ic) {
            const double z = tau * (4 * r.unit() - 2);
            x.set_4position(FourVector(std::sqrt(tau * tau + z * z), size(), size(), z));
          }
          (i < nin ? in : out).push_back(x);
        }
        const ProcessType ty = ic ? (r.chance(0.5) ? ProcessType::Fluidization : ProcessType::FluidizationNoRemoval) : r.pick(PT);
        const double w = r.chance(0.2) ? 0 : 100 * r.unit(), pw = w * r.unit(), rho = r.chance(0.3) ? 0 : r.unit() * 3;
        TestAction act(in, out, time, ty, w, pw);
        log(Rec()("op", "int")("in", truths(in))("out", truths(out))("w", d(w))("pw", d(pw))("rho", d(rho))("type", static_cast<int>(ty)));
        for (auto &o : outs) o.o->at_interaction(act, rho);
      }
      time += r.unit();
      for (int e = 0; e < nens; e++) {
        info.empty_event = r.chance(0.4);
        change(ens[e]);
        log(Rec()("op", "end")("ev", ev)("ens", e)("parts", truths(ens[e]))("impact", d(info.impact_parameter))("empty", info.empty_event));
        for (auto &o : outs) o.o->at_eventend(ens[e], EventLabel{ev, e}, info);
      }
    }
    // what is visible while the outputs are open, and after they were closed
    auto listing = [&](const char *when) {
      std::vector<std::string> v;
      for (auto &e : fs::recursive_directory_iterator(sd))
        if (e.is_regular_file() && e.path().extension() != ".vtk") v.push_back(fs::relative(e.path(), sd).string());
      std::sort(v.begin(), v.end());
      log(Rec()("op", "listing")("when", when)("files", J(v)));
    };
    listing("open");
    outs.clear();
    listing("closed");
    // writing in chunks of limited size
    for (int k = 0; k < 2; k++) {
      Particles p;
      const int m = static_cast<int>(r.in(0, 12));
      for (int i = 0; i < m; i++) p.insert(ParticleData{anytype()});
      for (auto &x : p) dress(x, 5., true);
      const auto q = somequantities(true);
      const bool bin = r.chance(0.5), list = r.chance(0.5);
      std::vector<long> sizes;
      std::string all;
      long one = 0;
      std::string res;
      const size_t maxb = static_cast<size_t>(r.in(20, 1200));
      auto go = [&](auto conv) {
        using C = decltype(conv);
        OutputFormatter<C> f(q);
        one = p.size() ? static_cast<long>(f.single_particle_data(p.front()).size()) : 0;
        std::function<void(const typename C::type &)> wr = [&](const typename C::type &b) {
          sizes.push_back(b.size());
          all.append(b.begin(), b.end());
        };
        res = vh::outcome([&] {
          if (list) details::write_in_chunk_impl<C>(p.copy_to_vector(), f, wr, maxb);
          else details::write_in_chunk_impl<C>(p, f, wr, maxb);
        });
      };
      if (bin) go(ToBinary{});
      else go(ToASCII{});
      std::string hex;
      for (unsigned char ch : all) { char b[4]; std::snprintf(b, sizeof b, "%02x", ch); hex += b; }
      log(Rec()("op", "chunk")("bin", bin)("q", J(q))("max", static_cast<long>(maxb))("one", one)("sizes", J(sizes))("res", res)(
          "parts", truths(p))("data", hex));
    }
  }
}
