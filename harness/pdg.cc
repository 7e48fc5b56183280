// What the real code says about particle codes given as text.
// usage: pdg SEED N OUT
#include "smash/pdgcode.h"
#include "types.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;

template <class F>
static std::string safe(F f) {
  try {
    return f();
  } catch (const PdgCode::InvalidPdgCode &) {
    return "refused";
  } catch (const std::exception &) {
    return "error";
  }
}
static J facts(const PdgCode &p) {
  Rec r;
  std::vector<int> net, content, nuc{p.nucleus_A(), p.nucleus_p(), p.nucleus_n(), p.nucleus_La(), p.nucleus_ap(), p.nucleus_an(), p.nucleus_aLa()};
  for (int q = 1; q <= 6; q++) net.push_back(p.net_quark_number(q));
  for (int q : p.quark_content()) content.push_back(q);
  std::vector<std::string> is;
#define IS(x) if (p.is_##x()) is.push_back(#x)
  IS(nucleus); IS(hadron); IS(lepton); IS(neutrino); IS(charmonia); IS(baryon); IS(meson); IS(nucleon); IS(proton); IS(neutron);
  IS(Nstar1535); IS(Delta); IS(hyperon); IS(Omega); IS(Xi); IS(Lambda); IS(Sigma); IS(Sigmastar); IS(kaon); IS(pion); IS(omega);
  IS(rho); IS(deuteron); IS(triton); IS(heavy_flavor);
  std::vector<int> enough;
  if (p.is_hadron())
    for (int q : {-2, -1, 1, 2}) if (p.contains_enough_valence_quarks(q)) enough.push_back(q);
  PdgCode ground = p;
  ground.deexcite();
  r("dec", static_cast<int>(p.get_decimal()))("str", p.string())("charge", p.charge())("B", p.baryon_number())("S", p.strangeness())(
      "C", p.charmness())("b", p.bottomness())("iso3", p.isospin3())("net", J(net))("content", J(content))("nuc", J(nuc))("is", J(is))(
      "has", p.has_antiparticle())("sign", p.antiparticle_sign())("enough", J(enough))("quarks", static_cast<int>(p.quarks()))(
      "fs", static_cast<int>(std::lround(6 * p.frac_strange())))("fc", static_cast<int>(std::lround(6 * p.frac_charm())))(
      "fb", static_cast<int>(std::lround(6 * p.frac_bottom())))("ground", static_cast<int>(ground.get_decimal()));
  int spin = -1, deg = -1;
  if (safe([&] { spin = static_cast<int>(p.spin()); deg = static_cast<int>(p.spin_degeneracy()); return std::string("ok"); }) != "ok") spin = deg = -1;
  r("spin", spin)("deg", deg);
  return J::raw(r.t + "}");
}
int main(int, char **a) {
  vh::Rng r(std::atoll(a[1]));
  const int n = std::atoi(a[2]);
  vh::Log log(a[3]);
  std::vector<PdgCode> seen;
  std::vector<std::string> real = {"211", "111", "221", "331", "333", "223", "113", "213", "321", "311", "411", "421", "431", "511", "521", "531", "541", "443", "553",
      "2212", "2112", "2224", "1114", "2214", "2114", "3122", "3222", "3212", "3112", "3312", "3322", "3334", "3114", "3214", "3224", "4122", "4332", "5122",
      "102212", "202112", "9010221", "9000111", "30113", "10211", "9903129", "19903129", "990312a", "42212", "11112", "22212", "13122", "103222", "11", "12", "13", "14", "15", "16", "17",
      "22", "21", "23", "24", "25", "1", "2", "6", "0", "130", "310", "1000010020", "1000010030", "1000020030", "1010010030", "1000020040", "1000822080", "1000010021", "1000792080", "100001002"};
  for (int k = 0; k < n; k++) {
    std::string t;
    if (k < static_cast<int>(real.size())) {
      t = real[k];
      if (r.chance(0.5)) t = r.pick<std::string>({"+", "-", "-"}) + t;
    } else {
      switch (r.in(0, 4)) {
        case 0:  // mesons and baryons
        case 1: {
          const bool baryon = r.chance(0.5);
          t = r.pick<std::string>({"", "", "10", "20", "1", "2", "990", "900", "9010"});
          if (baryon || !t.empty()) t += baryon ? std::to_string(r.in(1, 6)) : "0";
          t += std::to_string(r.in(1, 6)) + std::to_string(r.in(1, 6)) + std::to_string(2 * r.in(0, 4) + (baryon ? 0 : 1));
          t = r.pick<std::string>({"", "+", "-"}) + t;
          break;
        }
        case 2: {  // digits at random
          const int len = static_cast<int>(r.in(0, 11));
          for (int q = 0; q < len; q++) t += std::string("0123456789ABCDEFabcdef")[r.in(0, r.chance(0.8) ? 6 : 21)];
          t = r.pick<std::string>({"", "+", "-"}) + t;
          break;
        }
        case 3: {  // nuclei
          const int A = static_cast<int>(r.in(1, r.chance(0.5) ? 5 : 250)), Z = static_cast<int>(r.in(0, A)), L = static_cast<int>(r.in(0, std::min(9, A - Z)));
          char b[40];
          std::snprintf(b, sizeof b, "10%d%03d%03d%d", L, Z, A, static_cast<int>(r.in(0, 9)));
          t = r.pick<std::string>({"", "+", "-"}) + b;
          if (r.chance(0.1)) t[r.in(0, t.size() - 1)] = r.pick<char>({'A', 'x', '-', '9', '_'});
          break;
        }
        default: {
          t = r.pick(real);
          const int pos = static_cast<int>(r.in(0, t.size() - 1));
          t[pos] = r.pick<char>({'0', '1', '2', '3', '4', '5', '6', '7', '9', 'a', '-', 'g', '.'});
        }
      }
    }
    std::vector<int> digits;
    int sign = 0;
    size_t c = 0;
    if (!t.empty() && (t[0] == '+' || t[0] == '-')) sign = t[0] == '+' ? 1 : -1, c = 1;
    for (; c < t.size(); c++) {
      const char x = t[c];
      digits.push_back(x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1);
    }
    Rec e;
    e("op", "code")("reset", true)("text", t)("sign", sign)("digits", J(digits));
    PdgCode p;
    const std::string res = safe([&] { p = PdgCode(t); return std::string("ok"); });
    e("res", res);
    if (res == "ok") {
      PdgCode s;
      std::istringstream in(t);
      in >> s;
      e("is", facts(p))("anti", facts(p.get_antiparticle()))("twice", p.get_antiparticle().get_antiparticle() == p)("stream", !in.fail() && s == p);
      e("fromdec", safe([&] { return std::string(PdgCode::from_decimal(p.get_decimal()) == p ? "same" : "other"); }));
      e("fromtext", safe([&] { return std::string(PdgCode(p.string()) == p ? "same" : "other"); }));
      e("fromcode", p.is_nucleus() ? std::string("same") : safe([&] { return std::string(PdgCode(p.code()) == p ? "same" : "other"); }));
      e("fromdump", p.is_nucleus() ? std::string("same") : safe([&] { return std::string(PdgCode(p.dump()) == p ? "same" : "other"); }));
      seen.push_back(p);
      if (p.has_antiparticle() && r.chance(0.5)) seen.push_back(p.get_antiparticle());
    } else {
      PdgCode s;
      std::istringstream in(t);
      in >> s;
      e("stream", !in.fail() && !t.empty());
    }
    log(e);
    if (seen.size() > 2 && r.chance(0.7)) {
      const PdgCode x = r.pick(seen), y = x.has_antiparticle() && r.chance(0.2) ? x.get_antiparticle() : r.chance(0.1) ? x : r.pick(seen), z = r.pick(seen);
      log(Rec()("op", "triple")("x", static_cast<int>(x.get_decimal()))("y", static_cast<int>(y.get_decimal()))("z", static_cast<int>(z.get_decimal()))(
          "lt", J(std::vector<bool>{x < y, y < z, x < z, y < x, z < y, z < x}))("eq", J(std::vector<bool>{x == y, y == z, x == z}))(
          "ne", J(std::vector<bool>{x != y, y != z, x != z}))("anti", J(std::vector<bool>{x.is_antiparticle_of(y), y.is_antiparticle_of(x)}))(
          "nuc", x.is_nucleus() || y.is_nucleus()));
    }
    if (r.chance(0.2)) {
      std::vector<int> l;
      std::vector<PdgCode> q;
      for (int j = 0; j < 3; j++) {
        q.push_back(PdgCode(r.pick<std::string>({"11", "-11", "12", "-12", "13", "-13", "211", "22", "111"})));
        l.push_back(q.back().get_decimal());
      }
      log(Rec()("op", "leptons")("l", J(l))("two", is_dilepton(q[0], q[1]))("pair", has_lepton_pair(q[0], q[1], q[2])));
    }
  }
  return 0;
}
