/* Stand-in for the PYTHIA 8 header, so that the sources of /repo which include
 * it can be compiled in a sandbox without PYTHIA.  It offers the declarations
 * that SMASH uses and no physics: event generation always fails.  The harness
 * only runs SMASH with string fragmentation switched off, where none of this is
 * executed. */
#ifndef VERIF_STUB_PYTHIA_H
#define VERIF_STUB_PYTHIA_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace Pythia8 {

[[noreturn]] inline void stub_abort(const char *what) {
  std::fprintf(stderr, "PYTHIA-STUB: %s called\n", what);
  std::abort();
}

class Vec4 {
 public:
  Vec4(double x = 0., double y = 0., double z = 0., double t = 0.)
      : x_(x), y_(y), z_(z), t_(t) {}
  double px() const { return x_; }
  double py() const { return y_; }
  double pz() const { return z_; }
  double e() const { return t_; }
  void px(double v) { x_ = v; }
  void py(double v) { y_ = v; }
  void pz(double v) { z_ = v; }
  void e(double v) { t_ = v; }
  double pAbs2() const { return x_ * x_ + y_ * y_ + z_ * z_; }
  double pAbs() const { return std::sqrt(pAbs2()); }
  double m2Calc() const { return t_ * t_ - pAbs2(); }
  double mCalc() const {
    const double m2 = m2Calc();
    return m2 >= 0. ? std::sqrt(m2) : -std::sqrt(-m2);
  }
  Vec4 &operator+=(const Vec4 &v) {
    x_ += v.x_, y_ += v.y_, z_ += v.z_, t_ += v.t_;
    return *this;
  }
  Vec4 &operator-=(const Vec4 &v) {
    x_ -= v.x_, y_ -= v.y_, z_ -= v.z_, t_ -= v.t_;
    return *this;
  }
  Vec4 operator+(const Vec4 &v) const { return Vec4(*this) += v; }
  Vec4 operator-(const Vec4 &v) const { return Vec4(*this) -= v; }
  Vec4 operator-() const { return Vec4(-x_, -y_, -z_, -t_); }
  Vec4 &operator*=(double f) {
    x_ *= f, y_ *= f, z_ *= f, t_ *= f;
    return *this;
  }
  friend Vec4 operator*(double f, const Vec4 &v) { return Vec4(v) *= f; }
  friend Vec4 operator*(const Vec4 &v, double f) { return Vec4(v) *= f; }
  friend double operator*(const Vec4 &a, const Vec4 &b) {
    return a.t_ * b.t_ - a.x_ * b.x_ - a.y_ * b.y_ - a.z_ * b.z_;
  }

 private:
  double x_, y_, z_, t_;
};

class Particle {
 public:
  Particle() {}
  Particle(int id, int status, int col, int acol, Vec4 p, double m)
      : id_(id), status_(status), col_(col), acol_(acol), p_(p), m_(m) {}
  int id() const { return id_; }
  void id(int v) { id_ = v; }
  int status() const { return status_; }
  void status(int v) { status_ = v; }
  int col() const { return col_; }
  int acol() const { return acol_; }
  Vec4 p() const { return p_; }
  void p(Vec4 v) { p_ = v; }
  double m() const { return m_; }
  void m(double v) { m_ = v; }
  double e() const { return p_.e(); }
  double px() const { return p_.px(); }
  double py() const { return p_.py(); }
  double pz() const { return p_.pz(); }
  void e(double v) { p_.e(v); }
  void px(double v) { p_.px(v); }
  void py(double v) { p_.py(v); }
  void pz(double v) { p_.pz(v); }
  double pAbs() const { return p_.pAbs(); }
  double pAbs2() const { return p_.pAbs2(); }
  double y() const {
    return 0.5 * std::log((e() + pz() + 1e-20) / (e() - pz() + 1e-20));
  }
  bool isFinal() const { return status_ > 0; }
  bool isQuark() const { return id_ != 0 && std::abs(id_) < 9; }
  bool isDiquark() const {
    const int a = std::abs(id_);
    return a > 1000 && a < 10000 && (a / 10) % 10 == 0;
  }
  bool isGluon() const { return id_ == 21; }
  bool isParton() const {
    const int a = std::abs(id_);
    return a == 21 || (a > 0 && a < 9) ||
           (a > 1000 && a < 10000 && (a / 10) % 10 == 0);
  }
  bool isHadron() const { return !isParton() && std::abs(id_) > 100; }

 private:
  int id_ = 0, status_ = 0, col_ = 0, acol_ = 0;
  Vec4 p_;
  double m_ = 0.;
};

class ParticleData {
 public:
  bool isParticle(int) const { return true; }
  double m0(int id) const {
    auto it = m_.find(std::abs(id));
    if (it != m_.end())
      return it->second;
    const int a = std::abs(id);
    return a <= 2 ? 0.33 : a == 3 ? 0.5 : a == 4 ? 1.5 : a == 5 ? 4.8 : 0.77;
  }
  void m0(int id, double m) { m_[std::abs(id)] = m; }
  double mWidth(int) const { return 0.; }
  void mWidth(int, double) {}
  double mSel(int id) const { return m0(id); }
  bool isQuark(int id) const { return id != 0 && std::abs(id) < 9; }
  bool isDiquark(int id) const {
    const int a = std::abs(id);
    return a > 1000 && a < 10000 && (a / 10) % 10 == 0;
  }
  bool isBaryon(int id) const {
    const int a = std::abs(id);
    return a > 1000 && a < 10000 && (a / 10) % 10 != 0;
  }
  bool isOctetHadron(int) const { return false; }
  int baryonNumberType(int id) const {
    const int s = id > 0 ? 1 : -1;
    return isQuark(id) ? s : isDiquark(id) ? 2 * s : isBaryon(id) ? 3 * s : 0;
  }
  int nQuarksInCode(int id, int iq) const {
    const int a = std::abs(id);
    if (isQuark(a))
      return a == iq;
    if (isDiquark(a))
      return (a / 1000 % 10 == iq) + (a / 100 % 10 == iq);
    if (isBaryon(a))
      return (a / 1000 % 10 == iq) + (a / 100 % 10 == iq) +
             (a / 10 % 10 == iq);
    return (a / 100 % 10 == iq) + (a / 10 % 10 == iq);
  }

 private:
  std::map<int, double> m_;
};

class Event {
 public:
  void init(const std::string & = "", ParticleData * = nullptr) {}
  void reset() { entries_.assign(1, Particle(90, -11, 0, 0, Vec4(), 0.)); }
  int size() const { return static_cast<int>(entries_.size()); }
  Particle &operator[](int i) { return entries_[i]; }
  const Particle &operator[](int i) const { return entries_[i]; }
  int append(const Particle &p) {
    entries_.push_back(p);
    return size() - 1;
  }
  int append(int id, int status, int col, int acol, Vec4 p, double m = 0.) {
    return append(Particle(id, status, col, acol, p, m));
  }
  void remove(int a, int b) {
    entries_.erase(entries_.begin() + a, entries_.begin() + b + 1);
  }
  void clearJunctions() {}
  int sizeJunction() const { return 0; }
  int kindJunction(int) const { return 0; }
  int colJunction(int, int) const { return 0; }
  void appendJunction(int, int, int, int) {}
  void eraseJunction(int) {}
  void list() const {}
  void listJunctions() const {}

 private:
  std::vector<Particle> entries_;
};

class Info {};

class Rndm {
 public:
  void init(int) {}
  double flat() { return 0.5; }
};

class FlavContainer {
 public:
  explicit FlavContainer(int id_in = 0) : id(id_in) {}
  void anti(const FlavContainer &f) { id = -f.id; }
  int id, rank = 0, nPop = 0, idPop = 0, idVtx = 0;
};

class StringFlav {
 public:
  void initInfoPtr(Info &) {}
  void init() {}
  FlavContainer pick(FlavContainer &, double = -1., double = 0., bool = true) {
    stub_abort("StringFlav::pick");
  }
  int combine(FlavContainer &, FlavContainer &) {
    stub_abort("StringFlav::combine");
  }
};

class SigmaTotal {
 public:
  void initInfoPtr(Info &) {}
  void init() {}
  bool calc(int, int, double) { stub_abort("SigmaTotal::calc"); }
  double sigmaAX() const { return 0.; }
  double sigmaXB() const { return 0.; }
  double sigmaXX() const { return 0.; }
};

class Settings {
 public:
  void flag(const std::string &, bool) {}
  void mode(const std::string &, int) {}
  void parm(const std::string &, double) {}
};

class Pythia {
 public:
  explicit Pythia(std::string = "", bool = false) {}
  bool readString(const std::string &) { return true; }
  bool init() { return true; }
  bool next() { stub_abort("Pythia::next"); }
  bool forceHadronLevel(bool = true) { stub_abort("Pythia::forceHadronLevel"); }
  double parm(const std::string &) const { return 0.; }
  Event event;
  ParticleData particleData;
  const Info info{};
  Rndm rndm;
  Settings settings;
  bool setKinematics(double) { return true; }
};

}  // namespace Pythia8
#endif
