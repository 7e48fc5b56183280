// Records random and systematic operation sequences on the real clocks.
// usage: clock SEED TRACES LENGTH OUT
#include <algorithm>
#include <array>
#include <limits>
#include <memory>

#include "smash/clock.h"
#include "smash/logging.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;

static J bi(int64_t v) {  // the format of BigInt.tla
  if (v == 0) return J::raw("[0]");
  std::string s = v < 0 ? "[-1" : "[1";
  unsigned long long m = v < 0 ? 0ull - static_cast<unsigned long long>(v) : v;
  for (; m; m /= 10000) s += "," + std::to_string(m % 10000);
  return J::raw(s + "]");
}
static double us(int64_t k) { return k * 0.000001; }
static J ticks(double x) { return bi(std::llround(x * 1e6)); }
static J biX() { return J::raw("[]"); }
static J val(std::function<double()> f) {
  try { return ticks(f()); } catch (const std::exception &) { return biX(); }
}

int main(int, char **a) {
  vh::Rng r(std::atoll(a[1]));
  const int traces = std::atoi(a[2]), len = std::atoi(a[3]);
  vh::Log log(a[4]);
  logg[LClock].setVerbosity(einhard::OFF);
  const std::vector<int64_t> steps = {1, 2, 3, 7, 10, 100, 1000, 99999, 100000, 123457, 300000, 1000000, 333333, 5000000, 777777777};
  for (int n = 0; n < traces; n++) {
    const bool uniform = r.chance(0.75);
    const bool huge = uniform && r.chance(0.15);  // counters near the overflow, dt = one tick
    std::unique_ptr<Clock> c;
    int64_t t0 = 0, dt = 1, end = 1;
    long double est = 0;  // rough position, to stay inside what doubles show exactly
    auto obs = [&]() -> J {
      if (!c || std::fabs(static_cast<double>(est)) > 1e14) return J::raw("{\"none\":true}");
      Rec o;
      o("cur", val([&] { return c->current_time(); }))("next", val([&] { return c->next_time(); }))(
          "dur", val([&] { return c->timestep_duration(); }));
      return o.j();
    };
    if (uniform) {
      const int64_t span = r.pick<int64_t>({1, 5, 20, 1000, 1000000, 100000000, 400000000000});
      t0 = huge ? 0 : r.in(-span, span);
      dt = huge ? 1 : (r.chance(0.1) ? r.in(-2, 2) : r.pick(steps));
      end = huge ? 1000 : t0 + (r.chance(0.1) ? r.in(-2, 1) : r.in(1, 12) * std::max<int64_t>(1, r.in(dt / 2, 2 * dt)));
      // inputs are rounded to the resolution
      const double off = r.chance(0.3) ? 0.4e-6 : r.chance(0.3) ? -0.3e-6 : 0.;
      std::string res;
      try {
        auto u = std::make_unique<UniformClock>(us(t0) + (dt ? off : 0), us(dt), us(end) - (dt ? off : 0));
        c = std::move(u);
        res = "ok";
      } catch (const std::exception &) { res = "exception"; }
      est = t0;
      log(Rec()("op", "uniform")("reset", true)("t", bi(t0))("dt", bi(dt))("end", bi(end))("res", res)("obs", obs()));
    } else {
      std::vector<int64_t> ts;
      int64_t t = r.in(-30, 30) * 100000;
      for (int k = r.in(0, 8); k > 0; k--) { ts.push_back(t); t += r.pick<int64_t>({1, 50, 100000, 1000000, 1234567}); }
      std::vector<double> d;
      for (auto k : ts) d.push_back(us(k));
      for (size_t k = d.size(); k > 1; k--) std::swap(d[k - 1], d[r.in(0, k - 1)]);
      c = std::make_unique<CustomClock>(d);
      std::string l = "[";
      for (size_t k = 0; k < ts.size(); k++) l += (k ? "," : "") + bi(ts[k]).t;
      log(Rec()("op", "custom")("reset", true)("times", J::raw(l + "]"))("res", "ok")("obs", obs()));
      t0 = ts.empty() ? 0 : ts[0];
      end = ts.empty() ? 1 : ts.back();
      dt = 100000;
    }
    if (!c) continue;
    UniformClock *u = dynamic_cast<UniformClock *>(c.get());
    for (int k = 0; k < len; k++) {
      const int what = r.in(0, 99);
      if (huge && what < 70) {
        const int64_t mx = std::numeric_limits<int64_t>::max();
        const int64_t by = r.pick<int64_t>({mx - 10, mx - 2, mx - 1, mx, mx / 2, 5, 1, 100});
        if (what < 40) {
          const bool base = r.chance(0.5);
          std::string res = vh::outcome([&] { if (base) static_cast<Clock &>(*c) += by; else *u += by; });
          if (res == "ok") est += by;
          log(Rec()("op", "ticks")("k", bi(by))("res", res)("obs", obs()));
        } else {
          std::string res = vh::outcome([&] { ++*c; });
          if (res == "ok") est += 1;
          log(Rec()("op", "tick")("res", res)("obs", obs()));
        }
      } else if (what < 55) {
        std::string res = vh::outcome([&] { ++*c; });
        if (res == "ok") est += dt;
        log(Rec()("op", "tick")("res", res)("obs", obs()));
      } else if (what < 65 && u) {
        const int64_t by = r.pick<int64_t>({0, 1, 2, 3, 10, 1000, 1000000});
        if (std::fabs(static_cast<double>(by) * dt) > 1e15) continue;
        const bool base = r.chance(0.5);
        std::string res = vh::outcome([&] { if (base) static_cast<Clock &>(*c) += by; else *u += by; });
        est += static_cast<long double>(by) * dt;
        log(Rec()("op", "ticks")("k", bi(by))("res", res)("obs", obs()));
      } else if (what < 73 && u && !huge) {
        const int64_t by = r.chance(0.15) ? -r.in(1, 10) : r.in(0, 3) * r.in(1, 2 * dt + 1);
        std::string res = vh::outcome([&] { *u += us(by) + (by > 0 && r.chance(0.3) ? 0.3e-6 : 0.); });
        if (res == "ok") est += by;
        log(Rec()("op", "jump")("t", bi(by))("res", res)("obs", obs()));
      } else if (what < 81 && u && !huge) {
        const int64_t nd = r.chance(0.15) ? -r.in(0, 5) : r.pick(steps);
        std::string res = vh::outcome([&] { u->set_timestep_duration(us(nd)); });
        if (res == "ok") dt = nd;
        log(Rec()("op", "step")("dt", bi(nd))("res", res)("obs", obs()));
      } else if (what < 88 || (huge && what < 95)) {
        if (huge && std::fabs(static_cast<double>(est)) > 1e14) continue;  // not representable
        const bool out = r.chance(0.5);
        const int64_t t = huge ? 0 : r.chance(0.5) ? r.in(-6, 12) * dt : r.in(t0 - 5 * dt, end + 2 * dt);
        std::string res = vh::outcome([&] { c->reset(us(t), out); });
        est = t;
        log(Rec()("op", "rewind")("t", bi(t))("out", out)("res", res)("obs", obs()));
      } else if (what < 93) {
        const int64_t t = t0 + r.in(-1, 5) * 100000;
        std::string res = vh::outcome([&] { c->remove_times_in_past(us(t)); });
        log(Rec()("op", "drop")("t", bi(t))("res", res)("obs", obs()));
      } else {
        try {
          const double now = c->current_time();
          if (u && !(now < us(end) - 1e-7)) continue;
          const int64_t m = std::llround(now * 1e6) + r.pick<int64_t>({0, 0, 1, -1, 1000, -777});
          if (std::fabs(static_cast<double>(m)) > 1e14) continue;
          const double t = us(m);
          UniformClock other(t, 1., t + 10.);
          // an exact tie is decided on equal doubles only
          if (m == std::llround(now * 1e6) && t != now) continue;
          log(Rec()("op", "compare")("t", bi(m))("lt", *c < t)("gt", *c > t)("cl", *c < other)("res", "ok")("obs", obs()));
        } catch (const std::exception &) {}
      }
    }
  }
}
