// Operation sequences on real configuration trees (C10), the database of keys and verdicts on inputs (C11).
// usage: config ops SEED TRACES LENGTH OUT DIR | config keys OUT | config validate SEED N OUT DIR | config enums OUT
#include <unistd.h>

#include <array>
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>
#include <set>

#include <yaml-cpp/yaml.h>

#include "smash/configuration.h"
#include "smash/input_keys.h"
#include "smash/logging.h"
#include "vh.h"
using namespace smash;
using vh::J;
using vh::Rec;
static vh::Rng *R;
static const char S = Configuration::InitializeFromYAMLString;

static std::string flow(const YAML::Node &n) {
  if (n.IsNull()) return "~";
  if (n.IsScalar()) return n.Scalar();
  std::string s;
  if (n.IsSequence()) {
    for (auto x : n) s += (s.empty() ? "" : ", ") + flow(x);
    return "[" + s + "]";
  }
  for (auto x : n) s += (s.empty() ? "" : ", ") + x.first.Scalar() + ": " + flow(x.second);
  return "{" + s + "}";
}
static void walk(const YAML::Node &n, std::vector<std::string> &path, std::vector<J> &out) {
  if (n.IsMap()) {
    for (auto x : n) {
      path.push_back(x.first.Scalar());
      walk(x.second, path, out);
      path.pop_back();
    }
    return;
  }
  if (path.empty()) return;
  out.push_back(J::raw("[" + J(path).t + "," + J(flow(n)).t + "]"));
}
static J tree(const Configuration &c) {
  std::vector<std::string> p;
  std::vector<J> out;
  const std::string text = c.to_string();
  walk(YAML::Load(text), p, out);
  std::string s = "[";
  for (size_t k = 0; k < out.size(); k++) s += (k ? "," : "") + out[k].t;
  return J::raw(s + "]");
}
static std::string show(int v) { return std::to_string(v); }
static std::string show(bool v) { return v ? "true" : "false"; }
static std::string show(const std::string &v) { return v; }
static std::string show(double v) { char b[40]; std::snprintf(b, sizeof b, "%.12g", v); return b; }
template <class T>
static std::string show(const std::vector<T> &v) {
  std::string s;
  for (size_t k = 0; k < v.size(); k++) s += (k ? ", " : "") + show(v[k]);
  return "[" + s + "]";
}
template <class T, size_t N>
static std::string show(const std::array<T, N> &v) { return show(std::vector<T>(v.begin(), v.end())); }
static std::string show(const std::map<std::string, std::string> &v) {
  std::string s;
  for (auto &x : v) s += (s.empty() ? "" : ", ") + x.first + ": " + x.second;
  return "{" + s + "}";
}

struct Slot {
  std::unique_ptr<Configuration> c;
};
static KeyLabels somepath(size_t maxlen = 3) {
  KeyLabels l;
  const size_t n = R->in(1, maxlen);
  for (size_t k = 0; k < n; k++) l.push_back(R->pick<std::string>({"A", "B", "C", "A"}));
  return l;
}
// whether a path leads into a sequence (not asked of the code: an unclear request)
static bool into_sequence(YAML::Node n, const KeyLabels &l) {
  for (auto &x : l) {
    if (n.IsSequence()) return true;
    if (!n.IsMap() || !n[x]) return false;
    n.reset(YAML::Node(n[x]));
  }
  return false;
}
static bool into_sequence(YAML::Node n, YAML::Node given) {
  if (!given.IsMap()) return false;
  if (n.IsSequence()) return true;
  if (!n.IsMap()) return false;
  for (auto x : given)
    if (n[x.first.Scalar()] && into_sequence(n[x.first.Scalar()], x.second)) return true;
  return false;
}
static std::string scalar() {
  return R->pick<std::string>({"7", "-3", "2.5", "true", "off", "abc", "1e3", "0", "x y", "[1, 2]", "[a, b]", "[]", "[1, 2, 3]", "~", "12", "No"});
}
static std::string nested(int depth) {  // flow YAML of a map
  std::string s = "{";
  std::set<std::string> used;
  const int n = static_cast<int>(R->in(1, 3));
  for (int k = 0; k < n; k++) {
    const std::string key = R->pick<std::string>({"A", "B", "C"});
    if (!used.insert(key).second) continue;
    s += (s.size() > 1 ? ", " : "") + key + ": " + (depth > 1 && R->chance(0.5) ? nested(depth - 1) : scalar());
  }
  return s + "}";
}
template <class F>
static std::string what(F f) {
  try {
    f();
    return "ok";
  } catch (const Configuration::TakeSameKeyTwice &) {
    return "twice";
  } catch (const Configuration::IncorrectTypeInAssignment &) {
    return "type";
  } catch (const std::invalid_argument &) {
    return "invalid";
  } catch (const std::logic_error &) {
    return "logic";
  } catch (const std::exception &) {
    return "error";
  }
}

template <class T>
static void takeread(Configuration &c, vh::Log &log, int id, const char *type, const KeyLabels &l, const T &def, T given) {
  const bool take = R->chance(0.6);
  const int kind = static_cast<int>(R->in(0, 3));  // 0: mandatory, 1: default, 2: dependent default, 3: default, value rejected
  typename detail::KeyTraits<T>::validator_type none = [](const T &) { return true; };
  bool asked = false;
  typename detail::KeyTraits<T>::validator_type reject = [&](const T &v) { asked = true; return show(v) == show(def); };
  Key<T> key = kind == 0 ? Key<T>(l, {"1.0"}) : kind == 1 ? Key<T>(l, def, {"1.0"}) : kind == 2 ? Key<T>(l, DefaultType::Dependent, {"1.0"}) : Key<T>(l, def, {"1.0"}, reject);
  const bool withdef = kind == 2 ? R->chance(0.8) : R->chance(0.05);
  std::string v;
  const std::string res = what([&] {
    if (take) v = withdef ? show(c.take(key, given)) : show(c.take(key));
    else v = withdef ? show(c.read(key, given)) : show(c.read(key));
  });
  log(Rec()("op", take ? "take" : "read")("c", id)("type", type)("path", J(l))("kind", kind)("withdef", withdef)("def", show(def))(
      "given", show(given))("res", res)("value", v)("tree", tree(c)));
}

static int ops(char **a) {
  vh::Rng r(std::atoll(a[2]));
  R = &r;
  const int traces = std::atoi(a[3]), len = std::atoi(a[4]);
  vh::Log log(a[5]);
  const std::filesystem::path dir = a[6];
  std::filesystem::create_directories(dir);
  for (int t = 0; t < traces; t++) {
    log(Rec()("op", "begin")("reset", true));
    std::map<int, std::unique_ptr<Configuration>> C;
    int next = 1;
    auto fresh = [&](std::string text, bool file) {
      std::unique_ptr<Configuration> c;
      const std::string res = what([&] {
        if (file) {
          std::ofstream(dir / "c.yaml") << text;
          c = std::make_unique<Configuration>(dir, "c.yaml");
        } else {
          c = std::make_unique<Configuration>(text.c_str(), S);
        }
      });
      std::vector<std::string> p;
      std::vector<J> in;
      std::string s = "[";
      if (res == "ok") {
        walk(YAML::Load(text), p, in);
        for (size_t k = 0; k < in.size(); k++) s += (k ? "," : "") + in[k].t;
      }
      s += "]";
      const int id = next++;
      if (c) {
        log(Rec()("op", "new")("c", id)("given", J::raw(s))("tree", tree(*c)));
        C[id] = std::move(c);
      } else {
        log(Rec()("op", "refused")("c", id)("text", text));
      }
    };
    fresh(nested(3), r.chance(0.3));
    for (int k = 0; k < len; k++) {
      if (C.empty()) fresh(nested(3), r.chance(0.3));
      auto it = C.begin();
      std::advance(it, r.in(0, C.size() - 1));
      const int id = it->first;
      Configuration &c = *it->second;
      KeyLabels l = somepath();
      {  // often a path that exists
        std::vector<std::string> p;
        std::vector<J> out;
        YAML::Node n = YAML::Load(c.to_string());
        KeyLabels q;
        while (n.IsMap() && n.size() && r.chance(0.9)) {
          auto i = n.begin();
          std::advance(i, r.in(0, n.size() - 1));
          q.push_back(i->first.Scalar());
          n.reset(YAML::Node(i->second));
        }
        if (!q.empty() && r.chance(0.75)) l = q;
        if (into_sequence(YAML::Load(c.to_string()), l)) continue;
      }
      switch (r.in(0, 16)) {
        case 0: case 1: case 2: case 3:
          switch (r.in(0, 6)) {
            case 0: takeread<int>(c, log, id, "int", l, 5, static_cast<int>(r.in(0, 9))); break;
            case 1: takeread<double>(c, log, id, "double", l, 0.5, 1.25); break;
            case 2: takeread<bool>(c, log, id, "bool", l, r.chance(0.5), true); break;
            case 3: takeread<std::string>(c, log, id, "string", l, "def", "giv"); break;
            case 4: takeread<std::vector<std::string>>(c, log, id, "strings", l, {"u"}, {"g", "h"}); break;
            case 5: takeread<std::array<double, 2>>(c, log, id, "array2", l, {1., 2.}, {3., 4.}); break;
            default: takeread<std::map<std::string, std::string>>(c, log, id, "map", l, {{"k", "v"}}, {{"g", "w"}}); break;
          }
          break;
        case 4: case 5: {
          const std::string text = nested(3);
          if (into_sequence(YAML::Load(c.to_string()), YAML::Load(text))) break;
          std::vector<std::string> p;
          std::vector<J> in;
          walk(YAML::Load(text), p, in);
          std::string s = "[";
          for (size_t q = 0; q < in.size(); q++) s += (q ? "," : "") + in[q].t;
          const std::string res = what([&] { c.merge_yaml(text); });
          log(Rec()("op", "merge")("c", id)("given", J::raw(s + "]"))("res", res)("tree", tree(c)));
          break;
        }
        case 6: {
          const Key<std::string> key(l, {"1.0"});
          const std::string v = r.pick<std::string>({"set", "12", "other"});
          const std::string res = what([&] { c.set_value(key, v); });
          log(Rec()("op", "set")("c", id)("path", J(l))("value", v)("res", res)("tree", tree(c)));
          break;
        }
        case 7: {
          const std::string key = l.back();
          KeyLabels sec(l.begin(), l.end() - 1);
          if (r.chance(0.2)) sec = somepath();
          KeyLabels all = sec;
          all.push_back(key);
          if (into_sequence(YAML::Load(c.to_string()), all)) break;
          const std::string res = what([&] { c.remove_all_entries_in_section_but_one(key, sec); });
          log(Rec()("op", "butone")("c", id)("key", key)("path", J(sec))("res", res)("tree", tree(c)));
          break;
        }
        case 8: case 9: case 10: {
          const bool complete = r.chance(0.4), empty = r.chance(0.3);
          if (l.size() > 1 && r.chance(0.6)) l.pop_back();
          const auto ge = empty ? Configuration::GetEmpty::Yes : Configuration::GetEmpty::No;
          std::unique_ptr<Configuration> n;
          const std::string res = what([&] {
            if (complete) n = std::make_unique<Configuration>(c.extract_complete_sub_configuration(l, ge));
            else n = std::make_unique<Configuration>(c.extract_sub_configuration(l, ge));
          });
          const int nid = next++;
          Rec q;
          q("op", "extract")("c", id)("d", nid)("complete", complete)("empty", empty)("path", J(l))("res", res)("tree", tree(c));
          if (n) q("sub", tree(*n));
          log(q);
          if (n && empty && complete && tree(*n).t == "[]") n->clear();  // an empty section remains
          else if (n) C[nid] = std::move(n);
          break;
        }
        case 11: {
          const KeyLabels sec = somepath(2);
          if (c.is_empty()) break;
          const std::string res = what([&] { c.enclose_into_section(sec); });
          log(Rec()("op", "enclose")("c", id)("path", J(sec))("res", res)("tree", tree(c)));
          break;
        }
        case 12: {
          const Key<int> key(l, {"1.0"});
          std::vector<std::string> up;
          for (auto &x : c.list_upmost_nodes()) up.push_back(x);
          log(Rec()("op", "query")("c", id)("path", J(l))("has_key", c.has_key(key))("has_value", c.has_value(key))(
              "has_section", c.has_section(l))("empty", c.is_empty())("top", J(up)));
          break;
        }
        case 13: {  // move
          std::unique_ptr<Configuration> n;
          const int nid = next++;
          const bool assign = r.chance(0.5);
          if (assign) {
            n = std::make_unique<Configuration>("", S);
            *n = std::move(c);
          } else {
            n = std::make_unique<Configuration>(std::move(c));
          }
          log(Rec()("op", "move")("c", id)("d", nid)("tree", tree(c))("sub", tree(*n)));
          C[nid] = std::move(n);
          break;
        }
        case 14: {
          const bool force = r.chance(0.3);
          if (force) c.clear();
          const std::string res = what([&] {
            Configuration last(std::move(c));
          });
          Configuration *rest = it->second.release();
          const std::string res2 = what([&] { rest->~Configuration(); });
          ::operator delete(rest);
          C.erase(it);
          log(Rec()("op", "destroy")("c", id)("cleared", force)("res", res)("moved", res2));
          break;
        }
        case 15:
          fresh(r.chance(0.8) ? nested(3) : r.pick<std::string>({"A: {B: 1", "A: 1\n B: 2\n", "A: [1, 2", "a: b: c"}), r.chance(0.3));
          break;
        default:
          if (r.chance(0.2)) {
            c.clear();
            log(Rec()("op", "clear")("c", id)("tree", tree(c)));
          }
      }
      if (C.size() > 4) {
        auto x = C.begin();
        x->second->clear();
        C.erase(x);
      }
    }
    for (auto &x : C) x.second->clear();
  }
  return 0;
}

template <class T>
static std::string deftext(const T &v) {
  YAML::Node n;
  n = v;
  return flow(n);
}
static std::string deftext(const PdgCode &v) { return v.string(); }
static std::string deftext(const RestFrameDensityDerivativesMode &v) { return std::to_string(static_cast<int>(v)); }
static std::string deftext(const std::vector<double> &v) { return show(v); }
static std::string deftext(const double &v) { return show(v); }
static std::string deftext(const bool &v) { return show(v); }
template <size_t N>
static std::string deftext(const std::array<double, N> &v) { return show(v); }
static std::string deftext(const std::pair<double, double> &v) { return show(std::vector<double>{v.first, v.second}); }
static std::string deftext(const std::set<ThermodynamicQuantity> &v) { return "{" + std::to_string(v.size()) + "}"; }
static std::string deftext(const std::map<PdgCode, int> &v) { return "{" + std::to_string(v.size()) + "}"; }
template <class T>
static std::string probe(const Key<T> &key) {
  std::string s;
  if constexpr (std::is_same_v<T, int> || std::is_same_v<T, int64_t>) {
    for (int v : {-2, -1, 0, 1, 2, 1000}) s += key.validate(v) ? "1" : "0";
  } else if constexpr (std::is_same_v<T, double>) {
    for (double v : {-1e6, -1., -0.5, 0., 1e-9, 0.5, 1., 1.5, 3., 1e6}) s += key.validate(v) ? "1" : "0";
  }
  return s;
}
static int keys(char **a) {
  vh::Log log(a[2]);
  for (const auto &k : InputKeys::list)
    std::visit([&](auto &&ref) {
      const auto &key = ref.get();
      using T = typename std::decay_t<decltype(key)>::type;
      std::string def, kind;
      try {
        def = deftext(key.default_value());
        kind = "value";
      } catch (const std::bad_optional_access &) {
        kind = key.has_dependent_default() ? "dependent" : "required";
      }
      bool map = std::is_same_v<T, std::map<PdgCode, int>> || std::is_same_v<T, std::map<std::string, std::string>>;
      log(Rec()("op", "key")("labels", J(key.labels()))("kind", kind)("def", def)("state", !key.is_allowed() ? "removed" : key.is_deprecated() ? "deprecated" : "valid")(
          "map", map)("probe", probe(key)));
    }, k);
  return 0;
}
// Reads the standard output written by f
template <class F>
static std::string captured(const std::string &file, F f) {
  std::fflush(stdout);
  std::cout.flush();
  std::fflush(stderr);
  std::cerr.flush();
  const int o = dup(1), e = dup(2);
  FILE *t = std::fopen(file.c_str(), "w");
  dup2(fileno(t), 1);
  dup2(fileno(t), 2);
  f();
  std::fflush(stdout);
  std::cout.flush();
  std::cerr.flush();
  std::fflush(stderr);
  dup2(o, 1);
  dup2(e, 2);
  close(o);
  close(e);
  std::fclose(t);
  std::ifstream in(file);
  return {std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
}
static int validate(char **a) {
  vh::Rng r(std::atoll(a[2]));
  R = &r;
  const int n = std::atoi(a[3]);
  vh::Log log(a[4]);
  const std::filesystem::path dir = a[5];
  std::filesystem::create_directories(dir);
  set_default_loglevel(einhard::ALL);
  create_all_loggers(Configuration("", S));
  std::vector<KeyLabels> all, odd;
  std::set<KeyLabels> maps;
  for (const auto &k : InputKeys::list)
    std::visit([&](auto &&ref) {
      using T = typename std::decay_t<decltype(ref.get())>::type;
      all.push_back(ref.get().labels());
      if (!ref.get().is_allowed() || ref.get().is_deprecated()) odd.push_back(ref.get().labels());
      if (std::is_same_v<T, std::map<PdgCode, int>> || std::is_same_v<T, std::map<std::string, std::string>>) maps.insert(ref.get().labels());
    }, k);
  for (int t = 0; t < n; t++) {
    YAML::Node root(YAML::NodeType::Map);
    auto put = [&](const KeyLabels &l, const std::string &v) {
      YAML::Node x(root);
      for (size_t k = 0; k < l.size(); k++) {
        if (x.IsScalar() || x.IsSequence()) return;
        x.reset(x[l[k]]);
      }
      if (x.IsMap()) return;
      x = v;
    };
    const int m = static_cast<int>(r.in(0, 6));
    for (int k = 0; k < m; k++) {
      KeyLabels l = r.pick(all);
      switch (r.in(0, 13)) {
        case 0: l.push_back("Unknown"); break;                         // below a key
        case 1: l.back() += "_"; break;
        case 2: if (l.size() > 1) l.pop_back(); break;                 // a section given as a key
        case 3: l.insert(l.begin(), "Section"); break;
        case 4: if (!odd.empty()) l = r.pick(odd); break;
        case 5: if (!odd.empty()) l = r.pick(odd); break;
        case 6: if (!maps.empty()) { auto i = maps.begin(); std::advance(i, r.in(0, maps.size() - 1)); l = *i; } break;
        case 7: if (!l.back().empty()) l.back()[0] = static_cast<char>(std::tolower(l.back()[0])); break;
        case 8: if (l.size() > 1) std::swap(l[0], l[1]); break;
        default: break;
      }
      if (maps.count(l) && r.chance(0.8)) l.push_back(r.pick<std::string>({"2212", "Any", "111"}));
      put(l, r.pick<std::string>({"1", "x", "[1, 2]"}));
    }
    std::vector<std::string> p;
    std::vector<J> in;
    walk(root, p, in);
    std::string s = "[";
    for (size_t q = 0; q < in.size(); q++) s += (q ? "," : "") + in[q].t;
    YAML::Emitter em;
    em << root;
    Configuration c(em.c_str(), S);
    const bool full = r.chance(0.7);
    Configuration::Is is{};
    const std::string text = captured((dir / "v.log").string(), [&] { is = c.validate(full); });
    std::vector<std::string> named;
    for (size_t pos = 0; (pos = text.find("Key \"", pos)) != std::string::npos;) {
      const size_t e = text.find('"', pos + 5), eol = text.find('\n', pos);
      const std::string line = text.substr(pos, eol - pos);
      if (line.find("is valid!") == std::string::npos) named.push_back(text.substr(pos + 5, e - pos - 5));
      pos = e;
    }
    log(Rec()("op", "validate")("reset", true)("given", J::raw(s + "]"))("full", full)("named", J(named))(
        "is", is == Configuration::Is::Valid ? "Valid" : is == Configuration::Is::Deprecated ? "Deprecated" : "Invalid")("tree", tree(c)));
    c.clear();
  }
  return 0;
}

// every value of every enumeration: text -> value -> name of the enumerator, and back by set_value
template <class T>
static void enumeration(vh::Log &log, const char *type, const std::vector<std::pair<T, const char *>> &names, std::vector<std::string> texts) {
  texts.insert(texts.end(), {"", "nonsense", "on ", "NONE", "[on]", "1"});
  const Key<T> key({"K"}, {"1.0"});
  for (auto &t : texts) {
    std::string name = "?", back = "?";
    const std::string res = what([&] {
      Configuration c(("{K: " + (t.empty() || t[0] != '[' ? "\"" + t + "\"" : t) + "}").c_str(), S);
      const T v = c.take(key);
      for (auto &n : names) if (n.first == v) name = n.second;
      Configuration d("", S);
      d.set_value(key, v);
      back = what([&] { const T w = d.take(key); if (!(w == v)) throw std::runtime_error("differs"); });
      d.clear();
    });
    log(Rec()("op", "enum")("reset", true)("type", type)("text", t)("res", res)("name", name)("back", back));
  }
}
template <class T>
static void bitset(vh::Log &log, const char *type, const std::vector<std::pair<unsigned, const char *>> &names) {
  const Key<T> key({"K"}, {"1.0"});
  for (int k = 0; k < 40; k++) {
    std::vector<std::string> in;
    for (auto &n : names) if (R->chance(0.3)) in.push_back(n.second);
    if (R->chance(0.1)) in.insert(in.begin() + R->in(0, in.size()), "All");
    if (R->chance(0.1)) in.insert(in.begin() + R->in(0, in.size()), "Wrong");
    std::vector<std::string> out;
    std::string back = "?";
    std::string text;
    for (auto &s : in) text += (text.empty() ? "" : ", ") + s;
    const std::string res = what([&] {
      Configuration c(("{K: [" + text + "]}").c_str(), S);
      const T v = c.take(key);
      for (auto &n : names) if (v[n.first]) out.push_back(n.second);
      Configuration d("", S);
      d.set_value(key, v);
      back = what([&] { const T w = d.take(key); if (!(w == v)) throw std::runtime_error("differs"); });
      d.clear();
    });
    std::vector<std::string> all;
    for (auto &n : names) all.push_back(n.second);
    log(Rec()("op", "bits")("reset", true)("type", type)("in", J(in))("out", J(out))("res", res)("back", back)("all", J(all)));
  }
}
static int enums(char **a) {
  vh::Rng r(std::atoll(a[3]));
  R = &r;
  vh::Log log(a[2]);
#define E(T, x) {T::x, #x}
  enumeration<CalculationFrame>(log, "CalculationFrame", {E(CalculationFrame, CenterOfVelocity), E(CalculationFrame, CenterOfMass), E(CalculationFrame, FixedTarget)}, {"center of velocity", "center of mass", "fixed target"});
  enumeration<FermiMotion>(log, "FermiMotion", {E(FermiMotion, Off), E(FermiMotion, On), E(FermiMotion, Frozen)}, {"off", "on", "frozen", "On"});
  enumeration<DensityType>(log, "DensityType", {E(DensityType, Hadron), E(DensityType, Baryon), E(DensityType, BaryonicIsospin), E(DensityType, Pion), E(DensityType, Isospin3_tot), E(DensityType, None)}, {"hadron", "baryon", "baryonic isospin", "pion", "total isospin", "none"});
  enumeration<ExpansionMode>(log, "ExpansionMode", {E(ExpansionMode, NoExpansion), E(ExpansionMode, MasslessFRW), E(ExpansionMode, MassiveFRW), E(ExpansionMode, Exponential)}, {"NoExpansion", "MasslessFRW", "MassiveFRW", "Exponential"});
  enumeration<DerivativesMode>(log, "DerivativesMode", {E(DerivativesMode, CovariantGaussian), E(DerivativesMode, FiniteDifference), E(DerivativesMode, Off)}, {"Covariant Gaussian", "Finite difference", "Off"});
  enumeration<FieldDerivativesMode>(log, "FieldDerivativesMode", {E(FieldDerivativesMode, ChainRule), E(FieldDerivativesMode, Direct)}, {"Chain Rule", "Direct"});
  enumeration<SmearingMode>(log, "SmearingMode", {E(SmearingMode, CovariantGaussian), E(SmearingMode, Discrete), E(SmearingMode, Triangular)}, {"Covariant Gaussian", "Discrete", "Triangular"});
  enumeration<TimeStepMode>(log, "TimeStepMode", {E(TimeStepMode, None), E(TimeStepMode, Fixed)}, {"None", "Fixed"});
  enumeration<BoxInitialCondition>(log, "BoxInitialCondition", {E(BoxInitialCondition, ThermalMomentaBoltzmann), E(BoxInitialCondition, ThermalMomentaQuantum), E(BoxInitialCondition, PeakedMomenta)}, {"thermal momenta", "thermal momenta quantum", "peaked momenta"});
  enumeration<SphereInitialCondition>(log, "SphereInitialCondition", {E(SphereInitialCondition, ThermalMomentaBoltzmann), E(SphereInitialCondition, ThermalMomentaQuantum), E(SphereInitialCondition, IC_ES), E(SphereInitialCondition, IC_1M), E(SphereInitialCondition, IC_2M), E(SphereInitialCondition, IC_Massive)}, {"thermal momenta", "thermal momenta quantum", "IC_ES", "IC_1M", "IC_2M", "IC_Massive"});
  enumeration<NNbarTreatment>(log, "NNbarTreatment", {E(NNbarTreatment, NoAnnihilation), E(NNbarTreatment, Resonances), E(NNbarTreatment, TwoToFive), E(NNbarTreatment, Strings)}, {"no annihilation", "resonances", "two to five", "strings"});
  enumeration<Sampling>(log, "Sampling", {E(Sampling, Quadratic), E(Sampling, Custom), E(Sampling, Uniform)}, {"quadratic", "custom", "uniform"});
  enumeration<ThermalizationAlgorithm>(log, "ThermalizationAlgorithm", {E(ThermalizationAlgorithm, ModeSampling), E(ThermalizationAlgorithm, BiasedBF), E(ThermalizationAlgorithm, UnbiasedBF)}, {"mode sampling", "biased BF", "unbiased BF"});
  enumeration<CollisionCriterion>(log, "CollisionCriterion", {E(CollisionCriterion, Geometric), E(CollisionCriterion, Stochastic), E(CollisionCriterion, Covariant)}, {"Geometric", "Stochastic", "Covariant"});
  enumeration<SpinInteractionType>(log, "SpinInteractionType", {E(SpinInteractionType, On), E(SpinInteractionType, Off)}, {"On", "Off"});
  enumeration<TotalCrossSectionStrategy>(log, "TotalCrossSectionStrategy", {E(TotalCrossSectionStrategy, BottomUp), E(TotalCrossSectionStrategy, TopDown), E(TotalCrossSectionStrategy, TopDownMeasured)}, {"BottomUp", "TopDown", "TopDownMeasured"});
  enumeration<PseudoResonance>(log, "PseudoResonance", {E(PseudoResonance, None), E(PseudoResonance, Largest), E(PseudoResonance, Closest), E(PseudoResonance, LargestFromUnstable), E(PseudoResonance, ClosestFromUnstable)}, {"None", "Largest", "Closest", "LargestFromUnstable", "ClosestFromUnstable"});
  enumeration<FluidizationType>(log, "FluidizationType", {E(FluidizationType, ConstantTau), E(FluidizationType, Dynamic)}, {"Constant_Tau", "Dynamic"});
  enumeration<OutputOnlyFinal>(log, "OutputOnlyFinal", {E(OutputOnlyFinal, Yes), E(OutputOnlyFinal, No), E(OutputOnlyFinal, IfNotEmpty)}, {"Yes", "No", "IfNotEmpty"});
  bitset<ReactionsBitSet>(log, "Reactions", {{IncludedReactions::Elastic, "Elastic"}, {IncludedReactions::NN_to_NR, "NN_to_NR"}, {IncludedReactions::NN_to_DR, "NN_to_DR"}, {IncludedReactions::KN_to_KN, "KN_to_KN"}, {IncludedReactions::KN_to_KDelta, "KN_to_KDelta"}, {IncludedReactions::Strangeness_exchange, "Strangeness_exchange"}, {IncludedReactions::NNbar, "NNbar"}, {IncludedReactions::PiDeuteron_to_NN, "PiDeuteron_to_NN"}, {IncludedReactions::PiDeuteron_to_pidprime, "PiDeuteron_to_pidprime"}, {IncludedReactions::NDeuteron_to_Ndprime, "NDeuteron_to_Ndprime"}});
  bitset<MultiParticleReactionsBitSet>(log, "MultiParticle", {{IncludedMultiParticleReactions::Meson_3to1, "Meson_3to1"}, {IncludedMultiParticleReactions::Deuteron_3to2, "Deuteron_3to2"}, {IncludedMultiParticleReactions::NNbar_5to2, "NNbar_5to2"}, {IncludedMultiParticleReactions::A3_Nuclei_4to2, "A3_Nuclei_4to2"}});
  bitset<FluidizableProcessesBitSet>(log, "Fluidizable", {{IncludedFluidizableProcesses::From_Elastic, "Elastic"}, {IncludedFluidizableProcesses::From_Decay, "Decay"}, {IncludedFluidizableProcesses::From_Inelastic, "Inelastic"}, {IncludedFluidizableProcesses::From_SoftString, "SoftString"}, {IncludedFluidizableProcesses::From_HardString, "HardString"}});
  return 0;
}
int main(int, char **a) {
  const std::string m = a[1];
  set_default_loglevel(einhard::OFF);
  if (m != "validate") create_all_loggers(Configuration("", S));
  return m == "ops" ? ops(a) : m == "keys" ? keys(a) : m == "enums" ? enums(a) : validate(a);
}
