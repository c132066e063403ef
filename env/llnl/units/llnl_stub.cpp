// Stand-in for LLNL/units: string conversion.
#include "units.hpp"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <utility>
#include <vector>

namespace llnl::units {
namespace {
using detail::unit_data;
struct Named {
  std::string name;
  precise_unit unit;
  bool prefixable;
};

const std::vector<Named> &named() {
  using namespace precise;
  static const std::vector<Named> v{
      {"m", m, true},
      {"s", s, true},
      {"kg", kg, false},
      {"g", precise_unit(1e-3, kg), true},
      {"A", A, true},
      {"K", K, true},
      {"mol", mol, true},
      {"cd", cd, true},
      {"$", currency, false},
      {"item", count, false},
      {"rad", rad, false},
      {"N", N, true},
      {"J", J, true},
      {"W", J / s, true},
      {"C", A * s, true},
      {"V", J / (A * s), true},
      {"Pa", N / (m * m), true},
      {"T", kg / (A * s * s), true},
      {"Hz", one / s, true},
      {"Sv", precise_unit((m * m / (s * s)), 1.0), true},
      {"eV", energy::eV, true},
      {"deg", deg, false},
      {"min", min, false},
      {"hr", hr, false},
      {"day", day, false},
      {"a_g", precise::time::ag, false},
      {"mog", precise::time::mog, false},
      {"\u00B0C", degC, false},
      {"\u212B", distance::angstrom, false},
      {"L", precise_unit(1e-3, m * m * m), true},
      {"Ah", A * hr, true},
      {"bar", precise_unit(1e5, N / (m * m)), true},
  };
  return v;
}
const std::vector<Named> &aliases() {
  using namespace precise;
  static const std::vector<Named> v{
      {"meter", m, false},
      {"metre", m, false},
      {"second", s, false},
      {"sec", s, false},
      {"count", count, false},
      {"counts", count, false},
      {"items", count, false},
      {"h", hr, false},
      {"hour", hr, false},
      {"D", day, false},
      {"d", day, false},
      {"Y", precise::time::ag, false},
      {"radian", rad, false},
      {"degree", deg, false},
      {"degC", degC, false},
      {"angstrom", distance::angstrom, false},
      {"Angstrom", distance::angstrom, false},
      {"\u00C5", distance::angstrom, false},
      {"one", one, false},
      {"percent", precise_unit(0.01, one), false},
      {"%", precise_unit(0.01, one), false},
      {"inch", precise_unit(0.0254, m), false},
      {"ft", precise_unit(0.3048, m), false},
      {"decibels", precise_unit(unit_data::custom(3, 17)), false},
      {"arb. unit", precise_unit(unit_data::custom(2, 1)), false},
      {"a.u.", precise_unit(unit_data::custom(2, 1)), false},
      {"arbitraryunit", precise_unit(unit_data::custom(2, 1)), false},
  };
  return v;
}
const std::vector<std::pair<std::string, double>> &prefixes() {
  static const std::vector<std::pair<std::string, double>> v{
      {"", 1.0},    {"m", 1e-3},  {"u", 1e-6},  {"\u00B5", 1e-6},
      {"n", 1e-9},  {"p", 1e-12}, {"f", 1e-15}, {"a", 1e-18},
      {"k", 1e3},   {"M", 1e6},   {"G", 1e9},   {"T", 1e12},
      {"c", 1e-2},  {"d", 1e-1},  {"h", 1e2}};
  return v;
}
std::map<std::string, precise_unit> &user() {
  static std::map<std::string, precise_unit> v;
  return v;
}

bool lookup(const std::string &s, precise_unit &out) {
  if (auto it = user().find(s); it != user().end()) {
    out = it->second;
    return true;
  }
  for (const auto *table : {&named(), &aliases()})
    for (const auto &n : *table)
      if (n.name == s) {
        out = n.unit;
        return true;
      }
  for (const auto &[p, f] : prefixes()) {
    if (p.empty() || s.compare(0, p.size(), p) != 0)
      continue;
    const auto rest = s.substr(p.size());
    for (const auto &n : named())
      if (n.prefixable && n.name == rest) {
        out = precise_unit(f, n.unit);
        return true;
      }
  }
  int num = 0;
  int len = 0;
  if (std::sscanf(s.c_str(), "EQXUN[%d]%n", &num, &len) == 1 &&
      len == static_cast<int>(s.size())) {
    out = precise_unit(unit_data::custom(3, num));
    return true;
  }
  if (std::sscanf(s.c_str(), "CXUN[%d]%n", &num, &len) == 1 && len) {
    out = precise_unit(unit_data::custom(1, num));
    return true;
  }
  if (std::sscanf(s.c_str(), "CXCUN[%d]%n", &num, &len) == 1 && len) {
    out = precise_unit(unit_data::custom(2, num));
    return true;
  }
  if (s.size() > 2 && s.front() == '{' && s.back() == '}') {
    out = precise_unit(unit_data{}, 105u, 1.0);
    return true;
  }
  return false;
}

struct Parser {
  const std::string &s;
  size_t i = 0;
  void ws() {
    while (i < s.size() && s[i] == ' ')
      ++i;
  }
  precise_unit atom() {
    ws();
    if (i >= s.size())
      throw std::runtime_error("eof");
    if (s[i] == '(') {
      ++i;
      auto u = expr();
      ws();
      if (i >= s.size() || s[i] != ')')
        throw std::runtime_error(")");
      ++i;
      return u;
    }
    if (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.') {
      char *end = nullptr;
      const double v = std::strtod(s.c_str() + i, &end);
      i = static_cast<size_t>(end - s.c_str());
      precise_unit u(v, precise::one);
      ws();
      // implicit multiplication "10m"
      if (i < s.size() && s[i] != '*' && s[i] != '/' && s[i] != ')' &&
          s[i] != '^')
        return u * power();
      return u;
    }
    size_t j = i;
    while (j < s.size() && s[j] != '*' && s[j] != '/' && s[j] != '^' &&
           s[j] != '(' && s[j] != ')' && s[j] != ' ')
      ++j;
    precise_unit u;
    auto name = s.substr(i, j - i);
    if (!lookup(name, u)) {
      // names such as m2, s-1
      size_t k = name.size();
      while (k > 0 && std::isdigit(static_cast<unsigned char>(name[k - 1])))
        --k;
      size_t sgn = k;
      if (k > 0 && name[k - 1] == '-')
        --k;
      if (sgn == name.size() || k == 0 || !lookup(name.substr(0, k), u))
        throw std::runtime_error("name");
      u = u.pow(std::atoi(name.c_str() + k));
    }
    i = j;
    return u;
  }
  precise_unit power() {
    auto u = atom();
    ws();
    bool p = false;
    if (i < s.size() && s[i] == '^') {
      ++i;
      p = true;
    } else if (i + 1 < s.size() && s[i] == '*' && s[i + 1] == '*') {
      i += 2;
      p = true;
    }
    if (p) {
      ws();
      const bool paren = i < s.size() && s[i] == '(';
      if (paren)
        ++i;
      char *end = nullptr;
      const auto n = std::strtol(s.c_str() + i, &end, 10);
      if (end == s.c_str() + i)
        throw std::runtime_error("exponent");
      i = static_cast<size_t>(end - s.c_str());
      if (paren)
        ++i;
      u = u.pow(static_cast<int>(n));
    }
    return u;
  }
  precise_unit expr() {
    auto u = power();
    for (;;) {
      ws();
      if (i < s.size() && s[i] == '*') {
        ++i;
        u = u * power();
      } else if (i < s.size() && s[i] == '/') {
        ++i;
        u = u / power();
      } else
        return u;
    }
  }
};

bool name_of(const precise_unit &u, std::string &out) {
  for (const auto &[k, v] : user())
    if (v == u) {
      out = k;
      return true;
    }
  if (u.base_units().is_one())
    return false;
  for (const auto &n : named())
    if (n.unit == u && n.name != "Hz" && n.name != "Sv") {
      out = n.name;
      return true;
    }
  for (const auto &n : named()) {
    if (!n.prefixable || n.name == "Hz" || n.name == "Sv" || n.name == "bar" ||
        n.name == "L")
      continue;
    for (const auto &[p, f] : prefixes())
      if (!p.empty() && p != "c" && p != "d" && p != "h" && p != "\u00B5" &&
          precise_unit(f, n.unit) == u) {
        out = p + n.name;
        return true;
      }
  }
  return false;
}
std::string num(double v) {
  char buf[64];
  std::snprintf(buf, sizeof(buf), "%.17g", v);
  for (int p = 1; p < 17; ++p) {
    char b2[64];
    std::snprintf(b2, sizeof(b2), "%.*g", p, v);
    if (std::strtod(b2, nullptr) == v)
      return b2;
  }
  return buf;
}
} // namespace

precise_unit unit_from_string(std::string str, std::uint64_t) {
  if (str.empty())
    return precise::one;
  precise_unit u;
  if (lookup(str, u))
    return u;
  try {
    Parser p{str};
    u = p.expr();
    p.ws();
    if (p.i != str.size())
      return precise::error;
    return u;
  } catch (const std::runtime_error &) {
    return precise::error;
  }
}

std::string to_string(const precise_unit &u) {
  std::string out;
  const auto b = u.base_units();
  const auto mult = u.multiplier() == 1.0 ? std::string{} : num(u.multiplier());
  switch (b.kind) {
  case 1:
    return mult + "CXUN[" + std::to_string(b.number) + "]";
  case 2:
    return mult + (b.number == 1 ? "arb. unit"
                                 : "CXCUN[" + std::to_string(b.number) + "]");
  case 3:
    return mult + "EQXUN[" + std::to_string(b.number) + "]";
  case 4:
    return "ERROR";
  default:
    break;
  }
  if (name_of(u, out))
    return out;
  if (b.is_one())
    return mult;
  // powers of one named unit
  for (int p = 2; p <= 4; ++p) {
    const auto r = root(u, p);
    if (!is_error(r) && name_of(r, out))
      return out + "^" + std::to_string(p);
  }
  if (name_of(precise::one / u, out))
    return "1/" + out;
  for (const auto &n : named())
    for (const auto &[p, f] : prefixes()) {
      if ((!p.empty() && !n.prefixable) || p == "\u00B5" || n.name == "Hz")
        continue;
      const precise_unit d(f, n.unit);
      if (name_of(u * d, out))
        return out + "/" + p + n.name;
    }
  // generic
  std::string numer, denom;
  static const char *names[10]{"m", "s",   "kg",  "A", "cd",
                               "K", "mol", "rad", "$", "item"};
  for (int i = 0; i < 10; ++i) {
    const int e = b.e[i];
    if (e == 0)
      continue;
    auto &t = e > 0 ? numer : denom;
    if (!t.empty())
      t += "*";
    t += names[i];
    if (std::abs(e) != 1)
      t += "^" + std::to_string(std::abs(e));
  }
  if (b.has_e_flag())
    numer += (numer.empty() ? "" : "*") + std::string("eflag");
  out = mult;
  if (!numer.empty())
    out += (out.empty() ? "" : "*") + numer;
  if (!denom.empty())
    out += (out.empty() ? "1/" : "/") +
           (denom.find('*') != std::string::npos ? "(" + denom + ")" : denom);
  return out;
}

void addUserDefinedUnit(const std::string &name, const precise_unit &u) {
  user()[name] = u;
}
void clearUserDefinedUnits() { user().clear(); }
} // namespace llnl::units
