// T01: text shows the content of objects. Datetimes of every day and unit
// against calendar arithmetic; text of all small variables, data arrays and
// datasets against a plain rendering of their content, in every memory layout.
#include "../common/ds.h"
#include "scipp/core/except.h"
#include "scipp/core/string.h"
#include "scipp/dataset/string.h"
#include "scipp/variable/string.h"
#include <array>
#include <iomanip>
#include <optional>

using namespace ds;
using scipp::units::Unit;
namespace {
using E_ = vh::Explorer;

// --- datetimes ----------------------------------------------------------------
struct Civil {
  ix y;
  int m, d;
};
/// Proleptic Gregorian calendar, counting days from 1970-01-01.
Civil civil(ix z) {
  z += 719468;
  const ix era = (z >= 0 ? z : z - 146096) / 146097;
  const ix doe = z - era * 146097;
  const ix yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  const ix doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  const ix mp = (5 * doy + 2) / 153;
  const int d = doy - (153 * mp + 2) / 5 + 1;
  const int m = mp < 10 ? mp + 3 : mp - 9;
  return {yoe + era * 400 + (m <= 2), m, d};
}
ix day_of(ix y, int m, int d) {
  y -= m <= 2;
  const ix era = (y >= 0 ? y : y - 399) / 400;
  const ix yoe = y - era * 400;
  const ix doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
}
struct TimeUnit {
  std::string name;
  ix per_day;
  ix per_second; ///< 0 for longer than a second
  int digits;
};
const std::vector<TimeUnit> time_units{{"ns", 86400000000000, 1000000000, 9}, {"us", 86400000000, 1000000, 6}, {"ms", 86400000, 1000, 3}, {"s", 86400, 1, 0}, {"min", 1440, 0, 0}, {"h", 24, 0, 0}};
void two(std::string &s, ix n) {
  s += char('0' + n / 10);
  s += char('0' + n % 10);
}
std::string iso(ix t, const TimeUnit &u) {
  ix day = t / u.per_day, in_day = t % u.per_day;
  if (in_day < 0) {
    in_day += u.per_day;
    --day;
  }
  const auto c = civil(day);
  std::string s = std::to_string(c.y);
  s += '-';
  two(s, c.m);
  s += '-';
  two(s, c.d);
  s += 'T';
  const ix seconds = u.per_second ? in_day / u.per_second : in_day * (86400 / u.per_day);
  two(s, seconds / 3600);
  s += ':';
  two(s, seconds / 60 % 60);
  s += ':';
  two(s, seconds % 60);
  if (u.digits) {
    const auto f = std::to_string(in_day % u.per_second);
    s += '.' + std::string(u.digits - f.size(), '0') + f;
  }
  return s;
}
void datetimes(E_ &E) {
  for (const auto &u : time_units) {
    const Unit unit(u.name);
    // all days of the years that the unit can express, within 1000 to 9999
    const ix limit = std::numeric_limits<ix>::max() / u.per_day - 1;
    for (int century = 10; century < 100; ++century) {
      const ix first = std::max(-limit, day_of(century * 100, 1, 1)), last = std::min(limit, day_of(century * 100 + 100, 1, 1));
      if (first >= last)
        continue;
      E.run([&] { return "datetimes in " + u.name + " from the year " + std::to_string(century * 100); }, [&] {
        E.nontrivial();
        std::vector<ix> times{0, 1, u.per_day / 2 - 1, u.per_day / 24 * 7 + u.per_day / 1440 * (u.per_day >= 1440 ? 3 : 0), u.per_day - 1};
        if (!E.thorough && u.name != "s" && u.name != "ns")
          times = {0, u.per_day - 1};
        for (ix day = first; day < last; ++day)
          for (const auto in_day : times) {
            const ix t = day * u.per_day + in_day;
            std::string got;
            const auto err = raised([&] { got = core::to_iso_date(core::time_point{t}, unit); });
            ++E.transitions;
            E.check_lazy(err.empty() && got == iso(t, u), "date", [&] { return std::to_string(t) + " " + u.name + " is " + iso(t, u) + ", not " + got + err; });
          }
      });
    }
    E.run("sub-daily times in " + u.name, [&] {
      E.nontrivial();
      // every unit of time around the epoch, a leap day, and the ends of time
      for (const ix day : {ix(0), day_of(2000, 2, 29), day_of(1900, 2, 28), day_of(1969, 12, 31), day_of(2038, 1, 19), day_of(1901, 12, 13)}) {
        for (ix k = -3000; k <= 3000; ++k)
          for (const ix step : {ix(1), std::max<ix>(1, u.per_day / 86400), std::max<ix>(1, u.per_day / 1440), u.per_day / 24}) {
            const ix t = day * u.per_day + k * step;
            std::string got;
            const auto err = raised([&] { got = core::to_iso_date(core::time_point{t}, unit); });
            ++E.transitions;
            E.check_lazy(err.empty() && got == iso(t, u), "date", [&] { return std::to_string(t) + " " + u.name + " is " + iso(t, u) + ", not " + got + err; });
          }
      }
      // any value has a text or is rejected
      for (const ix end : {std::numeric_limits<ix>::min(), std::numeric_limits<ix>::max()})
        for (ix k = 0; k < 64; ++k)
          for (const ix by : {k, end < 0 ? (ix(1) << (k < 63 ? k : 62)) : (ix(1) << (k < 63 ? k : 62))}) {
            const ix t = end < 0 ? end + by : end - by;
            std::string got;
            const auto err = raised([&] { got = core::to_iso_date(core::time_point{t}, unit); });
            ++E.transitions;
            E.check_lazy(!err.empty() || !got.empty(), "no-text", [&] { return std::to_string(t) + " " + u.name + " has no text"; });
            const ix seconds = u.per_second ? t / u.per_second : 0;
            const bool exact = u.per_second && seconds > day_of(1000, 1, 1) * 86400 && seconds < day_of(10000, 1, 1) * 86400 - 1;
            if (exact)
              E.check_lazy(got == iso(t, u), "date", [&] { return std::to_string(t) + " " + u.name + " is " + iso(t, u) + ", not " + got + err; });
          }
    });
  }
  E.run("datetimes of other units", [&] {
    E.nontrivial();
    for (const auto &u : {"m", "K", "counts", "one", "rad", "Hz", "s**2", "m/s", "D", "month", "Y"})
      for (const ix t : {-1, 0, 1, 1000}) {
        ++E.transitions;
        E.check_lazy(!raised([&] { static_cast<void>(core::to_iso_date(core::time_point{t}, Unit(u))); }).empty(), "raise", [&] { return std::string("a date in ") + u + " has a text"; });
      }
  });
}

// --- variables -----------------------------------------------------------------
/// Without regard to the number of spaces.
std::string normal(const std::string &s) {
  std::string r;
  for (const auto c : s)
    if (c != ' ' || (!r.empty() && r.back() != ' ' && r.back() != '\n'))
      r += c;
  std::string q;
  for (size_t i = 0; i < r.size(); ++i)
    if (r[i] != ' ' || (i + 1 < r.size() && r[i + 1] != '\n'))
      q += r[i];
  while (!q.empty() && (q.back() == '\n' || q.back() == ' '))
    q.pop_back();
  return q;
}
std::string number(LD x, DType t) {
  std::ostringstream s;
  if (t == L || t == I)
    s << ix(x);
  else if (t == F)
    s << float(x);
  else
    s << double(x);
  return s.str();
}
std::string element(const Cell &c, const Arr &a) {
  if (a.t == B)
    return c.x != 0 ? "True" : "False";
  if (a.t == S)
    return '"' + c.s + '"';
  if (a.t == T)
    for (const auto &u : time_units)
      if (Unit(u.name) == a.u)
        return iso(c.x, u);
  if (a.t == V)
    return "(" + number(c.x, D) + ", " + number(c.y, D) + ", " + number(c.z, D) + ")";
  return number(c.x, a.t);
}
template <class G> std::string listing(const Arr &a, G &&g) {
  if (a.dims.empty())
    return g(a.v[0]);
  std::string s = "[";
  const ix n = a.volume();
  for (ix i = 0; i < n; ++i) {
    if (n > 4 && i == 2) {
      s += ", ...";
      i = n - 2;
    }
    s += (i ? ", " : "") + g(a.v[i]);
  }
  return s + "]";
}
std::string text(const Arr &a, const Arr *owner) {
  std::string s;
  const auto dims = [&](bool sizes) {
    std::string r;
    for (size_t i = 0; i < a.dims.size(); ++i) {
      r += (i ? ", " : "") + scipp::units::to_string(a.dims[i]);
      if (sizes)
        r += ": " + std::to_string(a.shape[i]);
      else if (a.shape[i] == (owner->axis(a.dims[i]) >= 0 ? owner->shape[owner->axis(a.dims[i])] : 1) + 1)
        r += " [bin-edge]";
    }
    return "(" + r + ")";
  };
  if (!owner)
    s += dims(true) + " ";
  s += to_string(a.t) + " ";
  s += a.u == units::none ? "<no unit>" : "[" + a.u.name() + "]";
  if (owner)
    s += " " + dims(false);
  s += " " + listing(a, [&](const Cell &c) { return element(c, a); });
  if (a.var)
    s += " " + listing(a, [&](const Cell &c) { return number(c.var, a.t); });
  return s;
}
Arr filled(DType t, Unit u, bool var, std::vector<Dim> dims, std::vector<ix> shape, int values) {
  Arr a = A(t, u, dims, shape, {});
  a.var = var;
  for (ix i = 0; i < a.volume(); ++i) {
    Cell c(0);
    const ix k = i * 7 + values * 3 - 5;
    c.x = t == B ? k & 1 : t == D || t == F ? k * 0.375L : t == T ? k * 1000003 : k;
    if (values == 2 && (t == D || t == F))
      c.x = i % 3 == 0 ? NAN_ : i % 3 == 1 ? -INF : LD(t == F ? float(1e30) : double(1e30));
    c.y = c.x + 1;
    c.z = -c.x;
    if (t == S)
      c.s = std::string(i % 4, 'a' + i % 26) + (values == 1 ? " x" : "");
    c.var = var ? k * k * 0.25L : 0;
    a.v.push_back(c);
  }
  return a;
}
struct Kind {
  DType t;
  bool var;
  Unit u;
};
const std::vector<Kind> &kinds() {
  static const std::vector<Kind> k{{D, false, units::m}, {D, true, units::one}, {F, false, units::none}, {F, true, units::counts}, {L, false, units::s}, {I, false, units::none}, {B, false, units::none}, {S, false, units::none}, {T, false, units::ns}, {T, false, Unit("ms")}, {T, false, units::s}, {V, false, units::m}};
  return k;
}
void variables(E_ &E) {
  std::vector<std::pair<std::vector<Dim>, std::vector<ix>>> shapes{{{}, {}}};
  for (ix n = 0; n <= 6; ++n)
    shapes.push_back({{X}, {n}});
  for (ix n = 0; n <= 3; ++n)
    for (ix k = 0; k <= 3; ++k)
      shapes.push_back({{X, Y}, {n, k}});
  for (ix n = 1; n <= 2; ++n)
    for (ix k = 1; k <= 2; ++k)
      for (ix q = 1; q <= 2; ++q)
        shapes.push_back({{Z, X, Y}, {n, k, q}});
  for (const auto &k : kinds())
    for (const auto &[dims, shape] : shapes)
      E.run([&] { return "variable of " + to_string(k.t) + " with " + std::to_string(dims.size()) + " dimensions"; }, [&] {
        if (!dims.empty())
          E.nontrivial();
        for (int values = 0; values < 3; ++values) {
          const auto a = filled(k.t, k.u, k.var, dims, shape, values);
          const auto want = normal("<scipp.Variable> " + text(a, nullptr));
          for (int l = 0; l <= broadcast_layout; ++l) {
            const auto v = make(a, l);
            std::string got;
            const auto err = raised([&] { got = normal(variable::to_string(v.view)); });
            ++E.transitions;
            E.check_lazy(err.empty() && got == want, "variable", [&] { return "the text of " + arr::str(a) + ", " + layout_name(l) + ", is '" + got + err + "', expected '" + want + "'"; });
            const auto d = arr::difference(read(v.view), a);
            E.check_lazy(d.empty(), "operand", [&] { return "the text of a variable changed it: " + d; });
          }
        }
      });
}

// --- data arrays and datasets ---------------------------------------------------
template <class M> std::vector<std::pair<std::string, typename M::value_type::second_type>> by_name(const M &m) {
  std::vector<std::pair<std::string, typename M::value_type::second_type>> r;
  for (const auto &[k, x] : m) {
    std::ostringstream s;
    s << k;
    r.push_back({s.str(), x});
  }
  std::sort(r.begin(), r.end(), [](const auto &a, const auto &b) { return a.first < b.first; });
  return r;
}
std::string coords_text(const DA &a) {
  std::string s;
  if (!a.coords.empty())
    s += "Coordinates:\n";
  for (const auto &[k, c] : by_name(a.coords))
    s += std::string(c.aligned ? "* " : "") + k + " " + text(c.a, &a.data) + "\n";
  return s;
}
std::string item_text(const std::string &name, const DA &a) {
  std::string s = name + " " + text(a.data, &a.data) + "\n";
  if (!a.masks.empty())
    s += "Masks:\n";
  for (const auto &[k, c] : by_name(a.masks))
    s += k + " " + text(c, &a.data) + "\n";
  if (!a.attrs.empty())
    s += "Attributes:\n";
  for (const auto &[k, c] : by_name(a.attrs))
    s += k + " " + text(c, &a.data) + "\n";
  return s;
}
std::string dims_text(const DA &a) {
  std::string s = "Dimensions: Sizes[";
  for (size_t i = 0; i < a.data.dims.size(); ++i)
    s += scipp::units::to_string(a.data.dims[i]) + ":" + std::to_string(a.data.shape[i]) + ", ";
  return s + "]\n";
}
void arrays(E_ &E) {
  const std::vector<std::pair<std::vector<Dim>, std::vector<ix>>> shapes{{{}, {}}, {{X}, {0}}, {{X}, {1}}, {{X}, {3}}, {{X, Y}, {2, 2}}, {{Y, X}, {1, 4}}};
  for (const auto &[dims, shape] : shapes) {
    // all metadata: dimensions, with edges along one of them
    std::vector<std::pair<std::vector<Dim>, std::vector<ix>>> metas;
    for (int s = 0; s < 1 << dims.size(); ++s)
      for (int e = -1; e < int(dims.size()); ++e) {
        std::pair<std::vector<Dim>, std::vector<ix>> m;
        for (size_t i = 0; i < dims.size(); ++i)
          if (s >> i & 1) {
            m.first.push_back(dims[i]);
            m.second.push_back(shape[i] + (int(i) == e));
          }
        if (e >= 0 && !(s >> e & 1))
          continue;
        metas.push_back(m);
      }
    metas.push_back({{Z}, {2}});
    for (size_t c0 = 0; c0 < metas.size(); ++c0)
      E.run([&] { return "text of data arrays with " + std::to_string(dims.size()) + " dimensions, metadata " + std::to_string(c0); }, [&] {
        E.nontrivial();
        for (size_t c1 = 0; c1 < metas.size(); ++c1)
          for (int al = 0; al < 4; ++al)
            for (int which = 0; which < 8; ++which) // names, and what else there is
              for (const auto &k : {kinds()[0], kinds()[1], kinds()[7], kinds()[9]}) {
                DA a;
                a.data = filled(k.t, k.u, k.var, dims, shape, 0);
                a.name = which & 1 ? "data" : "";
                const auto meta = [&](size_t m, const Kind &mk) { return filled(mk.t, mk.u, mk.var, metas[m].first, metas[m].second, 1); };
                a.coords.push_back({Dim("q"), {meta(c0, kinds()[0]), bool(al & 1)}});
                a.coords.push_back({X, {meta(c1, kinds()[4]), bool(al & 2)}});
                const auto edge = [&](size_t m) {
                  for (size_t i = 0; i < metas[m].first.size(); ++i)
                    if (a.data.axis(metas[m].first[i]) < 0 || a.data.shape[a.data.axis(metas[m].first[i])] != metas[m].second[i])
                      return true;
                  return false;
                };
                if (which & 2) {
                  if (!edge(c0))
                    a.masks.push_back({"mb", meta(c0, kinds()[6])});
                  if (!edge(c1))
                    a.masks.push_back({"ma", meta(c1, kinds()[6])});
                }
                if (which & 4)
                  a.attrs.push_back({Dim("at"), meta(c1, kinds()[7])});
                std::optional<DataArray> da;
                if (!raised([&] { da = make_da(a); }).empty()) {
                  E.tally["not a data array"]++;
                  continue;
                }
                const auto check = [&](const char *what, auto &&f, const std::string &w) {
                  const auto want = normal(w);
                  std::string got;
                  const auto err = raised([&] { got = normal(f()); });
                  ++E.transitions;
                  E.check_lazy(err.empty() && got == want, what, [&] { return std::string("the text of a ") + what + " is\n" + got + err + "\nexpected\n" + want; });
                };
                check("data array", [&] { return sd::to_string(*da); }, "<scipp.DataArray>\n" + dims_text(a) + coords_text(a) + "Data:\n" + item_text(a.name, a));
                // as items of a dataset, which shows the coords once
                bool omitted = false;
                for (const auto &[key, c] : a.coords)
                  for (const auto &x : c.a.dims)
                    omitted |= a.data.axis(x) < 0;
                if (omitted || al != 1)
                  continue;
                Dataset s;
                s.setDataInit("b", *da);
                s.setData("a", DataArray(make_plain(a.data)));
                DA plain;
                plain.data = a.data;
                check("dataset", [&] { return sd::to_string(s); }, "<scipp.Dataset>\n" + dims_text(a) + coords_text(a) + "Data:\n" + item_text("a", plain) + item_text("b", a));
                const auto d = difference(read_da(*da), a);
                E.check_lazy(d.empty(), "operand", [&] { return "the text of a data array changed it: " + d; });
              }
      });
  }
}
} // namespace
VH_EXPLORE(T01) {
  datetimes(E);
  variables(E);
  arrays(E);
}
VH_MAIN
