// The complete state of an object as text.
#pragma once
#include "ds.h"

namespace ds {
inline std::string text(const DataArray &a);
inline std::string text(const Variable &v) {
  if (!v.is_valid())
    return "invalid";
  std::string s = v.is_readonly() ? "ro " : "";
  s += v.is_aligned() ? "" : "unaligned ";
  if (v.dtype() == dtype<core::bin<Variable>>) {
    const auto &[ind, dim, buf] = v.constituents<Variable>();
    return s + "bins(" + text(ind) + "," + to_string(dim) + "," + text(buf) + ")";
  }
  if (v.dtype() == dtype<core::bin<DataArray>>) {
    const auto &[ind, dim, buf] = v.constituents<DataArray>();
    return s + "bins(" + text(ind) + "," + to_string(dim) + "," + text(buf) + ")";
  }
  const auto a = read(v);
  s += to_string(a.t) + "[" + to_string(a.u) + "]{";
  for (size_t i = 0; i < a.dims.size(); ++i)
    s += (i ? "," : "") + to_string(a.dims[i]) + ":" + std::to_string(a.shape[i]);
  s += a.var ? "}+-(" : "}(";
  for (const auto &c : a.v) {
    if (a.t == dtype<std::string>)
      s += c.s;
    else {
      s += num(c.x);
      if (a.t == dtype<Eigen::Vector3d> || a.t == dtype<scipp::index_pair>)
        s += "/" + num(c.y) + "/" + num(c.z);
      if (a.var)
        s += "+-" + num(c.var);
    }
    s += ' ';
  }
  return s + ")";
}
template <class Dict> std::string text_dict(const Dict &d) {
  std::map<std::string, std::string> m;
  for (const auto &[k, v] : d) {
    std::ostringstream o;
    o << k;
    m[o.str()] = text(v);
  }
  std::string s = d.is_readonly() ? "ro{" : "{";
  s += to_string(d.sizes());
  for (const auto &[k, v] : m)
    s += " " + k + "=" + v;
  return s + "}";
}
inline std::string text(const DataArray &a) {
  if (!a.is_valid())
    return "invalid";
  return std::string(a.is_readonly() ? "ro " : "") + a.name() + " data=" + text(a.data()) + " coords=" + text_dict(a.coords()) + " masks=" + text_dict(a.masks()) + " attrs=" + text_dict(a.attrs());
}
inline std::string text(const Dataset &d) {
  std::map<std::string, std::string> m;
  for (const auto &item : d)
    m[item.name()] = text(item);
  std::string s = d.is_readonly() ? "ro " : "";
  s += "coords=" + text_dict(d.coords());
  for (const auto &[k, v] : m)
    s += " [" + k + "]=" + v;
  return s;
}

} // namespace ds
