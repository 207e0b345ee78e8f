// Reference model of datagrams, independent of the implementation.
#pragma once
#include "seq.h"
#include <lamppost/messages/Datagram.h>
#include <lamppost/messages/Message.h>
#include <lamppost/exceptions/Exception.h>
#include <lamppost/exceptions/IndexOutOfBoundsException.h>
#include <lamppost/exceptions/InvalidOperationException.h>
#include <lamppost/exceptions/KeyNotFoundException.h>
#include <lamppost/exceptions/ArgumentNullException.h>
#include <cmath>
#include <memory>

using lp::messages::Datagram;
using lp::messages::Message;
using lp::messages::RawDatagram;
using lp::messages::RawDatagramType;

struct M;
typedef std::shared_ptr<M> MP;
struct M
{
  enum T { E, L, D, S, I, F, B } t = E;
  std::string s; int i = 0; double f = 0; bool b = false;
  std::vector<MP> list;
  std::map<std::string, MP> dict;
};
inline MP mE() { return std::make_shared<M>(); }
inline MP mL(std::vector<MP> v = {}) { MP m = mE(); m->t = M::L; m->list = v; return m; }
inline MP mD(std::map<std::string, MP> v = {}) { MP m = mE(); m->t = M::D; m->dict = v; return m; }
inline MP mS(const std::string& s) { MP m = mE(); m->t = M::S; m->s = s; return m; }
inline MP mI(int i) { MP m = mE(); m->t = M::I; m->i = i; return m; }
inline MP mF(double f) { MP m = mE(); m->t = M::F; m->f = f; return m; }
inline MP mB(bool b) { MP m = mE(); m->t = M::B; m->b = b; return m; }

inline MP mcopy(const MP& a)
{
  MP m = std::make_shared<M>(*a);
  for(auto& x : m->list) x = mcopy(x);
  for(auto& x : m->dict) x.second = mcopy(x.second);
  return m;
}
inline bool meq(const MP& a, const MP& b)
{
  if(a->t != b->t) return false;
  switch(a->t)
  {
    case M::E: return true;
    case M::S: return a->s == b->s;
    case M::I: return a->i == b->i;
    case M::F: return a->f == b->f;
    case M::B: return a->b == b->b;
    case M::L:
      if(a->list.size() != b->list.size()) return false;
      for(size_t i = 0; i < a->list.size(); i++) if(!meq(a->list[i], b->list[i])) return false;
      return true;
    case M::D:
      if(a->dict.size() != b->dict.size()) return false;
      for(auto& kv : a->dict) { auto it = b->dict.find(kv.first); if(it == b->dict.end() || !meq(kv.second, it->second)) return false; }
      return true;
  }
  return false;
}
inline std::string mshow(const MP& m, int depth = 0)
{
  if(depth > 12) return "...";
  std::string r;
  switch(m->t)
  {
    case M::E: return "empty";
    case M::S: return "\"" + seq::show(m->s) + "\"";
    case M::I: return std::to_string(m->i);
    case M::F: { char b[40]; snprintf(b, sizeof b, "%.17gd", m->f); return b; }
    case M::B: return m->b ? "true" : "false";
    case M::L: r = "["; for(auto& x : m->list) r += (r.size() > 1 ? ", " : "") + mshow(x, depth + 1); return r + "]";
    case M::D: r = "{"; for(auto& x : m->dict) r += (r.size() > 1 ? ", " : "") + seq::show(x.first) + ": " + mshow(x.second, depth + 1); return r + "}";
  }
  return r;
}

inline void set(Datagram&& d, const MP& m);
// stores the model value in an existing datagram through the public interface
inline void fill(Datagram& d, const MP& m)
{
  switch(m->t)
  {
    case M::E: d = Datagram(); break;
    case M::S: d = std::string(m->s); break;
    case M::I: d = (int)m->i; break;
    case M::F: d = (double)m->f; break;
    case M::B: d = (bool)m->b; break;
    case M::L: d = Datagram(RawDatagramType::List); for(auto& x : m->list) { d.Add(std::make_shared<RawDatagram>()); set(d[d.GetCount() - 1], x); } break;
    case M::D: d = Datagram(RawDatagramType::Dictionary); for(auto& x : m->dict) set(d[x.first], x.second); break;
  }
}
inline void set(Datagram&& d, const MP& m) { fill(d, m); }
inline Datagram build(const MP& m) { Datagram d; fill(d, m); return d; }

template<class T> bool holds(Datagram& d, T& v, T x, T y)
{
  // the default is returned if and only if d holds no such value
  v = d.template Get<T>("", x);
  return v == d.template Get<T>("", y);
}

// Is the observable content of d exactly m?  Returns what differs, or "".
inline std::string differs(Datagram&& d, const MP& m, const std::string& at = "");
inline std::string differs(Datagram& d, const MP& m, const std::string& at = "")
{
  std::string where = at.empty() ? std::string("the datagram") : "the datagram at " + at;
  RawDatagramType t = d.GetType();
  RawDatagramType want = m->t == M::E ? RawDatagramType::Empty : m->t == M::L ? RawDatagramType::List : m->t == M::D ? RawDatagramType::Dictionary : RawDatagramType::Value;
  if(t != want) return where + " has type " + std::to_string((int)t) + " instead of " + std::to_string((int)want);
  if(d.IsEmpty() != (m->t == M::E)) return where + ": IsEmpty is wrong";
  std::string s; int i; double f; bool b;
  bool hs = holds<std::string>(d, s, "?1", "?2"), hi = holds<int>(d, i, -777001, -777002), hf = holds<double>(d, f, -7.7001e9, -7.7002e9), hb = holds<bool>(d, b, false, true);
  if(hs != (m->t == M::S) || hi != (m->t == M::I) || hf != (m->t == M::F) || hb != (m->t == M::B)) return where + " holds another type of value than " + mshow(m);
  if(hs && s != m->s) return where + " holds \"" + seq::show(s) + "\" instead of " + mshow(m);
  if(hi && i != m->i) return where + " holds " + std::to_string(i) + " instead of " + mshow(m);
  if(hf && f != m->f) return where + " holds " + std::to_string(f) + " instead of " + mshow(m);
  if(hb && b != m->b) return where + " holds the wrong boolean";
  if(hi && d.Get<int>() != i) return where + ": Get<int> is wrong";
  if(hs) { std::string conv = d; if(conv != m->s) return where + " converts to another string"; }
  for(const char* k : {"a", "b", "c", ""}) if(d.KeyExists(k) != (m->t == M::D && m->dict.count(k) > 0)) return where + ": KeyExists(\"" + k + "\") is wrong";
  if(m->t == M::L || m->t == M::D)
  {
    size_t n = m->t == M::L ? m->list.size() : m->dict.size();
    if(d.GetCount() != n) return where + " has " + std::to_string(d.GetCount()) + " entries instead of " + std::to_string(n);
  }
  else if(at.empty())
  {
    bool thrown = false;
    try { d.GetCount(); } catch(lp::exceptions::InvalidOperationException&) { thrown = true; }
    if(!thrown) return where + ": GetCount did not fail";
  }
  if(m->t == M::L)
    for(size_t k = 0; k < m->list.size(); k++) { std::string r = differs(d[(unsigned int)k], m->list[k], at + "[" + std::to_string(k) + "]"); if(!r.empty()) return r; }
  if(m->t == M::D)
    for(auto& kv : m->dict)
    {
      if(!d.KeyExists(kv.first)) return where + " lacks the key \"" + seq::show(kv.first) + "\"";
      std::string r = differs(d[kv.first], kv.second, at + "/" + kv.first);
      if(!r.empty()) return r;
    }
  return "";
}
inline std::string differs(Datagram&& d, const MP& m, const std::string& at) { return differs(d, m, at); }

// picks a tree: leaves from `leaves`, containers with up to `width` entries, keys from `keys`
inline MP choose_tree(int depth, int width, const std::vector<MP>& leaves, const std::vector<std::string>& keys)
{
  int kinds = depth > 0 ? 2 : 0;
  int k = seq::choose((int)leaves.size() + kinds);
  if(k < (int)leaves.size()) return mcopy(leaves[k]);
  if(k == (int)leaves.size())
  {
    MP m = mL();
    int n = seq::choose(width + 1);
    for(int i = 0; i < n; i++) m->list.push_back(choose_tree(depth - 1, width, leaves, keys));
    return m;
  }
  MP m = mD();
  int have = 0;
  for(auto& key : keys)
    if(have < width && seq::choose(2)) { m->dict[key] = choose_tree(depth - 1, width, leaves, keys); have++; }
  return m;
}
