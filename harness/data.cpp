// Datagrams and messages: operation sequences, copies, equality, path lookup, wire format, hostile bytes, JSON, senders.
#include "model.h"
#include <cmath>
#include <set>
#include <lamppost/data/RawBytes.h>
#include <lamppost/utilities/Uuid.h>

using namespace seq;
using namespace lp::exceptions;

namespace
{
  // ------------------------------------------------------------------ operation sequences
  enum Exc { NONE, INVALID, KEY, INDEX, ANY };
  const char* EXN[] = {"nothing", "InvalidOperation", "KeyNotFound", "IndexOutOfBounds", "an exception"};

  template<class F> Exc attempt(F f)
  {
    try { f(); return NONE; }
    catch(InvalidOperationException&) { return INVALID; }
    catch(KeyNotFoundException&) { return KEY; }
    catch(IndexOutOfBoundsException&) { return INDEX; }
    catch(Exception&) { return ANY; }
  }

  // model of d[key] and d[index]
  MP mkey(const MP& m, const std::string& k)
  {
    if(m->t != M::D) { MP e = mD(); *m = *e; }
    MP& x = m->dict[k];
    if(!x) x = mE();
    return x;
  }
  MP mindex(const MP& m, unsigned i) { return m->t == M::L && i < m->list.size() ? m->list[i] : nullptr; }

  struct Op { const char* name; int kind; MP value; };
  enum { SET, SETLIT, SETSELF, SETAUX, ADD, ADDAUX, REMKEY, REMIDX0, REMIDX1, CLEAR, READKEY, READIDX, COUNT, GETINT, GETSTR };
  std::vector<Op> ops_full()
  {
    return {{"= 1", SET, mI(1)}, {"= 2.5", SET, mF(2.5)}, {"= true", SET, mB(true)}, {"= string x", SET, mS("x")}, {"= literal", SETLIT, mS("lit")},
            {"= copy of the root", SETSELF, nullptr}, {"= [7, {a: y}]", SETAUX, nullptr}, {"Add(int)", ADD, mI(7)}, {"Add(list)", ADDAUX, nullptr},
            {"Remove(a)", REMKEY, nullptr}, {"Remove(0)", REMIDX0, nullptr}, {"Remove(1)", REMIDX1, nullptr}, {"Clear", CLEAR, nullptr},
            {"[a]", READKEY, nullptr}, {"[1]", READIDX, nullptr}, {"GetCount", COUNT, nullptr}, {"Get<int>", GETINT, nullptr}, {"Get<string>", GETSTR, nullptr}};
  }
  std::vector<Op> ops_small()
  {
    return {{"= 1", SET, mI(1)}, {"= string x", SET, mS("x")}, {"= copy of the root", SETSELF, nullptr}, {"Add(int)", ADD, mI(7)},
            {"Remove(a)", REMKEY, nullptr}, {"Remove(0)", REMIDX0, nullptr}, {"Clear", CLEAR, nullptr}, {"[1]", READIDX, nullptr}};
  }

  // applies op to d / m; returns what went wrong
  void apply(Datagram&& d, const MP& m, const Op& op, Datagram& root, const MP& mroot, const std::string& trace)
  {
    Exc got = NONE, want = NONE;
    std::string extra;
    switch(op.kind)
    {
      case SET:
        if(op.value->t == M::I) { d = (int)op.value->i; } else if(op.value->t == M::F) { d = (double)op.value->f; } else if(op.value->t == M::B) { d = (bool)op.value->b; } else { d = std::string(op.value->s); }
        *m = *mcopy(op.value); break;
      case SETLIT: d = "lit"; *m = *mS("lit"); break;
      case SETSELF: { MP c = mcopy(mroot); d = root; *m = *c; break; }
      case SETAUX:
      {
        MP c = mL({mI(7), mD({{"a", mS("y")}})});
        Datagram x(RawDatagramType::List);
        x.Add(std::make_shared<RawDatagram>(7)); x.Add(std::make_shared<RawDatagram>()); x[1]["a"] = std::string("y");
        d = x;
        x[0] = 99; x[1]["a"] = 98;     // the source is independent of the copy
        *m = *c; break;
      }
      case ADD: d.Add(std::make_shared<RawDatagram>(7)); if(m->t != M::L) *m = *mL(); m->list.push_back(mI(7)); break;
      case ADDAUX:
      {
        std::shared_ptr<RawDatagram> x = std::make_shared<RawDatagram>(RawDatagramType::List);
        x->Add(std::make_shared<RawDatagram>(true));
        d.Add(x); if(m->t != M::L) *m = *mL(); m->list.push_back(mL({mB(true)})); break;
      }
      case REMKEY:
        want = m->t != M::D ? INVALID : !m->dict.count("a") ? KEY : NONE;
        got = attempt([&] { d.Remove(std::string("a")); });
        if(want == NONE) m->dict.erase("a");
        break;
      case REMIDX0: case REMIDX1:
      {
        unsigned i = op.kind == REMIDX1;
        want = m->t != M::L ? INVALID : i >= m->list.size() ? INDEX : NONE;
        got = attempt([&] { d.Remove(i); });
        if(want == NONE) m->list.erase(m->list.begin() + i);
        break;
      }
      case CLEAR:
        want = m->t != M::L && m->t != M::D ? INVALID : NONE;
        got = attempt([&] { d.Clear(); });
        m->list.clear(); m->dict.clear(); break;
      case READKEY: { MP x = mkey(m, "a"); extra = differs(d["a"], x, "[a]"); break; }
      case READIDX:
      {
        MP x = mindex(m, 1);
        if(!x) { want = ANY; got = attempt([&] { d[1]; }); if(got != NONE) got = ANY; }
        else extra = differs(d[1], x, "[1]");
        break;
      }
      case COUNT: want = m->t != M::L && m->t != M::D ? INVALID : NONE; got = attempt([&] { unsigned n = d.GetCount(); if(n != (m->t == M::L ? m->list.size() : m->dict.size())) extra = "GetCount is wrong"; }); break;
      case GETINT: want = m->t != M::I ? INVALID : NONE; got = attempt([&] { if(d.Get<int>() != m->i) extra = "Get<int> is wrong"; }); break;
      case GETSTR: want = m->t != M::S ? INVALID : NONE; got = attempt([&] { if(d.Get<std::string>() != m->s) extra = "Get<string> is wrong"; }); break;
    }
    SEQ_CHECK(got == want, "operation-result", "%s: failed with %s, expected %s", trace.c_str(), EXN[got], EXN[want]);
    SEQ_CHECK(extra.empty(), "operation-result", "%s: %s", trace.c_str(), extra.c_str());
  }

  void ops_with(const std::vector<Op>& ops, int targets, int n)
  {
    static const char* TN[] = {"d", "d[a]", "d[0]", "d[a][b]", "d[a][0]", "d[0][a]"};
    Datagram d; MP m = mE();
    std::string trace;
    for(int i = 0; i < n; i++)
    {
      int t = choose(targets);
      const Op& op = pick(ops);
      trace += std::string(i ? "; " : "") + TN[t] + " " + op.name;
      step();
      bool bad = false;      // the target does not exist
      MP mt;
      switch(t)
      {
        case 0: mt = m; break;
        case 1: mt = mkey(m, "a"); break;
        case 2: mt = mindex(m, 0); break;
        case 3: mt = mkey(mkey(m, "a"), "b"); break;
        case 4: mt = mindex(mkey(m, "a"), 0); break;
        case 5: mt = mindex(m, 0); if(mt) mt = mkey(mt, "a"); break;
      }
      bad = mt == nullptr;
      // the root as the operand of "= copy of the root" is read after the target expression is evaluated
      bool threw = false;
      try
      {
        switch(t)
        {
          case 0: { std::shared_ptr<M> keep = m; apply(static_cast<Datagram&&>(d), mt, op, d, m, trace); break; }
          case 1: apply(d["a"], mt, op, d, m, trace); break;
          case 2: { Datagram&& x = d[0]; if(!bad) apply(static_cast<Datagram&&>(x), mt, op, d, m, trace); break; }
          case 3: apply(d["a"]["b"], mt, op, d, m, trace); break;
          case 4: { Datagram&& x = d["a"][0]; if(!bad) apply(static_cast<Datagram&&>(x), mt, op, d, m, trace); break; }
          case 5: { Datagram&& x = d[0]["a"]; if(!bad) apply(static_cast<Datagram&&>(x), mt, op, d, m, trace); break; }
        }
      }
      catch(Exception&) { threw = true; }
      SEQ_CHECK(threw == bad, "operation-result", "%s: %s", trace.c_str(), bad ? "a missing entry was found" : "an existing entry was not found");
      std::string r = differs(d, m);
      SEQ_CHECK(r.empty(), "operation-effect", "%s: %s (expected %s)", trace.c_str(), r.c_str(), mshow(m).c_str());
      state(mshow(m));
    }
    Datagram same = build(m);
    SEQ_CHECK(same == d && d == same, "operation-effect", "%s: the result differs from the same value built directly", trace.c_str());
  }
  void ops() { ops_with(ops_full(), 6, depth()); }
  void ops_three() { ops_with(ops_full(), 3, depth()); }
  void ops_deep() { ops_with(ops_small(), 4, depth()); }

  // constructors
  void constructors()
  {
    struct C { const char* n; std::function<Datagram()> f; MP m; };
    std::string str("text");
    std::vector<C> cs = {
      {"()", [] { return Datagram(); }, mE()}, {"(Empty)", [] { return Datagram(RawDatagramType::Empty); }, mE()}, {"(List)", [] { return Datagram(RawDatagramType::List); }, mL()},
      {"(Dictionary)", [] { return Datagram(RawDatagramType::Dictionary); }, mD()}, {"(Value)", [] { return Datagram(RawDatagramType::Value); }, mI(0)},
      {"(5)", [] { return Datagram(5); }, mI(5)}, {"(0)", [] { return Datagram(0); }, mI(0)}, {"(0.5)", [] { return Datagram(0.5); }, mF(0.5)}, {"(true)", [] { return Datagram(true); }, mB(true)}, {"(false)", [] { return Datagram(false); }, mB(false)},
      {"(string)", [&] { return Datagram(str); }, mS("text")}, {"(literal)", [] { return Datagram("text"); }, mS("text")}, {"(empty literal)", [] { return Datagram(""); }, mS("")},
      {"(null raw)", [] { return Datagram(std::shared_ptr<RawDatagram>()); }, mE()},
      {"(raw)", [] { return Datagram(std::make_shared<RawDatagram>(4)); }, mI(4)},
      {"= char*", [] { Datagram d; const char* p = "text"; d = p; return d; }, mS("text")},
      {"= char[]", [] { Datagram d; char p[] = "text"; d = p; return d; }, mS("text")},
      {"[] = char*", [] { Datagram d; const char* p = "text"; d["a"] = p; return d; }, mD({{"a", mS("text")}})},
      {"raw[] = literal", [] { Datagram d; d["a"]["b"] = "text"; return d; }, mD({{"a", mD({{"b", mS("text")}})}})},
    };
    const C& c = pick(cs);
    step();
    Datagram d = c.f();
    std::string r = differs(d, c.m);
    SEQ_CHECK(r.empty(), "constructor", "Datagram%s: %s", c.n, r.c_str());
  }

  // ------------------------------------------------------------------ copies
  std::vector<MP> small_leaves() { return {mE(), mI(1), mS("x")}; }
  std::vector<std::string> AB() { return {"a", "b"}; }

  Datagram through(Datagram d) { return d; }

  // all nodes of a tree as paths
  struct Step { bool key; std::string k; unsigned i; };
  void nodes(const MP& m, std::vector<Step> at, std::vector<std::vector<Step>>& out)
  {
    out.push_back(at);
    for(unsigned i = 0; i < m->list.size(); i++) { auto x = at; x.push_back({false, "", i}); nodes(m->list[i], x, out); }
    for(auto& kv : m->dict) { auto x = at; x.push_back({true, kv.first, 0}); nodes(kv.second, x, out); }
  }
  MP mat(MP m, const std::vector<Step>& p) { for(auto& s : p) m = s.key ? m->dict[s.k] : m->list[s.i]; return m; }
  template<class F> void at(Datagram&& d, const std::vector<Step>& p, size_t i, F f)
  {
    if(i == p.size()) f(d);
    else if(p[i].key) at(d[p[i].k], p, i + 1, f);
    else at(d[p[i].i], p, i + 1, f);
  }
  void mutate(Datagram& d, const MP& m, int how)
  {
    switch(how)
    {
      case 0: d = 42; *m = *mI(42); break;
      case 1: d.Add(std::make_shared<RawDatagram>(true)); if(m->t != M::L) *m = *mL(); m->list.push_back(mB(true)); break;
      case 2: d["a"] = std::string("z"); *mkey(m, "a") = *mS("z"); break;
      case 3: if(m->t == M::L || m->t == M::D) d.Clear(); m->list.clear(); m->dict.clear(); break;
      case 4: if(m->t == M::L && !m->list.empty()) { d.Remove(0u); m->list.erase(m->list.begin()); } if(m->t == M::D && !m->dict.empty()) { std::string k = m->dict.begin()->first; d.Remove(k); m->dict.erase(k); } break;
      case 5: d = Datagram(); *m = *mE(); break;
    }
  }
  void copies()
  {
    MP m = choose_tree(depth() / 10, depth() % 10, small_leaves(), AB());
    MP m2 = mcopy(m);
    Datagram d = build(m);
    Datagram target; target["old"] = 1;
    Datagram ctor(d), elem; elem["k"] = d;
    Datagram assigned(RawDatagramType::List); assigned.Add(std::make_shared<RawDatagram>(3)); assigned = d;
    Message msg("s", "t", d);
    Datagram* c = nullptr;
    int kind = choose(6);
    Datagram fromMsg = msg.GetDatagram(), passed = through(d), fromElem; fromElem = elem["k"];
    Message msg2 = msg; Datagram fromMsg2 = msg2.GetDatagram();
    switch(kind) { case 0: c = &ctor; break; case 1: c = &assigned; break; case 2: c = &fromMsg; break; case 3: c = &passed; break; case 4: c = &fromElem; break; case 5: c = &fromMsg2; break; }
    step();
    std::string r = differs(*c, m2);
    SEQ_CHECK(r.empty(), "copy-content", "copy %d of %s: %s", kind, mshow(m).c_str(), r.c_str());
    SEQ_CHECK(*c == d && d == *c, "copy-content", "copy %d of %s is not equal to the original", kind, mshow(m).c_str());
    std::vector<std::vector<Step>> all; nodes(m, {}, all);
    auto p = pick(all);
    int how = choose(6);
    bool other = choose(2);
    MP before = mcopy(m);
    if(other) at(static_cast<Datagram&&>(*c), p, 0, [&](Datagram& x) { mutate(x, mat(m2, p), how); });
    else at(static_cast<Datagram&&>(d), p, 0, [&](Datagram& x) { mutate(x, mat(m, p), how); });
    r = differs(d, m); if(r.empty()) r = differs(*c, m2);
    SEQ_CHECK(r.empty(), "copy-shared", "changing the %s of %s (copy %d, change %d): %s", other ? "copy" : "original", mshow(before).c_str(), kind, how, r.c_str());
    // the source of an element and the message stay as they were
    r = kind == 4 && other ? "" : differs(elem["k"], before);
    SEQ_CHECK(r.empty(), "copy-shared", "changing a copy changed the stored element: %s", r.c_str());
    if(kind != 2 || !other) { Datagram again = msg.GetDatagram(); r = differs(again, before); SEQ_CHECK(r.empty(), "copy-shared", "changing a datagram changed the message built from it: %s", r.c_str()); }
    { Datagram again = msg.GetDatagram(); r = differs(again, before); SEQ_CHECK(r.empty(), "copy-shared", "changing a datagram taken from a message changed the message: %s", r.c_str()); }
    state(mshow(before));
  }
  // nested assignments between parts of one datagram
  void self_copies()
  {
    MP m = choose_tree(depth() / 10, depth() % 10, small_leaves(), AB());
    Datagram d = build(m);
    std::vector<std::vector<Step>> all; nodes(m, {}, all);
    auto from = pick(all), to = pick(all);
    step();
    MP before = mcopy(m);
    MP src = mcopy(mat(m, from));
    at(static_cast<Datagram&&>(d), from, 0, [&](Datagram& x) { at(static_cast<Datagram&&>(d), to, 0, [&](Datagram& y) { y = x; }); });
    *mat(m, to) = *src;
    std::string r = differs(d, m);
    SEQ_CHECK(r.empty(), "self-assignment", "assigning a part of %s to another: %s (expected %s)", mshow(before).c_str(), r.c_str(), mshow(m).c_str());
    // still a tree: a change at one place is seen at one place
    all.clear(); nodes(m, {}, all);
    auto p = pick(all);
    at(static_cast<Datagram&&>(d), p, 0, [&](Datagram& x) { mutate(x, mat(m, p), 2); });
    r = differs(d, m);
    SEQ_CHECK(r.empty(), "self-assignment", "parts of one datagram share state after an assignment in %s: %s", mshow(before).c_str(), r.c_str());
    state(mshow(m));
  }

  // ------------------------------------------------------------------ equality
  std::vector<MP> eq_leaves() { return {mE(), mI(0), mI(1), mF(0), mF(1), mB(false), mB(true), mS(""), mS("0"), mS("1"), mS("true")}; }
  void equality_with(const std::vector<MP>& leaves, int dep, int width)
  {
    MP a = choose_tree(dep, width, leaves, AB());
    MP b = choose_tree(dep, width, leaves, AB());
    Datagram x = build(a), y = build(b);
    step();
    bool want = meq(a, b);
    SEQ_CHECK((x == y) == want, "equality", "%s == %s is %d", mshow(a).c_str(), mshow(b).c_str(), !want);
    RawDatagram rx, ry;   // the lower level agrees
    Message m1("s", "t", x), m2("s", "t", y), m3("s2", "t", y), m4("s", "t2", y);
    SEQ_CHECK((m1 == m2) == want, "equality", "messages with %s and %s: == is %d", mshow(a).c_str(), mshow(b).c_str(), !want);
    SEQ_CHECK(!(m1 == m3) && !(m1 == m4) && !(m3 == m1) && !(m4 == m1), "equality", "messages that differ in sender or topic are equal");
    state(mshow(a) + mshow(b));
  }
  void equality() { equality_with(eq_leaves(), 1, 2); }
  void equality_nested() { equality_with({mE(), mI(1)}, 2, depth()); }
  // history does not matter: the same value reached by detours
  void equality_history()
  {
    MP m = choose_tree(2, 2, {mE(), mI(1), mS("x")}, AB());
    MP junk = choose_tree(1, 2, {mI(2), mS("y")}, AB());
    Datagram d = build(junk);
    std::string t = mshow(m);
    step();
    // set it in place, without replacing the node by a fresh datagram first
    std::function<void(Datagram&&, const MP&)> put = [&](Datagram&& x, const MP& v) {
      switch(v->t)
      {
        case M::E: x = Datagram(); break;
        case M::L:
          x.Add(std::make_shared<RawDatagram>(5));
          x.Clear();
          for(auto& e : v->list) { x.Add(std::make_shared<RawDatagram>("tmp")); put(x[x.GetCount() - 1], e); }
          break;
        case M::D:
          x["zz"] = 1; x.Clear();
          for(auto& kv : v->dict) { x[kv.first] = 0; put(x[kv.first], kv.second); }
          break;
        case M::S: x = std::string(v->s); break;
        case M::I: x = (int)v->i; break;
        case M::F: x = (double)v->f; break;
        case M::B: x = (bool)v->b; break;
      }
    };
    put(static_cast<Datagram&&>(d), m);
    std::string r = differs(d, m);
    SEQ_CHECK(r.empty(), "equality", "after overwriting %s with %s: %s", mshow(junk).c_str(), t.c_str(), r.c_str());
    Datagram fresh = build(m);
    SEQ_CHECK(d == fresh && fresh == d, "equality", "%s reached from %s is not equal to %s built directly", t.c_str(), mshow(junk).c_str(), t.c_str());
    state(t + mshow(junk));
  }

  // ------------------------------------------------------------------ the level below: RawDatagram, Data
  typedef std::shared_ptr<RawDatagram> RP;
  RP rbuild(const MP& m)
  {
    RP r;
    switch(m->t)
    {
      case M::E: return std::make_shared<RawDatagram>();
      case M::S: return std::make_shared<RawDatagram>(m->s);
      case M::I: return std::make_shared<RawDatagram>((int)m->i);
      case M::F: return std::make_shared<RawDatagram>((double)m->f);
      case M::B: return std::make_shared<RawDatagram>((bool)m->b);
      case M::L: r = std::make_shared<RawDatagram>(RawDatagramType::List); for(auto& x : m->list) r->Add(rbuild(x)); return r;
      case M::D: r = std::make_shared<RawDatagram>(RawDatagramType::Dictionary); for(auto& x : m->dict) (*r)[x.first] = rbuild(x.second); return r;
    }
    return r;
  }
  std::string rdiffers(RawDatagram& r, const MP& m)
  {
    RawDatagramType want = m->t == M::E ? RawDatagramType::Empty : m->t == M::L ? RawDatagramType::List : m->t == M::D ? RawDatagramType::Dictionary : RawDatagramType::Value;
    if(r.GetType() != want) return "the type is wrong";
    if(r.IsOfValueType<int>() != (m->t == M::I) || r.IsOfValueType<double>() != (m->t == M::F) || r.IsOfValueType<bool>() != (m->t == M::B) || r.IsOfValueType<std::string>() != (m->t == M::S)) return "IsOfValueType is wrong";
    if(m->t == M::I && r.Get<int>() != m->i) return "the number is wrong";
    if(m->t == M::F && r.Get<double>() != m->f) return "the floating point number is wrong";
    if(m->t == M::B && r.Get<bool>() != m->b) return "the boolean is wrong";
    if(m->t == M::S && r.Get<std::string>() != m->s) return "the string is wrong";
    if(m->t == M::L)
    {
      if(r.GetCount() != m->list.size()) return "the number of items is wrong";
      for(unsigned i = 0; i < m->list.size(); i++) { if(r.Get(i) != r[i]) return "Get and [] give different items"; std::string x = rdiffers(*r.Get(i), m->list[i]); if(!x.empty()) return x; }
    }
    if(m->t == M::D)
    {
      if(r.GetCount() != m->dict.size()) return "the number of keys is wrong";
      for(auto& kv : m->dict) { if(!r.KeyExists(kv.first)) return "a key is missing"; if(r.Get(kv.first) != r[kv.first]) return "Get and [] give different values"; std::string x = rdiffers(*r.Get(kv.first), kv.second); if(!x.empty()) return x; }
    }
    return "";
  }
  void raw_level()
  {
    MP a = choose_tree(1, 2, eq_leaves(), AB()), b = choose_tree(1, 1, eq_leaves(), AB());
    RP x = rbuild(a), y = rbuild(b);
    step();
    bool want = meq(a, b);
    SEQ_CHECK((*x == *y) == want && (*y == *x) == want && (*x != *y) == !want && (*y != *x) == !want, "equality", "%s and %s: == or != is wrong on the raw level", mshow(a).c_str(), mshow(b).c_str());
    std::string r = rdiffers(*x, a); if(r.empty()) r = rdiffers(*y, b);
    SEQ_CHECK(r.empty(), "raw-content", "%s / %s: %s", mshow(a).c_str(), mshow(b).c_str(), r.c_str());
    RP c = x->Copy();
    SEQ_CHECK(c != x && *c == *x && !(*c != *x), "copy-content", "the raw copy of %s differs", mshow(a).c_str());
    (*c)["q"] = y;
    r = rdiffers(*x, a);
    SEQ_CHECK(r.empty(), "copy-shared", "changing a raw copy of %s: %s", mshow(a).c_str(), r.c_str());
    // the values themselves
    lp::messages::Data<int> i1(1), i2(2), i3(1); lp::messages::Data<std::string> s1("a"), s2("b"), s3("a");
    SEQ_CHECK(i1 == i3 && i1 != i2 && !(i1 == i2) && !(i1 != i3) && s1 == s3 && s1 != s2, "equality", "comparing values");
    SEQ_CHECK(i1.Equals(i3.Copy()) && !i1.Equals(i2.Copy()) && !i1.Equals(s1.Copy()) && s1.Equals(s3.Copy()) && !s1.Equals(s2.Copy()) && !s1.Equals(nullptr), "equality", "comparing values");
    state(mshow(a) + "|" + mshow(b));
  }

  // ------------------------------------------------------------------ printing
  std::string printed(const MP& m)
  {
    std::string r; std::ostringstream o;
    switch(m->t)
    {
      case M::E: return "null";
      case M::S: return "\"" + m->s + "\"";
      case M::I: o << m->i; return o.str();
      case M::F: o << m->f; return o.str();
      case M::B: return m->b ? "1" : "0";
      case M::L: r = "["; for(auto& x : m->list) r += (r.size() > 1 ? ", " : "") + printed(x); return r + "]";
      case M::D: { r = "{"; bool f = true; for(auto& x : m->dict) { r += (f ? "" : ", ") + x.first + ": " + printed(x.second); f = false; } return r + "}"; }
    }
    return r;
  }
  void printing_with(const MP& m)
  {
    step();
    Datagram d = build(m);
    std::ostringstream o; o << "<" << d << ">";
    SEQ_CHECK(o.str() == "<" + printed(m) + ">", "printing", "%s is printed as %s", mshow(m).c_str(), show(o.str()).c_str());
    std::string r = differs(d, m);
    SEQ_CHECK(r.empty(), "printing", "printing %s changed it: %s", mshow(m).c_str(), r.c_str());
    Message a("from", "/to", d); std::ostringstream p; p << a;
    SEQ_CHECK(p.str() == "[from to /to]: " + printed(m), "printing", "a message is printed as %s", show(p.str()).c_str());
    state(mshow(m));
  }
  void printing() { printing_with(choose_tree(2, 2, {mE(), mI(-1), mS("x, [y")}, AB())); }
  void printing_values() { printing_with(choose_tree(1, 2, {mE(), mI(0), mI(2147483647), mI(-2147483647 - 1), mF(0.5), mF(-1e300), mF(3), mB(true), mB(false), mS(""), mS("\""), mS("null"), mS(std::string("a\0b", 3))}, {"", "k y", "}"})); }

  // ------------------------------------------------------------------ path lookup
  std::vector<MP> path_leaves() { return {mE(), mI(3), mS("v")}; }
  template<class T> T ref_path(const MP& m, const std::string& path, T def, M::T t, T (*val)(const MP&))
  {
    MP x = m; std::string p = path;
    while(!p.empty())
    {
      size_t k = p.find('/');
      std::string tok = p.substr(0, k);
      p = k == std::string::npos ? "" : p.substr(k + 1);
      if(x->t != M::D || !x->dict.count(tok)) return def;
      x = x->dict[tok];
    }
    return x->t == t ? val(x) : def;
  }
  void path_with(const MP& m, const std::string& path)
  {
    Datagram d = build(m);
    step();
    std::string at = mshow(m) + " at \"" + path + "\"";
    SEQ_CHECK(d.Get<int>(path, -7) == ref_path<int>(m, path, -7, M::I, [](const MP& x) { return x->i; }), "path", "Get<int> of %s gives %d", at.c_str(), d.Get<int>(path, -7));
    SEQ_CHECK(d.Get<std::string>(path, std::string("dflt")) == ref_path<std::string>(m, path, "dflt", M::S, [](const MP& x) { return x->s; }), "path", "Get<string> of %s gives \"%s\"", at.c_str(), d.Get<std::string>(path, std::string("dflt")).c_str());
    SEQ_CHECK(d.Get<double>(path, -1.5) == ref_path<double>(m, path, -1.5, M::F, [](const MP& x) { return x->f; }), "path", "Get<double> of %s", at.c_str());
    SEQ_CHECK(d.Get<bool>(path, true) == ref_path<bool>(m, path, true, M::B, [](const MP& x) { return x->b; }), "path", "Get<bool> of %s", at.c_str());
    SEQ_CHECK(d.Get<int>(path) == ref_path<int>(m, path, 0, M::I, [](const MP& x) { return x->i; }), "path", "Get<int> of %s without default gives %d", at.c_str(), d.Get<int>(path));
    SEQ_CHECK(d.Get<std::string>(path) == ref_path<std::string>(m, path, "", M::S, [](const MP& x) { return x->s; }), "path", "Get<string> of %s without default", at.c_str());
    std::string r = differs(d, m);
    SEQ_CHECK(r.empty(), "path", "looking up %s changed the datagram: %s", at.c_str(), r.c_str());
  }
  void paths()
  {
    int shape = choose(2);
    MP m = shape ? choose_tree(2, 1, path_leaves(), {"a", "b", ""}) : choose_tree(1, 3, path_leaves(), {"a", "b", ""});
    std::string path;
    for(int i = 0; i < depth(); i++) { int c = choose(4); if(c == 0) break; path += "ab/"[c - 1]; }
    path_with(m, path);
    state(mshow(m) + path);
  }
  // lookups between changes: the answer is about the present content
  void paths_history()
  {
    static const char* P[] = {"a", "a/b", "b", "c", "/a"};
    MP m = pick(std::vector<MP>{mD({{"a", mD({{"b", mI(1)}})}, {"b", mI(2)}}), mE(), mD({{"a", mI(3)}})});
    Datagram d = build(m), o; o["b"] = 50; o["a"]["b"] = 51; MP mo = mD({{"b", mI(50)}, {"a", mD({{"b", mI(51)}})}});
    std::string trace = "from " + mshow(m);
    int fresh = 100;
    for(int i = 0; i < depth(); i++)
    {
      int op = choose(14);
      step();
      if(op < 5)
      {
        trace += std::string("; look up ") + P[op];
        int want = ref_path<int>(m, P[op], -7, M::I, [](const MP& x) { return x->i; }), got = d.Get<int>(P[op], -7);
        SEQ_CHECK(got == want, "path", "%s: gives %d instead of %d", trace.c_str(), got, want);
        if(op == 1) SEQ_CHECK(d.Get<std::string>(P[op], std::string("no")) == "no", "path", "%s as a text", trace.c_str());
        continue;
      }
      int v = fresh++;
      switch(op)
      {
        case 5: trace += "; [a] = v"; d["a"] = v; mkey(m, "a"); m->dict["a"] = mI(v); break;
        case 6: trace += "; [a][b] = v"; d["a"]["b"] = v; { MP a = mkey(m, "a"); mkey(a, "b"); a->dict["b"] = mI(v); } break;
        case 7: trace += "; [b] = v"; d["b"] = v; mkey(m, "b"); m->dict["b"] = mI(v); break;
        case 8: trace += "; Remove(a)"; if(m->t == M::D && m->dict.count("a")) { d.Remove(std::string("a")); m->dict.erase("a"); } else throw Skip(); break;
        case 9: trace += "; [a].Remove(b)"; if(m->t == M::D && m->dict.count("a") && m->dict["a"]->t == M::D && m->dict["a"]->dict.count("b")) { d["a"].Remove(std::string("b")); m->dict["a"]->dict.erase("b"); } else throw Skip(); break;
        case 10: trace += "; Clear"; if(m->t == M::D) { d.Clear(); m->dict.clear(); } else throw Skip(); break;
        case 11: trace += "; = another"; d = o; m = mcopy(mo); break;
        case 12: trace += "; = v"; d = v; m = mI(v); break;
        case 13: trace += "; exchanged with a copy"; { Datagram c = d; Datagram e(c); d = e; } break;
      }
    }
    for(const char* p : P)
      SEQ_CHECK(d.Get<int>(p, -7) == ref_path<int>(m, p, -7, M::I, [](const MP& x) { return x->i; }), "path", "%s: afterwards, looking up %s", trace.c_str(), p);
    state(mshow(m));
  }
  void paths_deep()
  {
    MP leaf = pick(std::vector<MP>{mI(3), mS("v"), mF(0.25), mB(false), mB(true), mE(), mL({mI(1)})});
    int n = choose(6);
    MP m = leaf; std::string good;
    for(int i = 0; i < n; i++) { std::string k = i % 2 ? "key" : "with space"; m = mD({{k, m}, {"other", mI(8)}}); good = good.empty() ? k : k + "/" + good; }
    int variant = choose(7);
    std::string p = good;
    if(variant == 1) p += "/"; if(variant == 2) p = "/" + p; if(variant == 3) p += "/x"; if(variant == 4 && !p.empty()) p.pop_back(); if(variant == 5) p += "//"; if(variant == 6) p = "other";
    path_with(m, p);
  }

  // ------------------------------------------------------------------ wire format
  Message roundtrip(Message m) { return Message::Deserialize(m.SerializeToBytes()); }
  void wire_check(const std::string& sender, const std::string& topic, const MP& m)
  {
    step();
    Message a(sender, topic, build(m));
    std::shared_ptr<lp::data::RawBytes> bytes = a.SerializeToBytes();
    // received bytes live in a buffer of exactly that size
    Message b = Message::Deserialize(std::make_shared<lp::data::RawBytes>(const_cast<void*>(bytes->GetContent()), bytes->GetSize()));
    SEQ_CHECK(b.GetSender() == sender && b.GetTopic() == topic, "wire", "sender \"%s\", topic \"%s\" arrive as \"%s\", \"%s\"", show(sender).c_str(), show(topic).c_str(), show(b.GetSender()).c_str(), show(b.GetTopic()).c_str());
    Datagram d = b.GetDatagram();
    std::string r = differs(d, m);
    SEQ_CHECK(r.empty(), "wire", "%s does not survive the wire: %s", mshow(m).c_str(), r.c_str());
    SEQ_CHECK(a == b && b == a, "wire", "a message is not equal to itself after the wire: %s", mshow(m).c_str());
    Datagram orig = a.GetDatagram();
    r = differs(orig, m);
    SEQ_CHECK(r.empty(), "wire", "serializing changed the message: %s", r.c_str());
    Message c = Message::Deserialize(b.SerializeToBytes());
    SEQ_CHECK(c == a, "wire", "a forwarded message differs: %s", mshow(m).c_str());
    state(mshow(m) + sender + "|" + topic);
  }
  void wire() { wire_check("s", "/t", choose_tree(depth() / 10, depth() % 10, {mE(), mI(-1), mS("x"), mB(true), mF(0.5)}, AB())); }
  void wire_values()
  {
    static const double inf = 1e308 * 10;
    std::vector<MP> v = {mE(), mL(), mD(), mI(0), mI(1), mI(-1), mI(2147483647), mI(-2147483647 - 1), mF(0), mF(-0.0), mF(1), mF(-1.5), mF(1e308), mF(5e-324), mF(inf), mF(-inf), mF(0.1),
                         mB(true), mB(false), mS(""), mS("x"), mS(std::string("a\0b", 3)), mS(std::string("\0", 1)), mS("\xc3\xa4\xff\x80"), mS(std::string(70000, 'y')), mS("\"\\\n{}[]")};
    MP a = mcopy(pick(v)), b = mcopy(pick(v));
    int shape = choose(5);
    MP m = shape == 0 ? a : shape == 1 ? mL({a, b}) : shape == 2 ? mD({{"a", a}, {"", b}}) : shape == 3 ? mD({{std::string("k\0e", 3), a}, {"k", b}}) : mL({mL({a}), mD({{"x/y", b}})});
    if(shape == 0 && b->t != M::E) { step(); return; }
    wire_check("s", "/t", m);
  }
  void wire_names()
  {
    std::vector<std::string> v = {"", "a", "/", "a/b/c", std::string("\0", 1), std::string("a\0b", 3), "\xff\xfe", std::string(5000, 'n'), "/**/*", " "};
    std::string s = pick(v), t = pick(v);
    wire_check(s, t, mD({{"a", mI(1)}}));
  }
  // deep and wide data
  void wire_sizes()
  {
    int n = pick(std::vector<int>{1, 31, 32, 33, 60, 61, 62, 63, 64, 65, 66, 100, 127, 128, 255, 256, 500, 999});
    int kind = choose(4);
    MP m = mI(1);
    if(kind == 0) for(int i = 0; i < n; i++) m = mL({m});
    if(kind == 1) for(int i = 0; i < n; i++) m = mD({{"a", m}});
    if(kind == 2) { m = mL(); for(int i = 0; i < n * 4; i++) m->list.push_back(mI(i)); }
    if(kind == 3) { m = mD(); for(int i = 0; i < n * 4; i++) m->dict["k" + std::to_string(i)] = mS(std::to_string(i)); }
    wire_check("s", "/t", m);
  }
  // at the ends of what is claimed: nested 4000 levels, millions of entries
  void wire_huge()
  {
    static const int DEEP[] = {1000, 2047, 2048, 2500, 3000, 3999, 4000}, MANY[] = {70000, 262144, 524288, 999998, 1000000, 1100000};
    int kind = choose(4), n = kind < 2 ? DEEP[choose(7)] : MANY[choose(6)];
    mine(); step();
    std::shared_ptr<RawDatagram> r;
    if(kind < 2)
    {
      r = std::make_shared<RawDatagram>(1);
      for(int i = 0; i < n; i++) { std::shared_ptr<RawDatagram> p = std::make_shared<RawDatagram>(); if(kind == 0) p->Add(r); else (*p)["k"] = r; r = p; }
    }
    else
    {
      r = std::make_shared<RawDatagram>(RawDatagramType::List);
      for(int i = 0; i < n; i++) r->Add(kind == 2 || i % 9 ? std::make_shared<RawDatagram>() : std::make_shared<RawDatagram>(i));
    }
    Message a("s", "/t", Datagram(r));
    std::shared_ptr<lp::data::RawBytes> bytes = a.SerializeToBytes();
    try { Message b = Message::Deserialize(bytes); SEQ_CHECK(a == b && b == a, "wire", "%s: not equal after the wire", kind < 2 ? "deep" : "many"); }
    catch(Exception& e) { fail("wire", "a datagram %s %d %s is refused: %s", kind < 2 ? "nested" : "with", n, kind < 2 ? "levels" : "entries", e.what()); }
    catch(Fail&) { throw; }
    state((u64)kind * 10000000 + n);
  }

  // ------------------------------------------------------------------ hostile bytes
  // Deserializing bytes from anywhere either fails with one of the library's exceptions or gives a usable message.
  void digest(const std::string& bytes, const char* what)
  {
    step();
    std::shared_ptr<lp::data::RawBytes> raw = std::make_shared<lp::data::RawBytes>();
    if(!bytes.empty()) raw = std::make_shared<lp::data::RawBytes>(const_cast<char*>(bytes.data()), bytes.size());
    try
    {
      Message m = Message::Deserialize(raw);
      Datagram d = m.GetDatagram();
      std::ostringstream o; o << m << d;
      Message again = Message::Deserialize(m.SerializeToBytes());
      std::string s1 = m.GetSender(), s2 = again.GetSender();
      SEQ_CHECK(s1 == s2 && m.GetTopic() == again.GetTopic(), "hostile-bytes", "%s: the accepted message does not survive the wire", what);
      d.Get<int>("a/b", 0); d.KeyExists("a");
      outcome("accepted");
    }
    catch(Exception& e) { outcome("refused"); }
  }
  std::vector<MP> bases()
  {
    return {mE(), mI(5), mS("text"), mF(1.5), mB(true), mL(), mD(), mL({mI(1), mS("b")}), mD({{"a", mI(1)}, {"b", mS("x")}}), mD({{"a", mL({mD({{"c", mI(3)}})})}}), mL({mL({mL()})})};
  }
  std::string base_bytes(int i)
  {
    auto b = bases();
    Message m(i % 2 ? "sender" : "", i % 3 ? "/topic" : "", build(b[i]));
    auto r = m.SerializeToBytes();
    return std::string((const char*)r->GetContent(), r->GetSize());
  }
  void hostile_truncated()
  {
    std::string b = base_bytes(choose((int)bases().size()));
    int k = choose((int)b.size() + 1);
    int how = choose(3);
    std::string x = how == 0 ? b.substr(0, k) : how == 1 ? b.substr(k) : b.substr(0, k) + b.substr(std::min((size_t)k + 1, b.size()));
    digest(x, "truncated");
  }
  void hostile_byte()
  {
    std::string b = base_bytes(choose((int)bases().size()));
    int k = choose((int)b.size());
    int v = choose(depth() == 1 ? 52 : 256);
    if(depth() == 1) v = v < 20 ? v : v < 40 ? 108 + (v - 20) : 244 + (v - 40);
    b[k] = (char)v;
    digest(b, "one byte replaced");
  }
  void hostile_word()
  {
    static const uint32_t V[] = {0, 1, 2, 3, 4, 8, 12, 16, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffc, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffffcu, 0xffffffffu};
    std::string b = base_bytes(choose((int)bases().size()));
    int k = choose((int)b.size() - 3);
    uint32_t v = V[choose(21)];
    memcpy(&b[k], &v, 4);
    digest(b, "one word replaced");
  }
  void hostile_two()
  {
    std::string b = base_bytes(depth() == 0 ? 2 : pick(std::vector<int>{2, 6, 8}));
    int i = choose((int)b.size()), j = choose((int)b.size());
    static const unsigned char V[] = {0, 4, 0x80, 0xff, 1, 0x7f};
    int nv = depth() == 0 ? 4 : 6;
    b[i] = (char)V[choose(nv)]; b[j] = (char)V[choose(nv)];
    digest(b, "two bytes replaced");
  }
  void hostile_short()
  {
    int n = choose(depth() + 1);
    static const unsigned char V[] = {0, 1, 2, 4, 8, 12, 0xf8, 0xff};
    std::string b;
    for(int i = 0; i < n; i++) b += (char)V[choose(8)];
    digest(b, "short");
  }
  void hostile_repeat()
  {
    int v = choose(256);
    int n = pick(std::vector<int>{1, 3, 4, 5, 8, 16, 31, 32, 64, 100, 1000, 4096});
    digest(std::string(n, (char)v), "one byte repeated");
  }
  // buffers built field by field: everything optional missing, tables of any enum value, cycles through shared tables
  void hostile_fields()
  {
    using namespace lp::schemas;
    flatbuffers::FlatBufferBuilder fb;
    int dt = choose(6) - 1, vt = choose(6) - 1;
    if(dt == 4) dt = 100; if(vt == 4) vt = 100;
    bool s = choose(2); int lists = choose(3), keys = choose(3), vals = choose(3);
    int names = choose(4); bool dg = choose(2);
    flatbuffers::Offset<flatbuffers::String> str, sender, topic;
    if(s) str = fb.CreateString("content");
    FBDatagramBuilder sub(fb); auto suboff = sub.Finish();
    flatbuffers::Offset<flatbuffers::Vector<flatbuffers::Offset<FBDatagram>>> lv, dv;
    flatbuffers::Offset<flatbuffers::Vector<flatbuffers::Offset<flatbuffers::String>>> kv;
    auto sub_s = fb.CreateString("k");
    if(lists) lv = fb.CreateVector(std::vector<flatbuffers::Offset<FBDatagram>>(lists - 1, suboff));
    if(keys) kv = fb.CreateVector(std::vector<flatbuffers::Offset<flatbuffers::String>>(keys - 1, sub_s));
    if(vals) dv = fb.CreateVector(std::vector<flatbuffers::Offset<FBDatagram>>(vals - 1, suboff));
    FBDatagramBuilder b(fb);
    b.add_datagram_type((DatagramType)dt); b.add_value_type((ValueType)vt);
    if(s) b.add_string_content(str);
    if(lists) b.add_list_content(lv);
    if(keys) b.add_dictionary_keys(kv);
    if(vals) b.add_dictionary_contents(dv);
    auto off = b.Finish();
    if(names & 1) sender = fb.CreateString("s");
    if(names & 2) topic = fb.CreateString("t");
    FBMessageBuilder mb(fb);
    if(names & 1) mb.add_sender(sender);
    if(names & 2) mb.add_topic(topic);
    if(dg) mb.add_datagram(off);
    fb.Finish(mb.Finish());
    digest(std::string((const char*)fb.GetBufferPointer(), fb.GetSize()), "fields missing or inconsistent");
  }
  // a small buffer that describes a huge (shared) tree, or a very deep one
  void hostile_bomb()
  {
    using namespace lp::schemas;
    int kind = choose(2), n = pick(std::vector<int>{10, 21, 22, 40, 64, 300, 900, 1100, 5000, 20000});
    if(kind == 0 && n > 64) { step(); return; }
    flatbuffers::FlatBufferBuilder fb;
    FBDatagramBuilder leaf(fb); auto off = leaf.Finish();
    for(int i = 0; i < n; i++)
    {
      auto v = fb.CreateVector(std::vector<flatbuffers::Offset<FBDatagram>>(kind == 0 ? 2 : 1, off));
      FBDatagramBuilder b(fb); b.add_datagram_type((DatagramType)2); b.add_list_content(v); off = b.Finish();
    }
    auto s = fb.CreateString("s");
    FBMessageBuilder mb(fb); mb.add_sender(s); mb.add_topic(s); mb.add_datagram(off);
    fb.Finish(mb.Finish());
    std::string bytes((const char*)fb.GetBufferPointer(), fb.GetSize());
    if(kind == 0 && n > 18)
    {
      // only the refusal is exercised fully: using an accepted tree of 2^n nodes is not what is asked here
      step();
      try { Message m = Message::Deserialize(std::make_shared<lp::data::RawBytes>(&bytes[0], bytes.size())); outcome("bomb accepted"); fail("hostile-bytes", "%zu bytes expanded to 2^%d datagrams", bytes.size(), n); }
      catch(Exception&) { outcome("bomb refused"); }
      return;
    }
    digest(bytes, "deep or shared");
  }

  // few bytes that stand for many: the same texts, keys or entries referred to again and again
  void hostile_shared()
  {
    using namespace lp::schemas;
    int kind = choose(4), n = pick(std::vector<int>{2, 15, 100, 400}), big = pick(std::vector<int>{10, 3000, 20000});
    flatbuffers::FlatBufferBuilder fb;
    std::vector<flatbuffers::Offset<FBDatagram>> ts;
    auto text = fb.CreateString(std::string(big, 'x'));
    std::vector<flatbuffers::Offset<flatbuffers::String>> ks;
    FBDatagramBuilder leaf(fb); auto empty = leaf.Finish();
    flatbuffers::Offset<flatbuffers::Vector<flatbuffers::Offset<flatbuffers::String>>> keys; flatbuffers::Offset<flatbuffers::Vector<flatbuffers::Offset<FBDatagram>>> values;
    if(kind == 1) { ks.push_back(text); keys = fb.CreateVector(ks); values = fb.CreateVector(std::vector<flatbuffers::Offset<FBDatagram>>(1, empty)); }
    if(kind == 2) { for(int i = 0; i < big / 10; i++) ks.push_back(fb.CreateString(std::to_string(i))); keys = fb.CreateVector(ks); values = fb.CreateVector(std::vector<flatbuffers::Offset<FBDatagram>>(big / 10, empty)); }
    if(kind == 3) values = fb.CreateVector(std::vector<flatbuffers::Offset<FBDatagram>>(big / 10, empty));
    for(int i = 0; i < n; i++)
    {
      FBDatagramBuilder b(fb);
      if(kind == 0) { b.add_datagram_type((DatagramType)1); b.add_string_content(text); }
      else if(kind == 3) { b.add_datagram_type((DatagramType)2); b.add_list_content(values); }
      else { b.add_datagram_type((DatagramType)3); b.add_dictionary_keys(keys); b.add_dictionary_contents(values); }
      ts.push_back(b.Finish());
    }
    auto v = fb.CreateVector(ts);
    FBDatagramBuilder b(fb); b.add_datagram_type((DatagramType)2); b.add_list_content(v); auto off = b.Finish();
    auto s = fb.CreateString("s");
    FBMessageBuilder mb(fb); mb.add_sender(s); mb.add_topic(s); mb.add_datagram(off);
    fb.Finish(mb.Finish());
    std::string bytes((const char*)fb.GetBufferPointer(), fb.GetSize());
    step();
    try
    {
      Message m = Message::Deserialize(std::make_shared<lp::data::RawBytes>(&bytes[0], bytes.size()));
      std::ostringstream o; o << m;
      SEQ_CHECK(o.str().size() < 20 * bytes.size(), "hostile-bytes", "%zu bytes expanded to a message of %zu bytes of text", bytes.size(), o.str().size());
      outcome("accepted");
    }
    catch(Exception&) { outcome("refused"); }
    digest(bytes, "shared");
  }

  // ------------------------------------------------------------------ JSON
  // a strict parser as the reference; lenient: set when the text is outside what is claimed
  struct Json
  {
    const std::string& t; size_t p = 0; bool bad = false, skip = false; int depth = 0;
    explicit Json(const std::string& s) : t(s) {}
    void ws() { while(p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) p++; }
    bool lit(const char* s) { size_t n = strlen(s); if(t.compare(p, n, s) == 0) { p += n; return true; } bad = true; return false; }
    static void utf8(std::string& o, unsigned c)
    {
      if(c < 0x80) o += (char)c;
      else if(c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
      else if(c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
      else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    int hex4() { int v = 0; for(int i = 0; i < 4; i++, p++) { if(p >= t.size() || !isxdigit((unsigned char)t[p])) { bad = true; return 0; } v = v * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10); } return v; }
    std::string str()
    {
      std::string o; p++;
      for(;;)
      {
        if(p >= t.size()) { bad = true; return o; }
        unsigned char c = t[p];
        if(c == '"') { p++; return o; }
        if(c < 0x20) { bad = true; return o; }
        if(c >= 0x80) skip = true;                       // raw non-ASCII bytes: only robustness
        if(c != '\\') { o += (char)c; p++; continue; }
        p++; if(p >= t.size()) { bad = true; return o; }
        c = t[p++];
        switch(c)
        {
          case '"': case '\\': case '/': o += (char)c; break;
          case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
          case 'u':
          {
            int v = hex4(); if(bad) return o;
            if(v >= 0xd800 && v < 0xdc00 && t.compare(p, 2, "\\u") == 0) { size_t save = p; p += 2; int w = hex4(); if(bad) return o; if(w >= 0xdc00 && w < 0xe000) { utf8(o, 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00)); break; } p = save; skip = true; }
            if(v >= 0xd800 && v < 0xe000) skip = true;   // lone surrogates
            utf8(o, v); break;
          }
          default: bad = true; return o;
        }
      }
    }
    MP num()
    {
      size_t s = p;
      if(t[p] == '-') p++;
      if(p >= t.size() || !isdigit((unsigned char)t[p])) { bad = true; return mE(); }
      if(t[p] == '0') p++; else while(p < t.size() && isdigit((unsigned char)t[p])) p++;
      bool dbl = false;
      if(p < t.size() && t[p] == '.') { dbl = true; p++; if(p >= t.size() || !isdigit((unsigned char)t[p])) { bad = true; return mE(); } while(p < t.size() && isdigit((unsigned char)t[p])) p++; }
      if(p < t.size() && (t[p] == 'e' || t[p] == 'E')) { dbl = true; p++; if(p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if(p >= t.size() || !isdigit((unsigned char)t[p])) { bad = true; return mE(); } while(p < t.size() && isdigit((unsigned char)t[p])) p++; }
      std::string n = t.substr(s, p - s);
      if(dbl) { double f = strtod(n.c_str(), nullptr); if(std::isinf(f)) skip = true; return mF(f); }
      if(n.size() > 12) { skip = true; return mE(); }
      long v = atol(n.c_str());
      if(v > 2147483647L || v < -2147483648L || n == "-0") skip = true;
      return mI((int)v);
    }
    MP value()
    {
      ws();
      if(++depth > 900) skip = true;
      MP m = mE();
      if(p >= t.size()) { bad = true; return m; }
      switch(t[p])
      {
        case 'n': lit("null"); break;
        case 't': if(lit("true")) m = mB(true); break;
        case 'f': if(lit("false")) m = mB(false); break;
        case '"': m = mS(str()); break;
        case '[':
          p++; m = mL(); ws();
          if(p < t.size() && t[p] == ']') { p++; break; }
          for(;;)
          {
            m->list.push_back(value()); if(bad) break;
            ws(); if(p >= t.size()) { bad = true; break; }
            if(t[p] == ',') { p++; continue; }
            if(t[p] == ']') { p++; break; }
            bad = true; break;
          }
          break;
        case '{':
          p++; m = mD(); ws();
          if(p < t.size() && t[p] == '}') { p++; break; }
          for(;;)
          {
            ws(); if(p >= t.size() || t[p] != '"') { bad = true; break; }
            std::string k = str(); if(bad) break;
            if(k.find('\0') != std::string::npos || m->dict.count(k)) skip = true;   // keys with NUL, repeated keys
            ws(); if(p >= t.size() || t[p] != ':') { bad = true; break; }
            p++; m->dict[k] = value(); if(bad) break;
            ws(); if(p >= t.size()) { bad = true; break; }
            if(t[p] == ',') { p++; continue; }
            if(t[p] == '}') { p++; break; }
            bad = true; break;
          }
          break;
        default: if(t[p] == '-' || isdigit((unsigned char)t[p])) m = num(); else bad = true;
      }
      depth--;
      return m;
    }
    // 1: valid, 0: no prefix is valid or more could follow, -1: something else
    int parse(MP& m) { m = value(); ws(); if(bad || skip) return -1; return p == t.size() ? 1 : -1; }
  };
  void json_text(const std::string& text, bool known_valid)
  {
    step();
    Json j(text); MP m; int ok = j.parse(m);
    SEQ_CHECK(!known_valid || ok == 1, "harness", "the generated text is not valid: %s", show(text).c_str());
    Datagram d = Datagram::DeserializeFromJson(text);
    if(ok == 1)
    {
      std::string r = differs(d, m);
      SEQ_CHECK(r.empty(), "json-value", "JSON %s: %s (expected %s)", show(text).c_str(), r.c_str(), mshow(m).c_str());
      outcome("valid");
      state(mshow(m));
    }
    else { std::ostringstream o; o << d; Datagram c = d; outcome(j.skip ? "not claimed" : "invalid"); }
  }
  std::string sp(int style, int k) { static const char* S[3][2] = {{"", ""}, {" ", "\n"}, {"\t", " \r\n "}}; return S[style][k & 1]; }
  std::string gen(int dep, int style)
  {
    static const std::vector<std::string> leaf = {"null", "true", "0", "-1.5", "\"a\\n\\\"\""};
    int k = choose((int)leaf.size() + (dep > 0 ? 2 : 0));
    if(k < (int)leaf.size()) return sp(style, 0) + leaf[k] + sp(style, 1);
    std::string r;
    if(k == (int)leaf.size())
    {
      int n = choose(3);
      for(int i = 0; i < n; i++) r += (i ? "," : "") + gen(dep - 1, style);
      return sp(style, 1) + "[" + r + sp(style, 0) + "]";
    }
    int set = choose(4);
    const char* keys[] = {"\"a\"", "\"\\u0062/\""};
    for(int i = 0; i < 2; i++) if(set >> i & 1) r += std::string(r.empty() ? "" : ",") + sp(style, 1) + keys[i] + sp(style, 0) + ":" + gen(dep - 1, style);
    return sp(style, 0) + "{" + r + sp(style, 1) + "}" + sp(style, 0);
  }
  void json_documents() { std::string t = gen(depth(), choose(3)); json_text(t, true); }
  void json_leaves()
  {
    static const std::vector<std::string> v = {
      "null", "true", "false", "0", "7", "-1", "12", "2147483647", "-2147483648", "0.5", "-0.25", "1e3", "1E+2", "25e-2", "1.0", "100000.125", "0.1", "1e300", "123456789.123",
      "\"\"", "\"a\"", "\"\\u0000\"", "\"a\\u0000b\"", "\"\\u00e4\\u20ac\"", "\"\\ud83d\\ude00\"", "\"\\b\\f\\n\\r\\t\\/\\\\\\\"\"", "\"{\\\"a\\\":1}\"", "\"/a/b\"", "[]", "{}", "[[]]", "[{}]", "[null]", "{\"a\":null}", "{\"\":1}", "{\"a\":{\"a\":{\"a\":[]}}}"};
    std::string a = pick(v), b = pick(v);
    int shape = choose(5);
    std::string t = shape == 0 ? a : shape == 1 ? "[" + a + "," + b + "]" : shape == 2 ? "{\"a\":" + a + ",\"b\":" + b + "}" : shape == 3 ? " \n" + a + " " : "{\"k\":[" + a + ",{\"x\":" + b + "}]}";
    json_text(t, true);
  }
  // every proper beginning of a text that is one array, object or string is incomplete
  void json_truncated()
  {
    static const std::vector<std::string> v = {"{\"a\": [1, 2.5, true, null, \"x\\n\\u00e4\"], \"b\": {\"c\": {}}}", "[[], {}, [[-1]], {\"k\": \"v\"}]", "\"str\\\\ing\\u0041\"", "[false,\"\\\"]\"]", "{\"}\":\"{\"}"};
    const std::string& t = pick(v);
    int k = choose((int)t.size());
    step();
    Datagram d = Datagram::DeserializeFromJson(t.substr(0, k));
    SEQ_CHECK(d.IsEmpty(), "json-incomplete", "the incomplete JSON text %s was accepted", show(t.substr(0, k)).c_str());
  }
  void json_mutated()
  {
    static const std::vector<std::string> v = {"{\"a\": [1, 2.5, true, null, \"x\\n\"], \"b\": {\"c\": -3}}", "[[],{},\"\\u0041\",1e2,false]"};
    std::string t = pick(v);
    int k = choose((int)t.size());
    int how = choose(3), c = how == 2 ? 0 : choose(128);
    if(how == 0) t[k] = (char)c; else if(how == 1) t.insert(k, 1, (char)c); else t.erase(k, 1);
    json_text(t, false);
  }
  void json_strings()
  {
    static const char A[] = "{}[],:\"\\an1.-e t";
    int n = choose(depth() + 1);
    std::string t;
    for(int i = 0; i < n; i++) t += A[choose(16)];
    json_text(t, false);
  }
  void json_deep()
  {
    int n = pick(std::vector<int>{1, 10, 100, 500, 800, 1500, 5000, 20000});
    int kind = choose(3);
    std::string t;
    if(kind < 2) { for(int i = 0; i < n; i++) t += kind ? "{\"a\":" : "["; t += "1"; for(int i = 0; i < n; i++) t += kind ? "}" : "]"; }
    else { t = "["; for(int i = 0; i < n; i++) t += (i ? ",1" : "1"); t += "]"; }
    step();
    Datagram d = Datagram::DeserializeFromJson(t);
    if(n <= 800 || kind == 2)
    {
      if(kind == 2) SEQ_CHECK(d.GetType() == RawDatagramType::List && d.GetCount() == (unsigned)n, "json-value", "a list of %d numbers has another size", n);
      else
      {
        std::shared_ptr<RawDatagram> x;
        Datagram cur = d; int lv = 0;
        for(; lv < n; lv++)
        {
          RawDatagramType want = kind ? RawDatagramType::Dictionary : RawDatagramType::List;
          SEQ_CHECK(cur.GetType() == want && cur.GetCount() == 1, "json-value", "JSON nested %d deep is wrong at level %d", n, lv);
          Datagram next = kind ? Datagram(cur["a"]) : Datagram(cur[0]);
          cur = next;
          if(lv > 60) { lv = n; break; }
        }
        if(n <= 61) SEQ_CHECK(cur.Get<int>() == 1, "json-value", "the innermost value is wrong");
      }
    }
  }
  void json_leak()
  {
    static const std::vector<std::string> v = {"{\"a\": [1, \"x\"]}", "[1,2,3]", "\"s\"", "5", "null", "", "{", "[1,", "{\"a\"", "\"abc", "tru", "}", "[1]x", "{\"a\":1}{", "\x01"};
    std::string t = pick(v);
    step();
    long n = leaked([&] { Datagram d = Datagram::DeserializeFromJson(t); });
    SEQ_CHECK(n == 0, "json-leak", "parsing %s leaves %ld bytes behind every time", show(t).c_str(), n);
  }
  void wire_leak()
  {
    MP m = choose_tree(1, 2, {mI(1), mS("x")}, AB());
    int broken = choose(2);
    step();
    long n = leaked([&] {
      Message a("s", "t", build(m));
      auto b = a.SerializeToBytes();
      auto c = std::make_shared<lp::data::RawBytes>(const_cast<void*>(b->GetContent()), broken ? b->GetSize() / 2 : b->GetSize());
      try { Message d = Message::Deserialize(c); } catch(Exception&) {}
    });
    SEQ_CHECK(n == 0, "wire-leak", "sending and receiving %s leaves %ld bytes behind every time", mshow(m).c_str(), n);
  }

  // ------------------------------------------------------------------ senders
  void senders()
  {
    static const std::vector<std::string> names = {"a", "b", "aa", "a/b", "ab", ""};
    static const std::vector<std::string> start = {"a", "", "b", "a/b", "aa", "/"};
    std::string s = pick(start);
    Message m(s, "t", Datagram());
    int n = choose(depth() + 1);
    std::string trace = "\"" + s + "\"";
    for(int i = 0; i < n; i++)
    {
      int op = choose(2);
      const std::string& x = pick(names);
      step();
      trace += std::string(op ? " remove " : " prepend ") + "\"" + x + "\"";
      if(op == 0) { m.PrependSender(x); s = x + "/" + s; }
      else { m.RemoveSender(x); std::string pre = x + "/"; if(s.size() >= pre.size() && std::equal(pre.begin(), pre.end(), s.begin())) s.erase(0, pre.size()); }
      SEQ_CHECK(m.GetSender() == s, "sender", "%s gives \"%s\" instead of \"%s\"", trace.c_str(), m.GetSender().c_str(), s.c_str());
      for(auto& q : names)
      {
        bool want = s.size() > q.size() && s[q.size()] == '/' && std::equal(q.begin(), q.end(), s.begin());
        SEQ_CHECK(m.WasSentBySender(q) == want, "sender", "%s: WasSentBySender(\"%s\") is %d", trace.c_str(), q.c_str(), !want);
      }
      SEQ_CHECK(m.GetSender() == s && m.GetTopic() == "t", "sender", "asking for the sender changed the message");
      state(s);
    }
  }

  // ------------------------------------------------------------------ raw bytes
  using lp::data::RawBytes;
  std::string content(RawBytes& b) { return b.GetSize() ? std::string((const char*)b.GetContent(), b.GetSize()) : std::string(); }
  // questions between changes: nothing is remembered from an earlier question
  void senders_history()
  {
    static const std::vector<std::string> names = {"a", "b", "aa"};
    std::string s = pick(std::vector<std::string>{"a/b", "b", "aa/a/b"});
    Message m(s, "t", Datagram()), o("b/a", "u", Datagram(1));
    std::string t = "t", trace = "\"" + s + "\"";
    for(int i = 0; i < depth(); i++)
    {
      int op = choose(12);
      step();
      const std::string& x = names[op % 3];
      switch(op / 3)
      {
        case 0: trace += " prepend " + x; m.PrependSender(x); s = x + "/" + s; break;
        case 1: trace += " remove " + x; m.RemoveSender(x); if(s.size() > x.size() && s.compare(0, x.size() + 1, x + "/") == 0) s.erase(0, x.size() + 1); break;
        case 2:
        {
          trace += " was " + x;
          bool want = s.size() > x.size() && s.compare(0, x.size() + 1, x + "/") == 0;
          SEQ_CHECK(m.WasSentBySender(x) == want, "sender", "%s: WasSentBySender is %d", trace.c_str(), !want);
          break;
        }
        case 3:
          if(op == 9) { trace += " sent on"; Message r = Message::Deserialize(m.SerializeToBytes()); SEQ_CHECK(r.GetSender() == s && r.GetTopic() == t && r == m, "sender", "%s: arrives from \"%s\" instead of \"%s\"", trace.c_str(), r.GetSender().c_str(), s.c_str()); }
          else if(op == 10) { trace += " replaced"; m = o; s = "b/a"; t = "u"; }
          else { trace += " printed"; std::ostringstream p; p << m; std::string want = "[" + s + " to " + t + "]"; SEQ_CHECK(p.str().compare(0, want.size(), want) == 0, "sender", "%s: %s", trace.c_str(), p.str().c_str()); }
          break;
      }
    }
    SEQ_CHECK(m.GetSender() == s && m.GetTopic() == t, "sender", "%s gives \"%s\" instead of \"%s\"", trace.c_str(), m.GetSender().c_str(), s.c_str());
    state(s);
  }
  void raw_bytes()
  {
    static const std::vector<std::string> parts = {"", "x", std::string("\0\xff", 2), std::string(300, 'q')};
    RawBytes a; RawBytes* cur = &a;
    std::unique_ptr<RawBytes> b, c;
    std::string ma, mb, mcv;
    std::string trace;
    int n = depth();
    for(int i = 0; i < n; i++)
    {
      int op = choose(8);
      step();
      if(op == 7) break;
      const std::string& p = op < 3 ? pick(parts) : parts[1];
      trace += std::to_string(op) + "(" + std::to_string(p.size()) + ") ";
      switch(op)
      {
        case 0: a.Append(p.data(), p.size()); ma += p; break;
        case 1: { char* buf = new char[p.size() + 1]; memcpy(buf, p.data(), p.size()); b.reset(new RawBytes(buf, p.size())); memset(buf, 'J', p.size()); delete[] buf; mb = p; break; }
        case 2: if(b) { b->Append(p.data(), p.size()); mb += p; } break;
        case 3: b.reset(new RawBytes(a)); mb = ma; break;                    // copies
        case 4: if(b) { a = *b; ma = mb; } break;
        case 5: { RawBytes& self = a; a = self; break; }
        case 6: if(b) { c.reset(new RawBytes(*b)); mcv = mb; b.reset(); mb.clear(); } break;
      }
      SEQ_CHECK(content(a) == ma && a.GetSize() == ma.size(), "raw-bytes", "%s: the bytes differ", trace.c_str());
      if(b) SEQ_CHECK(content(*b) == mb && b->GetSize() == mb.size(), "raw-bytes", "%s: the bytes of the second object differ", trace.c_str());
      if(c) SEQ_CHECK(content(*c) == mcv, "raw-bytes", "%s: the bytes of the third object differ", trace.c_str());
      state(std::to_string(ma.size()) + "," + std::to_string(mb.size()) + "," + std::to_string(mcv.size()));
    }
    bool threw = false;
    try { RawBytes x(nullptr, 3); } catch(ArgumentNullException&) { threw = true; }
    SEQ_CHECK(threw, "raw-bytes", "null content was accepted");
  }
  // appending a part of itself
  void raw_bytes_self()
  {
    int off = choose(4), len = choose(5 - off);
    RawBytes a; a.Append("abcd", 4);
    step();
    a.Append((const char*)a.GetContent() + off, len);
    SEQ_CHECK(content(a) == "abcd" + std::string("abcd").substr(off, len), "raw-bytes", "appending a part of itself");
  }

  // ------------------------------------------------------------------ sizes
  // The same guarantees for data of every size around the powers of two and of ten: whatever limits, counters or
  // buffers of a fixed size come into play, they do so at one of these.
  std::vector<int> sizes(int limit)
  {
    std::set<int> v;
    for(int i = 0; i <= 20; i++) v.insert(i);
    for(int p = 32; p <= 65536; p *= 2) for(int k = -1; k <= 1; k++) v.insert(p + k);
    for(int p : {50, 100, 200, 500, 1000, 2000, 5000, 10000, 50000, 70000}) { v.insert(p); v.insert(p + 1); }
    std::vector<int> r;
    for(int x : v) if(x <= limit) r.push_back(x);
    return r;
  }
  std::vector<int> positions(int n)
  {
    std::set<int> v;
    if(n <= 70) for(int i = 0; i < n; i++) v.insert(i);
    for(int p = 64; p <= 65536; p *= 2) for(int k = -1; k <= 1; k++) v.insert(p + k);
    for(int p : {0, 1, 2, 9, 10, 99, 100, 999, 1000, n / 2, n - 2, n - 1}) v.insert(p);
    std::vector<int> r;
    for(int x : v) if(x >= 0 && x < n) r.push_back(x);
    return r;
  }
  std::string key_of(int i) { char b[16]; snprintf(b, sizeof b, "k%06d", i); return b; }
  std::string text_of(int n, int salt) { std::string s((size_t)n, 0); for(int i = 0; i < n; i++) s[i] = (char)(i * 31 + i / 256 + salt); return s; }
  enum { LIST, MIXED, DICT, TEXT, LONGKEY, DEEP, SHAPES };
  // entry i of a list
  MP entry(int shape, int i) { return shape == LIST || i % 4 == 0 ? mI(i * 7 - 3) : i % 4 == 1 ? mS("s" + std::to_string(i)) : i % 4 == 2 ? mE() : mD({{"k", mI(i)}}); }
  std::shared_ptr<RawDatagram> raw_of(const MP& m)
  {
    if(m->t == M::I) return std::make_shared<RawDatagram>(m->i);
    if(m->t == M::S) return std::make_shared<RawDatagram>(m->s);
    std::shared_ptr<RawDatagram> r = std::make_shared<RawDatagram>();
    if(m->t == M::D) for(auto& kv : m->dict) (*r)[kv.first] = raw_of(kv.second);
    return r;
  }
  Datagram big(int shape, int n, bool reverse = false)
  {
    Datagram d;
    if(shape == LIST || shape == MIXED) { d = Datagram(RawDatagramType::List); for(int i = 0; i < n; i++) d.Add(raw_of(entry(shape, i))); }
    if(shape == DICT) { d = Datagram(RawDatagramType::Dictionary); for(int i = 0; i < n; i++) { int k = reverse ? n - 1 - i : i; d[key_of(k)] = k * 3; } }
    if(shape == TEXT) d = text_of(n, 1);
    if(shape == LONGKEY) d[text_of(n, 2)] = n;
    if(shape == DEEP)
    {
      std::shared_ptr<RawDatagram> x = std::make_shared<RawDatagram>(n);
      for(int i = n - 1; i >= 0; i--)
      {
        std::shared_ptr<RawDatagram> o = std::make_shared<RawDatagram>(i % 2 ? RawDatagramType::List : RawDatagramType::Dictionary);
        if(i % 2) o->Add(x); else (*o)["d"] = x;
        x = o;
      }
      d = Datagram(x);
    }
    return d;
  }
  std::string big_differs(Datagram& d, int shape, int n)
  {
    std::string w = "(" + std::to_string(n) + " entries) ";
    if(shape == LIST || shape == MIXED)
    {
      if(d.GetType() != RawDatagramType::List) return w + "not a list";
      if(d.GetCount() != (unsigned)n) return w + "counted as " + std::to_string(d.GetCount());
      for(int i : positions(n)) { std::string r = differs(d[(unsigned)i], entry(shape, i), std::to_string(i)); if(!r.empty()) return w + r; }
      bool threw = false; try { d[(unsigned)n]; } catch(IndexOutOfBoundsException&) { threw = true; }
      if(!threw) return w + "the entry after the last one can be accessed";
      return "";
    }
    if(shape == DICT)
    {
      if(d.GetType() != RawDatagramType::Dictionary) return w + "not a dictionary";
      if(d.GetCount() != (unsigned)n) return w + "counted as " + std::to_string(d.GetCount());
      if(d.KeyExists(key_of(n))) return w + "has a key too many";
      for(int i : positions(n)) { if(!d.KeyExists(key_of(i))) return w + "lacks key " + std::to_string(i); std::string r = differs(d[key_of(i)], mI(i * 3), std::to_string(i)); if(!r.empty()) return w + r; }
      return "";
    }
    if(shape == TEXT) return differs(d, mS(text_of(n, 1)));
    if(shape == LONGKEY) return differs(d, mD({{text_of(n, 2), mI(n)}}));
    return "";
  }
  std::string deep_differs(Datagram& d, int n)
  {
    // printing shows every level
    std::string a, b;
    for(int i = 0; i < n; i++) { a += i % 2 ? "[" : "{d: "; b = (i % 2 ? "]" : "}") + b; }
    std::ostringstream o; o << d;
    return o.str() == a + std::to_string(n) + b ? "" : "nested " + std::to_string(n) + " deep, printed as " + show(o.str()).substr(0, 200);
  }
  std::string check_big(Datagram& d, int shape, int n) { return shape == DEEP ? deep_differs(d, n) : big_differs(d, shape, n); }
  int LIMIT() { return 70001; }
  int choose_size(int& shape)
  {
    shape = choose(SHAPES);
    return pick(sizes(shape == DEEP ? 900 : shape == MIXED ? 5001 : LIMIT()));
  }
  // Operation sequences in which nothing is observed but what the operations themselves return: what the
  // code remembers from one access to the next (positions, caches, counts) is not refreshed by the check.
  void hidden_with(int n, int targets, bool all, bool held = false)
  {
    static const char* TN[] = {"x", "y", "a part of x"};
    static const char* ON[] = {"[0]", "[1]", "[2]", "[3]", "[1] = v", "[3] = v", "Remove(0)", "Remove(1)", "Remove(2)", "Add", "Clear", "[a]", "[b]", "[a] = v", "Remove(a)", "Remove(b)", "KeyExists(a)",
                               "Get(b)", "GetCount", "= the other", "= v", "== the other", "print"};
    static const int SOME[] = {0, 1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 13, 14, 16, 18, 19, 21, 22};
    const int OPS = 23;
    int start = choose(4), back = all ? choose(2) : 1;
    MP mx = start == 0 ? mL({mI(10), mI(11), mI(12), mI(13)}) : start == 1 ? mD({{"a", mI(20)}, {"b", mI(21)}, {"c", mI(22)}}) : start == 2 ? mL({mL({mI(1), mI(2), mI(3)}), mI(11), mD({{"a", mI(5)}})})
               : mD({{"a", mD({{"a", mI(30)}, {"b", mI(31)}})}, {"b", mL({mI(4), mI(5)})}});
    MP my = start == 0 ? mL({mI(-1), mI(-2), mI(-3)}) : start == 1 ? mD({{"b", mI(-1)}}) : start == 2 ? mD({{"a", mI(-4)}}) : mI(3);
    Datagram x = build(mx), y = build(my);
    std::string trace = "from x = " + mshow(mx) + ", y = " + mshow(my);
    int fresh = 100;
    // a part of x that stays in use while x changes: it stands for that part until the part is replaced or removed
    MP mh = start == 0 || start == 2 ? mx->list[0] : mx->dict["a"];
    Datagram&& h = start == 0 || start == 2 ? x[0] : x["a"];
    for(int i = 0; i < n; i++)
    {
      int t = held ? 2 * choose(2) : choose(targets), op = all ? choose(OPS) : SOME[choose(18)];
      step();
      MP part = mx->t == M::L ? mindex(mx, 0) : mx->t == M::D && mx->dict.count("a") ? mx->dict["a"] : nullptr;
      if(held) part = mh;
      if(t == 2 && !part) throw Skip();
      trace += std::string("; ") + (held && t == 2 ? "the held part" : TN[t]) + " " + ON[op];
      MP m = t == 0 ? mx : t == 1 ? my : part, mo = t == 1 ? mx : my;   // operand of "= the other" and "== the other"
      bool plist = mx->t == M::L;
      Exc got = NONE, want = NONE;
      std::string bad;
      auto body = [&](Datagram&& d, Datagram& o)
      {
        switch(op)
        {
          case 0: case 1: case 2: case 3:
          {
            MP e = mindex(m, op);
            if(!e) { want = ANY; got = attempt([&] { d[(unsigned)op]; }); if(got != NONE) got = ANY; }
            else if(e->t == M::I) { if(d[(unsigned)op].Get<int>("", -9) != e->i) bad = "another entry"; }
            else if(d[(unsigned)op].GetType() != (e->t == M::L ? RawDatagramType::List : e->t == M::D ? RawDatagramType::Dictionary : RawDatagramType::Empty)) bad = "another entry";
            break;
          }
          case 4: case 5:
          {
            unsigned k = op == 4 ? 1 : 3;
            MP e = mindex(m, k); int v = fresh++;
            if(!e) { want = ANY; got = attempt([&] { d[k] = v; }); if(got != NONE) got = ANY; } else { d[k] = v; *e = *mI(v); }
            break;
          }
          case 6: case 7: case 8:
          {
            unsigned k = op - 6;
            want = m->t != M::L ? INVALID : k >= m->list.size() ? INDEX : NONE;
            got = attempt([&] { d.Remove(k); });
            if(want == NONE) m->list.erase(m->list.begin() + k);
            break;
          }
          case 9: { int v = fresh++; d.Add(std::make_shared<RawDatagram>(v)); if(m->t != M::L) *m = *mL(); m->list.push_back(mI(v)); break; }
          case 10: want = m->t != M::L && m->t != M::D ? INVALID : NONE; got = attempt([&] { d.Clear(); }); m->list.clear(); m->dict.clear(); break;
          case 11: case 12:
          {
            MP e = mkey(m, op == 11 ? "a" : "b");
            if(e->t == M::I) { if(d[op == 11 ? "a" : "b"].Get<int>("", -9) != e->i) bad = "another entry"; }
            else if(d[op == 11 ? "a" : "b"].GetType() != (e->t == M::L ? RawDatagramType::List : e->t == M::D ? RawDatagramType::Dictionary : RawDatagramType::Empty)) bad = "another entry";
            break;
          }
          case 13: { int v = fresh++; MP e = mkey(m, "a"); d["a"] = v; *e = *mI(v); break; }
          case 14: case 15:
          {
            std::string k = op == 14 ? "a" : "b";
            want = m->t != M::D ? INVALID : !m->dict.count(k) ? KEY : NONE;
            got = attempt([&] { d.Remove(k); });
            if(want == NONE) m->dict.erase(k);
            break;
          }
          case 16: if(d.KeyExists("a") != (m->t == M::D && m->dict.count("a") > 0)) bad = "the wrong answer"; break;
          case 17: { int w = m->t == M::D && m->dict.count("b") && m->dict["b"]->t == M::I ? m->dict["b"]->i : -9; if(d.Get<int>("b", -9) != w) bad = "another value"; break; }
          case 18: want = m->t != M::L && m->t != M::D ? INVALID : NONE; got = attempt([&] { if(d.GetCount() != (m->t == M::L ? m->list.size() : m->dict.size())) bad = "the wrong count"; }); break;
          case 19: { MP c = mcopy(mo); d = o; *m = *c; break; }
          case 20: { int v = fresh++; d = v; *m = *mI(v); break; }
          case 21: if((d == o) != meq(m, mo) || (o == d) != meq(m, mo)) bad = "the wrong answer"; break;
          case 22: { std::ostringstream s; s << d; if(s.str() != printed(m)) bad = s.str() + " instead of " + printed(m); break; }
        }
      };
      std::shared_ptr<M> keepx = mx, keepy = my;
      if(t == 0) body(static_cast<Datagram&&>(x), y);
      else if(t == 1) body(static_cast<Datagram&&>(y), x);
      else if(held) body(static_cast<Datagram&&>(h), y);
      else if(plist) body(x[0], y);
      else body(x["a"], y);
      SEQ_CHECK(got == want, "operation-result", "%s: failed with %s, expected %s", trace.c_str(), EXN[got], EXN[want]);
      SEQ_CHECK(bad.empty(), "operation-result", "%s: %s", trace.c_str(), bad.c_str());
    }
    for(Datagram* d : {&x, &y})
    {
      MP m = d == &x ? mx : my;
      if(back && m->t == M::L)
        for(unsigned k = m->list.size(); k-- > 0;)
        {
          std::string r = differs((*d)[k], m->list[k], std::to_string(k));
          SEQ_CHECK(r.empty(), "operation-effect", "%s: %s (expected %s)", trace.c_str(), r.c_str(), mshow(m).c_str());
        }
      std::string r = differs(*d, m);
      SEQ_CHECK(r.empty(), "operation-effect", "%s: %s is wrong: %s (expected %s)", trace.c_str(), d == &x ? "x" : "y", r.c_str(), mshow(m).c_str());
    }
    if(held)
    {
      std::string r = differs(h, mh);
      SEQ_CHECK(r.empty(), "operation-effect", "%s: the held part is wrong: %s (expected %s)", trace.c_str(), r.c_str(), mshow(mh).c_str());
    }
    state(mshow(mx) + mshow(my));
  }
  void hidden() { hidden_with(3, 3, depth() > 1); }
  void hidden_held() { hidden_with(depth(), 2, false, true); }
  void hidden_deep() { hidden_with(depth(), 2, false); }

  void sizes_ops()
  {
    int shape, n = choose_size(shape);
    int op = choose(5);
    mine(); step();
    Datagram d = big(shape, n);
    std::string r = check_big(d, shape, n);
    SEQ_CHECK(r.empty(), "size", "after creation: %s", r.c_str());
    bool list = shape == LIST || shape == MIXED;
    if(op == 0)
      for(int at : {0, n / 2, n - 1})
        if(list && at >= 0 && at < n)
        {
          Datagram e = d;
          e.Remove((unsigned)at);
          SEQ_CHECK(e.GetCount() == (unsigned)n - 1, "size", "%d entries, one removed: %u", n, e.GetCount());
          for(int i : positions(n - 1)) { std::string x = differs(e[(unsigned)i], entry(shape, i < at ? i : i + 1), std::to_string(i)); SEQ_CHECK(x.empty(), "size", "%d entries, %d removed: %s", n, at, x.c_str()); }
          e.Add(std::make_shared<RawDatagram>(5));
          SEQ_CHECK(e.GetCount() == (unsigned)n && e[(unsigned)n - 1].Get<int>() == 5, "size", "%d entries: adding after removing", n);
        }
        else if(shape == DICT && at >= 0 && at < n)
        {
          Datagram e = d;
          e.Remove(key_of(at));
          SEQ_CHECK(e.GetType() == RawDatagramType::Dictionary && e.GetCount() == (unsigned)n - 1 && !e.KeyExists(key_of(at)), "size", "%d keys, one removed: %u", n, e.GetCount());
          for(int i : positions(n)) if(i != at) SEQ_CHECK(e.KeyExists(key_of(i)) && e[key_of(i)].Get<int>() == i * 3, "size", "%d keys: removing one affected another", n);
        }
    if(op == 1 && (list || shape == DICT)) { d.Clear(); SEQ_CHECK(d.GetCount() == 0 && d.GetType() == (list ? RawDatagramType::List : RawDatagramType::Dictionary), "size", "clearing %d entries", n); }
    if(op == 2) { d = 7; SEQ_CHECK(differs(d, mI(7)).empty(), "size", "overwriting %d entries", n); }
    if(op == 3 && list)
    {
      bool threw = false; try { d.Remove((unsigned)n); } catch(IndexOutOfBoundsException&) { threw = true; }
      SEQ_CHECK(threw, "size", "%d entries: removing the one after the last", n);
      r = check_big(d, shape, n); SEQ_CHECK(r.empty(), "size", "after a failed removal: %s", r.c_str());
    }
    if(op == 4) { Datagram e; e["x"] = d; Datagram y = e["x"]; r = check_big(y, shape, n); SEQ_CHECK(r.empty(), "size", "stored in another: %s", r.c_str()); }
  }
  void sizes_copies()
  {
    int shape, n = choose_size(shape);
    int how = choose(4);
    mine(); step();
    Datagram d = big(shape, n);
    Datagram c = how == 0 ? Datagram(d) : how == 1 ? [&] { Datagram x; x = 1; x = d; return x; }() : how == 2 ? Message("s", "/t", d).GetDatagram() : [&] { Datagram x; x["y"] = d; Datagram z = x["y"]; return z; }();
    std::string r = check_big(c, shape, n); SEQ_CHECK(r.empty(), "size", "copy: %s", r.c_str());
    SEQ_CHECK(c == d && d == c, "size", "a copy with %d entries differs", n);
    for(int side = 0; side < 2; side++)
    {
      Datagram& x = side ? c : d; Datagram& y = side ? d : c;
      if(shape == LIST || shape == MIXED)
      {
        for(int i : positions(n)) { if(entry(shape, i)->t == M::D) x[(unsigned)i]["k"] = -1; else x[(unsigned)i] = std::string("changed"); }
      }
      else if(shape == DICT) for(int i : positions(n)) x[key_of(i)] = std::string("changed");
      else if(shape == LONGKEY) x[text_of(n, 2)] = std::string("changed");
      else if(shape == TEXT) x = 1;
      else if(n > 0) x["d"] = 1;
      r = check_big(y, shape, n); SEQ_CHECK(r.empty(), "size", "changing %s changed the other: %s", side ? "the copy" : "the original", r.c_str());
      x = y;
    }
  }
  void sizes_equality()
  {
    int shape, n = choose_size(shape);
    mine(); step();
    Datagram a = big(shape, n), b = big(shape, n, true);
    SEQ_CHECK(a == b && b == a, "size", "equal datagrams with %d entries differ (shape %d)", n, shape);
    auto differ = [&](const char* what, int i) { SEQ_CHECK(!(a == b) && !(b == a), "size", "shape %d, %d entries: %s %d makes no difference", shape, n, what, i); };
    if(shape == LIST || shape == MIXED)
    {
      std::vector<int> ps = positions(n);
      for(size_t k = 0; k < ps.size(); k += ps.size() > 40 && n > 5000 ? 3 : 1)
      {
        int i = ps[k];
        b[(unsigned)i] = std::string("x"); differ("changing", i);
        b[(unsigned)i] = Datagram(raw_of(entry(shape, i)));
      }
      SEQ_CHECK(a == b, "size", "%d entries: not equal again", n);
      b.Add(std::make_shared<RawDatagram>(0)); differ("adding", n);
      b.Remove((unsigned)n);
      if(n > 0) { b.Remove((unsigned)n - 1); differ("removing", n - 1); }
    }
    else if(shape == DICT)
    {
      std::vector<int> ps = positions(n);
      for(int i : ps) { if(n > 5000 && i % 5 > 1) continue; b[key_of(i)] = -5; differ("changing", i); b[key_of(i)] = i * 3; }
      SEQ_CHECK(a == b, "size", "%d keys: not equal again", n);
      b["other"] = 1; differ("adding", n);
      if(n > 0) { b.Remove(key_of(n - 1)); differ("exchanging", n - 1); b.Remove(std::string("other")); differ("removing", n - 1); }
    }
    else if(shape == TEXT)
    {
      for(int i : positions(n)) { std::string t = text_of(n, 1); t[i] ^= 1; b = t; differ("changing", i); }
      b = text_of(n + 1, 1); differ("adding", n);
    }
    else if(shape == LONGKEY)
      for(int i : positions(n)) { std::string t = text_of(n, 2); t[i] ^= 1; Datagram x; x[t] = n; b = x; differ("changing", i); }
    else
    {
      Datagram x = big(DEEP, n + 2); b = x; differ("nesting", n + 2);
    }
  }
  void sizes_printing()
  {
    int shape, n = choose_size(shape);
    mine(); step();
    std::string want;
    if(shape == LIST || shape == MIXED) { MP l = mL(); for(int i = 0; i < n; i++) l->list.push_back(entry(shape, i)); want = printed(l); }
    else if(shape == DICT) { MP l = mD(); for(int i = 0; i < n; i++) l->dict[key_of(i)] = mI(i * 3); want = printed(l); }
    else if(shape == TEXT) want = printed(mS(text_of(n, 1)));
    else if(shape == LONGKEY) want = printed(mD({{text_of(n, 2), mI(n)}}));
    Datagram d = big(shape, n);
    if(shape == DEEP) { std::string r = deep_differs(d, n); SEQ_CHECK(r.empty(), "size", "%s", r.c_str()); return; }
    std::ostringstream o; o << d;
    SEQ_CHECK(o.str() == want, "size", "shape %d with %d entries is printed with %zu characters instead of %zu", shape, n, o.str().size(), want.size());
    Message m(text_of(n, 3), text_of(n, 4), d); std::ostringstream p; p << m;
    SEQ_CHECK(p.str() == "[" + text_of(n, 3) + " to " + text_of(n, 4) + "]: " + want, "size", "message with %d entries", n);
  }
  void sizes_paths()
  {
    int kind = choose(3);
    int n = pick(sizes(kind == 2 ? 900 : LIMIT()));
    mine(); step();
    if(kind == 0)
    {
      Datagram d; d["o"] = big(DICT, n);
      for(int i : positions(n)) SEQ_CHECK(d.Get<int>("o/" + key_of(i), -1) == i * 3, "size", "key %d of %d", i, n);
      SEQ_CHECK(d.Get<int>("o/" + key_of(n), -1) == -1, "size", "a key too many");
    }
    if(kind == 1)
    {
      std::string k((size_t)n, 'q'); Datagram d; d[k]["z"] = 4; d["z"] = 5;
      SEQ_CHECK(d.Get<int>(k + "/z", -1) == 4, "size", "a key of %d characters", n);
      if(n > 0) SEQ_CHECK(d.Get<int>(k.substr(1) + "/z", -1) == -1 && d.Get<int>(k + "q/z", -1) == -1, "size", "a key similar to one of %d characters", n);
    }
    if(kind == 2)
    {
      std::shared_ptr<RawDatagram> x = std::make_shared<RawDatagram>(n);
      std::string path;
      for(int i = n; i > 0; i--) { std::shared_ptr<RawDatagram> o = std::make_shared<RawDatagram>(); std::string k = "p" + std::to_string(i); (*o)[k] = x; x = o; path = k + (i < n ? "/" : "") + path; }
      Datagram d(x);
      SEQ_CHECK(d.Get<int>(path, -1) == n, "size", "a path of %d keys", n);
      if(n > 0) SEQ_CHECK(d.Get<int>(path + "/p", -1) == -1 && d.Get<int>(path.substr(0, path.size() - 1) + "x", -1) == -1, "size", "a path similar to one of %d keys", n);
    }
  }
  void sizes_wire()
  {
    int shape, n = choose_size(shape);
    mine(); step();
    Datagram d = big(shape, n);
    Message m(text_of(shape == TEXT ? n : 3, 5), text_of(shape == LONGKEY ? n : 3, 6), d);
    auto bytes = m.SerializeToBytes();
    Message r = Message::Deserialize(bytes);
    Datagram x = r.GetDatagram();
    std::string w = check_big(x, shape, n); SEQ_CHECK(w.empty(), "size", "over the wire: %s", w.c_str());
    SEQ_CHECK(r == m && x == d && r.GetSender() == m.GetSender() && r.GetTopic() == m.GetTopic(), "size", "a message with %d entries does not survive the wire", n);
    w = check_big(d, shape, n); SEQ_CHECK(w.empty(), "size", "serializing changed it: %s", w.c_str());
  }
  void sizes_json()
  {
    int kind = choose(5);
    int n = pick(sizes(kind == 4 ? 450 : LIMIT()));
    mine(); step();
    if(kind == 0)
    {
      std::string t = "["; for(int i = 0; i < n; i++) t += (i ? "," : "") + std::to_string(i * 7 - 3); t += "]";
      Datagram d = Datagram::DeserializeFromJson(t); std::string r = big_differs(d, LIST, n); SEQ_CHECK(r.empty(), "size", "JSON: %s", r.c_str());
    }
    if(kind == 1)
    {
      std::string t = "{"; for(int i = 0; i < n; i++) t += (i ? "," : "") + std::string("\"") + key_of(i) + "\": " + std::to_string(i * 3); t += "}";
      Datagram d = Datagram::DeserializeFromJson(t); std::string r = big_differs(d, DICT, n); SEQ_CHECK(r.empty(), "size", "JSON: %s", r.c_str());
    }
    if(kind == 2 || kind == 3)
    {
      std::string s; for(int i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 100) % 26);
      Datagram d = Datagram::DeserializeFromJson(kind == 2 ? "\"" + s + "\"" : "{\"" + s + "\":" + std::string((size_t)n % 5000, ' ') + "1}");
      std::string r = differs(d, kind == 2 ? mS(s) : mD({{s, mI(1)}})); SEQ_CHECK(r.empty(), "size", "JSON: %s", r.c_str());
    }
    if(kind == 4)
    {
      std::string t = std::to_string(n); for(int i = n - 1; i >= 0; i--) t = i % 2 ? "[" + t + "]" : "{\"d\":" + t + "}";
      Datagram d = Datagram::DeserializeFromJson(t); std::string r = deep_differs(d, n); SEQ_CHECK(r.empty(), "size", "JSON: %s", r.c_str());
    }
  }
  void sizes_senders()
  {
    int kind = choose(2);
    int n = pick(sizes(kind ? 2001 : LIMIT()));
    mine(); step();
    if(kind == 0)
    {
      std::string name((size_t)n, 'n'), near = name + "n";
      Message m("s", "/t", Datagram(1));
      SEQ_CHECK(!m.WasSentBySender(name), "size", "not sent by a name of %d characters yet", n);
      m.PrependSender(name);
      SEQ_CHECK(m.GetSender() == name + "/s" && m.WasSentBySender(name) && !m.WasSentBySender(near), "size", "a name of %d characters", n);
      m.RemoveSender(near); SEQ_CHECK(m.GetSender() == name + "/s", "size", "a name similar to one of %d characters was removed", n);
      m.RemoveSender(name); SEQ_CHECK(m.GetSender() == "s", "size", "a name of %d characters is not removed", n);
    }
    else
    {
      Message m("s", "/t", Datagram(1)); std::string want = "s";
      for(int i = 0; i < n; i++) { m.PrependSender("l"); want = "l/" + want; }
      SEQ_CHECK(m.GetSender() == want && m.WasSentBySender("l") == (n > 0), "size", "%d hops", n);
      for(int i = 0; i < 3 && i < n; i++) { m.RemoveSender("l"); want = want.substr(2); SEQ_CHECK(m.GetSender() == want, "size", "%d hops, %d removed", n, i + 1); }
    }
  }
  void sizes_raw_bytes()
  {
    int n = pick(sizes(LIMIT()));
    int k = pick(std::vector<int>{0, 1, 2, 15, 16, 17, 63, 64, 255, 256, 4095, 4096, 65536});
    mine(); step();
    std::string a = text_of(n, 7), b = text_of(k, 8);
    RawBytes x((void*)a.data(), a.size()), e;
    SEQ_CHECK(content(x) == a, "size", "%d bytes", n);
    x.Append(b.data(), b.size()); e.Append(a.data(), a.size()); e.Append(b.data(), b.size());
    RawBytes c(x); RawBytes z; z = x;
    SEQ_CHECK(content(x) == a + b && content(e) == a + b && content(c) == a + b && content(z) == a + b, "size", "%d and %d bytes", n, k);
    if(n > 0) { x.Append((const char*)x.GetContent() + n / 2, n - n / 2); SEQ_CHECK(content(x) == a + b + a.substr(n / 2), "size", "%d and %d bytes and a part of itself", n, k); }
    SEQ_CHECK(content(c) == a + b && content(z) == a + b, "size", "copies of %d bytes changed", n + k);
  }

  // ------------------------------------------------------------------ every kind of value
  // classes: 2047 exponents of floating point numbers, 32 magnitudes of integers, 256 bytes in texts
  int choose_class() { return choose(2047 + 32 + 256); }
  std::vector<MP> class_values(int c)
  {
    std::vector<MP> r;
    if(c < 2047)
    {
      for(unsigned long long m : {0ull, 1ull, 1ull << 51, 0x5555555555555ull, (1ull << 52) - 1})
        for(int s = 0; s < 2; s++)
        {
          if(c == 0 && m == 0 && s) continue;   // the sign of zero is left open
          unsigned long long bits = (unsigned long long)s << 63 | (unsigned long long)c << 52 | m;
          double d; memcpy(&d, &bits, 8); r.push_back(mF(d));
        }
    }
    else if(c < 2047 + 32)
    {
      long long p = 1ll << (c - 2047);
      std::set<long long> all;
      for(int k = -1; k < 2; k++) for(int s = -1; s < 2; s += 2) { long long v = s * p + k; if(v >= -2147483648ll && v <= 2147483647ll) all.insert(v); }
      for(long long v : all) r.push_back(mI((int)v));
    }
    else
    {
      std::string b(1, (char)(c - 2079));
      for(auto& s : {b, "a" + b, b + "a", "a" + b + "b", b + b + b, std::string(16, 'x') + b + "y"}) r.push_back(mS(s));
    }
    return r;
  }
  void values_ops()
  {
    int c = choose_class();
    for(const MP& v : class_values(c))
    {
      step();
      std::string r = differs(build(v), v);
      SEQ_CHECK(r.empty(), "value", "storing %s: %s", mshow(v).c_str(), r.c_str());
      Datagram k = v->t == M::F ? Datagram(v->f) : v->t == M::I ? Datagram((int)v->i) : Datagram(v->s);
      r = differs(k, v);
      SEQ_CHECK(r.empty(), "value", "constructed with %s: %s", mshow(v).c_str(), r.c_str());
      Datagram d; d["a"] = k; d["b"].Add(std::make_shared<RawDatagram>(1)); d["b"][0] = k;
      r = differs(d, mD({{"a", v}, {"b", mL({v})}}));
      SEQ_CHECK(r.empty(), "value", "%s in containers: %s", mshow(v).c_str(), r.c_str());
      if(v->t == M::S)
      {
        Datagram e; e[v->s] = 1; e[v->s + "2"] = 2;
        r = differs(e, mD({{v->s, mI(1)}, {v->s + "2", mI(2)}}));
        SEQ_CHECK(r.empty(), "value", "%s as a key: %s", mshow(v).c_str(), r.c_str());
        e.Remove(v->s);
        r = differs(e, mD({{v->s + "2", mI(2)}}));
        SEQ_CHECK(r.empty(), "value", "key %s removed: %s", mshow(v).c_str(), r.c_str());
      }
      state(mshow(v));
    }
  }
  void values_copies()
  {
    for(const MP& v : class_values(choose_class()))
    {
      step();
      MP m = mD({{"a", v}, {"b", mL({v})}});
      Datagram d = build(m), x = d, y; y = d;
      Datagram z = through(d);
      d["a"] = 5; d["b"][0] = 6;
      for(Datagram* p : {&x, &y, &z}) { std::string r = differs(*p, m); SEQ_CHECK(r.empty(), "value", "a copy of %s: %s", mshow(m).c_str(), r.c_str()); }
      state(mshow(v));
    }
  }
  void values_equality()
  {
    int c = choose_class();
    std::vector<MP> vs = class_values(c);
    size_t n = vs.size();
    for(const MP& v : class_values(c == 2046 || c == 2078 || c == 2334 ? 0 : c + 1)) vs.push_back(v);
    for(size_t i = 0; i < n; i++)
      if(vs[i]->t == M::F) for(double to : {1e308 * 10, -1e308 * 10}) { double x = std::nextafter(vs[i]->f, to); if(x != 0) vs.push_back(mF(x)); }
    for(auto& v : {mE(), mI(0), mF(0), mF(1), mB(true), mB(false), mS(""), mS("a")}) vs.push_back(v);
    std::vector<Datagram> ds; std::vector<Message> ms; std::vector<Datagram> ls;
    for(auto& v : vs) { ds.push_back(build(v)); ls.push_back(build(mD({{"k", mL({v})}}))); if(v->t == M::S) { ms.push_back(Message(v->s, "/t", ds.back())); ms.push_back(Message("s", v->s, ds.back())); } }
    for(size_t i = 0; i < vs.size(); i++)
      for(size_t j = 0; j < vs.size(); j++)
      {
        step();
        bool want = meq(vs[i], vs[j]);
        SEQ_CHECK((ds[i] == ds[j]) == want, "value", "%s == %s is %d", mshow(vs[i]).c_str(), mshow(vs[j]).c_str(), !want);
        SEQ_CHECK((ls[i] == ls[j]) == want, "value", "lists with %s and %s: == is %d", mshow(vs[i]).c_str(), mshow(vs[j]).c_str(), !want);
      }
    for(size_t i = 0; i < ms.size(); i++)
      for(size_t j = 0; j < ms.size(); j++)
      {
        Message &a = ms[i], &b = ms[j];
        bool want = a.GetSender() == b.GetSender() && a.GetTopic() == b.GetTopic() && a.GetDatagram().Get<std::string>() == b.GetDatagram().Get<std::string>();
        SEQ_CHECK((a == b) == want, "value", "messages from \"%s\" to \"%s\" and from \"%s\" to \"%s\": == is %d", show(a.GetSender()).c_str(), show(a.GetTopic()).c_str(), show(b.GetSender()).c_str(), show(b.GetTopic()).c_str(), !want);
      }
    state((u64)c + 1);
  }
  void values_paths()
  {
    for(const MP& v : class_values(choose_class()))
    {
      MP m = mD({{"a", mD({{"b", v}, {"c", mI(1)}})}, {"d", v}});
      for(const char* p : {"a/b", "d", "a", "a/b/"}) path_with(m, p);
      if(v->t == M::S && v->s.find('/') == std::string::npos)
      {
        MP k = mD({{v->s, mD({{v->s, mI(1)}})}, {"a", mI(2)}, {"ab", mI(3)}});
        for(auto& p : {v->s, v->s + "/" + v->s, v->s + "/", "a/" + v->s, std::string("a")}) path_with(k, p);
      }
    }
  }
  void values_printing()
  {
    for(const MP& v : class_values(choose_class())) { printing_with(v); printing_with(mD({{v->t == M::S ? v->s : "k", mL({v, v})}})); }
  }
  void values_wire()
  {
    for(const MP& v : class_values(choose_class()))
      if(v->t == M::S) { wire_check(v->s, v->s, mD({{v->s, v}, {v->s + v->s, mI(1)}})); }
      else wire_check("s", "/t", mL({v, mD({{"k", v}})}));
  }
  void values_json()
  {
    for(const MP& v : class_values(choose_class()))
    {
      std::string t;
      if(v->t == M::S)
      {
        // as it is, if it is valid text, and with escapes
        t = "\"";
        for(unsigned char ch : v->s) { char b[8]; if(ch >= 128) { t.clear(); break; } if(ch < 32 || ch == '"' || ch == '\\' || ch == 127) { snprintf(b, sizeof b, "\\u%04x", ch); t += b; } else t += (char)ch; }
        if(t.empty()) continue;
        t += "\"";
      }
      else { char b[64]; if(v->t == M::I) snprintf(b, sizeof b, "%d", (int)v->i); else { snprintf(b, sizeof b, "%.17g", v->f); if(!strpbrk(b, ".e")) strcat(b, ".0"); } t = b; }
      json_text(t, true);
      json_text("{\"a\": [" + t + "]}", true);
    }
  }
  // senders: every byte in a text
  void values_raw_bytes()
  {
    int c = choose(256);
    for(size_t n : {1, 2, 7, 8, 9, 16, 33})
      for(size_t at = 0; at < n; at++)
      {
        step();
        std::string s(n, 'q'); s[at] = (char)c;
        RawBytes x((void*)s.data(), s.size()), y(x), z; z = x;
        x.Append(s.data(), s.size());
        SEQ_CHECK(content(x) == s + s && content(y) == s && content(z) == s, "value", "bytes %s", show(s).c_str());
      }
    state((u64)c + 1);
  }

  const Scenario SC[] = {
    {"ops", ops, 2, 3, "all sequences of 18 operations on 6 places of a datagram"},
    {"ops_three", ops_three, 3, 3, "all sequences of 18 operations on 3 places"},
    {"ops_deep", ops_deep, 3, 4, "all sequences of 8 operations on 4 places"},
    {"hidden_held", hidden_held, 3, 4, "all sequences of 18 operations on a datagram and a part of it that is held, with nothing read in between"},
    {"hidden_deep", hidden_deep, 2, 4, "all sequences of 18 operations on 2 datagrams, from 4 contents, with nothing read in between"},
    {"hidden", hidden, 1, 2, "all sequences of three of 18 (thorough: 23) operations on 2 datagrams and a part, from 4 contents, with nothing read in between"},
    {"constructors", constructors, 1, 1, "every way to construct or assign a value"},
    {"copies", copies, 21, 22, "all trees, 6 ways to copy, 6 changes at every node of original or copy (bound: depth*10+width)"},
    {"self_copies", self_copies, 21, 22, "assignments between all parts of one datagram"},
    {"equality", equality, 1, 1, "all pairs of flat datagrams over 11 values"},
    {"equality_nested", equality_nested, 1, 2, "all pairs of nested datagrams (bound: width)"},
    {"equality_history", equality_history, 1, 1, "all values overwritten by all values"},
    {"raw_level", raw_level, 1, 1, "all pairs of flat raw datagrams: access, comparison, copies"},
    {"printing", printing, 1, 1, "all trees up to depth 2 and width 2"},
    {"printing_values", printing_values, 1, 1, "all flat datagrams over 13 values"},
    {"paths", paths, 4, 6, "all trees, all paths over a, b, / up to the bound"},
    {"paths_history", paths_history, 4, 5, "all sequences of 5 lookups and 9 changes from 3 contents"},
    {"paths_deep", paths_deep, 1, 1, "paths up to 5 levels and 7 distortions"},
    {"wire", wire, 22, 22, "all trees (depth*10+width) over the wire"},
    {"wire_values", wire_values, 1, 1, "pairs of 26 extreme values in 5 shapes"},
    {"wire_names", wire_names, 1, 1, "all pairs of 10 senders and topics"},
    {"wire_sizes", wire_sizes, 1, 1, "nesting up to 999, up to 4000 entries"},
    {"wire_huge", wire_huge, 1, 1, "nesting up to 4000 levels, up to 1100000 entries"},
    {"wire_leak", wire_leak, 1, 1, "heap balance of sending and receiving, complete and truncated"},
    {"hostile_truncated", hostile_truncated, 1, 1, "11 messages cut or shortened at every byte"},
    {"hostile_byte", hostile_byte, 1, 2, "every byte of 11 messages replaced (52 / all 256 values)"},
    {"hostile_word", hostile_word, 1, 1, "every word of 11 messages replaced by 21 values"},
    {"hostile_two", hostile_two, 0, 1, "every pair of bytes replaced by 4 x 4 (6 x 6) values"},
    {"hostile_short", hostile_short, 5, 7, "all buffers over 8 byte values up to the bound"},
    {"hostile_repeat", hostile_repeat, 1, 1, "256 bytes repeated"},
    {"hostile_fields", hostile_fields, 1, 1, "well-formed buffers with all combinations of missing and inconsistent fields"},
    {"hostile_bomb", hostile_bomb, 1, 1, "shared and deeply nested tables"},
    {"hostile_shared", hostile_shared, 1, 1, "texts, keys and entries referred to up to 400 times"},
    {"json_documents", json_documents, 1, 2, "all documents of a grammar up to the nesting bound, 3 layouts"},
    {"json_leaves", json_leaves, 1, 1, "pairs of 36 values in 5 shapes"},
    {"json_truncated", json_truncated, 1, 1, "every beginning of 5 documents"},
    {"json_mutated", json_mutated, 1, 1, "every byte replaced, inserted or erased"},
    {"json_strings", json_strings, 5, 6, "all texts over 16 characters up to the bound"},
    {"json_deep", json_deep, 1, 1, "nesting and length up to 20000"},
    {"json_leak", json_leak, 1, 1, "heap balance of parsing 15 texts"},
    {"senders", senders, 3, 4, "all sequences of prepending and removing 6 names"},
    {"senders_history", senders_history, 4, 5, "all sequences of 12 changes and questions from 3 paths"},
    {"raw_bytes", raw_bytes, 4, 5, "all sequences of appending, copying and assigning byte buffers"},
    {"sizes_ops", sizes_ops, 1, 1, "6 shapes of every size around powers of 2 and 10 up to 70001: creation and 5 operations"},
    {"values_ops", values_ops, 1, 1, "2335 classes of values: floating point numbers of every exponent, integers of every magnitude, texts with every byte"},
    {"sizes_copies", sizes_copies, 1, 1, "the same shapes and sizes: 4 ways to copy, changes on either side"},
    {"values_copies", values_copies, 1, 1, "2335 classes of values: floating point numbers of every exponent, integers of every magnitude, texts with every byte"},
    {"sizes_equality", sizes_equality, 1, 1, "the same shapes and sizes: differences at every critical position"},
    {"values_equality", values_equality, 1, 1, "2335 classes of values: floating point numbers of every exponent, integers of every magnitude, texts with every byte"},
    {"sizes_printing", sizes_printing, 1, 1, "the same shapes and sizes printed"},
    {"values_printing", values_printing, 1, 1, "2335 classes of values: floating point numbers of every exponent, integers of every magnitude, texts with every byte"},
    {"sizes_paths", sizes_paths, 1, 1, "many, long and deeply nested keys"},
    {"values_paths", values_paths, 1, 1, "2335 classes of values: floating point numbers of every exponent, integers of every magnitude, texts with every byte"},
    {"sizes_wire", sizes_wire, 1, 1, "the same shapes and sizes over the wire"},
    {"values_wire", values_wire, 1, 1, "2335 classes of values: floating point numbers of every exponent, integers of every magnitude, texts with every byte"},
    {"sizes_json", sizes_json, 1, 1, "JSON documents of all these sizes"},
    {"values_json", values_json, 1, 1, "2335 classes of values: floating point numbers of every exponent, integers of every magnitude, texts with every byte"},
    {"sizes_senders", sizes_senders, 1, 1, "names and paths of all these sizes"},
    {"sizes_raw_bytes", sizes_raw_bytes, 1, 1, "pairs of sizes"},
    {"values_raw_bytes", values_raw_bytes, 1, 1, "every byte at every position of 7 lengths"},
    {"raw_bytes_self", raw_bytes_self, 1, 1, "appending a part of itself"},
  };
}
int main(int argc, char** argv) { return seq::main(argc, argv, SC, sizeof SC / sizeof *SC); }
