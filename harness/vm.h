// Operation server over the real libkml API.  Every operation runs library
// code in-process (instrumented build) and returns what a client observes.
#ifndef VM_H
#define VM_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <locale.h>
#include <stdlib.h>
#include <map>
#include <string>
#include <vector>
#include <memory>
#include "kml/dom.h"
#include "kml/engine.h"

typedef std::vector<std::string> Args;
typedef std::vector<std::string> Out;
typedef void (*OpFn)(const Args& a, Out& o);

struct VM {
  std::map<std::string, kmldom::ElementPtr> el;
  std::map<std::string, kmlengine::KmlFilePtr> kf;
  std::map<std::string, kmlengine::KmzFilePtr> kz;
  void reset();
};
extern thread_local VM vm;  // each thread has registers of its own

struct OpReg {
  OpReg(const char* name, OpFn fn);
};
#define OP(name) \
  static void op_##name(const Args& a, Out& o); \
  static OpReg reg_##name(#name, op_##name); \
  static void op_##name(const Args& a, Out& o)

inline kmldom::ElementPtr E(const std::string& r) {
  std::map<std::string, kmldom::ElementPtr>::iterator i = vm.el.find(r);
  return i == vm.el.end() ? kmldom::ElementPtr() : i->second;
}
// Not affected by the locale which a case sets.
inline locale_t CLocale() { static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0); return c; }
inline std::string D(double d) {
  char b[64];
  locale_t was = uselocale(CLocale());
  snprintf(b, sizeof b, "%.17g", d);
  uselocale(was);
  return b;
}
inline double ToD(const std::string& s) { return strtod_l(s.c_str(), NULL, CLocale()); }
inline std::string I(long long v) { return std::to_string(v); }
inline std::string B(bool b) { return b ? "1" : "0"; }
// Keep element in register, result says whether there is one.
inline void Put(const std::string& r, const kmldom::ElementPtr& e, Out& o) {
  vm.el[r] = e;
  o.push_back(e ? "ok" : "null");
}
inline const std::string& At(const Args& a, size_t i) {
  static const std::string empty;
  return i < a.size() ? a[i] : empty;
}

// Reflection
struct Acc {
  char kind;
  const char* cls;
  void (*set)(kmldom::Element*, const std::string&);
  std::string (*get)(kmldom::Element*);
  bool (*has)(kmldom::Element*);
  void (*clear)(kmldom::Element*);
  void (*cset)(kmldom::Element*, const kmldom::ElementPtr&);
  kmldom::ElementPtr (*cget)(kmldom::Element*);
  size_t (*size)(kmldom::Element*);
  std::string (*at)(kmldom::Element*, size_t);
  kmldom::ElementPtr (*cat)(kmldom::Element*, size_t);
};
typedef std::map<std::string, const Acc*> AccMap;
// Accessors of the concrete type, by field name (declaration order in vec).
const AccMap& AccOf(int type);
const Acc* FindAcc(const kmldom::ElementPtr& e, const std::string& f);
const char* ClassName(int type);
kmldom::ElementPtr NewByClass(const std::string& cls);
// Structural dump through the public getters only.
void Dump(const kmldom::ElementPtr& e, std::string* out, bool ids);
#endif
