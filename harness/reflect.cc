#include "vm.h"
#include "kml/base/attributes.h"
#include "kml/base/color32.h"
#include "kml/base/vec3.h"

using namespace kmldom;
using std::string;

namespace {
typedef std::map<string, std::map<string, Acc> > Table;
Table& T() { static Table t; return t; }
struct R { R(const char* c, const char* f, Acc a) { a.cls = c; T()[c][f] = a; } };
std::map<int, AccMap>& M() { static std::map<int, AccMap> m; return m; }
std::map<int, string>& N() { static std::map<int, string> m; return m; }
std::map<string, ElementPtr (*)()>& F() {
  static std::map<string, ElementPtr (*)()> m; return m; }

kmlbase::Vec3 V3(const string& v) {
  double d[3] = {0, 0, 0}; int n = 0; const char* p = v.c_str();
  while (n < 3 && *p) { char* e; d[n++] = strtod_l(p, &e, CLocale()); if (*e) ++e; p = e; }
  if (n < 3) return kmlbase::Vec3(d[0], d[1]);
  return kmlbase::Vec3(d[0], d[1], d[2]);
}
string S3(const kmlbase::Vec3& v) {
  return D(v.get_longitude()) + "," + D(v.get_latitude()) + "," +
      D(v.get_altitude()) + "," + B(v.has_altitude());
}
void AddV(Coordinates* c, const kmlbase::Vec3& v) { c->add_vec3(v); }
}

#define SIMPLE(C, f, K, SETX, GETX) \
  { Acc a; a.kind = K; \
    a.set = [](Element* e, const string& v) { C* p = static_cast<C*>(e); (void)v; p->set_##f(SETX); }; \
    a.get = [](Element* e) -> string { C* p = static_cast<C*>(e); return GETX; }; \
    a.has = [](Element* e) { return static_cast<C*>(e)->has_##f(); }; \
    a.clear = [](Element* e) { static_cast<C*>(e)->clear_##f(); }; \
    R(#C, #f, a); }
#define F_STR(C, f) SIMPLE(C, f, 's', v, p->get_##f())
#define F_BOOL(C, f) SIMPLE(C, f, 'b', v == "1", B(p->get_##f()))
#define F_DBL(C, f) SIMPLE(C, f, 'd', ToD(v), D(p->get_##f()))
#define F_INT(C, f) SIMPLE(C, f, 'i', atoi(v.c_str()), I(p->get_##f()))
#define F_COLOR(C, f) SIMPLE(C, f, 'c', \
    kmlbase::Color32((uint32_t)strtoul(v.c_str(), NULL, 16)), \
    p->get_##f().to_string_abgr())
#define F_CHILD(C, f, X) \
  { Acc a; a.kind = 'C'; \
    a.cset = [](Element* e, const ElementPtr& c) { \
      static_cast<C*>(e)->set_##f(boost::static_pointer_cast<X>(c)); }; \
    a.cget = [](Element* e) -> ElementPtr { return static_cast<C*>(e)->get_##f(); }; \
    a.has = [](Element* e) { return static_cast<C*>(e)->has_##f(); }; \
    a.clear = [](Element* e) { static_cast<C*>(e)->clear_##f(); }; \
    R(#C, #f, a); }
#define F_ARR(C, f, X) \
  { Acc a; a.kind = 'A'; \
    a.cset = [](Element* e, const ElementPtr& c) { \
      static_cast<C*>(e)->add_##f(boost::static_pointer_cast<X>(c)); }; \
    a.size = [](Element* e) { return static_cast<C*>(e)->get_##f##_array_size(); }; \
    a.cat = [](Element* e, size_t i) -> ElementPtr { \
      return static_cast<C*>(e)->get_##f##_array_at(i); }; \
    R(#C, #f, a); }
#define ARRV(C, f, K, ADD, GETX) \
  { Acc a; a.kind = K; \
    a.set = [](Element* e, const string& v) { C* p = static_cast<C*>(e); ADD; }; \
    a.size = [](Element* e) { return static_cast<C*>(e)->get_##f##_array_size(); }; \
    a.at = [](Element* e, size_t i) -> string { C* p = static_cast<C*>(e); return GETX; }; \
    R(#C, #f, a); }
#define F_SARR(C, f) ARRV(C, f, 'S', p->add_##f(v), p->get_##f##_array_at(i))
#define F_IARR(C, f) ARRV(C, f, 'I', p->add_##f(atoi(v.c_str())), I(p->get_##f##_array_at(i)))
#define F_VARR(C, f) ARRV(C, f, 'V', p->add_##f(V3(v)), S3(p->get_##f##_array_at(i)))

static void Build1() {
#define add_coordinates add_vec3
#include "fields.inc"
#undef add_coordinates
}
static void Build() {
  static bool done = false;
  if (done) return;
  done = true;
  Build1();
#define INHERIT(C, TYPE, FROM) \
  N()[TYPE] = #C; \
  F()[#C] = []() -> ElementPtr { return KmlFactory::GetFactory()->Create##C(); }; \
  for (std::map<string, Acc>::iterator i = T()[#FROM].begin(); i != T()[#FROM].end(); ++i) \
    if (!M()[TYPE].count(i->first)) M()[TYPE][i->first] = &i->second;
#include "inherit.inc"
}
const AccMap& AccOf(int type) {
  static const AccMap none;
  Build();
  std::map<int, AccMap>::iterator i = M().find(type);
  return i == M().end() ? none : i->second;
}
const Acc* FindAcc(const ElementPtr& e, const string& f) {
  if (!e) return NULL;
  const AccMap& m = AccOf(e->Type());
  AccMap::const_iterator i = m.find(f);
  return i == m.end() ? NULL : i->second;
}
const char* ClassName(int type) {
  Build();
  std::map<int, string>::iterator i = N().find(type);
  return i == N().end() ? "" : i->second.c_str();
}
ElementPtr NewByClass(const string& cls) {
  Build();
  if (!F().count(cls)) return NULL;
  return F()[cls]();
}

static string Esc(const string& s) {
  string r;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c < 32 || c == '\\' || c == '"') { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r;
}

void Dump(const ElementPtr& e, string* out, bool ids) {
  if (!e) { *out += "NULL"; return; }
  const char* cn = ClassName(e->Type());
  if (!*cn) {
    *out += "(Field " + GetElementName(e) + " \"" + Esc(e->get_char_data()) + "\")";
    return;
  }
  *out += string("(") + cn;
  const AccMap& m = AccOf(e->Type());
  for (AccMap::const_iterator i = m.begin(); i != m.end(); ++i) {
    const Acc& a = *i->second;
    Element* p = e.get();
    switch (a.kind) {
      case 'C':
        if (a.has(p)) { *out += " " + i->first + "="; Dump(a.cget(p), out, ids); }
        break;
      case 'A':
        for (size_t k = 0; k < a.size(p); ++k) {
          *out += " " + i->first + "+="; Dump(a.cat(p, k), out, ids);
        }
        break;
      case 'S': case 'V':
        for (size_t k = 0; k < a.size(p); ++k)
          *out += " " + i->first + "+=\"" + Esc(a.at(p, k)) + "\"";
        break;
      case 'I':
        if (static_cast<ItemIcon*>(p)->has_state())
          for (size_t k = 0; k < a.size(p); ++k) *out += " " + i->first + "+=" + a.at(p, k);
        break;
      default:
        if (!ids && (i->first == "id" || i->first == "targetid") && string(a.cls) == "Object") break;
        if (a.has(p)) *out += " " + i->first + "=\"" + Esc(a.get(p)) + "\"";
    }
  }
  if (const kmlbase::Attributes* at = e->GetUnknownAttributes()) {
    for (kmlbase::StringMapIterator it = at->CreateIterator(); !it.AtEnd(); it.Advance())
      *out += " @" + it.Data().first + "=\"" + Esc(it.Data().second) + "\"";
  }
  if (const kmlbase::Attributes* at = e->GetXmlns()) {
    for (kmlbase::StringMapIterator it = at->CreateIterator(); !it.AtEnd(); it.Advance())
      *out += " xmlns@" + it.Data().first + "=\"" + Esc(it.Data().second) + "\"";
  }
  for (size_t k = 0; k < e->get_unknown_elements_array_size(); ++k)
    *out += " unknown=\"" + Esc(e->get_unknown_elements_array_at(k)) + "\"";
  for (size_t k = 0; k < e->get_misplaced_elements_array_size(); ++k) {
    *out += " misplaced=";
    Dump(e->get_misplaced_elements_array_at(k), out, ids);
  }
  *out += ")";
}
