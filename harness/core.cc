#include <fcntl.h>
#include "vm.h"
#include <sstream>
#include <unistd.h>
#include <clocale>
#include <csignal>
#include <locale>
#include "kml/base/attributes.h"
#include "kml/base/string_util.h"
#include "kml/dom/kml_handler.h"
#include "kml/dom/parser.h"
#include "kml/dom/stats_serializer.h"
#include "kml/dom/xml_serializer.h"
#include "kml/dom/xsd.h"

using namespace kmldom;
using std::string;

thread_local VM vm;
static std::map<string, OpFn>& Ops() { static std::map<string, OpFn> m; return m; }
OpReg::OpReg(const char* n, OpFn f) { Ops()[n] = f; }
void ResetExtra();
void VM::reset() { el.clear(); kf.clear(); kz.clear(); ResetExtra(); }

static bool ReadN(void* p, size_t n) {
  char* c = static_cast<char*>(p);
  while (n) {
    ssize_t k = read(0, c, n);
    if (k <= 0) return false;
    c += k; n -= k;
  }
  return true;
}
static void WriteN(const void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  while (n) {
    ssize_t k = write(3, c, n);
    if (k <= 0) _exit(7);
    c += k; n -= k;
  }
}
static void PutU(string* s, uint32_t v) { s->append(reinterpret_cast<char*>(&v), 4); }

static void Exec(Args a, Out& o) {
  std::map<string, OpFn>::iterator it = Ops().find(a[0]);
  if (it == Ops().end()) { o.push_back("!noop"); o.push_back(a[0]); return; }
  a.erase(a.begin());
  it->second(a, o);
}

// Frame: u32 payload length; payload: u32 nops, {u32 nargs {u32 len bytes}*}*.
int main(int argc, char** argv) {
  signal(SIGPIPE, SIG_DFL);
  for (;;) {
    uint32_t len;
    if (!ReadN(&len, 4)) break;
    string buf(len, 0);
    if (!ReadN(&buf[0], len)) break;
    const char* p = buf.data();
    uint32_t nops; memcpy(&nops, p, 4); p += 4;
    string out;
    PutU(&out, nops);
    for (uint32_t i = 0; i < nops; ++i) {
      uint32_t na; memcpy(&na, p, 4); p += 4;
      Args a;
      for (uint32_t k = 0; k < na; ++k) {
        uint32_t l; memcpy(&l, p, 4); p += 4;
        a.push_back(string(p, l)); p += l;
      }
      Out o;
      Exec(a, o);
      PutU(&out, o.size());
      for (size_t k = 0; k < o.size(); ++k) { PutU(&out, o[k].size()); out += o[k]; }
    }
    uint32_t ol = out.size();
    WriteN(&ol, 4);
    WriteN(out.data(), ol);
  }
  vm.reset();
  return 0;
}

OP(reset) { vm.reset(); }
OP(ping) { o.push_back("pong"); }

OP(locale) {  // C locale, directory of locales
  if (a.size() > 1) setenv("LOCPATH", a[1].c_str(), 1);
  const char* r = setlocale(LC_ALL, a[0].c_str());
  o.push_back(r ? r : "");
}
void InstallLocale(const char* kind);  // locale.cc
OP(whichlocale) {  // how numbers look to a caller
  std::ostringstream s; s << std::boolalpha << 1234567 << " " << 1.5 << " " << true;
  char b[64]; snprintf(b, sizeof b, "%.1f", 1.5);
  o.push_back(s.str()); o.push_back(b); o.push_back(setlocale(LC_ALL, NULL)); o.push_back(I(uselocale((locale_t)0) == LC_GLOBAL_LOCALE));
}
OP(cpplocale) { InstallLocale(a[0].c_str()); }

OP(parse) {  // reg text mode
  string errors;
  ElementPtr e;
  const string& mode = At(a, 2);
  if (mode == "ns") e = ParseNS(a[1], &errors);
  else if (mode == "atom") e = ParseAtom(a[1], &errors);
  else if (mode == "kml") e = ParseKml(a[1]);
  else e = Parse(a[1], &errors);
  Put(a[0], e, o);
  o.push_back(errors);
}
OP(ser) {
  ElementPtr e = E(a[0]);
  o.push_back(a[1] == "pretty" ? SerializePretty(e) : SerializeRaw(e));
}
OP(ser2) {  // custom newline and indent through an ostream
  std::ostringstream os;
  XmlSerializer<std::ostringstream>::Serialize(E(a[0]), a[1].c_str(), a[2].c_str(), &os);
  o.push_back(os.str());
}
OP(dump) { string s; Dump(E(a[0]), &s, At(a, 1) != "noids"); o.push_back(s); }
OP(newel) { Put(a[0], NewByClass(a[1]), o); }
OP(newname) { Put(a[0], KmlFactory::GetFactory()->CreateElementFromName(a[1]), o); }
OP(set) { const Acc* c = FindAcc(E(a[0]), a[1]); if (!c) { o.push_back("!noacc"); return; } c->set(E(a[0]).get(), a[2]); }
OP(get) { const Acc* c = FindAcc(E(a[0]), a[1]); if (!c) { o.push_back("!noacc"); return; } o.push_back(c->get(E(a[0]).get())); }
OP(has) { const Acc* c = FindAcc(E(a[0]), a[1]); if (!c) { o.push_back("!noacc"); return; } o.push_back(B(c->has(E(a[0]).get()))); }
OP(clear) { const Acc* c = FindAcc(E(a[0]), a[1]); if (!c) { o.push_back("!noacc"); return; } c->clear(E(a[0]).get()); }
OP(cset) { const Acc* c = FindAcc(E(a[0]), a[1]); if (!c) { o.push_back("!noacc"); return; } c->cset(E(a[0]).get(), E(a[2])); }
OP(cget) { const Acc* c = FindAcc(E(a[0]), a[1]); if (!c) { o.push_back("!noacc"); return; } Put(a[2], c->cget(E(a[0]).get()), o); }
OP(size) { const Acc* c = FindAcc(E(a[0]), a[1]); if (!c) { o.push_back("!noacc"); return; } o.push_back(I(c->size(E(a[0]).get()))); }
OP(at) {  // value arrays
  const Acc* c = FindAcc(E(a[0]), a[1]); size_t i = atoi(a[2].c_str());
  if (!c || i >= c->size(E(a[0]).get())) { o.push_back("!range"); return; }
  o.push_back(c->at(E(a[0]).get(), i));
}
OP(cat) {
  const Acc* c = FindAcc(E(a[0]), a[1]); size_t i = atoi(a[2].c_str());
  if (!c || i >= c->size(E(a[0]).get())) { o.push_back("!range"); return; }
  Put(a[3], c->cat(E(a[0]).get(), i), o);
}
OP(all) {  // every has/get of the element: name,has,value triples
  ElementPtr e = E(a[0]);
  if (!e) return;
  const AccMap& m = AccOf(e->Type());
  for (AccMap::const_iterator i = m.begin(); i != m.end(); ++i) {
    const Acc& c = *i->second;
    o.push_back(i->first);
    switch (c.kind) {
      case 'C': o.push_back(B(c.has(e.get()))); o.push_back(B(c.cget(e.get()) != NULL)); break;
      case 'A': case 'S': case 'V': case 'I':
        o.push_back("#"); o.push_back(I(c.size(e.get()))); break;
      default: o.push_back(B(c.has(e.get()))); o.push_back(c.get(e.get()));
    }
  }
}
OP(fields) {  // class -> name,kind,declaring class
  ElementPtr e = NewByClass(a[0]);
  if (!e) return;
  const AccMap& m = AccOf(e->Type());
  for (AccMap::const_iterator i = m.begin(); i != m.end(); ++i) {
    o.push_back(i->first); o.push_back(string(1, i->second->kind)); o.push_back(i->second->cls);
  }
}
OP(copy) { Put(a[1], E(a[0]), o); }
OP(drop) { vm.el.erase(a[0]); }
OP(same) { o.push_back(B(E(a[0]) == E(a[1]))); }
OP(parent) { ElementPtr e = E(a[0]); Put(a[1], e ? e->GetParent() : ElementPtr(), o); }
OP(type) { ElementPtr e = E(a[0]); o.push_back(e ? ClassName(e->Type()) : ""); o.push_back(GetElementName(e)); }
OP(refs) { ElementPtr e = E(a[0]); o.push_back(I(e ? e->get_ref_count() - 1 : 0)); }
OP(clearcoords) { AsCoordinates(E(a[0]))->Clear(); }
OP(addlatlng) { AsCoordinates(E(a[0]))->add_latlng(ToD(a[1]), ToD(a[2])); }
OP(addlatlngalt) { AsCoordinates(E(a[0]))->add_latlngalt(ToD(a[1]), ToD(a[2]), ToD(a[3])); }
OP(setchardata) { E(a[0])->set_char_data(a[1]); }
OP(chardata) { o.push_back(E(a[0])->get_char_data()); }
OP(addelement) { E(a[0])->AddElement(E(a[1])); }
OP(addunknown) { E(a[0])->AddUnknownElement(a[1]); }
OP(unknown) {
  ElementPtr e = E(a[0]);
  for (size_t i = 0; i < e->get_unknown_elements_array_size(); ++i)
    o.push_back(e->get_unknown_elements_array_at(i));
}
OP(misplaced) {
  ElementPtr e = E(a[0]);
  for (size_t i = 0; i < e->get_misplaced_elements_array_size(); ++i)
    o.push_back(SerializeRaw(e->get_misplaced_elements_array_at(i)));
}
OP(unkattrs) {
  ElementPtr e = E(a[0]);
  if (const kmlbase::Attributes* t = e->GetUnknownAttributes())
    for (kmlbase::StringMapIterator it = t->CreateIterator(); !it.AtEnd(); it.Advance()) {
      o.push_back(it.Data().first); o.push_back(it.Data().second);
    }
}
OP(addattr) {  // unknown attribute through the API
  kmlbase::Attributes* t = new kmlbase::Attributes;
  for (size_t i = 1; i + 1 < a.size(); i += 2) t->SetValue(a[i], a[i + 1]);
  E(a[0])->AddUnknownAttributes(t);
}
OP(parseattrs) {
  kmlbase::StringVector v(a.begin() + 1, a.end());
  E(a[0])->ParseAttributes(kmlbase::Attributes::Create(v));
}
OP(delat) {  // reg what idx out
  ElementPtr e = E(a[0]), r; size_t i = strtoull(a[2].c_str(), NULL, 10);
  if (a[1] == "feature") r = AsContainer(e)->DeleteFeatureAt(i);
  else if (a[1] == "schema") r = AsDocument(e)->DeleteSchemaAt(i);
  else r = AsDocument(e)->DeleteStyleSelectorAt(i);
  Put(a[3], r, o);
}
OP(delid) { Put(a[2], AsContainer(E(a[0]))->DeleteFeatureById(a[1]), o); }
OP(stats) {
  StatsSerializer s;
  ElementPtr e = E(a[0]);
  if (e) e->Serialize(s);
  o.push_back(I(s.get_begin_count())); o.push_back(I(s.get_end_count()));
  o.push_back(I(s.get_field_count())); o.push_back(I(s.get_element_count()));
  o.push_back(I(s.get_element_group_count()));
}
OP(xsdname) { o.push_back(Xsd::GetSchema()->ElementName(atoi(a[0].c_str()))); }
OP(xsdid) { o.push_back(I(Xsd::GetSchema()->ElementId(a[0]))); }
OP(enumid) { o.push_back(I(Xsd::GetSchema()->EnumId(Xsd::GetSchema()->ElementId(a[0]), a[1]))); }
OP(enumval) { o.push_back(Xsd::GetSchema()->EnumValue(Xsd::GetSchema()->ElementId(a[0]), atoi(a[1].c_str()))); }
extern "C" __attribute__((weak)) size_t __sanitizer_get_current_allocated_bytes();
extern "C" __attribute__((weak)) int __lsan_do_recoverable_leak_check();
OP(heap) { o.push_back(I(__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0)); }
OP(leaks) { o.push_back(I(__lsan_do_recoverable_leak_check ? __lsan_do_recoverable_leak_check() : -1)); }
OP(fds) {  // open files of the process
  int n = 0;
  for (int i = 0; i < 4096; ++i) if (fcntl(i, F_GETFD) != -1) ++n;
  o.push_back(I(n));
}
OP(clearstate) { AsItemIcon(E(a[0]))->clear_state(); }

// ---- scripts in parallel threads ------------------------------------------
// args: rounds, jitter seed, {number of ops, {number of args, args...}...}...
// -> order of the op starts as "t.t.t", then per script and op of the last round: number of outputs, outputs;
// rounds whose outputs differ are marked.
#include <atomic>
#include <thread>
struct Script { std::vector<Args> ops; std::vector<Out> out; std::vector<uint32_t> when; bool differs; };
OP(threads) {
  size_t p = 2;
  int rounds = atoi(a[0].c_str());
  unsigned seed = strtoul(a[1].c_str(), NULL, 10);
  std::vector<Script> s;
  while (p < a.size()) {
    Script c; c.differs = false;
    size_t n = atoi(a[p++].c_str());
    while (n--) { size_t k = atoi(a[p++].c_str()); c.ops.push_back(Args(a.begin() + p, a.begin() + p + k)); p += k; }
    s.push_back(c);
  }
  ClassName(0);  // the tables of the harness
  // Relaxed operations only: the monitor must not order what the library does not.
  std::atomic<uint32_t> clock(0), ready(0);
  std::vector<std::thread> t;
  for (size_t i = 0; i < s.size(); ++i)
    t.push_back(std::thread([&, i]() {
      Script& c = s[i];
      unsigned r = seed * 2654435761u + i * 40503u + 1;
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < s.size()) {}
      for (int k = 0; k < rounds; ++k) {
        std::vector<Out> out(c.ops.size());
        for (size_t j = 0; j < c.ops.size(); ++j) {
          r = r * 1103515245u + 12345u;
          if (seed && (r >> 16) % 4 == 0) { if ((r >> 20) % 2) std::this_thread::yield(); else usleep((r >> 21) % 60); }
          c.when.push_back(clock.fetch_add(1, std::memory_order_relaxed));
          Exec(c.ops[j], out[j]);
        }
        if (k && out != c.out) c.differs = true;
        c.out.swap(out);
      }
      vm.reset();
    }));
  for (size_t i = 0; i < t.size(); ++i) t[i].join();
  string order(clock.load(), '?');
  for (size_t i = 0; i < s.size(); ++i)
    for (size_t j = 0; j < s[i].when.size(); ++j) order[s[i].when[j]] = '0' + i;
  o.push_back(order);
  for (size_t i = 0; i < s.size(); ++i) {
    o.push_back(B(s[i].differs));
    for (size_t j = 0; j < s[i].out.size(); ++j) {
      o.push_back(I(s[i].out[j].size()));
      o.insert(o.end(), s[i].out[j].begin(), s[i].out[j].end());
    }
  }
}

// ThreadSanitizer does not see what strftime writes: written here by code it does see.
#if defined(__SANITIZE_THREAD__)
#define VERIF_TSAN 1
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VERIF_TSAN 1
#endif
#endif
#ifdef VERIF_TSAN
#include <dlfcn.h>
extern "C" size_t strftime(char* s, size_t n, const char* f, const struct tm* t) {
  typedef size_t (*Fn)(char*, size_t, const char*, const struct tm*);
  Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "strftime"));
  std::vector<char> tmp(n + 1);
  size_t r = real(&tmp[0], n, f, t);
  if (n) for (size_t i = 0; i < n && i <= r; ++i) s[i] = i == r ? 0 : tmp[i];
  return r;
}
#endif
