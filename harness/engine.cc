#include <memory>
#include "vm.h"
#include "kml/engine/shared_style_parser_observer.h"
#include "kml/engine/object_id_parser_observer.h"
#include <sstream>
#include <set>
#include "kml/base/attributes.h"
#include "kml/base/expat_parser.h"
#include "kml/base/net_cache.h"
#include "kml/base/memory_file.h"
#include "kml/base/string_util.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/dom/visitor.h"
#include "kml/dom/visitor_driver.h"
#include "kml/dom/xsd.h"
#include "kml/engine/bbox.h"
#include "kml/engine/clone.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/feature_balloon.h"
#include "kml/engine/feature_view.h"
#include "kml/engine/feature_visitor.h"
#include "kml/engine/find.h"
#include "kml/engine/find_xml_namespaces.h"
#include "kml/engine/get_link_parents.h"
#include "kml/engine/get_links.h"
#include "kml/engine/href.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kmz_cache.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/link_util.h"
#include "kml/engine/location_util.h"
#include "kml/engine/merge.h"
#include "kml/engine/parse_old_schema.h"
#include "kml/engine/schema_parser_observer.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_merger.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/style_splitter.h"
#include "kml/engine/update.h"
#include "kml/base/expat_parser.h"
#include "kml/dom/kml_handler.h"
#include <stdexcept>
#include <istream>

using namespace kmldom;
using namespace kmlengine;
using std::string;

static KmlFilePtr K(const string& r) { return vm.kf.count(r) ? vm.kf[r] : KmlFilePtr(); }
static KmzFilePtr Z(const string& r) { return vm.kz.count(r) ? vm.kz[r] : KmzFilePtr(); }

// ---- recorded network -----------------------------------------------------
struct RecFetcher : kmlbase::NetFetcher {
  std::map<string, string> net;
  mutable std::vector<string> log;
  virtual bool FetchUrl(const string& url, string* data) const {
    log.push_back(url);
    std::map<string, string>::const_iterator i = net.find(url);
    if (i == net.end()) return false;
    *data = i->second;
    return true;
  }
};
static thread_local std::unique_ptr<RecFetcher> g_net(new RecFetcher);
typedef kmlbase::NetCache<kmlbase::MemoryFile> MemCache;
static thread_local std::unique_ptr<MemCache> g_mem;
static thread_local std::unique_ptr<KmlCache> g_kml;
static thread_local std::unique_ptr<KmzCache> g_kmzc;
void ResetConv();
void ResetExtra() {
  ResetConv();
  g_mem.reset(); g_kml.reset(); g_kmzc.reset();
  g_net->net.clear(); g_net->log.clear();
}
OP(net) { g_net->net[a[0]] = a[1]; }
OP(netdel) { g_net->net.erase(a[0]); }
OP(netlog) { o = g_net->log; g_net->log.clear(); }
OP(cachenew) {
  size_t n = strtoull(a[1].c_str(), NULL, 10);
  if (a[0] == "mem") g_mem.reset(new MemCache(g_net.get(), n));
  else if (a[0] == "kml") g_kml.reset(new KmlCache(g_net.get(), n));
  else g_kmzc.reset(new KmzCache(g_net.get(), n));
}
OP(memfetch) { kmlbase::MemoryFilePtr m = g_mem->Fetch(a[0]); o.push_back(m ? "ok" : "null"); if (m) o.push_back(m->get_content()); }
OP(memlookup) { kmlbase::MemoryFilePtr m = g_mem->LookUp(a[0]); o.push_back(m ? "ok" : "null"); if (m) o.push_back(m->get_content()); }
OP(memsave) { o.push_back(B(g_mem->Save(a[0], kmlbase::MemoryFile::CreateFromString(a[1])))); }
OP(memdelete) { o.push_back(B(g_mem->Delete(a[0]))); }
OP(memoldest) { o.push_back(B(g_mem->RemoveOldest())); }
OP(memsize) { o.push_back(I(g_mem->Size())); }
OP(kmlfetchabs) { KmlFilePtr k = g_kml->FetchKmlAbsolute(a[0]); vm.kf[a[1]] = k; o.push_back(k ? "ok" : "null"); if (k) o.push_back(k->get_url()); }
OP(kmlfetchrel) { KmlFilePtr k = g_kml->FetchKmlRelative(a[0], a[1]); vm.kf[a[2]] = k; o.push_back(k ? "ok" : "null"); if (k) o.push_back(k->get_url()); }
OP(datafetchrel) { string s; bool r = g_kml->FetchDataRelative(a[0], a[1], &s); o.push_back(B(r)); o.push_back(s); }
OP(kfcache) {  // a KmlFile attached to the kml cache
  KmlFilePtr k = KmlFile::CreateFromStringWithUrl(a[1], a[2], g_kml.get());
  vm.kf[a[0]] = k; o.push_back(k ? "ok" : "null");
}
OP(fetchlink) {
  KmlFilePtr k = FetchLink(K(a[0]), AsNetworkLink(E(a[1]))); vm.kf[a[2]] = k;
  o.push_back(k ? "ok" : "null"); if (k) o.push_back(k->get_url());
}
OP(fetchicon) { string s; bool r = FetchIcon(K(a[0]), AsOverlay(E(a[1])), &s); o.push_back(B(r)); o.push_back(s); }

// ---- dom level ------------------------------------------------------------
OP(clone) { Put(a[1], Clone(E(a[0])), o); }
OP(mergefields) { MergeFields(E(a[0]), E(a[1])); }
OP(mergeelements) { MergeElements(E(a[0]), E(a[1])); }
OP(childelements) {  // names, in order
  ElementVector v; int n = GetChildElements(E(a[0]), a[1] == "1", &v);
  o.push_back(I(n));
  for (size_t i = 0; i < v.size(); ++i) o.push_back(GetElementName(v[i]));
}
static KmlDomType TypeOf(const std::string& n) {
#define AB(x) if (n == #x) return kmldom::Type_##x;
  AB(ColorStyle) AB(Container) AB(Feature) AB(Geometry) AB(AbstractLatLonBox) AB(Object) AB(Overlay) AB(StyleSelector)
  AB(SubStyle) AB(TimePrimitive) AB(AbstractView) AB(BasicLink) AB(Vec2)
#undef AB
  return static_cast<KmlDomType>(Xsd::GetSchema()->ElementId(n));
}
OP(findtype) {  // root name -> serialised matches
  ElementVector v;
  GetElementsById(E(a[0]), TypeOf(a[1]), &v);
  for (size_t i = 0; i < v.size(); ++i) o.push_back(SerializeRaw(v[i]));
}
OP(findns) {
  kmlbase::Attributes t; FindXmlNamespaces(E(a[0]), &t);
  for (kmlbase::StringMapIterator it = t.CreateIterator(); !it.AtEnd(); it.Advance()) {
    o.push_back(it.Data().first); o.push_back(it.Data().second);
  }
}
OP(insertns) { FindAndInsertXmlNamespaces(E(a[0])); }
OP(mapids) {  // -> sorted id,serialised ; dups
  ObjectIdMap m; ElementVector dup;
  MapIds(E(a[0]), &m, At(a, 1) == "1" ? &dup : NULL);
  for (ObjectIdMap::iterator i = m.begin(); i != m.end(); ++i) { o.push_back(i->first); o.push_back(SerializeRaw(i->second)); }
  o.push_back("--");
  for (size_t i = 0; i < dup.size(); ++i) o.push_back(SerializeRaw(dup[i]));
}
OP(clearids) { ClearIds(E(a[0])); }
OP(remapids) {  // el, from,to... -> count ids
  ObjectIdMap m, out; MapIds(E(a[0]), &m, NULL);
  kmlbase::StringMap sm;
  for (size_t i = 1; i + 1 < a.size(); i += 2) sm[a[i]] = a[i + 1];
  o.push_back(I(RemapIds(m, sm, &out)));
  for (ObjectIdMap::iterator i = out.begin(); i != out.end(); ++i) { o.push_back(i->first); o.push_back(i->second->get_id()); }
}
struct FV : FeatureVisitor {
  Out* o;
  virtual void VisitFeature(const FeaturePtr& f) { o->push_back(SerializeRaw(f)); }
};
OP(rootfeature) { Put(a[1], GetRootFeature(E(a[0])), o); }
OP(visitfeatures) { FV v; v.o = &o; VisitFeatureHierarchy(AsFeature(E(a[0])), v); }

struct RecVisitor : Visitor {
  Out* o; bool all;
  virtual void VisitElement(const ElementPtr& e) { o->push_back(GetElementName(e)); }
};
OP(visit) {  // reg pre|post
  RecVisitor v; v.o = &o;
  if (a[1] == "pre") { SimplePreorderDriver d(&v); d.Visit(E(a[0])); }
  else { SimplePostorderDriver d(&v); d.Visit(E(a[0])); }
}

// ---- observers ------------------------------------------------------------
struct RecObserver : ParserObserver {
  std::map<const Element*, int> ids; std::vector<ElementPtr> hold;
  Out* o; long fail_at; long n; string who;
  std::set<string> veto;  // AddChild/EndElement refused for these child names
  bool eltveto;
  RecObserver() : o(NULL), fail_at(-1), n(0), eltveto(false) {}
  string Id(const ElementPtr& e) {
    if (!e) return "-";
    std::map<const Element*, int>::iterator i = ids.find(e.get());
    if (i == ids.end()) { int k = ids.size(); ids[e.get()] = k; hold.push_back(e); return I(k); }
    return I(i->second);
  }
  void Again() { ids.clear(); hold.clear(); n = 0; }
  bool Step() { return n++ != fail_at; }
  virtual bool NewElement(const ElementPtr& e) {
    string c; o->push_back(who + "N " + Id(e) + " " + GetElementName(e)); return Step();
  }
  virtual bool EndElement(const ElementPtr& p, const ElementPtr& e) {
    o->push_back(who + "E " + Id(p) + " " + Id(e) + " " + GetElementName(e));
    bool r = Step();
    return r && !veto.count(GetElementName(e));
  }
  virtual bool AddChild(const ElementPtr& p, const ElementPtr& e) {
    o->push_back(who + "A " + Id(p) + " " + Id(e) + " " + GetElementName(e)); return Step();
  }
};
static void Veto(RecObserver* r, const Args& a, size_t from) {
  for (size_t i = from; i < a.size(); ++i) r->veto.insert(a[i]);
}
OP(observe) {  // reg text mode(ns|plain) nobs[@which] fail_at veto...
  Parser p; int nobs = atoi(a[3].c_str()); size_t at = a[3].find('@'); int which = at == string::npos ? 0 : atoi(a[3].c_str() + at + 1);
  std::vector<std::unique_ptr<RecObserver> > obs; Out ev;
  for (int i = 0; i < nobs; ++i) {
    obs.push_back(std::unique_ptr<RecObserver>(new RecObserver));
    obs.back()->o = &ev; obs.back()->who = nobs > 1 ? I(i) + ":" : "";
    if (i == which) { obs.back()->fail_at = atol(a[4].c_str()); Veto(obs.back().get(), a, 5); }
    p.AddObserver(obs.back().get());
  }
  string err;
  ElementPtr e = a[2] == "ns" ? p.ParseNS(a[1], &err) : p.Parse(a[1], &err);
  Put(a[0], e, o); o.push_back(err);
  o.insert(o.end(), ev.begin(), ev.end());
}
OP(reparse) {  // mode(ns|plain|atom) text... : one parser and its observer, text after text
  Parser p; RecObserver ob; p.AddObserver(&ob);
  for (size_t i = 1; i < a.size(); ++i) {
    Out ev; ob.o = &ev; ob.Again();
    string err;
    ElementPtr e = a[0] == "ns" ? p.ParseNS(a[i], &err) : a[0] == "atom" ? p.ParseAtom(a[i], &err) : p.Parse(a[i], &err);
    o.push_back(e ? "ok" : "null"); o.push_back(err); o.push_back(e ? SerializeRaw(e) : string());
    o.push_back(I(ev.size())); o.insert(o.end(), ev.begin(), ev.end());
  }
}
// A stream which breaks after n bytes.
struct BreakBuf : std::streambuf {
  string data; bool done;
  BreakBuf(const string& d, size_t n) : data(d.substr(0, n)), done(false) {}
  virtual int_type underflow() {
    if (done || data.empty()) throw std::runtime_error("broken stream");
    done = true;
    setg(&data[0], &data[0], &data[0] + data.size());
    return traits_type::to_int_type(data[0]);
  }
};
OP(chunks) {  // reg text size... (repeated) : the incremental parser
  parser_observer_vector_t none;
  KmlHandler h(none);
  kmlbase::ExpatParser p(&h, false);
  string err; size_t at = 0, k = 2; bool ok = true;
  do {
    size_t n = a.size() > 2 ? strtoull(a[k].c_str(), NULL, 10) : 4096;
    if (++k >= a.size()) k = 2;
    n = std::min(n, a[1].size() - at);
    ok = p.ParseBuffer(a[1].substr(at, n), &err, at + n == a[1].size());
    at += n;
  } while (ok && at < a[1].size());
  Put(a[0], ok ? h.PopRoot() : ElementPtr(), o);
  o.push_back(err);
}
OP(stream) {  // reg text state(good|fail|null|n) fail_at veto...
  BreakBuf bb(a[1], strtoull(a[2].c_str(), NULL, 10));
  std::istringstream good(a[1]);
  std::istream bad(&bb);
  std::istream& is = isdigit(a[2][0]) ? bad : good;
  if (a[2] == "fail") is.setstate(std::ios::failbit);
  RecObserver ob; Out ev; ob.o = &ev; ob.fail_at = atol(a[3].c_str()); Veto(&ob, a, 4);
  string err;
  boost::intrusive_ptr<KmlStream> ks = KmlStream::ParseFromIstream(a[2] == "null" ? NULL : &is, &err, a[3] == "none" ? NULL : &ob);
  Put(a[0], ks ? ks->get_root() : ElementPtr(), o);
  o.push_back(ks ? "stream" : "nostream");
  o.push_back(err);
  o.insert(o.end(), ev.begin(), ev.end());
}
OP(elcount) { Parser p; RecObserver ob; Out ev; ob.o = &ev; p.AddObserver(&ob); string e; p.Parse(a[0], &e); o.push_back(I(ev.size())); }

// ---- KmlFile --------------------------------------------------------------
OP(kfparse) { string err; KmlFilePtr k = KmlFile::CreateFromParse(a[1], &err); vm.kf[a[0]] = k; o.push_back(k ? "ok" : "null"); o.push_back(err); }
OP(kfstring) { KmlFilePtr k = KmlFile::CreateFromString(a[1]); vm.kf[a[0]] = k; o.push_back(k ? "ok" : "null"); }
OP(kfurl) { KmlFilePtr k = KmlFile::CreateFromStringWithUrl(a[1], a[2], NULL); vm.kf[a[0]] = k; o.push_back(k ? "ok" : "null"); if (k) o.push_back(k->get_url()); }
OP(kfimport) { KmlFilePtr k = a[2] == "lax" ? KmlFile::CreateFromImportLax(E(a[1])) : KmlFile::CreateFromImport(E(a[1])); vm.kf[a[0]] = k; o.push_back(k ? "ok" : "null"); }
OP(kfroot) { KmlFilePtr k = K(a[0]); Put(a[1], k ? k->get_root() : ElementPtr(), o); }
OP(kfser) { string s; if (!K(a[0])) { o.push_back("0"); o.push_back(""); return; } bool r = K(a[0])->SerializeToString(&s); o.push_back(B(r)); o.push_back(s); }
OP(kfserstream) { std::ostringstream os; bool r = K(a[0])->SerializeToOstream(&os); o.push_back(B(r)); o.push_back(os.str()); }
OP(kfenc) { if (a.size() > 1) K(a[0])->set_encoding(a[1]); o.push_back(K(a[0])->get_encoding()); o.push_back(K(a[0])->CreateXmlHeader()); }
OP(strictparse) {  // text, strict ids, strict styles -> parsed, ids, shared styles
  ObjectIdMap m; SharedStyleMap sm; ObjectIdParserObserver x(&m, a[1] == "1"); SharedStyleParserObserver y(&sm, a[2] == "1");
  kmldom::Parser p; p.AddObserver(&x); p.AddObserver(&y); string err; ElementPtr e = p.Parse(a[0], &err);
  o.push_back(e ? "ok" : "null"); o.push_back(I(m.size()));
  for (ObjectIdMap::const_iterator i = m.begin(); i != m.end(); ++i) { o.push_back(i->first); o.push_back(SerializeRaw(i->second)); }
  for (SharedStyleMap::const_iterator i = sm.begin(); i != sm.end(); ++i) { o.push_back(i->first); o.push_back(SerializeRaw(i->second)); }
}
OP(kfobj) { Put(a[2], K(a[0])->GetObjectById(a[1]), o); }
OP(kfstyle) { Put(a[2], K(a[0])->GetSharedStyleById(a[1]), o); }
OP(kfstyles) {
  const SharedStyleMap& m = K(a[0])->get_shared_style_map();
  for (SharedStyleMap::const_iterator i = m.begin(); i != m.end(); ++i) { o.push_back(i->first); o.push_back(SerializeRaw(i->second)); }
}
OP(kflinks) { const ElementVector& v = K(a[0])->get_link_parent_vector(); for (size_t i = 0; i < v.size(); ++i) o.push_back(SerializeRaw(v[i])); }
OP(kfdrop) { vm.kf.erase(a[0]); }

// ---- styles ---------------------------------------------------------------
OP(resolve) { Put(a[3], CreateResolvedStyle(AsFeature(E(a[1])), K(a[0]), static_cast<StyleStateEnum>(atoi(a[2].c_str()))), o); }
OP(resolve2) {  // kf styleurl styleselector state out
  Put(a[4], StyleResolver::CreateResolvedStyle(a[1], AsStyleSelector(E(a[2])), K(a[0])->get_shared_style_map(), K(a[0])->get_url(), K(a[0])->get_kml_cache(), static_cast<StyleStateEnum>(atoi(a[3].c_str()))), o);
}
OP(merger) {  // kf limit(- = from the file) styleurl styleselector state out
  StyleStateEnum st = static_cast<StyleStateEnum>(atoi(a[4].c_str()));
  StyleSelectorPtr sel = a[3].empty() ? NULL : AsStyleSelector(E(a[3]));
  std::unique_ptr<StyleMerger> m(a[1] == "-" ? StyleMerger::CreateFromKmlFile(*K(a[0]), st)
      : new StyleMerger(K(a[0])->get_shared_style_map(), K(a[0])->get_kml_cache(), K(a[0])->get_url(), st, atoi(a[1].c_str())));
  m->MergeStyle(a[2], sel);
  Put(a[5], m->GetResolvedStyle(), o);
  o.push_back(B(m->get_nesting_depth() < 0));
}
OP(resolvesel) { Put(a[2], StyleResolver::CreateResolvedStyleSelector(a[1], K(a[0])->get_shared_style_map()), o); }
OP(inlinestyles) { string e; Put(a[0], InlineStyles(a[1], &e), o); o.push_back(e); }
OP(splitstyles) { string e; Put(a[0], SplitStyles(a[1], &e), o); o.push_back(e); }

// ---- update ---------------------------------------------------------------
OP(update) {
  if (a.size() > 2) {
    kmlbase::StringMap m;
    for (size_t i = 2; i + 1 < a.size(); i += 2) m[a[i]] = a[i + 1];   // an odd one: an empty map
    ProcessUpdateWithIdMap(AsUpdate(E(a[0])), &m, K(a[1]));
  } else ProcessUpdate(AsUpdate(E(a[0])), K(a[1]));
}
OP(copyfeatures) { CopyFeatures(AsContainer(E(a[0])), AsContainer(E(a[1]))); }

// ---- kmz ------------------------------------------------------------------
OP(kzopen) { KmzFilePtr z = KmzFile::OpenFromString(a[1]); vm.kz[a[0]] = z; o.push_back(z ? "ok" : "null"); }
OP(kzopenfile) { KmzFilePtr z = KmzFile::OpenFromFile(a[1].c_str()); vm.kz[a[0]] = z; o.push_back(z ? "ok" : "null"); }
OP(kzcreate) { KmzFilePtr z = KmzFile::Create(a[1].c_str()); vm.kz[a[0]] = z; o.push_back(z ? "ok" : "null"); }
OP(kzmax) { if (a.size() > 1) Z(a[0])->set_max_uncompressed_file_size(strtoul(a[1].c_str(), NULL, 10)); o.push_back(I(Z(a[0])->get_max_uncompressed_file_size())); }
OP(kziskmz) { o.push_back(B(KmzFile::IsKmz(a[0]))); }
OP(kzreadkml) { string s, p; bool r = Z(a[0])->ReadKmlAndGetPath(&s, &p); o.push_back(B(r)); o.push_back(s); o.push_back(p); string s2; bool r2 = Z(a[0])->ReadKml(&s2); o.push_back(B(r2)); o.push_back(s2); }
OP(kzread) { string s; bool r = Z(a[0])->ReadFile(a[1].c_str(), &s); o.push_back(B(r)); o.push_back(s); }
OP(kzlist) { std::vector<string> v; bool r = Z(a[0])->List(&v); o.push_back(B(r)); o.insert(o.end(), v.begin(), v.end()); }
OP(kzsave) { string s; bool r = Z(a[0])->SaveToString(&s); o.push_back(B(r)); o.push_back(s); }
OP(kzadd) { o.push_back(B(Z(a[0])->AddFile(a[1], a[2]))); }
OP(kzaddlist) { kmlbase::StringVector v(a.begin() + 2, a.end()); o.push_back(I(Z(a[0])->AddFileList(a[1], v))); }
OP(kzdrop) { vm.kz.erase(a[0]); }
OP(kzwrite) { o.push_back(B(KmzFile::WriteKmz(a[0].c_str(), a[1]))); }
OP(kzfrompath) { o.push_back(B(KmzFile::CreateFromKmlFilepath(a[0], a[1]))); }
OP(kzfromel) { o.push_back(B(KmzFile::CreateFromElement(E(a[0]), a[1], a[2]))); }
OP(kzfromkf) { o.push_back(B(KmzFile::CreateFromKmlFile(K(a[0]), a[1]))); }

// ---- links and uris ---------------------------------------------------------
OP(getlinks) { href_vector_t v; bool r = GetLinks(a[0], &v); o.push_back(B(r)); o.insert(o.end(), v.begin(), v.end()); }
OP(getrellinks) { href_vector_t v; bool r = GetRelativeLinks(a[0], &v); o.push_back(B(r)); o.insert(o.end(), v.begin(), v.end()); }
OP(getlinkparents) { ElementVector v; bool r = GetLinkParents(a[0], &v); o.push_back(B(r)); for (size_t i = 0; i < v.size(); ++i) o.push_back(SerializeRaw(v[i])); }
OP(uriresolve) { string s; bool r = ResolveUri(a[0], a[1], &s); o.push_back(B(r)); o.push_back(s); }
OP(urinorm) { string s; bool r = NormalizeUri(a[0], &s); o.push_back(B(r)); o.push_back(s); }
OP(hrefnorm) { string s; bool r = NormalizeHref(a[0], &s); o.push_back(B(r)); o.push_back(s); }
OP(uri2file) { string s; bool r = UriToFilename(a[0], &s); o.push_back(B(r)); o.push_back(s); }
OP(file2uri) { string s; bool r = FilenameToUri(a[0], &s); o.push_back(B(r)); o.push_back(s); }
OP(urisplit) {
  string v[6]; bool r = SplitUri(a[0], &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
  o.push_back(B(r)); o.insert(o.end(), v, v + 6);
}
OP(urifrag) { string s; bool r = SplitUriFragment(a[0], &s); o.push_back(B(r)); o.push_back(s); }
OP(uripath) { string s; bool r = SplitUriPath(a[0], &s); o.push_back(B(r)); o.push_back(s); }
OP(urifetch) { string s; bool r = GetFetchableUri(a[0], &s); o.push_back(B(r)); o.push_back(s); }
OP(kmzsplit) { string s, t; bool r = KmzSplit(a[0], &s, &t); o.push_back(B(r)); o.push_back(s); o.push_back(t); }
OP(modelhref) { string s; bool r = ResolveModelTargetHref(a[0], a[1], a[2], &s); o.push_back(B(r)); o.push_back(s); }
OP(href) {
  Href h(a[0]);
  o.push_back(h.get_scheme()); o.push_back(h.get_net_loc()); o.push_back(h.get_path()); o.push_back(h.get_fragment());
  o.push_back(B(h.IsRelative())); o.push_back(B(h.IsRelativePath())); o.push_back(B(h.IsFragmentOnly()));
}

OP(hrefset) {  // href (s|n|p|f|S|N|P|F value)*: set or clear parts
  Href h(a[0]);
  for (size_t i = 1; i + 1 < a.size(); i += 2) switch (a[i][0]) {
    case 's': h.set_scheme(a[i + 1]); break;
    case 'n': h.set_net_loc(a[i + 1]); break;
    case 'p': h.set_path(a[i + 1]); break;
    case 'f': h.set_fragment(a[i + 1]); break;
    case 'S': h.clear_scheme(); break;
    case 'N': h.clear_net_loc(); break;
    case 'P': h.clear_path(); break;
    case 'F': h.clear_fragment(); break;
  }
  o.push_back(h.get_scheme()); o.push_back(h.get_net_loc()); o.push_back(h.get_path()); o.push_back(h.get_fragment());
  o.push_back(B(h.IsRelative())); o.push_back(B(h.IsRelativePath())); o.push_back(B(h.IsFragmentOnly()));
  o.push_back(B(h.has_scheme()) + B(h.has_net_loc()) + B(h.has_path()) + B(h.has_fragment()));
}

// ---- balloons -------------------------------------------------------------
OP(balloon) { o.push_back(CreateBalloonText(K(a[0]), AsFeature(E(a[1])))); }
OP(entities) {
  kmlbase::StringMap m; kmlbase::StringPairVector alt;
  EntityMapper em(K(a[0]), &m, &alt); em.GetEntityFields(AsFeature(E(a[1])));
  for (kmlbase::StringMap::iterator i = m.begin(); i != m.end(); ++i) { o.push_back(i->first); o.push_back(i->second); }
  o.push_back("--");
  for (size_t i = 0; i < alt.size(); ++i) { o.push_back(alt[i].first); o.push_back(alt[i].second); }
}
OP(expand) { kmlbase::StringMap m; for (size_t i = 1; i + 1 < a.size(); i += 2) m[a[i]] = a[i + 1]; o.push_back(CreateExpandedEntities(a[0], m)); }

// ---- geometry ---------------------------------------------------------------
static void PutBbox(const Bbox& b, Out& o) {
  o.push_back(D(b.get_north())); o.push_back(D(b.get_south())); o.push_back(D(b.get_east())); o.push_back(D(b.get_west()));
  double la, lo; b.GetCenter(&la, &lo); o.push_back(D(la)); o.push_back(D(lo));
}
OP(bounds) {  // reg -> ok n s e w clat clon ; for feature/geometry/coordinates
  ElementPtr e = E(a[0]); Bbox b; bool r = false;
  if (FeaturePtr f = AsFeature(e)) r = GetFeatureBounds(f, &b);
  else if (GeometryPtr g = AsGeometry(e)) r = GetGeometryBounds(g, &b);
  else if (CoordinatesPtr c = AsCoordinates(e)) r = GetCoordinatesBounds(c, &b);
  o.push_back(B(r)); PutBbox(b, o);
}
OP(latlon) {
  ElementPtr e = E(a[0]); double la = 0, lo = 0; bool r = false;
  if (FeaturePtr f = AsFeature(e)) r = GetFeatureLatLon(f, &la, &lo);
  else if (GeometryPtr g = AsGeometry(e)) r = GetGeometryLatLon(g, &la, &lo);
  o.push_back(B(r)); o.push_back(D(la)); o.push_back(D(lo));
}
OP(latlon2) {  // reg lat lon -> by the functions of the kind, without outputs, one output at a time, into a box already expanded
  ElementPtr e = E(a[0]); double la = 0, lo = 0, la1 = 0, lo1 = 0; bool r = false;
  FeaturePtr f = AsFeature(e); GeometryPtr g = AsGeometry(e);
  if (PlacemarkPtr p = AsPlacemark(e)) r = GetPlacemarkLatLon(p, &la, &lo);
  else if (PointPtr p = AsPoint(e)) r = GetPointLatLon(p, &la, &lo);
  else if (ModelPtr p = AsModel(e)) r = GetModelLatLon(p, &la, &lo);
  else if (f) r = GetFeatureLatLon(f, &la, &lo);
  else r = GetGeometryLatLon(g, &la, &lo);
  o.push_back(B(r)); o.push_back(D(la)); o.push_back(D(lo));
  bool n = f ? GetFeatureLatLon(f, NULL, &lo1) && GetFeatureLatLon(f, &la1, NULL) && GetFeatureBounds(f, NULL)
             : GetGeometryLatLon(g, NULL, &lo1) && GetGeometryLatLon(g, &la1, NULL) && GetGeometryBounds(g, NULL);
  if (PlacemarkPtr p = AsPlacemark(e)) n = n && GetPlacemarkLatLon(p, NULL, NULL);
  if (PointPtr p = AsPoint(e)) n = n && GetPointLatLon(p, NULL, NULL);
  if (ModelPtr p = AsModel(e)) n = n && GetModelLatLon(p, NULL, NULL) && GetModelBounds(p, NULL);
  o.push_back(B(n)); o.push_back(D(la1)); o.push_back(D(lo1));
  Bbox b; b.ExpandLatLon(ToD(a[1]), ToD(a[2]));
  bool m = f ? GetFeatureBounds(f, &b) : GetGeometryBounds(g, &b);
  o.push_back(B(m)); PutBbox(b, o);
}
OP(boxcenter) { double la, lo; kmlengine::GetCenter(AsAbstractLatLonBox(E(a[0])), &la, &lo); o.push_back(D(la)); o.push_back(D(lo)); }
OP(lookat) { Put(a[1], ComputeFeatureLookAt(AsFeature(E(a[0]))), o); }
OP(bboxlookat) { Put(a[4], ComputeBboxLookAt(Bbox(ToD(a[0]), ToD(a[1]), ToD(a[2]), ToD(a[3]))), o); }
OP(bbox) {  // sequence of commands on a bbox: exp lat lon | has lat lon | box n s e w | in n s e w | align n s e w depth
  Bbox b; size_t i = 0;
  while (i < a.size()) {
    const string& c = a[i++];
    if (c == "exp") { b.ExpandLatLon(ToD(a[i]), ToD(a[i + 1])); i += 2; }
    else if (c == "has") { o.push_back(B(b.Contains(ToD(a[i]), ToD(a[i + 1])))); i += 2; }
    else if (c == "box") { b.ExpandFromBbox(Bbox(ToD(a[i]), ToD(a[i + 1]), ToD(a[i + 2]), ToD(a[i + 3]))); i += 4; }
    else if (c == "in") { o.push_back(B(b.ContainedByBbox(Bbox(ToD(a[i]), ToD(a[i + 1]), ToD(a[i + 2]), ToD(a[i + 3]))))); i += 4; }
    else if (c == "align") { Bbox q(ToD(a[i]), ToD(a[i + 1]), ToD(a[i + 2]), ToD(a[i + 3])); b.AlignBbox(&q, atoi(a[i + 4].c_str())); i += 5; PutBbox(q, o); }
    else if (c == "get") PutBbox(b, o);
  }
}

// ---- old schema -----------------------------------------------------------
OP(convertold) {  // xml, (schema names...)
  Parser p; SchemaNameMap m; SchemaParserObserver so(&m); p.AddObserver(&so);
  string err; ElementPtr root = p.Parse(a[1], &err);
  string out; bool r = ConvertOldSchema(a[0], m, &out); o.push_back(B(r)); o.push_back(out);
}
OP(parseold) {
  Parser p; SchemaNameMap m; SchemaParserObserver so(&m); p.AddObserver(&so);
  string err; ElementPtr root = p.Parse(a[1], &err);
  Put(a[2], ParseOldSchema(a[0], m, &err), o); o.push_back(err);
}
