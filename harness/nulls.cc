// Every function with an optional output, called with the output and without
// it, and every function that appends, called on a vector that is not empty.
// Each observation is a triple: name, what is promised, what happened.
#include "vm.h"
#include <sstream>
#include <algorithm>
#include "kml/base/attributes.h"
#include "kml/base/file.h"
#include "kml/base/string_util.h"
#include "kml/base/uri_parser.h"
#include "kml/base/xml_namespaces.h"
#include "kml/base/zip_file.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/http_client.h"
#include "kml/dom/parser.h"
#include "kml/engine/bbox.h"
#include "kml/engine/clone.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/find.h"
#include "kml/engine/find_xml_namespaces.h"
#include "kml/engine/get_link_parents.h"
#include "kml/engine/get_links.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/link_util.h"
#include "kml/engine/merge.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/update.h"
using namespace kmldom;
using namespace kmlengine;
using kmlbase::UriParser;
using std::string;

#define T(name, want, got) (o.push_back(name), o.push_back(want), o.push_back(got))

OP(nullsuri) {  // uri base filename
  const string &u = a[0], &b = a[1], &f = a[2];
  string v[6];
  bool r = SplitUri(u, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
  for (int m = 0; m < 64; ++m) {  // every choice of outputs
    string w[6], want, got;
    bool q = SplitUri(u, m & 1 ? &w[0] : NULL, m & 2 ? &w[1] : NULL, m & 4 ? &w[2] : NULL, m & 8 ? &w[3] : NULL, m & 16 ? &w[4] : NULL, m & 32 ? &w[5] : NULL);
    want = B(r); got = B(q);
    for (int k = 0; k < 6; ++k) if (m >> k & 1) { want += "|" + v[k]; got += "|" + w[k]; }
    if (want != got || m % 21 == 0) T("SplitUri " + I(m), want, got);
  }
  string s, t, d;
  r = SplitUriFragment(u, &s); T("SplitUriFragment", B(r), B(SplitUriFragment(u, NULL)));
  r = SplitUriPath(u, &s); T("SplitUriPath", B(r), B(SplitUriPath(u, NULL)));
  r = GetFetchableUri(u, &s); T("GetFetchableUri", B(r), B(GetFetchableUri(u, NULL)));
  s = t = ""; r = KmzSplit(u, &s, &t); d = ""; bool q = KmzSplit(u, &d, NULL); T("KmzSplit url", B(r) + s, B(q) + d);
  d = ""; q = KmzSplit(u, NULL, &d); T("KmzSplit path", B(r) + t, B(q) + d); T("KmzSplit", B(r), B(KmzSplit(u, NULL, NULL)));
  T("ResolveUri", "0", B(ResolveUri(b, u, NULL)));
  T("NormalizeUri", "0", B(NormalizeUri(u, NULL)));
  T("NormalizeHref", "0", B(NormalizeHref(u, NULL)));
  T("ResolveModelTargetHref", "0", B(ResolveModelTargetHref(b, u, u, NULL)));
  T("UriToFilename", "0", B(kmlengine::UriToFilename(u, NULL)));
  T("FilenameToUri", "0", B(kmlengine::FilenameToUri(f, NULL)));
  T("UriToUnixFilename", "0", B(UriParser::UriToUnixFilename(u, NULL)));
  T("UriToWindowsFilename", "0", B(UriParser::UriToWindowsFilename(u, NULL)));
  T("UnixFilenameToUri", "0", B(UriParser::UnixFilenameToUri(f, NULL)));
  T("WindowsFilenameToUri", "0", B(UriParser::WindowsFilenameToUri(f, NULL)));
  std::unique_ptr<UriParser> p(UriParser::CreateFromParse(u.c_str()));
  if (p) {
    T("ToString", "0", B(p->ToString(NULL)));
    s = ""; r = p->GetScheme(&s); T("GetScheme", B(r), B(p->GetScheme(NULL)));
    r = p->GetHost(&s); T("GetHost", B(r), B(p->GetHost(NULL)));
    r = p->GetPort(&s); T("GetPort", B(r), B(p->GetPort(NULL)));
    r = p->GetQuery(&s); T("GetQuery", B(r), B(p->GetQuery(NULL)));
    r = p->GetFragment(&s); T("GetFragment", B(r), B(p->GetFragment(NULL)));
    r = p->GetPath(&s); T("GetPath", B(r), B(p->GetPath(NULL)));
  }
  s = t = ""; kmlbase::File::SplitFilePath(f, &s, &t);
  d = ""; kmlbase::File::SplitFilePath(f, &d, NULL); T("SplitFilePath directory", s, d);
  d = ""; kmlbase::File::SplitFilePath(f, NULL, &d); T("SplitFilePath file", t, d);
  kmlbase::File::SplitFilePath(f, NULL, NULL);
}

OP(nullsnum) {  // text -> is it a number, with and without the value
  double d; bool r = kmlbase::StringToDouble(a[0], &d);
  T("StringToDouble", B(r), B(kmlbase::StringToDouble(a[0], NULL)));
  if (a[0].find('\0') == string::npos) {
    double e = 0; bool q = kmlbase::StringToDouble(a[0].c_str(), &e);
    T("StringToDouble(char*)", B(r) + (r ? D(d) : ""), B(q) + (q ? D(e) : ""));
  }
  for (int i = 0; i < 20; ++i) {
    string p, n, q, m;
    kmlbase::XmlnsId id = static_cast<kmlbase::XmlnsId>(i);
    r = kmlbase::FindXmlNamespaceAndPrefix(id, &p, &n);
    bool x = kmlbase::FindXmlNamespaceAndPrefix(id, &q, NULL), y = kmlbase::FindXmlNamespaceAndPrefix(id, NULL, &m), z = kmlbase::FindXmlNamespaceAndPrefix(id, NULL, NULL);
    string want = B(r) + B(r) + B(r) + p + " " + n, got = B(x) + B(y) + B(z) + q + " " + m;
    if (want != got || i % 7 == 0) T("FindXmlNamespaceAndPrefix", want, got);
  }
  std::vector<string> v;
  v.push_back("before"); kmlbase::SplitStringUsing(a[0], ",", &v);
  std::vector<string> w; kmlbase::SplitStringUsing(a[0], ",", &w);
  T("SplitStringUsing appends", I(w.size() + 1) + "before" + (w.empty() ? "" : w[0]), I(v.size()) + v[0] + (w.empty() ? "" : v[1]));
}

static string Names(const ElementVector& v, size_t from) {
  string s; for (size_t i = from; i < v.size(); ++i) s += (v[i] ? kmldom::GetElementName(v[i]) : "-") + " ";
  return s;
}

OP(nullsdoc) {  // text (well-formed or not) -> parsing and the functions on a document
  const string& t = a[0];
  string e;
  ElementPtr r = kmldom::Parse(t, &e), q = kmldom::Parse(t, NULL), n = kmldom::ParseNS(t, &e), m = kmldom::ParseNS(t, NULL);
  T("Parse", r ? SerializeRaw(r) : "null", q ? SerializeRaw(q) : "null");
  T("ParseNS", n ? SerializeRaw(n) : "null", m ? SerializeRaw(m) : "null");
  T("ParseKml", r ? SerializeRaw(r) : "null", (q = kmldom::ParseKml(t)) ? SerializeRaw(q) : "null");
  n = kmldom::ParseAtom(t, &e); m = kmldom::ParseAtom(t, NULL);
  T("ParseAtom", n ? SerializeRaw(n) : "null", m ? SerializeRaw(m) : "null");
  KmlFilePtr k = KmlFile::CreateFromParse(t, &e), l = KmlFile::CreateFromParse(t, NULL);
  T("CreateFromParse", k ? "file" : "null", l ? "file" : "null");
  std::istringstream is(t), is2(t);
  boost::intrusive_ptr<KmlStream> s1 = KmlStream::ParseFromIstream(&is, &e, NULL), s2 = KmlStream::ParseFromIstream(&is2, NULL, NULL);
  T("ParseFromIstream", s1 ? SerializeRaw(s1->get_root()) : "null", s2 ? SerializeRaw(s2->get_root()) : "null");
  T("GetLinks", "0", B(GetLinks(t, NULL)));
  T("GetRelativeLinks", "0", B(GetRelativeLinks(t, NULL)));
  T("GetLinkParents", "0", B(GetLinkParents(t, NULL)));
  href_vector_t h, h2; bool g = GetLinks(t, &h); h2.push_back("before"); bool g2 = GetLinks(t, &h2);
  T("GetLinks appends", B(g) + I(h.size() + 1) + "before" + (h.empty() ? "" : h.back()), B(g2) + I(h2.size()) + h2[0] + (h.empty() ? "" : h2.back()));
  h.clear(); h2.clear(); g = GetRelativeLinks(t, &h); h2.push_back("before"); g2 = GetRelativeLinks(t, &h2);
  T("GetRelativeLinks appends", B(g) + I(h.size() + 1) + "before" + (h.empty() ? "" : h.back()), B(g2) + I(h2.size()) + h2[0] + (h.empty() ? "" : h2.back()));
  ElementVector v, w; GetLinkParents(t, &v); w.push_back(ElementPtr()); GetLinkParents(t, &w);
  T("GetLinkParents appends", Names(v, 0), Names(w, 1));
  T("nothing: SerializePretty", "", kmldom::SerializePretty(NULL));
  T("nothing: SerializeRaw", "", kmldom::SerializeRaw(NULL));
  T("nothing: GetElementName", "", kmldom::GetElementName(NULL));
  T("nothing: Clone", "null", kmlengine::Clone(NULL) ? "element" : "null");
  T("nothing: CreateFromImport", "null", KmlFilePtr(KmlFile::CreateFromImport(NULL)) ? "file" : "null");
  T("nothing: CreateFromImportLax", "null", KmlFilePtr(KmlFile::CreateFromImportLax(NULL)) ? "file" : "null");
  if (k) {
    string x; bool ok = k->SerializeToString(&x);
    std::ostringstream xs; bool ok2 = k->SerializeToOstream(&xs);
    T("SerializeToOstream", B(ok) + x, B(ok2) + xs.str());
    T("SerializeToString", "0", B(k->SerializeToString(NULL)));
    T("SerializeToOstream(NULL)", "0", B(k->SerializeToOstream(NULL)));
  }
  if (r) {
    ElementVector c, d; 
    for (int deep = 0; deep < 2; ++deep) {
      c.clear(); d.clear(); d.push_back(ElementPtr());
      int nc = GetChildElements(r, deep, &c), nn = GetChildElements(r, deep, NULL), na = GetChildElements(r, deep, &d);
      T("GetChildElements", I(c.size()) + " " + I(nc) + Names(c, 0), I(nn) + " " + I(na) + Names(d, 1));
    }
    T("nothing: GetChildElements", "0", I(GetChildElements(NULL, true, &c)));
    d.clear(); d.push_back(ElementPtr()); c.clear();
    GetElementsById(r, Type_Placemark, &c); GetElementsById(r, Type_Placemark, &d); GetElementsById(r, Type_Placemark, NULL);
    T("GetElementsById appends", Names(c, 0), Names(d, 1));
    FindXmlNamespaces(r, NULL);
    string was = SerializeRaw(r);
    MergeElements(NULL, r); MergeElements(r, NULL); 
    T("nothing: MergeElements", was, SerializeRaw(r));
    if (k) { ProcessUpdate(NULL, k); string x, y; k->SerializeToString(&x); KmlFilePtr k2 = KmlFile::CreateFromParse(t, NULL); k2->SerializeToString(&y); T("nothing: ProcessUpdate", y, x); }
    ElementVector all; all.push_back(r); GetChildElements(r, true, &all);
    for (size_t i = 0; i < all.size(); ++i) {
      string x, y;
      if (NetworkLinkPtr p = AsNetworkLink(all[i])) { bool b = GetLinkParentHref(p, &x); T("GetLinkParentHref", B(b) + x, B(p->has_link() && p->get_link()->has_href()) + (b ? p->get_link()->get_href() : "")); T("GetLinkParentHref(NULL)", "0", B(GetLinkParentHref(p, static_cast<string*>(NULL)))); }
      if (OverlayPtr p = AsOverlay(all[i])) { bool b = GetIconParentHref(p, &x); T("GetIconParentHref", B(b) + x, B(p->has_icon() && p->get_icon()->has_href()) + (b ? p->get_icon()->get_href() : "")); T("GetIconParentHref(NULL)", "0", B(GetIconParentHref(p, static_cast<string*>(NULL)))); }
      if (AtomEntryPtr p = AsAtomEntry(all[i])) { bool b = kmlconvenience::AtomUtil::GetContentSrc(p, &x); T("GetContentSrc", B(b), B(kmlconvenience::AtomUtil::GetContentSrc(p, NULL))); }
      if (FeaturePtr p = AsFeature(all[i])) if (k) {
        kmlbase::StringMap m1, m2, m3; kmlbase::StringPairVector alt;
        EntityMapper e1(k, &m1), e2(k, &m2, NULL), e3(k, &m3, &alt);
        e1.GetEntityFields(p); e2.GetEntityFields(p); e3.GetEntityFields(p);
        T("EntityMapper", "11", B(m1 == m3) + B(m2 == m3));
      }
    }
    LinkPtr none; T("nothing: GetHref", "0", B(GetHref(none, &e)));
  }
}

OP(nullszip) {  // zip bytes, path
  string e;
  std::unique_ptr<kmlbase::ZipFile> z(kmlbase::ZipFile::OpenFromString(a[0]));
  KmzFilePtr k = KmzFile::OpenFromString(a[0]);
  T("open", z ? "1" : "0", k ? "1" : "0");
  if (!z || !k) return;
  string s; bool r = z->GetEntry(a[1], &s); T("GetEntry", B(r), B(z->GetEntry(a[1], NULL)));
  T("FindFirstOf", "0", B(z->FindFirstOf(".kml", NULL)));
  T("GetToc", "0", B(z->GetToc(NULL)));
  kmlbase::StringVector v, w; z->GetToc(&v); w.push_back("before"); z->GetToc(&w); k->List(&w);
  T("GetToc and List append", I(2 * v.size() + 1) + "before" + (v.empty() ? "" : v.back()), I(w.size()) + (w.empty() ? "" : w[0] + (v.empty() ? "" : w.back())));
  string c, p, c2; r = k->ReadKmlAndGetPath(&c, &p); bool q = k->ReadKmlAndGetPath(&c2, NULL);
  T("ReadKmlAndGetPath", B(r) + c, B(q) + c2);
  c2 = ""; q = k->ReadKml(&c2); T("ReadKml", B(r) + c, B(q) + c2);
  T("SaveToString", "0", B(k->SaveToString(NULL)));
}

OP(nullsweb) {  // name value other
  kmlbase::StringPairVector h;
  kmlconvenience::HttpClient::PushHeader(a[0], a[1], NULL);
  kmlconvenience::HttpClient::PushHeader(a[0], a[1], &h);
  kmlconvenience::HttpClient::AppendHeaders(h, NULL);
  kmlbase::StringPairVector h2(h);
  kmlconvenience::HttpClient::AppendHeaders(h2, &h);
  T("headers", I(2), I(h.size()));
  string s; bool r = kmlconvenience::HttpClient::FindHeader(a[0], h, &s);
  T("FindHeader", "1" + a[1] + "1", B(r) + s + B(kmlconvenience::HttpClient::FindHeader(a[0], h, NULL)));
  r = kmlconvenience::HttpClient::FindHeader(a[2], h, &s);
  T("FindHeader(other)", B(a[2] == a[0]) + B(a[2] == a[0]), B(r) + B(kmlconvenience::HttpClient::FindHeader(a[2], h, NULL)));
}

OP(nullsfeatures) {  // document: lists of features without an output
  ContainerPtr c = AsContainer(E(a[0]));
  kmlconvenience::FeatureList x, y, out, empty;
  Bbox b(ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4])), bb, cc;
  for (size_t i = 0; c && i < c->get_feature_array_size(); ++i) { x.PushBack(c->get_feature_array_at(i)); y.PushBack(c->get_feature_array_at(i)); }
  size_t n = x.BboxSplit(b, atoi(a[5].c_str()), &out), m = y.BboxSplit(b, atoi(a[5].c_str()), NULL);
  T("BboxSplit", I(n) + " " + I(x.Size()) + " " + I(out.Size()), I(m) + " " + I(y.Size()) + " " + I(n));
  x.ComputeBoundingBox(&bb); y.ComputeBoundingBox(&cc);
  T("what is left", D(bb.get_north()) + " " + D(bb.get_west()), D(cc.get_north()) + " " + D(cc.get_west()));
  T("nothing: RegionSplit", "0", I(x.RegionSplit(NULL, 10, &out)));
  T("nothing: Save", "0", I(empty.Save(KmlFactory::GetFactory()->CreateFolder())));
}
