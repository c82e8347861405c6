#include "vm.h"
#include <list>
#include "kml/base/csv_splitter.h"
#include "kml/base/date_time.h"
#include "kml/base/expat_parser.h"
#include "kml/base/file.h"
#include "kml/base/vec3.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/csv_file.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/element_counter.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/http_client.h"
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/convenience/kmz_check_links.h"
#include "kml/dom/parser.h"
#include "kml/dom/xsd.h"
#include "kml/engine/bbox.h"
#include "kml/engine/kml_stream.h"
#include "kml/regionator/feature_list_region_handler.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/regionator/regionator.h"
#include "kml/regionator/regionator_util.h"
#include "kml/regionator/regionator_qid.h"
#include "kml/xsd/xsd_util.h"
#include "kml/xsd/xsd_schema.h"
#include "kml/xsd/xsd_complex_type.h"
#include "kml/xsd/xsd_element.h"
#include "kml/xsd/xsd_file.h"
#include "kml/xsd/xsd_primitive_type.h"
#include "kml/xsd/xsd_simple_type.h"
#include "kml/xsd/xst_parser.h"

using namespace kmldom;
using namespace kmlconvenience;
using std::string;

// ---- extended data & factories --------------------------------------------
OP(edadd) { AddExtendedDataValue(a[1], a[2], AsFeature(E(a[0]))); }
OP(edset) { SetExtendedDataValue(a[1], a[2], AsFeature(E(a[0]))); }
OP(edget) { string v; bool r = GetExtendedDataValue(AsFeature(E(a[0])), a[1], &v); o.push_back(B(r)); o.push_back(v); }
OP(score) { if (a.size() > 1) SetFeatureScore(a[1], AsFeature(E(a[0]))); o.push_back(I(GetFeatureScore(AsFeature(E(a[0]))))); }
OP(mkcamera) { Put(a[0], CreateCamera(ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4]), ToD(a[5]), ToD(a[6]), atoi(a[7].c_str())), o); }
OP(mklookat) { Put(a[0], CreateLookAt(ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4]), ToD(a[5]), ToD(a[6]), atoi(a[7].c_str())), o); }
OP(mkcircle) { Put(a[0], CreateCoordinatesCircle(ToD(a[1]), ToD(a[2]), ToD(a[3]), strtoull(a[4].c_str(), NULL, 10)), o); }
OP(mkpoint) { Put(a[0], CreatePointLatLon(ToD(a[1]), ToD(a[2])), o); }
OP(mkpointv) { Put(a[0], CreatePointFromVec3(a.size() > 3 ? kmlbase::Vec3(ToD(a[1]), ToD(a[2]), ToD(a[3])) : kmlbase::Vec3(ToD(a[1]), ToD(a[2]))), o); }
OP(mkpointatts) {
  std::vector<const char*> v; for (size_t i = 1; i < a.size(); ++i) v.push_back(a[i].c_str()); v.push_back(NULL);
  Put(a[0], CreatePointFromLatLonAtts(&v[0]), o);
}
OP(mkpm) { Put(a[0], CreatePointPlacemark(a[1], ToD(a[2]), ToD(a[3])), o); }
OP(mkpmts) {
  std::unique_ptr<kmlbase::DateTime> d(kmlbase::DateTime::Create(a[3]));
  if (!d) { o.push_back("nodate"); return; }
  Put(a[0], CreatePointPlacemarkWithTimeStamp(CreatePointLatLon(ToD(a[1]), ToD(a[2])), *d, a[4].c_str()), o);
}
OP(mkregion) { Put(a[0], CreateRegion2d(ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4]), ToD(a[5]), ToD(a[6])), o); }
OP(mkflyto) { Put(a[0], CreateFlyTo(AsAbstractView(E(a[1])), ToD(a[2])), o); }
OP(mkflytof) { Put(a[0], CreateFlyToForFeature(AsFeature(E(a[1])), ToD(a[2])), o); }
OP(mkwait) { Put(a[0], CreateWait(ToD(a[1])), o); }
OP(mkpoly) { Put(a[0], CreateBasicPolygonPlacemark(AsLinearRing(E(a[1]))), o); }
OP(mkanim) { Put(a[0], CreateAnimatedUpdateChangePoint(a[1], kmlbase::Vec3(ToD(a[2]), ToD(a[3]), ToD(a[4])), ToD(a[5])), o); }
OP(simplify) { CoordinatesPtr d = KmlFactory::GetFactory()->CreateCoordinates(); SimplifyCoordinates(AsCoordinates(E(a[0])), d, ToD(a[1])); Put(a[2], d, o); }

// ---- csv / gpx --------------------------------------------------------------
struct CsvRec : CsvParserHandler {
  Out* o; long stop; long n;
  virtual bool HandleLine(int line, CsvParserStatus s, PlacemarkPtr p) {
    o->push_back(I(line)); o->push_back(I(s)); o->push_back(p ? SerializeRaw(p) : "-");
    return ++n != stop;
  }
};
OP(csv) {  // data stop_after
  kmlbase::CsvSplitter s(a[0]); CsvRec h; h.o = &o; h.n = 0; h.stop = atol(a[1].c_str());
  bool r = CsvParser::ParseCsv(&s, &h); o.push_back("="); o.push_back(B(r));
}
OP(csvfile) {
  FeatureList fl; CsvFile c(&fl); c.ParseCsvFile(a[0].c_str());
  FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); fl.Save(f); Put(a[1], f, o);
}
OP(csvlines) {
  FeatureList fl; CsvFile c(&fl); for (size_t i = 1; i < a.size(); ++i) c.ParseCsvLine(a[i]);
  FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); fl.Save(f); Put(a[0], f, o);
}
struct Gpx : GpxTrkPtHandler {
  Out* o;
  virtual void HandlePoint(const kmlbase::Vec3& w, const string& when) {
    o->push_back(D(w.get_longitude()) + "," + D(w.get_latitude()) + "," + (w.has_altitude() ? D(w.get_altitude()) : "-") + "|" + when);
  }
};
OP(gpx) { Gpx g; Out ev; g.o = &ev; string err; bool r = kmlbase::ExpatParser::ParseString(a[0], &g, &err, false); o.push_back(B(r)); o.insert(o.end(), ev.begin(), ev.end()); }
OP(listsave) {  // kml base -> root, folder of features, styles
  FeatureList fl; kmlengine::SharedStyleMap sm; KmlFeatureListSaver s(&fl, &sm, a[1].empty() ? NULL : a[1].c_str());
  Parser p; p.AddObserver(&s); string err; ElementPtr root = p.Parse(a[0], &err);
  Put(a[2], root, o);
  FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); o.push_back(I(fl.Save(f))); Put(a[3], f, o);
  for (kmlengine::SharedStyleMap::iterator i = sm.begin(); i != sm.end(); ++i) { o.push_back(i->first); o.push_back(SerializeRaw(i->second)); }
}
OP(counter) {
  ElementCountMap m; ElementCounter c(&m); Parser p; p.AddObserver(&c); string err; ElementPtr e = p.Parse(a[0], &err);
  o.push_back(e ? "ok" : "null");
  for (ElementCountMap::iterator i = m.begin(); i != m.end(); ++i) { o.push_back(Xsd::GetSchema()->ElementName(i->first)); o.push_back(I(i->second)); }
}
OP(kzcheck) {
  std::vector<string> v; bool r = KmzCheckLinks(*vm.kz[a[0]], &v); o.push_back(B(r)); o.insert(o.end(), v.begin(), v.end());
}

// ---- feature list ---------------------------------------------------------
static thread_local std::map<string, FeatureList> g_fl;
OP(flclear) { g_fl.clear(); }
OP(flpush) { g_fl[a[0]].PushBack(AsFeature(E(a[1]))); o.push_back(I(g_fl[a[0]].Size())); }
OP(flsort) { g_fl[a[0]].Sort(); o.push_back(I(g_fl[a[0]].Size())); }
OP(flsize) { o.push_back(I(g_fl[a[0]].Size())); }
OP(flnames) {
  FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); g_fl[a[0]].Save(f);
  FeatureList again;  // Save gives the features a parent for good: go on with copies.
  for (size_t i = 0; i < f->get_feature_array_size(); ++i) {
    o.push_back(f->get_feature_array_at(i)->get_name());
    again.PushBack(AsFeature(kmlengine::Clone(f->get_feature_array_at(i))));
  }
  g_fl[a[0]] = again;
}
OP(flsave) { FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); o.push_back(I(g_fl[a[0]].Save(f))); Put(a[1], f, o); }
OP(flbbox) { kmlengine::Bbox b; g_fl[a[0]].ComputeBoundingBox(&b); o.push_back(D(b.get_north())); o.push_back(D(b.get_south())); o.push_back(D(b.get_east())); o.push_back(D(b.get_west())); }
OP(flbboxsplit) { o.push_back(I(g_fl[a[0]].BboxSplit(kmlengine::Bbox(ToD(a[1]), ToD(a[2]), ToD(a[3]), ToD(a[4])), strtoull(a[5].c_str(), NULL, 10), a[6].empty() ? NULL : &g_fl[a[6]]))); }
OP(flregionsplit) { o.push_back(I(g_fl[a[0]].RegionSplit(AsRegion(E(a[1])), strtoull(a[2].c_str(), NULL, 10), a[3].empty() ? NULL : &g_fl[a[3]]))); }

// ---- regionator ---------------------------------------------------------
using namespace kmlregionator;
OP(flregionate) {  // list max outdir ; progress recorded
  struct Prog { Out* o; size_t stop; bool RegionatorProgress(unsigned c, unsigned t) { o->push_back(I(c) + "/" + I(t)); return o->size() <= stop; } };
  Prog p; Out ev; p.o = &ev; p.stop = a.size() > 3 ? strtoull(a[3].c_str(), NULL, 10) : static_cast<size_t>(-1);
  if (a.size() > 3 && a[3] == "none") { o.push_back(B(FeatureListRegionator<>::Regionate(&g_fl[a[0]], atoi(a[1].c_str()), NULL, a[2].c_str()))); return; }
  if (a.size() > 3 && a[3] == "null") { NullProgress n; o.push_back(B(FeatureListRegionator<>::Regionate(&g_fl[a[0]], atoi(a[1].c_str()), &n, a[2].c_str()))); return; }
  bool r = FeatureListRegionator<Prog>::Regionate(&g_fl[a[0]], atoi(a[1].c_str()), &p, a[2].empty() ? NULL : a[2].c_str());
  o.push_back(B(r)); o.insert(o.end(), ev.begin(), ev.end());
}
OP(flhandler) {  // list region outdir
  FeatureListRegionHandler h(&g_fl[a[0]]); Regionator g(h, AsRegion(E(a[1]))); o.push_back(B(g.Regionate(a[2].c_str())));
}
struct RecRegion : RegionHandler {  // deterministic data density: region has data while depth<max and the id hash says so
  Out* o; unsigned depth, seed; unsigned count, limit, nulls;
  bool Dense(const string& id) { unsigned h = seed * 2654435761u; for (size_t i = 0; i < id.size(); ++i) h = (h ^ (unsigned char)id[i]) * 16777619u; return (h >> 8) % 100 < limit; }
  virtual bool HasData(const RegionPtr& r) {
    LatLonAltBoxPtr b = r->get_latlonaltbox(); string id = r->get_id();
    LodPtr l = r->get_lod();
    bool v = id.size() <= depth + 1 && (id.size() <= 2 || Dense(id));
    if (++count > 3000) v = false;
    o->push_back("H " + id + " " + D(b->get_north()) + " " + D(b->get_south()) + " " + D(b->get_east()) + " " + D(b->get_west()) + " " + (l ? D(l->get_minlodpixels()) + " " + D(l->get_maxlodpixels()) : "- -") + " " + B(v));
    return v;
  }
  virtual FeaturePtr GetFeature(const RegionPtr& r) {
    bool none = r->get_id().size() > 2 && nulls && (r->get_id().size() * 7 + r->get_id()[r->get_id().size() - 1]) % nulls == 0;
    o->push_back((none ? "N " : "G ") + r->get_id()); if (none) return NULL;
    PlacemarkPtr p = KmlFactory::GetFactory()->CreatePlacemark(); p->set_name("f_" + r->get_id()); return p;
  }
  virtual void SaveKml(const KmlPtr& k, const string& f) { o->push_back("S " + f); o->push_back(SerializeRaw(k)); }
};
OP(regionate) {  // region seed depth density outdir aligned rootname
  RecRegion h; h.o = &o; h.seed = atoi(a[1].c_str()); h.depth = atoi(a[2].c_str()); h.limit = atoi(a[3].c_str()); h.count = 0; h.nulls = a.size() > 7 ? atoi(a[7].c_str()) : 0;
  bool r;
  const char* dir = a[4].empty() ? NULL : a[4].c_str();
  if (a[5] == "1") r = Regionator::RegionateAligned(h, AsRegion(E(a[0])), dir);
  else { Regionator g(h, AsRegion(E(a[0]))); if (!At(a, 6).empty()) g.SetRootFilename(a[6].c_str()); r = g.Regionate(dir); }
  o.push_back("="); o.push_back(B(r));
}
OP(childregion) { Put(a[2], CreateChildRegion(AsRegion(E(a[0])), static_cast<quadrant_t>(atoi(a[1].c_str()))), o); }
OP(cloneregion) { Put(a[1], CloneRegion(AsRegion(E(a[0]))), o); }
OP(alignbox) {
  LatLonAltBoxPtr b = KmlFactory::GetFactory()->CreateLatLonAltBox(), c = KmlFactory::GetFactory()->CreateLatLonAltBox();
  b->set_north(ToD(a[0])); b->set_south(ToD(a[1])); b->set_east(ToD(a[2])); b->set_west(ToD(a[3]));
  bool r = CreateAlignedAbstractLatLonBox(b, c); o.push_back(B(r));
  o.push_back(D(c->get_north())); o.push_back(D(c->get_south())); o.push_back(D(c->get_east())); o.push_back(D(c->get_west()));
}
OP(linebox) { Put(a[1], CreateLineStringBox(a[2], AsRegion(E(a[0]))), o); }
OP(regionlink) { Put(a[1], CreateRegionNetworkLink(AsRegion(E(a[0])), a[2]), o); }
OP(regiondoc) { Put(a[1], CreateRegionDocument(AsRegion(E(a[0]))), o); }

// ---- atom ---------------------------------------------------------------------
OP(atomentry) { Put(a[0], AtomUtil::CreateBasicEntry(a[1], a[2]), o); }
OP(atomlink) { Put(a[0], AtomUtil::CreateBasicLink(a[1], a[2], a[3]), o); }
OP(atomfeature) { Put(a[1], AtomUtil::CreateEntryForFeature(AsFeature(E(a[0]))), o); }
OP(atomgetfeature) { Put(a[1], AtomUtil::GetEntryFeature(AsAtomEntry(E(a[0]))), o); }
OP(atomclonefeature) { Put(a[1], AtomUtil::CloneEntryFeature(AsAtomEntry(E(a[0]))), o); }
OP(atomfeedfeatures) { AtomUtil::GetFeedFeatures(AsAtomFeed(E(a[0])), AsContainer(E(a[1]))); }
OP(atomfindtitle) { Put(a[2], AtomUtil::FindEntryByTitle(AsAtomFeed(E(a[0])), a[1]), o); }
OP(atomcontentsrc) { string s; bool r = AtomUtil::GetContentSrc(AsAtomEntry(E(a[0])), &s); o.push_back(B(r)); o.push_back(s); }
static const AtomCommon* AC(const ElementPtr& e) { if (AtomFeedPtr f = AsAtomFeed(e)) return f.get(); if (AtomEntryPtr n = AsAtomEntry(e)) return n.get(); return NULL; }
OP(atomfindlink) { Put(a[3], AtomUtil::FindLink(*AC(E(a[0])), a[1], a[2]), o); string h; bool r = AtomUtil::FindRelUrl(*AC(E(a[0])), a[1], &h); o.push_back(B(r)); o.push_back(h); }
OP(atomfindcat) { Put(a[2], AtomUtil::FindCategoryByScheme(*AC(E(a[0])), a[1]), o); }
OP(mapkml) { o.push_back(I(GoogleMapsData::GetMapKml(AsAtomFeed(E(a[0])), AsContainer(E(a[1]))))); }
struct RecHttp : HttpClient {
  Out* o; string resp; bool ok;
  RecHttp() : HttpClient("rec"), o(NULL), ok(true) {}
  virtual bool SendRequest(HttpMethodEnum m, const string& uri, const kmlconvenience::StringPairVector* h, const string* d, string* r) const {
    o->push_back(I(m)); o->push_back(uri); o->push_back(d ? *d : ""); 
    if (r) *r = resp; return ok;
  }
};
OP(mappost) {  // feature feed-uri : one POST per placemark recorded
  RecHttp* h = new RecHttp; Out ev; h->o = &ev; h->resp = At(a, 2); h->ok = At(a, 3) != "fail";
  std::unique_ptr<GoogleMapsData> g(GoogleMapsData::Create(h));
  ev.clear();
  if (!g) { o.push_back("null"); return; }
  int n = g->PostPlacemarks(AsFeature(E(a[0])), a[1]);
  o.push_back(I(n)); o.insert(o.end(), ev.begin(), ev.end());
}

// ---- xsd ----------------------------------------------------------------------
using namespace kmlxsd;
static thread_local std::unique_ptr<XsdFile> g_xsd;
OP(xsdparse) { string err; g_xsd.reset(XsdFile::CreateFromParse(a[0], &err)); o.push_back(g_xsd ? "ok" : "null"); o.push_back(err); if (g_xsd) { o.push_back(g_xsd->get_target_namespace()); o.push_back(g_xsd->get_target_namespace_prefix()); } }
static void PutEls(const XsdElementVector& v, Out& o) { for (size_t i = 0; i < v.size(); ++i) o.push_back(v[i] ? v[i]->get_name() : "-"); }
OP(xsdlist) {
  XsdElementVector v;
  if (a[0] == "all") g_xsd->GetAllElements(&v);
  else if (a[0] == "abstract") g_xsd->GetAbstractElements(&v);
  else if (a[0] == "complex") g_xsd->GetComplexElements(&v);
  else if (a[0] == "simple") g_xsd->GetSimpleElements(&v);
  else if (a[0] == "ids") { size_t b = 0, c = 0; g_xsd->GenerateElementIdVector(&v, &b, &c); o.push_back(I(b)); o.push_back(I(c)); }
  else if (a[0] == "children") g_xsd->GetChildElements(a[1], &v);
  else if (a[0] == "oftype") g_xsd->GetElementsOfTypeByName(a[1], &v);
  PutEls(v, o);
}
OP(xsdtypes) { XsdTypeVector v; g_xsd->GetAllTypes(&v); for (size_t i = 0; i < v.size(); ++i) { o.push_back(v[i]->get_name()); o.push_back(v[i]->get_base()); o.push_back(B(v[i]->is_complex())); } }
OP(xsdelement) {
  XsdElementPtr e = g_xsd->FindElement(a[0]); o.push_back(e ? "ok" : "null"); if (!e) return;
  o.push_back(e->get_name()); o.push_back(e->get_type()); o.push_back(e->get_substitution_group()); o.push_back(e->get_default());
  o.push_back(B(e->is_abstract())); o.push_back(B(e->is_primitive()));
  XsdTypePtr t = g_xsd->FindElementType(e); o.push_back(t ? t->get_name() : "-");
}
OP(xsdtype) {
  XsdTypePtr t = g_xsd->FindType(a[0]); o.push_back(t ? "ok" : "null"); if (!t) return;
  o.push_back(t->get_name()); o.push_back(t->get_base()); o.push_back(B(t->is_complex()));
  if (XsdSimpleTypePtr s = XsdSimpleType::AsSimpleType(t)) for (size_t i = 0; i < s->get_enumeration_size(); ++i) o.push_back(s->get_enumeration_at(i));
}
OP(xsdinner) {  // type -> the parts of its own kind
  XsdTypePtr t = g_xsd->FindType(a[0]);
  if (XsdSimpleTypePtr s = XsdSimpleType::AsSimpleType(t)) { o.push_back("simple"); o.push_back(s->get_restriction_base()); o.push_back(B(s->IsEnumeration())); o.push_back(I(s->get_xsd_type_id() == kmlxsd::XsdType::XSD_TYPE_SIMPLE)); o.push_back(B(XsdComplexType::AsComplexType(t) == NULL)); }
  else if (XsdComplexTypePtr c = XsdComplexType::AsComplexType(t)) {
    o.push_back("complex"); o.push_back(c->get_extension_base()); o.push_back(B(c->has_extension_base()));
    for (size_t i = 0; i < c->get_sequence_size(); ++i) { XsdElementPtr e = c->get_sequence_at(i); o.push_back(e->get_name()); o.push_back(B(e->is_ref())); o.push_back(e->get_type()); o.push_back(XsdPrimitiveType::GetTypeName(e->get_type_id())); }
  } else o.push_back("null");
}
OP(xsdmk) {  // prefix ns type-name element-name element-type qname
  XsdComplexTypePtr c = CreateXsdComplexType(a[2]); XsdElementPtr e = CreateXsdElement(a[3], a[4]); XsdSchemaPtr s = CreateXsdSchema(a[0], a[1]);
  o.push_back(c ? c->get_name() : "null"); o.push_back(c ? c->get_base() : "null");
  if (e) { o.push_back(e->get_name()); o.push_back(e->get_type()); o.push_back(B(e->is_abstract()) + B(e->is_ref()) + B(e->is_primitive())); o.push_back(e->get_default()); o.push_back(e->get_substitution_group()); } else o.push_back("null");
  if (s) { o.push_back(s->get_target_namespace()); o.push_back(s->get_target_namespace_prefix()); string n = "unset"; bool r = s->SplitNsName(a[5], &n); o.push_back(B(r)); o.push_back(n); o.push_back(B(s->SplitNsName(a[5], NULL))); } else o.push_back("null");
  if (c && e) { c->add_element(e); c->add_element(e); c->set_extension_base(a[5]); o.push_back(I(c->get_sequence_size())); o.push_back(c->get_sequence_at(1)->get_name()); o.push_back(c->get_base()); o.push_back(B(c->has_extension_base())); }
}
OP(xsdhier) {
  XsdComplexTypePtr c = XsdComplexType::AsComplexType(g_xsd->FindType(a[0])); std::vector<XsdComplexTypePtr> v;
  bool r = c && g_xsd->GetTypeHierarchy(c, &v); o.push_back(B(r)); for (size_t i = 0; i < v.size(); ++i) o.push_back(v[i]->get_name());
}
OP(xsdref) { XsdElementPtr e = g_xsd->ResolveRef(a[0]); o.push_back(e ? e->get_name() : "-"); }
OP(xstalias) { XstParser p(g_xsd.get()); p.ParseXst(a[0]); for (size_t i = 1; i < a.size(); ++i) o.push_back(g_xsd->get_alias(a[i])); }
OP(xsdprim) { string n = XsdPrimitiveType::GetTypeName(static_cast<XsdPrimitiveType::TypeId>(atoi(a[0].c_str()))); o.push_back(n); o.push_back(I(XsdPrimitiveType::GetTypeId(n)));
  XsdTypePtr t = XsdPrimitiveType::Create(n), u = XsdPrimitiveType::Create(a.size() > 1 ? a[1] : n);
  if (!t) { o.push_back("null"); return; }
  o.push_back(t->get_name()); o.push_back(t->get_base()); o.push_back(B(t->is_complex())); o.push_back(I(t->get_xsd_type_id())); o.push_back(u ? B(*t == *u) : "-");
}
OP(qid) {  // text -> what a region's number says of itself and its children
  kmlregionator::Qid q(a[0]); o.push_back(q.str()); o.push_back(I(q.depth())); o.push_back(B(q.IsRoot()));
  for (int k = 0; k < 4; ++k) { kmlregionator::Qid c = q.CreateChild(static_cast<kmlregionator::quadrant_t>(k)); o.push_back(c.str()); o.push_back(I(c.depth())); o.push_back(B(c.IsRoot())); }
  kmlregionator::Qid r = kmlregionator::Qid::CreateRoot(); o.push_back(r.str()); o.push_back(I(r.depth())); o.push_back(B(r.IsRoot()));
}
OP(atomgd) { string r; bool b = AtomUtil::GetGdResourceId(AsAtomEntry(E(a[0])), a[1] == "null" ? NULL : &r); o.push_back(B(b)); o.push_back(r); }
void ResetConv() { g_fl.clear(); g_xsd.reset(); }
