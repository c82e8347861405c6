// One operation which takes a KML text through every reading entry point and
// every read-only (or copy-making) consumer of a parsed document.
#include "vm.h"
#include <sstream>
#include "kml/base/csv_splitter.h"
#include "kml/base/expat_parser.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/element_counter.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/convenience/kml_feature_list_saver.h"
#include "kml/dom/parser.h"
#include "kml/dom/stats_serializer.h"
#include "kml/dom/xsd.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/feature_visitor.h"
#include "kml/engine/find.h"
#include "kml/engine/find_xml_namespaces.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/kml_stream.h"
#include "kml/engine/link_util.h"
#include "kml/engine/merge.h"
#include "kml/engine/object_id_parser_observer.h"
#include "kml/engine/parse_old_schema.h"
#include "kml/engine/schema_parser_observer.h"
#include "kml/engine/shared_style_parser_observer.h"
#include "kml/engine/style_merger.h"
#include "kml/engine/style_resolver.h"
#include "kml/engine/update.h"
#include "kml/engine/update_processor.h"
#include "kml/regionator/regionator_util.h"

using namespace kmldom;
using namespace kmlengine;
using std::string;

struct FzVisitor : Visitor { size_t n; FzVisitor() : n(0) {} virtual void VisitElement(const ElementPtr& e) { ++n; } };
struct FzFeatures : FeatureVisitor {
  std::vector<FeaturePtr> v;
  virtual void VisitFeature(const FeaturePtr& f) { if (v.size() < 200) v.push_back(f); }
};
struct FzObserver : ParserObserver {
  virtual bool NewElement(const ElementPtr& e) { return true; }
  virtual bool EndElement(const ElementPtr& p, const ElementPtr& e) { return true; }
  virtual bool AddChild(const ElementPtr& p, const ElementPtr& e) { return true; }
};

static size_t WalkDom(const ElementPtr& root) {
  size_t sum = 0;
  string d; Dump(root, &d, true); sum += d.size();
  sum += SerializeRaw(root).size() + SerializePretty(root).size();
  StatsSerializer st; root->Serialize(st); sum += st.get_field_count();
  ElementPtr c = Clone(root);
  if (c) sum += SerializeRaw(c).size();
  FzVisitor v; { SimplePreorderDriver dr(&v); dr.Visit(root); } { SimplePostorderDriver dr(&v); dr.Visit(root); }
  sum += v.n;
  ElementVector kids; sum += GetChildElements(root, true, &kids);
  ObjectIdMap ids; ElementVector dup; MapIds(root, &ids, &dup); sum += ids.size() + dup.size();
  ObjectIdMap ids2; MapIds(root, &ids2, NULL);
  kmlbase::Attributes ns; FindXmlNamespaces(root, &ns); sum += ns.GetSize();
  if (c) {
    ClearIds(c); FindAndInsertXmlNamespaces(c);
    ElementPtr m = Clone(root);
    if (m) { MergeFields(root, m); sum += SerializeRaw(m).size(); }
    ElementPtr m2 = Clone(root);
    if (m2) { MergeElements(root, m2); sum += SerializeRaw(m2).size(); }
  }
  return sum;
}

static size_t WalkFeatures(const KmlFilePtr& kf, const ElementPtr& root) {
  size_t sum = 0;
  FeaturePtr rf = GetRootFeature(root);
  if (!rf) return 0;
  FzFeatures fv; VisitFeatureHierarchy(rf, fv);
  kmlconvenience::FeatureList fl;
  for (size_t i = 0; i < fv.v.size(); ++i) {
    FeaturePtr f = fv.v[i];
    Bbox b; sum += GetFeatureBounds(f, &b); double la, lo; b.GetCenter(&la, &lo);
    if (GetFeatureLatLon(f, &la, &lo)) ++sum;
    LookAtPtr lk = ComputeFeatureLookAt(f); if (lk) sum += SerializeRaw(lk).size();
    if (kf) {
      StylePtr s = CreateResolvedStyle(f, kf, STYLESTATE_NORMAL); if (s) sum += SerializeRaw(s).size();
      s = CreateResolvedStyle(f, kf, STYLESTATE_HIGHLIGHT); if (s) sum += SerializeRaw(s).size();
      sum += CreateBalloonText(kf, f).size();
      kmlbase::StringMap m; kmlbase::StringPairVector alt; EntityMapper em(kf, &m, &alt); em.GetEntityFields(f);
      sum += m.size() + alt.size();
    }
    string val; kmlconvenience::GetExtendedDataValue(f, "a", &val); sum += kmlconvenience::GetFeatureScore(f);
    GxFlyToPtr fly = kmlconvenience::CreateFlyToForFeature(f, 1); if (fly) ++sum;
    AtomEntryPtr en = kmlconvenience::AtomUtil::CreateEntryForFeature(f);
    if (en) {
      FeaturePtr back = kmlconvenience::AtomUtil::CloneEntryFeature(en); if (back) sum += SerializeRaw(back).size();
    }
    fl.PushBack(f);
    if (RegionPtr r = f->get_region()) {
      if (r->has_latlonaltbox()) for (int q = 0; q < 4; ++q) {
        RegionPtr ch = kmlregionator::CreateChildRegion(r, static_cast<kmlregionator::quadrant_t>(q)); if (ch) ++sum;
      }
    }
    if (PlacemarkPtr p = AsPlacemark(f)) if (LineStringPtr l = AsLineString(p->get_geometry())) if (l->has_coordinates()) {
      CoordinatesPtr d = KmlFactory::GetFactory()->CreateCoordinates();
      kmlconvenience::SimplifyCoordinates(l->get_coordinates(), d, 10); sum += d->get_coordinates_array_size();
    }
  }
  fl.Sort(); Bbox b; fl.ComputeBoundingBox(&b);
  kmlconvenience::FeatureList half; fl.BboxSplit(Bbox(90, 0, 180, -180), 5, &half);
  return sum + fl.Size() + half.Size();
}

static size_t WalkFile(const string& text, const KmlFilePtr& kf) {
  size_t sum = 0;
  ElementPtr root = kf->get_root();
  sum += WalkFeatures(kf, root);
  const SharedStyleMap& sm = kf->get_shared_style_map();
  for (SharedStyleMap::const_iterator i = sm.begin(); i != sm.end(); ++i) {
    StyleSelectorPtr s = kf->GetSharedStyleById(i->first); if (s) ++sum;
    StylePtr st = StyleResolver::CreateResolvedStyle("#" + i->first, NULL, sm, kf->get_url(), NULL, STYLESTATE_NORMAL); if (st) ++sum;
    StyleSelectorPtr sel = StyleResolver::CreateResolvedStyleSelector(i->first, sm); if (sel) ++sum;
  }
  const ElementVector& lv = kf->get_link_parent_vector();
  for (size_t i = 0; i < lv.size(); ++i) {
    string h;
    if (NetworkLinkPtr n = AsNetworkLink(lv[i])) { if (GetLinkParentHref(n, &h)) sum += h.size(); }
    else if (OverlayPtr ov = AsOverlay(lv[i])) { if (GetIconParentHref(ov, &h)) sum += h.size(); }
    else if (ModelPtr m = AsModel(lv[i])) { if (GetLinkParentHref(m, &h)) sum += h.size(); }
  }
  string s; kf->SerializeToString(&s); sum += s.size();
  // Each <Update> of the document, processed against a second copy of it.
  ElementVector ups; GetElementsById(root, Type_Update, &ups);
  for (size_t i = 0; i < ups.size() && i < 4; ++i) {
    string e; KmlFilePtr k2 = KmlFile::CreateFromParse(text, &e);
    if (!k2) break;
    ProcessUpdate(AsUpdate(ups[i]), k2);
    string s2; k2->SerializeToString(&s2); sum += s2.size();
  }
  return sum;
}

OP(fuzz) {  // text -> accepted, raw serialization, sums
  const string& t = a[0]; size_t sum = 0;
  string err;
  ElementPtr r = Parse(t, &err), rn = ParseNS(t, &err), rk = ParseKml(t), ra = ParseAtom(t, &err);
  if (r) sum += WalkDom(r);
  if (rn) sum += WalkDom(rn);
  if (ra) {
    sum += WalkDom(ra);
    if (AtomFeedPtr f = AsAtomFeed(ra)) {
      FolderPtr c = KmlFactory::GetFactory()->CreateFolder();
      kmlconvenience::AtomUtil::GetFeedFeatures(f, c); sum += c->get_feature_array_size();
      FolderPtr c2 = KmlFactory::GetFactory()->CreateFolder();
      kmlconvenience::GoogleMapsData::GetMapKml(f, c2); sum += c2->get_feature_array_size();
      AtomEntryPtr e = kmlconvenience::AtomUtil::FindEntryByTitle(f, "a"); if (e) ++sum;
      string h; kmlconvenience::AtomUtil::FindRelUrl(*f, "self", &h); sum += h.size();
      for (size_t i = 0; i < f->get_entry_array_size(); ++i) { string src; kmlconvenience::AtomUtil::GetContentSrc(f->get_entry_array_at(i), &src); sum += src.size(); }
    }
  }
  KmlFilePtr kf = KmlFile::CreateFromParse(t, &err);
  if (kf) sum += WalkFile(t, kf);
  KmlFilePtr kz = KmlFile::CreateFromString(t);
  if (kz) { string s; kz->SerializeToString(&s); sum += s.size(); }
  if (r) {
    KmlFilePtr im = KmlFile::CreateFromImportLax(r);
    if (im) { string s; im->SerializeToString(&s); sum += s.size(); }
  }
  { ElementPtr e = InlineStyles(t, &err); if (e) sum += SerializeRaw(e).size(); }
  { ElementPtr e = SplitStyles(t, &err); if (e) sum += SerializeRaw(e).size(); }
  { href_vector_t v; GetLinks(t, &v); GetRelativeLinks(t, &v); sum += v.size(); ElementVector pv; GetLinkParents(t, &pv); sum += pv.size(); }
  {
    Parser p; SchemaNameMap m; SchemaParserObserver so(&m); p.AddObserver(&so); ElementPtr e = p.Parse(t, &err);
    string out; ConvertOldSchema(t, m, &out); sum += out.size();
    ElementPtr e2 = ParseOldSchema(t, m, &err); if (e2) sum += SerializeRaw(e2).size();
  }
  {
    std::istringstream is(t); FzObserver ob; boost::intrusive_ptr<KmlStream> ks = KmlStream::ParseFromIstream(&is, &err, &ob);
    if (ks && ks->get_root()) sum += SerializeRaw(ks->get_root()).size();
  }
  {
    kmlconvenience::FeatureList fl; SharedStyleMap sm; kmlconvenience::KmlFeatureListSaver s(&fl, &sm, "base");
    Parser p; p.AddObserver(&s); ElementPtr root = p.Parse(t, &err);
    FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); sum += fl.Save(f) + sm.size();
  }
  {
    kmlconvenience::ElementCountMap m; kmlconvenience::ElementCounter c(&m); Parser p; p.AddObserver(&c); ElementPtr e = p.Parse(t, &err);
    sum += m.size();
  }
  o.push_back(r ? "ok" : "null");
  o.push_back(r ? SerializeRaw(r) : "");
  o.push_back(r ? SerializePretty(r) : "");
  o.push_back(rn ? SerializeRaw(rn) : "");
  string s; if (kf) kf->SerializeToString(&s);
  o.push_back(s);
  o.push_back(I(sum));
}
