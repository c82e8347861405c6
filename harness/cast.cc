// Every cast, the element table, and calls with nothing in place of an element.
#include "vm.h"
#include "kml/dom/xsd.h"
using namespace kmldom;
using std::string;
std::vector<ElementPtr> AllOf(const ElementPtr& e);  // walk.cc

static void Casts(const ElementPtr& e, std::vector<string>* as) {
#define X(C) { boost::intrusive_ptr<C> p = As##C(e); if (p) as->push_back(static_cast<Element*>(p.get()) == e.get() ? #C : #C "?"); }
  X(AbstractLatLonBox)
  X(AbstractView)
  X(Alias)
  X(AtomAuthor)
  X(AtomCategory)
  X(AtomContent)
  X(AtomEntry)
  X(AtomFeed)
  X(AtomLink)
  X(BalloonStyle)
  X(Camera)
  X(Change)
  X(ColorStyle)
  X(Container)
  X(Coordinates)
  X(Create)
  X(Data)
  X(Delete)
  X(Document)
  X(ExtendedData)
  X(Feature)
  X(Folder)
  X(Geometry)
  X(GroundOverlay)
  X(GxAnimatedUpdate)
  X(GxFlyTo)
  X(GxLatLonQuad)
  X(GxMultiTrack)
  X(GxPlaylist)
  X(GxSimpleArrayData)
  X(GxSimpleArrayField)
  X(GxSoundCue)
  X(GxTimeSpan)
  X(GxTimeStamp)
  X(GxTour)
  X(GxTourControl)
  X(GxTourPrimitive)
  X(GxTrack)
  X(GxWait)
  X(HotSpot)
  X(Icon)
  X(IconStyle)
  X(IconStyleIcon)
  X(ImagePyramid)
  X(InnerBoundaryIs)
  X(ItemIcon)
  X(Kml)
  X(LabelStyle)
  X(LatLonAltBox)
  X(LatLonBox)
  X(LineString)
  X(LineStyle)
  X(LinearRing)
  X(Link)
  X(LinkSnippet)
  X(ListStyle)
  X(Location)
  X(Lod)
  X(LookAt)
  X(Metadata)
  X(Model)
  X(MultiGeometry)
  X(NetworkLink)
  X(NetworkLinkControl)
  X(Object)
  X(Orientation)
  X(OuterBoundaryIs)
  X(Overlay)
  X(OverlayXY)
  X(Pair)
  X(PhotoOverlay)
  X(Placemark)
  X(Point)
  X(PolyStyle)
  X(Polygon)
  X(Region)
  X(ResourceMap)
  X(RotationXY)
  X(Scale)
  X(Schema)
  X(SchemaData)
  X(ScreenOverlay)
  X(ScreenXY)
  X(SimpleData)
  X(SimpleField)
  X(Size)
  X(Snippet)
  X(Style)
  X(StyleMap)
  X(StyleSelector)
  X(SubStyle)
  X(TimePrimitive)
  X(TimeSpan)
  X(TimeStamp)
  X(Update)
  X(ViewVolume)
  X(XalAddressDetails)
  X(XalAdministrativeArea)
  X(XalCountry)
  X(XalLocality)
  X(XalPostalCode)
  X(XalSubAdministrativeArea)
  X(XalThoroughfare)
#undef X
}
static string Join(const std::vector<string>& v) { string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i]; return s; }
OP(casts) {  // reg -> class, casts which succeed
  ElementPtr e = E(a[0]); std::vector<string> x; Casts(e, &x);
  o.push_back(e ? ClassName(e->Type()) : ""); o.push_back(Join(x));
}
OP(castwalk) {  // class and casts of each element
  std::vector<ElementPtr> v = AllOf(E(a[0]));
  for (size_t i = 0; i < v.size(); ++i) {
    std::vector<string> x; Casts(v[i], &x);
    o.push_back(ClassName(v[i]->Type())); o.push_back(Join(x));
  }
}
OP(addnull) { E(a[0])->AddElement(ElementPtr()); }
OP(addel) { E(a[0])->AddElement(E(a[1])); }
OP(elname) {  // element name -> kind, name of the id again
  const Xsd* x = Xsd::GetSchema(); int id = x->ElementId(a[0]);
  { XsdType t = x->ElementType(id); o.push_back(t == XSD_COMPLEX_TYPE ? "complex" : t == XSD_SIMPLE_TYPE ? "simple" : "unknown"); } o.push_back(x->ElementName(id));
}
OP(elenum) {  // element name, value -> index, text of that index
  const Xsd* x = Xsd::GetSchema(); int id = x->ElementId(a[0]); int n = x->EnumId(id, a[1]);
  o.push_back(I(n)); o.push_back(x->EnumValue(id, n)); o.push_back(x->EnumValue(id, atoi(a[2].c_str())));
}
OP(typenames) {  // each identifier: its name as written in the code, and as told by the library
#define X(T) o.push_back(#T); o.push_back(kmlDomTypeToString(T));
  X(Type_Unknown) X(Type_ColorStyle) X(Type_Container) X(Type_Feature) X(Type_Geometry) X(Type_AbstractLatLonBox) X(Type_Object) X(Type_Overlay)
  X(Type_StyleSelector) X(Type_SubStyle) X(Type_TimePrimitive) X(Type_AbstractView) X(Type_BasicLink) X(Type_Vec2) X(Type_Alias) X(Type_BalloonStyle)
  X(Type_Camera) X(Type_Change) X(Type_Create) X(Type_Data) X(Type_Delete) X(Type_Document) X(Type_ExtendedData) X(Type_Folder) X(Type_GroundOverlay)
  X(Type_Icon) X(Type_IconStyle) X(Type_IconStyleIcon) X(Type_ImagePyramid) X(Type_ItemIcon) X(Type_LabelStyle) X(Type_LatLonAltBox) X(Type_LatLonBox)
  X(Type_LineString) X(Type_LineStyle) X(Type_LinearRing) X(Type_Link) X(Type_ListStyle) X(Type_Location) X(Type_Lod) X(Type_LookAt) X(Type_Metadata)
  X(Type_Model) X(Type_MultiGeometry) X(Type_NetworkLink) X(Type_NetworkLinkControl) X(Type_Orientation) X(Type_Pair) X(Type_PhotoOverlay)
  X(Type_Placemark) X(Type_Point) X(Type_PolyStyle) X(Type_Polygon) X(Type_Region) X(Type_ResourceMap) X(Type_Scale) X(Type_Schema) X(Type_SchemaData)
  X(Type_ScreenOverlay) X(Type_SimpleData) X(Type_SimpleField) X(Type_Snippet) X(Type_Style) X(Type_StyleMap) X(Type_TimeSpan) X(Type_TimeStamp)
  X(Type_Update) X(Type_Url) X(Type_ViewVolume) X(Type_address) X(Type_altitude) X(Type_altitudeMode) X(Type_altitudeModeGroup) X(Type_begin)
  X(Type_bgColor) X(Type_bottomFov) X(Type_color) X(Type_colorMode) X(Type_cookie) X(Type_coordinates) X(Type_description) X(Type_displayMode)
  X(Type_displayName) X(Type_drawOrder) X(Type_east) X(Type_end) X(Type_expires) X(Type_extrude) X(Type_fill) X(Type_flyToView) X(Type_gridOrigin)
  X(Type_heading) X(Type_hotSpot) X(Type_href) X(Type_httpQuery) X(Type_innerBoundaryIs) X(Type_key) X(Type_kml) X(Type_latitude) X(Type_leftFov)
  X(Type_linkDescription) X(Type_linkName) X(Type_linkSnippet) X(Type_listItemType) X(Type_longitude) X(Type_maxAltitude) X(Type_maxFadeExtent)
  X(Type_maxHeight) X(Type_maxLength) X(Type_maxLodPixels) X(Type_maxSessionLength) X(Type_maxSnippetLines) X(Type_maxWidth) X(Type_message)
  X(Type_minAltitude) X(Type_minFadeExtent) X(Type_minLodPixels) X(Type_minRefreshPeriod) X(Type_name) X(Type_near) X(Type_north) X(Type_open)
  X(Type_outerBoundaryIs) X(Type_outline) X(Type_overlayXY) X(Type_phoneNumber) X(Type_range) X(Type_refreshInterval) X(Type_refreshMode)
  X(Type_refreshVisibility) X(Type_rightFov) X(Type_roll) X(Type_rotation) X(Type_rotationXY) X(Type_scale) X(Type_screenXY) X(Type_shape) X(Type_size)
  X(Type_snippet) X(Type_sourceHref) X(Type_south) X(Type_state) X(Type_styleUrl) X(Type_targetHref) X(Type_tessellate) X(Type_text) X(Type_textColor)
  X(Type_tileSize) X(Type_tilt) X(Type_topFov) X(Type_units) X(Type_value) X(Type_viewBoundScale) X(Type_viewFormat) X(Type_viewRefreshMode)
  X(Type_viewRefreshTime) X(Type_visibility) X(Type_west) X(Type_when) X(Type_width) X(Type_x) X(Type_y) X(Type_z) X(Type_AtomAuthor) X(Type_AtomCategory)
  X(Type_AtomContent) X(Type_AtomEntry) X(Type_AtomFeed) X(Type_AtomLink) X(Type_atomEmail) X(Type_atomId) X(Type_atomLabel) X(Type_atomName)
  X(Type_atomScheme) X(Type_atomSummary) X(Type_atomTerm) X(Type_atomTitle) X(Type_atomUpdated) X(Type_atomUri) X(Type_XalAddressDetails)
  X(Type_XalAdministrativeArea) X(Type_XalCountry) X(Type_XalLocality) X(Type_XalPostalCode) X(Type_XalSubAdministrativeArea) X(Type_XalThoroughfare)
  X(Type_xalAdministrativeAreaName) X(Type_xalCountryNameCode) X(Type_xalLocalityName) X(Type_xalPostalCodeNumber) X(Type_xalSubAdministrativeAreaName)
  X(Type_xalThoroughfareName) X(Type_xalThoroughfareNumber) X(Type_GxTourPrimitive) X(Type_GxAnimatedUpdate) X(Type_GxFlyTo) X(Type_GxLatLonQuad)
  X(Type_GxMultiTrack) X(Type_GxPlaylist) X(Type_GxSimpleArrayData) X(Type_GxSimpleArrayField) X(Type_GxSoundCue) X(Type_GxTimeSpan) X(Type_GxTimeStamp)
  X(Type_GxTour) X(Type_GxTourControl) X(Type_GxTrack) X(Type_GxWait) X(Type_GxAltitudeMode) X(Type_GxAngles) X(Type_GxBalloonVisibility) X(Type_GxCoord)
  X(Type_GxDuration) X(Type_GxFlyToMode) X(Type_GxH) X(Type_GxInterpolate) X(Type_GxPlayMode) X(Type_GxValue) X(Type_GxW) X(Type_GxX) X(Type_GxY)
  X(Type_Invalid)
#undef X
}
