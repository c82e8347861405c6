// Concrete element classes and the accessor groups they inherit.
INHERIT(Alias, Type_Alias, Alias)
INHERIT(Alias, Type_Alias, Object)
INHERIT(AtomAuthor, Type_AtomAuthor, AtomAuthor)
INHERIT(AtomCategory, Type_AtomCategory, AtomCategory)
INHERIT(AtomContent, Type_AtomContent, AtomContent)
INHERIT(AtomEntry, Type_AtomEntry, AtomEntry)
INHERIT(AtomEntry, Type_AtomEntry, AtomCommon)
INHERIT(AtomFeed, Type_AtomFeed, AtomFeed)
INHERIT(AtomFeed, Type_AtomFeed, AtomCommon)
INHERIT(AtomLink, Type_AtomLink, AtomLink)
INHERIT(BalloonStyle, Type_BalloonStyle, BalloonStyle)
INHERIT(BalloonStyle, Type_BalloonStyle, SubStyle)
INHERIT(BalloonStyle, Type_BalloonStyle, Object)
INHERIT(Camera, Type_Camera, Camera)
INHERIT(Camera, Type_Camera, AbstractViewCommon)
INHERIT(Camera, Type_Camera, AbstractView)
INHERIT(Camera, Type_Camera, Object)
INHERIT(Change, Type_Change, Change)
INHERIT(Change, Type_Change, UpdateOperation)
INHERIT(Create, Type_Create, Create)
INHERIT(Create, Type_Create, UpdateOperation)
INHERIT(Data, Type_Data, Data)
INHERIT(Data, Type_Data, Object)
INHERIT(Delete, Type_Delete, Delete)
INHERIT(Delete, Type_Delete, UpdateOperation)
INHERIT(Document, Type_Document, Document)
INHERIT(Document, Type_Document, Container)
INHERIT(Document, Type_Document, Feature)
INHERIT(Document, Type_Document, Object)
INHERIT(ExtendedData, Type_ExtendedData, ExtendedData)
INHERIT(Folder, Type_Folder, Folder)
INHERIT(Folder, Type_Folder, Container)
INHERIT(Folder, Type_Folder, Feature)
INHERIT(Folder, Type_Folder, Object)
INHERIT(GroundOverlay, Type_GroundOverlay, GroundOverlay)
INHERIT(GroundOverlay, Type_GroundOverlay, Overlay)
INHERIT(GroundOverlay, Type_GroundOverlay, Feature)
INHERIT(GroundOverlay, Type_GroundOverlay, Object)
INHERIT(Icon, Type_Icon, Icon)
INHERIT(Icon, Type_Icon, AbstractLink)
INHERIT(Icon, Type_Icon, BasicLink)
INHERIT(Icon, Type_Icon, Object)
INHERIT(IconStyle, Type_IconStyle, IconStyle)
INHERIT(IconStyle, Type_IconStyle, ColorStyle)
INHERIT(IconStyle, Type_IconStyle, SubStyle)
INHERIT(IconStyle, Type_IconStyle, Object)
INHERIT(IconStyleIcon, Type_IconStyleIcon, IconStyleIcon)
INHERIT(IconStyleIcon, Type_IconStyleIcon, BasicLink)
INHERIT(IconStyleIcon, Type_IconStyleIcon, Object)
INHERIT(ImagePyramid, Type_ImagePyramid, ImagePyramid)
INHERIT(ImagePyramid, Type_ImagePyramid, Object)
INHERIT(ItemIcon, Type_ItemIcon, ItemIcon)
INHERIT(ItemIcon, Type_ItemIcon, Object)
INHERIT(LabelStyle, Type_LabelStyle, LabelStyle)
INHERIT(LabelStyle, Type_LabelStyle, ColorStyle)
INHERIT(LabelStyle, Type_LabelStyle, SubStyle)
INHERIT(LabelStyle, Type_LabelStyle, Object)
INHERIT(LatLonBox, Type_LatLonBox, LatLonBox)
INHERIT(LatLonBox, Type_LatLonBox, AbstractLatLonBox)
INHERIT(LatLonBox, Type_LatLonBox, Object)
INHERIT(LatLonAltBox, Type_LatLonAltBox, LatLonAltBox)
INHERIT(LatLonAltBox, Type_LatLonAltBox, AbstractLatLonBox)
INHERIT(LatLonAltBox, Type_LatLonAltBox, Object)
INHERIT(LinearRing, Type_LinearRing, LinearRing)
INHERIT(LinearRing, Type_LinearRing, LineCommon)
INHERIT(LinearRing, Type_LinearRing, CoordinatesGeometryCommon)
INHERIT(LinearRing, Type_LinearRing, ExtrudeGeometryCommon)
INHERIT(LinearRing, Type_LinearRing, AltitudeGeometryCommon)
INHERIT(LinearRing, Type_LinearRing, Geometry)
INHERIT(LinearRing, Type_LinearRing, Object)
INHERIT(LineString, Type_LineString, LineString)
INHERIT(LineString, Type_LineString, LineCommon)
INHERIT(LineString, Type_LineString, CoordinatesGeometryCommon)
INHERIT(LineString, Type_LineString, ExtrudeGeometryCommon)
INHERIT(LineString, Type_LineString, AltitudeGeometryCommon)
INHERIT(LineString, Type_LineString, Geometry)
INHERIT(LineString, Type_LineString, Object)
INHERIT(LineStyle, Type_LineStyle, LineStyle)
INHERIT(LineStyle, Type_LineStyle, ColorStyle)
INHERIT(LineStyle, Type_LineStyle, SubStyle)
INHERIT(LineStyle, Type_LineStyle, Object)
INHERIT(Link, Type_Link, Link)
INHERIT(Link, Type_Link, AbstractLink)
INHERIT(Link, Type_Link, BasicLink)
INHERIT(Link, Type_Link, Object)
INHERIT(ListStyle, Type_ListStyle, ListStyle)
INHERIT(ListStyle, Type_ListStyle, SubStyle)
INHERIT(ListStyle, Type_ListStyle, Object)
INHERIT(Location, Type_Location, Location)
INHERIT(Location, Type_Location, Object)
INHERIT(Lod, Type_Lod, Lod)
INHERIT(Lod, Type_Lod, Object)
INHERIT(LookAt, Type_LookAt, LookAt)
INHERIT(LookAt, Type_LookAt, AbstractViewCommon)
INHERIT(LookAt, Type_LookAt, AbstractView)
INHERIT(LookAt, Type_LookAt, Object)
INHERIT(Metadata, Type_Metadata, Metadata)
INHERIT(Model, Type_Model, Model)
INHERIT(Model, Type_Model, AltitudeGeometryCommon)
INHERIT(Model, Type_Model, Geometry)
INHERIT(Model, Type_Model, Object)
INHERIT(MultiGeometry, Type_MultiGeometry, MultiGeometry)
INHERIT(MultiGeometry, Type_MultiGeometry, Geometry)
INHERIT(MultiGeometry, Type_MultiGeometry, Object)
INHERIT(NetworkLink, Type_NetworkLink, NetworkLink)
INHERIT(NetworkLink, Type_NetworkLink, Feature)
INHERIT(NetworkLink, Type_NetworkLink, Object)
INHERIT(NetworkLinkControl, Type_NetworkLinkControl, NetworkLinkControl)
INHERIT(Orientation, Type_Orientation, Orientation)
INHERIT(Orientation, Type_Orientation, Object)
INHERIT(Pair, Type_Pair, Pair)
INHERIT(Pair, Type_Pair, Object)
INHERIT(PhotoOverlay, Type_PhotoOverlay, PhotoOverlay)
INHERIT(PhotoOverlay, Type_PhotoOverlay, Overlay)
INHERIT(PhotoOverlay, Type_PhotoOverlay, Feature)
INHERIT(PhotoOverlay, Type_PhotoOverlay, Object)
INHERIT(Placemark, Type_Placemark, Placemark)
INHERIT(Placemark, Type_Placemark, Feature)
INHERIT(Placemark, Type_Placemark, Object)
INHERIT(PolyStyle, Type_PolyStyle, PolyStyle)
INHERIT(PolyStyle, Type_PolyStyle, ColorStyle)
INHERIT(PolyStyle, Type_PolyStyle, SubStyle)
INHERIT(PolyStyle, Type_PolyStyle, Object)
INHERIT(Point, Type_Point, Point)
INHERIT(Point, Type_Point, CoordinatesGeometryCommon)
INHERIT(Point, Type_Point, ExtrudeGeometryCommon)
INHERIT(Point, Type_Point, AltitudeGeometryCommon)
INHERIT(Point, Type_Point, Geometry)
INHERIT(Point, Type_Point, Object)
INHERIT(Polygon, Type_Polygon, Polygon)
INHERIT(Polygon, Type_Polygon, ExtrudeGeometryCommon)
INHERIT(Polygon, Type_Polygon, AltitudeGeometryCommon)
INHERIT(Polygon, Type_Polygon, Geometry)
INHERIT(Polygon, Type_Polygon, Object)
INHERIT(Region, Type_Region, Region)
INHERIT(Region, Type_Region, Object)
INHERIT(ResourceMap, Type_ResourceMap, ResourceMap)
INHERIT(ResourceMap, Type_ResourceMap, Object)
INHERIT(Scale, Type_Scale, Scale)
INHERIT(Scale, Type_Scale, Object)
INHERIT(Schema, Type_Schema, Schema)
INHERIT(Schema, Type_Schema, Object)
INHERIT(SchemaData, Type_SchemaData, SchemaData)
INHERIT(SchemaData, Type_SchemaData, Object)
INHERIT(ScreenOverlay, Type_ScreenOverlay, ScreenOverlay)
INHERIT(ScreenOverlay, Type_ScreenOverlay, Overlay)
INHERIT(ScreenOverlay, Type_ScreenOverlay, Feature)
INHERIT(ScreenOverlay, Type_ScreenOverlay, Object)
INHERIT(SimpleData, Type_SimpleData, SimpleData)
INHERIT(SimpleField, Type_SimpleField, SimpleField)
INHERIT(Snippet, Type_Snippet, Snippet)
INHERIT(Snippet, Type_Snippet, SnippetCommon)
INHERIT(Style, Type_Style, Style)
INHERIT(Style, Type_Style, StyleSelector)
INHERIT(Style, Type_Style, Object)
INHERIT(StyleMap, Type_StyleMap, StyleMap)
INHERIT(StyleMap, Type_StyleMap, StyleSelector)
INHERIT(StyleMap, Type_StyleMap, Object)
INHERIT(TimeSpan, Type_TimeSpan, TimeSpan)
INHERIT(TimeSpan, Type_TimeSpan, TimePrimitive)
INHERIT(TimeSpan, Type_TimeSpan, Object)
INHERIT(TimeStamp, Type_TimeStamp, TimeStamp)
INHERIT(TimeStamp, Type_TimeStamp, TimePrimitive)
INHERIT(TimeStamp, Type_TimeStamp, Object)
INHERIT(ViewVolume, Type_ViewVolume, ViewVolume)
INHERIT(ViewVolume, Type_ViewVolume, Object)
INHERIT(Update, Type_Update, Update)
INHERIT(Url, Type_Url, Url)
INHERIT(Url, Type_Url, AbstractLink)
INHERIT(Url, Type_Url, BasicLink)
INHERIT(Url, Type_Url, Object)
INHERIT(Coordinates, Type_coordinates, Coordinates)
INHERIT(HotSpot, Type_hotSpot, HotSpot)
INHERIT(HotSpot, Type_hotSpot, Vec2)
INHERIT(InnerBoundaryIs, Type_innerBoundaryIs, InnerBoundaryIs)
INHERIT(InnerBoundaryIs, Type_innerBoundaryIs, BoundaryCommon)
INHERIT(Kml, Type_kml, Kml)
INHERIT(LinkSnippet, Type_linkSnippet, LinkSnippet)
INHERIT(LinkSnippet, Type_linkSnippet, SnippetCommon)
INHERIT(OverlayXY, Type_overlayXY, OverlayXY)
INHERIT(OverlayXY, Type_overlayXY, Vec2)
INHERIT(OuterBoundaryIs, Type_outerBoundaryIs, OuterBoundaryIs)
INHERIT(OuterBoundaryIs, Type_outerBoundaryIs, BoundaryCommon)
INHERIT(RotationXY, Type_rotationXY, RotationXY)
INHERIT(RotationXY, Type_rotationXY, Vec2)
INHERIT(ScreenXY, Type_screenXY, ScreenXY)
INHERIT(ScreenXY, Type_screenXY, Vec2)
INHERIT(Size, Type_size, Size)
INHERIT(Size, Type_size, Vec2)
INHERIT(XalAddressDetails, Type_XalAddressDetails, XalAddressDetails)
INHERIT(XalAdministrativeArea, Type_XalAdministrativeArea, XalAdministrativeArea)
INHERIT(XalCountry, Type_XalCountry, XalCountry)
INHERIT(XalLocality, Type_XalLocality, XalLocality)
INHERIT(XalPostalCode, Type_XalPostalCode, XalPostalCode)
INHERIT(XalSubAdministrativeArea, Type_XalSubAdministrativeArea, XalSubAdministrativeArea)
INHERIT(XalThoroughfare, Type_XalThoroughfare, XalThoroughfare)
INHERIT(GxAnimatedUpdate, Type_GxAnimatedUpdate, GxAnimatedUpdate)
INHERIT(GxAnimatedUpdate, Type_GxAnimatedUpdate, GxTourPrimitiveCommon)
INHERIT(GxAnimatedUpdate, Type_GxAnimatedUpdate, GxTourPrimitive)
INHERIT(GxAnimatedUpdate, Type_GxAnimatedUpdate, Object)
INHERIT(GxFlyTo, Type_GxFlyTo, GxFlyTo)
INHERIT(GxFlyTo, Type_GxFlyTo, GxTourPrimitiveCommon)
INHERIT(GxFlyTo, Type_GxFlyTo, GxTourPrimitive)
INHERIT(GxFlyTo, Type_GxFlyTo, Object)
INHERIT(GxLatLonQuad, Type_GxLatLonQuad, GxLatLonQuad)
INHERIT(GxLatLonQuad, Type_GxLatLonQuad, Object)
INHERIT(GxMultiTrack, Type_GxMultiTrack, GxMultiTrack)
INHERIT(GxMultiTrack, Type_GxMultiTrack, Geometry)
INHERIT(GxMultiTrack, Type_GxMultiTrack, Object)
INHERIT(GxPlaylist, Type_GxPlaylist, GxPlaylist)
INHERIT(GxPlaylist, Type_GxPlaylist, Object)
INHERIT(GxSimpleArrayData, Type_GxSimpleArrayData, GxSimpleArrayData)
INHERIT(GxSimpleArrayField, Type_GxSimpleArrayField, GxSimpleArrayField)
INHERIT(GxSimpleArrayField, Type_GxSimpleArrayField, SimpleField)
INHERIT(GxSoundCue, Type_GxSoundCue, GxSoundCue)
INHERIT(GxSoundCue, Type_GxSoundCue, GxTourPrimitive)
INHERIT(GxSoundCue, Type_GxSoundCue, Object)
INHERIT(GxTimeSpan, Type_GxTimeSpan, GxTimeSpan)
INHERIT(GxTimeSpan, Type_GxTimeSpan, TimeSpan)
INHERIT(GxTimeSpan, Type_GxTimeSpan, TimePrimitive)
INHERIT(GxTimeSpan, Type_GxTimeSpan, Object)
INHERIT(GxTimeStamp, Type_GxTimeStamp, GxTimeStamp)
INHERIT(GxTimeStamp, Type_GxTimeStamp, TimeStamp)
INHERIT(GxTimeStamp, Type_GxTimeStamp, TimePrimitive)
INHERIT(GxTimeStamp, Type_GxTimeStamp, Object)
INHERIT(GxTour, Type_GxTour, GxTour)
INHERIT(GxTour, Type_GxTour, Feature)
INHERIT(GxTour, Type_GxTour, Object)
INHERIT(GxTourControl, Type_GxTourControl, GxTourControl)
INHERIT(GxTourControl, Type_GxTourControl, GxTourPrimitive)
INHERIT(GxTourControl, Type_GxTourControl, Object)
INHERIT(GxTrack, Type_GxTrack, GxTrack)
INHERIT(GxTrack, Type_GxTrack, AltitudeGeometryCommon)
INHERIT(GxTrack, Type_GxTrack, Geometry)
INHERIT(GxTrack, Type_GxTrack, Object)
INHERIT(GxWait, Type_GxWait, GxWait)
INHERIT(GxWait, Type_GxWait, GxTourPrimitiveCommon)
INHERIT(GxWait, Type_GxWait, GxTourPrimitive)
INHERIT(GxWait, Type_GxWait, Object)
