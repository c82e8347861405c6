// Reflection table over the public DOM accessors (one line per accessor set).
F_DBL(AbstractLatLonBox, north)
F_DBL(AbstractLatLonBox, south)
F_DBL(AbstractLatLonBox, east)
F_DBL(AbstractLatLonBox, west)
F_CHILD(AbstractView, gx_timeprimitive, TimePrimitive)
F_DBL(AbstractViewCommon, longitude)
F_DBL(AbstractViewCommon, latitude)
F_DBL(AbstractViewCommon, altitude)
F_DBL(AbstractViewCommon, heading)
F_DBL(AbstractViewCommon, tilt)
F_INT(AbstractViewCommon, altitudemode)
F_INT(AbstractViewCommon, gx_altitudemode)
F_DBL(LookAt, range)
F_DBL(Camera, roll)
F_STR(AtomAuthor, name)
F_STR(AtomAuthor, uri)
F_STR(AtomAuthor, email)
F_STR(AtomCommon, id)
F_STR(AtomCommon, title)
F_STR(AtomCommon, updated)
F_ARR(AtomCommon, category, AtomCategory)
F_ARR(AtomCommon, link, AtomLink)
F_STR(AtomCategory, term)
F_STR(AtomCategory, scheme)
F_STR(AtomCategory, label)
F_STR(AtomContent, src)
F_STR(AtomContent, type)
F_STR(AtomEntry, summary)
F_CHILD(AtomEntry, content, AtomContent)
F_ARR(AtomFeed, entry, AtomEntry)
F_STR(AtomLink, href)
F_STR(AtomLink, rel)
F_STR(AtomLink, type)
F_STR(AtomLink, hreflang)
F_STR(AtomLink, title)
F_INT(AtomLink, length)
F_COLOR(BalloonStyle, bgcolor)
F_COLOR(BalloonStyle, textcolor)
F_STR(BalloonStyle, text)
F_INT(BalloonStyle, displaymode)
F_COLOR(ColorStyle, color)
F_INT(ColorStyle, colormode)
F_ARR(Container, feature, Feature)
F_ARR(Document, schema, Schema)
F_ARR(Document, styleselector, StyleSelector)
F_STR(SimpleData, name)
F_STR(SimpleData, text)
F_STR(GxSimpleArrayData, name)
F_SARR(GxSimpleArrayData, gx_value)
F_STR(SchemaData, schemaurl)
F_ARR(SchemaData, simpledata, SimpleData)
F_ARR(SchemaData, gx_simplearraydata, GxSimpleArrayData)
F_STR(Data, name)
F_STR(Data, displayname)
F_STR(Data, value)
F_ARR(ExtendedData, data, Data)
F_ARR(ExtendedData, schemadata, SchemaData)
F_STR(Feature, name)
F_BOOL(Feature, visibility)
F_BOOL(Feature, open)
F_CHILD(Feature, atomauthor, AtomAuthor)
F_CHILD(Feature, atomlink, AtomLink)
F_STR(Feature, address)
F_CHILD(Feature, xaladdressdetails, XalAddressDetails)
F_STR(Feature, phonenumber)
F_CHILD(Feature, snippet, Snippet)
F_STR(Feature, description)
F_CHILD(Feature, abstractview, AbstractView)
F_CHILD(Feature, timeprimitive, TimePrimitive)
F_STR(Feature, styleurl)
F_CHILD(Feature, styleselector, StyleSelector)
F_CHILD(Feature, region, Region)
F_CHILD(Feature, extendeddata, ExtendedData)
F_BOOL(Feature, gx_balloonvisibility)
F_VARR(Coordinates, coordinates)
F_INT(AltitudeGeometryCommon, altitudemode)
F_INT(AltitudeGeometryCommon, gx_altitudemode)
F_BOOL(ExtrudeGeometryCommon, extrude)
F_CHILD(CoordinatesGeometryCommon, coordinates, Coordinates)
F_BOOL(LineCommon, tessellate)
F_CHILD(BoundaryCommon, linearring, LinearRing)
F_BOOL(Polygon, tessellate)
F_CHILD(Polygon, outerboundaryis, OuterBoundaryIs)
F_ARR(Polygon, innerboundaryis, InnerBoundaryIs)
F_ARR(MultiGeometry, geometry, Geometry)
F_CHILD(GxTrack, model, Model)
F_CHILD(GxTrack, extendeddata, ExtendedData)
F_SARR(GxTrack, when)
F_VARR(GxTrack, gx_coord)
F_VARR(GxTrack, gx_angles)
F_BOOL(GxMultiTrack, gx_interpolate)
F_ARR(GxMultiTrack, gx_track, GxTrack)
F_DBL(Location, longitude)
F_DBL(Location, latitude)
F_DBL(Location, altitude)
F_DBL(Orientation, heading)
F_DBL(Orientation, tilt)
F_DBL(Orientation, roll)
F_DBL(Scale, x)
F_DBL(Scale, y)
F_DBL(Scale, z)
F_STR(Alias, targethref)
F_STR(Alias, sourcehref)
F_ARR(ResourceMap, alias, Alias)
F_CHILD(Model, location, Location)
F_CHILD(Model, orientation, Orientation)
F_CHILD(Model, scale, Scale)
F_CHILD(Model, link, Link)
F_CHILD(Model, resourcemap, ResourceMap)
F_CHILD(GxTour, gx_playlist, GxPlaylist)
F_ARR(GxPlaylist, gx_tourprimitive, GxTourPrimitive)
F_DBL(GxTourPrimitiveCommon, gx_duration)
F_CHILD(GxAnimatedUpdate, update, Update)
F_INT(GxFlyTo, gx_flytomode)
F_CHILD(GxFlyTo, abstractview, AbstractView)
F_STR(GxSoundCue, href)
F_INT(GxTourControl, gx_playmode)
F_DBL(IconStyle, scale)
F_DBL(IconStyle, heading)
F_CHILD(IconStyle, icon, IconStyleIcon)
F_CHILD(IconStyle, hotspot, HotSpot)
F_STR(Kml, hint)
F_CHILD(Kml, networklinkcontrol, NetworkLinkControl)
F_CHILD(Kml, feature, Feature)
F_DBL(LabelStyle, scale)
F_DBL(LineStyle, width)
F_STR(BasicLink, href)
F_INT(AbstractLink, refreshmode)
F_DBL(AbstractLink, refreshinterval)
F_INT(AbstractLink, viewrefreshmode)
F_DBL(AbstractLink, viewrefreshtime)
F_DBL(AbstractLink, viewboundscale)
F_STR(AbstractLink, viewformat)
F_STR(AbstractLink, httpquery)
F_DBL(IconStyleIcon, gx_x)
F_DBL(IconStyleIcon, gx_y)
F_DBL(IconStyleIcon, gx_w)
F_DBL(IconStyleIcon, gx_h)
F_STR(ItemIcon, href)
F_IARR(ItemIcon, state)
F_INT(ListStyle, listitemtype)
F_COLOR(ListStyle, bgcolor)
F_INT(ListStyle, maxsnippetlines)
F_ARR(ListStyle, itemicon, ItemIcon)
F_BOOL(NetworkLink, refreshvisibility)
F_BOOL(NetworkLink, flytoview)
F_CHILD(NetworkLink, link, Link)
F_ARR(Create, container, Container)
F_ARR(Delete, feature, Feature)
F_ARR(Change, object, Object)
F_STR(Update, targethref)
F_ARR(Update, updateoperation, UpdateOperation)
F_DBL(NetworkLinkControl, minrefreshperiod)
F_DBL(NetworkLinkControl, maxsessionlength)
F_STR(NetworkLinkControl, cookie)
F_STR(NetworkLinkControl, message)
F_STR(NetworkLinkControl, linkname)
F_STR(NetworkLinkControl, linkdescription)
F_CHILD(NetworkLinkControl, linksnippet, LinkSnippet)
F_STR(NetworkLinkControl, expires)
F_CHILD(NetworkLinkControl, update, Update)
F_CHILD(NetworkLinkControl, abstractview, AbstractView)
F_STR(Object, id)
F_STR(Object, targetid)
F_COLOR(Overlay, color)
F_INT(Overlay, draworder)
F_CHILD(Overlay, icon, Icon)
F_DBL(LatLonBox, rotation)
F_CHILD(GxLatLonQuad, coordinates, Coordinates)
F_DBL(GroundOverlay, altitude)
F_INT(GroundOverlay, altitudemode)
F_INT(GroundOverlay, gx_altitudemode)
F_CHILD(GroundOverlay, latlonbox, LatLonBox)
F_CHILD(GroundOverlay, gx_latlonquad, GxLatLonQuad)
F_CHILD(ScreenOverlay, overlayxy, OverlayXY)
F_CHILD(ScreenOverlay, screenxy, ScreenXY)
F_CHILD(ScreenOverlay, rotationxy, RotationXY)
F_CHILD(ScreenOverlay, size, Size)
F_DBL(ScreenOverlay, rotation)
F_DBL(ViewVolume, leftfov)
F_DBL(ViewVolume, rightfov)
F_DBL(ViewVolume, bottomfov)
F_DBL(ViewVolume, topfov)
F_DBL(ViewVolume, near)
F_INT(ImagePyramid, tilesize)
F_INT(ImagePyramid, maxwidth)
F_INT(ImagePyramid, maxheight)
F_INT(ImagePyramid, gridorigin)
F_DBL(PhotoOverlay, rotation)
F_CHILD(PhotoOverlay, viewvolume, ViewVolume)
F_CHILD(PhotoOverlay, imagepyramid, ImagePyramid)
F_CHILD(PhotoOverlay, point, Point)
F_INT(PhotoOverlay, shape)
F_CHILD(Placemark, geometry, Geometry)
F_BOOL(PolyStyle, fill)
F_BOOL(PolyStyle, outline)
F_DBL(LatLonAltBox, minaltitude)
F_DBL(LatLonAltBox, maxaltitude)
F_INT(LatLonAltBox, altitudemode)
F_INT(LatLonAltBox, gx_altitudemode)
F_DBL(Lod, minlodpixels)
F_DBL(Lod, maxlodpixels)
F_DBL(Lod, minfadeextent)
F_DBL(Lod, maxfadeextent)
F_CHILD(Region, latlonaltbox, LatLonAltBox)
F_CHILD(Region, lod, Lod)
F_STR(SimpleField, type)
F_STR(SimpleField, name)
F_STR(SimpleField, displayname)
F_STR(Schema, name)
F_ARR(Schema, simplefield, SimpleField)
F_ARR(Schema, gx_simplearrayfield, GxSimpleArrayField)
F_STR(SnippetCommon, text)
F_INT(SnippetCommon, maxlines)
F_CHILD(Style, iconstyle, IconStyle)
F_CHILD(Style, labelstyle, LabelStyle)
F_CHILD(Style, linestyle, LineStyle)
F_CHILD(Style, polystyle, PolyStyle)
F_CHILD(Style, balloonstyle, BalloonStyle)
F_CHILD(Style, liststyle, ListStyle)
F_INT(Pair, key)
F_STR(Pair, styleurl)
F_CHILD(Pair, styleselector, StyleSelector)
F_ARR(StyleMap, pair, Pair)
F_STR(TimeSpan, begin)
F_STR(TimeSpan, end)
F_STR(TimeStamp, when)
F_DBL(Vec2, x)
F_DBL(Vec2, y)
F_INT(Vec2, xunits)
F_INT(Vec2, yunits)
F_CHILD(XalAddressDetails, country, XalCountry)
F_STR(XalAdministrativeArea, administrativeareaname)
F_CHILD(XalAdministrativeArea, locality, XalLocality)
F_CHILD(XalAdministrativeArea, subadministrativearea, XalSubAdministrativeArea)
F_STR(XalCountry, countrynamecode)
F_CHILD(XalCountry, administrativearea, XalAdministrativeArea)
F_STR(XalLocality, localityname)
F_CHILD(XalLocality, thoroughfare, XalThoroughfare)
F_CHILD(XalLocality, postalcode, XalPostalCode)
F_STR(XalPostalCode, postalcodenumber)
F_STR(XalSubAdministrativeArea, subadministrativeareaname)
F_CHILD(XalSubAdministrativeArea, locality, XalLocality)
F_STR(XalThoroughfare, thoroughfarename)
F_STR(XalThoroughfare, thoroughfarenumber)
