"""KML element table used by generators and reference models.

Written from the OGC KML 2.2 / Google extension schema and the order in which
KML requires children.  One line per class: own attributes and children in
schema order.  Kinds: s string, b bool, d double, i int, c colour,
e:<enum>, C:<class or group> child, A:<class or group> repeated child,
S string array, V vector array ("lon lat alt"), T text content, P coordinates.
"""
ENUMS = {
    'altitudeMode': ['clampToGround', 'relativeToGround', 'absolute'],
    'colorMode': ['normal', 'random'],
    'displayMode': ['default', 'hide'],
    'gridOrigin': ['lowerLeft', 'upperLeft'],
    'state': ['open', 'closed', 'error', 'fetching0', 'fetching1', 'fetching2'],
    'listItemType': ['check', 'radioFolder', 'checkOffOnly', 'checkHideChildren'],
    'refreshMode': ['onChange', 'onInterval', 'onExpire'],
    'shape': ['rectangle', 'cylinder', 'sphere'],
    'key': ['normal', 'highlight'],
    'units': ['fraction', 'pixels', 'insetPixels'],
    'viewRefreshMode': ['never', 'onRequest', 'onStop', 'onRegion'],
    'gx:altitudeMode': ['clampToSeaFloor', 'relativeToSeaFloor'],
    'gx:flyToMode': ['bounce', 'smooth'],
    'gx:playMode': ['pause'],
}
OBJ = '@id:s @targetId:s '
FEAT1 = (OBJ + 'name:s visibility:b open:b atom:author:C:AtomAuthor atom:link:C:AtomLink address:s '
         'phoneNumber:s xal:AddressDetails:C:XalAddressDetails Snippet:C:Snippet description:s '
         '*AbstractView:C:AbstractView *TimePrimitive:C:TimePrimitive styleUrl:s ')
FEAT2 = 'Region:C:Region ExtendedData:C:ExtendedData gx:balloonVisibility:b '
FEAT = FEAT1 + '*StyleSelector:C:StyleSelector ' + FEAT2
VIEW1 = OBJ + '*gxTime:C:GxTime longitude:d latitude:d altitude:d heading:d tilt:d '
VIEW2 = 'altitudeMode:e:altitudeMode gx:altitudeMode:e:gx:altitudeMode '
ALT = VIEW2
COLOR = OBJ + 'color:c colorMode:e:colorMode '
LLB = OBJ + 'north:d south:d east:d west:d '
OVER = FEAT + 'color:c drawOrder:i Icon:C:Icon '
LINK = (OBJ + 'href:s refreshMode:e:refreshMode refreshInterval:d viewRefreshMode:e:viewRefreshMode '
        'viewRefreshTime:d viewBoundScale:d viewFormat:s httpQuery:s')
VEC2 = '@x:d @y:d @xunits:e:units @yunits:e:units'
ATOMC = 'atom:id:s atom:title:s atom:updated:s atom:category:A:AtomCategory atom:link:A:AtomLink '
# class -> (xml name, fields)
RAW = {
    'LookAt': ('LookAt', VIEW1 + 'range:d ' + VIEW2),
    'Camera': ('Camera', VIEW1 + 'roll:d ' + VIEW2),
    'AtomAuthor': ('atom:author', 'atom:name:s atom:uri:s atom:email:s'),
    'AtomCategory': ('atom:category', '@term:s @scheme:s @label:s'),
    'AtomContent': ('atom:content', '@src:s @type:s'),
    'AtomLink': ('atom:link', '@href:s @rel:s @type:s @hreflang:s @title:s @length:i'),
    'AtomEntry': ('atom:entry', ATOMC + 'atom:summary:s atom:content:C:AtomContent'),
    'AtomFeed': ('atom:feed', ATOMC + 'atom:entry:A:AtomEntry'),
    'BalloonStyle': ('BalloonStyle', OBJ + 'bgColor:c textColor:c text:s displayMode:e:displayMode'),
    'Document': ('Document', FEAT1 + '*StyleSelector:A:StyleSelector ' + FEAT2 + 'Schema:A:Schema *Feature:A:Feature'),
    'Folder': ('Folder', FEAT + '*Feature:A:Feature'),
    'Placemark': ('Placemark', FEAT + '*Geometry:C:Geometry'),
    'NetworkLink': ('NetworkLink', FEAT + 'refreshVisibility:b flyToView:b Link:C:Link'),
    'GroundOverlay': ('GroundOverlay', OVER + 'altitude:d ' + ALT + 'LatLonBox:C:LatLonBox gx:LatLonQuad:C:GxLatLonQuad'),
    'PhotoOverlay': ('PhotoOverlay', OVER + 'rotation:d ViewVolume:C:ViewVolume ImagePyramid:C:ImagePyramid Point:C:Point shape:e:shape'),
    'ScreenOverlay': ('ScreenOverlay', OVER + 'overlayXY:C:OverlayXY screenXY:C:ScreenXY rotationXY:C:RotationXY size:C:Size rotation:d'),
    'GxTour': ('gx:Tour', FEAT + 'gx:Playlist:C:GxPlaylist'),
    'SimpleData': ('SimpleData', '@name:s text:T'),
    'GxSimpleArrayData': ('gx:SimpleArrayData', '@name:s gx:value:S'),
    'SchemaData': ('SchemaData', OBJ + '@schemaUrl:s SimpleData:A:SimpleData gx:SimpleArrayData:A:GxSimpleArrayData'),
    'Data': ('Data', OBJ + '@name:s displayName:s value:s'),
    'ExtendedData': ('ExtendedData', 'Data:A:Data SchemaData:A:SchemaData'),
    'Coordinates': ('coordinates', 'coordinates:P'),
    'Point': ('Point', OBJ + 'extrude:b ' + ALT + 'coordinates:C:Coordinates'),
    'LineString': ('LineString', OBJ + 'extrude:b tessellate:b ' + ALT + 'coordinates:C:Coordinates'),
    'LinearRing': ('LinearRing', OBJ + 'extrude:b tessellate:b ' + ALT + 'coordinates:C:Coordinates'),
    'OuterBoundaryIs': ('outerBoundaryIs', 'LinearRing:C:LinearRing'),
    'InnerBoundaryIs': ('innerBoundaryIs', 'LinearRing:C:LinearRing'),
    'Polygon': ('Polygon', OBJ + 'extrude:b tessellate:b ' + ALT + 'outerBoundaryIs:C:OuterBoundaryIs innerBoundaryIs:A:InnerBoundaryIs'),
    'MultiGeometry': ('MultiGeometry', OBJ + '*Geometry:A:Geometry'),
    'GxTrack': ('gx:Track', OBJ + ALT + 'when:S gx:coord:V gx:angles:V Model:C:Model ExtendedData:C:ExtendedData'),
    'GxMultiTrack': ('gx:MultiTrack', OBJ + 'gx:interpolate:b gx:Track:A:GxTrack'),
    'GxPlaylist': ('gx:Playlist', OBJ + '*GxTourPrimitive:A:GxTourPrimitive'),
    'GxAnimatedUpdate': ('gx:AnimatedUpdate', OBJ + 'gx:duration:d Update:C:Update'),
    'GxFlyTo': ('gx:FlyTo', OBJ + 'gx:duration:d gx:flyToMode:e:gx:flyToMode *AbstractView:C:AbstractView'),
    'GxWait': ('gx:Wait', OBJ + 'gx:duration:d'),
    'GxSoundCue': ('gx:SoundCue', OBJ + 'href:s'),
    'GxTourControl': ('gx:TourControl', OBJ + 'gx:playMode:e:gx:playMode'),
    'IconStyle': ('IconStyle', COLOR + 'scale:d heading:d Icon:C:IconStyleIcon hotSpot:C:HotSpot'),
    'LabelStyle': ('LabelStyle', COLOR + 'scale:d'),
    'LineStyle': ('LineStyle', COLOR + 'width:d'),
    'PolyStyle': ('PolyStyle', COLOR + 'fill:b outline:b'),
    'IconStyleIcon': ('Icon', OBJ + 'href:s gx:x:d gx:y:d gx:w:d gx:h:d'),
    'HotSpot': ('hotSpot', VEC2),
    'OverlayXY': ('overlayXY', VEC2), 'ScreenXY': ('screenXY', VEC2),
    'RotationXY': ('rotationXY', VEC2), 'Size': ('size', VEC2),
    'Link': ('Link', LINK), 'Icon': ('Icon', LINK), 'Url': ('Url', LINK),
    'ItemIcon': ('ItemIcon', OBJ + 'state:E href:s'),
    'ListStyle': ('ListStyle', OBJ + 'listItemType:e:listItemType bgColor:c ItemIcon:A:ItemIcon maxSnippetLines:i'),
    'Location': ('Location', OBJ + 'longitude:d latitude:d altitude:d'),
    'Orientation': ('Orientation', OBJ + 'heading:d tilt:d roll:d'),
    'Scale': ('Scale', OBJ + 'x:d y:d z:d'),
    'Alias': ('Alias', OBJ + 'targetHref:s sourceHref:s'),
    'ResourceMap': ('ResourceMap', OBJ + 'Alias:A:Alias'),
    'Model': ('Model', OBJ + ALT + 'Location:C:Location Orientation:C:Orientation Scale:C:Scale Link:C:Link ResourceMap:C:ResourceMap'),
    'Create': ('Create', '*Container:A:Container'),
    'Delete': ('Delete', '*Feature:A:Feature'),
    'Change': ('Change', '*Object:A:Object'),
    'Update': ('Update', 'targetHref:s *UpdateOperation:A:UpdateOperation'),
    'NetworkLinkControl': ('NetworkLinkControl', 'minRefreshPeriod:d maxSessionLength:d cookie:s message:s linkName:s '
                           'linkDescription:s linkSnippet:C:LinkSnippet expires:s Update:C:Update *AbstractView:C:AbstractView'),
    'Kml': ('kml', '@hint:s NetworkLinkControl:C:NetworkLinkControl *Feature:C:Feature'),
    'LatLonBox': ('LatLonBox', LLB + 'rotation:d'),
    'LatLonAltBox': ('LatLonAltBox', LLB + 'minAltitude:d maxAltitude:d ' + ALT),
    'GxLatLonQuad': ('gx:LatLonQuad', OBJ + 'coordinates:C:Coordinates'),
    'ViewVolume': ('ViewVolume', OBJ + 'leftFov:d rightFov:d bottomFov:d topFov:d near:d'),
    'ImagePyramid': ('ImagePyramid', OBJ + 'tileSize:i maxWidth:i maxHeight:i gridOrigin:e:gridOrigin'),
    'Lod': ('Lod', OBJ + 'minLodPixels:d maxLodPixels:d minFadeExtent:d maxFadeExtent:d'),
    'Region': ('Region', OBJ + 'LatLonAltBox:C:LatLonAltBox Lod:C:Lod'),
    'SimpleField': ('SimpleField', '@type:s @name:s displayName:s'),
    'GxSimpleArrayField': ('gx:SimpleArrayField', '@type:s @name:s displayName:s'),
    'Schema': ('Schema', OBJ + '@name:s SimpleField:A:SimpleField gx:SimpleArrayField:A:GxSimpleArrayField'),
    'Snippet': ('Snippet', '@maxLines:i text:T'),
    'LinkSnippet': ('linkSnippet', '@maxLines:i text:T'),
    'Style': ('Style', OBJ + 'IconStyle:C:IconStyle LabelStyle:C:LabelStyle LineStyle:C:LineStyle PolyStyle:C:PolyStyle '
              'BalloonStyle:C:BalloonStyle ListStyle:C:ListStyle'),
    'Pair': ('Pair', OBJ + 'key:e:key styleUrl:s *StyleSelector:C:StyleSelector'),
    'StyleMap': ('StyleMap', OBJ + 'Pair:A:Pair'),
    'TimeSpan': ('TimeSpan', OBJ + 'begin:s end:s'),
    'TimeStamp': ('TimeStamp', OBJ + 'when:s'),
    'GxTimeSpan': ('gx:TimeSpan', OBJ + 'begin:s end:s'),
    'GxTimeStamp': ('gx:TimeStamp', OBJ + 'when:s'),
    'XalAddressDetails': ('xal:AddressDetails', 'xal:Country:C:XalCountry'),
    'XalCountry': ('xal:Country', 'xal:CountryNameCode:s xal:AdministrativeArea:C:XalAdministrativeArea'),
    'XalAdministrativeArea': ('xal:AdministrativeArea', 'xal:AdministrativeAreaName:s xal:Locality:C:XalLocality '
                              'xal:SubAdministrativeArea:C:XalSubAdministrativeArea'),
    'XalSubAdministrativeArea': ('xal:SubAdministrativeArea', 'xal:SubAdministrativeAreaName:s xal:Locality:C:XalLocality'),
    'XalLocality': ('xal:Locality', 'xal:LocalityName:s xal:Thoroughfare:C:XalThoroughfare xal:PostalCode:C:XalPostalCode'),
    'XalThoroughfare': ('xal:Thoroughfare', 'xal:ThoroughfareNumber:s xal:ThoroughfareName:s'),
    'XalPostalCode': ('xal:PostalCode', 'xal:PostalCodeNumber:s'),
}
GROUPS = {
    'AbstractView': ['LookAt', 'Camera'],
    'TimePrimitive': ['TimeSpan', 'TimeStamp'],
    'GxTime': ['GxTimeSpan', 'GxTimeStamp'],
    'StyleSelector': ['Style', 'StyleMap'],
    'Container': ['Document', 'Folder'],
    'Feature': ['Document', 'Folder', 'Placemark', 'NetworkLink', 'GroundOverlay', 'PhotoOverlay', 'ScreenOverlay', 'GxTour'],
    'Geometry': ['Point', 'LineString', 'LinearRing', 'Polygon', 'MultiGeometry', 'Model', 'GxTrack', 'GxMultiTrack'],
    'GxTourPrimitive': ['GxAnimatedUpdate', 'GxFlyTo', 'GxWait', 'GxSoundCue', 'GxTourControl'],
    'UpdateOperation': ['Create', 'Delete', 'Change'],
}
ACC = {'phoneNumber': 'phonenumber', 'atom:author': 'atomauthor', 'atom:link': 'atomlink',
       'xal:AddressDetails': 'xaladdressdetails', '*gxTime': 'gx_timeprimitive'}


class Field(object):
    __slots__ = ('name', 'attr', 'kind', 'arg', 'acc', 'group')

    def __repr__(self):
        return '%s%s:%s:%s' % ('@' if self.attr else '', self.name, self.kind, self.arg)


class Cls(object):
    def __init__(self, name, xml, fields):
        self.name, self.xml, self.fields = name, xml, fields
        self.by = {f.acc: f for f in fields}
        self.byxml = {(f.attr, f.name): f for f in fields}
        self.is_object = any(f.attr and f.name == 'targetId' for f in fields)


def _accname(cls, f):
    n = f.name
    if f.group:
        n = ACC.get('*' + n) or {'GxTourPrimitive': 'gx_tourprimitive'}.get(n) or n.lower()
        return n
    if cls in ('AtomEntry', 'AtomFeed', 'AtomAuthor') and n.startswith('atom:'):
        return n[5:].lower()
    if cls.startswith('Xal') and n.startswith('xal:'):
        return n[4:].lower()
    if n in ACC:
        return ACC[n]
    return n.replace(':', '_').lower()


CLASSES = {}
for _c, (_x, _spec) in RAW.items():
    _fs = []
    for _t in _spec.split():
        f = Field()
        f.attr = _t.startswith('@')
        f.group = _t.startswith('*')
        _t = _t.lstrip('@*')
        # name may contain one ':' (prefix); kind is a single letter token
        parts = _t.split(':')
        if parts[0] in ('gx', 'atom', 'xal'):
            f.name = parts[0] + ':' + parts[1]
            rest = parts[2:]
        else:
            f.name = parts[0]
            rest = parts[1:]
        f.kind = rest[0]
        f.arg = ':'.join(rest[1:]) or None
        f.acc = _accname(_c, f)
        _fs.append(f)
    CLASSES[_c] = Cls(_c, _x, _fs)
GROUPS['Object'] = [c for c in CLASSES if CLASSES[c].is_object and c not in ('Icon', 'IconStyleIcon', 'Url', 'GxTimeSpan', 'GxTimeStamp')]


def members(arg):
    return GROUPS.get(arg, [arg])


BYXML = {}
for _c in CLASSES.values():
    BYXML.setdefault(_c.xml, _c)   # Icon: IconStyleIcon or Icon, resolved by parent
BYXML['Icon'] = CLASSES['Icon']
XMLNS = {'gx': 'http://www.google.com/kml/ext/2.2', 'atom': 'http://www.w3.org/2005/Atom',
         'xal': 'urn:oasis:names:tc:ciq:xsdschema:xAL:2.0', '': 'http://www.opengis.net/kml/2.2'}
# substitution groups an element belongs to
SUBST = {}
for _g, _ms in GROUPS.items():
    for _m in _ms:
        SUBST.setdefault(_m, set()).add(_g)
