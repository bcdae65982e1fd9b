"""
Reference vocabulary of the KML subset that fastkml supports.

This table is the *specification*: it was written down once, compared with the KML 2.2
schema (element order, namespaces, value types, default values) and is deliberately NOT
derived from the library's registry at run time, so a change of the registry, of a helper
or of a constructor shows up as a disagreement.

C(name, module, tag, namespace id, fields...)      one element type
F(attribute, kind, xml name, [enum | classes], default, ns)   one value, in output order

kinds: @text @int @float @enum   XML attributes
       text bool int float enum date   child elements with a typed text
       content   the text of the element itself
       coords    the text of <coordinates>
       obj list  nested element types
       track     the entries of a gx:Track (parallel <when>, <gx:coord>, <gx:angles>)
"""
from collections import OrderedDict


class F:
    __slots__ = ("attr", "kind", "xml", "arg", "default", "ns")

    def __init__(self, attr, kind, xml, arg=None, default=None, ns=("kml",)):
        self.attr, self.kind, self.xml, self.arg = attr, kind, xml, arg
        self.default, self.ns = default, ns


class C:
    __slots__ = ("name", "module", "tag", "ns", "fields", "by_attr")

    def __init__(self, name, module, tag, ns, *fields):
        self.name, self.module, self.tag, self.ns, self.fields = name, module, tag, ns, fields
        self.by_attr = {f.attr: f for f in fields}


ENUMS = {
    "AltitudeMode": ("clampToGround", "relativeToGround", "absolute", "clampToSeaFloor", "relativeToSeaFloor"),
    "DataType": ("string", "int", "uint", "short", "ushort", "float", "double", "bool"),
    "RefreshMode": ("onChange", "onInterval", "onExpire"),
    "ViewRefreshMode": ("never", "onStop", "onRequest", "onRegion"),
    "ColorMode": ("normal", "random"),
    "DisplayMode": ("default", "hide"),
    "Shape": ("rectangle", "cylinder", "sphere"),
    "GridOrigin": ("lowerLeft", "upperLeft"),
    "Units": ("fraction", "pixels", "insetPixels"),
    "PairKey": ("normal", "highlight"),
}
#: enumeration values that live in the gx namespace
GX_VALUES = {"clampToSeaFloor", "relativeToSeaFloor"}

NS = {
    "kml": "http://www.opengis.net/kml/2.2",
    "atom": "http://www.w3.org/2005/Atom",
    "gx": "http://www.google.com/kml/ext/2.2",
    "": "",
}

CLASSES = [
    C('atom.Link', 'fastkml.atom', 'link', 'atom',
      F('href', '@text', 'href', ns=('', 'atom')),
      F('rel', '@text', 'rel', ns=('', 'atom')),
      F('type', '@text', 'type', ns=('', 'atom')),
      F('hreflang', '@text', 'hreflang', ns=('', 'atom')),
      F('title', '@text', 'title', ns=('', 'atom')),
      F('length', '@int', 'length', ns=('', 'atom')),
    ),
    C('atom.Author', 'fastkml.atom', 'author', 'atom',
      F('name', 'text', 'name', ns=('atom',)),
      F('uri', 'text', 'uri', ns=('atom',)),
      F('email', 'text', 'email', ns=('atom',)),
    ),
    C('atom.Contributor', 'fastkml.atom', 'contributor', 'atom',
      F('name', 'text', 'name', ns=('atom',)),
      F('uri', 'text', 'uri', ns=('atom',)),
      F('email', 'text', 'email', ns=('atom',)),
    ),
    C('Data', 'fastkml.data', 'Data', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('display_name', 'text', 'displayName', ns=('kml', '')),
      F('value', 'text', 'value', ns=('kml', '')),
      F('name', '@text', 'name', ns=('', 'kml')),
    ),
    C('SchemaData', 'fastkml.data', 'SchemaData', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('schema_url', '@text', 'schemaUrl', ns=('', 'kml')),
      F('data', 'list', '', ('SimpleData',), ns=('kml', '')),
    ),
    C('Point', 'fastkml.geometry', 'Point', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('extrude', 'bool', 'extrude', default=False, ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
      F('kml_coordinates', 'obj', '', ('Coordinates',), ns=('kml', '')),
    ),
    C('LineString', 'fastkml.geometry', 'LineString', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('extrude', 'bool', 'extrude', default=False, ns=('kml', '')),
      F('tessellate', 'bool', 'tessellate', default=False, ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
      F('kml_coordinates', 'obj', '', ('Coordinates',), ns=('kml', '')),
    ),
    C('LinearRing', 'fastkml.geometry', 'LinearRing', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('extrude', 'bool', 'extrude', default=False, ns=('kml', '')),
      F('tessellate', 'bool', 'tessellate', default=False, ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
      F('kml_coordinates', 'obj', '', ('Coordinates',), ns=('kml', '')),
    ),
    C('Polygon', 'fastkml.geometry', 'Polygon', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('extrude', 'bool', 'extrude', default=False, ns=('kml', '')),
      F('tessellate', 'bool', 'tessellate', default=False, ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
      F('outer_boundary', 'obj', '', ('OuterBoundaryIs',), ns=('kml', '')),
      F('inner_boundaries', 'list', '', ('InnerBoundaryIs',), ns=('kml', '')),
    ),
    C('Track', 'fastkml.gx', 'Track', 'gx',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('gx', 'kml', '')),
      F('track_items', 'track', '', ns=('gx',)),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
    ),
    C('MultiTrack', 'fastkml.gx', 'MultiTrack', 'gx',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('gx', 'kml')),
      F('interpolate', 'bool', 'interpolate', ns=('gx',)),
      F('tracks', 'list', '', ('Track',), ns=('gx',)),
    ),
    C('MultiGeometry', 'fastkml.geometry', 'MultiGeometry', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('kml_geometries', 'list', '', ('Point', 'LineString', 'Polygon', 'LinearRing', 'MultiGeometry'), ns=('kml', '')),
    ),
    C('TimeStamp', 'fastkml.times', 'TimeStamp', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('timestamp', 'date', 'when', ns=('kml', 'gx', '')),
    ),
    C('TimeSpan', 'fastkml.times', 'TimeSpan', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('begin', 'date', 'begin', ns=('kml', 'gx', '')),
      F('end', 'date', 'end', ns=('kml', 'gx', '')),
    ),
    C('Link', 'fastkml.links', 'Link', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('href', 'text', 'href', ns=('kml', '')),
      F('refresh_mode', 'enum', 'refreshMode', 'RefreshMode', default='onChange', ns=('kml', '')),
      F('refresh_interval', 'float', 'refreshInterval', default=4.0, ns=('kml', '')),
      F('view_refresh_mode', 'enum', 'viewRefreshMode', 'ViewRefreshMode', default='never', ns=('kml', '')),
      F('view_refresh_time', 'float', 'viewRefreshTime', default=4.0, ns=('kml', '')),
      F('view_bound_scale', 'float', 'viewBoundScale', default=1.0, ns=('kml', '')),
      F('view_format', 'text', 'viewFormat', default='BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]', ns=('kml', '')),
      F('http_query', 'text', 'httpQuery', ns=('kml', '')),
    ),
    C('Icon', 'fastkml.links', 'Icon', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('href', 'text', 'href', ns=('kml', '')),
      F('refresh_mode', 'enum', 'refreshMode', 'RefreshMode', default='onChange', ns=('kml', '')),
      F('refresh_interval', 'float', 'refreshInterval', default=4.0, ns=('kml', '')),
      F('view_refresh_mode', 'enum', 'viewRefreshMode', 'ViewRefreshMode', default='never', ns=('kml', '')),
      F('view_refresh_time', 'float', 'viewRefreshTime', default=4.0, ns=('kml', '')),
      F('view_bound_scale', 'float', 'viewBoundScale', default=1.0, ns=('kml', '')),
      F('view_format', 'text', 'viewFormat', default='BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]', ns=('kml', '')),
      F('http_query', 'text', 'httpQuery', ns=('kml', '')),
    ),
    C('Model', 'fastkml.model', 'Model', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
      F('location', 'obj', '', ('Location',), ns=('kml', '')),
      F('orientation', 'obj', '', ('Orientation',), ns=('kml', '')),
      F('scale', 'obj', '', ('Scale',), ns=('kml', '')),
      F('link', 'obj', '', ('Link',), ns=('kml', '')),
      F('resource_map', 'obj', '', ('ResourceMap',), ns=('kml', '')),
    ),
    C('Style', 'fastkml.styles', 'Style', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('styles', 'list', '', ('IconStyle', 'LabelStyle', 'LineStyle', 'PolyStyle', 'BalloonStyle'), ns=('kml', '')),
    ),
    C('StyleMap', 'fastkml.styles', 'StyleMap', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('pairs', 'list', '', ('Pair',), ns=('kml', '')),
    ),
    C('IconStyle', 'fastkml.styles', 'IconStyle', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('color', 'text', 'color', default='ffffffff', ns=('kml', '')),
      F('color_mode', 'enum', 'colorMode', 'ColorMode', default='normal', ns=('kml', '')),
      F('scale', 'float', 'scale', default=1.0, ns=('kml', '')),
      F('heading', 'float', 'heading', default=0.0, ns=('kml', '')),
      F('icon', 'obj', '', ('Icon',), ns=('kml', '')),
      F('hot_spot', 'obj', '', ('HotSpot',), ns=('kml', '')),
    ),
    C('LineStyle', 'fastkml.styles', 'LineStyle', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('color', 'text', 'color', default='ffffffff', ns=('kml', '')),
      F('color_mode', 'enum', 'colorMode', 'ColorMode', default='normal', ns=('kml', '')),
      F('width', 'float', 'width', default=1.0, ns=('kml', '')),
    ),
    C('PolyStyle', 'fastkml.styles', 'PolyStyle', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('color', 'text', 'color', default='ffffffff', ns=('kml', '')),
      F('color_mode', 'enum', 'colorMode', 'ColorMode', default='normal', ns=('kml', '')),
      F('fill', 'bool', 'fill', default=True, ns=('kml', '')),
      F('outline', 'bool', 'outline', default=True, ns=('kml', '')),
    ),
    C('LabelStyle', 'fastkml.styles', 'LabelStyle', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('color', 'text', 'color', default='ffffffff', ns=('kml', '')),
      F('color_mode', 'enum', 'colorMode', 'ColorMode', default='normal', ns=('kml', '')),
      F('scale', 'float', 'scale', default=1.0, ns=('kml', '')),
    ),
    C('BalloonStyle', 'fastkml.styles', 'BalloonStyle', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('bg_color', 'text', 'bgColor', default='ffffffff', ns=('kml', '')),
      F('text_color', 'text', 'textColor', default='ff000000', ns=('kml', '')),
      F('text', 'text', 'text', ns=('kml', '')),
      F('display_mode', 'enum', 'displayMode', 'DisplayMode', default='default', ns=('kml', '')),
    ),
    C('Pair', 'fastkml.styles', 'Pair', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('key', 'enum', 'key', 'PairKey', ns=('kml', '')),
      F('style', 'obj', '', ('StyleUrl', 'Style'), ns=('kml', '')),
    ),
    C('Camera', 'fastkml.views', 'Camera', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('longitude', 'float', 'longitude', default=0.0, ns=('kml', '')),
      F('latitude', 'float', 'latitude', default=0.0, ns=('kml', '')),
      F('altitude', 'float', 'altitude', default=0.0, ns=('kml', '')),
      F('heading', 'float', 'heading', default=0.0, ns=('kml', '')),
      F('tilt', 'float', 'tilt', default=0.0, ns=('kml', '')),
      F('roll', 'float', 'roll', default=0.0, ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
    ),
    C('LookAt', 'fastkml.views', 'LookAt', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('longitude', 'float', 'longitude', default=0.0, ns=('kml', '')),
      F('latitude', 'float', 'latitude', default=0.0, ns=('kml', '')),
      F('altitude', 'float', 'altitude', default=0.0, ns=('kml', '')),
      F('heading', 'float', 'heading', default=0.0, ns=('kml', '')),
      F('tilt', 'float', 'tilt', default=0.0, ns=('kml', '')),
      F('range', 'float', 'range', ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
    ),
    C('Region', 'fastkml.views', 'Region', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('lat_lon_alt_box', 'obj', '', ('LatLonAltBox',), ns=('kml', '')),
      F('lod', 'obj', '', ('Lod',), ns=('kml', '')),
    ),
    C('Placemark', 'fastkml.features', 'Placemark', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('name', 'text', 'name', ns=('kml', '')),
      F('visibility', 'bool', 'visibility', default=True, ns=('kml', '')),
      F('isopen', 'bool', 'open', default=False, ns=('kml', '')),
      F('atom_author', 'obj', '', ('atom.Author',), ns=('atom',)),
      F('atom_link', 'obj', '', ('atom.Link',), ns=('atom',)),
      F('address', 'text', 'address', ns=('kml', '')),
      F('phone_number', 'text', 'phoneNumber', ns=('kml', '')),
      F('snippet', 'obj', '', ('Snippet',), ns=('kml', '')),
      F('description', 'text', 'description', ns=('kml', '')),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml', '')),
      F('times', 'obj', '', ('TimeSpan', 'TimeStamp'), ns=('kml', '')),
      F('style_url', 'obj', '', ('StyleUrl',), ns=('kml', '')),
      F('styles', 'list', '', ('Style', 'StyleMap'), ns=('kml', '')),
      F('region', 'obj', '', ('Region',), ns=('kml', '')),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
      F('kml_geometry', 'obj', '', ('Point', 'LineString', 'LinearRing', 'Polygon', 'MultiGeometry', 'Model', 'MultiTrack', 'Track'), ns=('kml', 'gx', '')),
    ),
    C('NetworkLink', 'fastkml.features', 'NetworkLink', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('name', 'text', 'name', ns=('kml', '')),
      F('visibility', 'bool', 'visibility', default=True, ns=('kml', '')),
      F('isopen', 'bool', 'open', default=False, ns=('kml', '')),
      F('atom_author', 'obj', '', ('atom.Author',), ns=('atom',)),
      F('atom_link', 'obj', '', ('atom.Link',), ns=('atom',)),
      F('address', 'text', 'address', ns=('kml', '')),
      F('phone_number', 'text', 'phoneNumber', ns=('kml', '')),
      F('snippet', 'obj', '', ('Snippet',), ns=('kml', '')),
      F('description', 'text', 'description', ns=('kml', '')),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml', '')),
      F('times', 'obj', '', ('TimeSpan', 'TimeStamp'), ns=('kml', '')),
      F('style_url', 'obj', '', ('StyleUrl',), ns=('kml', '')),
      F('styles', 'list', '', ('Style', 'StyleMap'), ns=('kml', '')),
      F('region', 'obj', '', ('Region',), ns=('kml', '')),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
      F('refresh_visibility', 'bool', 'refreshVisibility', default=False, ns=('kml', '')),
      F('fly_to_view', 'bool', 'flyToView', default=False, ns=('kml', '')),
      F('link', 'obj', '', ('Link',), ns=('kml', '')),
    ),
    C('PhotoOverlay', 'fastkml.overlays', 'PhotoOverlay', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('name', 'text', 'name', ns=('kml', '')),
      F('visibility', 'bool', 'visibility', default=True, ns=('kml', '')),
      F('isopen', 'bool', 'open', default=False, ns=('kml', '')),
      F('atom_author', 'obj', '', ('atom.Author',), ns=('atom',)),
      F('atom_link', 'obj', '', ('atom.Link',), ns=('atom',)),
      F('address', 'text', 'address', ns=('kml', '')),
      F('phone_number', 'text', 'phoneNumber', ns=('kml', '')),
      F('snippet', 'obj', '', ('Snippet',), ns=('kml', '')),
      F('description', 'text', 'description', ns=('kml', '')),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml', '')),
      F('times', 'obj', '', ('TimeSpan', 'TimeStamp'), ns=('kml', '')),
      F('style_url', 'obj', '', ('StyleUrl',), ns=('kml', '')),
      F('styles', 'list', '', ('Style', 'StyleMap'), ns=('kml', '')),
      F('region', 'obj', '', ('Region',), ns=('kml', '')),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
      F('color', 'text', 'color', default='ffffffff', ns=('kml', '')),
      F('draw_order', 'int', 'drawOrder', default=0, ns=('kml', '')),
      F('icon', 'obj', '', ('Icon',), ns=('kml', '')),
      F('rotation', 'float', 'rotation', default=0.0, ns=('kml', '')),
      F('view_volume', 'obj', '', ('ViewVolume',), ns=('kml', '')),
      F('image_pyramid', 'obj', '', ('ImagePyramid',), ns=('kml', '')),
      F('point', 'obj', '', ('Point',), ns=('kml', '')),
      F('shape', 'enum', 'shape', 'Shape', default='rectangle', ns=('kml', '')),
    ),
    C('GroundOverlay', 'fastkml.overlays', 'GroundOverlay', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('name', 'text', 'name', ns=('kml', '')),
      F('visibility', 'bool', 'visibility', default=True, ns=('kml', '')),
      F('isopen', 'bool', 'open', default=False, ns=('kml', '')),
      F('atom_author', 'obj', '', ('atom.Author',), ns=('atom',)),
      F('atom_link', 'obj', '', ('atom.Link',), ns=('atom',)),
      F('address', 'text', 'address', ns=('kml', '')),
      F('phone_number', 'text', 'phoneNumber', ns=('kml', '')),
      F('snippet', 'obj', '', ('Snippet',), ns=('kml', '')),
      F('description', 'text', 'description', ns=('kml', '')),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml', '')),
      F('times', 'obj', '', ('TimeSpan', 'TimeStamp'), ns=('kml', '')),
      F('style_url', 'obj', '', ('StyleUrl',), ns=('kml', '')),
      F('styles', 'list', '', ('Style', 'StyleMap'), ns=('kml', '')),
      F('region', 'obj', '', ('Region',), ns=('kml', '')),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
      F('color', 'text', 'color', default='ffffffff', ns=('kml', '')),
      F('draw_order', 'int', 'drawOrder', default=0, ns=('kml', '')),
      F('icon', 'obj', '', ('Icon',), ns=('kml', '')),
      F('altitude', 'float', 'altitude', default=0.0, ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
      F('lat_lon_box', 'obj', '', ('LatLonBox',), ns=('kml', '')),
    ),
    C('ScreenOverlay', 'fastkml.overlays', 'ScreenOverlay', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('name', 'text', 'name', ns=('kml', '')),
      F('visibility', 'bool', 'visibility', default=True, ns=('kml', '')),
      F('isopen', 'bool', 'open', default=False, ns=('kml', '')),
      F('atom_author', 'obj', '', ('atom.Author',), ns=('atom',)),
      F('atom_link', 'obj', '', ('atom.Link',), ns=('atom',)),
      F('address', 'text', 'address', ns=('kml', '')),
      F('phone_number', 'text', 'phoneNumber', ns=('kml', '')),
      F('snippet', 'obj', '', ('Snippet',), ns=('kml', '')),
      F('description', 'text', 'description', ns=('kml', '')),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml', '')),
      F('times', 'obj', '', ('TimeSpan', 'TimeStamp'), ns=('kml', '')),
      F('style_url', 'obj', '', ('StyleUrl',), ns=('kml', '')),
      F('styles', 'list', '', ('Style', 'StyleMap'), ns=('kml', '')),
      F('region', 'obj', '', ('Region',), ns=('kml', '')),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
      F('color', 'text', 'color', default='ffffffff', ns=('kml', '')),
      F('draw_order', 'int', 'drawOrder', default=0, ns=('kml', '')),
      F('icon', 'obj', '', ('Icon',), ns=('kml', '')),
      F('overlay_xy', 'obj', '', ('OverlayXY',), ns=('kml', '')),
      F('screen_xy', 'obj', '', ('ScreenXY',), ns=('kml', '')),
      F('rotation_xy', 'obj', '', ('RotationXY',), ns=('kml', '')),
      F('size', 'obj', '', ('Size',), ns=('kml', '')),
      F('rotation', 'float', 'rotation', default=0.0, ns=('kml', '')),
    ),
    C('Folder', 'fastkml.containers', 'Folder', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('name', 'text', 'name', ns=('kml', '')),
      F('visibility', 'bool', 'visibility', default=True, ns=('kml', '')),
      F('isopen', 'bool', 'open', default=False, ns=('kml', '')),
      F('atom_author', 'obj', '', ('atom.Author',), ns=('atom',)),
      F('atom_link', 'obj', '', ('atom.Link',), ns=('atom',)),
      F('address', 'text', 'address', ns=('kml', '')),
      F('phone_number', 'text', 'phoneNumber', ns=('kml', '')),
      F('snippet', 'obj', '', ('Snippet',), ns=('kml', '')),
      F('description', 'text', 'description', ns=('kml', '')),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml', '')),
      F('times', 'obj', '', ('TimeSpan', 'TimeStamp'), ns=('kml', '')),
      F('style_url', 'obj', '', ('StyleUrl',), ns=('kml', '')),
      F('styles', 'list', '', ('Style', 'StyleMap'), ns=('kml', '')),
      F('region', 'obj', '', ('Region',), ns=('kml', '')),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
      F('features', 'list', '', ('Document', 'Folder', 'Placemark', 'GroundOverlay', 'PhotoOverlay', 'ScreenOverlay', 'NetworkLink'), ns=('kml', '')),
    ),
    C('Document', 'fastkml.containers', 'Document', 'kml',
      F('id', '@text', 'id', ns=('', 'kml')),
      F('target_id', '@text', 'targetId', ns=('', 'kml')),
      F('name', 'text', 'name', ns=('kml', '')),
      F('visibility', 'bool', 'visibility', default=True, ns=('kml', '')),
      F('isopen', 'bool', 'open', default=False, ns=('kml', '')),
      F('atom_author', 'obj', '', ('atom.Author',), ns=('atom',)),
      F('atom_link', 'obj', '', ('atom.Link',), ns=('atom',)),
      F('address', 'text', 'address', ns=('kml', '')),
      F('phone_number', 'text', 'phoneNumber', ns=('kml', '')),
      F('snippet', 'obj', '', ('Snippet',), ns=('kml', '')),
      F('description', 'text', 'description', ns=('kml', '')),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml', '')),
      F('times', 'obj', '', ('TimeSpan', 'TimeStamp'), ns=('kml', '')),
      F('style_url', 'obj', '', ('StyleUrl',), ns=('kml', '')),
      F('styles', 'list', '', ('Style', 'StyleMap'), ns=('kml', '')),
      F('region', 'obj', '', ('Region',), ns=('kml', '')),
      F('extended_data', 'obj', '', ('ExtendedData',), ns=('kml', '')),
      F('schemata', 'list', '', ('Schema',), ns=('kml', '')),
      F('features', 'list', '', ('Document', 'Folder', 'Placemark', 'GroundOverlay', 'PhotoOverlay', 'ScreenOverlay', 'NetworkLink'), ns=('kml', '')),
    ),
    C('SimpleField', 'fastkml.data', 'SimpleField', 'kml',
      F('display_name', 'text', 'displayName', ns=('kml', '')),
      F('name', '@text', 'name', ns=('', 'kml')),
      F('type_', '@enum', 'type', 'DataType', ns=('', 'kml')),
    ),
    C('Schema', 'fastkml.data', 'Schema', 'kml',
      F('id', '@text', 'id', ns=('kml', '')),
      F('name', '@text', 'name', ns=('', 'kml')),
      F('fields', 'list', '', ('SimpleField',), ns=('kml', '')),
    ),
    C('SimpleData', 'fastkml.data', 'SimpleData', 'kml',
      F('value', 'content', '', ns=('kml', '')),
      F('name', '@text', 'name', ns=('', 'kml')),
    ),
    C('ExtendedData', 'fastkml.data', 'ExtendedData', 'kml',
      F('elements', 'list', '', ('Data', 'SchemaData'), ns=('kml', '')),
    ),
    C('Coordinates', 'fastkml.geometry', 'coordinates', 'kml',
      F('coords', 'coords', 'coordinates', ns=('kml', '')),
    ),
    C('OuterBoundaryIs', 'fastkml.geometry', 'outerBoundaryIs', 'kml',
      F('kml_geometry', 'obj', '', ('LinearRing',), ns=('kml', '')),
    ),
    C('InnerBoundaryIs', 'fastkml.geometry', 'innerBoundaryIs', 'kml',
      F('kml_geometry', 'obj', '', ('LinearRing',), ns=('kml', '')),
    ),
    C('Location', 'fastkml.model', 'Location', 'kml',
      F('longitude', 'float', 'longitude', ns=('kml', '')),
      F('latitude', 'float', 'latitude', ns=('kml', '')),
      F('altitude', 'float', 'altitude', default=0.0, ns=('kml', '')),
    ),
    C('Orientation', 'fastkml.model', 'Orientation', 'kml',
      F('heading', 'float', 'heading', default=0.0, ns=('kml', '')),
      F('tilt', 'float', 'tilt', default=0.0, ns=('kml', '')),
      F('roll', 'float', 'roll', default=0.0, ns=('kml', '')),
    ),
    C('Scale', 'fastkml.model', 'Scale', 'kml',
      F('x', 'float', 'x', default=1.0, ns=('kml', '')),
      F('y', 'float', 'y', default=1.0, ns=('kml', '')),
      F('z', 'float', 'z', default=1.0, ns=('kml', '')),
    ),
    C('Alias', 'fastkml.model', 'Alias', 'kml',
      F('target_href', 'text', 'targetHref', ns=('kml', '')),
      F('source_href', 'text', 'sourceHref', ns=('kml', '')),
    ),
    C('ResourceMap', 'fastkml.model', 'ResourceMap', 'kml',
      F('aliases', 'list', '', ('Alias',), ns=('kml', '')),
    ),
    C('StyleUrl', 'fastkml.styles', 'styleUrl', 'kml',
      F('url', 'content', '', ns=('kml', '')),
    ),
    C('HotSpot', 'fastkml.styles', 'hotSpot', 'kml',
      F('x', '@float', 'x', default=1.0, ns=('', 'kml')),
      F('y', '@float', 'y', default=1.0, ns=('', 'kml')),
      F('xunits', '@enum', 'xunits', 'Units', default='fraction', ns=('', 'kml')),
      F('yunits', '@enum', 'yunits', 'Units', default='fraction', ns=('', 'kml')),
    ),
    C('LatLonAltBox', 'fastkml.views', 'LatLonAltBox', 'kml',
      F('north', 'float', 'north', ns=('kml', '')),
      F('south', 'float', 'south', ns=('kml', '')),
      F('east', 'float', 'east', ns=('kml', '')),
      F('west', 'float', 'west', ns=('kml', '')),
      F('min_altitude', 'float', 'minAltitude', default=0.0, ns=('kml', '')),
      F('max_altitude', 'float', 'maxAltitude', default=0.0, ns=('kml', '')),
      F('altitude_mode', 'enum', 'altitudeMode', 'AltitudeMode', default='clampToGround', ns=('kml', 'gx', '')),
    ),
    C('Lod', 'fastkml.views', 'Lod', 'kml',
      F('min_lod_pixels', 'int', 'minLodPixels', ns=('kml', '')),
      F('max_lod_pixels', 'int', 'maxLodPixels', default=-1, ns=('kml', '')),
      F('min_fade_extent', 'int', 'minFadeExtent', default=0, ns=('kml', '')),
      F('max_fade_extent', 'int', 'maxFadeExtent', default=0, ns=('kml', '')),
    ),
    C('Snippet', 'fastkml.features', 'Snippet', 'kml',
      F('text', 'content', '', ns=('kml', '')),
      F('max_lines', '@int', 'maxLines', default=2, ns=('', 'kml')),
    ),
    C('ViewVolume', 'fastkml.overlays', 'ViewVolume', 'kml',
      F('left_fov', 'float', 'leftFov', default=0.0, ns=('kml', '')),
      F('right_fov', 'float', 'rightFov', default=0.0, ns=('kml', '')),
      F('bottom_fov', 'float', 'bottomFov', default=0.0, ns=('kml', '')),
      F('top_fov', 'float', 'topFov', default=0.0, ns=('kml', '')),
      F('near', 'float', 'near', default=0.0, ns=('kml', '')),
    ),
    C('ImagePyramid', 'fastkml.overlays', 'ImagePyramid', 'kml',
      F('tile_size', 'int', 'tileSize', default=256, ns=('kml', '')),
      F('max_width', 'int', 'maxWidth', ns=('kml', '')),
      F('max_height', 'int', 'maxHeight', ns=('kml', '')),
      F('grid_origin', 'enum', 'gridOrigin', 'GridOrigin', default='lowerLeft', ns=('kml', '')),
    ),
    C('LatLonBox', 'fastkml.overlays', 'LatLonBox', 'kml',
      F('north', 'float', 'north', ns=('kml', '')),
      F('south', 'float', 'south', ns=('kml', '')),
      F('east', 'float', 'east', ns=('kml', '')),
      F('west', 'float', 'west', ns=('kml', '')),
      F('rotation', 'float', 'rotation', default=0.0, ns=('kml', '')),
    ),
    C('OverlayXY', 'fastkml.overlays', 'overlayXY', 'kml',
      F('x', '@float', 'x', ns=('', 'kml')),
      F('y', '@float', 'y', ns=('', 'kml')),
      F('x_units', '@enum', 'xunits', 'Units', default='fraction', ns=('', 'kml')),
      F('y_units', '@enum', 'yunits', 'Units', default='fraction', ns=('', 'kml')),
    ),
    C('ScreenXY', 'fastkml.overlays', 'screenXY', 'kml',
      F('x', '@float', 'x', ns=('', 'kml')),
      F('y', '@float', 'y', ns=('', 'kml')),
      F('x_units', '@enum', 'xunits', 'Units', default='fraction', ns=('', 'kml')),
      F('y_units', '@enum', 'yunits', 'Units', default='fraction', ns=('', 'kml')),
    ),
    C('RotationXY', 'fastkml.overlays', 'rotationXY', 'kml',
      F('x', '@float', 'x', ns=('', 'kml')),
      F('y', '@float', 'y', ns=('', 'kml')),
      F('x_units', '@enum', 'xunits', 'Units', default='fraction', ns=('', 'kml')),
      F('y_units', '@enum', 'yunits', 'Units', default='fraction', ns=('', 'kml')),
    ),
    C('Size', 'fastkml.overlays', 'size', 'kml',
      F('x', '@float', 'x', ns=('', 'kml')),
      F('y', '@float', 'y', ns=('', 'kml')),
      F('x_units', '@enum', 'xunits', 'Units', default='fraction', ns=('', 'kml')),
      F('y_units', '@enum', 'yunits', 'Units', default='fraction', ns=('', 'kml')),
    ),
    C('NetworkLinkControl', 'fastkml.network_link_control', 'NetworkLinkControl', 'kml',
      F('min_refresh_period', 'float', 'minRefreshPeriod', default=0, ns=('kml',)),
      F('max_session_length', 'float', 'maxSessionLength', default=-1, ns=('kml',)),
      F('cookie', 'text', 'cookie', ns=('kml',)),
      F('message', 'text', 'message', ns=('kml',)),
      F('link_name', 'text', 'linkName', ns=('kml',)),
      F('link_description', 'text', 'linkDescription', ns=('kml',)),
      F('link_snippet', 'text', 'linkSnippet', ns=('kml',)),
      F('expires', 'date', 'expires', ns=('kml',)),
      F('view', 'obj', '', ('Camera', 'LookAt'), ns=('kml',)),
    ),
    C('KML', 'fastkml.kml', 'kml', 'kml',
      F('features', 'list', '', ('Document', 'Folder', 'Placemark', 'GroundOverlay', 'PhotoOverlay', 'ScreenOverlay', 'NetworkLink', 'NetworkLinkControl'), ns=('kml',)),
    ),
]

SPEC = OrderedDict((c.name, c) for c in CLASSES)
