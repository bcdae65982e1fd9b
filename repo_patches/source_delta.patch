From 3dd30d8023ae51aee355735a3523b72757304105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:18 +0000
Subject: [PATCH 01/31] fix: compare the altitude mode of line strings and
 polygons

---
 fastkml/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index bb14f78..907e8f0 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -639,6 +639,7 @@ class LineString(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
@@ -1123,6 +1124,7 @@ class Polygon(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
-- 
2.43.0


From dd0737a9c738df37409215b77e2422c4bed1980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:46 +0000
Subject: [PATCH 02/31] fix: make geometry equality symmetric and type aware

---
 fastkml/geometry.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 907e8f0..c8f3c86 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -466,15 +466,14 @@ class Point(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the Point objects are equal."""
-        if isinstance(other, Point):
-            return all(
+        if isinstance(other, Point) and type(other) is type(self):
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -633,8 +632,8 @@ class LineString(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
-        if isinstance(other, LineString):
-            return all(
+        if isinstance(other, LineString) and type(other) is type(self):
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -642,7 +641,6 @@ class LineString(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
@@ -1118,8 +1116,8 @@ class Polygon(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the Polygon objects are equal."""
-        if isinstance(other, Polygon):
-            return all(
+        if isinstance(other, Polygon) and type(other) is type(self):
+            return self._get_splat() == other._get_splat() and all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
                     "extrude",
@@ -1127,7 +1125,6 @@ class Polygon(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
             )
         return super().__eq__(other)
-- 
2.43.0


From 393b7836acde5676aac1394926e974b5c274dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:47 +0000
Subject: [PATCH 03/31] fix: do not modify the name_spaces passed to KML.parse

---
 fastkml/kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..87ca13d 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -237,7 +237,7 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = {**name_spaces} if name_spaces else {}
         if ns:
             name_spaces["kml"] = ns
         name_spaces = {**config.NAME_SPACES, **name_spaces}
-- 
2.43.0


From 3e46e8b8bcf64f67ce729f650402448e85ec010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:47 +0000
Subject: [PATCH 04/31] fix: report invalid integer attributes as parse errors

---
 fastkml/helpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..d059c28 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -884,7 +884,17 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    try:
+        return {kwarg: int(attr)} if attr else {}
+    except ValueError as exc:
+        handle_error(
+            error=exc,
+            strict=strict,
+            element=element,
+            node=element,
+            expected="Integer",
+        )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From 6c6b8f7b04c4dff7f0e24d76009ccfbc6db7c165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:47 +0000
Subject: [PATCH 05/31] fix: strip and skip empty time values in tracks

---
 fastkml/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index d059c28..c05030d 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1153,9 +1153,12 @@ def datetime_subelement_list_kwarg(
     cls = classes[0]
     if subelements := element.findall(f"{ns}{node_name}"):
         for subelement in subelements:
+            node_text = subelement.text.strip() if subelement.text else ""
+            if not node_text:
+                continue
             try:
                 args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
+                    cls.parse(node_text),  # type: ignore[attr-defined]
                 )
             except ValueError as exc:  # noqa: PERF203
                 handle_error(
-- 
2.43.0


From efe34bd4e1566e94423ea37385a147a505e15c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:47 +0000
Subject: [PATCH 06/31] fix: keep the angles of a track aligned with its items

---
 fastkml/gx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..31c9553 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -356,7 +356,9 @@ class Track(_Geometry):
             The angles of the track items.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
 
     def __bool__(self) -> bool:
         """
-- 
2.43.0


From 60fd8d3e2c2d5633e866f0502c70e5a4ff989d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:47 +0000
Subject: [PATCH 07/31] fix: write icon styles that have no icon

---
 fastkml/styles.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index b5b9292..e3c93c2 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -507,15 +507,24 @@ class IconStyle(_ColorStyle):
 
     def __bool__(self) -> bool:
         """
-        Check if the Style has an icon.
+        Check if the IconStyle has any values set.
 
         Returns
         -------
         bool
-            True if the Style has an icon, False otherwise.
+            True if any of the values is set, False otherwise.
 
         """
-        return bool(self.icon)
+        return bool(self.icon) or any(
+            value is not None
+            for value in (
+                self.color,
+                self.color_mode,
+                self.scale,
+                self.heading,
+                self.hot_spot,
+            )
+        )
 
     @property
     def icon_href(self) -> Optional[str]:
-- 
2.43.0


From 2ef743977d95aa07e35306826449158998e39332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:30 +0000
Subject: [PATCH 08/31] fix: return None when validating without schema support

---
 fastkml/validator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..d3fa032 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,6 +130,8 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
+    if not hasattr(config.etree, "XMLSchema"):
+        return None
     try:
         schema_parser = get_schema_parser(schema)
     except AttributeError:
-- 
2.43.0


From 7c250516070c5249a4bd58b47c24fc6953bf9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:44 +0000
Subject: [PATCH 09/31] fix: read screen overlays at the top level of a KML
 document

---
 fastkml/kml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 87ca13d..e365c44 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -54,6 +54,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -66,6 +67,7 @@ kml_children = Union[
     Placemark,
     GroundOverlay,
     PhotoOverlay,
+    ScreenOverlay,
     NetworkLinkControl,
 ]
 
@@ -300,12 +302,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From 9da2ea64e9ff7580307323b7342d077f40992b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 10/31] fix: write the schemata of a document before its
 features

---
 fastkml/containers.py | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 1a3e773..9c55ed5 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -326,28 +326,6 @@ class Document(_Container):
         )
 
 
-registry.register(
-    _Container,
-    RegistryItem(
-        ns_ids=("kml", ""),
-        attr_name="features",
-        node_name=(
-            "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
-            "NetworkLink"
-        ),
-        classes=(
-            Document,
-            Folder,
-            Placemark,
-            GroundOverlay,
-            PhotoOverlay,
-            ScreenOverlay,
-            NetworkLink,
-        ),
-        get_kwarg=xml_subelement_list_kwarg,
-        set_element=xml_subelement_list,
-    ),
-)
 registry.register(
     Document,
     RegistryItem(
@@ -359,3 +337,24 @@ registry.register(
         set_element=xml_subelement_list,
     ),
 )
+_features = RegistryItem(
+    ns_ids=("kml", ""),
+    attr_name="features",
+    node_name=(
+        "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+        "NetworkLink"
+    ),
+    classes=(
+        Document,
+        Folder,
+        Placemark,
+        GroundOverlay,
+        PhotoOverlay,
+        ScreenOverlay,
+        NetworkLink,
+    ),
+    get_kwarg=xml_subelement_list_kwarg,
+    set_element=xml_subelement_list,
+)
+registry.register(Folder, _features)
+registry.register(Document, _features)
-- 
2.43.0


From f4d2ee9df22c8e8836be7354555c9889184e2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:03 +0000
Subject: [PATCH 11/31] fix: do not drop minLodPixels 256 from terse output

256 is not the default of minLodPixels (the schema says 0), and a Lod without it is incomplete.
---
 fastkml/views.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fastkml/views.py b/fastkml/views.py
index 57b3048..08d7032 100644
--- a/fastkml/views.py
+++ b/fastkml/views.py
@@ -722,7 +722,6 @@ registry.register(
         classes=(float,),
         get_kwarg=subelement_int_kwarg,
         set_element=int_subelement,
-        default=256,
     ),
 )
 registry.register(
-- 
2.43.0


From a378c6547d6063f560cce13279dfb64f74301177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:03 +0000
Subject: [PATCH 12/31] fix: use the schema's defaults for the hot spot
 position

---
 fastkml/styles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/styles.py b/fastkml/styles.py
index e3c93c2..49a9a7c 100644
--- a/fastkml/styles.py
+++ b/fastkml/styles.py
@@ -364,7 +364,7 @@ registry.register(
         classes=(float,),
         get_kwarg=attribute_float_kwarg,
         set_element=float_attribute,
-        default=0.5,
+        default=1.0,
     ),
 )
 registry.register(
@@ -376,7 +376,7 @@ registry.register(
         classes=(float,),
         get_kwarg=attribute_float_kwarg,
         set_element=float_attribute,
-        default=0.5,
+        default=1.0,
     ),
 )
 registry.register(
-- 
2.43.0


From 187a0954b80e0b039bd52129e70f8a97a19f9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:40 +0000
Subject: [PATCH 13/31] fix: write years before 1000 with four digits

---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..4ae03f2 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04d}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04d}-{self.dt.month:02d}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From 2a7abb8dcb9c98118e7d775186a6c32a6bd76949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:40 +0000
Subject: [PATCH 14/31] fix: accept additional keyword arguments in overlays

---
 fastkml/overlays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index 48bfcdd..c8b8fd8 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -144,6 +144,7 @@ class _Overlay(_Feature):
         color: Optional[str] = None,
         draw_order: Optional[int] = None,
         icon: Optional[Icon] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize an Overlay object.
@@ -194,6 +195,8 @@ class _Overlay(_Feature):
             The draw order of the overlay.
         icon : Optional[Icon]
             The icon associated with the overlay.
+        **kwargs : Any
+            Additional keyword arguments.
 
         Returns
         -------
@@ -220,6 +223,7 @@ class _Overlay(_Feature):
             styles=styles,
             region=region,
             extended_data=extended_data,
+            **kwargs,
         )
         self.icon = icon
         self.color = clean_string(color)
-- 
2.43.0


From ba529d74dbd0081ecffcc1a7ae7d29ce18c7b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:55 +0000
Subject: [PATCH 15/31] fix: write extensions registered for the KML root
 element

---
 fastkml/kml.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index e365c44..cc3535f 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -187,15 +187,16 @@ class KML(_XMLObject):
             root = config.etree.Element(
                 f"{self.ns}{self.get_tag_name()}",
             )
-        xml_subelement_list(
-            obj=self,
-            element=root,
-            attr_name="features",
-            node_name="",
-            precision=precision,
-            verbosity=verbosity,
-            default=None,
-        )
+        for item in registry.get(self.__class__):
+            item.set_element(
+                obj=self,
+                element=root,
+                attr_name=item.attr_name,
+                node_name=item.node_name,
+                precision=precision,
+                verbosity=verbosity,
+                default=item.default,
+            )
         return cast(Element, root)
 
     def append(
-- 
2.43.0


From a3bdc02cddd39f33a1227308d11d77546a42f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 16/31] fix: refuse a polygon geometry together with inner
 boundaries

The inner boundaries passed by the caller were silently discarded.
---
 fastkml/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index c8f3c86..207e200 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1032,7 +1032,9 @@ class Polygon(_Geometry):
         None
 
         """
-        if outer_boundary is not None and geometry is not None:
+        if geometry is not None and (
+            outer_boundary is not None or inner_boundaries is not None
+        ):
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
             outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
-- 
2.43.0


From 4abab2907b7889284423fc1e623e4cc71f0622e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:17 +0000
Subject: [PATCH 17/31] fix: use the caller's namespace for the parts of a
 geometry

Coordinates and boundaries created from a geometry ignored the ns and
name_spaces given to the point, line or polygon.
---
 fastkml/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 207e200..3541b78 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -415,7 +415,11 @@ class Point(_Geometry):
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None and geometry:
             kml_coordinates = (
-                Coordinates(coords=geometry.coords)  # type: ignore[arg-type]
+                Coordinates(
+                    ns=ns,
+                    name_spaces=name_spaces,
+                    coords=geometry.coords,  # type: ignore[arg-type]
+                )
                 if geometry
                 else None
             )
@@ -590,7 +594,11 @@ class LineString(_Geometry):
         if geometry is not None and kml_coordinates is not None:
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None:
-            kml_coordinates = Coordinates(coords=geometry.coords) if geometry else None
+            kml_coordinates = (
+                Coordinates(ns=ns, name_spaces=name_spaces, coords=geometry.coords)
+                if geometry
+                else None
+            )
         self.kml_coordinates = kml_coordinates
         self.extrude = extrude
         self.tessellate = tessellate
@@ -1037,9 +1045,14 @@ class Polygon(_Geometry):
         ):
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
-            outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
+            outer_boundary = OuterBoundaryIs(
+                ns=ns,
+                name_spaces=name_spaces,
+                geometry=geometry.exterior,
+            )
             inner_boundaries = [
-                InnerBoundaryIs(geometry=interior) for interior in geometry.interiors
+                InnerBoundaryIs(ns=ns, name_spaces=name_spaces, geometry=interior)
+                for interior in geometry.interiors
             ]
         self.outer_boundary = outer_boundary
         self.inner_boundaries = list(inner_boundaries) if inner_boundaries else []
-- 
2.43.0


From 14f4bd9c852ff7feda06084e45289dcbcc6fd728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:29 +0000
Subject: [PATCH 18/31] fix: evaluate the parts of a multi geometry only once

Every level evaluated its parts twice, so that the time to write or test
a nested multi geometry doubled with each level.
---
 fastkml/geometry.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 3541b78..f636120 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -1350,9 +1350,8 @@ class MultiGeometry(_BaseObject):
     @property
     def geometry(self) -> Optional[MultiGeometryType]:
         """Return the geometry of the MultiGeometry."""
-        return create_multigeometry(
-            [geom.geometry for geom in self.kml_geometries if geom.geometry],
-        )
+        geometries = [geom.geometry for geom in self.kml_geometries]
+        return create_multigeometry([geometry for geometry in geometries if geometry])
 
 
 registry.register(
-- 
2.43.0


From 6f1b8ee78569dff5166c2d900eec606609eb4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:28 +0000
Subject: [PATCH 19/31] fix: keep track entries together when a time or
 position is unusable

An unparsable time or position in a track shifted all later entries
(lenient), and a different number of times and positions or a position
with a wrong number of values raised a TypeError.
---
 fastkml/gx.py      | 13 ++++--------
 fastkml/helpers.py | 50 ++++++++++++++++++++++++----------------------
 2 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 31c9553..7b3fa4a 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -87,7 +87,6 @@ from typing import Iterable
 from typing import List
 from typing import Optional
 from typing import Tuple
-from typing import cast
 
 import pygeoif.geometry as geo
 from pygeoif.types import PointType
@@ -257,16 +256,12 @@ class Track(_Geometry):
         if not track_items and whens and coords:
             track_items = [
                 TrackItem(
-                    when=cast(KmlDateTime, when),
+                    when=when,
                     coord=geo.Point(*coord),
-                    angle=Angle(*angle),
-                )
-                for when, coord, angle in zip_longest(
-                    whens,
-                    coords,
-                    angles,
-                    fillvalue=(),
+                    angle=Angle(*(angle or ())),
                 )
+                for when, coord, angle in zip_longest(whens, coords, angles)
+                if when and coord
             ]
         self.track_items = list(track_items) if track_items else []
         self.extended_data = extended_data
diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index c05030d..64a223b 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1147,27 +1147,26 @@ def datetime_subelement_list_kwarg(
     kwarg: str,
     classes: Tuple[Type[object], ...],
     strict: bool,
-) -> Dict[str, List["KmlDateTime"]]:
+) -> Dict[str, List[Optional["KmlDateTime"]]]:
     """Extract a list of KML datetime values from subelements of an XML element."""
-    args_list: List[KmlDateTime] = []
+    args_list: List[Optional[KmlDateTime]] = []
     cls = classes[0]
     if subelements := element.findall(f"{ns}{node_name}"):
         for subelement in subelements:
             node_text = subelement.text.strip() if subelement.text else ""
-            if not node_text:
-                continue
-            try:
-                args_list.append(
-                    cls.parse(node_text),  # type: ignore[attr-defined]
-                )
-            except ValueError as exc:  # noqa: PERF203
-                handle_error(
-                    error=exc,
-                    strict=strict,
-                    element=element,
-                    node=subelement,
-                    expected="DateTime",
-                )
+            value = None  # keeps the values that follow in their position
+            if node_text:
+                try:
+                    value = cls.parse(node_text)  # type: ignore[attr-defined]
+                except ValueError as exc:
+                    handle_error(
+                        error=exc,
+                        strict=strict,
+                        element=element,
+                        node=subelement,
+                        expected="DateTime",
+                    )
+            args_list.append(value)
     return {kwarg: args_list} if args_list else {}
 
 
@@ -1175,15 +1174,17 @@ def get_coord_args(
     element: Element,
     subelements: Iterable[Element],
     strict: bool,  # noqa: FBT001
-) -> Iterable[PointType]:
+) -> Iterable[Optional[PointType]]:
     """Extract a list of KML coordinate values from subelements of an XML element."""
     for subelement in subelements:
-        if subelement.text:
+        if subelement.text and subelement.text.strip():
+            value = None  # keeps the values that follow in their position
             try:
-                yield cast(
-                    PointType,
-                    tuple(float(coord) for coord in subelement.text.split()),
-                )
+                coords = tuple(float(coord) for coord in subelement.text.split())
+                if len(coords) not in (2, 3):
+                    msg = f"Invalid dimensions in coordinates '{coords}'"
+                    raise ValueError(msg)  # noqa: TRY301
+                value = cast(PointType, coords)
             except ValueError as exc:
                 handle_error(
                     error=exc,
@@ -1192,6 +1193,7 @@ def get_coord_args(
                     node=subelement,
                     expected="Coordinates",
                 )
+            yield value
 
 
 def coords_subelement_list_kwarg(
@@ -1203,9 +1205,9 @@ def coords_subelement_list_kwarg(
     kwarg: str,
     classes: Tuple[Type[object], ...],
     strict: bool,
-) -> Dict[str, List[PointType]]:
+) -> Dict[str, List[Optional[PointType]]]:
     """Extract a list of KML coordinate values from subelements of an XML element."""
-    args_list: List[PointType] = []
+    args_list: List[Optional[PointType]] = []
     if subelements := element.findall(f"{ns}{node_name}"):
         args_list = list(get_coord_args(element, subelements, strict))
     return {kwarg: args_list} if args_list else {}
-- 
2.43.0


From 6bd4d3c2df4393c3b0214521f972707659f40c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:22 +0000
Subject: [PATCH 20/31] fix: reject dates with dangling or repeated dashes

A text such as '1997--16' was read as the year 1997, silently dropping the
rest; '1997-' and '1997-07-' were accepted.
---
 fastkml/times.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 4ae03f2..b440086 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -51,7 +51,7 @@ __all__ = [
 # year and month may be separated by an optional dash
 # year is always 4 digits, month, day is always 2 digits
 year_month_day = re.compile(
-    r"^(?P<year>\d{4})(?:-)?(?P<month>\d{2})?(?:-)?(?P<day>\d{2})?$",
+    r"^(?P<year>\d{4})(?:-?(?P<month>\d{2})(?:-?(?P<day>\d{2}))?)?$",
 )
 
 
-- 
2.43.0


From 7a4c62073ee11934d07f88d3d9bec0266c500a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:33 +0000
Subject: [PATCH 21/31] fix: report time values out of range as parse errors

A time such as 9999-12-31T23:59:59.9999999Z raised an OverflowError, even
when reading leniently.
---
 fastkml/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 64a223b..1dfdd16 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1127,7 +1127,7 @@ def datetime_subelement_kwarg(
     if node_text:
         try:
             return {kwarg: cls.parse(node_text)}  # type: ignore[attr-defined]
-        except ValueError as exc:
+        except (OverflowError, ValueError) as exc:
             handle_error(
                 error=exc,
                 strict=strict,
@@ -1158,7 +1158,7 @@ def datetime_subelement_list_kwarg(
             if node_text:
                 try:
                     value = cls.parse(node_text)  # type: ignore[attr-defined]
-                except ValueError as exc:
+                except (OverflowError, ValueError) as exc:
                     handle_error(
                         error=exc,
                         strict=strict,
-- 
2.43.0


From 5bb9d64153d837ac862af9d24a0340a1d6078659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:01 +0000
Subject: [PATCH 22/31] fix: keep times and positions paired when a track
 position is empty

An empty <gx:coord/> was skipped, so that every following position was
paired with the time of the entry before it.
---
 fastkml/gx.py      | 2 +-
 fastkml/helpers.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 7b3fa4a..8542c67 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -249,7 +249,7 @@ class Track(_Geometry):
             If both `geometry` and `track_items` are specified.
 
         """
-        angles = list(angles) if angles else []
+        angles = [angle for angle in angles if angle != ()] if angles else []
         if (whens or coords) and track_items:
             msg = "Cannot specify both geometry and track_items"
             raise ValueError(msg)
diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 1dfdd16..8f65206 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1194,6 +1194,8 @@ def get_coord_args(
                     expected="Coordinates",
                 )
             yield value
+        else:
+            yield cast(PointType, ())  # an empty element keeps its position, too
 
 
 def coords_subelement_list_kwarg(
-- 
2.43.0


From 385c03c2d2ef7e44b0bc8dfbb70791a1a2f0ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:44 +0000
Subject: [PATCH 23/31] fix: report no geometry for lines and rings with
 invalid coordinates

Like for points, coordinates that are not pairs or triples (e.g. '1 2'
instead of '1,2') now yield no geometry; comparing or printing such a
line raised a TypeError.
---
 fastkml/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index f636120..ab5c96d 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -668,7 +668,7 @@ class LineString(_Geometry):
             return None
         try:
             return geo.LineString.from_coordinates(self.kml_coordinates.coords)
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
@@ -808,7 +808,7 @@ class LinearRing(LineString):
                 geo.LinearRing,
                 geo.LinearRing.from_coordinates(self.kml_coordinates.coords),
             )
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
-- 
2.43.0


From 5503610936f6e64e38661b98383932e5823804d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:27 +0000
Subject: [PATCH 24/31] fix: copy the list of coordinates passed in

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index ab5c96d..9ed6a4b 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -266,7 +266,7 @@ class Coordinates(_XMLObject):
 
         """
         super().__init__(ns=ns, name_spaces=name_spaces, **kwargs)
-        self.coords = coords or []
+        self.coords = list(coords) if coords else []
 
     def __repr__(self) -> str:
         """Create a string (c)representation for Coordinates."""
-- 
2.43.0


From e5e04a4b020852b6adb87c76d1ee6d206f5ce6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:27 +0000
Subject: [PATCH 25/31] fix: read strings with an encoding declaration under
 lxml

---
 fastkml/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 8fa9d87..4299ea8 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -441,12 +441,17 @@ class _XMLObject:
         name_spaces = name_spaces or {}
         name_spaces = {**config.NAME_SPACES, **name_spaces}
         ns = cls._get_ns(ns, name_spaces=name_spaces)
+        try:
+            element = config.etree.fromstring(string)
+        except ValueError:
+            # lxml refuses strings with an encoding declaration.
+            element = config.etree.fromstring(
+                string.encode("utf-8"),
+                parser=config.etree.XMLParser(encoding="utf-8"),
+            )
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
             strict=strict,
-            element=cast(
-                Element,
-                config.etree.fromstring(string),
-            ),
+            element=cast(Element, element),
         )
-- 
2.43.0


From 38916774074fa5da4d8490c5f09a5efefe1fbba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:27 +0000
Subject: [PATCH 26/31] fix: read text streams with an encoding declaration
 under lxml

---
 fastkml/kml.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index cc3535f..61dea15 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -26,6 +26,7 @@ http://schemas.opengis.net/kml/.
 
 """
 
+import io
 import logging
 import zipfile
 from pathlib import Path
@@ -98,13 +99,26 @@ def lxml_parse_and_validate(
     """
     if strict and validate is None:
         validate = True
-    tree = config.etree.parse(
-        file,
-        parser=config.etree.XMLParser(
-            huge_tree=True,
-            recover=True,
-        ),
-    )
+    try:
+        tree = config.etree.parse(
+            file,
+            parser=config.etree.XMLParser(
+                huge_tree=True,
+                recover=True,
+            ),
+        )
+    except ValueError:
+        if not isinstance(file, io.StringIO):
+            raise
+        # lxml refuses io.StringIO with an encoding declaration.
+        tree = config.etree.parse(
+            io.BytesIO(file.getvalue().encode("utf-8")),
+            parser=config.etree.XMLParser(
+                huge_tree=True,
+                recover=True,
+                encoding="utf-8",
+            ),
+        )
     if validate:
         validator.validate(element=tree)
     return cast(Element, tree.getroot())
-- 
2.43.0


From 14b3a132a222845ad0943b14203ebc2585d93a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:27 +0000
Subject: [PATCH 27/31] fix: do not truncate the file when the content cannot
 be encoded

---
 fastkml/kml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 61dea15..46a9114 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -299,12 +299,14 @@ class KML(_XMLObject):
                 encoding="unicode",
             )
 
+        # Encode before opening the file, so that it is not truncated on failure.
+        content = xml_content.encode("UTF-8")
         if file_path.suffix == ".kmz":
             with zipfile.ZipFile(file_path, "w", zipfile.ZIP_DEFLATED) as kmz:
-                kmz.writestr("doc.kml", xml_content)
+                kmz.writestr("doc.kml", content)
         else:
-            with file_path.open("w", encoding="UTF-8") as file:
-                file.write(xml_content)
+            with file_path.open("wb") as file:
+                file.write(content)
 
 
 registry.register(
-- 
2.43.0


From 5a9b0d542ad36d9860698ad273160e7c6dcedcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:20 +0000
Subject: [PATCH 28/31] fix: report invalid parts of a document as validation
 errors

---
 fastkml/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index d3fa032..c0a0aac 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -85,7 +85,7 @@ def handle_validation_error(
             parent = element.xpath(error_entry.path)[  # type: ignore[attr-defined]
                 0
             ].getparent()
-        except config.etree.XPathEvalError:
+        except (config.etree.XPathEvalError, IndexError):
             parent = element
         if parent is None:
             parent = element
-- 
2.43.0


From 6530ed7d7afb14a9968b990104553c9c4f862050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:31 +0000
Subject: [PATCH 29/31] fix: no style for URLs without a fragment

---
 fastkml/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 9c55ed5..40aef02 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -316,6 +316,8 @@ class Document(_Container):
 
         """
         id_ = urlparse.urlparse(style_url).fragment
+        if not id_:
+            return None
         return next(
             find_all(  # type: ignore[arg-type]
                 self,
-- 
2.43.0


From 5d568516cca9083c00f1b2007dcaa7fbf763202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:21 +0000
Subject: [PATCH 30/31] fix: comments inside a value no longer cut off the text
 after them

---
 fastkml/base.py | 13 +++++++++++--
 fastkml/kml.py  |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 4299ea8..06a0a3c 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -442,12 +442,21 @@ class _XMLObject:
         name_spaces = {**config.NAME_SPACES, **name_spaces}
         ns = cls._get_ns(ns, name_spaces=name_spaces)
         try:
-            element = config.etree.fromstring(string)
+            # lxml keeps comments, which would cut off the text following them.
+            parser = config.etree.XMLParser(remove_comments=True, remove_pis=True)
+        except TypeError:
+            parser = None
+        try:
+            element = config.etree.fromstring(string, parser=parser)
         except ValueError:
             # lxml refuses strings with an encoding declaration.
             element = config.etree.fromstring(
                 string.encode("utf-8"),
-                parser=config.etree.XMLParser(encoding="utf-8"),
+                parser=config.etree.XMLParser(
+                    encoding="utf-8",
+                    remove_comments=True,
+                    remove_pis=True,
+                ),
             )
         return cls.class_from_element(
             ns=ns,
diff --git a/fastkml/kml.py b/fastkml/kml.py
index 46a9114..85983ca 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -105,6 +105,8 @@ def lxml_parse_and_validate(
             parser=config.etree.XMLParser(
                 huge_tree=True,
                 recover=True,
+                remove_comments=True,
+                remove_pis=True,
             ),
         )
     except ValueError:
@@ -116,6 +118,8 @@ def lxml_parse_and_validate(
             parser=config.etree.XMLParser(
                 huge_tree=True,
                 recover=True,
+                remove_comments=True,
+                remove_pis=True,
                 encoding="utf-8",
             ),
         )
-- 
2.43.0


From 3e67f8266ab87e6e1078a6e6e15761005e0d2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:54 +0000
Subject: [PATCH 31/31] fix: read text and nesting of any size under lxml

---
 fastkml/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 06a0a3c..a85a74f 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -443,7 +443,11 @@ class _XMLObject:
         ns = cls._get_ns(ns, name_spaces=name_spaces)
         try:
             # lxml keeps comments, which would cut off the text following them.
-            parser = config.etree.XMLParser(remove_comments=True, remove_pis=True)
+            parser = config.etree.XMLParser(
+                huge_tree=True,
+                remove_comments=True,
+                remove_pis=True,
+            )
         except TypeError:
             parser = None
         try:
@@ -454,6 +458,7 @@ class _XMLObject:
                 string.encode("utf-8"),
                 parser=config.etree.XMLParser(
                     encoding="utf-8",
+                    huge_tree=True,
                     remove_comments=True,
                     remove_pis=True,
                 ),
-- 
2.43.0

