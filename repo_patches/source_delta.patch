From f278ec59421a33cd0390961d01d3acb6ba677d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 01/32] fix: report invalid integer attributes like every other
 invalid value

attribute_int_kwarg ignored strict and let a bare ValueError escape.
---
 fastkml/helpers.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 2201029..9eaff48 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -876,7 +876,7 @@ def attribute_int_kwarg(
         node_name (str): The name of the XML node containing the attribute.
         kwarg (str): The name of the keyword argument to store the extracted attribute.
         classes (Tuple[Type[object], ...]): A tuple of known types (unused).
-        strict (bool): A flag indicating whether to raise an exception (unused).
+        strict (bool): A flag indicating whether to raise an exception.
 
     Returns:
     -------
@@ -884,7 +884,17 @@ def attribute_int_kwarg(
 
     """
     attr = element.get(f"{ns}{node_name}")
-    return {kwarg: int(attr)} if attr else {}
+    try:
+        return {kwarg: int(attr)} if attr else {}
+    except ValueError as exc:
+        handle_error(
+            error=exc,
+            strict=strict,
+            element=element,
+            node=element,
+            expected="Integer",
+        )
+    return {}
 
 
 def subelement_float_kwarg(
-- 
2.43.0


From 9a9a672762f2a3a8e04ca2b19902a513423dcb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 02/32] fix: ignore blank elements in lists of dates

An empty <when/> in a track crashed with a TypeError, strict or not.
---
 fastkml/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 9eaff48..fb5b86f 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1153,9 +1153,12 @@ def datetime_subelement_list_kwarg(
     cls = classes[0]
     if subelements := element.findall(f"{ns}{node_name}"):
         for subelement in subelements:
+            node_text = subelement.text.strip() if subelement.text else ""
+            if not node_text:
+                continue
             try:
                 args_list.append(
-                    cls.parse(subelement.text),  # type: ignore[attr-defined]
+                    cls.parse(node_text),  # type: ignore[attr-defined]
                 )
             except ValueError as exc:  # noqa: PERF203
                 handle_error(
-- 
2.43.0


From bb3e9c6ed3c27233184fb1794603438bff2f52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 03/32] fix: KML.parse must not modify the caller's name_spaces

---
 fastkml/kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index aee6f9c..dcfb5d6 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -237,7 +237,7 @@ class KML(_XMLObject):
             root = config.etree.parse(file).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
-        name_spaces = name_spaces or {}
+        name_spaces = dict(name_spaces or {})
         if ns:
             name_spaces["kml"] = ns
         name_spaces = {**config.NAME_SPACES, **name_spaces}
-- 
2.43.0


From 986b79dfae3d8ce0887cd25591f65b9c9179ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 04/32] fix: read a ScreenOverlay that is a direct child of kml

It was written but silently dropped when reading the document back.
---
 fastkml/kml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index dcfb5d6..c3424a4 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -54,6 +54,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.network_link_control import NetworkLinkControl
 from fastkml.overlays import GroundOverlay
 from fastkml.overlays import PhotoOverlay
+from fastkml.overlays import ScreenOverlay
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.types import Element
@@ -66,6 +67,7 @@ kml_children = Union[
     Placemark,
     GroundOverlay,
     PhotoOverlay,
+    ScreenOverlay,
     NetworkLinkControl,
 ]
 
@@ -300,12 +302,13 @@ registry.register(
             Placemark,
             GroundOverlay,
             PhotoOverlay,
+            ScreenOverlay,
             NetworkLink,
             NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,NetworkLink,"
-            "NetworkLinkControl"
+            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+            "NetworkLink,NetworkLinkControl"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From 71ed9006ffebe977bd9a6e12658456d28219fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 05/32] fix: LineString and Polygon equality must consider
 altitude_mode

---
 fastkml/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index bb14f78..907e8f0 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -639,6 +639,7 @@ class LineString(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
@@ -1123,6 +1124,7 @@ class Polygon(_Geometry):
                 for attr in (
                     "extrude",
                     "tessellate",
+                    "altitude_mode",
                     "geometry",
                     *xml_attrs,
                     *self._get_splat(),
-- 
2.43.0


From e9c0ebe20fc8bbe9af016ef5866b439be869b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 06/32] fix: write coordinates and boundaries in the namespace
 of their geometry

Geometries created from a pygeoif geometry in a non default namespace wrote
their coordinates in the default namespace and lost them when read back.
---
 fastkml/geometry.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 907e8f0..75dad18 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -415,7 +415,11 @@ class Point(_Geometry):
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None and geometry:
             kml_coordinates = (
-                Coordinates(coords=geometry.coords)  # type: ignore[arg-type]
+                Coordinates(
+                    ns=ns,
+                    name_spaces=name_spaces,
+                    coords=geometry.coords,  # type: ignore[arg-type]
+                )
                 if geometry
                 else None
             )
@@ -591,7 +595,11 @@ class LineString(_Geometry):
         if geometry is not None and kml_coordinates is not None:
             raise GeometryError(MsgMutualExclusive)
         if kml_coordinates is None:
-            kml_coordinates = Coordinates(coords=geometry.coords) if geometry else None
+            kml_coordinates = (
+                Coordinates(ns=ns, name_spaces=name_spaces, coords=geometry.coords)
+                if geometry
+                else None
+            )
         self.kml_coordinates = kml_coordinates
         self.extrude = extrude
         self.tessellate = tessellate
@@ -1037,9 +1045,14 @@ class Polygon(_Geometry):
         if outer_boundary is not None and geometry is not None:
             raise GeometryError(MsgMutualExclusive)
         if geometry is not None:
-            outer_boundary = OuterBoundaryIs(geometry=geometry.exterior)
+            outer_boundary = OuterBoundaryIs(
+                ns=ns,
+                name_spaces=name_spaces,
+                geometry=geometry.exterior,
+            )
             inner_boundaries = [
-                InnerBoundaryIs(geometry=interior) for interior in geometry.interiors
+                InnerBoundaryIs(ns=ns, name_spaces=name_spaces, geometry=interior)
+                for interior in geometry.interiors
             ]
         self.outer_boundary = outer_boundary
         self.inner_boundaries = list(inner_boundaries) if inner_boundaries else []
-- 
2.43.0


From 0fdaf4017816c498ee176c0fca11915898e28396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 07/32] fix: look for list children in every namespace that is
 registered

An empty list counted as found, so children without a namespace were lost.
---
 fastkml/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index fb5b86f..19c7992 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -1303,4 +1303,4 @@ def xml_subelement_list_kwarg(
                     for subelement in subelements
                 ],
             )
-    return {kwarg: args_list}
+    return {kwarg: args_list} if args_list else {}
-- 
2.43.0


From 830faee90c29e626f4e4d65bc1dd951ce7c00967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 08/32] fix: validate must not use a schema cached by another
 etree implementation

After validating with lxml, validating with the standard library raised a
TypeError instead of returning None.
---
 fastkml/validator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 404d625..0c60aac 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -130,10 +130,9 @@ def validate(
     if element is not None and file_to_validate is not None:
         raise ValueError(MUTUAL_EXCLUSIVE)
 
-    try:
-        schema_parser = get_schema_parser(schema)
-    except AttributeError:
+    if not hasattr(config.etree, "XMLSchema"):
         return None
+    schema_parser = get_schema_parser(schema)
 
     if file_to_validate is not None:
         element = config.etree.parse(file_to_validate)
-- 
2.43.0


From ec7cb7deedb8b7822b1f10342606a302ad01eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 09/32] fix: get_style_by_url without a fragment must not
 return an unrelated style

The empty fragment matched the first style without an id.
---
 fastkml/containers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index 1a3e773..d5ee8a2 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -316,6 +316,8 @@ class Document(_Container):
 
         """
         id_ = urlparse.urlparse(style_url).fragment
+        if not id_:
+            return None
         return next(
             find_all(  # type: ignore[arg-type]
                 self,
-- 
2.43.0


From f163584b6450072ffd8f77d68c3eaa296e47b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:55 +0000
Subject: [PATCH 10/32] fix: keep the angles of a track with the items they
 belong to

Items without an angle were skipped, which moved all following angles to
earlier items when the track was read back.
---
 fastkml/gx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 3611790..31c9553 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -356,7 +356,9 @@ class Track(_Geometry):
             The angles of the track items.
 
         """
-        return tuple(item.angle.coords for item in self.track_items if item.angle)
+        if not any(item.angle for item in self.track_items):
+            return ()
+        return tuple((item.angle or Angle()).coords for item in self.track_items)
 
     def __bool__(self) -> bool:
         """
-- 
2.43.0


From fee6977be1ce76b34ca8bf5467fe3b97442c2b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:19 +0000
Subject: [PATCH 11/32] fix: report tracks whose when, coord and angles do not
 match

They crashed with a TypeError, strict or not, or were read as track items
without a time, which were then written as <when>()</when>.
---
 fastkml/gx.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 31c9553..1303982 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -102,6 +102,7 @@ from fastkml.helpers import coords_subelement_list_kwarg
 from fastkml.helpers import datetime_subelement_list
 from fastkml.helpers import datetime_subelement_list_kwarg
 from fastkml.helpers import enum_subelement
+from fastkml.helpers import handle_error
 from fastkml.helpers import subelement_bool_kwarg
 from fastkml.helpers import subelement_enum_kwarg
 from fastkml.helpers import xml_subelement
@@ -111,6 +112,7 @@ from fastkml.helpers import xml_subelement_list_kwarg
 from fastkml.registry import RegistryItem
 from fastkml.registry import registry
 from fastkml.times import KmlDateTime
+from fastkml.types import Element
 
 __all__ = [
     "Angle",
@@ -279,6 +281,47 @@ class Track(_Geometry):
             **kwargs,
         )
 
+    @classmethod
+    def _get_kwargs(
+        cls,
+        *,
+        ns: str,
+        name_spaces: Optional[Dict[str, str]] = None,
+        element: Element,
+        strict: bool,
+    ) -> Dict[str, Any]:
+        """
+        Get the keyword arguments for the class constructor.
+
+        Every ``coord`` must be a position at the time given by its ``when`` and every
+        ``angles`` must belong to a ``coord``, anything else is an error.
+        """
+        kwargs = super()._get_kwargs(
+            ns=ns,
+            name_spaces=name_spaces,
+            element=element,
+            strict=strict,
+        )
+        whens = kwargs.get("whens", [])
+        coords = kwargs.get("coords", [])
+        angles = kwargs.get("angles", [])
+        if (whens and coords) and (
+            len(whens) != len(coords)
+            or len(angles) > len(coords)
+            or any(len(coord) not in (2, 3) for coord in coords)
+            or any(len(angle) > 3 for angle in angles)  # noqa: PLR2004
+        ):
+            handle_error(
+                error=ValueError("when, coord and angles do not match"),
+                strict=strict,
+                element=element,
+                node=element,
+                expected="Track",
+            )
+            for key in ("whens", "coords", "angles"):
+                kwargs.pop(key, None)
+        return kwargs
+
     def __repr__(self) -> str:
         """
         Create a string representation for Track.
-- 
2.43.0


From 7d250b9939914df66e9e95a11e704fecb3cc807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:00 +0000
Subject: [PATCH 12/32] fix: write years with four digits

strftime("%Y") does not pad years before 1000 on Linux, what was written for
them could not be read back.
---
 fastkml/times.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/times.py b/fastkml/times.py
index 8f7a451..54aa91c 100644
--- a/fastkml/times.py
+++ b/fastkml/times.py
@@ -183,9 +183,9 @@ class KmlDateTime:
     def __str__(self) -> str:
         """Return the KML DateTime string representation of the object."""
         if self.resolution == DateTimeResolution.year:
-            return self.dt.strftime("%Y")
+            return f"{self.dt.year:04}"
         if self.resolution == DateTimeResolution.year_month:
-            return self.dt.strftime("%Y-%m")
+            return f"{self.dt.year:04}-{self.dt.month:02}"
         if self.resolution == DateTimeResolution.date:
             return (
                 self.dt.date().isoformat()
-- 
2.43.0


From 1236d99e83ff50aacc6b4e5ea991568be4e715eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 13/32] fix: coordinates that are no positions are no geometry
 of a line or ring

LineString and LinearRing raised a TypeError for them where Point returns None,
so a document with such a line could be read but not written.
---
 fastkml/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 75dad18..3243a91 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -670,7 +670,7 @@ class LineString(_Geometry):
             return None
         try:
             return geo.LineString.from_coordinates(self.kml_coordinates.coords)
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
@@ -810,7 +810,7 @@ class LinearRing(LineString):
                 geo.LinearRing,
                 geo.LinearRing.from_coordinates(self.kml_coordinates.coords),
             )
-        except DimensionError:
+        except (DimensionError, TypeError):
             return None
 
 
-- 
2.43.0


From 6b404290779643a82d1febd692a27702d2f9e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:25 +0000
Subject: [PATCH 14/32] fix: refuse to append a KML object to itself

---
 fastkml/kml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index c3424a4..802c79f 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -203,6 +203,9 @@ class KML(_XMLObject):
         kmlobj: kml_children,
     ) -> None:
         """Append a feature."""
+        if kmlobj is self:
+            msg = "Cannot append self"
+            raise ValueError(msg)
         self.features.append(kmlobj)
 
     @classmethod
-- 
2.43.0


From 7e4b7ed95d2fa919c03c45689a9a0cd4e8be20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:25 +0000
Subject: [PATCH 15/32] fix: coordinates keep a copy of the list they are made
 from

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 3243a91..ad0450f 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -266,7 +266,7 @@ class Coordinates(_XMLObject):
 
         """
         super().__init__(ns=ns, name_spaces=name_spaces, **kwargs)
-        self.coords = coords or []
+        self.coords = coords[:] if coords else []
 
     def __repr__(self) -> str:
         """Create a string (c)representation for Coordinates."""
-- 
2.43.0


From cc4c2f356fde2b40ffcbdf7e5fd64c166c16ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:43 +0000
Subject: [PATCH 16/32] fix: a track with mixed dimensions has no geometry

---
 fastkml/gx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastkml/gx.py b/fastkml/gx.py
index 1303982..7a9521a 100644
--- a/fastkml/gx.py
+++ b/fastkml/gx.py
@@ -90,6 +90,7 @@ from typing import Tuple
 from typing import cast
 
 import pygeoif.geometry as geo
+from pygeoif.exceptions import DimensionError
 from pygeoif.types import PointType
 
 from fastkml import config
@@ -356,7 +357,10 @@ class Track(_Geometry):
             The geometry of the track.
 
         """
-        return track_items_to_geometry(self.track_items)
+        try:
+            return track_items_to_geometry(self.track_items)
+        except DimensionError:
+            return None
 
     @property
     def whens(self) -> Tuple[KmlDateTime, ...]:
-- 
2.43.0


From af2949d9c445ba91532e01d5090692e48e35ae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:38 +0000
Subject: [PATCH 17/32] fix: read a NetworkLinkControl without namespace

---
 fastkml/network_link_control.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastkml/network_link_control.py b/fastkml/network_link_control.py
index 01d2d06..6285540 100644
--- a/fastkml/network_link_control.py
+++ b/fastkml/network_link_control.py
@@ -158,7 +158,7 @@ class NetworkLinkControl(_XMLObject):
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="min_refresh_period",
         node_name="minRefreshPeriod",
         classes=(float,),
@@ -170,7 +170,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="max_session_length",
         node_name="maxSessionLength",
         classes=(float,),
@@ -182,7 +182,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="cookie",
         node_name="cookie",
         classes=(str,),
@@ -193,7 +193,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="message",
         node_name="message",
         classes=(str,),
@@ -204,7 +204,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_name",
         node_name="linkName",
         classes=(str,),
@@ -215,7 +215,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_description",
         node_name="linkDescription",
         classes=(str,),
@@ -226,7 +226,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="link_snippet",
         node_name="linkSnippet",
         classes=(str,),
@@ -237,7 +237,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     item=RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         classes=(KmlDateTime,),
         attr_name="expires",
         node_name="expires",
@@ -248,7 +248,7 @@ registry.register(
 registry.register(
     NetworkLinkControl,
     RegistryItem(
-        ns_ids=("kml",),
+        ns_ids=("kml", ""),
         attr_name="view",
         node_name="Camera,LookAt",
         classes=(
-- 
2.43.0


From 40eb6092450789bcb9e9944f73114c464f64f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:48 +0000
Subject: [PATCH 18/32] fix: dates and altitude modes of objects without
 namespace have none

---
 fastkml/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastkml/helpers.py b/fastkml/helpers.py
index 19c7992..cd6ad1d 100644
--- a/fastkml/helpers.py
+++ b/fastkml/helpers.py
@@ -149,9 +149,12 @@ def handle_error(
 def get_ns(obj: "_XMLObject", value: object) -> str:
     """Get the namespace of an attribute, fall back on the objects namespace."""
     try:
-        return obj.name_spaces.get(value.get_ns_id(), "")  # type: ignore[attr-defined]
+        ns_id = value.get_ns_id()  # type: ignore[attr-defined]
     except AttributeError:
         return obj.ns
+    if ns_id == config.KML and not obj.ns:
+        return obj.ns
+    return obj.name_spaces.get(ns_id, "")
 
 
 def get_value(
-- 
2.43.0


From a871267db2059836ea01d9e22b5c6d710eb11ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:21 +0000
Subject: [PATCH 19/32] fix: overlays keep additional keyword arguments like
 all other features

---
 fastkml/overlays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fastkml/overlays.py b/fastkml/overlays.py
index 48bfcdd..c8b8fd8 100644
--- a/fastkml/overlays.py
+++ b/fastkml/overlays.py
@@ -144,6 +144,7 @@ class _Overlay(_Feature):
         color: Optional[str] = None,
         draw_order: Optional[int] = None,
         icon: Optional[Icon] = None,
+        **kwargs: Any,
     ) -> None:
         """
         Initialize an Overlay object.
@@ -194,6 +195,8 @@ class _Overlay(_Feature):
             The draw order of the overlay.
         icon : Optional[Icon]
             The icon associated with the overlay.
+        **kwargs : Any
+            Additional keyword arguments.
 
         Returns
         -------
@@ -220,6 +223,7 @@ class _Overlay(_Feature):
             styles=styles,
             region=region,
             extended_data=extended_data,
+            **kwargs,
         )
         self.icon = icon
         self.color = clean_string(color)
-- 
2.43.0


From 7fc290f7a08786a205bdfa4fea43f97eb1906c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:41 +0000
Subject: [PATCH 20/32] fix: comparing geometries with different additional
 arguments must not raise

---
 fastkml/geometry.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index ad0450f..5454faa 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -478,9 +478,8 @@ class Point(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
-            )
+            ) and self._get_splat() == other._get_splat()
         return super().__eq__(other)
 
     @property
@@ -650,9 +649,8 @@ class LineString(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
-            )
+            ) and self._get_splat() == other._get_splat()
         return super().__eq__(other)
 
     @property
@@ -1140,9 +1138,8 @@ class Polygon(_Geometry):
                     "altitude_mode",
                     "geometry",
                     *xml_attrs,
-                    *self._get_splat(),
                 )
-            )
+            ) and self._get_splat() == other._get_splat()
         return super().__eq__(other)
 
 
-- 
2.43.0


From fb665e781755dc43a6b85f8e87e3512043da1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:41 +0000
Subject: [PATCH 21/32] fix: an empty LinearRing is no LineString

---
 fastkml/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastkml/geometry.py b/fastkml/geometry.py
index 5454faa..c4ae88c 100644
--- a/fastkml/geometry.py
+++ b/fastkml/geometry.py
@@ -640,7 +640,7 @@ class LineString(_Geometry):
 
     def __eq__(self, other: object) -> bool:
         """Check if the LineString objects is equal."""
-        if isinstance(other, LineString):
+        if type(self) is type(other) and isinstance(other, LineString):
             return all(
                 getattr(self, attr) == getattr(other, attr)
                 for attr in (
-- 
2.43.0


From d6143508cbcaaa9cfeb2d3e496ea503a6d1cc1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:22 +0000
Subject: [PATCH 22/32] fix: read text with an encoding declaration under lxml
 as well

---
 fastkml/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 8fa9d87..63a0139 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -441,12 +441,19 @@ class _XMLObject:
         name_spaces = name_spaces or {}
         name_spaces = {**config.NAME_SPACES, **name_spaces}
         ns = cls._get_ns(ns, name_spaces=name_spaces)
+        try:
+            element = config.etree.fromstring(string)
+        except ValueError:
+            if not isinstance(string, str):
+                raise
+            # lxml refuses text with an encoding declaration, which has no meaning here
+            element = config.etree.fromstring(
+                string.encode("utf-8"),
+                parser=config.etree.XMLParser(encoding="utf-8"),
+            )
         return cls.class_from_element(
             ns=ns,
             name_spaces=name_spaces,
             strict=strict,
-            element=cast(
-                Element,
-                config.etree.fromstring(string),
-            ),
+            element=cast(Element, element),
         )
-- 
2.43.0


From 105d9af69b43dc943cb6de70b3b78d744d5edaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:28 +0000
Subject: [PATCH 23/32] fix: write carriage returns in texts under ElementTree
 as well

---
 fastkml/base.py | 3 ++-
 fastkml/kml.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index 63a0139..a9cc8c5 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -223,10 +223,11 @@ class _XMLObject:
         except TypeError:
             return cast(
                 str,
+                # ElementTree leaves carriage returns to be normalized when read
                 config.etree.tostring(
                     element,
                     encoding="unicode",
-                ),
+                ).replace("\r", "&#13;"),
             )
 
     def validate(self) -> Optional[bool]:
diff --git a/fastkml/kml.py b/fastkml/kml.py
index 802c79f..4e2675d 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -282,10 +282,11 @@ class KML(_XMLObject):
                 pretty_print=prettyprint,
             )
         except TypeError:
+            # ElementTree leaves carriage returns to be normalized when read
             xml_content = config.etree.tostring(
                 element,
                 encoding="unicode",
-            )
+            ).replace("\r", "&#13;")
 
         if file_path.suffix == ".kmz":
             with zipfile.ZipFile(file_path, "w", zipfile.ZIP_DEFLATED) as kmz:
-- 
2.43.0


From 72d03122b2dce2ce5344d6e63c707d6198f4a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:57 +0000
Subject: [PATCH 24/32] fix: write properties registered for the kml root
 element

---
 fastkml/kml.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 4e2675d..9ee658e 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -187,15 +187,16 @@ class KML(_XMLObject):
             root = config.etree.Element(
                 f"{self.ns}{self.get_tag_name()}",
             )
-        xml_subelement_list(
-            obj=self,
-            element=root,
-            attr_name="features",
-            node_name="",
-            precision=precision,
-            verbosity=verbosity,
-            default=None,
-        )
+        for item in registry.get(self.__class__):
+            item.set_element(
+                obj=self,
+                element=root,
+                attr_name=item.attr_name,
+                node_name=item.node_name,
+                precision=precision,
+                verbosity=verbosity,
+                default=item.default,
+            )
         return cast(Element, root)
 
     def append(
-- 
2.43.0


From a8681bfcc9954c1650a44ca54822b397cb597157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:59 +0000
Subject: [PATCH 25/32] fix: KML.write takes the name of a file as documented

---
 fastkml/kml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 9ee658e..b1da5ab 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -256,7 +256,7 @@ class KML(_XMLObject):
 
     def write(
         self,
-        file_path: Path,
+        file_path: Union[Path, str],
         *,
         prettyprint: bool = True,
         precision: Optional[int] = None,
@@ -274,6 +274,7 @@ class KML(_XMLObject):
             verbosity (Verbosity): The verbosity level for generating the KML element.
 
         """
+        file_path = Path(file_path)
         element = self.etree_element(precision=precision, verbosity=verbosity)
 
         try:
-- 
2.43.0


From 1f2fdcda38b40f73cb9f3fd932204a06b69118fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 26/32] fix: KML.parse reads text streams whatever encoding
 they declare

---
 fastkml/kml.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index b1da5ab..33aa61c 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -28,6 +28,7 @@ http://schemas.opengis.net/kml/.
 
 import logging
 import zipfile
+from io import BytesIO
 from pathlib import Path
 from typing import IO
 from typing import Any
@@ -76,6 +77,7 @@ def lxml_parse_and_validate(
     file: Union[Path, str, IO[AnyStr]],
     strict: bool,  # noqa: FBT001
     validate: Optional[bool],
+    encoding: Optional[str] = None,
 ) -> Element:
     """
     Parse and validate a KML file using lxml.
@@ -86,6 +88,7 @@ def lxml_parse_and_validate(
             Can be a file path (str or Path), or a file-like object.
         strict (bool): Whether to enforce strict parsing rules.
         validate (Optional[bool]): Whether to validate the file against the schema.
+        encoding (Optional[str]): The encoding, whatever the file declares.
 
     Returns:
     -------
@@ -103,6 +106,7 @@ def lxml_parse_and_validate(
         parser=config.etree.XMLParser(
             huge_tree=True,
             recover=True,
+            encoding=encoding,
         ),
     )
     if validate:
@@ -237,10 +241,20 @@ class KML(_XMLObject):
             KML object: The parsed KML object.
 
         """
+        encoding = None
+        if hasattr(file, "read"):
+            content = file.read()
+            if isinstance(content, str):
+                # the encoding that the text may declare has no meaning here
+                content, encoding = content.encode("utf-8"), "utf-8"
+            file = BytesIO(content)
         try:
-            root = lxml_parse_and_validate(file, strict, validate)
+            root = lxml_parse_and_validate(file, strict, validate, encoding)
         except TypeError:
-            root = config.etree.parse(file).getroot()
+            root = config.etree.parse(
+                file,
+                parser=config.etree.XMLParser(encoding=encoding),
+            ).getroot()
         if ns is None:
             ns = root.tag[:-3] if root.tag.endswith("kml") else ""
         name_spaces = dict(name_spaces or {})
-- 
2.43.0


From e8191684ff85ac05c6f1e7d7753cb27d76ce8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 27/32] fix: validate the document of an object as it is
 written

---
 fastkml/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index a9cc8c5..ab886d8 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -245,7 +245,16 @@ class _XMLObject:
             If the object is not valid.
 
         """
-        return validate(element=self.etree_element())
+        if not hasattr(config.etree, "XMLSchema"):
+            return None
+        # the root may declare a namespace for elements that have none:
+        # what has to be valid is the document, not the tree it is made from
+        return validate(
+            element=config.etree.fromstring(
+                self.to_string(),
+                parser=config.etree.XMLParser(huge_tree=True),
+            ),
+        )
 
     def _get_splat(self) -> Dict[str, Any]:
         """
-- 
2.43.0


From e3c7d69a8f0bf8808854287f47943346065d7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 28/32] fix: a NetworkLinkControl comes before the feature of a
 KML file

The schema wants it first; a file with both was written with the feature
first when it had been read.
---
 fastkml/kml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index 33aa61c..44e42d7 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -317,6 +317,7 @@ registry.register(
     RegistryItem(
         ns_ids=("kml",),
         classes=(
+            NetworkLinkControl,
             Document,
             Folder,
             Placemark,
@@ -324,11 +325,10 @@ registry.register(
             PhotoOverlay,
             ScreenOverlay,
             NetworkLink,
-            NetworkLinkControl,
         ),
         node_name=(
-            "Document,Folder,Placemark,GroundOverlay,PhotoOverlay,ScreenOverlay,"
-            "NetworkLink,NetworkLinkControl"
+            "NetworkLinkControl,Document,Folder,Placemark,GroundOverlay,PhotoOverlay,"
+            "ScreenOverlay,NetworkLink"
         ),
         attr_name="features",
         get_kwarg=xml_subelement_list_kwarg,
-- 
2.43.0


From 0854cc4a81dfe3e8947249055970586861c0993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 29/32] fix: write the schemas of a document before its
 features

The KML schema wants them in this order: a Document with schemata and
features was written as a document that does not validate.
---
 fastkml/containers.py | 46 ++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/fastkml/containers.py b/fastkml/containers.py
index d5ee8a2..6aac0df 100644
--- a/fastkml/containers.py
+++ b/fastkml/containers.py
@@ -328,28 +328,6 @@ class Document(_Container):
         )
 
 
-registry.register(
-    _Container,
-    RegistryItem(
-        ns_ids=("kml", ""),
-        attr_name="features",
-        node_name=(
-            "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
-            "NetworkLink"
-        ),
-        classes=(
-            Document,
-            Folder,
-            Placemark,
-            GroundOverlay,
-            PhotoOverlay,
-            ScreenOverlay,
-            NetworkLink,
-        ),
-        get_kwarg=xml_subelement_list_kwarg,
-        set_element=xml_subelement_list,
-    ),
-)
 registry.register(
     Document,
     RegistryItem(
@@ -361,3 +339,27 @@ registry.register(
         set_element=xml_subelement_list,
     ),
 )
+# the schemas of a document come before its features
+for _container in (Folder, Document):
+    registry.register(
+        _container,
+        RegistryItem(
+            ns_ids=("kml", ""),
+            attr_name="features",
+            node_name=(
+                "Folder,Placemark,Document,GroundOverlay,PhotoOverlay,ScreenOverlay,"
+                "NetworkLink"
+            ),
+            classes=(
+                Document,
+                Folder,
+                Placemark,
+                GroundOverlay,
+                PhotoOverlay,
+                ScreenOverlay,
+                NetworkLink,
+            ),
+            get_kwarg=xml_subelement_list_kwarg,
+            set_element=xml_subelement_list,
+        ),
+    )
-- 
2.43.0


From d760a59edde7d333c03d093baa7ce2ab9d29742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:35 +0000
Subject: [PATCH 30/32] fix: an invalid document validated in one thread while
 another is validated in a second one raises AssertionError, not IndexError

---
 fastkml/validator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fastkml/validator.py b/fastkml/validator.py
index 0c60aac..8c0dff4 100644
--- a/fastkml/validator.py
+++ b/fastkml/validator.py
@@ -85,7 +85,8 @@ def handle_validation_error(
             parent = element.xpath(error_entry.path)[  # type: ignore[attr-defined]
                 0
             ].getparent()
-        except config.etree.XPathEvalError:
+        except (config.etree.XPathEvalError, IndexError):
+            # the log may be of another validation with the same schema
             parent = element
         if parent is None:
             parent = element
-- 
2.43.0


From 62d017998d8347c7fd0c3b91a2e7be847eb65a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:14 +0000
Subject: [PATCH 31/32] fix: a comment or processing instruction inside of a
 text does not end it

---
 fastkml/base.py | 14 +++++++++++++-
 fastkml/kml.py  |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/fastkml/base.py b/fastkml/base.py
index ab886d8..843e7e9 100644
--- a/fastkml/base.py
+++ b/fastkml/base.py
@@ -51,6 +51,18 @@ logger = logging.getLogger(__name__)
 __all__ = ["_XMLObject"]
 
 
+def without_comments(element: Element) -> Element:
+    """
+    Remove comments and processing instructions from a parsed document.
+
+    They are not part of the text they are found in, but lxml ends the text there;
+    ElementTree drops them when it parses.
+    """
+    if hasattr(config.etree, "strip_tags"):
+        config.etree.strip_tags(element, config.etree.Comment, config.etree.PI)
+    return element
+
+
 class _XMLObject:
     """XML Baseclass."""
 
@@ -465,5 +477,5 @@ class _XMLObject:
             ns=ns,
             name_spaces=name_spaces,
             strict=strict,
-            element=cast(Element, element),
+            element=without_comments(cast(Element, element)),
         )
diff --git a/fastkml/kml.py b/fastkml/kml.py
index 44e42d7..c88cd89 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -45,6 +45,7 @@ from typing_extensions import Self
 from fastkml import config
 from fastkml import validator
 from fastkml.base import _XMLObject
+from fastkml.base import without_comments
 from fastkml.containers import Document
 from fastkml.containers import Folder
 from fastkml.enums import Verbosity
@@ -265,7 +266,7 @@ class KML(_XMLObject):
             ns=ns,
             name_spaces=name_spaces,
             strict=strict,
-            element=root,
+            element=without_comments(root),
         )
 
     def write(
-- 
2.43.0


From 3e290c9531ce34b493d5452aaf7a6b20dec668b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:03 +0000
Subject: [PATCH 32/32] fix: a text that cannot be encoded does not leave a
 broken file behind

---
 fastkml/kml.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fastkml/kml.py b/fastkml/kml.py
index c88cd89..23c213e 100644
--- a/fastkml/kml.py
+++ b/fastkml/kml.py
@@ -305,12 +305,14 @@ class KML(_XMLObject):
                 encoding="unicode",
             ).replace("\r", "&#13;")
 
+        # what cannot be encoded must not leave a broken file behind
+        content = xml_content.encode("UTF-8")
         if file_path.suffix == ".kmz":
             with zipfile.ZipFile(file_path, "w", zipfile.ZIP_DEFLATED) as kmz:
-                kmz.writestr("doc.kml", xml_content)
+                kmz.writestr("doc.kml", content)
         else:
-            with file_path.open("w", encoding="UTF-8") as file:
-                file.write(xml_content)
+            with file_path.open("wb") as file:
+                file.write(content)
 
 
 registry.register(
-- 
2.43.0

