From d758f5c95e3e1b731493992480de19289fb9f8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:57 +0000
Subject: [PATCH 01/82] fix: parse <coordinates> of any size, blank or
 separated by any whitespace

Coordinates::ParseVec3 copied each number to a 1024 byte stack buffer without
a length check, never advanced past content without numbers (so Parse looped
for ever on whitespace), joined tuples separated by newline or tab, used an
uninitialised longitude and ignored a leading decimal point.
---
 src/kml/dom/geometry.cc | 128 +++++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 74 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..91840e2 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -52,6 +52,33 @@ Coordinates::Coordinates() {
 
 Coordinates::~Coordinates() {}
 
+// Whitespace, independent of the locale.
+static bool IsSpace(char c) {
+  return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' ||
+         c == '\v';
+}
+
+static bool IsDigit(char c) {
+  return c >= '0' && c <= '9';
+}
+
+// Returns the first position at or after cstr which may begin a number, or
+// the terminating NUL.
+static const char* SkipToNumber(const char* cstr) {
+  while (*cstr && *cstr != '-' && !IsDigit(*cstr) &&
+         !(*cstr == '.' && IsDigit(cstr[1]))) {
+    ++cstr;
+  }
+  return cstr;
+}
+
+// Returns the text up to the next comma or whitespace and moves past it.
+static string NextToken(const char** cstr) {
+  const char* first = *cstr;
+  while (**cstr && **cstr != ',' && !IsSpace(**cstr)) { ++*cstr; }
+  return string(first, *cstr - first);
+}
+
 // This parses off a Vec3 from the given string and returns a pointer
 // to the end of chars consumed.  The purpose is for use in the inner loop
 // of the overall parse of a <coordinates> string.  This handles both 2d and
@@ -81,84 +108,36 @@ Coordinates::~Coordinates() {}
 // like this: "1.1*2.2,3,3" will become "1.1,3.3,0.0". This precisely matches
 // the precent for parsing of bad coordinate strings set by Google Earth.
 bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
-  
   if (!cstr || !vec) {  // Not much to do w/o input or output.
     return false;
   }
-  bool done = false;
-  
-  int k;
-  char lon[1024];
-  k = 0;
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
-  const char *first = cstr;
-  
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
-  
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
-  
-  double longitude; 
-  kmlbase::StringToDouble(lon_s, &longitude);
-  vec->set(0, longitude);
-  
-  
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  char lat[1024];
-  first = cstr;
-  k = 0;
-  int b = 0;
-  while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
-      b = 1;  
-      break;
-    }
-    ++cstr;  ++k;
-  }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
-  done = true;
-  
-  string lat_s = string(lat);
-  double latitude = 0.0;
-  if( !lat_s.empty())
-    kmlbase::StringToDouble(lat_s, &latitude);
-  
-  vec->set(1, latitude);
-  
-  
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  if ( b < 1) {
-    char alt[1024];
-    first = cstr;
-    k = 0;
-    while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
-	b = 1;  
-	break;
+  cstr = SkipToNumber(cstr);
+  const bool found = *cstr != '\0';
+  if (found) {
+    double longitude = 0.0;
+    kmlbase::StringToDouble(NextToken(&cstr), &longitude);
+    vec->set(0, longitude);
+
+    double latitude = 0.0;
+    cstr = SkipToNumber(cstr);
+    kmlbase::StringToDouble(NextToken(&cstr), &latitude);
+    vec->set(1, latitude);
+
+    // There is an altitude only if a comma follows the latitude.
+    while (IsSpace(*cstr)) { ++cstr; }
+    if (*cstr == ',') {
+      double altitude = 0.0;
+      cstr = SkipToNumber(cstr);
+      if (kmlbase::StringToDouble(NextToken(&cstr), &altitude)) {
+        vec->set(2, altitude);
       }
-      ++cstr;  ++k;
-    }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
-    
-    string alt_s = string(alt);
-    double altitude;
-    if( !alt_s.empty() ) {
-      kmlbase::StringToDouble(alt_s, &altitude);
-      vec->set(2, altitude);
     }
+    cstr = SkipToNumber(cstr);
+  }
+  if (nextp) {
+    *nextp = const_cast<char*>(cstr);
   }
-  
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) ++cstr;
-  
-  *nextp = const_cast<char*>(cstr);
-  
-  return done;
+  return found;
 }
 
 // The char_data is everything between <coordinates> elements including
@@ -169,9 +148,10 @@ void Coordinates::Parse(const string& char_data) {
   char* next = const_cast<char*>(cstr);
   while (next != endp) {
     Vec3 vec;
-    if (ParseVec3(next, &next, &vec)) {
-      coordinates_array_.push_back(vec);
+    if (!ParseVec3(next, &next, &vec)) {
+      break;  // There are no more numbers.
     }
+    coordinates_array_.push_back(vec);
   }
 }
 
-- 
2.43.0


From b26b1e6c44877f3c59ff9e716612f71032aba1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:24 +0000
Subject: [PATCH 02/82] fix: gx:coord and gx:angles with other whitespace than
 single spaces

Two spaces, a newline or empty content produced an empty token whose value
was an uninitialised double.
---
 src/kml/dom/geometry.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 91840e2..63e8171 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -32,6 +32,7 @@
 #include <cstring>
 #include <string>
 #include "kml/dom/geometry.h"
+#include <sstream>
 #include "kml/base/attributes.h"
 #include "kml/base/xml_namespaces.h"
 #include "kml/dom/element.h"
@@ -537,14 +538,13 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   }
   // TODO: this is a little heavy. Optimization along the lines of
   // Coordinates::Parse may be required.
-  std::vector<string> s;
-  kmlbase::SplitStringUsing(char_data, " ", &s);
+  std::istringstream iss(char_data);
+  string token;
   kmlbase::Vec3 vec;
-  for (size_t i = 0; i < s.size(); i++) {
-    double d;
-    kmlbase::FromString(s[i], &d);
-    vec.set(static_cast<int>(i), d);
-    if (i > 2) break;
+  for (int i = 0; i < 3 && iss >> token; ++i) {
+    double d = 0.0;
+    kmlbase::FromString(token, &d);
+    vec.set(i, d);
   }
   out->push_back(vec);
 }
-- 
2.43.0


From 48417074d49304ee6042ff2f4f6ef07888591561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:59 +0000
Subject: [PATCH 03/82] fix: escape attribute values on serialization

Attributes::Serialize wrote values verbatim, so a value with '&', '<' or a
double quote gave XML which is not well-formed, and tabs and line ends were
lost to attribute value normalization.
---
 src/kml/base/attributes.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..2944748 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -71,6 +71,23 @@ bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   return true;
 }
 
+// Appends the attribute value such that an XML parser returns the same value.
+// Literal whitespace other than a space would be normalized to a space.
+static void AppendEscaped(const string& value, string* output) {
+  for (size_t i = 0; i < value.size(); ++i) {
+    switch (value[i]) {
+      case '&': *output += "&amp;"; break;
+      case '<': *output += "&lt;"; break;
+      case '>': *output += "&gt;"; break;
+      case '"': *output += "&quot;"; break;
+      case '\t': *output += "&#9;"; break;
+      case '\n': *output += "&#10;"; break;
+      case '\r': *output += "&#13;"; break;
+      default: *output += value[i];
+    }
+  }
+}
+
 void Attributes::Serialize(string* output) const {
   if (output) {
     StringMapIterator iter = CreateIterator();
@@ -78,7 +95,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      AppendEscaped(iter.Data().second, output);
       *output += "\"";
     }
   }
-- 
2.43.0


From 53002249b7ccbcbcc0e1956307f428896de497cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:04 +0000
Subject: [PATCH 04/82] fix: write every string value such that it reads back
 the same

A value with ']]>' ended its own CDATA section, a value with '<![CDATA[' had
only its first '&' escaped (and that after the quotes), and a carriage return
was turned into a line feed.
---
 src/kml/dom/serializer.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..73b3599 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -37,13 +37,19 @@ using kmlbase::ToString;
 namespace kmldom {
 
 static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
+  string out;
+  for (size_t i = 0; i < xml.size(); ++i) {
+    switch (xml[i]) {
+      case '&': out.append("&amp;"); break;
+      case '<': out.append("&lt;"); break;
+      case '>': out.append("&gt;"); break;
+      case '\'': out.append("&apos;"); break;
+      case '"': out.append("&quot;"); break;
+      case '\r': out.append("&#13;"); break;
+      default: out.append(1, xml[i]);
+    }
+  }
+  return out;
 }
 
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
@@ -56,8 +62,11 @@ Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
 const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
-  // entity-replace any reserved characters.
-  if (value.find("<![CDATA[") != string::npos) {
+  // entity-replace any reserved characters.  A CDATA section can hold neither
+  // its own end marker nor a carriage return.
+  if (value.find("<![CDATA[") != string::npos ||
+      value.find("]]>") != string::npos ||
+      value.find('\r') != string::npos) {
     return EnityEscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
-- 
2.43.0


From 7b47508b2a0eb6c384316376bf09ad3d984fc0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:10 +0000
Subject: [PATCH 05/82] fix: parse a <description> within an unknown element

Its end tag decremented the count of open descriptions which its start tag
had not incremented, and the elements after it were swallowed.
---
 src/kml/dom/kml_handler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..6335ae6 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -210,7 +210,8 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  if (in_description_ > 0 && name.length() == 11 && name == "description" &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
-- 
2.43.0


From d1e21e1ffb74e9fbebf9d49f7d74d85486431847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:41 +0000
Subject: [PATCH 06/82] fix: keep the character data and attributes of unknown
 elements well-formed

They were saved unescaped, so '&lt;' or '&amp;' within an unknown element came
out as '<' or '&' when the document was serialized.
---
 src/kml/dom/kml_handler.cc | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 6335ae6..809c687 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -55,6 +55,30 @@ kMaxNestingDepth = LIBKML_MAX_NESTING_DEPTH;
 
 namespace kmldom {
 
+// Appends the text such that it is the same when the XML is parsed again.
+static void AppendEscapedXml(const string& text, bool is_attr, string* xml) {
+  for (size_t i = 0; i < text.size(); ++i) {
+    const char c = text[i];
+    if (c == '&') {
+      xml->append("&amp;");
+    } else if (c == '<') {
+      xml->append("&lt;");
+    } else if (c == '>') {
+      xml->append("&gt;");
+    } else if (c == '\r') {
+      xml->append("&#13;");
+    } else if (is_attr && c == '"') {
+      xml->append("&quot;");
+    } else if (is_attr && c == '\n') {
+      xml->append("&#10;");
+    } else if (is_attr && c == '\t') {
+      xml->append("&#9;");
+    } else {
+      xml->append(1, c);
+    }
+  }
+}
+
 KmlHandler::KmlHandler(parser_observer_vector_t& observers)
   : kml_factory_(*KmlFactory::GetFactory()),
     skip_depth_(0),
@@ -329,7 +353,12 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
 void KmlHandler::CharData(const string& s) {
-  char_data_.top().append(s);
+  if (skip_depth_ > 0 && in_description_ == 0) {
+    // Unknown elements are saved as XML.
+    AppendEscapedXml(s, false, &char_data_.top());
+  } else {
+    char_data_.top().append(s);
+  }
 }
 
 // As with STL pop() methods this is (potentially) destructive.  If the
@@ -356,7 +385,11 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    if (in_description_ == 0) {
+      AppendEscapedXml(atts.at(i+1), true, &top);
+    } else {
+      top.append(atts.at(i+1));
+    }
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From cd504aa860655b3f17a48c81c07a840a04737a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:47 +0000
Subject: [PATCH 07/82] fix: do not crash on odd uses of an old style Schema

A Schema whose name is that of an enclosing or of the Schema element made the
handler dereference a null placemark or schema, and an element within one of
the schema's fields left the parse stack out of step.
---
 src/kml/dom/kml_handler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 809c687..478c4af 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -115,10 +115,11 @@ void KmlHandler::StartElement(const string& name,
     in_description_++;
   }
 
-  if (skip_depth_ > 0) {
+  if (skip_depth_ > 0 || in_old_schema_placemark_) {
     // We're already inside an unknown element. Stringify the next element and
     // its attributes, increment the skip counter again, and return
-    // immediately.
+    // immediately.  Markup in the child of an old schema placemark is part of
+    // its text.
     InsertUnknownStartElement(name, attrs);
     skip_depth_++;
     return;
@@ -243,7 +244,7 @@ void KmlHandler::EndElement(const string& name) {
     // We're inside an unknown element. Build the closing tag, decrement
     // the skip counter and then check if we're back to known KML.
     InsertUnknownEndElement(name);
-    if (--skip_depth_ == 0) {
+    if (--skip_depth_ == 0 && !in_old_schema_placemark_) {
       // The next element will be known KML. Push the gathered char_data_ up
       // to Element as a string for serializiation later on.
       char_data_.top().append("\n");
@@ -443,7 +444,7 @@ void KmlHandler::HandleOldSchemaEndElement(
     const SchemaPtr& schema,
     const string& old_schema_name,
     StringVector* simplefield_name_vec) {
-  if (!simplefield_name_vec) {
+  if (!schema || !simplefield_name_vec) {
     return;
   }
   schema->set_id(old_schema_name + "_id");
@@ -468,6 +469,9 @@ void KmlHandler::HandleOldSchemaParentEndElement(
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
   // parent placemark.
+  if (!placemark) {
+    return;
+  }
   ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
-- 
2.43.0


From d8d1aa5110defd9febcd4033a32eee471050a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:43 +0000
Subject: [PATCH 08/82] fix: do not read past the end of a short color string

With leading whitespace or '#' and less than 8 digits the characters skipped
were read again beyond the end of the string.
---
 src/kml/base/color32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..affafd5 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -137,7 +137,8 @@ class Color32 {
     if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
+    size_t length =
+        color_abgr.size() >= 8 + offset ? 8 : color_abgr.size() - offset;
     for(size_t i = offset; i < length + offset; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
-- 
2.43.0


From c7f1df4288c1ea61d991d1b11981283831e624ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:56 +0000
Subject: [PATCH 09/82] fix: emit nothing for an enum value which is out of
 range

Xsd::EnumValue indexed beyond the end of the list of values.
---
 src/kml/dom/xsd.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..a3208f1 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -108,7 +108,12 @@ const int size = sizeof(kKml22Enums)/sizeof(XsdSimpleTypeEnum);
 
   for (int i = 0; i < size; ++i) {
     if (kKml22Enums[i].type_id == type_id) {
-      return kKml22Enums[i].enum_value_list[enum_id];
+      // The list ends with a NULL.
+      for (int k = 0; kKml22Enums[i].enum_value_list[k]; ++k) {
+        if (k == enum_id) {
+          return kKml22Enums[i].enum_value_list[k];
+        }
+      }
     }
   }
   return string();
-- 
2.43.0


From e0bcc3d820596993bad1e77850288ea541c5c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:59 +0000
Subject: [PATCH 10/82] fix: serialize the name of an xal:Locality

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From ca264604ad7a2a49856d84b68792d7a992de5354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 11/82] fix: keep an href which begins like a CDATA section but
 does not end as one

The last three characters were cut off no matter what they were.
---
 src/kml/dom/link.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/link.cc b/src/kml/dom/link.cc
index 0aea457..a004bf3 100644
--- a/src/kml/dom/link.cc
+++ b/src/kml/dom/link.cc
@@ -27,6 +27,7 @@
 #include <cstring>
 #include "kml/dom/link.h"
 #include "kml/base/attributes.h"
+#include "kml/base/string_util.h"
 #include "kml/dom/serializer.h"
 
 using kmlbase::Attributes;
@@ -42,6 +43,7 @@ BasicLink::~BasicLink() {
 
 // TODO: fix CDATA parsing in general.
 static const char *kCdataOpen = "<![CDATA[";
+static const char *kCdataClose = "]]>";
 
 static bool SetStringInsideCdata(ElementPtr element,
                                  const string& char_data,
@@ -50,7 +52,8 @@ static bool SetStringInsideCdata(ElementPtr element,
     return false;
   }
   string::size_type offset = strlen(kCdataOpen);
-  if (char_data.compare(0, offset, kCdataOpen, offset) == 0) {
+  if (char_data.compare(0, offset, kCdataOpen, offset) == 0 &&
+      kmlbase::StringEndsWith(char_data, kCdataClose)) {
     *val = char_data.substr(offset, char_data.size() - offset - 3);
     return true;
   }
-- 
2.43.0


From 2e20a79132290d19e21ac9a50b981f81172a5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 12/82] fix: declare the namespace of gx: simple elements in a
 serialized KmlFile

FindXmlNamespaces looked at complex elements only, so a document with, say,
just <gx:altitudeMode> had an undeclared prefix.
---
 src/kml/engine/find_xml_namespaces.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/find_xml_namespaces.cc b/src/kml/engine/find_xml_namespaces.cc
index 0500e3a..bfc24a6 100644
--- a/src/kml/engine/find_xml_namespaces.cc
+++ b/src/kml/engine/find_xml_namespaces.cc
@@ -28,6 +28,7 @@
 #include "kml/base/attributes.h"
 #include "kml/base/xml_namespaces.h"
 #include "kml/dom/serializer.h"
+#include "kml/dom/xsd.h"
 
 using kmlbase::Attributes;
 using kmldom::ElementPtr;
@@ -43,8 +44,7 @@ class XmlNamespaceFinder : public Serializer {
     : xmlns_id_set_(xmlns_id_set) {
   }
 
-  // This is the only Serializer virtual method implemented
-  // in ElementFinder.  As such only complex elements are found.
+  // This is called for each complex element.
   virtual void SaveElement(const ElementPtr& element) {
     xmlns_id_set_->insert(element->get_xmlns());
 
@@ -52,6 +52,19 @@ class XmlNamespaceFinder : public Serializer {
     Serializer::SaveElement(element);
   }
 
+  // This is called for each simple element.  The simple elements of any
+  // namespace but that of KML have the prefix in their name.
+  virtual void SaveStringFieldById(int type_id, string value) {
+    const string name = kmldom::Xsd::GetSchema()->ElementName(type_id);
+    if (name.compare(0, 3, "gx:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_GX22);
+    } else if (name.compare(0, 5, "atom:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_ATOM);
+    } else if (name.compare(0, 4, "xal:") == 0) {
+      xmlns_id_set_->insert(kmlbase::XMLNS_XAL);
+    }
+  }
+
  private:
   XmlnsIdSet* xmlns_id_set_;
 };
-- 
2.43.0


From d93636acc82e7f5eee1cd74926e4d11c8af6ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:54 +0000
Subject: [PATCH 13/82] fix: let the handler behind ExpatHandlerNs stop the
 parser

---
 src/kml/base/expat_handler.h     | 2 +-
 src/kml/base/expat_handler_ns.cc | 5 +++++
 src/kml/base/expat_handler_ns.h  | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_handler.h b/src/kml/base/expat_handler.h
index da7c026..d4d71b2 100644
--- a/src/kml/base/expat_handler.h
+++ b/src/kml/base/expat_handler.h
@@ -47,7 +47,7 @@ public:
                               const string& uri) {}
   virtual void EndNamespace(const string& prefix) {}
 
-  void set_parser(XML_Parser parser) {
+  virtual void set_parser(XML_Parser parser) {
     parser_ = parser;
   }
   XML_Parser get_parser() {
diff --git a/src/kml/base/expat_handler_ns.cc b/src/kml/base/expat_handler_ns.cc
index 3ad0b93..a3f85b1 100644
--- a/src/kml/base/expat_handler_ns.cc
+++ b/src/kml/base/expat_handler_ns.cc
@@ -57,6 +57,11 @@ const string ExpatHandlerNs::TranslatePrefixedName(
   return prefixed_name;
 }
 
+void ExpatHandlerNs::set_parser(XML_Parser parser) {
+  ExpatHandler::set_parser(parser);
+  expat_handler_->set_parser(parser);
+}
+
 void ExpatHandlerNs::StartElement(const string& prefixed_name,
                                   const kmlbase::StringVector& atts) {
   expat_handler_->StartElement(TranslatePrefixedName(prefixed_name), atts);
diff --git a/src/kml/base/expat_handler_ns.h b/src/kml/base/expat_handler_ns.h
index 3d33480..fb32b75 100644
--- a/src/kml/base/expat_handler_ns.h
+++ b/src/kml/base/expat_handler_ns.h
@@ -64,6 +64,9 @@ public:
   // namespace.
   ExpatHandlerNs(ExpatHandler* expat_handler, const Xmlns* xmlns);
   virtual ~ExpatHandlerNs() {}
+
+  // The wrapped handler works on the same parser.
+  virtual void set_parser(XML_Parser parser);
   // This translates an expat-generated namespace qualified name into a
   // name with a prefix known to the Xmlns passed to the constructor.
   const string TranslatePrefixedName(
-- 
2.43.0


From 06ab3e9a7bcf0772944234e022ee61e4251e1462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:16 +0000
Subject: [PATCH 14/82] fix: clone a field which is the root of a document

---
 src/kml/engine/clone.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index 91069e9..1ee4e66 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -97,7 +97,12 @@ class ElementReplicator : public kmldom::Serializer {
     KmlDomType id = static_cast<KmlDomType>(type_id);
     ElementPtr clone = KmlFactory::GetFactory()->CreateFieldById(id);
     clone->set_char_data(value);
-    clone_stack_.top()->AddElement(clone);
+    if (clone_stack_.empty()) {
+      // The element being cloned is itself a field.
+      clone_stack_.push(clone);
+    } else {
+      clone_stack_.top()->AddElement(clone);
+    }
   }
 
   // Detects if we're serializing the unknown elements array.  We don't use
-- 
2.43.0


From e0805652b08acf7b96c1a4f4d11e5872337a0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:30 +0000
Subject: [PATCH 15/82] fix: do not make a cloned element a child of itself

Character data of an element with a misplaced child was taken to be that of the child, whose clone then became its own child and could not be serialized.
---
 src/kml/engine/clone.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index 1ee4e66..c24053a 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -63,6 +63,9 @@ class ElementReplicator : public kmldom::Serializer {
     ElementPtr clone = KmlFactory::GetFactory()->CreateElementById(id);
     clone->ParseAttributes(attributes.Clone());
     clone_stack_.push(clone);
+    // The character data of this element is not that of its parent.
+    char_data_stack_.push(char_data_);
+    char_data_.clear();
   }
 
   // Serializer::End() is called at the end of a complex element.
@@ -75,13 +78,14 @@ class ElementReplicator : public kmldom::Serializer {
     // it can be used from here.  Using child->AddElement(child) is dangerous.
     if (!char_data_.empty()) {
       child->set_char_data(char_data_);
-      char_data_.clear();
       // NOTE: This very much expects this to mean "parse yourself".  If
       // this falls through to Element::AddChild() this will make the element
       // a child of itself by putting itself in the misplaced elements array.
       // TODO: see above TODO
       child->AddElement(child);
     }
+    char_data_ = char_data_stack_.top();
+    char_data_stack_.pop();
     // Two or more items on the stack implies the top is a child to be added
     // to the parent above it on the stack.
     if (clone_stack_.size() > 1) {
@@ -160,6 +164,8 @@ class ElementReplicator : public kmldom::Serializer {
   // This stack operates akin to the stack in the parser.
   std::stack<ElementPtr> clone_stack_;
   string char_data_;
+  // The character data so far of each ancestor of the current element.
+  std::stack<string> char_data_stack_;
   // This flag indicates that we're serializing an array of unknown elements.
   // See BeginElementArray(), EndElementArray(), and SaveContent() above.
   bool serializing_unknown_;
-- 
2.43.0


From 1cb1abed3ce94e2e5faab53959fa85e151381a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:21 +0000
Subject: [PATCH 16/82] fix: GetParent of an element which outlives its parent

The parent was a plain pointer, which GetParent dereferenced after the parent was deleted.
---
 src/kml/base/xml_element.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/kml/base/xml_element.h b/src/kml/base/xml_element.h
index f631be2..86f4422 100644
--- a/src/kml/base/xml_element.h
+++ b/src/kml/base/xml_element.h
@@ -47,9 +47,16 @@ typedef boost::intrusive_ptr<XmlElement> XmlElementPtr;
 // such that derived classes can use boost::intrusive_ptr.
 class XmlElement : public Referent {
  public:
+  virtual ~XmlElement() {
+    // Children which outlive this element no longer have a parent to return.
+    if (anchor_) {
+      anchor_->element_ = NULL;
+    }
+  }
+
   // Get the parent XmlElement if any.
   const XmlElement* GetParent() const {
-    return parent_;
+    return parent_ ? parent_->element_ : NULL;
   }
 
   // Get the parent XmlFile if any.
@@ -82,7 +89,7 @@ class XmlElement : public Referent {
 
  protected:
   // This is an abstract base class and is never created directly.
-  XmlElement() : xmlns_id_(XMLNS_NONE), parent_(NULL), xml_file_(NULL) {}
+  XmlElement() : xmlns_id_(XMLNS_NONE), xml_file_(NULL) {}
 
   void set_xmlns(XmlnsId xmlns_id) {
     xmlns_id_ = xmlns_id;
@@ -93,15 +100,27 @@ class XmlElement : public Referent {
   // XmlFile.
   bool SetParent(const XmlElementPtr& parent) {
     if (!parent_ && parent && InSameXmlFile(parent)) {
-      parent_ = parent.get();
+      if (!parent->anchor_) {
+        parent->anchor_ = new Anchor(parent.get());
+      }
+      parent_ = parent->anchor_;
       return true;
     }
     return false;
   }
 
  private:
+  // A child can't ref count its parent due to circularity.  It shares this
+  // with the parent instead, which says whether the parent still exists.
+  class Anchor : public Referent {
+   public:
+    Anchor(const XmlElement* element) : element_(element) {}
+    const XmlElement* element_;
+  };
+
   XmlnsId xmlns_id_;
-  const XmlElement* parent_;  // Can't ref count due to circularity.
+  boost::intrusive_ptr<Anchor> anchor_;  // Created for the first child.
+  boost::intrusive_ptr<Anchor> parent_;
   const XmlFile* xml_file_;
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(XmlElement);
 };
-- 
2.43.0


From 327e041acccfad942a78566ccb80c7f5e65a13c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:26 +0000
Subject: [PATCH 17/82] fix: make a gx:Playlist the parent of its tour
 primitives

A tour primitive had no parent, could be in many playlists, and adding NULL crashed the serializer.
---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From caf5eb5101b10c2f69958e76ca7436249db72459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 18/82] fix: clear duplicate ids as well

ClearIds left the id of all but the last of the objects which share one.
---
 src/kml/engine/id_mapper.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/id_mapper.cc b/src/kml/engine/id_mapper.cc
index a28c489..24254a3 100644
--- a/src/kml/engine/id_mapper.cc
+++ b/src/kml/engine/id_mapper.cc
@@ -71,12 +71,17 @@ void MapIds(const ElementPtr& root, ObjectIdMap* object_id_map,
 const ElementPtr& ClearIds(const ElementPtr& root) {
   // Get all objects with an id.
   ObjectIdMap object_id_map;
-  MapIds(root, &object_id_map, NULL);
+  ElementVector dup_id_vector;
+  MapIds(root, &object_id_map, &dup_id_vector);
   // Iterate through them all and clear the id.
   ObjectIdMap::const_iterator iter = object_id_map.begin();
   for (; iter != object_id_map.end(); ++iter) {
     iter->second->clear_id();
   }
+  // An id used more than once maps to only one of the objects.
+  for (size_t i = 0; i < dup_id_vector.size(); ++i) {
+    kmldom::AsObject(dup_id_vector[i])->clear_id();
+  }
   return root;
 }
 
-- 
2.43.0


From 036cd1f6bd0223452343f04bd7e3a65a27ecf4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:59 +0000
Subject: [PATCH 19/82] fix: a StyleSelector with no id is not a shared style

---
 src/kml/engine/shared_style_parser_observer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/shared_style_parser_observer.h b/src/kml/engine/shared_style_parser_observer.h
index f89219f..769c076 100644
--- a/src/kml/engine/shared_style_parser_observer.h
+++ b/src/kml/engine/shared_style_parser_observer.h
@@ -66,9 +66,10 @@ class SharedStyleParserObserver : public kmldom::ParserObserver {
             // TODO: provide means to send back an and error string with id
             return false;  // Duplicate id, fail parse.
           }
+          // No such mapping so save it, and "last one wins" on non-strict
+          // parse.
+          (*shared_style_map_)[ss->get_id()] = ss;
         }
-        // No such mapping so save it, and "last one wins" on non-strict parse.
-        (*shared_style_map_)[ss->get_id()] = ss;
       }
     }
     return true;  // Not a duplicate id, keep parsing.
-- 
2.43.0


From 9f936e0177e80ccf2775f9b2fb082345dbb6d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:26 +0000
Subject: [PATCH 20/82] fix: the path of an absolute href ends before the
 fragment

---
 src/kml/engine/href.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index b9a28df..6e18b06 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -43,7 +43,8 @@ size_t Href::ParseNetLoc(const string& href) {
   // Look for ...://<net_loc>/...
   size_t slash = href.find('/');
   if (slash == string::npos) {
-    return 0;
+    net_loc_ = href;  // There is no path.
+    return href.size();
   }
   net_loc_ = href.substr(0, slash);
   return slash + 1;  // First char after /
@@ -51,20 +52,21 @@ size_t Href::ParseNetLoc(const string& href) {
 
 // private
 void Href::Parse(const string& href) {
-  size_t net_loc_start = ParseScheme(href);
+  // The fragment is everything after the first #.
+  string base(href);
+  size_t pound = href.find_first_of('#');
+  if (pound != string::npos) {
+    fragment_ = href.substr(pound + 1);
+    base = href.substr(0, pound);
+  }
+  size_t net_loc_start = ParseScheme(base);
   size_t path_start;
   if (net_loc_start > 0) {
-    path_start = ParseNetLoc(href.substr(net_loc_start)) + net_loc_start;
+    path_start = ParseNetLoc(base.substr(net_loc_start)) + net_loc_start;
   } else {
     path_start = 0;
   }
-  size_t path_end = href.size();
-  size_t pound = href.find_first_of('#');
-  if (pound != string::npos) {
-    fragment_ = href.substr(pound + 1);
-    path_end = pound;
-  }
-  path_ = href.substr(path_start, path_end);
+  path_ = base.substr(path_start);
 }
 
 }  // end namespace kmlengine
-- 
2.43.0


From 2e26cfe2413ab071b6a093dcc2f4762abf7319d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:53 +0000
Subject: [PATCH 21/82] fix: resolve the styleUrl of a remote StyleMap relative
 to its own file

---
 src/kml/engine/style_merger.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 8ea9bb5..b31b2cf 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -119,8 +119,13 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   }
   // TODO: resolve relative hrefs in substyles of this styleselector w.r.t.
   // fetchable_url
-  // Merge in this StyleSelector.
-  MergeStyleSelector(styleselector);
+  // Resolve this StyleSelector within its own file and merge in the result: a
+  // styleUrl in a Pair there is relative to that file.
+  StyleMerger remote(kml_file->get_shared_style_map(), kml_cache_,
+                     kml_file->get_url(), style_state_, nesting_depth_);
+  remote.MergeStyleSelector(styleselector);
+  nesting_depth_ = remote.get_nesting_depth();
+  MergeElements(remote.GetResolvedStyle(), resolved_style_);
 }
 
 // Both Feature and Pair have a styleUrl and/or StyleSelector.
-- 
2.43.0


From 906bb86b048a2af46c6908b2b0509e0fba68d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:00 +0000
Subject: [PATCH 22/82] fix: SplitStyles of an inline style which has an id

---
 src/kml/engine/style_splitter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..143ffc1 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -83,12 +83,13 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type and set the id.
+          // Create an empty StyleSelector of the child's type.
           kmldom::StyleSelectorPtr shared =
               CreateStyleSelector(child->Type());
-          shared->set_id(style_id);
           // Merge the children from child into the new StyleSelector.
           kmlengine::MergeElements(child, shared);
+          // This replaces the id of the inline StyleSelector, if any.
+          shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
-- 
2.43.0


From dda33f37adaaf678c8b02d002dfb54d47c0eba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:08 +0000
Subject: [PATCH 23/82] fix: SplitStyles made ids which shared styles of the
 document have

---
 src/kml/engine/style_splitter.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 143ffc1..8c7a550 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -72,6 +72,13 @@ kmldom::StyleSelectorPtr StyleSplitter::CreateStyleSelector(
 
 bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
                         const kmldom::ElementPtr& child) {
+  // Note the id of each shared style such that no split style collides.
+  if (!in_update_ && parent->IsA(kmldom::Type_Document)) {
+    kmldom::StyleSelectorPtr shared = kmldom::AsStyleSelector(child);
+    if (shared && shared->has_id()) {
+      (*shared_style_map_)[shared->get_id()] = shared;
+    }
+  }
   // If we're not in <Update> and the child is a StyleSelector...
   if (!in_update_ && document_ && child->IsA(kmldom::Type_StyleSelector)) {
     // ...and the parent is a Feature, but not a <Document>...
-- 
2.43.0


From 44777d5199e9a57dbafe73766f73c85a0f73e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:46 +0000
Subject: [PATCH 24/82] fix: fetch and cache a file by its URL without the
 fragment

---
 src/kml/engine/kml_uri.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index bc20e98..a310105 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -60,6 +60,8 @@ KmlUri* KmlUri::CreateRelative(const string& base,
   if (kml_uri->target_uri_.get() &&
       ResolveUri(base, target, &kml_uri->url_) &&
       GetFetchableUri(kml_uri->url_, &fetchable_url)) {
+    // A fragment is no part of what is fetched and cached.
+    kml_uri->url_ = fetchable_url;
     kml_uri->is_kmz_ = KmzSplit(fetchable_url,
                                 &kml_uri->kmz_url_,
                                 &kml_uri->path_in_kmz_);
-- 
2.43.0


From 7e36d6f1abc948de49931cc969cad42102bf3f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:32 +0000
Subject: [PATCH 25/82] fix: endless recursion on a reference to a file which
 is not in its KMZ

---
 src/kml/engine/kmz_cache.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/kmz_cache.cc b/src/kml/engine/kmz_cache.cc
index ab85769..e11add7 100644
--- a/src/kml/engine/kmz_cache.cc
+++ b/src/kml/engine/kmz_cache.cc
@@ -116,8 +116,8 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   // OR PATH/bar.jpg.  The following attempts the latter.
   boost::scoped_ptr<KmlUri> kmz_relative(
       KmlUri::CreateRelative(kml_uri->get_kmz_url(), kml_uri->get_target()));
-  if (!kmz_relative.get()) {
-    return false;
+  if (!kmz_relative.get() || kmz_relative->get_url() == kml_uri->get_url()) {
+    return false;  // There is no other URL to try.
   }
   if (fetched_url) {
     *fetched_url = kmz_relative->get_url();
-- 
2.43.0


From 42a1b7d730b41002a9e934326e9984b9d6d148de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:00 +0000
Subject: [PATCH 26/82] fix: SplitStyles dropped unknown children of the inline
 style

---
 src/kml/engine/style_splitter.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 8c7a550..83e833d 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -27,6 +27,7 @@
 // SplitStyles function.
 
 #include "kml/engine/style_splitter.h"
+#include "kml/engine/clone.h"
 #include "kml/engine/style_splitter_internal.h"
 #include <map>
 #include "kml/base/string_util.h"
@@ -90,11 +91,9 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type.
+          // Copy all of the child, including anything unknown within it.
           kmldom::StyleSelectorPtr shared =
-              CreateStyleSelector(child->Type());
-          // Merge the children from child into the new StyleSelector.
-          kmlengine::MergeElements(child, shared);
+              kmldom::AsStyleSelector(kmlengine::Clone(child));
           // This replaces the id of the inline StyleSelector, if any.
           shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
-- 
2.43.0


From 6e11d9238ec404353836c8f7287190a571b5d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:04 +0000
Subject: [PATCH 27/82] fix: SplitStyles put shared styles into a Document
 within an Update

---
 src/kml/engine/style_splitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 83e833d..51fbc1b 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -40,7 +40,7 @@ namespace kmlengine {
 
 bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
   // Use the first <Document> found as the home of all shared styles.
-  if (!document_ && element->IsA(kmldom::Type_Document)) {
+  if (!document_ && !in_update_ && element->IsA(kmldom::Type_Document)) {
     document_ = AsDocument(element);
   }
   // Don't touch anything inside an <Update>.
-- 
2.43.0


From d3ae0b3173c8077a23cdee746c18fb19c04cf79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:59 +0000
Subject: [PATCH 28/82] fix: a styleUrl of a host without a path was taken for
 a local reference

---
 src/kml/engine/style_inliner.cc | 5 +++--
 src/kml/engine/style_merger.cc  | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 1b32818..9a5c74a 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -81,9 +81,10 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
       // If it's a local reference and we've captured this shared style
       // give a copy of that to the Feature instead of this styleUrl.
       string fragment;
+      string host;
       string path;
-      if (SplitUri(child->get_char_data(), NULL, NULL, NULL, &path, NULL,
-                   &fragment) && path.empty()) {
+      if (SplitUri(child->get_char_data(), NULL, &host, NULL, &path, NULL,
+                   &fragment) && host.empty() && path.empty()) {
         SharedStyleMap::const_iterator iter = shared_styles_.find(fragment);
         if (iter != shared_styles_.end()) {
           feature->set_styleselector(
diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index b31b2cf..d4ce0b2 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -84,15 +84,16 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   if (--nesting_depth_ < 0) {
     return;
   }
+  string host;
   string path;
   string style_id;  // fragment
   if (styleurl.empty() ||
-      !SplitUri(styleurl, NULL, NULL, NULL, &path, NULL, &style_id) ||
+      !SplitUri(styleurl, NULL, &host, NULL, &path, NULL, &style_id) ||
       style_id.empty()) {
     return;  // Empty or bad styleurl or w/o fragment: ignore.
   }
-  // If there's no path this is a StyleSelector within this file.
-  if (path.empty()) {
+  // If there's no host or path this is a StyleSelector within this file.
+  if (host.empty() && path.empty()) {
     SharedStyleMap::const_iterator found = shared_style_map_.find(style_id);
     if (found != shared_style_map_.end()) {
       MergeStyleSelector(found->second);
-- 
2.43.0


From 5fb349ecc0c46d7a4635d192c525a7be8cbc17c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 29/82] fix: SplitStyles and InlineStyles changed what follows
 an Update within an Update

---
 src/kml/engine/style_inliner.cc          | 8 ++++----
 src/kml/engine/style_inliner_internal.h  | 4 ++--
 src/kml/engine/style_splitter.cc         | 6 +++---
 src/kml/engine/style_splitter_internal.h | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 9a5c74a..0ed1bdb 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -34,7 +34,7 @@
 namespace kmlengine {
 
 StyleInliner::StyleInliner()
-  : in_update_(false) {
+  : in_update_(0) {
 }
 
 // ParserObserver::NewElement()
@@ -44,7 +44,7 @@ bool StyleInliner::NewElement(const kmldom::ElementPtr& element) {
     document_ = AsDocument(element);
   }
   if (element->IsA(kmldom::Type_Update)) {
-    in_update_ = true;
+    ++in_update_;
   }
   return true;  // Always continue parsing.
 }
@@ -103,8 +103,8 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
 
 bool StyleInliner::AddChild(const kmldom::ElementPtr& parent,
                             const kmldom::ElementPtr& child) {
-  if (child->IsA(kmldom::Type_Update)) {
-    in_update_ = false;
+  if (in_update_ > 0 && child->IsA(kmldom::Type_Update)) {
+    --in_update_;
   }
   return true;  // Always continue parsing.
 }
diff --git a/src/kml/engine/style_inliner_internal.h b/src/kml/engine/style_inliner_internal.h
index eab7495..f2cc826 100644
--- a/src/kml/engine/style_inliner_internal.h
+++ b/src/kml/engine/style_inliner_internal.h
@@ -64,7 +64,7 @@ class StyleInliner : public kmldom::ParserObserver {
   }
 
   bool in_update() const {
-    return in_update_;
+    return in_update_ > 0;
   }
 
   // All shared styles are added to this map _instead_ of their <Document>
@@ -76,7 +76,7 @@ class StyleInliner : public kmldom::ParserObserver {
  private:
   kmlengine::SharedStyleMap shared_styles_;
   kmldom::DocumentPtr document_;
-  bool in_update_;
+  int in_update_;  // Depth of <Update>: one can hold another in a gx:Tour.
 };
 
 }  // end namespace kmlengine
diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 51fbc1b..7131e88 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -45,7 +45,7 @@ bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
   }
   // Don't touch anything inside an <Update>.
   if (element->IsA(kmldom::Type_Update)) {
-    in_update_ = true;
+    ++in_update_;
   }
   return true;
 }
@@ -109,8 +109,8 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
   // Falling through any of the conditions above means no action is taken
   // to interfere with this child being added to this parent.
   // Parsing of <Update> is complete so disable guard.
-  if (child->IsA(kmldom::Type_Update)) {
-    in_update_ = false;
+  if (in_update_ > 0 && child->IsA(kmldom::Type_Update)) {
+    --in_update_;
   }
   return true;  // Proceed to add this child to this parent.
 }
diff --git a/src/kml/engine/style_splitter_internal.h b/src/kml/engine/style_splitter_internal.h
index 14f881d..a7fd0b8 100644
--- a/src/kml/engine/style_splitter_internal.h
+++ b/src/kml/engine/style_splitter_internal.h
@@ -48,7 +48,7 @@ class StyleSplitter : public kmldom::ParserObserver {
   StyleSplitter(kmlengine::SharedStyleMap* shared_style_map)
     : shared_style_map_(shared_style_map),
       id_counter_(0),
-      in_update_(false) {}
+      in_update_(0) {}
 
   virtual ~StyleSplitter() {}
 
@@ -87,14 +87,14 @@ class StyleSplitter : public kmldom::ParserObserver {
   }
 
   bool get_in_update() const {
-    return in_update_;
+    return in_update_ > 0;
   }
 
  private:
   kmlengine::SharedStyleMap* shared_style_map_;
   unsigned int id_counter_;
   kmldom::DocumentPtr document_;
-  bool in_update_;
+  int in_update_;  // Depth of <Update>: one can hold another in a gx:Tour.
 };
 
 }  // end namespace kmlengine
-- 
2.43.0


From f02fb89e4a8852d8b28b0c9157ec3fff74682bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 30/82] fix: merging ignored the text of a Snippet and took in
 fields of misplaced children

---
 src/kml/engine/merge.cc | 48 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..629c32b 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -49,12 +49,17 @@ class FieldMerger : public Serializer {
  public:
   // The target is expected to be a complex element.
   FieldMerger(ElementPtr target)
-      : target_(target) {}
+      : target_(target), depth_(0), in_unknown_(false) {}
 
   virtual ~FieldMerger() {}
 
   // Set the attributes in the target.
   virtual void BeginById(int type_id, const Attributes& attributes) {
+    // A misplaced child of the source is serialized right here: nothing of it
+    // belongs to the target.
+    if (++depth_ > 1) {
+      return;
+    }
     // ParseAttributes reflects the state of the passed attributes, so we
     // preserve the state of the element's attributes here ourselves and into
     // our private copy of the state merge the passed attributes and then
@@ -73,6 +78,10 @@ class FieldMerger : public Serializer {
     }
   }
 
+  virtual void End() {
+    --depth_;
+  }
+
   // The default implementation recurses on complex children.  FieldMerger is
   // only interested in the immediate simple children of the serialized element
   // so its implementation is empty to prevent recursing on complex children.
@@ -81,13 +90,48 @@ class FieldMerger : public Serializer {
 
   // Save a lon,lat,alt tuple as appears within <coordinates>.
   virtual void SaveVec3(const kmlbase::Vec3& vec3) {
+    if (depth_ > 1) {
+      return;
+    }
     if (CoordinatesPtr coordinates = AsCoordinates(target_)) {
       coordinates->add_vec3(vec3);
     }
   }
 
+  // The array of unknown elements holds raw XML, all other content is the
+  // text of an element which has nothing but text.
+  virtual void BeginElementArray(int type_id, size_t element_count) {
+    if (type_id == kmldom::Type_Unknown) {
+      in_unknown_ = true;
+    }
+  }
+
+  virtual void EndElementArray(int type_id) {
+    if (type_id == kmldom::Type_Unknown) {
+      in_unknown_ = false;
+    }
+  }
+
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    if (in_unknown_ || depth_ > 1 || content.empty()) {
+      return;
+    }
+    if (kmldom::SnippetPtr snippet = kmldom::AsSnippet(target_)) {
+      snippet->set_text(content);
+    } else if (kmldom::LinkSnippetPtr snippet =
+               kmldom::AsLinkSnippet(target_)) {
+      snippet->set_text(content);
+    } else if (kmldom::SimpleDataPtr simpledata =
+               kmldom::AsSimpleData(target_)) {
+      simpledata->set_text(content);
+    }
+  }
+
   // This sets the given field in the target.
   virtual void SaveStringFieldById(int type_id, string value) {
+    if (depth_ > 1) {
+      return;
+    }
     KmlDomType id = static_cast<KmlDomType>(type_id);
     ElementPtr field = KmlFactory::GetFactory()->CreateFieldById(id);
     field->set_char_data(value);
@@ -101,6 +145,8 @@ class FieldMerger : public Serializer {
 
  private:
   ElementPtr target_;
+  int depth_;
+  bool in_unknown_;
 };
 
 // This is the implementation of the public API function to merge the
-- 
2.43.0


From d4e3672dbb3b22880fa0ac327a1e44be9b6b7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:19 +0000
Subject: [PATCH 31/82] fix: children of a misplaced element were listed as
 direct children

---
 src/kml/engine/find.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/find.cc b/src/kml/engine/find.cc
index d7dbd79..7ee6b20 100644
--- a/src/kml/engine/find.cc
+++ b/src/kml/engine/find.cc
@@ -61,10 +61,23 @@ class ElementTypeFinder : public Serializer {
 class AllElementFinder : public Serializer {
  public:
   AllElementFinder(bool recurse, ElementVector* element_vector)
-    : recurse_(recurse), count_(0), element_vector_(element_vector) {
+    : recurse_(recurse), count_(0), depth_(0),
+      element_vector_(element_vector) {
+  }
+
+  virtual void BeginById(int type_id, const kmlbase::Attributes& attributes) {
+    ++depth_;
+  }
+
+  virtual void End() {
+    --depth_;
   }
 
   virtual void SaveElement(const ElementPtr& element) {
+    // A misplaced child is serialized in place: its children are not ours.
+    if (!recurse_ && depth_ > 1) {
+      return;
+    }
     ++count_;
     if (element_vector_) {
       element_vector_->push_back(element);
@@ -81,6 +94,7 @@ class AllElementFinder : public Serializer {
  private:
   bool recurse_;
   int count_;
+  int depth_;
   ElementVector* element_vector_;
 };
 
-- 
2.43.0


From 81c68bfbf0b901d19a6c38c23661c8ff72242738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:22 +0000
Subject: [PATCH 32/82] fix: an id within Update/Change replaced the id of its
 target

---
 src/kml/engine/update_processor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/engine/update_processor.cc b/src/kml/engine/update_processor.cc
index 16c9a37..89090b1 100644
--- a/src/kml/engine/update_processor.cc
+++ b/src/kml/engine/update_processor.cc
@@ -85,6 +85,8 @@ void UpdateProcessor::ProcessUpdateChange(const ChangePtr& change) {
         // root Object.  Ideally the targetId would not be _within_ the
         // source Object at all, but such is the OGC KML 2.2 standard.
         target_object->clear_targetid();
+        // An id= on the source does not change that of the target.
+        target_object->set_id(targetid);
       }
     }
   }
-- 
2.43.0


From daf15ed950eab23724fec4b55433a90709e5af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:45 +0000
Subject: [PATCH 33/82] fix: name of a ZIP entry was read into a shared and
 unterminated buffer

---
 src/kml/base/zip_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..c328c3a 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -98,9 +98,11 @@ ZipFile::ZipFile(const string& data)
     if (zfile) {
       unz_file_info finfo;
       do {
-        static char buf[1024];
-        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
+        // The name is only terminated if it is shorter than the buffer.
+        char buf[1024 + 1];
+        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf) - 1,
               0, 0, 0, 0) == UNZ_OK) {
+          buf[sizeof(buf) - 1] = 0;
           zipfile_toc_.push_back(buf);
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
-- 
2.43.0


From 2eb02ac6d76ed7459fff42c6270b7c66808dcc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 34/82] fix: crash on packaging a file which is not KML

---
 src/kml/engine/kmz_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 05ac2d5..515ab20 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -216,6 +216,9 @@ bool KmzFile::CreateFromKmlFilepath(const string& kml_filepath,
 
   KmlFilePtr kml_file =
     KmlFile::CreateFromStringWithUrl(kml_data, base_dir, NULL);
+  if (!kml_file) {
+    return false;  // Not KML.
+  }
 
   return CreateFromKmlFile(kml_file, kmz_filepath);
 }
-- 
2.43.0


From ff8241cb292b09a3f0322d9a5b2839fe0f9c76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:08 +0000
Subject: [PATCH 35/82] fix: leak on reading what is not a ZIP archive

---
 src/kml/base/zip_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index c328c3a..b61b3bf 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -107,6 +107,8 @@ ZipFile::ZipFile(const string& data)
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
       libkml_unzClose(zfile);
+    } else {
+      ZCLOSE(api, mem_stream);
     }
   }
 }
@@ -185,6 +187,7 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   }
   unzFile unzfile = libkml_unzAttach(mem_stream, &api);
   if (!unzfile) {
+    ZCLOSE(api, mem_stream);
     return false;
   }
 
-- 
2.43.0


From 8e1d4dd9578fff3f02f804baf4a54d8a6d8af116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:13 +0000
Subject: [PATCH 36/82] fix: a ZIP entry whose CRC does not match was returned
 as if intact

---
 src/kml/base/zip_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index b61b3bf..af640d7 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -212,8 +212,10 @@ bool ZipFile::GetEntry(const string& path_in_zip,
     return true;
   }
   char* filedata = new char[nbytes];
+  // Closing the file checks its CRC.
   if (libkml_unzReadCurrentFile(unzfilehelper->get_unzfile(), filedata,
-                         nbytes) == static_cast<int>(nbytes)) {
+                         nbytes) == static_cast<int>(nbytes) &&
+      libkml_unzCloseCurrentFile(unzfilehelper->get_unzfile()) == UNZ_OK) {
     output->assign(filedata, nbytes);
     delete [] filedata;
     return true;
-- 
2.43.0


From 72052ad6c5f09b8b8c15e9160aa65b59eb2370ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 37/82] fix: creating a KMZ reported success when it could not
 be written

---
 src/kml/base/zip_file.cc   | 26 ++++++++++++++++++--------
 src/kml/base/zip_file.h    |  4 ++++
 src/kml/engine/kmz_file.cc |  8 +++++---
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index af640d7..2e6e837 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -45,9 +45,12 @@ class MinizipFile {
  public:
   MinizipFile(zipFile zipfile) : zipfile_(zipfile) {}
   ~MinizipFile() {
-    if (zipfile_) {
-      zipClose(zipfile_, 0);
-    }
+    Close();
+  }
+  bool Close() {
+    bool ok = zipfile_ && zipClose(zipfile_, 0) == ZIP_OK;
+    zipfile_ = NULL;
+    return ok;
   }
   zipFile get_zipfile() { return zipfile_; }
  private:
@@ -238,11 +241,18 @@ bool ZipFile::AddEntry(const string& data,
   if (!zipfile) {
     return false;
   }
-  zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
-                      Z_DEFLATED, Z_DEFAULT_COMPRESSION);
-  zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
-                      static_cast<unsigned int>(data.size()));
-  return zipCloseFileInZip(zipfile) == ZIP_OK;
+  if (zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
+                          Z_DEFLATED, Z_DEFAULT_COMPRESSION) != ZIP_OK) {
+    return false;
+  }
+  bool ok = zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
+                                static_cast<unsigned int>(data.size())) ==
+            ZIP_OK;
+  return zipCloseFileInZip(zipfile) == ZIP_OK && ok;
+}
+
+bool ZipFile::Close() {
+  return minizip_file_ && minizip_file_->Close();
 }
 
 }  // end namespace kmlbase
diff --git a/src/kml/base/zip_file.h b/src/kml/base/zip_file.h
index f823d1c..84b7f73 100644
--- a/src/kml/base/zip_file.h
+++ b/src/kml/base/zip_file.h
@@ -105,6 +105,10 @@ class ZipFile {
   // essentially a NOP. True will be returned, but the data is unchanged.
   bool AddEntry(const string& data, const string& path_in_zip);
 
+  // Completes a ZIP file created with ZipFile::Create.  Returns false if it
+  // could not be written in full.  No entry can be added after this.
+  bool Close();
+
  private:
   // The constructor used to open a ZIP file in-memory, suitable for reading.
   ZipFile(const string& data);
diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 515ab20..013ff1a 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -197,7 +197,7 @@ bool KmzFile::WriteKmz(const char* kmz_filepath, const string& kml) {
   if (!kmz->AddFile(kml, kDefaultKmlFilename)) {
     return false;
   }
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz->zip_file_->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
@@ -237,7 +237,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
   const string kml_data = kmldom::SerializePretty(element);
   // First add the KML file. This is the file opened by default by a client
   // from a KMZ archive.
-  kmz_file->AddFile(kml_data, kDefaultKmlFilename);
+  if (!kmz_file->AddFile(kml_data, kDefaultKmlFilename)) {
+    return false;
+  }
 
   // Next gather the local references and add them.
   StringVector file_paths;
@@ -245,7 +247,7 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
     kmz_file->AddFileList(base_url, file_paths);
   }
 
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz_file->zip_file_->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
-- 
2.43.0


From cb1bc89591f8bcecb4e47f5f16e4c018d80bdae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:39 +0000
Subject: [PATCH 38/82] fix: names of 256 characters or more in a ZIP file were
 compared unterminated

---
 src/kml/base/contrib/minizip/unzip.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/contrib/minizip/unzip.c b/src/kml/base/contrib/minizip/unzip.c
index df33f79..a1ece9f 100644
--- a/src/kml/base/contrib/minizip/unzip.c
+++ b/src/kml/base/contrib/minizip/unzip.c
@@ -912,6 +912,8 @@ extern int ZEXPORT libkml_unzLocateFile (file, szFileName, iCaseSensitivity)
         err = libkml_unzGetCurrentFileInfo(file,NULL,
                                     szCurrentFileName,sizeof(szCurrentFileName)-1,
                                     NULL,0,NULL,0);
+        /* A longer name is copied without its terminator. */
+        szCurrentFileName[sizeof(szCurrentFileName)-1] = '\0';
         if (err == UNZ_OK)
         {
             if (libkml_unzStringFileNameCompare(szCurrentFileName,
-- 
2.43.0


From 24ef29e93beeae3620fdf69356518d18078fe700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:36 +0000
Subject: [PATCH 39/82] fix: errors in reading and writing a file went
 unreported

---
 src/kml/base/file.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 7aec359..dea867f 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -46,16 +46,20 @@ bool File::ReadFileToString(const string& filename, string* output) {
   if (!input_file.is_open() || !input_file.good()) {
     return false;
   }
-  output->clear();
+  string content;
   const unsigned int kBufferSize = 1024;
   char buffer[kBufferSize];
   while (!input_file.eof() && input_file.good()) {
     input_file.read(buffer, kBufferSize);
     // Guard zero read sizess for MSVC 2010.
     if (input_file.gcount() > 0) {
-      output->append(buffer, static_cast<size_t>(input_file.gcount()));
+      content.append(buffer, static_cast<size_t>(input_file.gcount()));
     }
   }
+  if (input_file.bad()) {
+    return false;  // It could not be read to its end, a directory for example.
+  }
+  output->swap(content);
   return true;
 }
 
@@ -71,7 +75,7 @@ bool File::WriteStringToFile(const string& data,
   }
   output_file.write(data.c_str(), static_cast<std::streamsize>(data.length()));
   output_file.close();
-  return true;
+  return output_file.good();
 }
 
 string File::JoinPaths(const string& p1, const string& p2) {
-- 
2.43.0


From 7c4e16026684a00375f8d84ef9fa73e0e844d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:40 +0000
Subject: [PATCH 40/82] fix: a file above the base could be packaged into a KMZ

---
 src/kml/engine/kmz_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 013ff1a..5239d2d 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -159,8 +159,9 @@ size_t KmzFile::AddFileList(const string& base_url,
     }
 
     // If the normalized_href points above the base_url, we consider it
-    // invalid.
-    if (normalized_href.substr(0, 2) == "..") {
+    // invalid.  An href which mixes '/' and '\\' can still have a ".." within.
+    if (normalized_href.substr(0, 2) == ".." ||
+        (normalized_href + "/").find("/../") != string::npos) {
       error_count++;
       continue;
     }
-- 
2.43.0


From 1c3c237e2cdf0732fe81f5b708fba5011e8d01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:43 +0000
Subject: [PATCH 41/82] fix: the fetchable part of a URI lacked its query, user
 info and more

---
 src/kml/engine/kml_uri.cc | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index a310105..08875e1 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -182,26 +182,7 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
   if (!fetchable_uri) {
     return true;  // uri parsed fine, just not interested in output.
   }
-  string scheme;
-  static_cast<void> (uri_parser->GetScheme(&scheme));
-  string host;
-  static_cast<void> (uri_parser->GetHost(&host));
-
-  if (!scheme.empty() && !host.empty()) {
-    fetchable_uri->append(scheme).append("://",3).append(host);
-    string port;
-    static_cast<void> (uri_parser->GetPort(&port));
-    if (!port.empty()) {
-      fetchable_uri->append(":",1).append(port);
-    }
-    fetchable_uri->append("/",1);
-  }
-
-  string path;
-  static_cast<void> (uri_parser->GetPath(&path));
-  if (!path.empty()) {
-    fetchable_uri->append(path);
-  }
+  fetchable_uri->append(uri, 0, uri.find('#'));
   return true;
 }
 
-- 
2.43.0


From 599b387dc742cfddd9fed7254491e1697c7d925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:07 +0000
Subject: [PATCH 42/82] fix: a name which merely contains .kmz was taken for a
 KMZ archive

---
 src/kml/engine/kml_uri.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index 08875e1..b8ee296 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -188,7 +188,12 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
 
 bool KmzSplit(const string& kml_url, string* kmz_url,
               string* kmz_path) {
+  // Only a whole path segment ending in ".kmz" names a KMZ archive.
   size_t kmz = kml_url.find(".kmz");
+  while (kmz != string::npos && kmz + 4 < kml_url.size() &&
+         kml_url[kmz + 4] != '/') {
+    kmz = kml_url.find(".kmz", kmz + 1);
+  }
   if (kmz == string::npos) {
     return false;
   }
-- 
2.43.0


From b16a26d1cbbf01bd40421885f813885fe1cf4e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:10 +0000
Subject: [PATCH 43/82] fix: a URL within the path or query of an href was
 taken for its scheme

---
 src/kml/engine/href.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index 6e18b06..96ea4c2 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -34,6 +34,10 @@ size_t Href::ParseScheme(const string& href) {
   if (css == string::npos || css == 0) {
     return 0;
   }
+  // A "://" which follows the start of the path or query begins no net_loc.
+  if (href.find_first_of("/?") < css) {
+    return 0;
+  }
   scheme_ = href.substr(0, css);
   return css + 3;  // First char after ://
 }
-- 
2.43.0


From 7518612acf0fbb453b5ea3d4f6c1f7d9ae0bdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:37 +0000
Subject: [PATCH 44/82] fix: data of which no item can be made evicted a cached
 item

---
 src/kml/base/net_cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..adf224e 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,6 +129,9 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
+    if (!item) {
+      return NULL;  // Fetched, but not data this cache can hold.
+    }
     if (!Save(url, item)) {  // This is basically an internal error.
       return NULL;
     }
-- 
2.43.0


From 5f2debcc33cdfd9be4849bd4474d921bc54b26b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:41 +0000
Subject: [PATCH 45/82] fix: a stream which breaks off was read without an
 error

---
 src/kml/engine/kml_stream.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kml_stream.cc b/src/kml/engine/kml_stream.cc
index b6bd25e..4eb928d 100644
--- a/src/kml/engine/kml_stream.cc
+++ b/src/kml/engine/kml_stream.cc
@@ -69,9 +69,26 @@ KmlStream* KmlStream::ParseFromIstream(
     }
   }
 
+  // The stream broke before its end.
+  if (!input->eof()) {
+    if (errors) {
+      *errors = "read error";
+    }
+    return NULL;
+  }
+
+  // Nothing was read, for example.
+  ElementPtr root = kml_handler.PopRoot();
+  if (!root) {
+    if (errors) {
+      *errors = "no root element";
+    }
+    return NULL;
+  }
+
   // Parse succeeded.  Construct KmlStream.
   KmlStream* kml_stream = new KmlStream;
-  kml_stream->set_root(kml_handler.PopRoot());
+  kml_stream->set_root(root);
   return kml_stream;
 }
 
-- 
2.43.0


From 5fba3f449c283967a167028475958fb4ba9bbbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:46 +0000
Subject: [PATCH 46/82] fix: parsing an empty string reported no error

---
 src/kml/base/expat_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..17007e9 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,7 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, 1);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
-- 
2.43.0


From 23fc17edbcaeca46d3ec15ef54ec7e1c9926cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 47/82] fix: no error was reported for a stream whose root
 element is not KML

---
 src/kml/base/expat_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 17007e9..82566bb 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -123,6 +123,12 @@ bool ExpatParser::ParseBuffer(const string& input, string* errors,
 bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
                                       bool is_final) {
   XML_Status status = XML_ParseBuffer(parser_, static_cast<int>(len), is_final);
+  if (status == XML_STATUS_SUSPENDED) {  // See _ParseString().
+    if (errors) {
+      *errors = "Invalid root element";
+    }
+    return false;
+  }
   // If we have just parsed the final buffer, we need to check if Expat
   // has stopped parsing. Failure here indicates invalid (badly formed)
   // XML content.
-- 
2.43.0


From fa587e15ea7c0fb0c2723f06cdff99e1267067e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:36 +0000
Subject: [PATCH 48/82] fix: CsvParser created placemarks through a null
 factory

---
 src/kml/convenience/csv_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/csv_parser.cc b/src/kml/convenience/csv_parser.cc
index e20434f..340eed2 100644
--- a/src/kml/convenience/csv_parser.cc
+++ b/src/kml/convenience/csv_parser.cc
@@ -82,7 +82,7 @@ CsvParser::CsvParser(kmlbase::CsvSplitter* csv_splitter,
   , feature_id_(npos)
   , style_id_(npos)
   , style_url_base_(kDefaultStyleUrlBase)
-  , kml_factory_(0)
+  , kml_factory_(kmldom::KmlFactory::GetFactory())
 {
 }
 
-- 
2.43.0


From 6961ec73c9df4b1456f5cc070c5865c8ac443512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:42 +0000
Subject: [PATCH 49/82] fix: GpxTrkPtHandler repeated the previous point for a
 trkpt without lat or lon

---
 src/kml/convenience/gpx_trk_pt_handler.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 2e7fdd6..4a2aa73 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -64,11 +64,12 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       // <trkpt lat="-33.911973070" lon="18.422974152">
       // If both lat and lon exist and are sane doubles create a Vec3 for
       // the point.
+      vec3_.reset();
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
-        double latitude;
-        double longitude;
+        double latitude = 0;
+        double longitude = 0;
         if (attributes->GetDouble("lat", &latitude) &&
             attributes->GetDouble("lon", &longitude)) {
           vec3_.reset(new kmlbase::Vec3(longitude, latitude));
@@ -91,6 +92,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       // If a Vec3 was created for this element call the handler.
       if (vec3_.get()) {
         HandlePoint(*vec3_, time_);
+        vec3_.reset();
       }
     } else if (name.compare("time") == 0) {
       // <time>2008-10-11T14:55:41Z</time>
@@ -98,7 +100,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
     } else if (name.compare("ele") == 0) {
       // <ele>4.943848</ele>
       if (vec3_.get()) {
-	double alt;
+	double alt = 0;
 	kmlbase::FromString(char_data_, &alt);
         vec3_->set_altitude(alt);
       }
-- 
2.43.0


From 4047d3cabc6e6f7e689a85d864c46cc567723084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:45 +0000
Subject: [PATCH 50/82] fix: CsvFile ignored everything after a blank line

---
 src/kml/convenience/csv_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/csv_file.cc b/src/kml/convenience/csv_file.cc
index 889bf33..b812ac2 100644
--- a/src/kml/convenience/csv_file.cc
+++ b/src/kml/convenience/csv_file.cc
@@ -73,7 +73,7 @@ void CsvFile::ParseCsvFile(const char* filename) {
     string csv_line;
     getline(csv_file, csv_line);
     if (csv_line.empty()) {
-      return;
+      continue;
     }
     ParseCsvLine(csv_line);
   }
-- 
2.43.0


From 0ae2353da52091591e3c459672228e4fdb5e01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:51 +0000
Subject: [PATCH 51/82] fix: SplitStringUsing left part of a separator of
 several characters in the next piece

---
 src/kml/base/string_util.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..6dd2b5d 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -62,11 +62,15 @@ string CreateExpandedStrings(const string& in,
 
 void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
+  if (split_string.empty()) {
+    output->push_back(input);
+    return;
+  }
   string iter = input;
   size_t separator;
   while ((separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
-    iter = iter.substr(separator+1);
+    iter = iter.substr(separator + split_string.size());
   }
   output->push_back(iter);
 }
-- 
2.43.0


From e219a6b995f4bbdd18415ee76ba1b6af3c7ae185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:54 +0000
Subject: [PATCH 52/82] fix: CreateLineStringBox did not close the box

---
 src/kml/regionator/regionator_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/regionator/regionator_util.cc b/src/kml/regionator/regionator_util.cc
index 48bb0c0..460ddd0 100644
--- a/src/kml/regionator/regionator_util.cc
+++ b/src/kml/regionator/regionator_util.cc
@@ -139,7 +139,7 @@ PlacemarkPtr CreateLineStringBox(const string& name, const RegionPtr& region) {
     coordinates->add_latlng(north, east);
     coordinates->add_latlng(south, east);
     coordinates->add_latlng(south, west);
-    coordinates->add_latlng(south, west);
+    coordinates->add_latlng(north, west);
     LineStringPtr linestring = factory->CreateLineString();
     linestring->set_coordinates(coordinates);
     linestring->set_tessellate(true);
-- 
2.43.0


From a7479e595f0df592500eac22df22ab5b121e4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:41 +0000
Subject: [PATCH 53/82] fix: Regionator put the separators of the global locale
 into file names

---
 src/kml/regionator/regionator.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/kml/regionator/regionator.cc b/src/kml/regionator/regionator.cc
index 82d1b5a..bedab71 100644
--- a/src/kml/regionator/regionator.cc
+++ b/src/kml/regionator/regionator.cc
@@ -27,9 +27,9 @@
 // "regionation" algorithm.  See region_handler.h for how this operates.
 
 #include "kml/regionator/regionator.h"
-#include <sstream>
 #include "kml/base/file.h"
 #include "kml/base/mimetypes.h"
+#include "kml/base/string_util.h"
 #include "kml/base/util.h"
 #include "kml/convenience/atom_util.h"
 #include "kml/dom.h"
@@ -69,9 +69,7 @@ string Regionator::RegionFilename(const RegionPtr& region) {
   if (root_filename_ && qid.IsRoot()) {
     return root_filename_;
   }
-  std::stringstream str;
-  str << qid_map_[qid.str()];
-  return str.str() + ".kml";
+  return kmlbase::ToString(qid_map_[qid.str()]) + ".kml";
 }
 
 // This is an internal method to recurse down to a child of the given Region.
-- 
2.43.0


From 0e7167014b10b23885c3a3beeafc82a6ce34d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:15 +0000
Subject: [PATCH 54/82] fix: the first uses of KmlFactory and Xsd raced when
 made by several threads

---
 src/kml/dom/kml_factory.cc | 8 ++------
 src/kml/dom/kml_factory.h  | 1 -
 src/kml/dom/xsd.cc         | 8 ++------
 src/kml/dom/xsd.h          | 1 -
 4 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/kml/dom/kml_factory.cc b/src/kml/dom/kml_factory.cc
index b7faa49..80f78ec 100644
--- a/src/kml/dom/kml_factory.cc
+++ b/src/kml/dom/kml_factory.cc
@@ -31,14 +31,10 @@
 
 namespace kmldom {
 
-KmlFactory* KmlFactory::factory_ = NULL;
-
 // static
 KmlFactory* KmlFactory::GetFactory() {
-  if (factory_ == NULL) {
-    factory_ = new KmlFactory();
-  }
-  return factory_;
+  static KmlFactory* factory = new KmlFactory();
+  return factory;
 }
 
 ElementPtr KmlFactory::CreateElementById(KmlDomType id) const {
diff --git a/src/kml/dom/kml_factory.h b/src/kml/dom/kml_factory.h
index 0157b33..601865b 100644
--- a/src/kml/dom/kml_factory.h
+++ b/src/kml/dom/kml_factory.h
@@ -140,7 +140,6 @@ class KmlFactory {
 
  private:
   KmlFactory() {};  // Singleton class, use GetFactory().
-  static KmlFactory* factory_;
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(KmlFactory);
 };
 
diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index a3208f1..d4d0373 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -31,13 +31,9 @@
 
 namespace kmldom {
 
-Xsd* Xsd::schema_ = NULL;
-
 Xsd* Xsd::GetSchema() {
-  if (schema_ == NULL) {
-    schema_ = new Xsd;
-  }
-  return schema_;
+  static Xsd* schema = new Xsd;
+  return schema;
 }
 
 Xsd::Xsd() {
diff --git a/src/kml/dom/xsd.h b/src/kml/dom/xsd.h
index 1d98e6a..11c5bee 100644
--- a/src/kml/dom/xsd.h
+++ b/src/kml/dom/xsd.h
@@ -95,7 +95,6 @@ class Xsd {
 
  private:
   Xsd();
-  static Xsd* schema_;
 
   tag_id_map_t tag_to_id;
   std::map<int,XsdElement> id_to_string;
-- 
2.43.0


From 9ac8824bc21382cad2cf4d9ea56e0cb16c388ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:11 +0000
Subject: [PATCH 55/82] fix: CreateExpandedStrings skipped occurrences after
 the first replacement

---
 src/kml/base/string_util.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index 6dd2b5d..23df2f3 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -46,15 +46,14 @@ string CreateExpandedStrings(const string& in,
   StringMap::const_iterator itr = string_map.begin();
   for (itr = string_map.begin(); itr != string_map.end(); ++itr)  {
     string candidate(start + itr->first + end);
+    if (candidate.empty()) {
+      continue;
+    }
     size_t start_pos = out.find(candidate);
     while (start_pos != string::npos) {
       out.replace(start_pos, candidate.size(), itr->second);
-      // Avoid an infinite loop if the value contains the key. Allow the first
-      // replacement to happen, then bail.
-      if (itr->second.find(itr->first) != string::npos) {
-        break;
-      }
-      start_pos = out.find(candidate, start_pos + candidate.size());
+      // Continue after the value: it might itself contain the key.
+      start_pos = out.find(candidate, start_pos + itr->second.size());
     }
   }
   return out;
-- 
2.43.0


From c78ec33bbbaf54f693b200f1af8d12617282abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:16 +0000
Subject: [PATCH 56/82] fix: EntityMapper labelled SimpleData by another
 SchemaData's Schema, or not at all

---
 src/kml/engine/entity_mapper.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/entity_mapper.cc b/src/kml/engine/entity_mapper.cc
index 4f87c40..3d55314 100644
--- a/src/kml/engine/entity_mapper.cc
+++ b/src/kml/engine/entity_mapper.cc
@@ -140,6 +140,7 @@ void EntityMapper::GatherDataFields(const DataPtr& data) {
 void EntityMapper::GatherSchemaDataFields(const SchemaDataPtr& schemadata) {
   // We need to take the schemaUrl and find the <Schema> with that id.
   schemadata_prefix_ = "/";
+  simplefield_name_map_.clear();
   if (schemadata->has_schemaurl()) {
     // We need to get the name= attr of the <Schema> with the id= attr that
     // matches this schemaUrl.
@@ -184,16 +185,17 @@ void EntityMapper::GatherSimpleDataFields(const SimpleDataPtr& simpledata) {
       simpledata->get_text();
   }
   // If there is a schemaUrl, the names we will use for display are in
-  // the populated map. If there isn't, the map is empty and we'll use the
-  // name attr of the SimpleData element.
+  // the populated map. If there isn't, or if the Schema has no such field,
+  // we'll use the name attr of the SimpleData element.
   if (alt_markup_map_) {
-    if (simplefield_name_map_.empty()) {
+    kmlbase::StringMap::const_iterator iter =
+        simplefield_name_map_.find(simpledata->get_name());
+    if (iter == simplefield_name_map_.end()) {
       alt_markup_map_->push_back(
           std::make_pair(simpledata->get_name(), simpledata->get_text()));
     } else {
       alt_markup_map_->push_back(
-          std::make_pair(simplefield_name_map_[simpledata->get_name()],
-                         simpledata->get_text()));
+          std::make_pair(iter->second, simpledata->get_text()));
     }
   }
 }
-- 
2.43.0


From 0323084cc4a7fb97175943b029aa5f09f9173bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:20 +0000
Subject: [PATCH 57/82] fix: DateTime::GetTimeT ignored the year of times
 before 1970

---
 src/kml/base/date_time.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 01dbfc4..ac07917 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -70,6 +70,8 @@ time_t DateTime::GetTimeT() const {
   // This and is_leap() base from 1970, the epoch of a time_t.
   for (int year = 70; year < tm_.tm_year; ++year)
     res += is_leap(year) ? 366 : 365;
+  for (int year = tm_.tm_year; year < 70; ++year)
+    res -= is_leap(year) ? 366 : 365;
 
   for (int month = 0; month < tm_.tm_mon; ++month)
     res += ndays[is_leap(tm_.tm_year)][month];
-- 
2.43.0


From f869ac0daab9556279f34b4c8ef25e2fbd4b3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 58/82] fix: Attributes::Create threw for an unpaired last item

---
 src/kml/base/attributes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 2944748..9b307ca 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -62,7 +62,7 @@ bool Attributes::Parse(const char** attrs) {
 
 bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   for (unsigned int i = 0; i < attrs.size() ; i += 2) {
-    if (attrs.size() - i < 1)
+    if (attrs.size() - i < 2)  // Quietly ignore unpaired last item.
       break;
     string attr_name = attrs.at(i);
     string attr_val = attrs.at(i+1);
-- 
2.43.0


From 1bb1acaaa4ed414f568f192c1df1bcf659bdebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 59/82] fix: XsdHandler crashed on anonymous and nested types
 and on an element as root

---
 src/kml/xsd/xsd_handler.cc | 22 ++++++++++++----------
 src/kml/xsd/xsd_handler.h  |  1 +
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 98dc545..f7c3b3f 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -40,16 +40,19 @@ namespace kmlxsd {
 
 // <xs:complexType name="..." abstract="...">
 void XsdHandler::StartComplexType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:complexType> and/or <xs:simpleType>
-    current_type_ = XsdComplexType::Create(attributes);
-  }
+  // An anonymous type has no name: elements within it are not kept.
+  enclosing_types_.push(current_type_);
+  current_type_ = XsdComplexType::Create(attributes);
 }
 
 // </xs:complexType">
 // </xs:simpleType">
 void XsdHandler::EndType() {
-  xsd_file_->add_type(current_type_);
-  current_type_ = NULL;
+  if (current_type_) {
+    xsd_file_->add_type(current_type_);
+  }
+  current_type_ = enclosing_types_.top();
+  enclosing_types_.pop();
 }
 
 // <xs:extension base="...">
@@ -65,9 +68,8 @@ void XsdHandler::StartExtension(const Attributes& attributes) {
 
 // <xs:simpleType name="..."/>
 void XsdHandler::StartSimpleType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:simpleType is never nested...
-    current_type_ = XsdSimpleType::Create(attributes);
-  }
+  enclosing_types_.push(current_type_);
+  current_type_ = XsdSimpleType::Create(attributes);
 }
 
 // <xs:restriction base="...">
@@ -95,13 +97,13 @@ void XsdHandler::StartEnumeration(const Attributes& attributes) {
 // <xs:element name="..." type="..." default=".."/>
 // <xs:element ref="..." minOccurs="..." maxOccurs="..."/>
 void XsdHandler::StartXsElement(const Attributes& attributes) {
-  XsdElement* element = XsdElement::Create(attributes);
+  XsdElementPtr element = XsdElement::Create(attributes);
   if (!element) {
     return;
   }
 
   // Is this a global element?
-  if (parse_.top() == kSchema) {
+  if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (XsdComplexTypePtr complex_type =
                  XsdComplexType::AsComplexType(current_type_)) {
diff --git a/src/kml/xsd/xsd_handler.h b/src/kml/xsd/xsd_handler.h
index 0dfba03..50d9211 100644
--- a/src/kml/xsd/xsd_handler.h
+++ b/src/kml/xsd/xsd_handler.h
@@ -83,6 +83,7 @@ class XsdHandler : public kmlbase::ExpatHandler {
 
   void EndType();
   XsdTypePtr current_type_;
+  std::stack<XsdTypePtr> enclosing_types_;
 
   std::stack<string> parse_;
 };
-- 
2.43.0


From d5b7b1aead553339fe3c7c2f4ff64b67701c48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:12 +0000
Subject: [PATCH 60/82] fix: XsdFile::get_target_namespace crashed for a schema
 without one

---
 src/kml/xsd/xsd_file.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kml/xsd/xsd_file.h b/src/kml/xsd/xsd_file.h
index 99e9e5f..e3e933b 100644
--- a/src/kml/xsd/xsd_file.h
+++ b/src/kml/xsd/xsd_file.h
@@ -80,11 +80,12 @@ class XsdFile {
     type_map_[xsd_type->get_name()] = xsd_type;
   }
 
-  const string& get_target_namespace() const {
-    return xsd_schema_->get_target_namespace();
+  // These are empty if the <xs:schema> has no targetNamespace.
+  const string get_target_namespace() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace() : string();
   }
-  const string& get_target_namespace_prefix() const {
-    return xsd_schema_->get_target_namespace_prefix();
+  const string get_target_namespace_prefix() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace_prefix() : string();
   }
 
   // Create an alias.  For example, "AbstractFeatureGroup" == "Feature".
-- 
2.43.0


From 2b4da4972508eee67392184694ad70b78e4650ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:15 +0000
Subject: [PATCH 61/82] fix: XsdFile did not return from types derived from
 each other in a circle

---
 src/kml/xsd/xsd_file.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ac8d184..91d0523 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -159,7 +159,11 @@ bool XsdFile::GetTypeHierarchy(const XsdComplexTypePtr& complex_type,
     return false;
   }
   XsdComplexTypePtr current = complex_type;
+  size_t depth = 0;
   while (current->has_extension_base()) {
+    if (++depth > type_map_.size()) {
+      return false;  // The types are derived from each other in a circle.
+    }
     if (XsdComplexTypePtr base = GetBaseType(current)) {
       if (type_hier) {
         type_hier->push_back(base);
@@ -239,10 +243,10 @@ bool XsdFile::SearchTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (find_type == complex_type) {
     return true;
   }
-  if (XsdComplexTypePtr base_type = GetBaseType(complex_type)) {
-    return SearchTypeHierarchy(base_type, find_type);
-  }
-  return false;
+  vector<XsdComplexTypePtr> type_hier;
+  GetTypeHierarchy(complex_type, &type_hier);
+  return std::find(type_hier.begin(), type_hier.end(), find_type) !=
+      type_hier.end();
 }
 
 void XsdFile::GetElementsOfType(const XsdComplexTypePtr& type,
-- 
2.43.0


From 595b464d1b8221c937299191b74cdcbcedda05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 62/82] fix: XsdPrimitiveType::GetTypeName crashed for
 XSD_INVALID

---
 src/kml/xsd/xsd_primitive_type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_primitive_type.cc b/src/kml/xsd/xsd_primitive_type.cc
index 00ce2e5..7c7015c 100644
--- a/src/kml/xsd/xsd_primitive_type.cc
+++ b/src/kml/xsd/xsd_primitive_type.cc
@@ -56,7 +56,7 @@ static const char* XsdPrimitiveTypeName[] = {
 };
 
 const string XsdPrimitiveType::GetTypeName(TypeId type_id) {
-  return XsdPrimitiveTypeName[type_id];
+  return type_id == XSD_INVALID ? "" : XsdPrimitiveTypeName[type_id];
 }
 
 XsdPrimitiveType::TypeId XsdPrimitiveType::GetTypeId(
-- 
2.43.0


From 07e0cdb99b9170f526c60434b9fda6a85b734b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:21 +0000
Subject: [PATCH 63/82] fix: CreateCoordinatesCircle drew an arc unless given
 360 segments

---
 src/kml/convenience/convenience.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 6aa8918..7621880 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -119,7 +119,7 @@ CoordinatesPtr CreateCoordinatesCircle(double lat, double lng,
   CoordinatesPtr coords = KmlFactory::GetFactory()->CreateCoordinates();
   for (size_t i = 0; i < segments; ++i) {
     coords->add_vec3(kmlbase::LatLngOnRadialFromPoint(
-        lat, lng, radius, static_cast<double>(i)));
+        lat, lng, radius, 360.0 * i / segments));
   }
   return coords;
 }
-- 
2.43.0


From 659a8f98b80e58e85a35a90d5eb2e9e95ef42c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 64/82] fix: CreatePointFromLatLonAtts read an uninitialized
 number for an empty attribute

---
 src/kml/convenience/convenience.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 7621880..3e5da55 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -148,8 +148,8 @@ LookAtPtr CreateLookAt(double latitude, double longitude, double altitude,
 PointPtr CreatePointFromLatLonAtts(const char** atts) {
   boost::scoped_ptr<Attributes> attributes(Attributes::Create(atts));
   if (attributes.get()) {
-    double latitude;
-    double longitude;
+    double latitude = 0.0;
+    double longitude = 0.0;
     if (attributes->GetValue("lat", &latitude) &&
         attributes->GetValue("lon", &longitude)) {
       return CreatePointLatLon(latitude, longitude);
-- 
2.43.0


From 5d6a0b6165ba116e46f78b3287e99a2629dc02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:58 +0000
Subject: [PATCH 65/82] fix: KmlFeatureListSaver saved the features of an
 Update

---
 src/kml/convenience/kml_feature_list_saver.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index ca85d14..2117867 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -60,6 +60,11 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
     }
   }
 
+  // ParserObserver::NewElement()
+  virtual bool NewElement(const kmldom::ElementPtr& element) {
+    return StartElement(element);
+  }
+
   virtual bool StartElement(const kmldom::ElementPtr& element) {
     if (element->Type() == kmldom::Type_Update) {
       in_update_ = true;
-- 
2.43.0


From 84a988e47f5217ee690a8aa332e92d11cec8bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 66/82] fix: KmlFeatureListSaver ignored the style base for an
 id of one character

---
 src/kml/convenience/kml_feature_list_saver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index 2117867..4309c47 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -86,7 +86,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
       kmldom::FeaturePtr feature = kmldom::AsFeature(child);
       if (!style_base_.empty() && feature->has_styleurl()) {
         const string& styleurl = feature->get_styleurl();
-        if (styleurl.size() > 2 && styleurl[0] == '#') {
+        if (styleurl.size() > 1 && styleurl[0] == '#') {
           feature->set_styleurl(style_base_ + styleurl);
         }
       }
-- 
2.43.0


From 5a2d4e97982d41940eb2b6f9684878d26108c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:05 +0000
Subject: [PATCH 67/82] fix: AtomUtil::CloneEntryFeature returned and changed
 the entry's own feature

---
 src/kml/convenience/atom_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 4baa5a3..9f360e3 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -160,7 +160,8 @@ FeaturePtr AtomUtil::GetEntryFeature(const AtomEntryPtr& entry) {
 
 // static
 FeaturePtr AtomUtil::CloneEntryFeature(const AtomEntryPtr& entry) {
-  if (FeaturePtr feature = GetEntryFeature(entry)) {
+  if (FeaturePtr entry_feature = GetEntryFeature(entry)) {
+    FeaturePtr feature = kmldom::AsFeature(kmlengine::Clone(entry_feature));
     string href;
     if (FindRelUrl(*entry.get(), "self", &href)) {
       AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
-- 
2.43.0


From 133b75096b9fd282982e83ad3f989f82906e572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:08 +0000
Subject: [PATCH 68/82] fix: AtomUtil::GetFeedFeatures did not set the
 container's link

---
 src/kml/convenience/atom_util.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 9f360e3..06fbb74 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -178,6 +178,12 @@ void AtomUtil::GetFeedFeatures(const AtomFeedPtr& feed,
                                ContainerPtr container) {
   // Need both an <atom:feed> and Container to do anything interesting.
   if (feed.get() && container.get()) {
+    string href;
+    if (FindRelUrl(*feed, "self", &href)) {
+      AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
+      link->set_href(href);
+      container->set_atomlink(link);
+    }
     for (size_t i = 0; i < feed->get_entry_array_size(); ++i) {
       // We need to clone because libkml allows no more than one parent per
       // XmlElement (see kmlbase::XmlElement::SetParent).
-- 
2.43.0


From 963731c05ec3b618b1a2e83c2b69dcc61a0c8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:11 +0000
Subject: [PATCH 69/82] fix: AtomUtil::GetGdResourceId crashed without a
 resource_id

---
 src/kml/convenience/atom_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 06fbb74..1770cb7 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -258,7 +258,9 @@ bool AtomUtil::GetGdResourceId(const kmldom::AtomEntryPtr& entry,
     if (HackParseElement(entry->get_unknown_elements_array_at(i), &tag,
                          &content) &&
         tag == "resourceId") {
-      *resource_id = content;
+      if (resource_id) {
+        *resource_id = content;
+      }
       return true;
     }
   }
-- 
2.43.0


From e7f91cf39d0247fefb80732ad574aeee042626ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:00 +0000
Subject: [PATCH 70/82] fix: the login token lost its last character, or took
 in further lines, where the response does not end with it

---
 src/kml/convenience/http_client.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/http_client.cc b/src/kml/convenience/http_client.cc
index f7fafa6..795dba2 100644
--- a/src/kml/convenience/http_client.cc
+++ b/src/kml/convenience/http_client.cc
@@ -97,7 +97,7 @@ bool HttpClient::Login(const string& service_name,
   }
   const string token = response.substr(auth_offset + kAuth.size());
 
-  auth_token_ = token.substr(0, token.size() - 1);  // remove trailing "\n"
+  auth_token_ = token.substr(0, token.find('\n'));  // up to the end of line
 
   // Attach Authorization header to every subsequent request
   PushHeader("Authorization", "GoogleLogin auth=" + auth_token_, &headers_);
-- 
2.43.0


From a82abb223fdb025e4fa77272a98bf75a0c36876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:36 +0000
Subject: [PATCH 71/82] fix: a SimpleField is no gx:SimpleArrayField

---
 src/kml/dom/schema.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/dom/schema.h b/src/kml/dom/schema.h
index 4d26b00..15210c5 100644
--- a/src/kml/dom/schema.h
+++ b/src/kml/dom/schema.h
@@ -106,6 +106,8 @@ class SimpleField : public BasicElement<Type_SimpleField> {
 class GxSimpleArrayField : public SimpleField {
  public:
   virtual ~GxSimpleArrayField();
+  // This static method makes the class useable with ElementCast.
+  static KmlDomType ElementType() { return Type_GxSimpleArrayField; }
   virtual KmlDomType Type() const { return Type_GxSimpleArrayField; }
   virtual bool IsA(KmlDomType type) const {
     return type == Type_GxSimpleArrayField || SimpleField::IsA(type);
-- 
2.43.0


From 5b6d959b391eacb49d0e5d9a7d5e164dff944872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:43 +0000
Subject: [PATCH 72/82] fix: nothing in place of an element is not kept as a
 misplaced child

---
 src/kml/dom/element.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/element.cc b/src/kml/dom/element.cc
index aaceeb0..528d4c2 100644
--- a/src/kml/dom/element.cc
+++ b/src/kml/dom/element.cc
@@ -52,7 +52,9 @@ Element::~Element() {
 // Anything reaching this level is an known (KML) element found in an illegal
 // position during parse. We will store it for later serialiation.
 void Element::AddElement(const ElementPtr& element) {
-  unknown_legal_elements_array_.push_back(element);
+  if (element) {
+    unknown_legal_elements_array_.push_back(element);
+  }
 }
 
 // Anything that reaches this level of the hierarchy is an unknown (non-KML)
-- 
2.43.0


From 869ee7dbd3f47a2344d44dcf1407247160e74a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:58 +0000
Subject: [PATCH 73/82] fix: listing an archive replaced the vector it is
 documented to append to

---
 src/kml/base/zip_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 2e6e837..16def87 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -149,7 +149,7 @@ bool ZipFile::GetToc(kmlbase::StringVector* subfiles) const {
   if (!subfiles) {
     return false;
   }
-  *subfiles = zipfile_toc_;
+  subfiles->insert(subfiles->end(), zipfile_toc_.begin(), zipfile_toc_.end());
   return true;
 }
 
-- 
2.43.0


From 81bfc51088fdab6f8d6fe1258b72efadd64d89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:08 +0000
Subject: [PATCH 74/82] fix: kmlDomTypeToString named the gx types wrongly and
 read past its table

---
 src/kml/dom/kml22.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/kml/dom/kml22.h b/src/kml/dom/kml22.h
index fa005e7..56e431d 100644
--- a/src/kml/dom/kml22.h
+++ b/src/kml/dom/kml22.h
@@ -482,19 +482,31 @@ typedef enum {
      "Type_GxAnimatedUpdate",
      "Type_GxFlyTo",
      "Type_GxLatLonQuad",
+     "Type_GxMultiTrack",
      "Type_GxPlaylist",
+     "Type_GxSimpleArrayData",
+     "Type_GxSimpleArrayField",
      "Type_GxSoundCue",
      "Type_GxTimeSpan",
      "Type_GxTimeStamp",
      "Type_GxTour",
      "Type_GxTourControl",
+     "Type_GxTrack",
      "Type_GxWait",
 
      "Type_GxAltitudeMode",
+     "Type_GxAngles",
      "Type_GxBalloonVisibility",
+     "Type_GxCoord",
      "Type_GxDuration",
      "Type_GxFlyToMode",
+     "Type_GxH",
+     "Type_GxInterpolate",
      "Type_GxPlayMode",
+     "Type_GxValue",
+     "Type_GxW",
+     "Type_GxX",
+     "Type_GxY",
 
      "Type_Invalid"
    };
-- 
2.43.0


From 0916cedf8b2487318222e2c2bfc6860dbad1f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:05 +0000
Subject: [PATCH 75/82] fix: a colour read through the bindings dangled once
 its element was released

---
 src/swig/libkml_kmlelements.i | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/swig/libkml_kmlelements.i b/src/swig/libkml_kmlelements.i
index 766bef7..450d558 100644
--- a/src/swig/libkml_kmlelements.i
+++ b/src/swig/libkml_kmlelements.i
@@ -55,7 +55,7 @@ class SubStyle : public Object {
 class ColorStyle : public SubStyle {
 public:
   // <color>
-  const kmlbase::Color32& get_color();
+  const kmlbase::Color32 get_color();
   void set_color(const kmlbase::Color32& color);
   bool has_color();
   void clear_color();
@@ -405,7 +405,7 @@ public:
 class Overlay : public Feature {
 public:
   // <color>
-  const kmlbase::Color32& get_color();
+  const kmlbase::Color32 get_color();
   void set_color(const kmlbase::Color32& color);
   bool has_color();
   void clear_color();
@@ -427,13 +427,13 @@ public:
 class BalloonStyle : public SubStyle {
 public:
   // <bgColor>
-  const kmlbase::Color32& get_bgcolor();
+  const kmlbase::Color32 get_bgcolor();
   void set_bgcolor(const kmlbase::Color32& bgcolor);
   bool has_bgcolor();
   void clear_bgcolor();
 
   // <textColor>
-  const kmlbase::Color32& get_textcolor();
+  const kmlbase::Color32 get_textcolor();
   void set_textcolor(const kmlbase::Color32& textcolor);
   bool has_textcolor();
   void clear_textcolor();
@@ -886,7 +886,7 @@ public:
   void clear_listitemtype();
 
   // <bgColor>
-  const kmlbase::Color32& get_bgcolor();
+  const kmlbase::Color32 get_bgcolor();
   void set_bgcolor(const kmlbase::Color32& bgcolor);
   bool has_bgcolor();
   void clear_bgcolor();
-- 
2.43.0


From 9843f68e1f86b9f8fbd375aa2aff204b76c157f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:25 +0000
Subject: [PATCH 76/82] fix: KmlFile, KmzFile and DateTime objects made through
 the bindings were never released

---
 src/swig/kmlbase.i   | 1 +
 src/swig/kmlengine.i | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/swig/kmlbase.i b/src/swig/kmlbase.i
index d1a27a7..3c25107 100644
--- a/src/swig/kmlbase.i
+++ b/src/swig/kmlbase.i
@@ -98,6 +98,7 @@ class Color32 {
   // TODO: other operator overrides.
 };
 
+%newobject DateTime::Create;
 %nodefaultctor DateTime;
 class DateTime {
  public:
diff --git a/src/swig/kmlengine.i b/src/swig/kmlengine.i
index 44be2a5..c702985 100644
--- a/src/swig/kmlengine.i
+++ b/src/swig/kmlengine.i
@@ -72,6 +72,11 @@ bool GetFeatureLatLon(const kmldom::FeaturePtr& feature,
 
 const kmldom::FeaturePtr GetRootFeature(const kmldom::ElementPtr& root);
 
+// These are reference counted: the caller gets a reference of its own.
+%feature("ref") KmlFile "if ($this) intrusive_ptr_add_ref($this);"
+%feature("unref") KmlFile "intrusive_ptr_release($this);"
+%newobject KmlFile::CreateFromParse;
+%newobject KmlFile::CreateFromImport;
 %nodefaultctor KmlFile;
 %apply std::string* OUTPUT { std::string* errors };
 %apply std::string* OUTPUT { std::string* xml_output };
@@ -86,6 +91,10 @@ class KmlFile {
   kmldom::StyleSelectorPtr GetSharedStyleById(const std::string& id) const;
 };
 
+%feature("ref") KmzFile "if ($this) intrusive_ptr_add_ref($this);"
+%feature("unref") KmzFile "intrusive_ptr_release($this);"
+%newobject KmzFile::OpenFromFile;
+%newobject KmzFile::CreateFromString;
 %nodefaultctor KmzFile;
 %apply std::string* OUTPUT { std::string* output };
 class KmzFile {
-- 
2.43.0


From 37ca6d8f36755fbbac917960ba67c13f228362a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:01 +0000
Subject: [PATCH 77/82] fix: an old-style Schema changes nothing but its own
 instances

An ordinary Schema which followed an old-style one had its id replaced and its
fields added to those of the other; an unknown element of a field's name
anywhere in the document was taken out of its place and given to the next
instance; a nested instance took the fields of the outer one.
---
 src/kml/dom/kml_handler.cc | 44 ++++++++++++++++++++++++++------------
 src/kml/dom/kml_handler.h  |  6 +++++-
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 478c4af..8c2ac12 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -149,7 +149,9 @@ void KmlHandler::StartElement(const string& name,
     static_cast<KmlDomType>(Xsd::GetSchema()->ElementId(name));
 
   // If we're parsing old Schema usage, we force the creation of a Placemark.
-  if (!old_schema_name_.empty() && name == old_schema_name_) {
+  const bool is_old_schema_placemark =
+      !old_schema_name_.empty() && name == old_schema_name_;
+  if (is_old_schema_placemark) {
     // Treat this as a Placemark.
     type_id = Type_Placemark;
   }
@@ -174,10 +176,11 @@ void KmlHandler::StartElement(const string& name,
     }
   } else if (xsd_type == XSD_SIMPLE_TYPE) {
     element = kml_factory_.CreateFieldById(type_id);
-  } else if (xsd_type == XSD_UNKNOWN && !old_schema_name_.empty()) {
+  } else if (xsd_type == XSD_UNKNOWN && !old_schema_placemarks_.empty() &&
+             stack_.top() == old_schema_placemarks_.back().first) {
     // We might be parsing one of the children of the old schema usage.
-    in_old_schema_placemark_ = ParseOldSchemaChild(name, simplefield_name_vec_,
-                                                   &simpledata_vec_);
+    in_old_schema_placemark_ = ParseOldSchemaChild(
+        name, simplefield_name_vec_, &old_schema_placemarks_.back().second);
     if (in_old_schema_placemark_) {
       return;
     }
@@ -200,6 +203,10 @@ void KmlHandler::StartElement(const string& name,
   }
   // This is a known element.  Push onto parse stack and gather content.
   stack_.push(element);
+  if (is_old_schema_placemark) {
+    old_schema_placemarks_.push_back(
+        std::make_pair(element, std::vector<SimpleDataPtr>()));
+  }
 
   // We need to permit parsing of un-CDATA'd markup inside <description>
   // elements. We bump the skip counter here as if we'd encountered an unknown
@@ -264,11 +271,11 @@ void KmlHandler::EndElement(const string& name) {
 
   // If we're parsing an old Schema placemark child, store the character data
   // gathered into the SimpleData element we put on a stack in StartElement.
-  if (in_old_schema_placemark_ && simpledata_vec_.size() > 0) {
+  if (in_old_schema_placemark_) {
     // TODO: the pretty serialization of SimpleData will produce some
     // ugly (but harmless) whitespace and unnecessary line breaks. Fix this in
     // the serializer.
-    simpledata_vec_.back()->set_text(char_data_.top());
+    old_schema_placemarks_.back().second.back()->set_text(char_data_.top());
     char_data_.pop();
     in_old_schema_placemark_ = false;
     return;
@@ -295,15 +302,23 @@ void KmlHandler::EndElement(const string& name) {
   // "_id" to its name) and walk through its <SimpleField> children to
   // discover what element name we should special-case in StartElement.
 
-  // Handle the case of reaching the closing of an old-style </Schema>.
+  // Handle the case of reaching the closing of an old-style </Schema>, or that
+  // of its Placemark substitute.
   if (!old_schema_name_.empty()) {
-    if (name.length() == 6 && name == "Schema") {
-      HandleOldSchemaEndElement(AsSchema(child), old_schema_name_,
-                                &simplefield_name_vec_);
-    } else if (name == old_schema_name_) {
-      // Or that of its Placemark substitute.
-      HandleOldSchemaParentEndElement(AsPlacemark(child), old_schema_name_,
-                                      kml_factory_, simpledata_vec_);
+    if (!old_schema_placemarks_.empty() &&
+        child == old_schema_placemarks_.back().first) {
+      HandleOldSchemaParentEndElement(AsPlacemark(child), name, kml_factory_,
+                                      old_schema_placemarks_.back().second);
+      old_schema_placemarks_.pop_back();
+    } else if (name.length() == 6 && name == "Schema") {
+      // Any other <Schema> is left as it is.
+      const SchemaPtr schema = AsSchema(child);
+      if (schema && schema->get_name() == old_schema_name_ &&
+          schema->GetUnknownAttributes() &&
+          schema->GetUnknownAttributes()->FindValue("parent", NULL)) {
+        HandleOldSchemaEndElement(schema, old_schema_name_,
+                                  &simplefield_name_vec_);
+      }
     }
   }
 
@@ -448,6 +463,7 @@ void KmlHandler::HandleOldSchemaEndElement(
     return;
   }
   schema->set_id(old_schema_name + "_id");
+  simplefield_name_vec->clear();
   // TODO: nuke the parent="Placemark" attr.
   for (size_t i = 0; i < schema->get_simplefield_array_size(); i++) {
     if (const SimpleFieldPtr& simplefield =
diff --git a/src/kml/dom/kml_handler.h b/src/kml/dom/kml_handler.h
index 95fde30..391f02b 100644
--- a/src/kml/dom/kml_handler.h
+++ b/src/kml/dom/kml_handler.h
@@ -75,6 +75,8 @@
 #define KML_DOM_KML_HANDLER_H__
 
 #include <stack>
+#include <utility>
+#include <vector>
 #include "kml/base/expat_handler.h"
 #include "kml/dom/element.h"
 #include "kml/dom/kml_ptr.h"
@@ -121,7 +123,9 @@ private:
   bool in_old_schema_placemark_;
   string old_schema_name_;
   kmlbase::StringVector simplefield_name_vec_;
-  std::vector<SimpleDataPtr> simpledata_vec_;
+  // The old-style placemarks now open, each with its SimpleData so far.
+  std::vector<std::pair<ElementPtr, std::vector<SimpleDataPtr> > >
+      old_schema_placemarks_;
 
   // This calls the NewElement() method of each ParserObserver.  If any
   // ParserObserver::NewElement() returns false this immediately returns false.
-- 
2.43.0


From 877cff4923db549961e76c9126ab6691cbbb88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:11 +0000
Subject: [PATCH 78/82] fix: an instance of an old-style Schema keeps its own
 ExtendedData

---
 src/kml/dom/kml_handler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 8c2ac12..23dcb37 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -488,7 +488,11 @@ void KmlHandler::HandleOldSchemaParentEndElement(
   if (!placemark) {
     return;
   }
-  ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
+  ExtendedDataPtr extendeddata = AsExtendedData(placemark->get_extendeddata());
+  if (!extendeddata) {
+    extendeddata = kml_factory.CreateExtendedData();
+    placemark->set_extendeddata(extendeddata);
+  }
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
   std::vector<SimpleDataPtr>::const_iterator itr =
@@ -497,7 +501,6 @@ void KmlHandler::HandleOldSchemaParentEndElement(
     schemadata->add_simpledata(*itr);
   }
   extendeddata->add_schemadata(schemadata);
-  placemark->set_extendeddata(extendeddata);
 }
 
 }  // end namespace kmldom
-- 
2.43.0


From 7d2c2a041c43a8a5ab7599b394ffb3f5a37f8663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:49 +0000
Subject: [PATCH 79/82] fix: an element cannot be attached below itself

Attaching an element to itself or to one of its descendants formed a cycle,
which was never released and which no walk or serialization of it survived.
---
 src/kml/base/xml_element.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/xml_element.h b/src/kml/base/xml_element.h
index 86f4422..12cf741 100644
--- a/src/kml/base/xml_element.h
+++ b/src/kml/base/xml_element.h
@@ -97,8 +97,13 @@ class XmlElement : public Referent {
 
   // Only a derived class can set its parent.  This returns false if this
   // XmlElement already has a parent or if this XmlElement is in a different
-  // XmlFile.
+  // XmlFile, or if the parent is this XmlElement or one of its descendants.
   bool SetParent(const XmlElementPtr& parent) {
+    for (const XmlElement* e = parent.get(); e; e = e->GetParent()) {
+      if (e == this) {
+        return false;
+      }
+    }
     if (!parent_ && parent && InSameXmlFile(parent)) {
       if (!parent->anchor_) {
         parent->anchor_ = new Anchor(parent.get());
-- 
2.43.0


From 69636d0e6a12765bc4a6abc17c04918a74d7262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:50 +0000
Subject: [PATCH 80/82] fix: an element taken out of its parent has none

An element which was removed, cleared or replaced, or whose parent was gone,
still had the former one and could not be attached again.
---
 src/kml/base/xml_element.h | 7 ++++++-
 src/kml/dom/container.cc   | 9 +++------
 src/kml/dom/element.h      | 8 +++++++-
 src/kml/dom/geometry.h     | 2 +-
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/kml/base/xml_element.h b/src/kml/base/xml_element.h
index 12cf741..963b870 100644
--- a/src/kml/base/xml_element.h
+++ b/src/kml/base/xml_element.h
@@ -104,7 +104,7 @@ class XmlElement : public Referent {
         return false;
       }
     }
-    if (!parent_ && parent && InSameXmlFile(parent)) {
+    if (!GetParent() && parent && InSameXmlFile(parent)) {
       if (!parent->anchor_) {
         parent->anchor_ = new Anchor(parent.get());
       }
@@ -114,6 +114,11 @@ class XmlElement : public Referent {
     return false;
   }
 
+  // A derived class calls this for a child which it no longer holds.
+  void ClearParent() {
+    parent_ = NULL;
+  }
+
  private:
   // A child can't ref count its parent due to circularity.  It shares this
   // with the parent instead, which says whether the parent still exists.
diff --git a/src/kml/dom/container.cc b/src/kml/dom/container.cc
index 051ed0f..f70f5f2 100644
--- a/src/kml/dom/container.cc
+++ b/src/kml/dom/container.cc
@@ -64,14 +64,11 @@ void Container::Serialize(Serializer& serializer) const {
 }
 
 FeaturePtr Container::DeleteFeatureById(const string& id) {
-  // TODO: push all this to Element to properly/centrally remove parent.
-  std::vector<FeaturePtr>::iterator iter = feature_array_.begin();
-  for (; iter != feature_array_.end(); ++iter) {
-    FeaturePtr feature = *iter;
+  for (size_t i = 0; i < feature_array_.size(); ++i) {
+    const FeaturePtr& feature = feature_array_[i];
     if (feature->has_id() && id == feature->get_id()) {
   // TODO: if Container is in a KmlFile remove Feature from object map
-      feature_array_.erase(iter);
-      return feature;
+      return Element::DeleteFromArrayAt(&feature_array_, i);
     }
   }
   return NULL;
diff --git a/src/kml/dom/element.h b/src/kml/dom/element.h
index 684b2c6..4d3204e 100644
--- a/src/kml/dom/element.h
+++ b/src/kml/dom/element.h
@@ -187,9 +187,15 @@ class Element : public kmlbase::XmlElement {
   bool SetComplexChild(const T& child, T* field) {
     if (child == NULL) {
       // TODO: remove child and children from ID maps...
+      if (*field) {
+        (*field)->ClearParent();
+      }
       *field = NULL;  // Assign removes reference and possibly deletes Element.
       return true;
     } else if (child->SetParent(this)) {
+      if (*field) {
+        (*field)->ClearParent();
+      }
       *field = child;  // This first releases the reference to previous field.
       return true;
     }
@@ -226,7 +232,7 @@ class Element : public kmlbase::XmlElement {
     array->erase(array->begin() + i);
     // TODO: notify e's XmlFile about the delete (kmlengine::KmlFile, for
     // example would want to remove e from its internal maps).
-    // TODO: disparent e
+    e->ClearParent();
     return e;
   }
 
diff --git a/src/kml/dom/geometry.h b/src/kml/dom/geometry.h
index 8dbe193..13db88d 100644
--- a/src/kml/dom/geometry.h
+++ b/src/kml/dom/geometry.h
@@ -1032,7 +1032,7 @@ class Model : public AltitudeGeometryCommon {
     SetComplexChild(resourcemap, &resourcemap_);
   }
   void clear_resourcemap() {
-    resourcemap_ = NULL;
+    set_resourcemap(NULL);
   }
 
   // Visitor API methods, see visitor.h.
-- 
2.43.0


From 3ef0c1c2a2fdd2f657a593b2f36ced8f3e20fc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:23 +0000
Subject: [PATCH 81/82] fix: a point on a radial has a longitude of -180 to 180

---
 src/kml/base/math_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/math_util.cc b/src/kml/base/math_util.cc
index 5cbc6d9..a9d1609 100644
--- a/src/kml/base/math_util.cc
+++ b/src/kml/base/math_util.cc
@@ -86,7 +86,9 @@ Vec3 LatLngOnRadialFromPoint(double lat, double lng,
                     cos(lat_r) * sin(distance_r) * cos(radial_r));
   const double delta_lng = atan2(sin(radial_r) * sin(distance_r) * cos(lat_r),
                            cos(distance_r) - sin(lat_r) * sin(radial_lat));
-  const double radial_lng = fmod(lng_r + delta_lng + M_PI, 2 * M_PI) - M_PI;
+  // fmod() keeps the sign of its first argument: 3*pi keeps that positive.
+  const double radial_lng =
+      fmod(lng_r + delta_lng + 3 * M_PI, 2 * M_PI) - M_PI;
   return Vec3(RadToDeg(radial_lng), RadToDeg(radial_lat));
 }
 
-- 
2.43.0


From c7d25f1ceb27c12dfb9b23feb956006216d274e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:01 +0000
Subject: [PATCH 82/82] fix: an imported file lists its link parents

---
 src/kml/engine/kml_file.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index d09141b..76c9ee9 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -27,6 +27,7 @@
 
 #include "kml/engine/kml_file.h"
 #include "kml/base/xml_namespaces.h"
+#include "kml/engine/find.h"
 #include "kml/engine/find_xml_namespaces.h"
 #include "kml/engine/id_mapper.h"
 #include "kml/engine/kmz_file.h"
@@ -155,6 +156,14 @@ KmlFile* KmlFile::CreateFromImportInternal(const kmldom::ElementPtr& element,
       }
     }
   }
+  // Save the parents of all links as the parse of a file does.
+  ElementVector elements(1, element);
+  GetChildElements(element, true, &elements);
+  for (size_t i = 0; i < elements.size(); ++i) {
+    if (IsLinkParent(elements[i]) || IsIconParent(elements[i])) {
+      kml_file->link_parent_vector_.push_back(elements[i]);
+    }
+  }
   // TODO check/set all elements under elements to be in this file.
   kml_file->set_root(element);
   return kml_file;
-- 
2.43.0

