From 79461ccea2df171e09a14f93ac30a3b22c2295d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:37 +0000
Subject: [PATCH 01/86] fix: parse <coordinates> separated by any white space

Tuples separated only by newlines (as SerializeRaw writes them) or tabs were
mis-parsed, a tuple component longer than 1023 characters overflowed a stack
buffer, a leading '.' was dropped from a number, and text without any number
(e.g. a single blank) made Coordinates::Parse loop forever.
---
 src/kml/dom/geometry.cc | 119 ++++++++++++++++------------------------
 1 file changed, 48 insertions(+), 71 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..6a6b4d6 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -52,6 +52,29 @@ Coordinates::Coordinates() {
 
 Coordinates::~Coordinates() {}
 
+static bool IsXmlSpace(char c) {
+  return c == ' ' || c == '\t' || c == '\n' || c == '\r';
+}
+
+// Returns a pointer to the first char at or after cstr which can begin a
+// number, or to the terminating null if there is none.
+static const char* NextNumber(const char* cstr) {
+  while (*cstr && *cstr != '-' && !isdigit(static_cast<unsigned char>(*cstr)) &&
+         !(*cstr == '.' && isdigit(static_cast<unsigned char>(cstr[1])))) {
+    ++cstr;
+  }
+  return cstr;
+}
+
+// Gathers the chars of the number starting at cstr and returns a pointer to
+// the comma or white space (or terminating null) which ends it.
+static const char* GetNumber(const char* cstr, string* number) {
+  const char* first = cstr;
+  while (*cstr && *cstr != ',' && !IsXmlSpace(*cstr)) { ++cstr; }
+  number->assign(first, cstr - first);
+  return cstr;
+}
+
 // This parses off a Vec3 from the given string and returns a pointer
 // to the end of chars consumed.  The purpose is for use in the inner loop
 // of the overall parse of a <coordinates> string.  This handles both 2d and
@@ -81,83 +104,37 @@ Coordinates::~Coordinates() {}
 // like this: "1.1*2.2,3,3" will become "1.1,3.3,0.0". This precisely matches
 // the precent for parsing of bad coordinate strings set by Google Earth.
 bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
-  
   if (!cstr || !vec) {  // Not much to do w/o input or output.
     return false;
   }
-  bool done = false;
-  
-  int k;
-  char lon[1024];
-  k = 0;
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
-  const char *first = cstr;
-  
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
-  
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
-  
-  double longitude; 
-  kmlbase::StringToDouble(lon_s, &longitude);
-  vec->set(0, longitude);
-  
-  
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  char lat[1024];
-  first = cstr;
-  k = 0;
-  int b = 0;
-  while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
-      b = 1;  
-      break;
-    }
-    ++cstr;  ++k;
-  }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
-  done = true;
-  
-  string lat_s = string(lat);
-  double latitude = 0.0;
-  if( !lat_s.empty())
-    kmlbase::StringToDouble(lat_s, &latitude);
-  
-  vec->set(1, latitude);
-  
-  
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
-  
-  if ( b < 1) {
-    char alt[1024];
-    first = cstr;
-    k = 0;
-    while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
-	b = 1;  
-	break;
+  double value;
+  string number;
+  cstr = NextNumber(cstr);
+  bool done = *cstr != '\0';
+  if (done) {
+    // Longitude.
+    cstr = GetNumber(cstr, &number);
+    value = 0.0;
+    kmlbase::StringToDouble(number, &value);
+    vec->set(0, value);
+    // Latitude: whatever separates it from the longitude is discarded.
+    cstr = GetNumber(NextNumber(cstr), &number);
+    value = 0.0;
+    kmlbase::StringToDouble(number, &value);
+    vec->set(1, value);
+    // Altitude: only if a comma follows the latitude.
+    while (IsXmlSpace(*cstr)) { ++cstr; }
+    if (*cstr == ',') {
+      cstr = GetNumber(NextNumber(cstr), &number);
+      value = 0.0;
+      if (kmlbase::StringToDouble(number, &value)) {
+        vec->set(2, value);
       }
-      ++cstr;  ++k;
-    }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
-    
-    string alt_s = string(alt);
-    double altitude;
-    if( !alt_s.empty() ) {
-      kmlbase::StringToDouble(alt_s, &altitude);
-      vec->set(2, altitude);
     }
   }
-  
-  while(*cstr && *cstr!='-' && !isdigit(*cstr)) ++cstr;
-  
-  *nextp = const_cast<char*>(cstr);
-  
+  if (nextp) {
+    *nextp = const_cast<char*>(NextNumber(cstr));
+  }
   return done;
 }
 
-- 
2.43.0


From 13ed6150729bedb2767838556c690169a63049b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 02/86] fix: escape attribute values when serializing

An attribute value holding &, <, a double quote or a line break came out as
malformed XML or as a different value.
---
 src/kml/base/attributes.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..6a79d1a 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -71,6 +71,23 @@ bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   return true;
 }
 
+// Appends the attribute value such that an XML parser reads back exactly this
+// value, including any white space other than a blank.
+static void AppendEscaped(const string& value, string* output) {
+  for (size_t i = 0; i < value.size(); ++i) {
+    switch (value[i]) {
+      case '&': *output += "&amp;"; break;
+      case '<': *output += "&lt;"; break;
+      case '>': *output += "&gt;"; break;
+      case '"': *output += "&quot;"; break;
+      case '\t': *output += "&#9;"; break;
+      case '\n': *output += "&#10;"; break;
+      case '\r': *output += "&#13;"; break;
+      default: *output += value[i];
+    }
+  }
+}
+
 void Attributes::Serialize(string* output) const {
   if (output) {
     StringMapIterator iter = CreateIterator();
@@ -78,7 +95,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      AppendEscaped(iter.Data().second, output);
       *output += "\"";
     }
   }
-- 
2.43.0


From dc9404ccf70c901f7d4eca02a8d4feabe4cad9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 03/86] fix: serialize every text value as well-formed XML

Text with "]]>" ended its CDATA section early, carriage returns were lost, and
in text with a literal CDATA marker only the first & was escaped.
---
 src/kml/dom/serializer.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..ca414bb 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -37,13 +37,19 @@ using kmlbase::ToString;
 namespace kmldom {
 
 static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
+  string escaped;
+  for (size_t i = 0; i < xml.size(); ++i) {
+    switch (xml[i]) {
+      case '&': escaped += "&amp;"; break;
+      case '<': escaped += "&lt;"; break;
+      case '>': escaped += "&gt;"; break;
+      case '\'': escaped += "&apos;"; break;
+      case '"': escaped += "&quot;"; break;
+      case '\r': escaped += "&#13;"; break;
+      default: escaped += xml[i];
+    }
+  }
+  return escaped;
 }
 
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
@@ -56,8 +62,11 @@ Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
 const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
-  // entity-replace any reserved characters.
-  if (value.find("<![CDATA[") != string::npos) {
+  // entity-replace any reserved characters. The same goes for what a CDATA
+  // section can not hold: its own end marker and carriage returns.
+  if (value.find("<![CDATA[") != string::npos ||
+      value.find("]]>") != string::npos ||
+      value.find('\r') != string::npos) {
     return EnityEscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
-- 
2.43.0


From 97c5b701721e8af9f624961d02a3b49ef35b3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:06 +0000
Subject: [PATCH 04/86] fix: do not add white space to pretty-printed text
 content

Pretty-printing <SimpleData>, <Snippet> or <linkSnippet> put a line break and
indentation inside the element, so that its text grew on every round trip.
---
 src/kml/dom/xml_serializer.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/kml/dom/xml_serializer.h b/src/kml/dom/xml_serializer.h
index 3b03443..d5b0e1a 100644
--- a/src/kml/dom/xml_serializer.h
+++ b/src/kml/dom/xml_serializer.h
@@ -89,7 +89,8 @@ class XmlSerializer : public Serializer {
     : newline_(newline),
       indent_(indent),
       output_(output),
-      start_pending_(false) {
+      start_pending_(false),
+      text_saved_(false) {
   }
 
   virtual ~XmlSerializer() {}
@@ -100,6 +101,7 @@ class XmlSerializer : public Serializer {
     // it has any.  The "<TAGNAME [name="VAL" ...]..." are not emmited until
     // it is known if this is a nil element or not.
     EmitStart(false);
+    text_saved_ = false;
     Indent();
     tag_stack_.push(type_id);  // So we know what tag to use in End().
     if (attributes.GetSize() > 0) {
@@ -117,13 +119,16 @@ class XmlSerializer : public Serializer {
       tag_stack_.pop();
     } else {
       tag_stack_.pop();
-      Indent();
+      if (!text_saved_) {
+        Indent();
+      }
       output_->write("</", 2);
       const string& tag_name = xsd_.ElementName(type_id);
       output_->write(tag_name.data(), tag_name.size());
       output_->put('>');
       Newline();
     }
+    text_saved_ = false;
   }
 
   // Emit the XML for the field of the given type with the given content
@@ -146,9 +151,10 @@ class XmlSerializer : public Serializer {
     Newline();
   }
 
-  // Save out character data.
+  // Save out character data.  No white space is added around text content.
   virtual void SaveContent(const string& content, bool maybe_quote) {
-    EmitStart(false);
+    text_saved_ = maybe_quote && !content.empty();
+    EmitStart(false, !text_saved_);
     if (maybe_quote) {
       WriteQuoted(content);
     } else {
@@ -211,7 +217,7 @@ class XmlSerializer : public Serializer {
     output_->write(quoted.data(), quoted.size());
   }
 
-  bool EmitStart(bool is_nil) {
+  bool EmitStart(bool is_nil, bool newline = true) {
     if (!start_pending_) {
       return false;
     }
@@ -228,7 +234,9 @@ class XmlSerializer : public Serializer {
     } else {
       output_->put('>');
     }
-    Newline();
+    if (newline) {
+      Newline();
+    }
     start_pending_ = false;
     return true;
   }
@@ -238,6 +246,7 @@ class XmlSerializer : public Serializer {
   T* output_;
   std::stack<int> tag_stack_;
   bool start_pending_;
+  bool text_saved_;
   string serialized_attributes_;
 };
 
-- 
2.43.0


From 11ec20f4fbdb649cae77eb33a4a1caa96da77d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 05/86] fix: keep the text and attributes of unknown elements
 well-formed

Character data and attribute values of an unknown element are saved as XML but
were saved unescaped, which made the serialized document malformed.
---
 src/kml/dom/kml_handler.cc | 40 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..81581b0 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -55,6 +55,32 @@ kMaxNestingDepth = LIBKML_MAX_NESTING_DEPTH;
 
 namespace kmldom {
 
+// Appends the given text such that an XML parser reads back exactly this text.
+// White space needs protection only within an attribute value.
+static void AppendEscapedXml(const string& text, bool is_attribute,
+                             string* xml) {
+  for (size_t i = 0; i < text.size(); ++i) {
+    const char c = text[i];
+    if (c == '&') {
+      xml->append("&amp;");
+    } else if (c == '<') {
+      xml->append("&lt;");
+    } else if (c == '>') {
+      xml->append("&gt;");
+    } else if (c == '"') {
+      xml->append("&quot;");
+    } else if (c == '\r') {
+      xml->append("&#13;");
+    } else if (is_attribute && c == '\n') {
+      xml->append("&#10;");
+    } else if (is_attribute && c == '\t') {
+      xml->append("&#9;");
+    } else {
+      xml->append(1, c);
+    }
+  }
+}
+
 KmlHandler::KmlHandler(parser_observer_vector_t& observers)
   : kml_factory_(*KmlFactory::GetFactory()),
     skip_depth_(0),
@@ -327,8 +353,14 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point>foo<coordinates/>bar</Point></Placemark> becomes:
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
+// The char data within an unknown element is saved as XML, hence escaped.  That
+// within <description> is that element's own text.
 void KmlHandler::CharData(const string& s) {
-  char_data_.top().append(s);
+  if (skip_depth_ > 0 && in_description_ == 0) {
+    AppendEscapedXml(s, false, &char_data_.top());
+  } else {
+    char_data_.top().append(s);
+  }
 }
 
 // As with STL pop() methods this is (potentially) destructive.  If the
@@ -355,7 +387,11 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    if (in_description_ == 0) {
+      AppendEscapedXml(atts.at(i+1), true, &top);
+    } else {
+      top.append(atts.at(i+1));
+    }
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From cc06545b93fe1c399617559e93fcf1ee4179f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:35 +0000
Subject: [PATCH 06/86] fix: a description within an unknown element does not
 disturb the parse

The end tag of such a description decremented a counter its start tag never
incremented, so that the next real <description> was lost.
---
 src/kml/dom/kml_handler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 81581b0..265fc39 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -236,7 +236,8 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  if (in_description_ > 0 && name.length() == 11 && name == "description" &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
-- 
2.43.0


From 388d8c9b16e4a96cfff9b4c607f5271d8b3314ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:35 +0000
Subject: [PATCH 07/86] fix: serialize xal:LocalityName

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From 0e093ed9779b6fa4d375659e8d360c6a886c71aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:20 +0000
Subject: [PATCH 08/86] fix: parse gx:coord and gx:angles separated by any
 white space

A value separated by more than one blank, by a tab or by a line break was
mis-parsed.
---
 src/kml/dom/geometry.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 6a6b4d6..2026fb4 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -532,16 +532,18 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   if (!out) {
     return;
   }
-  // TODO: this is a little heavy. Optimization along the lines of
-  // Coordinates::Parse may be required.
-  std::vector<string> s;
-  kmlbase::SplitStringUsing(char_data, " ", &s);
   kmlbase::Vec3 vec;
-  for (size_t i = 0; i < s.size(); i++) {
-    double d;
-    kmlbase::FromString(s[i], &d);
-    vec.set(static_cast<int>(i), d);
-    if (i > 2) break;
+  const char* cstr = char_data.c_str();
+  for (int i = 0; i < 3; ++i) {
+    while (IsXmlSpace(*cstr)) { ++cstr; }
+    const char* first = cstr;
+    while (*cstr && !IsXmlSpace(*cstr)) { ++cstr; }
+    if (cstr == first) {
+      break;
+    }
+    double d = 0.0;
+    kmlbase::FromString(string(first, cstr - first), &d);
+    vec.set(i, d);
   }
   out->push_back(vec);
 }
-- 
2.43.0


From 9c56b9e426c0528a7a5865b05269d9c64fda9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:48 +0000
Subject: [PATCH 09/86] fix: keep an href that starts with a literal CDATA
 marker

The XML parser already removes CDATA markers; removing nine leading and three
trailing characters once more lost part of the value.
---
 src/kml/dom/link.cc | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/src/kml/dom/link.cc b/src/kml/dom/link.cc
index 0aea457..233d9ec 100644
--- a/src/kml/dom/link.cc
+++ b/src/kml/dom/link.cc
@@ -24,7 +24,6 @@
 // ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 //
 
-#include <cstring>
 #include "kml/dom/link.h"
 #include "kml/base/attributes.h"
 #include "kml/dom/serializer.h"
@@ -40,33 +39,13 @@ BasicLink::BasicLink()
 BasicLink::~BasicLink() {
 }
 
-// TODO: fix CDATA parsing in general.
-static const char *kCdataOpen = "<![CDATA[";
-
-static bool SetStringInsideCdata(ElementPtr element,
-                                 const string& char_data,
-                                 string* val) {
-  if (!element) {
-    return false;
-  }
-  string::size_type offset = strlen(kCdataOpen);
-  if (char_data.compare(0, offset, kCdataOpen, offset) == 0) {
-    *val = char_data.substr(offset, char_data.size() - offset - 3);
-    return true;
-  }
-  return element->SetString(val);
-}
-
 void BasicLink::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
   switch (element->Type()) {
     case Type_href:
-      // TODO: use a generalized approach
-      // has_href_ = element->SetString(&href_);
-      has_href_ = SetStringInsideCdata(element, element->get_char_data(),
-                                       &href_);
+      has_href_ = element->SetString(&href_);
       break;
     default:
       Object::AddElement(element);
-- 
2.43.0


From ad96d4cef082de904237eb53bc65bde07b8030d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:02 +0000
Subject: [PATCH 10/86] fix: report an empty document as a parse error

---
 src/kml/base/expat_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..a8bc9b3 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,7 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, XML_TRUE);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
-- 
2.43.0


From b49809d92858afb7f51bcdea8ef83e8bedaa6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:38 +0000
Subject: [PATCH 11/86] fix: let a namespace-translating parse be stopped by
 its handler

---
 src/kml/base/expat_handler_ns.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/expat_handler_ns.cc b/src/kml/base/expat_handler_ns.cc
index 3ad0b93..26fbc80 100644
--- a/src/kml/base/expat_handler_ns.cc
+++ b/src/kml/base/expat_handler_ns.cc
@@ -59,6 +59,8 @@ const string ExpatHandlerNs::TranslatePrefixedName(
 
 void ExpatHandlerNs::StartElement(const string& prefixed_name,
                                   const kmlbase::StringVector& atts) {
+  // The wrapped handler needs the parser to be able to stop the parse.
+  expat_handler_->set_parser(get_parser());
   expat_handler_->StartElement(TranslatePrefixedName(prefixed_name), atts);
 }
 
-- 
2.43.0


From 6bb3a28ad3305a3eb202e3e49bb1c789d485e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:45 +0000
Subject: [PATCH 12/86] fix: an empty element beyond the nesting limit does not
 end its parent

---
 src/kml/dom/kml_handler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 265fc39..8bce81d 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -231,7 +231,10 @@ bool KmlHandler::CallNewElementObservers(
 }
 
 void KmlHandler::EndElement(const string& name) {
-  --nesting_depth_;
+  // StartElement stopped the parse without opening this (empty) element.
+  if (nesting_depth_-- > kMaxNestingDepth) {
+    return;
+  }
   // See the comment towards the end of StartElement about handling "raw" HTML
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
-- 
2.43.0


From 80b942cc12368d56af223b9bfe8ada479ec62af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:06 +0000
Subject: [PATCH 13/86] fix: report an error when an incremental parse is
 stopped

---
 src/kml/base/expat_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index a8bc9b3..47c8020 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -162,7 +162,9 @@ void ExpatParser::ReportError(XML_Parser parser, string* errors) {
     return;
   }
   std::stringstream strstream;
-  strstream << XML_ErrorString(XML_GetErrorCode(parser));
+  // There is no error code if the handler stopped the parse.
+  const XML_LChar* message = XML_ErrorString(XML_GetErrorCode(parser));
+  strstream << (message ? message : "parsing stopped");
   strstream << " on line ";
   strstream << XML_GetCurrentLineNumber(parser);
   strstream << " at offset ";
-- 
2.43.0


From d64716ef60a8e150b9e4223d492257a594656ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:10 +0000
Subject: [PATCH 14/86] fix: report a stream read failure instead of a partial
 document

---
 src/kml/engine/kml_stream.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/kml_stream.cc b/src/kml/engine/kml_stream.cc
index b6bd25e..1f106f1 100644
--- a/src/kml/engine/kml_stream.cc
+++ b/src/kml/engine/kml_stream.cc
@@ -69,9 +69,18 @@ KmlStream* KmlStream::ParseFromIstream(
     }
   }
 
+  // The stream failed before its end, or there was nothing to read.
+  ElementPtr root = kml_handler.PopRoot();
+  if (!input->eof() || !root) {
+    if (errors) {
+      *errors = "read error";
+    }
+    return NULL;
+  }
+
   // Parse succeeded.  Construct KmlStream.
   KmlStream* kml_stream = new KmlStream;
-  kml_stream->set_root(kml_handler.PopRoot());
+  kml_stream->set_root(root);
   return kml_stream;
 }
 
-- 
2.43.0


From 5895f29594e34e3c9eeda50b82ac762934ad66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:07 +0000
Subject: [PATCH 15/86] fix: markup in an old-style Schema's fields does not
 disturb the parse

---
 src/kml/dom/kml_handler.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 8bce81d..bc27775 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -117,10 +117,10 @@ void KmlHandler::StartElement(const string& name,
     in_description_++;
   }
 
-  if (skip_depth_ > 0) {
-    // We're already inside an unknown element. Stringify the next element and
-    // its attributes, increment the skip counter again, and return
-    // immediately.
+  if (skip_depth_ > 0 || in_old_schema_placemark_) {
+    // We're already inside an unknown element, or inside the child of an old
+    // Schema placemark. Stringify the next element and its attributes,
+    // increment the skip counter again, and return immediately.
     InsertUnknownStartElement(name, attrs);
     skip_depth_++;
     return;
@@ -248,7 +248,7 @@ void KmlHandler::EndElement(const string& name) {
     // We're inside an unknown element. Build the closing tag, decrement
     // the skip counter and then check if we're back to known KML.
     InsertUnknownEndElement(name);
-    if (--skip_depth_ == 0) {
+    if (--skip_depth_ == 0 && !in_old_schema_placemark_) {
       // The next element will be known KML. Push the gathered char_data_ up
       // to Element as a string for serializiation later on.
       char_data_.top().append("\n");
@@ -358,9 +358,10 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
 // The char data within an unknown element is saved as XML, hence escaped.  That
-// within <description> is that element's own text.
+// within <description> or the child of an old Schema placemark is that
+// element's own text.
 void KmlHandler::CharData(const string& s) {
-  if (skip_depth_ > 0 && in_description_ == 0) {
+  if (skip_depth_ > 0 && in_description_ == 0 && !in_old_schema_placemark_) {
     AppendEscapedXml(s, false, &char_data_.top());
   } else {
     char_data_.top().append(s);
@@ -391,7 +392,7 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    if (in_description_ == 0) {
+    if (in_description_ == 0 && !in_old_schema_placemark_) {
       AppendEscapedXml(atts.at(i+1), true, &top);
     } else {
       top.append(atts.at(i+1));
@@ -449,7 +450,7 @@ void KmlHandler::HandleOldSchemaEndElement(
     const SchemaPtr& schema,
     const string& old_schema_name,
     StringVector* simplefield_name_vec) {
-  if (!simplefield_name_vec) {
+  if (!schema || !simplefield_name_vec) {
     return;
   }
   schema->set_id(old_schema_name + "_id");
@@ -474,6 +475,9 @@ void KmlHandler::HandleOldSchemaParentEndElement(
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
   // parent placemark.
+  if (!placemark) {  // An element opened before its name was declared.
+    return;
+  }
   ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
-- 
2.43.0


From cd1282b0b9215b5a05a96f3a4f5c3615987a7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:14 +0000
Subject: [PATCH 16/86] fix: a tour primitive belongs to the playlist it is
 added to

---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From c1371eb5fad297613a69784e3aa8c8b13ad9002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:25 +0000
Subject: [PATCH 17/86] fix: clone a field, and text elements that hold other
 elements

---
 src/kml/engine/clone.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/kml/engine/clone.cc b/src/kml/engine/clone.cc
index 91069e9..d408341 100644
--- a/src/kml/engine/clone.cc
+++ b/src/kml/engine/clone.cc
@@ -63,6 +63,7 @@ class ElementReplicator : public kmldom::Serializer {
     ElementPtr clone = KmlFactory::GetFactory()->CreateElementById(id);
     clone->ParseAttributes(attributes.Clone());
     clone_stack_.push(clone);
+    char_data_.push(string());
   }
 
   // Serializer::End() is called at the end of a complex element.
@@ -73,9 +74,10 @@ class ElementReplicator : public kmldom::Serializer {
     // those complex elements which have character data.
     // TODO: refactor the special-casing in KmlHandler::EndElement() such that
     // it can be used from here.  Using child->AddElement(child) is dangerous.
-    if (!char_data_.empty()) {
-      child->set_char_data(char_data_);
-      char_data_.clear();
+    const string char_data = char_data_.top();
+    char_data_.pop();
+    if (!char_data.empty()) {
+      child->set_char_data(char_data);
       // NOTE: This very much expects this to mean "parse yourself".  If
       // this falls through to Element::AddChild() this will make the element
       // a child of itself by putting itself in the misplaced elements array.
@@ -97,7 +99,11 @@ class ElementReplicator : public kmldom::Serializer {
     KmlDomType id = static_cast<KmlDomType>(type_id);
     ElementPtr clone = KmlFactory::GetFactory()->CreateFieldById(id);
     clone->set_char_data(value);
-    clone_stack_.top()->AddElement(clone);
+    if (clone_stack_.empty()) {
+      clone_stack_.push(clone);  // The field itself is being cloned.
+    } else {
+      clone_stack_.top()->AddElement(clone);
+    }
   }
 
   // Detects if we're serializing the unknown elements array.  We don't use
@@ -127,7 +133,7 @@ class ElementReplicator : public kmldom::Serializer {
         clone_stack_.top()->AddUnknownElement(content);
       }
     } else {
-      char_data_.append(content);
+      char_data_.top().append(content);
     }
   }
 
@@ -154,7 +160,8 @@ class ElementReplicator : public kmldom::Serializer {
  private:
   // This stack operates akin to the stack in the parser.
   std::stack<ElementPtr> clone_stack_;
-  string char_data_;
+  // The character data of each complex element on the clone stack.
+  std::stack<string> char_data_;
   // This flag indicates that we're serializing an array of unknown elements.
   // See BeginElementArray(), EndElementArray(), and SaveContent() above.
   bool serializing_unknown_;
-- 
2.43.0


From 603b8231789bf5ad53bd2c3070dd9f78b6bfb750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:25 +0000
Subject: [PATCH 18/86] fix: keep an element misplaced within a Snippet or
 SimpleData

---
 src/kml/dom/extendeddata.cc | 2 +-
 src/kml/dom/snippet.cc      | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/extendeddata.cc b/src/kml/dom/extendeddata.cc
index 83c2d28..bf91304 100644
--- a/src/kml/dom/extendeddata.cc
+++ b/src/kml/dom/extendeddata.cc
@@ -69,7 +69,7 @@ void SimpleData::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  if (element->Type() == Type_SimpleData) {
+  if (element.get() == this) {
     set_text(get_char_data());
   } else {
     // We have a known KML element inside <SimpleData> and need to store it.
diff --git a/src/kml/dom/snippet.cc b/src/kml/dom/snippet.cc
index e5b104a..2f0cc44 100644
--- a/src/kml/dom/snippet.cc
+++ b/src/kml/dom/snippet.cc
@@ -64,7 +64,12 @@ void SnippetCommon::AddElement(const ElementPtr& element) {
   if (!element) {
     return;
   }
-  set_text(get_char_data());
+  if (element.get() == this) {
+    set_text(get_char_data());
+  } else {
+    // We have a known KML element inside <Snippet> and need to store it.
+    Element::AddElement(element);
+  }
 }
 
 void SnippetCommon::Serialize(Serializer& serializer) const {
-- 
2.43.0


From 25b5bfb0efa320c3a1e6ac0ebe431fa638737ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:57 +0000
Subject: [PATCH 19/86] fix: a misplaced element's content is not taken for its
 parent's

---
 src/kml/dom/element.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/element.cc b/src/kml/dom/element.cc
index aaceeb0..0b19a68 100644
--- a/src/kml/dom/element.cc
+++ b/src/kml/dom/element.cc
@@ -67,7 +67,13 @@ void Element::SerializeUnknown(Serializer& serializer) const {
   // First serialize the misplaced elements:
   for (size_t i = 0; i < unknown_legal_elements_array_.size(); ++i) {
     // Anything derived from Element implements a Serialize() method.
-    unknown_legal_elements_array_[i]->Serialize(serializer);
+    const ElementPtr& element = unknown_legal_elements_array_[i];
+    if (Xsd::GetSchema()->ElementType(element->Type()) == XSD_SIMPLE_TYPE) {
+      element->Serialize(serializer);
+    } else {
+      // A complex child is announced as such whatever its position.
+      serializer.SaveElement(element);
+    }
   }
   // Now serialize unknown elements:
   // Announce to the Serializer that the next N SaveContent() are each
-- 
2.43.0


From d79deb2b1eb019bebc89dc0f22f049682122a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:57 +0000
Subject: [PATCH 20/86] fix: merge the text of a Snippet

---
 src/kml/engine/merge.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..23d318f 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -49,12 +49,13 @@ class FieldMerger : public Serializer {
  public:
   // The target is expected to be a complex element.
   FieldMerger(ElementPtr target)
-      : target_(target) {}
+      : target_(target), has_text_(false) {}
 
   virtual ~FieldMerger() {}
 
   // Set the attributes in the target.
   virtual void BeginById(int type_id, const Attributes& attributes) {
+    has_text_ = target_->Type() == type_id;
     // ParseAttributes reflects the state of the passed attributes, so we
     // preserve the state of the element's attributes here ourselves and into
     // our private copy of the state merge the passed attributes and then
@@ -86,6 +87,15 @@ class FieldMerger : public Serializer {
     }
   }
 
+  // This sets the text of an element with character data such as <Snippet>.
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    // Unknown elements are saved as content that is not quoted.
+    if (maybe_quote && has_text_) {
+      target_->set_char_data(content);
+      target_->AddElement(target_);  // "Parse yourself"
+    }
+  }
+
   // This sets the given field in the target.
   virtual void SaveStringFieldById(int type_id, string value) {
     KmlDomType id = static_cast<KmlDomType>(type_id);
@@ -101,6 +111,7 @@ class FieldMerger : public Serializer {
 
  private:
   ElementPtr target_;
+  bool has_text_;
 };
 
 // This is the implementation of the public API function to merge the
-- 
2.43.0


From 772bb7f3244aefcd6e10cca253735b92ead825b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:04 +0000
Subject: [PATCH 21/86] fix: merging appends the items of an array

---
 src/kml/dom/gx_tour.cc            |  6 ++---
 src/kml/dom/networklinkcontrol.cc |  4 +--
 src/kml/engine/merge.cc           | 44 +++++++++++++++++++++++++++++--
 3 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index e1c9cf4..dcf1016 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -105,10 +105,8 @@ void GxPlaylist::AddElement(const ElementPtr& element) {
 
 void GxPlaylist::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
-  for (size_t i = 0; i < get_gx_tourprimitive_array_size(); ++i) {
-    serializer.SaveElementGroup(get_gx_tourprimitive_array_at(i),
-                                Type_GxTourPrimitive);
-  }
+  serializer.SaveElementGroupArray(gx_tourprimitive_array_,
+                                   Type_GxTourPrimitive);
 }
 
 void GxPlaylist::Accept(Visitor* visitor) {
diff --git a/src/kml/dom/networklinkcontrol.cc b/src/kml/dom/networklinkcontrol.cc
index fa1aaed..52676e4 100644
--- a/src/kml/dom/networklinkcontrol.cc
+++ b/src/kml/dom/networklinkcontrol.cc
@@ -178,9 +178,7 @@ void Update::Serialize(Serializer& serializer) const {
   if (has_targethref()) {
     serializer.SaveFieldById(Type_targetHref, get_targethref());
   }
-  for (size_t i = 0; i < updateoperation_array_.size(); ++i) {
-    serializer.SaveElement(get_updateoperation_array_at(i));
-  }
+  serializer.SaveElementArray(updateoperation_array_);
 }
 
 void Update::Accept(Visitor* visitor) {
diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index 23d318f..b10ceb7 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -114,6 +114,40 @@ class FieldMerger : public Serializer {
   bool has_text_;
 };
 
+// This finds the immediate complex element children of an element, as does
+// GetChildElements(), and tells which of them are items of an array.
+class ChildFinder : public Serializer {
+ public:
+  ChildFinder() : in_array_(false) {}
+
+  virtual void SaveElement(const ElementPtr& element) {
+    elements_.push_back(element);
+    is_array_item_.push_back(in_array_);
+  }
+
+  virtual void BeginElementArray(int type_id, size_t element_count) {
+    in_array_ = true;
+  }
+
+  virtual void EndElementArray(int type_id) {
+    in_array_ = false;
+  }
+
+  virtual void BeginElementGroupArray(int group_id, size_t element_count) {
+    in_array_ = true;
+  }
+
+  virtual void EndElementGroupArray(int group_id) {
+    in_array_ = false;
+  }
+
+  ElementVector elements_;
+  std::vector<bool> is_array_item_;
+
+ private:
+  bool in_array_;
+};
+
 // This is the implementation of the public API function to merge the
 // fields in one element into another.
 void MergeFields(const ElementPtr& source, ElementPtr target) {
@@ -137,8 +171,9 @@ void MergeElements(const ElementPtr& source, ElementPtr target) {
   }
   // Get the pointers to the immediate complex element children of the source
   // and target element.
-  ElementVector source_children;
-  GetChildElements(source, false, &source_children);
+  ChildFinder child_finder;
+  source->Serialize(child_finder);
+  const ElementVector& source_children = child_finder.elements_;
   ElementVector target_children;
   GetChildElements(target, false, &target_children);
 
@@ -146,6 +181,11 @@ void MergeElements(const ElementPtr& source, ElementPtr target) {
   // TODO: walk through both lists taking advantage of both being in
   // the same order given that Element::Serialize() is XSD order.
   for (size_t i = 0; i < source_children.size(); ++i) {
+    // An array item in the source is appended to the array in the target.
+    if (child_finder.is_array_item_[i]) {
+      target->AddElement(Clone(source_children[i]));
+      continue;
+    }
     size_t j;
     for (j = 0; j < target_children.size(); ++j) {
       // If the target has an element of this type...
-- 
2.43.0


From 3d4e50aca5062896d4a335411956b04cdf805e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:36 +0000
Subject: [PATCH 22/86] fix: a style without an id is not a shared style

---
 src/kml/engine/shared_style_parser_observer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/shared_style_parser_observer.h b/src/kml/engine/shared_style_parser_observer.h
index f89219f..2ca4b61 100644
--- a/src/kml/engine/shared_style_parser_observer.h
+++ b/src/kml/engine/shared_style_parser_observer.h
@@ -66,9 +66,9 @@ class SharedStyleParserObserver : public kmldom::ParserObserver {
             // TODO: provide means to send back an and error string with id
             return false;  // Duplicate id, fail parse.
           }
+          // No such mapping so save it, "last one wins" on non-strict parse.
+          (*shared_style_map_)[ss->get_id()] = ss;
         }
-        // No such mapping so save it, and "last one wins" on non-strict parse.
-        (*shared_style_map_)[ss->get_id()] = ss;
       }
     }
     return true;  // Not a duplicate id, keep parsing.
-- 
2.43.0


From 5e2bd7ac0f5912b1edbafbf08f7b6fae5ed567e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:00 +0000
Subject: [PATCH 23/86] fix: importing finds a shared style whose id is used
 again elsewhere

---
 src/kml/engine/kml_file.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index d09141b..94a163a 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -27,6 +27,7 @@
 
 #include "kml/engine/kml_file.h"
 #include "kml/base/xml_namespaces.h"
+#include "kml/engine/find.h"
 #include "kml/engine/find_xml_namespaces.h"
 #include "kml/engine/id_mapper.h"
 #include "kml/engine/kmz_file.h"
@@ -144,13 +145,19 @@ KmlFile* KmlFile::CreateFromImportInternal(const kmldom::ElementPtr& element,
     delete kml_file;
     return NULL;
   }
-  // Add all the shared styles to the style map. A shared style is any style
-  // with an id whose parent is a document (and by defintion anything in
-  // object_id_map_ has an id).
-  ObjectIdMap::const_iterator it;
-  for (it = map_ptr->begin(); it != map_ptr->end(); it++) {
-    if (kmldom::StyleSelectorPtr ss = kmldom::AsStyleSelector(it->second)) {
-      if (kmldom::AsDocument(ss->GetParent())) {
+  // Add all the shared styles to the style map.  A shared style is any style
+  // with an id whose parent is a document.
+  ElementVector documents;
+  if (kmldom::AsDocument(element)) {
+    documents.push_back(element);
+  }
+  GetElementsById(element, kmldom::Type_Document, &documents);
+  for (size_t i = 0; i < documents.size(); ++i) {
+    const kmldom::DocumentPtr document = kmldom::AsDocument(documents[i]);
+    for (size_t j = 0; j < document->get_styleselector_array_size(); ++j) {
+      const kmldom::StyleSelectorPtr& ss =
+          document->get_styleselector_array_at(j);
+      if (ss->has_id()) {
         (kml_file->shared_style_map_)[ss->get_id()] = ss;
       }
     }
-- 
2.43.0


From 12a59fe58d589378529faf471c16e8fd42329998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:04 +0000
Subject: [PATCH 24/86] fix: clear the ids of objects that share an id

---
 src/kml/engine/id_mapper.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/id_mapper.cc b/src/kml/engine/id_mapper.cc
index a28c489..4461909 100644
--- a/src/kml/engine/id_mapper.cc
+++ b/src/kml/engine/id_mapper.cc
@@ -71,12 +71,16 @@ void MapIds(const ElementPtr& root, ObjectIdMap* object_id_map,
 const ElementPtr& ClearIds(const ElementPtr& root) {
   // Get all objects with an id.
   ObjectIdMap object_id_map;
-  MapIds(root, &object_id_map, NULL);
+  ElementVector dup_id_elements;  // Objects not in the map.
+  MapIds(root, &object_id_map, &dup_id_elements);
   // Iterate through them all and clear the id.
   ObjectIdMap::const_iterator iter = object_id_map.begin();
   for (; iter != object_id_map.end(); ++iter) {
     iter->second->clear_id();
   }
+  for (size_t i = 0; i < dup_id_elements.size(); ++i) {
+    AsObject(dup_id_elements[i])->clear_id();
+  }
   return root;
 }
 
-- 
2.43.0


From 5145ad512e6a29d5c843b91cf616372dd93ea9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:46 +0000
Subject: [PATCH 25/86] fix: a written file declares the namespace of its gx:
 fields

---
 src/kml/engine/find_xml_namespaces.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/find_xml_namespaces.cc b/src/kml/engine/find_xml_namespaces.cc
index 0500e3a..dc09d59 100644
--- a/src/kml/engine/find_xml_namespaces.cc
+++ b/src/kml/engine/find_xml_namespaces.cc
@@ -28,10 +28,12 @@
 #include "kml/base/attributes.h"
 #include "kml/base/xml_namespaces.h"
 #include "kml/dom/serializer.h"
+#include "kml/dom/xsd.h"
 
 using kmlbase::Attributes;
 using kmldom::ElementPtr;
 using kmldom::Serializer;
+using kmldom::Xsd;
 
 namespace kmlengine {
 
@@ -43,8 +45,6 @@ class XmlNamespaceFinder : public Serializer {
     : xmlns_id_set_(xmlns_id_set) {
   }
 
-  // This is the only Serializer virtual method implemented
-  // in ElementFinder.  As such only complex elements are found.
   virtual void SaveElement(const ElementPtr& element) {
     xmlns_id_set_->insert(element->get_xmlns());
 
@@ -52,6 +52,23 @@ class XmlNamespaceFinder : public Serializer {
     Serializer::SaveElement(element);
   }
 
+  // A field such as <gx:altitudeMode> has no element of its own: its namespace
+  // is known from its name.
+  virtual void SaveStringFieldById(int type_id, string value) {
+    const string name = Xsd::GetSchema()->ElementName(type_id);
+    const string prefix = name.substr(0, name.find(':'));
+    if (prefix.size() == name.size()) {
+      return;  // No prefix: this is in the same namespace as its parent.
+    }
+    if (prefix == "atom") {
+      xmlns_id_set_->insert(kmlbase::XMLNS_ATOM);
+    } else if (prefix == "gx") {
+      xmlns_id_set_->insert(kmlbase::XMLNS_GX22);
+    } else if (prefix == "xal") {
+      xmlns_id_set_->insert(kmlbase::XMLNS_XAL);
+    }
+  }
+
  private:
   XmlnsIdSet* xmlns_id_set_;
 };
-- 
2.43.0


From 4be6e1c3d51a0268ac11f7e6850c8cd53a942df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:50 +0000
Subject: [PATCH 26/86] fix: a written file declares the namespace of KML
 fields below gx: elements

---
 src/kml/engine/find_xml_namespaces.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kml/engine/find_xml_namespaces.cc b/src/kml/engine/find_xml_namespaces.cc
index dc09d59..0e98206 100644
--- a/src/kml/engine/find_xml_namespaces.cc
+++ b/src/kml/engine/find_xml_namespaces.cc
@@ -58,9 +58,8 @@ class XmlNamespaceFinder : public Serializer {
     const string name = Xsd::GetSchema()->ElementName(type_id);
     const string prefix = name.substr(0, name.find(':'));
     if (prefix.size() == name.size()) {
-      return;  // No prefix: this is in the same namespace as its parent.
-    }
-    if (prefix == "atom") {
+      xmlns_id_set_->insert(kmlbase::XMLNS_KML22);
+    } else if (prefix == "atom") {
       xmlns_id_set_->insert(kmlbase::XMLNS_ATOM);
     } else if (prefix == "gx") {
       xmlns_id_set_->insert(kmlbase::XMLNS_GX22);
-- 
2.43.0


From 67a1ef0f6df342ee2e3e2097b444f252ef5fd35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:59 +0000
Subject: [PATCH 27/86] fix: references of a remote style map are relative to
 the remote file

---
 src/kml/engine/style_merger.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 8ea9bb5..2ee6839 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -119,8 +119,13 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   }
   // TODO: resolve relative hrefs in substyles of this styleselector w.r.t.
   // fetchable_url
-  // Merge in this StyleSelector.
-  MergeStyleSelector(styleselector);
+  // Merge in this StyleSelector.  The references it holds are relative to the
+  // file it is in.
+  StyleMerger remote_merger(kml_file->get_shared_style_map(), kml_cache_,
+                            kml_file->get_url(), style_state_, nesting_depth_);
+  remote_merger.MergeStyleSelector(styleselector);
+  nesting_depth_ = remote_merger.get_nesting_depth();
+  MergeElements(remote_merger.GetResolvedStyle(), resolved_style_);
 }
 
 // Both Feature and Pair have a styleUrl and/or StyleSelector.
-- 
2.43.0


From aea56d1f47c0db547969decd30fd29fe2f4b44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:42 +0000
Subject: [PATCH 28/86] fix: boundaries, hot spots and overlay positions are
 KML elements when a file is written

---
 src/kml/dom/geometry.cc | 4 +++-
 src/kml/dom/vec2.cc     | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 2026fb4..9d83c74 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -320,7 +320,9 @@ void LinearRing::Accept(Visitor* visitor) {
   visitor->VisitLinearRing(LinearRingPtr(this));
 }
 
-BoundaryCommon::BoundaryCommon() {}
+BoundaryCommon::BoundaryCommon() {
+  set_xmlns(kmlbase::XMLNS_KML22);
+}
 
 BoundaryCommon::~BoundaryCommon() {}
 
diff --git a/src/kml/dom/vec2.cc b/src/kml/dom/vec2.cc
index decc1f6..f65c370 100644
--- a/src/kml/dom/vec2.cc
+++ b/src/kml/dom/vec2.cc
@@ -43,6 +43,7 @@ Vec2::Vec2()
     has_xunits_(false),
     yunits_(UNITS_FRACTION),
     has_yunits_(false) {
+  set_xmlns(kmlbase::XMLNS_KML22);
 }
 
 Vec2::~Vec2() {}
-- 
2.43.0


From f6ab1026a2f1a77a960c143d69938d0f576ea7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:46 +0000
Subject: [PATCH 29/86] fix: inlining keeps the style a feature has of its own

---
 src/kml/engine/style_inliner.cc         | 20 +++++++++++++++++++-
 src/kml/engine/style_inliner_internal.h |  3 +++
 src/kml/engine/style_resolver.cc        | 15 +++++++++++----
 src/kml/engine/style_resolver.h         |  6 ++++++
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 1b32818..54d7445 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -86,16 +86,34 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
                    &fragment) && path.empty()) {
         SharedStyleMap::const_iterator iter = shared_styles_.find(fragment);
         if (iter != shared_styles_.end()) {
+          inlined_[feature] = child->get_char_data();
+          // The Feature may have a StyleSelector of its own.
           feature->set_styleselector(
               kmlengine::StyleResolver::CreateResolvedStyleSelector(
-                  child->get_char_data(), shared_styles_));
+                  child->get_char_data(), feature->get_styleselector(),
+                  shared_styles_));
           return false;  // Don't add the <styleUrl> to the feature.
         }
       }
       // We fall to here if the styleUrl is a remote reference or if the
       // styleUrl's local reference is not found.
+    } else if (kmldom::StyleSelectorPtr styleselector =
+               kmldom::AsStyleSelector(child)) {
+      // The Feature's own StyleSelector is on top of the shared style inlined
+      // in place of its styleUrl.
+      std::map<kmldom::FeaturePtr, string>::const_iterator iter =
+          inlined_.find(feature);
+      if (iter != inlined_.end()) {
+        feature->set_styleselector(
+            kmlengine::StyleResolver::CreateResolvedStyleSelector(
+                iter->second, styleselector, shared_styles_));
+        return false;  // It is part of the Feature's style now.
+      }
     }
   }
+  if (kmldom::FeaturePtr feature = AsNonDocumentFeature(child)) {
+    inlined_.erase(feature);  // This Feature is complete.
+  }
   // Everything else.
   return true;
 }
diff --git a/src/kml/engine/style_inliner_internal.h b/src/kml/engine/style_inliner_internal.h
index eab7495..92dafc4 100644
--- a/src/kml/engine/style_inliner_internal.h
+++ b/src/kml/engine/style_inliner_internal.h
@@ -28,6 +28,7 @@
 #ifndef KML_ENGINE_STYLE_INLINER_INTERNAL_H__
 #define KML_ENGINE_STYLE_INLINER_INTERNAL_H__
 
+#include <map>
 #include "kml/base/string_util.h"
 #include "kml/dom.h"
 #include "kml/engine/engine_types.h"
@@ -75,6 +76,8 @@ class StyleInliner : public kmldom::ParserObserver {
 
  private:
   kmlengine::SharedStyleMap shared_styles_;
+  // The styleUrl of each Feature in progress whose shared style was inlined.
+  std::map<kmldom::FeaturePtr, string> inlined_;
   kmldom::DocumentPtr document_;
   bool in_update_;
 };
diff --git a/src/kml/engine/style_resolver.cc b/src/kml/engine/style_resolver.cc
index 57c4df9..4b93a7a 100644
--- a/src/kml/engine/style_resolver.cc
+++ b/src/kml/engine/style_resolver.cc
@@ -72,18 +72,25 @@ StylePtr StyleResolver::CreateResolvedStyle(
 // static
 kmldom::StyleSelectorPtr StyleResolver::CreateResolvedStyleSelector(
     const string& styleurl, const SharedStyleMap& shared_style_map) {
+  return CreateResolvedStyleSelector(styleurl, NULL, shared_style_map);
+}
+
+// static
+kmldom::StyleSelectorPtr StyleResolver::CreateResolvedStyleSelector(
+    const string& styleurl, const StyleSelectorPtr& styleselector,
+    const SharedStyleMap& shared_style_map) {
   const string empty;
   StyleMapPtr stylemap = KmlFactory::GetFactory()->CreateStyleMap();
   PairPtr normal = KmlFactory::GetFactory()->CreatePair();
   normal->set_key(kmldom::STYLESTATE_NORMAL);
-  StylePtr style = CreateResolvedStyle(styleurl, NULL, shared_style_map, empty,
-                                       NULL, kmldom::STYLESTATE_NORMAL);
+  StylePtr style = CreateResolvedStyle(styleurl, styleselector, shared_style_map,
+                                       empty, NULL, kmldom::STYLESTATE_NORMAL);
   normal->set_styleselector(AsStyleSelector(ClearIds(style)));
   stylemap->add_pair(normal);
   PairPtr highlight = KmlFactory::GetFactory()->CreatePair();
   highlight->set_key(kmldom::STYLESTATE_HIGHLIGHT);
-  style = CreateResolvedStyle(styleurl, NULL, shared_style_map, empty,
-                              NULL, kmldom::STYLESTATE_HIGHLIGHT);
+  style = CreateResolvedStyle(styleurl, styleselector, shared_style_map,
+                              empty, NULL, kmldom::STYLESTATE_HIGHLIGHT);
   highlight->set_styleselector(AsStyleSelector(ClearIds(style)));
   stylemap->add_pair(highlight);
   return stylemap;
diff --git a/src/kml/engine/style_resolver.h b/src/kml/engine/style_resolver.h
index 3a5dae9..c96b038 100644
--- a/src/kml/engine/style_resolver.h
+++ b/src/kml/engine/style_resolver.h
@@ -64,6 +64,12 @@ class StyleResolver {
   // StyleSelector has all id= attributes cleared.
   static kmldom::StyleSelectorPtr CreateResolvedStyleSelector(
       const string& styleurl, const SharedStyleMap& shared_style_map);
+
+  // As above with the given StyleSelector, which may be NULL, merged over the
+  // style the styleurl references.
+  static kmldom::StyleSelectorPtr CreateResolvedStyleSelector(
+      const string& styleurl, const kmldom::StyleSelectorPtr& styleselector,
+      const SharedStyleMap& shared_style_map);
 };
 
 }  // end namespace kmlengine
-- 
2.43.0


From 78e07c639f1ffc5073355eb6ae7079bfc945d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:11 +0000
Subject: [PATCH 30/86] fix: a style with an id of its own is split to the id
 its feature refers to

---
 src/kml/engine/style_splitter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..fde791b 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -83,12 +83,13 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
         // ...and this id does not collide:
         if (shared_style_map_->find(style_id) == shared_style_map_->end()) {
           ++id_counter_;  // Bump the id counter only if it was used.
-          // Create an empty StyleSelector of the child's type and set the id.
+          // Create an empty StyleSelector of the child's type.
           kmldom::StyleSelectorPtr shared =
               CreateStyleSelector(child->Type());
-          shared->set_id(style_id);
           // Merge the children from child into the new StyleSelector.
           kmlengine::MergeElements(child, shared);
+          // This is after the merge as the child may have an id of its own.
+          shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
-- 
2.43.0


From 756d7f0c23d9011818f7e80725c8efebd34506f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 31/86] fix: a split style never takes the id of a shared style
 in the document

---
 src/kml/engine/style_splitter.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index fde791b..23e4c14 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -34,6 +34,7 @@
 #include "kml/dom/parser_observer.h"
 #include "kml/engine/engine_types.h"
 #include "kml/engine/merge.h"
+#include "kml/engine/shared_style_parser_observer.h"
 
 namespace kmlengine {
 
@@ -111,7 +112,14 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
 
 kmldom::ElementPtr SplitStyles(const string& input_kml,
                                string* errors) {
+  // The ids of the shared styles in the KML are not available to the splitter.
   SharedStyleMap shared_style_map;
+  SharedStyleParserObserver shared_styles(&shared_style_map, false);
+  kmldom::Parser id_parser;
+  id_parser.AddObserver(&shared_styles);
+  if (!id_parser.Parse(input_kml, errors)) {
+    return NULL;
+  }
   StyleSplitter style_splitter(&shared_style_map);
   kmldom::Parser parser;
   parser.AddObserver(&style_splitter);
-- 
2.43.0


From afd92dfbfc52d5c03c4972bac75c64783e3f15cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:58 +0000
Subject: [PATCH 32/86] fix: splitting keeps the style of a feature with
 several styles or a later styleUrl

---
 src/kml/engine/style_splitter.cc         | 36 ++++++++++++++++++++++++
 src/kml/engine/style_splitter_internal.h |  6 ++++
 2 files changed, 42 insertions(+)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 23e4c14..ac1effd 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -71,8 +71,43 @@ kmldom::StyleSelectorPtr StyleSplitter::CreateStyleSelector(
   }
 }
 
+kmldom::StyleSelectorPtr StyleSplitter::Unsplit(
+    const kmldom::FeaturePtr& feature) {
+  std::map<kmldom::FeaturePtr, kmldom::StyleSelectorPtr>::iterator iter =
+      split_.find(feature);
+  if (iter == split_.end()) {
+    return NULL;
+  }
+  const kmldom::StyleSelectorPtr styleselector = iter->second;
+  split_.erase(iter);
+  const string style_id = feature->get_styleurl().substr(1);
+  for (size_t i = 0; i < document_->get_styleselector_array_size(); ++i) {
+    if (document_->get_styleselector_array_at(i) ==
+        (*shared_style_map_)[style_id]) {
+      document_->DeleteStyleSelectorAt(i);
+      break;
+    }
+  }
+  shared_style_map_->erase(style_id);
+  feature->clear_styleurl();
+  return styleselector;
+}
+
 bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
                         const kmldom::ElementPtr& child) {
+  if (kmldom::FeaturePtr feature = AsNonDocumentFeature(parent)) {
+    if (child->IsA(kmldom::Type_StyleSelector)) {
+      Unsplit(feature);  // The last StyleSelector of a Feature is its own.
+    } else if (child->Type() == kmldom::Type_styleUrl) {
+      // A Feature with a <styleUrl> keeps its StyleSelector.
+      if (kmldom::StyleSelectorPtr styleselector = Unsplit(feature)) {
+        feature->set_styleselector(styleselector);
+      }
+    }
+  }
+  if (kmldom::FeaturePtr feature = AsNonDocumentFeature(child)) {
+    split_.erase(feature);  // This Feature is complete.
+  }
   // If we're not in <Update> and the child is a StyleSelector...
   if (!in_update_ && document_ && child->IsA(kmldom::Type_StyleSelector)) {
     // ...and the parent is a Feature, but not a <Document>...
@@ -96,6 +131,7 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
           (*shared_style_map_)[shared->get_id()] = shared;
           // Set the feature's <styleUrl> to this new shared style.
           feature->set_styleurl(string("#") + style_id);
+          split_[feature] = kmldom::AsStyleSelector(child);
           return false;  // Do _not_ add this child to this parent.
         }
       }
diff --git a/src/kml/engine/style_splitter_internal.h b/src/kml/engine/style_splitter_internal.h
index 14f881d..a577a72 100644
--- a/src/kml/engine/style_splitter_internal.h
+++ b/src/kml/engine/style_splitter_internal.h
@@ -91,6 +91,12 @@ class StyleSplitter : public kmldom::ParserObserver {
   }
 
  private:
+  // This takes back the split of the given Feature's StyleSelector, if any,
+  // and returns the StyleSelector.
+  kmldom::StyleSelectorPtr Unsplit(const kmldom::FeaturePtr& feature);
+
+  // The StyleSelector split from each Feature in progress.
+  std::map<kmldom::FeaturePtr, kmldom::StyleSelectorPtr> split_;
   kmlengine::SharedStyleMap* shared_style_map_;
   unsigned int id_counter_;
   kmldom::DocumentPtr document_;
-- 
2.43.0


From 6f43372918e2875072dd3ee2368ce8361eebc153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:29 +0000
Subject: [PATCH 33/86] fix: data that is not a cache item does not take an
 entry of the cache

---
 src/kml/base/net_cache.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..40c45e4 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,8 +129,8 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
-    if (!Save(url, item)) {  // This is basically an internal error.
-      return NULL;
+    if (item) {  // Data which is not a CacheItem is not worth an entry.
+      Save(url, item);
     }
     return item;
   }
-- 
2.43.0


From 303a514432d321f76cafc269c840aeb6fbd3e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 34/86] fix: a cache of size zero holds nothing

---
 src/kml/base/net_cache.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 40c45e4..7587f93 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -150,13 +150,14 @@ class NetCache {
   }
 
   // This stores the given CacheItem to the cache for the given url.
-  // This failes of a CacheItem for this url exists (use Delete first).
+  // This failes of a CacheItem for this url exists (use Delete first), or if
+  // this cache is to hold no items at all.
   // If the cache is at capacity this also first forces the removall
   // of the oldest item in the cache.  Application code should not typically
   // use this directly: use Fetch().
   bool Save(const string& url, const CacheItemPtr& cache_item) {
     const CacheItemPtr exists = LookUp(url);
-    if (exists) {
+    if (exists || max_size_ == 0) {
       return false;
     }
     if (cache_map_.size() == max_size_) {
-- 
2.43.0


From bc35a75dd063583bc19a56ea168acbc1e7d09db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 35/86] fix: the fetchable part of a URI is all of it up to the
 fragment

GetFetchableUri() dropped the query and, where there is no host
(file:///dir/file.kmz), the scheme and the leading slash as well.
---
 src/kml/engine/kml_uri.cc | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index bc20e98..8cb998f 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -180,26 +180,8 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
   if (!fetchable_uri) {
     return true;  // uri parsed fine, just not interested in output.
   }
-  string scheme;
-  static_cast<void> (uri_parser->GetScheme(&scheme));
-  string host;
-  static_cast<void> (uri_parser->GetHost(&host));
-
-  if (!scheme.empty() && !host.empty()) {
-    fetchable_uri->append(scheme).append("://",3).append(host);
-    string port;
-    static_cast<void> (uri_parser->GetPort(&port));
-    if (!port.empty()) {
-      fetchable_uri->append(":",1).append(port);
-    }
-    fetchable_uri->append("/",1);
-  }
-
-  string path;
-  static_cast<void> (uri_parser->GetPath(&path));
-  if (!path.empty()) {
-    fetchable_uri->append(path);
-  }
+  // Everything before the fragment.
+  fetchable_uri->assign(uri, 0, uri.find('#'));
   return true;
 }
 
-- 
2.43.0


From f49a3b5b87c758d3bf2821dc0c4551bbe626719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:01 +0000
Subject: [PATCH 36/86] fix: only a segment of the path of a URL names a KMZ
 file

KmzSplit() took the first ".kmz" anywhere: in the host (www.kmz.com), in the
query, or within another name (a.kmz.kml, whose path in the KMZ was then
"kml").
---
 src/kml/engine/kml_uri.cc | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/kml/engine/kml_uri.cc b/src/kml/engine/kml_uri.cc
index 8cb998f..7edfa16 100644
--- a/src/kml/engine/kml_uri.cc
+++ b/src/kml/engine/kml_uri.cc
@@ -27,6 +27,7 @@
 
 #include "kml/engine/kml_uri.h"
 #include "kml/engine/kml_uri_internal.h"
+#include <algorithm>
 #include "boost/scoped_ptr.hpp"
 #include "kml/base/uri_parser.h"
 
@@ -187,18 +188,33 @@ bool GetFetchableUri(const string& uri, string* fetchable_uri) {
 
 bool KmzSplit(const string& kml_url, string* kmz_url,
               string* kmz_path) {
-  size_t kmz = kml_url.find(".kmz");
-  if (kmz == string::npos) {
-    return false;
-  }
+  // Only a segment of the path names a KMZ file: not the host, nor anything in
+  // the query or fragment, nor a name which merely has ".kmz" in it.
+  const size_t end = std::min(kml_url.find_first_of("?#"), kml_url.size());
+  size_t path = 0;
+  const size_t authority = kml_url.find("//");
+  if (authority == 0 ||
+      (authority < end && kml_url[authority - 1] == ':' &&
+       kml_url.find('/') == authority)) {
+    path = std::min(kml_url.find('/', authority + 2), end);
+  }
+  size_t kmz = path;
+  do {
+    kmz = kml_url.find(".kmz", kmz);
+    if (kmz == string::npos || kmz + 4 > end) {
+      return false;
+    }
+    kmz += 4;
+  } while (kmz != end && kml_url[kmz] != '/');
   if (kmz_url) {
-    *kmz_url = kml_url.substr(0, kmz + 4);
-  }
-  if (kmz_path && kml_url.size() > kmz + 4) {
-    *kmz_path = kml_url.substr(kmz + 4 + 1);  // one past / after ".kmz/"
-  } else if (kmz_path && kmz == kml_url.size() - 4) {
-    // kml_url was just a kmz file
-    kmz_path->clear();
+    *kmz_url = kml_url.substr(0, kmz);
+  }
+  if (kmz_path) {
+    if (kmz < end) {
+      *kmz_path = kml_url.substr(kmz + 1, end - kmz - 1);  // one past /
+    } else {
+      kmz_path->clear();  // kml_url was just a kmz file
+    }
   }
   return true;
 }
-- 
2.43.0


From 101b4e9ecd8b2b3ef8b0012a2422b3cce0e7171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:01 +0000
Subject: [PATCH 37/86] fix: parts of an href with a fragment, without a path,
 or with :// in its query

Href::Parse() passed the end of the path as its length, so the path of an
absolute href included its fragment; http://host gave a path of "host" and no
net_loc; and any :// was taken to follow a scheme.
---
 src/kml/engine/href.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kml/engine/href.cc b/src/kml/engine/href.cc
index b9a28df..b489062 100644
--- a/src/kml/engine/href.cc
+++ b/src/kml/engine/href.cc
@@ -31,7 +31,8 @@ namespace kmlengine {
 size_t Href::ParseScheme(const string& href) {
   // Look for <scheme>://...
   size_t css = href.find("://");
-  if (css == string::npos || css == 0) {
+  if (css == string::npos || css == 0 ||
+      href.find_first_of(":/?#") < css) {  // Within the path, query or fragment.
     return 0;
   }
   scheme_ = href.substr(0, css);
@@ -41,9 +42,10 @@ size_t Href::ParseScheme(const string& href) {
 // private
 size_t Href::ParseNetLoc(const string& href) {
   // Look for ...://<net_loc>/...
-  size_t slash = href.find('/');
-  if (slash == string::npos) {
-    return 0;
+  size_t slash = href.find_first_of("/#");
+  if (slash == string::npos || href[slash] == '#') {
+    net_loc_ = href.substr(0, slash);  // There is no path.
+    return net_loc_.size();
   }
   net_loc_ = href.substr(0, slash);
   return slash + 1;  // First char after /
@@ -64,7 +66,7 @@ void Href::Parse(const string& href) {
     fragment_ = href.substr(pound + 1);
     path_end = pound;
   }
-  path_ = href.substr(path_start, path_end);
+  path_ = href.substr(path_start, path_end - path_start);
 }
 
 }  // end namespace kmlengine
-- 
2.43.0


From 8577a03f19eba0d7c8cff29b1ff41dcdf1c47715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 38/86] fix: a link to a KMZ file without any KML ends, and one
 found next to a KMZ has its own URL

KmzCache::DoFetchAndReturnUrl() looked for a target that is not in the KMZ
next to the KMZ file, for a KMZ file without a KML file again and again in
itself until the stack was exhausted.  A target found next to the KMZ which is
itself a KMZ file was given the URL of that file instead of that of the KML
file within it, against which its own links then did not resolve.
---
 src/kml/engine/kmz_cache.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/kml/engine/kmz_cache.cc b/src/kml/engine/kmz_cache.cc
index ab85769..2d65cae 100644
--- a/src/kml/engine/kmz_cache.cc
+++ b/src/kml/engine/kmz_cache.cc
@@ -116,13 +116,10 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   // OR PATH/bar.jpg.  The following attempts the latter.
   boost::scoped_ptr<KmlUri> kmz_relative(
       KmlUri::CreateRelative(kml_uri->get_kmz_url(), kml_uri->get_target()));
-  if (!kmz_relative.get()) {
-    return false;
-  }
-  if (fetched_url) {
-    *fetched_url = kmz_relative->get_url();
+  if (!kmz_relative.get() || kmz_relative->get_url() == kml_uri->get_url()) {
+    return false;  // This is where the target was just not found.
   }
-  return DoFetch(kmz_relative.get(), content);
+  return DoFetchAndReturnUrl(kmz_relative.get(), content, fetched_url);
 }
 
 bool KmzCache::FetchFromCache(KmlUri* kml_uri, string* content) const {
-- 
2.43.0


From fa3911c1941f269e53f2322595057c4c644a9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:13 +0000
Subject: [PATCH 39/86] fix: a KML file found by a short URL is parsed and
 cached once

KmlCache saves a file under the URL it was found at, but looked it up only by
the URL asked for: a link to a KMZ file or one resolved next to a KMZ file
gave a new KmlFile each time.
---
 src/kml/engine/kml_cache.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/engine/kml_cache.cc b/src/kml/engine/kml_cache.cc
index 9fb142b..e222453 100644
--- a/src/kml/engine/kml_cache.cc
+++ b/src/kml/engine/kml_cache.cc
@@ -53,6 +53,10 @@ KmlFilePtr KmlCache::FetchKmlRelative(const string& base,
   // No KmlFile cached for this URL.  Fetch the KML through the KMZ cache.
   string content;
   if (kmz_file_cache_->DoFetchAndReturnUrl(kml_uri.get(), &content, &url)) {
+    // The URL the content was found under may have been fetched before.
+    if (KmlFilePtr kml_file = kml_file_cache_->LookUp(url)) {
+      return kml_file;
+    }
     // The KML content was found within in a fetched and/or cached KMZ.
     // Parse it into a KmlFile for it and cache it.
     KmlFilePtr kml_file = KmlFile::CreateFromStringWithUrl(content, url, this);
-- 
2.43.0


From 0ff8ac643f15ad837921c9a1fca01ded21e3e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 40/86] fix: long names of files in a KMZ

A name of 1024 bytes or more was read into a buffer without a terminating zero
and read on past it; a file with a name of 256 bytes or more was written and
listed but could not be read.
---
 src/kml/base/contrib/minizip/unzip.c | 2 +-
 src/kml/base/zip_file.cc             | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kml/base/contrib/minizip/unzip.c b/src/kml/base/contrib/minizip/unzip.c
index df33f79..ab4e5bf 100644
--- a/src/kml/base/contrib/minizip/unzip.c
+++ b/src/kml/base/contrib/minizip/unzip.c
@@ -75,7 +75,7 @@ woven in by Terry Thorsen 1/2003.
 #endif
 
 #ifndef UNZ_MAXFILENAMEINZIP
-#define UNZ_MAXFILENAMEINZIP (256)
+#define UNZ_MAXFILENAMEINZIP (0x10000)
 #endif
 
 #ifndef ALLOC
diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..6b3707d 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -97,11 +97,12 @@ ZipFile::ZipFile(const string& data)
     unzFile zfile = libkml_unzAttach(mem_stream, &api);
     if (zfile) {
       unz_file_info finfo;
+      // The length of a name is a 16-bit number.
+      std::vector<char> buf(0x10000);
       do {
-        static char buf[1024];
-        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
+        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, &buf[0], buf.size(),
               0, 0, 0, 0) == UNZ_OK) {
-          zipfile_toc_.push_back(buf);
+          zipfile_toc_.push_back(&buf[0]);
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
       libkml_unzClose(zfile);
-- 
2.43.0


From 199cc7fe785e943a8911be7a540796c407ebab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 41/86] fix: an empty file in a KMZ can be read

ZipFile::GetEntry() took a size of zero for an error, so an empty file that
was added to an archive was reported as missing.
---
 src/kml/base/zip_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 6b3707d..4846057 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -197,7 +197,8 @@ bool ZipFile::GetEntry(const string& path_in_zip,
     return false;
   }
   unsigned long nbytes = finfo.uncompressed_size;
-  if (nbytes == 0 || nbytes > max_uncompressed_file_size_) {
+  if ((nbytes == 0 && finfo.crc != 0) ||
+      nbytes > max_uncompressed_file_size_) {
     // This is likely an imcompatibility between the library with which the
     // file was created and what the underlying minizip library can
     // uncompress. One such error is in the unit test for this file.
-- 
2.43.0


From c8d2062a21973a7e1034b679f6e25bfe26b86f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 42/86] fix: a damaged file in a KMZ is a read error

ZipFile::GetEntry() never compared the checksum of what it read, and returned
wrong bytes for an archive that was damaged.
---
 src/kml/base/zip_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 4846057..599e936 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -210,7 +210,9 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   }
   char* filedata = new char[nbytes];
   if (libkml_unzReadCurrentFile(unzfilehelper->get_unzfile(), filedata,
-                         nbytes) == static_cast<int>(nbytes)) {
+                         nbytes) == static_cast<int>(nbytes) &&
+      // This is what compares the checksum.
+      libkml_unzCloseCurrentFile(unzfilehelper->get_unzfile()) == UNZ_OK) {
     output->assign(filedata, nbytes);
     delete [] filedata;
     return true;
-- 
2.43.0


From 4a53bd411be16c3610eadc857c058777d079384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 43/86] fix: a file that cannot be read, such as a directory,
 is an error

File::ReadFileToString() returned true and nothing for it, so a link to a
directory was packed into a KMZ as an empty file.
---
 src/kml/base/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 7aec359..38a0be0 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -56,7 +56,7 @@ bool File::ReadFileToString(const string& filename, string* output) {
       output->append(buffer, static_cast<size_t>(input_file.gcount()));
     }
   }
-  return true;
+  return input_file.eof();
 }
 
 bool File::WriteStringToFile(const string& data,
-- 
2.43.0


From 042d9032fb2eb229ee727368bfb7fde6b65ddea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 44/86] fix: a link to another host is not packed as a file of
 the same path

KmzFile::AddFileList() dropped the scheme and host of a link and added the
local file of the same path to the KMZ.
---
 src/kml/engine/kmz_file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 05ac2d5..6764fee 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -147,6 +147,10 @@ size_t KmzFile::AddFileList(const string& base_url,
   for (itr = file_paths.begin(); itr != file_paths.end(); ++itr) {
     // Drop the fragment if any to get the stem of the filename.
     Href href(*itr);
+    if (!href.IsRelativePath()) {
+      error_count++;  // Nothing below the base_url.
+      continue;
+    }
     if (href.has_fragment()) {
       href.clear_fragment();
     }
-- 
2.43.0


From ea1792608b0bdebad826ef900b72e015907eb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:17 +0000
Subject: [PATCH 45/86] fix: packing a file which is not KML fails

KmzFile::CreateFromKmlFilepath() used the file that was not created.
---
 src/kml/engine/kmz_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 6764fee..8a3ff45 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -220,6 +220,9 @@ bool KmzFile::CreateFromKmlFilepath(const string& kml_filepath,
 
   KmlFilePtr kml_file =
     KmlFile::CreateFromStringWithUrl(kml_data, base_dir, NULL);
+  if (!kml_file) {
+    return false;
+  }
 
   return CreateFromKmlFile(kml_file, kmz_filepath);
 }
-- 
2.43.0


From 522577d6a5e7348c5627dad1aee603f779ff62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 46/86] fix: a link with both kinds of separators does not
 reach above the base directory

KmzFile::AddFileList() normalized "a/../..\\secret" to "a/../../secret": where a
link has a backslash, slashes are escaped as part of a name before and become
separators again after the dot segments are removed.  The file above the base
directory was read and added to the KMZ under that name.
---
 src/kml/engine/kmz_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 8a3ff45..fff65ac 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -155,9 +155,11 @@ size_t KmzFile::AddFileList(const string& base_url,
       href.clear_fragment();
     }
 
-    // Normalize the href.
+    // Normalize the href.  Where both kinds of separators are used only one
+    // kind is seen as such the first time and none is left but '/'.
     string normalized_href;
-    if (!NormalizeHref(href.get_path(), &normalized_href)) {
+    if (!NormalizeHref(href.get_path(), &normalized_href) ||
+        !NormalizeHref(normalized_href, &normalized_href)) {
       error_count++;
       continue;
     }
-- 
2.43.0


From 2c581fa9cd295bb2bea53bbe566b13a76d9caf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 47/86] fix: a path that leads out of the archive is not added
 to it

ZipFile::AddEntry() refused "../x" but not "a/../../x".
---
 src/kml/base/zip_file.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 599e936..d15316c 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -25,6 +25,7 @@
 
 // This file contains the implementation of the ZipFile class.
 
+#include <algorithm>
 #include <exception>
 #include "kml/base/zip_file.h"
 #include "kml/base/file.h"
@@ -228,6 +229,19 @@ bool ZipFile::AddEntry(const string& data,
       path_in_zip.substr(0, 2) == "..") {
     return false;
   }
+  int depth = 0;
+  for (size_t begin = 0, end; begin < path_in_zip.size(); begin = end + 1) {
+    end = std::min(path_in_zip.find_first_of("/\\", begin),
+                   path_in_zip.size());
+    const string segment(path_in_zip, begin, end - begin);
+    if (segment == "..") {
+      if (--depth < 0) {
+        return false;
+      }
+    } else if (!segment.empty() && segment != ".") {
+      ++depth;
+    }
+  }
   if (!minizip_file_) {
     return false;
   }
-- 
2.43.0


From 8d1561f4fb1f82196d99763fbf022e96a3154381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 48/86] fix: a link within the KML file is not a missing file
 of the KMZ

KmzCheckLinks() reported the styleUrl of a shared style of the same file.
---
 src/kml/convenience/kmz_check_links.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/kmz_check_links.cc b/src/kml/convenience/kmz_check_links.cc
index 015fbc3..1750cf2 100644
--- a/src/kml/convenience/kmz_check_links.cc
+++ b/src/kml/convenience/kmz_check_links.cc
@@ -51,7 +51,7 @@ bool KmzCheckLinks(const KmzFile& kmzfile, vector<string>* missing_links) {
   bool ret = true;  // Innocent until proven guilty.
   for (size_t i = 0; i < href_vector.size(); ++i) {
     Href href(href_vector[i]);
-    if (href.IsRelative()) {
+    if (href.IsRelativePath()) {
       string content;
       if (!kmzfile.ReadFile(href.get_path().c_str(), &content)) {
         if (missing_links) {
-- 
2.43.0


From 91c795826a63f215d6c196deba652a239bdc974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:34 +0000
Subject: [PATCH 49/86] fix: a link with both kinds of separators names the
 file its dot segments lead to

"../.\\..\\i.png" was packed as i.png.
---
 src/kml/engine/kmz_file.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index fff65ac..ebd262e 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -26,6 +26,7 @@
 // The file contains the implementation of the KmzFile class methods.
 
 #include "kml/engine/kmz_file.h"
+#include <algorithm>
 #include <cstring>
 #include <set>
 #include "boost/scoped_ptr.hpp"
@@ -155,11 +156,11 @@ size_t KmzFile::AddFileList(const string& base_url,
       href.clear_fragment();
     }
 
-    // Normalize the href.  Where both kinds of separators are used only one
-    // kind is seen as such the first time and none is left but '/'.
+    // Normalize the href.  Either separator separates, also next to the other.
+    string path(href.get_path());
+    std::replace(path.begin(), path.end(), '\\', '/');
     string normalized_href;
-    if (!NormalizeHref(href.get_path(), &normalized_href) ||
-        !NormalizeHref(normalized_href, &normalized_href)) {
+    if (!NormalizeHref(path, &normalized_href)) {
       error_count++;
       continue;
     }
-- 
2.43.0


From 894bf7f4f3ccbceebef317015c1e92acfe0472db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:01 +0000
Subject: [PATCH 50/86] fix: every reference in a text is expanded, whatever
 its neighbours and values

CreateExpandedStrings searched on from the end of the replaced text in the
old text's length, and so skipped references next to one with a short value,
stopped at the first reference if the value holds the name of the entity, and
expanded references in a value depending on the order of the names.
---
 src/kml/base/string_util.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..aba21b0 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -42,21 +42,29 @@ string CreateExpandedStrings(const string& in,
                              const StringMap& string_map,
                              const string& start,
                              const string& end) {
-  string out(in);
-  StringMap::const_iterator itr = string_map.begin();
-  for (itr = string_map.begin(); itr != string_map.end(); ++itr)  {
-    string candidate(start + itr->first + end);
-    size_t start_pos = out.find(candidate);
-    while (start_pos != string::npos) {
-      out.replace(start_pos, candidate.size(), itr->second);
-      // Avoid an infinite loop if the value contains the key. Allow the first
-      // replacement to happen, then bail.
-      if (itr->second.find(itr->first) != string::npos) {
+  // Each reference in the input is looked at once, from left to right, such
+  // that a value is never itself searched for references.
+  string out;
+  size_t done = 0;
+  size_t pos = 0;
+  while (pos < in.size() && (pos = in.find(start, pos)) != string::npos) {
+    StringMap::const_iterator itr = string_map.begin();
+    for (; itr != string_map.end(); ++itr)  {
+      const string candidate(start + itr->first + end);
+      if (!candidate.empty() &&
+          in.compare(pos, candidate.size(), candidate) == 0) {
+        out.append(in, done, pos - done);
+        out.append(itr->second);
+        pos += candidate.size();
+        done = pos;
         break;
       }
-      start_pos = out.find(candidate, start_pos + candidate.size());
+    }
+    if (itr == string_map.end()) {
+      ++pos;
     }
   }
+  out.append(in, done, string::npos);
   return out;
 }
 
-- 
2.43.0


From 6d5292bdb995535d0449df6e8dd93accfb2d7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:01 +0000
Subject: [PATCH 51/86] fix: typed data is shown with the names of its own
 schema

A SchemaData whose schema is not known was shown with the field names of the
one before it, and a value without a field in its schema with no name.
---
 src/kml/engine/entity_mapper.cc | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/kml/engine/entity_mapper.cc b/src/kml/engine/entity_mapper.cc
index 4f87c40..37535e1 100644
--- a/src/kml/engine/entity_mapper.cc
+++ b/src/kml/engine/entity_mapper.cc
@@ -140,6 +140,7 @@ void EntityMapper::GatherDataFields(const DataPtr& data) {
 void EntityMapper::GatherSchemaDataFields(const SchemaDataPtr& schemadata) {
   // We need to take the schemaUrl and find the <Schema> with that id.
   schemadata_prefix_ = "/";
+  simplefield_name_map_.clear();  // This is per SchemaData.
   if (schemadata->has_schemaurl()) {
     // We need to get the name= attr of the <Schema> with the id= attr that
     // matches this schemaUrl.
@@ -184,21 +185,18 @@ void EntityMapper::GatherSimpleDataFields(const SimpleDataPtr& simpledata) {
       simpledata->get_text();
   }
   // If there is a schemaUrl, the names we will use for display are in
-  // the populated map. If there isn't, the map is empty and we'll use the
-  // name attr of the SimpleData element.
+  // the populated map. If there isn't, or the schema has no such field, we'll
+  // use the name attr of the SimpleData element.
   if (alt_markup_map_) {
-    if (simplefield_name_map_.empty()) {
-      alt_markup_map_->push_back(
-          std::make_pair(simpledata->get_name(), simpledata->get_text()));
-    } else {
-      alt_markup_map_->push_back(
-          std::make_pair(simplefield_name_map_[simpledata->get_name()],
-                         simpledata->get_text()));
-    }
+    StringMap::const_iterator itr =
+      simplefield_name_map_.find(simpledata->get_name());
+    alt_markup_map_->push_back(
+        std::make_pair(itr == simplefield_name_map_.end() ?
+                         simpledata->get_name() : itr->second,
+                       simpledata->get_text()));
   }
 }
 
-// Private.
 void EntityMapper::PopulateSimpleFieldNameMap(const SchemaPtr& schema) {
   for (size_t i = 0; i < schema->get_simplefield_array_size(); ++i) {
     SimpleFieldPtr simplefield =
-- 
2.43.0


From a56103df061d92c5075d1a48af3d5daecf371c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:19 +0000
Subject: [PATCH 52/86] fix: expanding a box by a box of nothing leaves it as
 it is

A default Bbox contains nothing, yet expanding another one by it gave the
whole world.
---
 src/kml/engine/bbox.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/bbox.h b/src/kml/engine/bbox.h
index 599df6b..685cb85 100644
--- a/src/kml/engine/bbox.h
+++ b/src/kml/engine/bbox.h
@@ -105,8 +105,13 @@ class Bbox {
            east_ >= longitude && west_ <= longitude;
   }
 
-  // This expands this Bbox to contain the given Bbox.
+  // This expands this Bbox to contain the given Bbox.  A default bounding box
+  // contains nothing and expands nothing.
   void ExpandFromBbox(const Bbox& bbox) {
+    if (bbox.get_north() < bbox.get_south() ||
+        bbox.get_east() < bbox.get_west()) {
+      return;
+    }
     ExpandLatitude(bbox.get_north());
     ExpandLatitude(bbox.get_south());
     ExpandLongitude(bbox.get_east());
-- 
2.43.0


From 36c6ad052191b3446a86aaf4b17121b1d98d4347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:45 +0000
Subject: [PATCH 53/86] fix: a simple field is not a gx:SimpleArrayField

AsGxSimpleArrayField tested for the element type SimpleField and returned
any SimpleField as a gx:SimpleArrayField.
---
 src/kml/dom/schema.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/schema.h b/src/kml/dom/schema.h
index 4d26b00..d09b663 100644
--- a/src/kml/dom/schema.h
+++ b/src/kml/dom/schema.h
@@ -106,7 +106,8 @@ class SimpleField : public BasicElement<Type_SimpleField> {
 class GxSimpleArrayField : public SimpleField {
  public:
   virtual ~GxSimpleArrayField();
-  virtual KmlDomType Type() const { return Type_GxSimpleArrayField; }
+  static KmlDomType ElementType() { return Type_GxSimpleArrayField; }
+  virtual KmlDomType Type() const { return ElementType(); }
   virtual bool IsA(KmlDomType type) const {
     return type == Type_GxSimpleArrayField || SimpleField::IsA(type);
   }
-- 
2.43.0


From 7839dc1e1a75ce749218600c054aa79449cc865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:45 +0000
Subject: [PATCH 54/86] fix: the text of an enum value out of range is empty

Xsd::EnumValue read at or beyond the end of the list of values.
---
 src/kml/dom/xsd.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..f0ca5c9 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -108,7 +108,13 @@ const int size = sizeof(kKml22Enums)/sizeof(XsdSimpleTypeEnum);
 
   for (int i = 0; i < size; ++i) {
     if (kKml22Enums[i].type_id == type_id) {
-      return kKml22Enums[i].enum_value_list[enum_id];
+      // The list of values ends with a NULL.
+      for (int j = 0; kKml22Enums[i].enum_value_list[j]; ++j) {
+        if (j == enum_id) {
+          return kKml22Enums[i].enum_value_list[j];
+        }
+      }
+      return string();
     }
   }
   return string();
-- 
2.43.0


From fb4212c74a1ea6b0b8d7f120d144f2f4a9d8d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:29 +0000
Subject: [PATCH 55/86] fix: a hot spot is visited as a hot spot

HotSpot had no Accept of its own, so visitors saw only a Vec2.
---
 src/kml/dom/hotspot.cc | 5 +++++
 src/kml/dom/hotspot.h  | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/kml/dom/hotspot.cc b/src/kml/dom/hotspot.cc
index 94dc5b1..42609c2 100644
--- a/src/kml/dom/hotspot.cc
+++ b/src/kml/dom/hotspot.cc
@@ -24,6 +24,7 @@
 // ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "kml/dom/hotspot.h"
+#include "kml/dom/visitor.h"
 
 namespace kmldom {
 
@@ -31,4 +32,8 @@ HotSpot::HotSpot() {}
 
 HotSpot::~HotSpot() {}
 
+void HotSpot::Accept(Visitor* visitor) {
+  visitor->VisitHotSpot(HotSpotPtr(this));
+}
+
 }  // end namespace kmldom
diff --git a/src/kml/dom/hotspot.h b/src/kml/dom/hotspot.h
index 9ac1392..0fd0f28 100644
--- a/src/kml/dom/hotspot.h
+++ b/src/kml/dom/hotspot.h
@@ -43,6 +43,9 @@ class HotSpot : public Vec2 {
     return type == Type_hotSpot || Vec2::IsA(type);
   }
 
+  // Visitor API methods, see visitor.h.
+  virtual void Accept(Visitor* visitor);
+
  private:
   friend class KmlFactory;
   HotSpot();
-- 
2.43.0


From 41ea9afb313d27b9a649979d4f8d475aeb378cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:44 +0000
Subject: [PATCH 56/86] fix: features within an Update are not saved to a
 feature list

KmlFeatureListSaver noted the start of an Update in a method the parser
never calls.  A reference to a shared style with an id of one character
is given the base too.
---
 src/kml/convenience/kml_feature_list_saver.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index ca85d14..aa0a94b 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -54,15 +54,19 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
                       const char* style_base)
     : feature_list_(feature_list),
       shared_style_map_(shared_style_map),
-      in_update_(false) {
+      in_update_(0) {
     if (style_base) {
       style_base_ = string(style_base);
     }
   }
 
+  virtual bool NewElement(const kmldom::ElementPtr& element) {
+    return StartElement(element);
+  }
+
   virtual bool StartElement(const kmldom::ElementPtr& element) {
     if (element->Type() == kmldom::Type_Update) {
-      in_update_ = true;
+      ++in_update_;
     }
     return true;
   }
@@ -70,7 +74,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
   virtual bool EndElement(const kmldom::ElementPtr& parent,
                           const kmldom::ElementPtr& child) {
     if (child->Type() == kmldom::Type_Update) {  // </Update>
-      in_update_ = false;
+      --in_update_;
       return false;
     }
     if (in_update_) {
@@ -81,7 +85,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
       kmldom::FeaturePtr feature = kmldom::AsFeature(child);
       if (!style_base_.empty() && feature->has_styleurl()) {
         const string& styleurl = feature->get_styleurl();
-        if (styleurl.size() > 2 && styleurl[0] == '#') {
+        if (styleurl.size() > 1 && styleurl[0] == '#') {
           feature->set_styleurl(style_base_ + styleurl);
         }
       }
@@ -103,7 +107,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
   FeatureList* feature_list_;
   kmlengine::SharedStyleMap* shared_style_map_;
   string style_base_;
-  bool in_update_;
+  int in_update_;  // Depth of <Update>s.
 };
 
 }  // end namespace kmlconvenience
-- 
2.43.0


From 6a06fad7746c1da1614aa0096a167819a33adfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:44 +0000
Subject: [PATCH 57/86] fix: splitting a string drops the whole separator

---
 src/kml/base/string_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index aba21b0..0885923 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -74,7 +74,7 @@ void SplitStringUsing(const string& input, const string& split_string,
   size_t separator;
   while ((separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
-    iter = iter.substr(separator+1);
+    iter = iter.substr(separator + split_string.size());
   }
   output->push_back(iter);
 }
-- 
2.43.0


From 32c9c2f04c8fc8907727fb07a2cfeda6879cfef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:44 +0000
Subject: [PATCH 58/86] fix: text which cannot be converted is not a number

StringToDouble returned true and zero for a number such as 12e.
---
 src/kml/base/string_util.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index 0885923..fe41f2d 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -180,6 +180,7 @@ bool StringToDouble(const string& number, double* output) {
     std::istringstream iss(number);
     iss.imbue(std::locale::classic());
     iss >> *output;
+    return !iss.fail();
   }
   return true;
 }
-- 
2.43.0


From 616240aae3bf006e70d691be1a7bd1c908cf3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:08 +0000
Subject: [PATCH 59/86] fix: an unpaired last item of an attribute list is
 ignored

---
 src/kml/base/attributes.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 6a79d1a..598594c 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -61,9 +61,8 @@ bool Attributes::Parse(const char** attrs) {
 }
 
 bool Attributes::Parse(const kmlbase::StringVector& attrs) {
-  for (unsigned int i = 0; i < attrs.size() ; i += 2) {
-    if (attrs.size() - i < 1)
-      break;
+  // Quietly ignore unpaired last item.
+  for (size_t i = 0; i + 1 < attrs.size(); i += 2) {
     string attr_name = attrs.at(i);
     string attr_val = attrs.at(i+1);
     attributes_map_[attr_name] = attr_val;
-- 
2.43.0


From 5705b994ad6cfbd477237b5f6d091ab51ff982eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:34 +0000
Subject: [PATCH 60/86] fix: a short color is read within its text

---
 src/kml/base/color32.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..9dc0526 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -131,13 +131,14 @@ class Color32 {
     // character, skip it. (Google Earth supports this usage, despite its not
     // being common practice.)
     size_t offset = 0;
-    while (isspace(color_abgr[offset])) {
+    while (offset < color_abgr.size() && isspace(color_abgr[offset])) {
       offset ++;
     }
-    if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
+    if (offset < color_abgr.size() && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
+    size_t length = color_abgr.size() >= 8 + offset ? 8 :
+        color_abgr.size() - offset;
     for(size_t i = offset; i < length + offset; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
-- 
2.43.0


From 8b5614fccae9c6295afc879fddca8748ce517e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:34 +0000
Subject: [PATCH 61/86] fix: the time of a date before 1970

---
 src/kml/base/date_time.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index 01dbfc4..eabd5bf 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -70,6 +70,9 @@ time_t DateTime::GetTimeT() const {
   // This and is_leap() base from 1970, the epoch of a time_t.
   for (int year = 70; year < tm_.tm_year; ++year)
     res += is_leap(year) ? 366 : 365;
+  // A year before the epoch counts backwards.
+  for (int year = 69; year >= tm_.tm_year; --year)
+    res -= is_leap(year) ? 366 : 365;
 
   for (int month = 0; month < tm_.tm_mon; ++month)
     res += ndays[is_leap(tm_.tm_year)][month];
-- 
2.43.0


From ee65e22c333a26f89cae2e5ef983b5841fbf6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:34 +0000
Subject: [PATCH 62/86] fix: a circle of any number of segments goes all the
 way round

---
 src/kml/convenience/convenience.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 6aa8918..7621880 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -119,7 +119,7 @@ CoordinatesPtr CreateCoordinatesCircle(double lat, double lng,
   CoordinatesPtr coords = KmlFactory::GetFactory()->CreateCoordinates();
   for (size_t i = 0; i < segments; ++i) {
     coords->add_vec3(kmlbase::LatLngOnRadialFromPoint(
-        lat, lng, radius, static_cast<double>(i)));
+        lat, lng, radius, 360.0 * i / segments));
   }
   return coords;
 }
-- 
2.43.0


From 2cb7190ddb5aa17a5d3fd3152d8ce1e1f6bb53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 63/86] fix: a track point without a position is not reported
 at the previous one

---
 src/kml/convenience/gpx_trk_pt_handler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 2e7fdd6..fb36678 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -63,7 +63,8 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
     if (name.compare("trkpt") == 0) {
       // <trkpt lat="-33.911973070" lon="18.422974152">
       // If both lat and lon exist and are sane doubles create a Vec3 for
-      // the point.
+      // the point.  Nothing is kept of a previous <trkpt>.
+      vec3_.reset();
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
-- 
2.43.0


From d9ee8c45274f0125de943c0d120e792d4b846e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 64/86] fix: text that is not a number is no position and no
 altitude of a track point

---
 src/kml/convenience/gpx_trk_pt_handler.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index fb36678..644a220 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -32,6 +32,7 @@
 #include "boost/scoped_ptr.hpp"
 #include "kml/base/attributes.h"
 #include "kml/base/expat_handler.h"
+#include "kml/base/string_util.h"
 #include "kml/base/vec3.h"
 
 namespace kmlconvenience {
@@ -68,10 +69,14 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
+        string lat;
+        string lon;
         double latitude;
         double longitude;
-        if (attributes->GetDouble("lat", &latitude) &&
-            attributes->GetDouble("lon", &longitude)) {
+        if (attributes->GetString("lat", &lat) &&
+            attributes->GetString("lon", &lon) &&
+            kmlbase::StringToDouble(lat, &latitude) &&
+            kmlbase::StringToDouble(lon, &longitude)) {
           vec3_.reset(new kmlbase::Vec3(longitude, latitude));
         }
       }
@@ -99,9 +104,13 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
     } else if (name.compare("ele") == 0) {
       // <ele>4.943848</ele>
       if (vec3_.get()) {
-	double alt;
-	kmlbase::FromString(char_data_, &alt);
-        vec3_->set_altitude(alt);
+        double alt;
+        if (kmlbase::StringToDouble(
+                char_data_.substr(
+                    kmlbase::SkipLeadingWhitespaceString(char_data_)),
+                &alt)) {
+          vec3_->set_altitude(alt);
+        }
       }
     }
   }
-- 
2.43.0


From 4393d00e3acc02876cdccd67b7e10503f9ebb21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 65/86] fix: the features taken from a feed are clones

---
 src/kml/convenience/atom_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 4baa5a3..f975b1a 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -160,7 +160,9 @@ FeaturePtr AtomUtil::GetEntryFeature(const AtomEntryPtr& entry) {
 
 // static
 FeaturePtr AtomUtil::CloneEntryFeature(const AtomEntryPtr& entry) {
-  if (FeaturePtr feature = GetEntryFeature(entry)) {
+  FeaturePtr feature = kmldom::AsFeature(
+      kmlengine::Clone(GetEntryFeature(entry)));
+  if (feature) {
     string href;
     if (FindRelUrl(*entry.get(), "self", &href)) {
       AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
-- 
2.43.0


From 10e9b6b680334e6b66caf7f983d3b12bab7d543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 66/86] fix: the container of a feed's features links to the
 feed

---
 src/kml/convenience/atom_util.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index f975b1a..546670f 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -184,6 +184,12 @@ void AtomUtil::GetFeedFeatures(const AtomFeedPtr& feed,
       // XmlElement (see kmlbase::XmlElement::SetParent).
       container->add_feature(CloneEntryFeature(feed->get_entry_array_at(i)));
     }
+    string href;
+    if (FindRelUrl(*feed.get(), "self", &href)) {
+      AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
+      link->set_href(href);
+      container->set_atomlink(link);
+    }
   }
 }
 
-- 
2.43.0


From 458aabc03c915d47a90f642ae94d2899758e92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 67/86] fix: asking whether an entry has a resource id needs no
 string

---
 src/kml/convenience/atom_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 546670f..9432c91 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -259,7 +259,9 @@ bool AtomUtil::GetGdResourceId(const kmldom::AtomEntryPtr& entry,
     if (HackParseElement(entry->get_unknown_elements_array_at(i), &tag,
                          &content) &&
         tag == "resourceId") {
-      *resource_id = content;
+      if (resource_id) {
+        *resource_id = content;
+      }
       return true;
     }
   }
-- 
2.43.0


From 005d7e29e287d50186b3b8e167a3ce42aa648dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:19 +0000
Subject: [PATCH 68/86] fix: a feature with duplicate ids is not posted

---
 src/kml/convenience/google_maps_data.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/convenience/google_maps_data.cc b/src/kml/convenience/google_maps_data.cc
index aaa5739..9898cdf 100644
--- a/src/kml/convenience/google_maps_data.cc
+++ b/src/kml/convenience/google_maps_data.cc
@@ -229,6 +229,9 @@ bool GoogleMapsData::AddFeature(const string& feature_feed_post_uri,
   // headers.
   kmlengine::KmlFilePtr kml_file =
       kmlengine::KmlFile::CreateFromImport(entry);
+  if (!kml_file.get()) {
+    return false;
+  }
   string post_data;
   kml_file->SerializeToString(&post_data);
 
-- 
2.43.0


From e36e59c98d411cefd2f198471d7ecc4b329a098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:45 +0000
Subject: [PATCH 69/86] fix: a Document within an Update does not receive split
 styles

---
 src/kml/engine/style_splitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index ac1effd..fa7c0c9 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -40,7 +40,7 @@ namespace kmlengine {
 
 bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
   // Use the first <Document> found as the home of all shared styles.
-  if (!document_ && element->IsA(kmldom::Type_Document)) {
+  if (!document_ && !in_update_ && element->IsA(kmldom::Type_Document)) {
     document_ = AsDocument(element);
   }
   // Don't touch anything inside an <Update>.
-- 
2.43.0


From a3b1b0c94f83a46f83c7a9f75fd423e9ccc591ef Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:38:21 +0000
Subject: [PATCH 70/86] fix: XSD types without a name are not crashed on nor
 end the outer type

---
 src/kml/xsd/xsd_handler.cc | 21 +++++++++++++--------
 src/kml/xsd/xsd_handler.h  | 12 +++++++++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 98dc545..c6b55c3 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -40,7 +40,7 @@ namespace kmlxsd {
 
 // <xs:complexType name="..." abstract="...">
 void XsdHandler::StartComplexType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:complexType> and/or <xs:simpleType>
+  if (++type_depth_ == 1) {  // <xs:complexType> and/or <xs:simpleType>
     current_type_ = XsdComplexType::Create(attributes);
   }
 }
@@ -48,14 +48,19 @@ void XsdHandler::StartComplexType(const Attributes& attributes) {
 // </xs:complexType">
 // </xs:simpleType">
 void XsdHandler::EndType() {
-  xsd_file_->add_type(current_type_);
-  current_type_ = NULL;
+  // A type within another type has no name and is not a type of its own.
+  if (--type_depth_ == 0) {
+    if (current_type_) {
+      xsd_file_->add_type(current_type_);
+    }
+    current_type_ = NULL;
+  }
 }
 
 // <xs:extension base="...">
 void XsdHandler::StartExtension(const Attributes& attributes) {
   if (XsdComplexTypePtr complex_type =
-          XsdComplexType::AsComplexType(current_type_)) {
+          XsdComplexType::AsComplexType(get_current_type())) {
     string base;
     if (attributes.GetString(kBase, &base)) {
       complex_type->set_extension_base(base);
@@ -65,7 +70,7 @@ void XsdHandler::StartExtension(const Attributes& attributes) {
 
 // <xs:simpleType name="..."/>
 void XsdHandler::StartSimpleType(const Attributes& attributes) {
-  if (!current_type_) {  // <xs:simpleType is never nested...
+  if (++type_depth_ == 1) {
     current_type_ = XsdSimpleType::Create(attributes);
   }
 }
@@ -73,7 +78,7 @@ void XsdHandler::StartSimpleType(const Attributes& attributes) {
 // <xs:restriction base="...">
 void XsdHandler::StartRestriction(const Attributes& attributes) {
   if (XsdSimpleTypePtr simple_type =
-          XsdSimpleType::AsSimpleType(current_type_)) {
+          XsdSimpleType::AsSimpleType(get_current_type())) {
     string base;
     if (attributes.GetString(kBase, &base)) {
       simple_type->set_restriction_base(base);
@@ -84,7 +89,7 @@ void XsdHandler::StartRestriction(const Attributes& attributes) {
 // <xs:enumeration value="...">
 void XsdHandler::StartEnumeration(const Attributes& attributes) {
   if (XsdSimpleTypePtr simple_type =
-          XsdSimpleType::AsSimpleType(current_type_)) {
+          XsdSimpleType::AsSimpleType(get_current_type())) {
     string value;
     if (attributes.GetString(kValue, &value)) {
       simple_type->add_enumeration(value);
@@ -104,7 +109,7 @@ void XsdHandler::StartXsElement(const Attributes& attributes) {
   if (parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (XsdComplexTypePtr complex_type =
-                 XsdComplexType::AsComplexType(current_type_)) {
+                 XsdComplexType::AsComplexType(get_current_type())) {
      // Is it a child of <xs:complexType>?
     complex_type->add_element(element);
   }
diff --git a/src/kml/xsd/xsd_handler.h b/src/kml/xsd/xsd_handler.h
index 0dfba03..181bf58 100644
--- a/src/kml/xsd/xsd_handler.h
+++ b/src/kml/xsd/xsd_handler.h
@@ -52,7 +52,8 @@ class XsdHandler : public kmlbase::ExpatHandler {
  public:
   XsdHandler(XsdFile* xsd_file)
     : xsd_file_(xsd_file),
-      current_type_(NULL) {
+      current_type_(NULL),
+      type_depth_(0) {
   }
   virtual ~XsdHandler() {}
 
@@ -84,6 +85,15 @@ class XsdHandler : public kmlbase::ExpatHandler {
   void EndType();
   XsdTypePtr current_type_;
 
+  // The number of <xs:complexType>'s and <xs:simpleType>'s now open.
+  int type_depth_;
+
+  // The type the next start element describes: the contents of a type nested
+  // within another one are not those of the outer one.
+  XsdTypePtr get_current_type() const {
+    return type_depth_ == 1 ? current_type_ : XsdTypePtr();
+  }
+
   std::stack<string> parse_;
 };
 
-- 
2.43.0


From 5498b841bd32a20a52aeb6c7b8e438f3e85a3bc1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:38:21 +0000
Subject: [PATCH 71/86] fix: an XSD element which is the root or is nobody's
 does not crash or leak

---
 src/kml/xsd/xsd_handler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index c6b55c3..732d680 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -100,13 +100,13 @@ void XsdHandler::StartEnumeration(const Attributes& attributes) {
 // <xs:element name="..." type="..." default=".."/>
 // <xs:element ref="..." minOccurs="..." maxOccurs="..."/>
 void XsdHandler::StartXsElement(const Attributes& attributes) {
-  XsdElement* element = XsdElement::Create(attributes);
+  XsdElementPtr element = XsdElement::Create(attributes);
   if (!element) {
     return;
   }
 
   // Is this a global element?
-  if (parse_.top() == kSchema) {
+  if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (XsdComplexTypePtr complex_type =
                  XsdComplexType::AsComplexType(get_current_type())) {
-- 
2.43.0


From 7a62abd86a0751fd6847e39a99328fefaa862d33 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:38:21 +0000
Subject: [PATCH 72/86] fix: an XSD reference to an unknown element yields no
 child element

---
 src/kml/xsd/xsd_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ac8d184..8abf96c 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -116,7 +116,9 @@ void XsdFile::FindChildElements(const XsdComplexTypePtr& complex_type,
   for (size_t i = 0; i < sequence_size; ++i) {
     const XsdElementPtr element = complex_type->get_sequence_at(i);
     if (element->is_ref()) {
-       elements->push_back(ResolveRef(element->get_name()));
+      if (XsdElementPtr resolved = ResolveRef(element->get_name())) {
+        elements->push_back(resolved);
+      }
     } else {
       elements->push_back(element);
     }
-- 
2.43.0


From c38de33c5224358c815418ea8f593d4d65e816ca Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:38:21 +0000
Subject: [PATCH 73/86] fix: XSD types which extend each other do not hang the
 type hierarchy

---
 src/kml/xsd/xsd_file.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index 8abf96c..ff59ea3 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -25,6 +25,7 @@
 
 #include "kml/xsd/xsd_file.h"
 #include <algorithm>
+#include <set>
 #include <vector>
 #include "kml/base/expat_handler.h"
 #include "kml/base/expat_parser.h"
@@ -161,8 +162,12 @@ bool XsdFile::GetTypeHierarchy(const XsdComplexTypePtr& complex_type,
     return false;
   }
   XsdComplexTypePtr current = complex_type;
+  // XSD does not allow a type to be its own base, but the file may do so.
+  std::set<XsdComplexTypePtr> seen;
+  seen.insert(current);
   while (current->has_extension_base()) {
-    if (XsdComplexTypePtr base = GetBaseType(current)) {
+    XsdComplexTypePtr base = GetBaseType(current);
+    if (base && seen.insert(base).second) {
       if (type_hier) {
         type_hier->push_back(base);
       }
@@ -241,10 +246,10 @@ bool XsdFile::SearchTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (find_type == complex_type) {
     return true;
   }
-  if (XsdComplexTypePtr base_type = GetBaseType(complex_type)) {
-    return SearchTypeHierarchy(base_type, find_type);
-  }
-  return false;
+  vector<XsdComplexTypePtr> type_hier;
+  GetTypeHierarchy(complex_type, &type_hier);
+  return std::find(type_hier.begin(), type_hier.end(), find_type) !=
+      type_hier.end();
 }
 
 void XsdFile::GetElementsOfType(const XsdComplexTypePtr& type,
-- 
2.43.0


From 74136f6d74b49e73249fee9423a67c65fcfaa7c1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:38:21 +0000
Subject: [PATCH 74/86] fix: an XSD file without a target namespace can be
 asked for it

---
 src/kml/xsd/xsd_file.cc | 3 ++-
 src/kml/xsd/xsd_file.h  | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ff59ea3..b7adc54 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -149,7 +149,8 @@ const XsdElementPtr XsdFile::ResolveRef(const string& element_ref) const {
 XsdComplexTypePtr XsdFile::GetBaseType(
     const XsdComplexTypePtr& complex_type) const {
   string type_name;
-  if (!xsd_schema_->SplitNsName(complex_type->get_extension_base(),
+  if (!xsd_schema_ ||
+      !xsd_schema_->SplitNsName(complex_type->get_extension_base(),
                                 &type_name)) {
     return NULL;  // XSD is incomplete.
   }
diff --git a/src/kml/xsd/xsd_file.h b/src/kml/xsd/xsd_file.h
index 99e9e5f..5f045d2 100644
--- a/src/kml/xsd/xsd_file.h
+++ b/src/kml/xsd/xsd_file.h
@@ -80,11 +80,12 @@ class XsdFile {
     type_map_[xsd_type->get_name()] = xsd_type;
   }
 
-  const string& get_target_namespace() const {
-    return xsd_schema_->get_target_namespace();
+  // These return an empty string if there is no valid <xs:schema>.
+  const string get_target_namespace() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace() : "";
   }
-  const string& get_target_namespace_prefix() const {
-    return xsd_schema_->get_target_namespace_prefix();
+  const string get_target_namespace_prefix() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace_prefix() : "";
   }
 
   // Create an alias.  For example, "AbstractFeatureGroup" == "Feature".
-- 
2.43.0


From 9aed7a11def1f1a2c4cbecde3a97d37c89c20aa1 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:38:21 +0000
Subject: [PATCH 75/86] fix: the name of the invalid XSD primitive type is the
 empty string

---
 src/kml/xsd/xsd_primitive_type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_primitive_type.cc b/src/kml/xsd/xsd_primitive_type.cc
index 00ce2e5..7c7015c 100644
--- a/src/kml/xsd/xsd_primitive_type.cc
+++ b/src/kml/xsd/xsd_primitive_type.cc
@@ -56,7 +56,7 @@ static const char* XsdPrimitiveTypeName[] = {
 };
 
 const string XsdPrimitiveType::GetTypeName(TypeId type_id) {
-  return XsdPrimitiveTypeName[type_id];
+  return type_id == XSD_INVALID ? "" : XsdPrimitiveTypeName[type_id];
 }
 
 XsdPrimitiveType::TypeId XsdPrimitiveType::GetTypeId(
-- 
2.43.0


From c81f4e7d52651f13bcc2d0bee22508fb66e23881 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:43:53 +0000
Subject: [PATCH 76/86] fix: writing a file which does not fit on the disk
 fails

---
 src/kml/base/file.cc | 2 +-
 src/kml/base/file.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 38a0be0..02bb7ec 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -71,7 +71,7 @@ bool File::WriteStringToFile(const string& data,
   }
   output_file.write(data.c_str(), static_cast<std::streamsize>(data.length()));
   output_file.close();
-  return true;
+  return output_file.good();  // The data may not have fit.
 }
 
 string File::JoinPaths(const string& p1, const string& p2) {
diff --git a/src/kml/base/file.h b/src/kml/base/file.h
index ea51eba..38abdd5 100644
--- a/src/kml/base/file.h
+++ b/src/kml/base/file.h
@@ -39,7 +39,7 @@ class File {
                                string* output);
 
   // Writes a string into a file. Returns false if the target file could
-  // not be created and opened for writing.
+  // not be created and opened for writing, or if not all was written.
   static bool WriteStringToFile(const string& data,
                                 const string& filename);
 
-- 
2.43.0


From 6241c71630fab09eb434b8b43adab572f7cdbeaf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 09:44:32 +0000
Subject: [PATCH 77/86] fix: a KMZ which does not fit on the disk is not
 reported as written

---
 src/kml/base/zip_file.cc   | 26 +++++++++++++++++---------
 src/kml/base/zip_file.h    |  5 +++++
 src/kml/engine/kmz_file.cc |  8 +++++---
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index d15316c..6db62d6 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -45,10 +45,11 @@ static const unsigned long kMaxUncompressedZipSize = ZIP_MAX_UNCOMPRESSED_SIZE;
 class MinizipFile {
  public:
   MinizipFile(zipFile zipfile) : zipfile_(zipfile) {}
-  ~MinizipFile() {
-    if (zipfile_) {
-      zipClose(zipfile_, 0);
-    }
+  ~MinizipFile() { Close(); }
+  bool Close() {
+    const bool ok = zipfile_ && zipClose(zipfile_, 0) == ZIP_OK;
+    zipfile_ = NULL;
+    return ok;
   }
   zipFile get_zipfile() { return zipfile_; }
  private:
@@ -249,11 +250,18 @@ bool ZipFile::AddEntry(const string& data,
   if (!zipfile) {
     return false;
   }
-  zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
-                      Z_DEFLATED, Z_DEFAULT_COMPRESSION);
-  zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
-                      static_cast<unsigned int>(data.size()));
-  return zipCloseFileInZip(zipfile) == ZIP_OK;
+  if (zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
+                          Z_DEFLATED, Z_DEFAULT_COMPRESSION) != ZIP_OK) {
+    return false;
+  }
+  const bool written =
+      zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
+                          static_cast<unsigned int>(data.size())) == ZIP_OK;
+  return zipCloseFileInZip(zipfile) == ZIP_OK && written;
+}
+
+bool ZipFile::Close() {
+  return minizip_file_ && minizip_file_->Close();
 }
 
 }  // end namespace kmlbase
diff --git a/src/kml/base/zip_file.h b/src/kml/base/zip_file.h
index f823d1c..0a347b8 100644
--- a/src/kml/base/zip_file.h
+++ b/src/kml/base/zip_file.h
@@ -105,6 +105,11 @@ class ZipFile {
   // essentially a NOP. True will be returned, but the data is unchanged.
   bool AddEntry(const string& data, const string& path_in_zip);
 
+  // Finishes a ZIP file made with ZipFile::Create, to which no more entries
+  // can be added.  Returns false if the archive could not be written in full.
+  // The destructor does the same, but cannot tell.
+  bool Close();
+
  private:
   // The constructor used to open a ZIP file in-memory, suitable for reading.
   ZipFile(const string& data);
diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index ebd262e..3ddbd40 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -204,7 +204,7 @@ bool KmzFile::WriteKmz(const char* kmz_filepath, const string& kml) {
   if (!kmz->AddFile(kml, kDefaultKmlFilename)) {
     return false;
   }
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz->zip_file_->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
@@ -244,7 +244,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
   const string kml_data = kmldom::SerializePretty(element);
   // First add the KML file. This is the file opened by default by a client
   // from a KMZ archive.
-  kmz_file->AddFile(kml_data, kDefaultKmlFilename);
+  if (!kmz_file->AddFile(kml_data, kDefaultKmlFilename)) {
+    return false;
+  }
 
   // Next gather the local references and add them.
   StringVector file_paths;
@@ -252,7 +254,7 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
     kmz_file->AddFileList(base_url, file_paths);
   }
 
-  return kmlbase::File::Exists(kmz_filepath);
+  return kmz_file->zip_file_->Close() && kmlbase::File::Exists(kmz_filepath);
 }
 
 // Static.
-- 
2.43.0


From dc949b38258917824e17973ef34681776b167eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:55 +0000
Subject: [PATCH 78/86] fix: an XSD date has four digits for its year

---
 src/kml/base/date_time.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/date_time.cc b/src/kml/base/date_time.cc
index eabd5bf..92635ad 100644
--- a/src/kml/base/date_time.cc
+++ b/src/kml/base/date_time.cc
@@ -99,7 +99,11 @@ string DateTime::GetXsdTime() const {
 }
 
 string DateTime::GetXsdDate() const {
-  return DoStrftime<11>("%Y-%m-%d");
+  string date = DoStrftime<11>("%Y-%m-%d");
+  while (date.size() < 10) {  // %Y has no leading zeros.
+    date.insert(0, "0");
+  }
+  return date;
 }
 
 string DateTime::GetXsdDateTime() const {
-- 
2.43.0


From cfa6b9bcf29f544240d6803f52190a56b6deb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:55 +0000
Subject: [PATCH 79/86] fix: the login token is the rest of its line, also of
 the last one

---
 src/kml/convenience/http_client.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/http_client.cc b/src/kml/convenience/http_client.cc
index f7fafa6..2401458 100644
--- a/src/kml/convenience/http_client.cc
+++ b/src/kml/convenience/http_client.cc
@@ -97,7 +97,7 @@ bool HttpClient::Login(const string& service_name,
   }
   const string token = response.substr(auth_offset + kAuth.size());
 
-  auth_token_ = token.substr(0, token.size() - 1);  // remove trailing "\n"
+  auth_token_ = token.substr(0, token.find('\n'));  // remove trailing "\n"
 
   // Attach Authorization header to every subsequent request
   PushHeader("Authorization", "GoogleLogin auth=" + auth_token_, &headers_);
-- 
2.43.0


From 95ca44a285ae98af998134daa8b24b24d565db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 80/86] fix: no feature has no ExtendedData value

---
 src/kml/convenience/convenience.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/convenience.cc b/src/kml/convenience/convenience.cc
index 7621880..5f3317b 100644
--- a/src/kml/convenience/convenience.cc
+++ b/src/kml/convenience/convenience.cc
@@ -239,7 +239,7 @@ GxWaitPtr CreateWait(double duration) {
 bool GetExtendedDataValue(const FeaturePtr& feature,
                           const string& name,
                           string* value) {
-  if (value && feature->has_extendeddata()) {
+  if (value && feature && feature->has_extendeddata()) {
     ExtendedDataPtr extendeddata = feature->get_extendeddata();
     for (size_t i = 0; i < extendeddata->get_data_array_size(); ++i) {
       DataPtr data = extendeddata->get_data_array_at(i);
-- 
2.43.0


From 1e915b603e73991b7dd2789002add395a4c0b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 81/86] fix: a styleUrl to the root of a host is not local

---
 src/kml/engine/style_merger.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 2ee6839..065cdeb 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -84,15 +84,16 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   if (--nesting_depth_ < 0) {
     return;
   }
+  string host;
   string path;
   string style_id;  // fragment
   if (styleurl.empty() ||
-      !SplitUri(styleurl, NULL, NULL, NULL, &path, NULL, &style_id) ||
+      !SplitUri(styleurl, NULL, &host, NULL, &path, NULL, &style_id) ||
       style_id.empty()) {
     return;  // Empty or bad styleurl or w/o fragment: ignore.
   }
-  // If there's no path this is a StyleSelector within this file.
-  if (path.empty()) {
+  // If there's no path or host this is a StyleSelector within this file.
+  if (path.empty() && host.empty()) {
     SharedStyleMap::const_iterator found = shared_style_map_.find(style_id);
     if (found != shared_style_map_.end()) {
       MergeStyleSelector(found->second);
-- 
2.43.0


From 29e28f627cb0646cf56b4aa46d359726dce7a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:25 +0000
Subject: [PATCH 82/86] fix: the point on a radial that reaches a pole has a
 latitude

LatLngOnRadialFromPoint returned NaN where rounding made the sine of the
latitude slightly larger than one, e.g. due north by exactly the distance
to the pole from latitude -88.2.
---
 src/kml/base/math_util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/math_util.cc b/src/kml/base/math_util.cc
index 5cbc6d9..67548a7 100644
--- a/src/kml/base/math_util.cc
+++ b/src/kml/base/math_util.cc
@@ -82,8 +82,10 @@ Vec3 LatLngOnRadialFromPoint(double lat, double lng,
   const double lng_r = DegToRad(lng);
   const double distance_r = MetersToRadians(distance);
   const double radial_r = DegToRad(radial);
-  const double radial_lat = asin(sin(lat_r) * cos(distance_r) +
-                    cos(lat_r) * sin(distance_r) * cos(radial_r));
+  // Rounding can take the sine of the latitude of a pole out of [-1,1].
+  const double sin_radial_lat = sin(lat_r) * cos(distance_r) +
+                    cos(lat_r) * sin(distance_r) * cos(radial_r);
+  const double radial_lat = asin(fmax(-1.0, fmin(1.0, sin_radial_lat)));
   const double delta_lng = atan2(sin(radial_r) * sin(distance_r) * cos(lat_r),
                            cos(distance_r) - sin(lat_r) * sin(radial_lat));
   const double radial_lng = fmod(lng_r + delta_lng + M_PI, 2 * M_PI) - M_PI;
-- 
2.43.0


From f01249737980ec53c48749ea67e6820f0f247ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 83/86] fix: splitting text at an empty string ends

SplitStringUsing found the empty string at offset zero for ever and used up
all memory; now nothing is split.
---
 src/kml/base/string_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index fe41f2d..2558b3e 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -72,7 +72,9 @@ void SplitStringUsing(const string& input, const string& split_string,
                       std::vector<string>* output) {
   string iter = input;
   size_t separator;
-  while ((separator = iter.find(split_string)) != string::npos) {
+  // An empty string separates nothing.
+  while (!split_string.empty() &&
+         (separator = iter.find(split_string)) != string::npos) {
     output->push_back(iter.substr(0, separator));
     iter = iter.substr(separator + split_string.size());
   }
-- 
2.43.0


From e04906d7b9a14d37e3c9c1e168cf5111c380bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 84/86] fix: the line of a region's box is closed

---
 src/kml/regionator/regionator_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/regionator/regionator_util.cc b/src/kml/regionator/regionator_util.cc
index 48bb0c0..460ddd0 100644
--- a/src/kml/regionator/regionator_util.cc
+++ b/src/kml/regionator/regionator_util.cc
@@ -139,7 +139,7 @@ PlacemarkPtr CreateLineStringBox(const string& name, const RegionPtr& region) {
     coordinates->add_latlng(north, east);
     coordinates->add_latlng(south, east);
     coordinates->add_latlng(south, west);
-    coordinates->add_latlng(south, west);
+    coordinates->add_latlng(north, west);
     LineStringPtr linestring = factory->CreateLineString();
     linestring->set_coordinates(coordinates);
     linestring->set_tessellate(true);
-- 
2.43.0


From 01489b5402f0eb9988fa2937d1d81639f2c5fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:01 +0000
Subject: [PATCH 85/86] fix: listing an archive appends to the list, as
 documented

---
 src/kml/base/zip_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 6db62d6..7fa76d6 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -145,7 +145,7 @@ bool ZipFile::GetToc(kmlbase::StringVector* subfiles) const {
   if (!subfiles) {
     return false;
   }
-  *subfiles = zipfile_toc_;
+  subfiles->insert(subfiles->end(), zipfile_toc_.begin(), zipfile_toc_.end());
   return true;
 }
 
-- 
2.43.0


From 51d2562994a5c86b77c0787b9ef07cbde909a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:45 +0000
Subject: [PATCH 86/86] fix: convert old-style schema instances with attributes
 or nested namesakes

ConvertOldSchema took everything up to the first '>' as the name of the element,
so that one with attributes was never found in the map, and took the first end
tag of that name as its own, which cut an element short that holds another of
the same name.
---
 src/kml/engine/parse_old_schema.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/kml/engine/parse_old_schema.cc b/src/kml/engine/parse_old_schema.cc
index d35588a..db6c81c 100644
--- a/src/kml/engine/parse_old_schema.cc
+++ b/src/kml/engine/parse_old_schema.cc
@@ -41,16 +41,19 @@ bool ConvertOldSchema(const string& input_xml,
     return false;
   }
   // Determine if this looks like "<tag>...</tag>".
-  if (input_xml[0] != '<') {
+  if (input_xml.empty() || input_xml[0] != '<') {
     return false;
   }
-  string::size_type gt = input_xml.find('>');
-  if (gt == string::npos) {
+  // The start tag may have attributes.
+  string::size_type name_end = input_xml.find_first_of(" \t\r\n>", 1);
+  if (name_end == string::npos) {
     return false;
   }
-  const string tag_name = input_xml.substr(1, gt-1);
+  const string tag_name = input_xml.substr(1, name_end - 1);
+  // The content may hold elements of the same name: the last end tag is the
+  // one of this element.
   string::size_type end_tag =
-      input_xml.find(string("</" + tag_name + ">"));
+      input_xml.rfind(string("</" + tag_name + ">"));
   if (end_tag == string::npos) {
     return false;
   }
@@ -62,8 +65,8 @@ bool ConvertOldSchema(const string& input_xml,
   // Old <Schema> had a parent= attribute naming the element to extend, but
   // only <Placemark> was ever supported.  (And OGC KML 2.2 <Schema> has no
   // parent=.  Replace <tag>...</tag> with <Placemark>...</Placemark>).
-  *output_xml = "<Placemark>" + input_xml.substr(gt+1, end_tag - gt - 1) +
-      "</Placemark>";
+  *output_xml = "<Placemark" +
+      input_xml.substr(name_end, end_tag - name_end) + "</Placemark>";
   return true;
 }
 
-- 
2.43.0

