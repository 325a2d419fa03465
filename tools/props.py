#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

D = "src/kml/dom/"; E = "src/kml/engine/"; B = "src/kml/base/"; C = "src/kml/convenience/"; R = "src/kml/regionator/"; X = "src/kml/xsd/"

prop("C01", "Parsing then serializing keeps every recognised element, value and attribute",
 "Parsing any well-formed KML document (core KML 2.2, gx:, atom: and xal: elements) and serializing the result, pretty or raw, yields well-formed XML that carries every recognised child element, field value and attribute of the input in its schema position: repeated children keep their number and order, and of a single-valued child given more than once the last one is kept. Values come out in canonical form (booleans as 0/1, numbers as decimal, colours as aabbggrr) and an enumerated field with an unknown value is dropped. Parsing that output and serializing it again gives the same document.",
 ["inputs"], "All documents over the KML schema (every element type, every legal child, any multiplicity and order), both serializers.",
 "Unit tests sample one or two hand-written instances per class; the schema has about 100 types and 250 slots whose combinations and orders they never cross.",
 [D+"kml_handler.cc", D+"xml_serializer.h", D+"feature.cc", D+"geometry.cc", D+"overlay.cc", D+"kml22.cc"],
 [("AddElement per class", D+"*.cc"), ("Serialize per class", D+"*.cc"), ("element/enum tables", D+"kml22.cc")],
 ["kmldom::Parse", "kmldom::SerializePretty", "kmldom::SerializeRaw"])

prop("C02", "Any text or attribute value survives serialization",
 "For every string of characters that XML can carry, whether it was set through the API or parsed from a document (as character data, entities or CDATA), placing it in a text field or an attribute and serializing gives well-formed XML from which an XML reader, and the library itself, recovers exactly that string (only pretty-printing may lay out a Snippet, linkSnippet or SimpleData text that is nothing but white space). Serializing never lets content escape into markup.",
 ["inputs"], "All strings over an alphabet containing the XML metacharacters, quotes, CDATA open/close sequences, entities and multi-byte UTF-8, in fields, element text and attributes.",
 "Tests check a few quoted strings; interactions such as ]]> inside CDATA, & next to CDATA openers or quotes in attributes are not sampled.",
 [D+"serializer.cc", D+"xml_serializer.h", B+"attributes.cc"],
 [("MaybeQuoteString", D+"serializer.cc"), ("Attributes::Serialize", B+"attributes.cc")],
 ["kmldom::SerializePretty", "kmldom::SerializeRaw", "kmldom::Parse"])

prop("C03", "Unknown, misplaced and embedded markup is kept and never disturbs its siblings",
 "An element the library does not know, found within a structured element, is kept together with its attributes, text and whole subtree, a known element found under a structured element that does not allow it is kept as a child of that parent, and markup inside a description becomes part of the description's text. Each such item appears exactly once in the serialized output under the same parent, after the recognised children, misplaced elements first and then unknown ones, each group in input order; recognised siblings before and after it are parsed exactly as if it were absent. Elements named by an old-style Schema (one with a parent attribute) are read as Placemarks whose declared fields become SimpleData.",
 ["inputs"], "All nestings of unknown, misplaced, known and description elements with attributes and mixed content.",
 "Tests try single isolated unknown elements; nesting of descriptions in unknown elements, several unknown siblings and re-parsing of the output are not crossed.",
 [D+"kml_handler.cc", D+"element.cc"],
 [("skip_depth_/in_description_ bookkeeping", D+"kml_handler.cc"), ("SerializeUnknown", D+"element.cc")],
 ["kmldom::Parse", "kmldom::SerializeRaw", "Element::get_unknown_elements_array_at", "Element::get_misplaced_elements_array_at"],
 [("skip_depth_", "depth inside unparsed markup", D+"kml_handler.h"), ("in_description_", "nesting of description elements", D+"kml_handler.h")])

prop("C04", "The parser accepts exactly the right documents and drives observers in order",
 "A parse returns an element exactly when the input is well-formed XML, its root is a known KML element, it declares no entities, is nested at most 100 elements deep and no observer stopped it; otherwise it returns nothing and, when an error string is supplied, a non-empty error. Every observer sees the known elements in document order (new-element at each start tag, end-element then add-child at each end tag, in registration order); an end-element refusal keeps that child out of its parent without stopping the parse, while a new-element or add-child refusal stops the whole parse: nothing after that element is reported (an element written as an empty-element tag still reports its own end).",
 ["inputs", "histories"], "All token sequences up to the bounds (known/unknown elements, nesting, truncation, mismatched tags) and all refusal positions of two observers.",
 "Tests use a single always-true or always-false observer on one document and one depth; positions of refusals and combinations with unknown markup are unbounded.",
 [D+"kml_handler.cc", D+"parser.cc", D+"parser_observer.h", B+"expat_parser.cc"],
 [("StartElement/EndElement", D+"kml_handler.cc"), ("Parser::Parse", D+"parser.cc")],
 ["kmldom::Parser::Parse", "kmldom::ParserObserver callbacks"])

prop("C05", "Incremental parsing gives the same result for every split of the input",
 "Reading a document from a stream, or feeding it to the incremental parser in pieces, gives the same document, the same observer callbacks and the same accept/reject outcome as parsing it as one string, whatever the sizes of the pieces and wherever they fall (inside tags, entities, CDATA or multi-byte characters). An input that ends early, is malformed or whose source fails while being read is reported as a failure and never as a shorter document.",
 ["inputs", "fault_sequences"], "All split positions of all documents of the scenario set, all truncation points, and read failures at every chunk.",
 "Tests feed one document in one or two chunkings.",
 [B+"expat_parser.cc", E+"kml_stream.cc", E+"kml_stream.h"],
 [("ExpatParser::ParseBuffer", B+"expat_parser.cc"), ("KmlStream::ParseFromIstream", E+"kml_stream.cc")],
 ["kmlbase::ExpatParser", "kmlengine::KmlStream"])

prop("C06", "Coordinate text yields exactly the listed points, in order",
 "Coordinate text is a list of lon,lat[,alt] tuples separated by any XML white space (spaces, tabs, newlines in any mix), with white space allowed around the commas; parsing it yields one point per tuple, in order, with exactly the given numbers and altitude 0 when none is given, whatever the length of the text or of a number. Serializing those points, pretty or raw, and parsing again yields the same points (numbers of up to 15 significant digits); the same holds for the space-separated gx:coord and gx:angles triples of a track.",
 ["inputs"], "All sequences of 2-D and 3-D tuples, all white-space separators and all number spellings of the bounded grammar.",
 "Tests use a handful of single-line or pretty-indented lists.",
 [D+"geometry.cc", D+"geometry.h", B+"string_util.cc", D+"xml_serializer.h"],
 [("Coordinates::ParseVec3", D+"geometry.cc"), ("SaveVec3", D+"xml_serializer.h")],
 ["kmldom::Coordinates", "kmldom::GxTrack"])

prop("C07", "An element has at most one parent and parents and children always agree",
 "Over any history of creating, setting, adding, clearing and deleting child elements (none of which places an element below itself), an element that was once accepted by a parent is refused by every other and both sides are left unchanged, an attached child reports the parent that holds it, and a parent lists exactly the children it accepted and has not since lost, in the order they were added. Setting a single-valued child replaces the previous one, clearing removes it, and deleting by position or by id removes exactly the addressed child and returns it, or returns nothing and changes nothing when there is no such child. An element belongs for good to the first file it is put in, and parents accept only children in the same file (or, like them, in none).",
 ["histories"], "All operation histories over a few containers, features, geometries and styles up to the bound.",
 "Tests exercise one add or one refusal at a time.",
 [B+"xml_element.h", D+"element.h", D+"container.cc", D+"document.h", D+"geometry.h"],
 [("SetParent", B+"xml_element.h"), ("SetComplexChild/AddComplexChild", D+"element.h")],
 ["kmldom setters/getters", "Element::GetParent"])

prop("C08", "A clone is equal, complete and independent",
 "Cloning any element yields a separate tree of the same type that serializes to exactly the same document as the original, including ids, unknown attributes, unknown elements, misplaced elements and coordinates. The clone has no parent and shares no element with the original, so that later changes to either one never show in the other, and cloning leaves the original unchanged.",
 ["inputs", "histories"], "All documents over the schema; mutation of either side after cloning.",
 "Tests clone three hand-built elements.",
 [E+"clone.cc", E+"clone.h"],
 [("ElementReplicator", E+"clone.cc")],
 ["kmlengine::Clone"])

prop("C09", "Merging overlays the source's set values on the target",
 "Merging a source element into a target gives the target every attribute and field value the source sets in place of its own, merges single complex children of the same type recursively, puts a copy of the source's child in place of a sibling of another type of the same group, and appends copies of the source's array items; coordinates and the text of a text element are replaced as a whole. Whatever the source does not set stays as it was. The source is never changed and shares nothing with the target afterwards; merging only the fields leaves complex children alone, and merging from or into nothing changes nothing.",
 ["inputs"], "All pairs of elements over the schema.",
 "Tests merge a few hand-made pairs.",
 [E+"merge.cc", E+"merge.h"],
 [("MergeFields/MergeElements", E+"merge.cc")],
 ["kmlengine::MergeFields", "kmlengine::MergeElements"])

prop("C10", "Id and shared-style lookups agree with the document",
 "For a file created from a parse, looking up an id returns the last object with that id in document order, and returns nothing for an id that does not occur; looking up a shared style returns the last style selector with that id that is a direct child of a Document, and never an inline style or one without an id. A file created by importing an element tree has the same lookups in the order of the tree, except that strict import refuses a tree with a duplicate id while the lax mode accepts it. Mapping the ids of a tree finds every object with an id and reports the duplicates, remapping replaces exactly the mapped ids, and clearing ids leaves no object with an id and changes nothing else.",
 ["inputs"], "All documents with ids distributed over objects at any place, duplicates included, and all creation modes.",
 "Tests use a few fixed documents with at most one duplicate.",
 [E+"kml_file.cc", E+"id_mapper.cc", E+"object_id_parser_observer.h", E+"shared_style_parser_observer.h"],
 [("ObjectIdParserObserver", E+"object_id_parser_observer.h"), ("MapIds", E+"id_mapper.cc"), ("KmlFile::CreateFromImport*", E+"kml_file.cc")],
 ["kmlengine::KmlFile::GetObjectById", "kmlengine::KmlFile::GetSharedStyleById"])

prop("C11", "Updates apply exactly the requested changes in order",
 "Processing an update applies its create, change and delete operations in document order to the objects of the target file named by target id (ids are unique, and objects are those the file held when it was loaded): create appends copies of the given features to the named container, change overlays the given values on the named object, delete removes the named feature from its container. Operations that name an unknown id or lack a target id change nothing and do not stop the following ones; nothing else in the file changes, the update itself is left unchanged, and with an id mapping the mapped ids are used.",
 ["histories", "inputs"], "All sequences of operations over small target trees, including repeated, unknown and deleted targets.",
 "Tests run a few fixed single-operation updates.",
 [E+"update.cc", E+"update_processor.cc", D+"container.cc"],
 [("UpdateProcessor::ProcessUpdate*", E+"update_processor.cc")],
 ["kmlengine::ProcessUpdate", "kmlengine::ProcessUpdateWithIdMap"])

prop("C12", "Style resolution yields the specified style and always terminates",
 "Resolving the style of a feature for a given state yields the values of the style it refers to (through style maps, by the pair for that state) overlaid with its inline style; values set by neither are unset, and the resolved style shares nothing with the document and changes nothing in it. A reference to another file is resolved there, and the references of a style in that file belong to that file. References to missing styles or files contribute nothing, and chains or cycles of references of any length end after five references.",
 ["inputs"], "All graphs of styles, style maps and pairs (cycles included), all placements of inline styles and both states.",
 "Tests resolve a few fixed chains and a single self-loop.",
 [E+"style_resolver.cc", E+"style_merger.cc", E+"kml_file.cc"],
 [("StyleMerger::MergeStyle*", E+"style_merger.cc"), ("StyleResolver", E+"style_resolver.cc")],
 ["kmlengine::CreateResolvedStyle", "kmlengine::StyleResolver"])

prop("C13", "Inlining or splitting styles keeps every feature's appearance",
 "Inlining the shared styles of a document gives each feature that refers to a shared style which precedes it (and whose own references are to shared styles preceding it) its own resolved copy of that style in place of the reference, beneath the inline style the feature may have, and leaves remote or unresolvable references alone; splitting the inline styles of a document moves the inline style of each feature without a styleUrl to a shared style, under an id no other shared style of the document has, that the feature then refers to (or leaves it in place when the generated id is taken). In both cases every feature resolves to the same style values before and after (ids aside), features and styles within an Update are left alone, and nothing else of the document changes.",
 ["inputs"], "All small documents mixing shared styles, style maps, inline styles and references in any order.",
 "Tests compare a few fixed files.",
 [E+"style_inliner.cc", E+"style_splitter.cc"],
 [("StyleInliner", E+"style_inliner.cc"), ("StyleSplitter", E+"style_splitter.cc")],
 ["kmlengine::InlineStyles", "kmlengine::SplitStyles"])

prop("C14", "The fetch cache is bounded, first-in first-out and fetches once",
 "Over any history of fetch, lookup, save and delete requests, the cache never holds more entries than its size limit; when full, saving a new entry evicts exactly the oldest saved one; an entry present in the cache is returned as the same object without fetching again, and a failed fetch is reported as nothing and stores nothing. Saving under a key already present is refused and keeps the old entry, deleting removes exactly the named entry, and remove-oldest removes exactly the oldest.",
 ["histories", "fault_sequences"], "All histories over a few URLs, all capacities of the bound, fetch failures at any point.",
 "Tests run two short fixed histories.",
 [B+"net_cache.h", B+"memory_file.h"],
 [("NetCache::Fetch/Save/RemoveOldest", B+"net_cache.h")],
 ["kmlbase::NetCache"],
 [("cache_map_", "url to (item, insertion number)", B+"net_cache.h")])

prop("C15", "Links between KML and KMZ resources resolve to the right content",
 "Fetching a link relative to the file that contains it yields the content the two-level rule prescribes: a path inside a KMZ is read from that KMZ, a KMZ without a path yields its first KML entry, a relative link from inside a KMZ is looked up in that KMZ first and then next to it, and anything else is fetched by its resolved URL. Following a NetworkLink or the icon of an overlay of a fetched file is the same fetch with the href of its Link or Icon, and nothing where there is no href or no cache. Each fetched KML file knows the URL it came from, repeated fetches return the cached file without new network requests while it is cached, and missing or unparsable resources yield nothing; fetching always terminates.",
 ["inputs", "histories"], "All small webs of KML and KMZ resources with nested, relative, absolute and missing links, over all fetch histories of the bound.",
 "Tests use one or two fixed virtual file systems.",
 [E+"kml_cache.cc", E+"kmz_cache.cc", E+"kml_uri.cc", E+"kml_uri_internal.h", E+"link_util.cc", E+"link_util.h"],
 [("KmzCache::DoFetchAndReturnUrl", E+"kmz_cache.cc"), ("KmlCache::FetchKmlRelative", E+"kml_cache.cc")],
 ["kmlengine::KmlCache", "kmlengine::KmzCache", "kmlengine::FetchLink", "kmlengine::FetchIcon", "kmlengine::GetHref"])

prop("C16", "A KMZ returns exactly what was put in it",
 "After any sequence of writes to a new KMZ archive, opening it, from disk or from memory, lists exactly the entries written in order and reads each back with identical bytes; the default document is the first entry whose name ends in .kml, and reading an absent entry fails without side effects. Data that is not a zip archive, or is cut short or corrupted, is refused or yields a read failure, never wrong bytes and never a crash. Checking the links of a KMZ reports exactly its relative links that name no entry.",
 ["histories", "inputs", "fault_sequences"], "All write sequences over a few names and binary contents, including truncation and corruption of the archive bytes.",
 "Tests read a few fixed archives.",
 [E+"kmz_file.cc", B+"zip_file.cc"],
 [("ZipFile::GetEntry/AddEntry", B+"zip_file.cc"), ("KmzFile::ReadKml", E+"kmz_file.cc")],
 ["kmlengine::KmzFile", "kmlbase::ZipFile"])

prop("C17", "Packing a KMZ never reaches outside its base directory",
 "When a KMZ is assembled from a document or a list of links, only relative links that stay inside the base directory are read and packed; absolute paths, other hosts, and links that climb out through .. at any position are skipped, counted as errors where errors are counted, and never packed. No entry is ever stored under an absolute path or one that climbs out of the archive, each file is packed once however often it is linked, the document itself is always the first entry, and a file that is not KML is not packed.",
 ["inputs"], "All link texts over the path grammar (., .., repeated slashes, fragments, schemes, absolute and backslash forms) and all lists of them.",
 "Tests try two or three fixed bad paths.",
 [E+"kmz_file.cc", B+"zip_file.cc", E+"href.cc", E+"get_links.cc"],
 [("KmzFile::AddFileList", E+"kmz_file.cc"), ("ZipFile::AddEntry", B+"zip_file.cc")],
 ["kmlengine::KmzFile::CreateFromElement", "kmlengine::KmzFile::AddFileList", "kmlengine::KmzFile::AddFile"])

prop("C18", "URI parsing and resolution follow RFC 3986",
 "Parsing a URI reference and asking for its parts gives exactly the scheme, host, port, path, query and fragment written in it, and re-assembling it gives back the original text. Resolving a reference against an absolute base gives the target RFC 3986 prescribes, normalising removes exactly the dot segments, and splitting a URL at the path segment that names a KMZ gives the KMZ URL and the path inside it. The parts of an href and the fetchable part of a URI are those written in it, and a file name, Unix or Windows, turned into a URI and back is the same name. Setting or clearing a part of an href changes that part only.",
 ["inputs"], "All URI references of the bounded grammar against all base URIs of the bound.",
 "Tests use a fixed list of URIs.",
 [B+"uri_parser.cc", E+"kml_uri.cc", E+"href.cc"],
 [("UriParser", B+"uri_parser.cc"), ("KmzSplit/ResolveUri", E+"kml_uri.cc")],
 ["kmlbase::UriParser", "kmlengine::ResolveUri", "kmlengine::KmzSplit", "kmlengine::SplitUri", "kmlengine::Href"])

prop("C19", "Entity references expand to the feature's own data",
 "For every feature the entity map holds exactly the documented entities: its id, name, address, snippet, description and the untyped and typed extended data values and display names it carries. Expanding text replaces every occurrence of $[entity] for a known entity by its value, everywhere in the text and independently of neighbouring references, leaves unknown references and all other text untouched, and balloon text follows the balloon style template when there is one and the default layout otherwise.",
 ["inputs"], "All features over the relevant slots, all templates over known/unknown references and plain text.",
 "Tests expand a few fixed templates.",
 [E+"entity_mapper.cc", E+"feature_balloon.cc", B+"string_util.cc"],
 [("EntityMapper", E+"entity_mapper.cc"), ("CreateExpandedStrings", B+"string_util.cc")],
 ["kmlengine::EntityMapper", "kmlengine::CreateExpandedEntities", "kmlengine::CreateBalloonText"])

prop("C20", "Computed extents enclose exactly the feature's geometry",
 "The bounding box computed for a feature, container, geometry or coordinate list is the smallest box enclosing all points of its Points, LineStrings, LinearRings, outer boundaries of Polygons, locations of Models and points of PhotoOverlays at any depth of containers and MultiGeometries (latitudes and longitudes within -180 to 180), and none is reported when there is no such point; the reported centre is the middle of that box, and the view computed for a feature or a box looks at that centre, relative to the ground, from 1.1 tan(60 degrees) times the length of half its diagonal, at least 1000 m. Box operations agree with set semantics: expanding by a point or a box gives the smallest box containing both (expanding by the empty box changes nothing), containment holds exactly for points inside or on the border, and aligning a box to a quadtree gives the smallest node, found by dividing at most one time more than the depth limit with the northern and eastern quadrants preferred, that contains it.",
 ["inputs", "histories"], "All small feature trees with integer coordinates and all sequences of box operations.",
 "Tests compute the extent of a few files.",
 [E+"bbox.h", E+"location_util.cc", E+"feature_view.cc"],
 [("Bbox", E+"bbox.h"), ("GetFeatureBounds", E+"location_util.cc")],
 ["kmlengine::Bbox", "kmlengine::GetFeatureBounds", "kmlengine::GetCoordinatesBounds"])

prop("C21", "Traversals and searches reach each element exactly once, in document order",
 "Visiting a feature hierarchy calls the visitor once for each feature reachable through containers, parents before children and siblings in order. Searching by type, and listing the children or descendants of an element, return every matching structured element below it (misplaced ones included) exactly once, in serialization order. The pre-order and post-order visitor drivers visit every element in a child slot (except the atom: and xal: elements) exactly once, next to its descendants and before or after them, repeated children in order. Scanning a text for links returns the value of every href, styleUrl, Alias targetHref and schemaUrl exactly once, in document order; the relative ones are exactly those with a path and without scheme and host; the link parents are every overlay, ItemIcon, IconStyle, NetworkLink and Model, in document order. Counting while parsing counts every recognised element, and saving features while parsing collects every feature below the root that is not a container and not in an Update, in document order, with its references to shared styles given the requested base, and the shared styles by id.",
 ["inputs"], "All trees over the schema up to the bound.",
 "Tests traverse a few fixed trees.",
 [E+"feature_visitor.cc", E+"find.cc", E+"get_links.cc", E+"get_link_parents.cc", D+"visitor_driver.cc", C+"kml_feature_list_saver.h", C+"element_counter.h"],
 [("VisitFeatureHierarchy", E+"feature_visitor.cc"), ("GetElementsById", E+"find.cc"), ("GetLinks", E+"get_links.cc"), ("AcceptChildren", D+"*.cc"), ("KmlFeatureListSaver", C+"kml_feature_list_saver.h")],
 ["kmlengine::VisitFeatureHierarchy", "kmlengine::GetElementsById", "kmlengine::GetChildElements", "kmlengine::GetLinks", "kmlengine::GetLinkParents", "kmldom::SimplePreorderDriver", "kmldom::SimplePostorderDriver", "kmlconvenience::KmlFeatureListSaver", "kmlconvenience::ElementCounter"])

prop("C22", "CSV data becomes the placemarks its rows describe",
 "Splitting CSV data yields one record per non-empty line (lines end with CR, LF or both) and one value per column: surrounding white space outside quotes is dropped, a quoted value keeps commas and white space, a doubled quote stands for one quote, what follows the closing quote is ignored, and empty columns are kept. Parsing rows against the header line (names in any case) gives for each data row, in order and with its number, either a placemark with the point, name, description, ids and extra columns of that row or the matching error status; comment rows, rows with the wrong number of columns and rows whose coordinates do not start with a number are reported and never produce a placemark with content, a header without latitude and longitude is reported, and the handler can stop the parse at any row. Splitting text at a separator gives the pieces between all its occurrences. In the older |-separated form each line of at least score, latitude, longitude, name and description gives one placemark in order, other lines none.",
 ["inputs"], "All CSV texts of the bounded grammar, all header permutations.",
 "Tests parse a few fixed files.",
 [B+"csv_splitter.cc", B+"string_util.cc", C+"csv_parser.cc", C+"csv_file.cc"],
 [("SplitQuotedUsing", B+"string_util.cc"), ("CsvParser", C+"csv_parser.cc")],
 ["kmlbase::CsvSplitter", "kmlconvenience::CsvParser"])

prop("C23", "Regionation puts every feature in exactly one reachable region file",
 "Regionating a feature list writes files such that every located feature appears in exactly one of them, inside a region that contains its position, with at most the requested number of features per file (0: no limit) and higher scored features nearer the root; the root region is the aligned extent of the features and each child region is the quadrant of its parent that its id ends with (NW 0, NE 1, SW 2, SE 3); every written file other than the root is linked from exactly one parent file with the region of the child, and every link points to a written file. Splitting a feature list by a box moves out exactly the first matching features up to the limit and keeps the others, in order, and sorting orders by descending score keeping the order of equal ones. A region handler is asked for each region whose parent has data, children before the parent's feature, and every region that yields a feature is saved once.",
 ["inputs", "histories"], "All small feature lists on an integer grid, all per-file limits, all split histories.",
 "Tests regionate one list and check file existence.",
 [R+"regionator.cc", R+"regionator_util.cc", R+"feature_list_regionator.h", C+"feature_list.cc"],
 [("Regionator::_Regionate", R+"regionator.cc"), ("FeatureList::BboxSplit", C+"feature_list.cc")],
 ["kmlregionator::Regionator", "kmlregionator::FeatureListRegionator", "kmlconvenience::FeatureList"])

prop("C24", "Elements live exactly as long as something refers to them",
 "Over any history of creating, attaching, detaching, parsing, cloning and dropping elements and files, an element stays valid while a smart pointer, a parent or a file refers to it, and all memory is released once nothing does; no history leaks elements, frees one twice or uses one after it was freed.",
 ["histories"], "All reference histories over a few elements up to the bound, followed by dropping everything in any order.",
 "Tests free elements in one fixed order and do not measure leaks.",
 [B+"referent.cc", B+"referent.h", D+"kml_ptr.h", D+"element.h"],
 [("intrusive_ptr_add_ref/release", B+"referent.cc")],
 ["boost::intrusive_ptr of kmldom elements"])

prop("C25", "Type tests and casts agree with the KML type hierarchy",
 "For every element type, creating an element by type, tag name, its own factory function or parse gives an element of that type; it is-a exactly itself and its schema ancestors, a cast succeeds exactly for those types and returns the same element, and casting nothing gives nothing. Tag names and types map to each other one to one, and every enumerated value maps to its text and back.",
 ["configurations"], "All element types crossed with all cast targets, and all enumerated values.",
 "Tests check each class against a few types by hand.",
 [D+"kml_cast.cc", D+"kml_cast.h", D+"kml_factory.cc", D+"xsd.cc", D+"kml22.cc"],
 [("IsA/ElementType per class", D+"*.h"), ("As* casts", D+"kml_cast.cc"), ("CreateElementById", D+"kml_factory.cc")],
 ["kmldom::Element::IsA", "kmldom::As*", "kmldom::KmlFactory", "kmldom::Xsd"])

prop("C26", "A written KML file declares every namespace it uses",
 "Writing a file, to a string or to a stream alike, gives an XML header with the file's encoding followed by the document, in which a namespace-aware XML reader sees every recognised element and field in the namespace of its prefix (KML 2.2 without a prefix, gx, atom, xal), whatever the root, however the file was created and whatever namespace declarations the document had. Reading it back gives the same document.",
 ["inputs"], "All documents over the schema, parsed or imported, with and without namespace declarations of their own.",
 "Tests write a few small files that use one extension namespace each.",
 [E+"kml_file.cc", E+"find_xml_namespaces.cc", D+"element.cc", B+"xml_namespaces.cc"],
 [("XmlNamespaceFinder", E+"find_xml_namespaces.cc"), ("KmlFile::SerializeToString/Ostream", E+"kml_file.cc")],
 ["kmlengine::KmlFile::SerializeToString", "kmlengine::KmlFile::SerializeToOstream"])

prop("C27", "A field is what was last set, else its default, and independent of others",
 "For every element type and every simple field or attribute of it: after any history of set and clear calls on any fields of any elements, has_ tells whether the field was set and not cleared since, get_ gives the value last set or else the default of the KML schema, and no other field or element changes. The serialised element shows exactly the fields that are set, with their values, and copying the element by writing and reading it keeps them.",
 ["histories"], "All field accessors of all element types; set/clear/copy histories over two elements.",
 "Tests set and clear each field once, alone; they do not show that fields do not disturb each other or what a sequence of sets and clears leaves.",
 [D+"feature.h", D+"abstractlatlonbox.h", D+"link.h", D+"balloonstyle.h", D+"*.h"],
 [("has_/get_/set_/clear_ accessors", D+"*.h"), ("Serialize of each class", D+"*.cc")],
 ["kmldom field accessors of every element type"])

prop("C28", "Convenience builders make exactly the element they describe",
 "Each builder of kmlconvenience (points, placemarks, cameras, look-ats, regions, polygons, data, fly-tos, waits, animated updates) and of kmlregionator (closed line round a region's box, link and document with a region, quadrant of a region) gives an element holding exactly its arguments in the right fields and nothing else, leaving its inputs unchanged. Values added to a feature's ExtendedData are found again under the first data of that name, setting one replaces all, a feature's score is the number last set. Simplifying a line drops exactly the points within the tolerance of the point before; a circle has the asked number of points, all at the radius and evenly spread all the way round.",
 ["inputs", "histories"], "All builders over argument combinations, add/set/get histories, lines and circles.",
 "Tests call each builder once or twice with one set of arguments.",
 [C+"convenience.cc", C+"feature_list.cc", E+"feature_view.cc", B+"math_util.cc", R+"regionator_util.cc"],
 [("Create* builders, *ExtendedDataValue, SimplifyCoordinates, CreateCoordinatesCircle", C+"convenience.cc")],
 ["kmlconvenience::Create*", "kmlconvenience::AddExtendedDataValue", "kmlconvenience::SetExtendedDataValue", "kmlconvenience::GetExtendedDataValue", "kmlconvenience::SimplifyCoordinates"])

prop("C29", "Date texts and times correspond one to one",
 "For every date text yyyy-mm-ddThh:mm:ssZ of the years 1 to 9999, before and after 1970 alike, the time is the exact number of seconds of the proleptic calendar since the epoch, and the date, time and date-time written back are the parts of the text. A text that is cut short, has a wrong character or a part out of range (month 1 to 12, day 1 to 31, hour 0 to 23, minute 0 to 59) is refused and has time 0.",
 ["inputs"], "All instants of the years 1-9999 and malformed texts.",
 "Tests convert a handful of dates of this century.",
 [B+"date_time.cc", B+"time_util.cc"],
 [("DateTime::ParseXsdDateTime, GetTimeT, ToTimeT", B+"date_time.cc")],
 ["kmlbase::DateTime"])

prop("C31", "Attribute lists keep exactly the values set",
 "Over any history of creating, setting, getting, cutting, merging, cloning and splitting by prefix, an attribute list maps each name to the value last set for it: get finds exactly that, cut finds and removes it, merge lets the newer list win, a clone is equal and independent, and splitting by a prefix moves exactly the names with that prefix to the new list without it. Names, size and the serialised form agree with that mapping; values of any type read back as set. The namespace declarations in a list are its default namespace and its prefixes, and each known namespace has its prefix and URI.",
 ["histories"], "All histories over three lists up to the bound.",
 "Tests perform each operation once on one list.",
 [B+"attributes.cc", B+"attributes.h"],
 [("Attributes::Create/SetValue/CutValue/MergeAttributes/SplitByPrefix", B+"attributes.cc")],
 ["kmlbase::Attributes"])

prop("C32", "A colour is its four bytes in every form",
 "However a colour is set (KML text with or without # and leading white space, with fewer than eight digits, as a number in either byte order, from four bytes, or byte by byte), reading it in any form (bytes, numbers, texts in aabbggrr or aarrggbb order) gives the same four bytes, changing one byte leaves the others alone, and colours compare as their aabbggrr numbers.",
 ["inputs", "histories"], "All texts and byte values; histories of set operations.",
 "Tests convert a few fixed colours.",
 [B+"color32.h", B+"color32.cc"],
 [("Color32::set_color_abgr, to_string_*", B+"color32.h")],
 ["kmlbase::Color32"])

prop("C30", "Every GPX track point is delivered once, with its own data",
 "Reading a GPX document calls the handler once for each trkpt that has a position (other points are not track points), in document order, with exactly its longitude and latitude, its own altitude if its ele is a number, and the text of its own time; nothing of one point appears in another, and text that is not a number is no position and no altitude.",
 ["inputs"], "All GPX documents, whole or delivered in pieces; points are not nested.",
 "Tests read one well-formed track.",
 [C+"gpx_trk_pt_handler.h", C+"gpx_trk_pt_handler.cc"],
 [("GpxTrkPtHandler::StartElement, EndElement", C+"gpx_trk_pt_handler.cc")],
 ["kmlconvenience::GpxTrkPtHandler"])

prop("C33", "Feeds and service sessions say exactly what the entries and the caller say",
 "Questions of an Atom feed (link or category by suffix, entry by title, content source, search and KML URIs, resource id, features of the entries) are answered from the first entry, link or category that fits; features taken from a feed are unparented clones in entry order which link back to their entry and leave the feed unchanged. A session sends exactly the requests asked for, each with the headers set on it so far in that order and with the service's meta-feed URI, content type and slug; posting a feature sends one entry holding its name, description and the feature, or nothing when its ids are not unique; following next visits each page once until there is none or a request fails; and what a call reports is what the network answered.",
 ["inputs", "histories", "fault_sequences"], "All feeds under any prefixes; histories of operations on a session over a scripted network with failures and malformed answers; next links are not circular; a login answer ends its token with a line end.",
 "Tests use one stored feed per service.",
 [C+"atom_util.cc", C+"http_client.cc", C+"google_maps_data.cc", C+"google_doc_list.cc", C+"google_picasa_web.cc", C+"google_spreadsheets.cc"],
 [("AtomUtil::FindRelUrl, GetFeedFeatures, GetAndParseFeed", C+"atom_util.cc"), ("HttpClient::SendRequest, AddHeader, Login", C+"http_client.cc"), ("GoogleMapsData::AddFeature, PostPlacemarks", C+"google_maps_data.cc")],
 ["kmlconvenience::AtomUtil", "kmlconvenience::HttpClient", "kmlconvenience::GoogleMapsData"])

prop("C34", "The choice of namespace prefixes does not change what a document says",
 "A document of KML and Atom elements parsed with namespaces (ParseNS, ParseAtom) yields the same elements, attributes and text as the same document written with the library's own prefixes, wherever and with whatever prefixes the namespaces are declared; a document that is not well-formed yields nothing and an error.",
 ["inputs"], "All documents of KML and Atom elements under any choice of prefixes.",
 "Tests parse two documents with fixed prefixes.",
 [D+"parser.cc", D+"kml_handler_ns.cc", B+"expat_handler_ns.cc", B+"expat_parser.cc"],
 [("Parser::ParseNS, ParseAtom", D+"parser.cc"), ("ExpatHandlerNs::TranslatePrefixedName", B+"expat_handler_ns.cc")],
 ["kmldom::ParseNS", "kmldom::ParseAtom"])

prop("C35", "A schema file answers for its elements and types as the schema says",
 "From any XML Schema document whose named types are children of the schema, the library reports exactly the global elements and named types with their attributes, sequence, extension or restriction base and enumeration values; an element's type, its child elements with references resolved, a type's base, its chain of bases, the elements derived from a type and the division into abstract, complex and simple elements are those the schema defines. Anonymous types, unknown references, other prefixes, missing namespaces and types that extend each other never crash or hang any question.",
 ["inputs"], "All XML Schema documents (XML Schema as the default namespace) and all names asked for.",
 "Tests use a few fixed schemas without anonymous types, unresolved references or circular extensions.",
 [X+f for f in ("xsd_file.cc", "xsd_file.h", "xsd_handler.cc", "xsd_element.cc", "xsd_complex_type.h", "xsd_simple_type.h", "xsd_schema.h", "xst_parser.cc")],
 [("XsdFile::CreateFromParse", X+"xsd_file.cc"), ("XsdHandler::StartElement, EndElement", X+"xsd_handler.cc"), ("XsdFile::GetTypeHierarchy", X+"xsd_file.cc"), ("XsdSchema::SplitNsName", X+"xsd_schema.h")],
 ["kmlxsd::XsdFile", "kmlxsd::XstParser"])

prop("C36", "A write is reported as successful exactly when all of it is on disk",
 "Whatever happens before and wherever in the write the disk fills up, writing a string to a file, writing a KMZ from KML text, from an element or from a KML file reports success exactly when the whole file or archive was stored, and it then reads back as exactly what was written; otherwise failure is reported. Existence, reading and deletion agree with the history of writes, a shorter write replaces a longer one entirely, names that are directories, empty or below missing directories are refused; a temporary file is new, empty, private to its owner and gone when released; joining and splitting paths lose nothing.",
 ["histories", "inputs", "fault_sequences"], "All histories of file operations over a few names, with the disk full at any byte of any write.",
 "Tests never let a write fail half way.",
 [B+"file.cc", B+"file_posix.cc", B+"tempfile.h", B+"zip_file.cc", E+"kmz_file.cc"],
 [("File::WriteStringToFile", B+"file.cc"), ("ZipFile::AddEntry, Close", B+"zip_file.cc"), ("KmzFile::WriteKmz, CreateFromElement", E+"kmz_file.cc"), ("TempFile", B+"tempfile.h")],
 ["kmlbase::File", "kmlbase::TempFile", "kmlengine::KmzFile::WriteKmz", "kmlengine::KmzFile::CreateFromElement", "kmlengine::KmzFile::CreateFromKmlFilepath"])

prop("C37", "What is read and written does not depend on the locale of the program",
 "Under any C and C++ locale of the calling program, with a decimal comma, digit grouping or other case rules, parsing, serializing, coordinates, fields, attributes, colours, dates, CSV rows, extents, regions, entity expansion, feeds and track points give exactly the results they give in the C locale.",
 ["configurations", "inputs"], "All inputs of the named features under locales that differ from C in decimal point, grouping and case mapping.",
 "Tests only run in the C locale.",
 [B+"string_util.cc", B+"string_util.h", D+"geometry.cc", D+"element.cc", B+"color32.h", B+"date_time.cc"],
 [("FromString, ToString, StringToDouble", B+"string_util.cc"), ("Coordinates::ParseVec3", D+"geometry.cc"), ("Field::SetDouble, SetInt", D+"element.cc")],
 ["kmldom::Parse", "kmldom::SerializePretty", "kmlbase::ToString", "kmlbase::FromString"])

prop("C38", "Distances, directions and points on radials agree with spherical geometry",
 "For every pair of points, also at and across the poles, on the antemeridian, at antipodes and one on the other, the distance and the initial azimuth are those of the great circle between them (finite, symmetric, independent of the choice of the prime meridian, obeying the triangle inequality, the azimuth within (-180, 180]), and the point at a distance on a radial is a point of the sphere that lies at that distance in that direction, further along the same great circle as the distance grows. 3-d distance and elevation combine the ground distance with the difference of altitude, ground distance and height of an inclined vector are its two legs, unit conversions undo each other, and a Vec3 gives back the values and the presence of altitude last set.",
 ["inputs"], "All pairs of points of the sphere, all azimuths and distances up to the whole circle, all altitudes.",
 "Tests sample a few points in California; degenerate points (poles, antipodes, coincident points) are where floating point leaves the domain of acos and asin.",
 [B+"math_util.cc", B+"math_util.h", B+"vec3.h"],
 [("AzimuthBetweenPoints, DistanceBetweenPoints, LatLngOnRadialFromPoint", B+"math_util.cc"), ("Vec3", B+"vec3.h")],
 ["kmlbase::DistanceBetweenPoints", "kmlbase::AzimuthBetweenPoints", "kmlbase::ElevationBetweenPoints", "kmlbase::LatLngOnRadialFromPoint", "kmlbase::Vec3"])

prop("C39", "The text helpers keep their contract for every text",
 "For every text and separator splitting ends and gives pieces that, joined with the separator, are the text and do not contain it; a text ends with another, equals another without regard to ASCII case, or starts like a decimal number exactly when it does; leading white space is skipped and nothing else; numbers, whole numbers and booleans are read as the value their text denotes and written as text that reads back as the same value; every $[key] reference (or other marks) to a key of a map is replaced by its value once, and everything else is kept.",
 ["inputs"], "All texts, separators, numbers, maps and marks.",
 "Tests sample a few texts; overlapping marks, separators at the ends, empty arguments and lone signs are not among them.",
 [B+"string_util.cc", B+"string_util.h"],
 [("SplitStringUsing, StringEndsWith, StringCaseEqual, StringToDouble, CreateExpandedStrings", B+"string_util.cc"), ("FromString, ToString", B+"string_util.h")],
 ["kmlbase::SplitStringUsing", "kmlbase::CreateExpandedStrings", "kmlbase::StringToDouble", "kmlbase::ToString", "kmlbase::FromString"])

prop("C40", "Schemas are found by name and their instances become Placemarks",
 "After a parse the schema observer's map holds exactly the named Schemas that are children of a Document, under each name the last one. With such a map, an unknown element named like one of its schemas that is found in a container below the root becomes one further Placemark of that container with the element's attributes and content, in document order after the container's own features, and everything else is read as without the observer. Converting the text of one element gives that Placemark's text exactly when the element's name is in the map, whatever its attributes and nested elements; otherwise it fails and leaves the output alone, and no text crashes it.",
 ["inputs"], "All documents with Schemas and instances at any place, and all texts of single elements (with a start and an end tag).",
 "Tests sample one schema and one flat instance; attributes, nested namesakes, equal names and several documents are not among them.",
 [E+"parse_old_schema.cc", E+"old_schema_parser_observer.h", E+"schema_parser_observer.h"],
 [("ConvertOldSchema, ParseOldSchema", E+"parse_old_schema.cc"), ("OldSchemaParserObserver::AddChild", E+"old_schema_parser_observer.h"), ("SchemaParserObserver::AddChild", E+"schema_parser_observer.h")],
 ["kmlengine::ConvertOldSchema", "kmlengine::ParseOldSchema", "kmlengine::SchemaParserObserver", "kmlengine::OldSchemaParserObserver"])

if __name__ == "__main__":
    for p in P: print(json.dumps(p))
