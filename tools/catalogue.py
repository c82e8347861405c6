NOT_APPLICABLE = {}
SAMPLED = ('Held on every execution of the run (counts in the evidence file); sampled inputs, so it is evidence and not proof. '
           'Trusts the sanitizer runtimes, Python\'s expat binding and the reference model in the monitor.')

prop('C01', 'No KML text corrupts, crashes or hangs the library',
     'Whatever bytes are handed to the parsers (plain, namespace-aware, atom, whole-file, stream), the call ends with a document or a NULL '
     'result, without invalid memory access, undefined behaviour, use of uninitialised values, abort or endless loop. The same holds for '
     'everything a user does next with an accepted document: serialize, clone, merge, resolve, split and inline styles, find ids and links, '
     'compute bounds, expand balloons, apply its updates. Every document accepted is serialized as well-formed XML.',
     ['inputs'], 'all byte strings as KML text, and all consumers of the resulting documents',
     'Robustness against hostile text is a statement about every input; tests use well-formed samples.',
     ['src/kml/dom/kml_handler.cc', 'src/kml/base/expat_parser.cc', 'src/kml/engine/*.cc', 'src/kml/dom/*.cc'],
     [('expat callbacks and element stack', 'src/kml/dom/kml_handler.cc'), ('consumers of parsed documents', 'src/kml/engine')],
     'mutation fuzzing under ASan/UBSan, a subset under valgrind memcheck, output judged by an independent XML reader', SAMPLED)

prop('C03', 'Parse and serialize round trip loses nothing',
     'Any valid KML document, in whatever child order and spelling it is written, keeps every recognised element, attribute and value through '
     'parse, serialize and parse again, and documents built through the API likewise. Output always lists children in schema order, every '
     'value reads back equal (numbers to 15 significant digits; the text of Snippet, linkSnippet and SimpleData up to surrounding whitespace '
     'in indented output), raw and indented output denote the same document, and serializing does not change the document.',
     ['inputs', 'configurations'], 'all KML documents over every element class, both serialization styles, parsed or API-built',
     'The tests check a few literal documents per element; combinations of fields, orders and spellings are unbounded.',
     ['src/kml/dom/*.cc', 'src/kml/dom/xml_serializer.h', 'src/kml/dom/kml_handler.cc'],
     [('per-element AddElement/Serialize pairs', 'src/kml/dom/*.cc'), ('schema ordering', 'src/kml/dom/serializer.h')],
     'randomised runs under ASan/UBSan with a reference model and an independent XML reader as oracle', SAMPLED)

prop('C04', 'Serialized output is well-formed and carries strings exactly',
     'Whatever strings are set through the API (any Unicode text XML can represent, including markup, CDATA markers, entities, quotes and '
     'control whitespace), in element content, attributes or extra attributes, the raw, indented and whole-file outputs are well-formed XML '
     'from which any conforming XML reader recovers exactly those strings. The whole-file output declares every namespace prefix it uses.',
     ['inputs'], 'all strings in every string field and attribute of every element class',
     'Escaping is tested on a handful of strings; the interaction of quoting, CDATA and buffers depends on the content.',
     ['src/kml/dom/xml_serializer.h', 'src/kml/dom/element.cc', 'src/kml/base/xml_namespaces.cc', 'src/kml/engine/find_xml_namespaces.cc'],
     [('MaybeQuoteString / attribute escaping', 'src/kml/dom/serializer.cc'), ('namespace discovery', 'src/kml/engine/find_xml_namespaces.cc')],
     'hostile-string workload under ASan/UBSan, output judged by an independent XML reader', SAMPLED)

prop('C05', 'Unknown and misplaced content is preserved',
     'Elements and attributes which the library does not know, and known elements found where their parent does not define them, survive parse '
     'and serialization at the same parent with their names, attributes, text and nested content, in their order, at any depth and beside any '
     'known content (text-only elements excepted: coordinates, Snippet, linkSnippet and SimpleData hold only their text; an element of a single value only that value; markup in a description is kept as its text). They never alter how '
     'the known content is read, and a copy made by cloning keeps them as well.',
     ['inputs'], 'every parent and child pairing, every foreign subtree and attribute at any position of any document',
     'Tests cover two or three unknown elements; the pairing of parents, children and nesting is large.',
     ['src/kml/dom/kml_handler.cc', 'src/kml/dom/kml_handler_ns.cc', 'src/kml/dom/element.cc', 'src/kml/engine/clone.cc'],
     [('unknown element stringification', 'src/kml/dom/kml_handler.cc'), ('misplaced and unknown arrays', 'src/kml/dom/element.h')],
     'exhaustive parent/child pairs and random documents under ASan/UBSan, judged by an independent XML reader', SAMPLED)

prop('C06', 'Coordinate text becomes exactly its points',
     'Every coordinate string of comma-joined tuples of two or three decimal numbers, separated by any whitespace, at any length and number '
     'spelling, yields one point per tuple, in order, with the exact double values and with an altitude present only where one was written. '
     'Blank text yields no points, gx:coord and gx:angles text is read likewise, and points written out are read back equal to 15 digits.',
     ['inputs'], 'all coordinate strings of the documented grammar',
     'Tests parse a few short strings; whitespace, spelling and length variants are unbounded and the parser scans raw memory.',
     ['src/kml/dom/geometry.cc', 'src/kml/dom/gx_tour.cc'],
     [('Coordinates::ParseVec3 scanning', 'src/kml/dom/geometry.cc')],
     'grammar-driven workload under ASan/UBSan with the generating point list as oracle', SAMPLED)

prop('C07', 'A clone is equal to its original and shares nothing with it',
     'Cloning any element, from any document and in any state, yields an element of the same class whose fields, children, coordinates, '
     'attributes, unknown and misplaced content and serialized form equal those of the original (numbers to 15 significant digits). The original '
     'is unchanged, the clone has no parent and its descendants have their parent within the clone. No later change to either side is visible on '
     'the other, and destroying one leaves the other intact.',
     ['inputs', 'histories'], 'all element trees over every class, and all edit histories after the copy',
     'Tests clone one or two elements of a few classes and compare a few fields.',
     ['src/kml/engine/clone.cc', 'src/kml/dom/serializer.h', 'src/kml/dom/*.cc'],
     [('ElementReplicator', 'src/kml/engine/clone.cc')],
     'random documents and edit histories under ASan/UBSan; dump of both sides and object identities compared', SAMPLED)

prop('C16', 'Ownership: one parent per element, no dangling pointer, no leak',
     'An element accepts at most one parent and a document never holds an element twice or forms a cycle; an attempt to attach an element which '
     'already has a parent, or below itself, is refused and changes nothing; an element taken out of its parent has none and can be attached again. Every element stays valid as long as a handle or its parent holds it, reports its '
     'true parent or none, and outlives its document when a handle to it remains. When the last handle is gone everything is released, for '
     'every history of edits and every parsed, resolved, cloned, updated or packaged document, accepted or rejected.',
     ['histories', 'inputs'], 'all sequences of create, attach, replace, remove, release, clone and import; all documents',
     'Reference-count errors appear only in particular histories and are invisible without instrumentation.',
     ['src/kml/base/referent.h', 'src/kml/dom/element.h', 'src/kml/dom/element.cc', 'src/kml/dom/*.h', 'src/kml/dom/kml_handler.cc'],
     [('SetComplexChild/AddComplexChild and SetParent', 'src/kml/dom/element.h'), ('intrusive reference count', 'src/kml/base/referent.h')],
     'random histories under ASan with an ownership model, heap balance per case and LeakSanitizer', SAMPLED)

prop('C24', 'Walkers, finders, visitors and id tools meet every element exactly once',
     'For every document, listing child elements (direct or all), finding elements by concrete or abstract type, visiting in preorder or '
     'postorder, visiting features, counting tags, collecting namespaces and mapping ids each report exactly the elements the document holds, '
     'once each, in schema order of the tree. The last object with an id owns it and the earlier ones are reported as duplicates; clearing ids '
     'removes every id, and remapping gives every mapped object exactly its new id and removes the others, with nothing else changed.',
     ['inputs'], 'all documents over every element class, with any distribution of ids',
     'Tests walk small fixed trees; a class which forgets one child in its serialize or accept method goes unnoticed.',
     ['src/kml/engine/find.cc', 'src/kml/engine/id_mapper.cc', 'src/kml/dom/visitor_driver.cc', 'src/kml/dom/visitor.cc',
      'src/kml/engine/feature_visitor.cc', 'src/kml/engine/find_xml_namespaces.cc', 'src/kml/convenience/element_counter.h'],
     [('Serialize-driven finders', 'src/kml/engine/find.cc'), ('AcceptChildren of each class', 'src/kml/dom/*.cc'),
      ('id maps', 'src/kml/engine/id_mapper_internal.h')],
     'random documents under ASan/UBSan; every walk compared with the generating model', SAMPLED)

prop('C26', 'Every field is an independent variable with the KML default',
     'For every class and field, an element freshly created reports the field absent with the KML default value, a set value is reported '
     'present and read back exactly whatever the value, and clearing restores absence and the default. No sequence of accessor calls on one field '
     'changes another one, arrays keep their elements in order of addition, with removal by position returning exactly that element. A setter '
     'given a null or already owned child leaves the state defined: null clears, an owned child is refused.',
     ['histories', 'inputs'], 'all sequences of accessor calls on every class, with all values',
     'Tests touch each accessor once with one value in one order.',
     ['src/kml/dom/*.h', 'src/kml/dom/element.h'],
     [('accessor families of every class', 'src/kml/dom/*.h')],
     'random accessor histories under ASan/UBSan compared after each call with a model of independent fields', SAMPLED)

prop('C08', 'Whole-file indexes of ids, shared styles and links are exact',
     'A file parsed or imported finds for every id exactly the object holding it (the last one where it is repeated, which strict import refuses), '
     'lists as shared styles exactly the StyleSelectors with an id which are children of a Document, and as link parents exactly the elements '
     'which may hold an href, each being an element of that document. The link lists hold every href, styleUrl, targetHref and schemaUrl in '
     'document order, and the relative ones exactly the relative ones, without their fragment. Unknown content never enters an index.',
     ['inputs'], 'all documents with any distribution of ids, styles and links',
     'Tests look up a few ids in small files; duplicates, nesting and order interact.',
     ['src/kml/engine/kml_file.cc', 'src/kml/engine/shared_style_parser_observer.h', 'src/kml/engine/object_id_parser_observer.h',
      'src/kml/engine/get_link_parents.h', 'src/kml/engine/get_links.cc', 'src/kml/engine/href.cc', 'src/kml/engine/id_mapper.cc'],
     [('KmlFile::ParseFromString / CreateFromImport', 'src/kml/engine/kml_file.cc'), ('link observers', 'src/kml/engine/get_links.cc')],
     'random files under ASan/UBSan; each index compared with the text as read by an independent XML reader', SAMPLED)

prop('C09', 'A resolved style is the KML combination of shared and inline styles',
     'For every feature and both states, the resolved style holds exactly the fields of the shared style its styleUrl names, found in the same '
     'file or in a remote KML or KMZ, with style maps followed through their pair for the state, overridden field by field by the feature\'s '
     'inline style. A missing, malformed or unreachable reference contributes nothing, cycles and long chains end (at the documented nesting '
     'limit), and resolving changes neither the feature nor the shared styles.',
     ['inputs', 'configurations'], 'all graphs of style references over local and remote files, both states',
     'The tests resolve a few fixed chains; the number of reference graphs, states and file layouts is unbounded.',
     ['src/kml/engine/style_resolver.cc', 'src/kml/engine/style_merger.cc', 'src/kml/engine/merge.cc', 'src/kml/engine/kml_cache.cc'],
     [('StyleMerger recursion', 'src/kml/engine/style_merger.cc'), ('MergeElements', 'src/kml/engine/merge.cc')],
     'random worlds of files under ASan/UBSan, compared with a reference model of style resolution', SAMPLED)

prop('C10', 'Splitting and inlining styles keep every resolved style',
     'SplitStyles moves each inline style of a feature without styleUrl into the first Document as a shared style with a fresh id which the '
     'feature then references, and InlineStyles replaces each local styleUrl whose shared style came earlier in the text by that style resolved '
     'for both states and removes the shared styles. For styles given in schema order every feature keeps its resolved style in both states '
     '(for inlining, of features with one of styleUrl and inline Style), and nothing else of the document changes, nor anything within an Update.',
     ['inputs'], 'all documents with any arrangement of containers, shared, inline and mapped styles, and updates',
     'Tests transform a few small documents; ids, nesting, updates and style maps combine freely.',
     ['src/kml/engine/style_splitter.cc', 'src/kml/engine/style_inliner.cc', 'src/kml/engine/style_resolver.cc'],
     [('StyleSplitter observer', 'src/kml/engine/style_splitter.cc'), ('StyleInliner observer', 'src/kml/engine/style_inliner.cc')],
     'random documents under ASan/UBSan; output compared with a reference transformation, resolved styles compared before and after', SAMPLED)

prop('C11', 'An update does exactly what its operations say',
     'Applying any history of updates to a file merges each Change into the object its targetId names (keeping its id), appends copies of the '
     'features of each Create to the container it names and removes each feature a Delete names, in the order given. Targets which are missing, '
     'deleted before or unsuitable, and targetIds an id map does not hold, are ignored; everything else of the document and the update itself '
     'stay as they were and share no element.',
     ['histories', 'inputs'], 'all documents and all sequences of update operations on objects the file was loaded with, with or without id map',
     'Tests apply single operations to small files; effects of sequences, deleted targets and id maps are not sampled.',
     ['src/kml/engine/update_processor.cc', 'src/kml/engine/update.cc', 'src/kml/engine/merge.cc', 'src/kml/dom/container.cc'],
     [('UpdateProcessor', 'src/kml/engine/update_processor.cc')],
     'random update histories under ASan/UBSan; the whole document compared with a model after each update', SAMPLED)

prop('C22', 'Merging sets what the source has and keeps the rest',
     'Merging fields or elements sets every value present in the source, at every depth, in the target, with the text of snippets and the points '
     'of coordinates replaced as a whole and simple arrays appended, keeps every value the source does not have, and copies children the target '
     'lacks. The source is unchanged, source and target share no element, elements misplaced in the source have no effect on the target\'s '
     'fields, and fields common to different element types carry over.',
     ['inputs'], 'all pairs of elements of every class with no repeated child element common to both, and pairs of related classes',
     'Tests merge a few pairs with a few fields.',
     ['src/kml/engine/merge.cc', 'src/kml/engine/find.cc', 'src/kml/engine/clone.cc'],
     [('FieldMerger and MergeElements', 'src/kml/engine/merge.cc')],
     'random pairs under ASan/UBSan compared with a reference model of merging', SAMPLED)

prop('C02', 'No KMZ bytes crash, corrupt or hang the library or yield damaged data',
     'For every byte sequence given as a KMZ, opening, listing, reading by name, reading the default document, saving, parsing and fetching '
     'through the caches end without memory error, undefined behaviour, leak or hang. Every non-empty entry of a valid archive (name under 256 '
     'bytes) is read back byte for byte and the default document is the first .kml; an entry is refused, with no data, if it is missing, empty, '
     'larger than the limit set or its bytes do not match the checksum.',
     ['inputs'], 'all byte sequences as KMZ archive; sampled over field-wise hostile and byte-wise damaged archives',
     'Tests open a handful of well-formed archives and one or two broken ones.',
     ['src/kml/base/zip_file.cc', 'src/kml/base/contrib/minizip/unzip.c', 'src/kml/engine/kmz_file.cc', 'src/kml/engine/kmz_cache.cc'],
     [('ZipFile::GetEntry', 'src/kml/base/zip_file.cc'), ('minizip reader', 'src/kml/base/contrib/minizip/unzip.c')],
     'archives built field by field, valid, hostile and damaged, read in every way under ASan/UBSan/LSan; results compared with what was packed', SAMPLED)

prop('C12', 'A KMZ holds exactly what was packaged, nothing from outside its base',
     'Every archive created by the library reads back, by the library and by any ZIP reader, as exactly the entries added, in order, with their '
     'bytes; packaging a KML file adds the document first and then each file below the base which it links to, once, in link order. No link, '
     'however spelled (dot segments, backslashes, absolute, percent-encoded), brings in a file from outside the base directory or an entry name '
     'which leads outside, and links which are missing or not permitted are counted as errors; where writing fails for lack of space or permission, or the file is no KML, the call says so.',
     ['inputs', 'fault_sequences'], 'all sets of entries, links and file trees, and write failures at any size',
     'Tests package a few fixed trees and never run out of space.',
     ['src/kml/engine/kmz_file.cc', 'src/kml/base/zip_file.cc', 'src/kml/base/file_posix.cc', 'src/kml/engine/get_links.cc'],
     [('KmzFile::AddFileList / CreateFromElement', 'src/kml/engine/kmz_file.cc'), ('ZipFile::AddEntry', 'src/kml/base/zip_file.cc')],
     'random trees, links and injected file-size limits under ASan/UBSan; archives read back by an independent ZIP reader and compared with a model', SAMPLED)

prop('C13', 'Instances of an old-style Schema become Placemarks with their data',
     'In a document with a Schema which has a parent, every element named after it, at any place and in any number, is read as a Placemark '
     'whose fields known to the Schema become SimpleData under one SchemaData, in order, with their text; all other content of the instance '
     'and of the rest of the document, other Schemas included, is read as if the instance were written as such a Placemark. Of several such '
     'Schemas the last one read before an element counts.',
     ['inputs'], 'all documents with one old-style Schema followed by its instances within containers',
     'Tests convert two or three instances.',
     ['src/kml/dom/kml_handler.cc', 'src/kml/engine/parse_old_schema.cc'],
     [('old schema conversion', 'src/kml/dom/kml_handler.cc')],
     'random documents under ASan/UBSan; the tree compared with that of the converted document', SAMPLED)

prop('C14', 'The caches return what was fetched, stay in bounds and fetch only if needed',
     'Through every history of fetches, saves, deletions and changes on the network, a cache returns for a URL what the network or the caller '
     'last gave for it since it was last absent, never holds more than its limit, drops the oldest entry first, and asks the network exactly when the '
     'URL is not cached. References are resolved against their base, first within the KMZ of the base and then beside it; a fetch which '
     'fails, or data which is not usable, is reported as such and leaves the cached items alone.',
     ['histories'], 'all histories of cache operations with limits from 1, over networks of KML, KMZ, data and missing files',
     'Tests fetch a handful of URLs in a fixed order.',
     ['src/kml/base/net_cache.h', 'src/kml/engine/kml_cache.cc', 'src/kml/engine/kmz_cache.cc', 'src/kml/engine/kml_uri_internal.h'],
     [('NetCache', 'src/kml/base/net_cache.h'), ('KmlCache', 'src/kml/engine/kml_cache.cc'), ('KmzCache', 'src/kml/engine/kmz_cache.cc')],
     'random histories under ASan/UBSan against a recorded network; results, sizes and the request log compared with a model after each operation', SAMPLED)

prop('C15', 'URI, href and file name functions follow RFC 3986 and undo each other',
     'For every URI, resolution against a base, splitting into components, the fetchable part, normalization (same meaning, no dot segments) and the '
     'target of a Model alias are those of RFC 3986, and text which is no URI is refused. A URL splits at the first path segment ending in '
     '.kmz, an href into scheme, host, path and fragment which compose it, file names of any characters turn into clean URIs and back, '
     'and paths join and split as POSIX paths do.',
     ['inputs'], 'all URIs and references (without empty path segments), hrefs, file names and byte strings',
     'Tests hold some dozens of literal URIs.',
     ['src/kml/base/uri_parser.cc', 'src/kml/engine/kml_uri.cc', 'src/kml/engine/href.cc', 'src/kml/base/file.cc'],
     [('ResolveUri, NormalizeUri, KmzSplit', 'src/kml/engine/kml_uri.cc'), ('Href::Parse', 'src/kml/engine/href.cc'), ('UriParser', 'src/kml/base/uri_parser.cc')],
     'grammar-generated and damaged URIs under ASan/UBSan compared with a direct implementation of RFC 3986', SAMPLED)

prop('C17', 'String, stream, chunked and observed parsing agree; observers see every event',
     'A text gives the same document, or is refused with an error message, whether parsed from a string, a stream, in chunks of any size, with any number '
     'of observers, or by a parser used for other texts before; a stream which breaks off is refused. Each observer is told of every element beginning and of every child ending and added, '
     'in document order with its proper parent; an observer which stops the parse gets no further events and no document, and a child it '
     'refuses is left out while all else stays.',
     ['inputs', 'schedules'], 'all texts, chunkings, points of failure of the stream and observer decisions',
     'Tests use one document with one observer and whole buffers.',
     ['src/kml/base/expat_parser.cc', 'src/kml/dom/kml_handler.cc', 'src/kml/engine/kml_stream.cc', 'src/kml/dom/kml_funcs.h'],
     [('KmlHandler', 'src/kml/dom/kml_handler.cc'), ('KmlStream::ParseFromIstream', 'src/kml/engine/kml_stream.cc')],
     'recording observers under ASan/UBSan; event traces and trees compared across entry points and with an independent reading of the text', SAMPLED)

prop('C18', 'Exactly the acceptable documents are accepted, in any encoding or prefixing',
     'A text is accepted if and only if it is well-formed XML with a KML root element, nests at most 100 deep and declares no entity, by every '
     'entry point alike; a refused text comes with an error message. The encoding (UTF-8, UTF-16, Latin-1, ASCII, with or '
     'without byte-order mark) makes no difference, nor does the prefix bound to the KML namespace for the namespace-aware parser or '
     'those bound to Atom and KML for the Atom parser.',
     ['inputs'], 'all texts; all prefixes and supported encodings',
     'Tests have a few malformed samples; limits and encodings are hit at one or two points.',
     ['src/kml/base/expat_parser.cc', 'src/kml/base/expat_handler_ns.cc', 'src/kml/dom/kml_handler_ns.cc', 'src/kml/dom/kml_handler.cc', 'src/kml/dom/kml_funcs.h'],
     [('root check and nesting limit', 'src/kml/dom/kml_handler.cc'), ('entity declarations', 'src/kml/base/expat_parser.cc'), ('namespace mapping', 'src/kml/base/expat_handler_ns.cc')],
     'generated, nested and damaged texts under ASan/UBSan; acceptance and trees compared with an independent parser', SAMPLED)

prop('C19', 'Bounds, centres, views and spherical geometry are right for all points',
     'The bounds of a feature or geometry enclose exactly its points (their minima and maxima), through any nesting, and there are none if it has '
     'no point; its centre is the middle of them and a computed LookAt looks there from far enough to see them. Bounding boxes contain, expand, '
     'split and align to the quadtree as sets of points do, and distances, azimuths, elevations and radials agree with each other and with geometry on the sphere.',
     ['inputs'], 'all features, geometries, boxes and pairs of points',
     'Tests have a dozen literal points.',
     ['src/kml/engine/location_util.cc', 'src/kml/engine/bbox.h', 'src/kml/engine/feature_view.cc', 'src/kml/base/math_util.cc'],
     [('GetFeatureBounds', 'src/kml/engine/location_util.cc'), ('Bbox', 'src/kml/engine/bbox.h'), ('ComputeFeatureLookAt', 'src/kml/engine/feature_view.cc'),
      ('AzimuthBetweenPoints, LatLngOnRadialFromPoint', 'src/kml/base/math_util.cc')],
     'random geometry under ASan/UBSan; results compared with minima and maxima over the points and with vector geometry', SAMPLED)

prop('C20', 'CSV and GPX data become exactly the placemarks and points they hold',
     'Every CSV row with a latitude and a longitude becomes one Placemark with its position, name, description, id, style and all other columns as '
     'data, in order, whatever the quoting, column order, letter case and line ends; every other row is reported with its line and the reason, '
     'and the handler can stop at any row. Pipe-separated files give one feature per line with its score, and every GPX track point with '
     'a position is passed on once with its own elevation and time.',
     ['inputs'], 'all CSV, pipe-separated and GPX texts, and all points at which the handler stops',
     'Tests use a few rows and a single track.',
     ['src/kml/convenience/csv_parser.cc', 'src/kml/convenience/csv_file.cc', 'src/kml/convenience/gpx_trk_pt_handler.h', 'src/kml/base/csv_splitter.cc', 'src/kml/base/string_util.cc'],
     [('CsvParser::ParseCsv', 'src/kml/convenience/csv_parser.cc'), ('GpxTrkPtHandler', 'src/kml/convenience/gpx_trk_pt_handler.h'), ('SplitQuotedUsing', 'src/kml/base/string_util.cc')],
     'random tables and tracks under ASan/UBSan; the recorded handler calls compared with a model of the table', SAMPLED)

prop('C21', 'Regionation places every feature once, inside its region, in a linked tree',
     'Regionating a list of features writes each feature with a location into exactly one file whose region contains it, at most the given number per '
     'file and higher scores nearer to the root; the files form one tree of links from the root, each region a quadrant of its parent, and progress is '
     'reported once per file up to the end. For any handler, each region is asked about, visited and saved once, children before parents; '
     'splitting and sorting a feature list neither loses nor repeats a feature.',
     ['inputs', 'histories'], 'all lists of features and limits, all handler decisions, all sequences of list operations',
     'Tests regionate one or two fixed lists.',
     ['src/kml/regionator/regionator.cc', 'src/kml/regionator/regionator_util.cc', 'src/kml/regionator/feature_list_region_handler.cc', 'src/kml/convenience/feature_list.cc',
      'src/kml/regionator/feature_list_regionator.h'],
     [('Regionator::_Regionate', 'src/kml/regionator/regionator.cc'), ('FeatureList::BboxSplit', 'src/kml/convenience/feature_list.cc')],
     'recording region handlers and files read back under ASan/UBSan; exactly-once, containment and tree checkers over the recorded trace and files', SAMPLED)

prop('C23', "Numbers keep their value through text; the caller's locale changes nothing",
     'Every double set or read is written as a decimal number equal to it to 15 significant digits, and reading that text gives the same number and the same '
     'text again; decimal text of any length and spelling is read as the nearest double, and integers are kept exactly. Whatever the C or C++ locale of the '
     'process, every operation gives the same results as in the plain one, and the locale is left as it was.',
     ['inputs', 'configurations'], 'all finite doubles of ordinary magnitude, all 32-bit integers, all C and C++ locales',
     'Tests run in the C locale with a few short numbers.',
     ['src/kml/base/string_util.cc', 'src/kml/base/string_util.h', 'src/kml/dom/serializer.h', 'src/kml/dom/geometry.cc', 'src/kml/regionator/regionator.cc'],
     [('ToString and FromString', 'src/kml/base/string_util.cc'), ('Vec3 reading and writing', 'src/kml/dom/geometry.cc')],
     'random doubles, and the workloads and oracles of twelve other properties, run under ASan/UBSan within hostile locales', SAMPLED)

prop('C25', 'Threads working on documents of their own do not interfere',
     'Any number of threads may read, build, change, query, merge, resolve and write documents of their own at the same time, from the very first use of the '
     'library on: there is no data race, and each gets exactly the results it gets when it runs alone.',
     ['schedules', 'programs'], 'all schedules of threads which share no document, cache or other object',
     'Tests are single-threaded.',
     ['src/kml/dom/kml_factory.cc', 'src/kml/dom/xsd.cc', 'src/kml/dom/kml_handler.cc', 'src/kml/base/expat_parser.cc', 'src/kml/base/referent.cc', 'src/kml/engine/*.cc'],
     [('KmlFactory::GetFactory', 'src/kml/dom/kml_factory.cc'), ('Xsd::GetSchema', 'src/kml/dom/xsd.cc')],
     'ThreadSanitizer over the operation sequences of other properties run in parallel threads with random delays and colliding first uses; outputs compared with sequential runs', SAMPLED)

prop('C27', 'Colours, times and attribute sets keep their value between text and number',
     'A colour read from any hexadecimal spelling, built from its components or copied component by component has exactly the given components and is written as the same '
     'eight digits, in aabbggrr or aarrggbb order as asked. A date and time is the same moment as a number of seconds, as XML date, time and dateTime, for every year; text which is no '
     'date is refused. An attribute set holds each name once with its last value, and splitting it by prefix, copying and writing it lose nothing.',
     ['inputs'], 'all 32-bit colours and their spellings, all date texts, all lists of attributes',
     'Tests check a handful of colours, two dates and small attribute lists.',
     ['src/kml/base/color32.h', 'src/kml/base/date_time.cc', 'src/kml/base/attributes.cc', 'src/kml/base/attributes.h'],
     [('Color32::set_color_abgr', 'src/kml/base/color32.h'), ('DateTime::GetTimeT', 'src/kml/base/date_time.cc'), ('Attributes::SplitByPrefix', 'src/kml/base/attributes.cc')],
     'random and boundary values under ASan/UBSan, every observer compared with an independent model (Python integers and calendar)', SAMPLED)

prop('C28', 'The XSD reader describes exactly the schema it was given',
     'For every well-formed schema text the XSD reader lists exactly its global elements and named types, each with its attributes, kind, children, enumeration values, base type '
     'and whole derivation chain, resolves exactly the references into the target namespace, and keeps the aliases of an XST file. Text which is not well-formed is refused with an error, '
     'and no schema, whatever its nesting, missing parts or circular derivations, crashes or hangs the reader or a query.',
     ['inputs'], 'all schema texts and all queries on them',
     'Tests build small schemas by hand, without anonymous types, cycles or missing namespaces.',
     ['src/kml/xsd/xsd_file.cc', 'src/kml/xsd/xsd_handler.cc', 'src/kml/xsd/xsd_element.cc', 'src/kml/xsd/xsd_schema.h', 'src/kml/xsd/xsd_primitive_type.cc', 'src/kml/xsd/xst_parser.cc'],
     [('XsdFile::CreateFromParse', 'src/kml/xsd/xsd_file.cc'), ('XsdFile::GetTypeHierarchy', 'src/kml/xsd/xsd_file.cc'), ('XsdHandler::StartXsElement', 'src/kml/xsd/xsd_handler.cc')],
     'generated and damaged schemas under ASan/UBSan with a time limit; every query answer compared with the model the schema was written from', SAMPLED)

prop('C29', 'The convenience functions build, find and save what they promise',
     'Each constructor function (points, placemarks, cameras, regions, tours, updates) yields exactly the KML its arguments describe; extended data and scores read back as last set or first added; '
     'a circle has its points at the radius and evenly round it; simplification keeps exactly the points farther than the tolerance from their predecessor. '
     'The feature saver takes out exactly the features and shared styles of a document, rebasing local style references, the element counter counts each element, the link checker names exactly the missing relative links of a KMZ, and Atom '
     'helpers find, copy and post exactly the features, links and categories of a feed without changing it.',
     ['inputs', 'histories'], 'all arguments, documents, archives and feeds, and all histories of extended-data calls',
     'Tests call each function once or twice.',
     ['src/kml/convenience/convenience.cc', 'src/kml/convenience/atom_util.cc', 'src/kml/convenience/google_maps_data.cc', 'src/kml/convenience/kml_feature_list_saver.h',
      'src/kml/convenience/element_counter.h', 'src/kml/convenience/kmz_check_links.cc', 'src/kml/convenience/feature_list.cc'],
     [('CreateCoordinatesCircle', 'src/kml/convenience/convenience.cc'), ('KmlFeatureListSaver::EndElement', 'src/kml/convenience/kml_feature_list_saver.h'), ('AtomUtil::CloneEntryFeature', 'src/kml/convenience/atom_util.cc')],
     'random calls and documents under ASan/UBSan; results compared with KML text written from the arguments, HTTP posts recorded', SAMPLED)

prop('C30', 'Balloon text and entities expand from the right feature data',
     'Expanding a text replaces every reference to a known entity, wherever and however often it stands, by its value and leaves every other character alone. The entities of a feature are '
     'exactly its id, its fields and its typed and untyped extended data, named and labelled by their own schema. Balloon text is the expanded text of the resolved style, or else built from the name, '
     'description and extended data of the feature.',
     ['inputs'], 'all texts, entity sets and features with extended data, schemas and styles',
     'Tests expand a few short strings and one feature with each kind of data.',
     ['src/kml/engine/feature_balloon.cc', 'src/kml/engine/entity_mapper.cc', 'src/kml/base/string_util.cc'],
     [('CreateBalloonText', 'src/kml/engine/feature_balloon.cc'), ('EntityMapper::GetEntityFields', 'src/kml/engine/entity_mapper.cc'), ('CreateExpandedStrings', 'src/kml/base/string_util.cc')],
     'generated texts and documents under ASan/UBSan; expansions, entity maps and balloon text compared with an independent model', SAMPLED)
prop('C31', 'Web service clients send exactly what was asked and hand on what came back',
     'Through every session with the HTTP client and the Maps, document list, photo and spreadsheet services, each call sends exactly the requests it stands for (method, URI, the session headers and '
     'its own in order, body), each once, whatever the answers. Logging in keeps exactly the token given and sends it from then on; feeds, entries, pages of a map and downloads are handed on complete and unchanged, '
     'and a request which fails or an answer of another kind is reported as such.',
     ['histories', 'fault_sequences'], 'all sessions of calls and all answers and failures of the network',
     'Tests look at the default client echoing single requests and at one answer each.',
     ['src/kml/convenience/http_client.cc', 'src/kml/convenience/google_maps_data.cc', 'src/kml/convenience/google_doc_list.cc', 'src/kml/convenience/google_spreadsheets.cc',
      'src/kml/convenience/google_picasa_web.cc', 'src/kml/convenience/atom_util.cc'],
     [('HttpClient::Login', 'src/kml/convenience/http_client.cc'), ('GoogleMapsData::CreateDocumentOfMapFeatures', 'src/kml/convenience/google_maps_data.cc'), ('AtomUtil::GetNextFeed', 'src/kml/convenience/atom_util.cc')],
     'random sessions over a scripted, failing network under ASan/UBSan; recorded requests and results compared with a session model', SAMPLED)

prop('C32', 'Files hold exactly what was written, temporary ones as long as used',
     'Through every history of writes, reads, tests and deletions, a file reads back exactly the bytes last written to it, of any size and content; a failure (missing or impossible target, full disk) is '
     'reported as one and leaves the output argument alone; existence is told of regular files only; deletion removes exactly the file or link named. A temporary file is new, empty, private to its owner, '
     'never shared, exists while anything holds it, is removed when the last holder lets go, and making it leaves the mask of the process as it was.',
     ['inputs', 'histories', 'fault_sequences'], 'all file names and contents, all histories of calls, write failures at any byte',
     'Tests write one small file and make one temporary file; failures part way are not tried.',
     ['src/kml/base/file.cc', 'src/kml/base/file_posix.cc', 'src/kml/base/tempfile.h'],
     [('ReadFileToString / WriteStringToFile', 'src/kml/base/file.cc'), ('CreateNewTempFile', 'src/kml/base/file_posix.cc'), ('TempFile', 'src/kml/base/tempfile.h')],
     'random file histories with injected write failures under ASan/UBSan in a scratch directory, compared with a model of the directory', SAMPLED)
prop('C33', 'Every element is of exactly its own kinds',
     'Each cast of an element succeeds exactly for its own class and the classes it is a kind of, yielding that same element, and fails for every other class and for nothing, however the element was made: '
     'by class, by name, by parsing or by cloning. Making an element by name yields the class of that name and nothing for names of fields and unknown names; names, kinds and enumeration values convert to '
     'identifiers and back. Adding nothing in place of a child changes nothing.',
     ['inputs', 'configurations'], 'every pair of element class and cast, every name and enumeration value, every element of any document',
     'Tests cast a few elements; a wrong cast is undefined behaviour in the caller.',
     ['src/kml/dom/kml_cast.h', 'src/kml/dom/kml_cast.cc', 'src/kml/dom/kml_factory.cc', 'src/kml/dom/xsd.cc', 'src/kml/dom/element.cc'],
     [('As* functions', 'src/kml/dom/kml_cast.cc'), ('ElementCast and ElementType', 'src/kml/dom/kml_cast.h'), ('KmlFactory::CreateElementFromName', 'src/kml/dom/kml_factory.cc'), ('Xsd', 'src/kml/dom/xsd.cc')],
     'every class through every cast and random documents under ASan/UBSan, compared with the class table of KML', SAMPLED)
prop('C34', 'Optional outputs may be left out, lists are appended to, nothing gives nothing',
     'Leaving out any output or error argument documented as optional changes neither the return value nor the other outputs; an output documented as required is refused when missing, without '
     'touching anything. A function documented to append to a list leaves what the list held, and a function given no element returns nothing and '
     'changes nothing. This holds for every choice of arguments over any input, whether the call succeeds or fails.',
     ['inputs', 'configurations'], 'every choice of optional arguments of every such function, sound and damaged inputs',
     'Tests pass every argument; the combinations with a part left out, on inputs that fail, are not tried.',
     ['src/kml/engine/kml_uri.cc', 'src/kml/base/uri_parser.cc', 'src/kml/base/zip_file.cc', 'src/kml/engine/find.cc', 'src/kml/engine/get_links.cc', 'src/kml/engine/kml_file.cc', 'src/kml/dom/kml_funcs.h'],
     [('SplitUri', 'src/kml/engine/kml_uri.cc'), ('ZipFile::GetToc', 'src/kml/base/zip_file.cc'), ('GetChildElements', 'src/kml/engine/find.cc'), ('GetLinks', 'src/kml/engine/get_links.cc'), ('EntityMapper', 'src/kml/engine/entity_mapper.cc')],
     'each call with and without each optional argument under ASan/UBSan, compared with one another and with the documentation', SAMPLED)

prop('C35', 'What a call took it gives back: no memory or open file is left behind',
     'Any sequence of calls into the library (parsing, serializing, editing, resolving, packaging, caching, file and URI functions, CSV, GPX, XSD, regionating, web '
     'clients), once the handles it returned are released, leaves no memory allocated and no file open beyond what a first run of the same calls leaves. This holds '
     'whether the calls succeed or fail, on sound and damaged input.',
     ['histories', 'inputs'], 'all sequences of public calls, repeated',
     'Unit tests end with the process; nothing in them sees what remains allocated or open.',
     ['src/kml/base/*.cc', 'src/kml/dom/*.cc', 'src/kml/engine/*.cc', 'src/kml/convenience/*.cc', 'src/kml/xsd/*.cc', 'src/kml/regionator/*.cc'],
     [('UriParser', 'src/kml/base/uri_parser.cc'), ('ZipFile', 'src/kml/base/zip_file.cc'), ('intrusive reference counts', 'src/kml/base/referent.h'), ('ExpatParser', 'src/kml/base/expat_parser.cc')],
     'replay of recorded call sequences under ASan, measuring allocated bytes and open descriptors after each repetition', SAMPLED)
prop('C36', 'The Python bindings do what the library does, and keep nothing alive or dangling',
     'Every element class, field, cast and constant and every function the SWIG modules kmlbase, kmldom and kmlengine wrap gives through Python the values, presence, text, refusals and errors the C++ library gives. '
     'A Python handle to an element, colour, file or archive stays usable with the same values after the document, parent or file it came from is gone, '
     'and once all handles are gone nothing remains allocated or open.',
     ['inputs', 'histories'], 'all models, documents and call sequences expressible through the bindings',
     'The binding tests are not even built by default; interface files are maintained by hand apart from the headers they mirror.',
     ['src/swig/kmlbase.i', 'src/swig/kmldom.i', 'src/swig/kmlengine.i', 'src/swig/libkml_kmlelements.i', 'src/swig/libkml_intrusive_ptr.i'],
     [('element classes', 'src/swig/libkml_kmlelements.i'), ('factory, casts and type constants', 'src/swig/kmldom.i'), ('KmlFile, KmzFile, Bbox', 'src/swig/kmlengine.i'), ('intrusive_ptr typemaps', 'src/swig/libkml_intrusive_ptr.i')],
     'random models, documents, histories and lifetimes through the wrapped modules under ASan/UBSan, compared with the schema model; allocated bytes over repetitions', SAMPLED)
