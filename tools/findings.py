"""Rewrites known_findings.json from the lists below (run by hand, never by a check)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('C06', 'd758f5c', 'coordinates: overflow of a fixed buffer on long numbers, endless loop on blank text, newline and tab separators, uninitialised altitude, leading "."'),
    ('C06', 'b26b1e6', 'gx:coord and gx:angles: uninitialised values with other whitespace than single spaces'),
    ('C04', '4841707', 'attribute values were written without escaping'),
    ('C04', '5300224', 'strings holding "]]>", "<![CDATA[" or a carriage return did not read back the same'),
    ('C05', '7b47508', 'a <description> within an unknown element corrupted the parse state'),
    ('C05', 'd1e21e1', 'character data and attributes of unknown elements were written without escaping'),
    ('C01', 'cd504aa', 'NULL dereference and stack misalignment on odd uses of an old style <Schema>'),
    ('C27', 'd8d1aa5', 'a short color string was read past its end'),
    ('C26', 'c7f1df4', 'an enum value out of range read past a table on serialization'),
    ('C03', 'e0bcc3d', 'xal:LocalityName was never serialized'),
    ('C03', 'ca26460', 'an href beginning like a CDATA section but not ending as one was cut'),
    ('C04', '2e20a79', 'the namespace of gx: simple elements was not declared in whole-file output'),
    ('C01', 'd93636a', 'ParseAtom stopped the parser through an uninitialised handle'),
    ('C01', '06ab3e9', 'Clone of a field which is the root of a document read an empty stack'),
    ('C01', 'e080565', 'Clone made a misplaced child of a text element its own child: endless recursion when serialized'),
    ('C16', '1cb1abe', 'an element which outlived its parent returned a dangling parent pointer'),
    ('C16', '327e041', 'gx:Playlist did not become the parent of its tour primitives and dereferenced a NULL one'),
    ('C24', 'caf5eb5', 'ClearIds left the ids of duplicates in place'),
    ('C08', '036cd1f', 'a StyleSelector without an id was indexed as a shared style'),
    ('C08', '9f936e0', 'the path of an absolute href took the fragment in, an absolute href without a path lost its host'),
    ('C09', '2e26cfe', 'a styleUrl within a remote StyleMap was resolved relative to the wrong file'),
    ('C10', '906bb86', 'SplitStyles of an inline style which has an id referenced another id'),
    ('C10', 'dda33f3', 'SplitStyles made ids which shared styles of the document have'),
    ('C09', '44777d5', 'a file fetched with a fragment was cached and fetched again under that URL'),
    ('C09', '7e36d6f', 'endless recursion on a reference to a file which is not in its KMZ'),
    ('C10', '42a1b7d', 'SplitStyles dropped unknown children of the inline style'),
    ('C10', '6e11d92', 'SplitStyles put shared styles into a Document within an Update'),
    ('C10', 'd3ae0b3', 'a styleUrl of a host without a path was taken for a local reference'),
    ('C10', '5fb349e', 'what follows an Update within an Update was split or inlined'),
    ('C22', 'f02fb89', 'merging ignored the text of a Snippet and took in the fields of misplaced children'),
    ('C22', 'd4e3672', 'children of a misplaced element were listed as direct children, and merged'),
    ('C02', 'daf15ed', 'the name of a ZIP entry was read into a shared and unterminated buffer'),
    ('C02', 'ff8241c', 'leak on reading what is not a ZIP archive'),
    ('C02', '8e1d4dd', 'a ZIP entry whose CRC does not match was returned as if intact'),
    ('C02', 'cb1bc89', 'looking up a name read past the stack buffer where an entry has a name of 256 bytes or more'),
    ('C12', '2eb02ac', 'crash on packaging a file which is not KML'),
    ('C12', '72052ad', 'creating a KMZ reported success when it could not be written'),
    ('C12', '24ef29e', 'errors in reading and writing a file went unreported, and a directory was packaged as an empty file'),
    ('C12', '7c4e160', 'a link mixing slashes and backslashes brought a file above the base into a KMZ'),
    ('C15', '1c3c237', 'the fetchable part of a URI lacked its query, user info and more'),
    ('C15', '599b387', 'a name which merely contains .kmz was taken for a KMZ archive'),
    ('C15', 'b16a26d', 'a URL within the path or query of an href was taken for its scheme'),
    ('C14', '7518612', 'data of which no item can be made evicted a cached item'),
    ('C17', '5f2debc', 'a stream which breaks off was read without an error'),
    ('C17', '5fba3f4', 'parsing an empty string reported no error'),
    ('C17', '23fc17e', 'no error was reported for a stream whose root element is not KML'),
    ('C11', '81c68bf', 'an id within Update/Change replaced the id of its target'),
    ('C20', 'fa587e1', 'CsvParser called the factory through a null pointer'),
    ('C20', '6961ec7', 'a GPX track point without a position was passed on with that of the previous one'),
    ('C20', '4047d3c', 'everything after a blank line of a pipe-separated file was ignored'),
    ('C20', '0ae2353', 'part of a separator of several characters stayed in the next piece'),
    ('C21', 'e219a6b', 'CreateLineStringBox did not close the box'),
    ('C23', 'a7479e5', 'the separators of the global locale got into the names of regionated files'),
    ('C25', '0e71670', 'the first uses of the KmlFactory and Xsd singletons raced'),
    ('C30', '9ac8824', 'references next to a replaced one, or to a name which its value contains, were left unexpanded'),
    ('C30', 'c78ec33', "SimpleData was labelled by the Schema of another SchemaData, or not at all"),
    ('C27', '0323084', 'the seconds of a time before 1970 were those of that day in 1970'),
    ('C27', 'f869ac0', 'an unpaired last item of an attribute list threw an exception'),
    ('C28', '1bb1aca', 'anonymous and nested types, and an element as root, crashed the XSD reader; elements were leaked'),
    ('C28', 'd5b7b1a', 'asking for the target namespace of a schema without one crashed'),
    ('C28', '2b4da49', 'types derived from each other in a circle were followed without end'),
    ('C28', '595b464', 'the name of the invalid primitive type was made from a null pointer'),
    ('C29', '07e0cdb', 'a circle of other than 360 segments was an arc, or went round more than once'),
    ('C29', '659a8f9', 'an empty lat or lon attribute gave an uninitialised coordinate'),
    ('C29', '5d6a0b6', 'features within an Update were saved as features of the document'),
    ('C29', '84a988e', 'a styleUrl to an id of one character was not given the style base'),
    ('C29', '5a2d4e9', "the feature of an Atom entry was changed and handed out itself instead of a copy"),
    ('C29', '133b750', "the container of a feed's features did not get the feed's link"),
    ('C29', '963731c', 'asking only whether an entry has a resource id crashed'),
    ('C33', 'a82abb2', 'AsGxSimpleArrayField accepted a plain SimpleField'),
    ('C33', '5b6d959', 'AddElement of nothing kept a null child, which serialization then used'),
    ('C31', 'e7f91cf', 'the login token lost its last character, or took in further lines, where the response does not end with it'),
    ('C34', '869ee7d', 'listing an archive (ZipFile::GetToc, KmzFile::List) replaced the vector it is documented to append to'),
    ('C33', '81bfc51', 'kmlDomTypeToString named the gx types wrongly and read past its table'),
    ('C36', '0916ced', 'a colour read through the bindings (get_color and the like) dangled once its element was released'),
    ('C36', '9843f68', 'KmlFile, KmzFile and DateTime objects made through the bindings were never released'),
    ('C13', '37ca6d8', 'an ordinary Schema of a document with an old-style one lost its fields to the conversion'),
    ('C13', '877cff4', 'an instance of an old-style Schema lost its own ExtendedData'),
    ('C16', '7d2c2a0', 'an element could be attached below itself, a cycle which was never released'),
    ('C16', '69636d0', 'an element taken out of its parent still reported it and could not be attached again'),
    ('C08', 'c7d25f1', 'an imported file listed no link parents'),
    ('C19', '3ef0c1c', 'LatLngOnRadialFromPoint gave longitudes below -180'),
]
KNOWN = [
    ('K22-array', 'C22', 'probe:array-append', 'MergeElements merges an array element of the source into the first one of its type in the target instead of appending it as merge.h documents (input of probe 0 of mon/c22.py)'),
    ('K10-both', 'C10', 'probe:inline-both', 'InlineStyles: a feature with both a local styleUrl and an inline Style loses the shared part (StyleInliner::EndElement; input PROBES[0] of mon/c10.py)'),
    ('K10-pair', 'C10', 'probe:inline-pair', 'InlineStyles: the styleUrl of a Pair of an inline StyleMap is left dangling since its shared style is removed (PROBES[1] of mon/c10.py)'),
    ('K10-document', 'C10', 'probe:inline-document', "InlineStyles: a Document's own styleUrl is left dangling since its shared style is removed (PROBES[2] of mon/c10.py)"),
    # (id, property, key regex, what)
]
json.dump({'findings': [{'id': i, 'property': p, 'status': 'known', 'key': k, 'what': w} for i, p, k, w in KNOWN],
           'fixed': ['fixed: property=%s %s %s' % f for f in FIXED]},
          open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
