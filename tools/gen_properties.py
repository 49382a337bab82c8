#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single hand-edited source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))
ST = 'src/obj_types/string_types.rs'; AT = 'src/obj_types/arc_types.rs'; RT = 'src/obj_types/rc_types.rs'
SP = 'src/stringpbf/mod.rs'; AP = 'src/arcpbf/mod.rs'; NP = 'src/stringpbf/node_id_pos.rs'
X = 'src/xml/mod.rs'; O = 'src/osc/mod.rs'; L = 'src/lib.rs'; C = 'src/changesets.rs'
TY = [ST, AT, RT]

prop('C01', 'Setting a field of an OSM object changes that field, and nothing else',
 'For every OSM object type (String, Arc and Rc nodes, ways, relations and the three any-object enums), after a setter is called with any value the matching getter returns exactly that value, and every other field, the tags, the node list and the members read the same as before. Stripping the metadata clears the uid, the user and the changeset id and leaves everything else. A failed attempt to set the location leaves the node as it was.',
 ['inputs', 'histories'], 'every object state and every value, for each of 12 object types and each setter',
 'Tests set a few fields on a couple of String objects; most setters of the Arc and Rc types and all "nothing else changes" claims are never exercised.',
 TY + [L], [('setters & getters', ST), ('enum forwarding macros', AT), ('default trait methods (strip_metadata, set_lat_lon, ...)', L)])
prop('C02', 'Converting Rc/Arc objects to String objects loses nothing',
 'Converting a node, way, relation or any-object of the Rc or Arc family to the String family keeps the kind, id, version, deleted flag, changeset id, timestamp, uid, user, location, every node reference in order, every member (type, id and role) in order, and carries every tag over under its own key.',
 ['inputs'], 'every Rc/Arc object value',
 'No test converts an Rc or Arc object.',
 ['src/obj_types/mod.rs'] + TY, [('From<Rc*/Arc*> for String*', 'src/obj_types/mod.rs')])
prop('C03', 'Object kinds agree everywhere they can be observed',
 'For every object, its reported type, is_node/is_way/is_relation, and the as_, as_..._mut and into_ accessors agree: exactly the accessor of its own kind returns something, and what it returns is that very object. Wrapping a node, way or relation gives an any-object of that kind with the same content.',
 ['inputs'], 'every object of the three any-object enums and the nine concrete types',
 'Only the String objects coming out of one test file are looked at, through a few of the accessors.',
 TY + [L], [('OSMObj impls', ST), ('is_node & co. defaults', L)])
prop('C04', 'Tags behave like a map with unique keys',
 'After set_tag(k, v) looking up k gives v, every other tag is unchanged and the number of entries grows by one only when k was not there before; after unset_tag(k) one entry with key k is gone and no other tag is touched. tag() returns the value stored under exactly the asked key, and has_tag, num_tags, tagged, untagged and tags() all report the same tag list; tags_json_string is the JSON object of exactly these tags. The same look-ups on a changeset report its tags.',
 ['inputs', 'histories'], 'every tag list, key and value, for all object types',
 'Tests cover short hand-made tag lists on the String types only.',
 TY + [L, C], [('tags/tag/set_tag/unset_tag', ST), ('has_tag/num_tags/tagged/untagged defaults', L)])
prop('C05', 'Text is escaped exactly when written into XML',
 'Whatever text a user name, tag key or value, member role, timestamp or header value holds, the XML and OSC writers emit it character by character, with &, <, > and both quotes replaced by their own entity and every other character unchanged, so an XML parser gives back the same text.',
 ['inputs'], 'every string in every text position of every object',
 'Nine fixed strings are tested against the escaping function; no test puts special characters in roles, keys, timestamps or headers.',
 [X, O], [('write_xml_escaped', X), ('write_obj', X), ('write_obj', O)])
prop('C06', 'Written XML and OSC documents are well formed',
 'For every history of calls on a fresh XML or OSC writer (set headers, write any objects, then close once or just drop) the bytes written form one well-formed document: an XML declaration, one root element, every element closed in order, every attribute quoted and none repeated.',
 ['histories', 'inputs'], 'every call history and every object of every kind and shape',
 'Tests write one or two objects and compare the text.',
 [X, O, L], [('ensure_header/write_obj/close/Drop', X), ('ensure_header/write_obj/close/Drop', O)],
 state=[('writer state', 'initial, writing or closed', X)])
prop('C07', 'Writers respect their lifecycle',
 'A writer is open until it is closed and never afterwards. Writing an object to, or setting a header on, a closed writer is refused with "already closed", setting a header once writing began is refused with "already started" (formats without headers always refuse), and a refused call writes nothing.',
 ['histories'], 'every sequence of calls on XML and OSC writers',
 'No test calls a writer after close, or sets a header late.',
 [X, O, L], [('_state checks', X), ('_state checks', O), ('set_header default', L)])
prop('C08', 'Writers write everything an object has, once, under its own name',
 'For every object the XML and OSC writers emit an element named after its kind whose attributes id, visible, version, user, uid, changeset, timestamp, lat and lon each carry that field of the object exactly once when it is set and are left out when it is not, followed by one child for every node reference, every member (type, id, role) and every tag (key, value), in order.',
 ['inputs'], 'every object of every family, kind and combination of missing fields',
 'A single fully populated node is compared; ways and relations are only partly covered and optional fields always present.',
 [X, O], [('write_obj', X), ('write_obj', O)])
prop('C09', 'Errors of the underlying writer are never swallowed',
 'When any write to the underlying stream fails during write_obj or close of an XML or OSC writer, that call returns an I/O error instead of success, and it does not go on writing after the failure.',
 ['fault_sequences'], 'a failure at any single write of any call',
 'Tests write to memory, which never fails.',
 [X, O], [('`?` after every write', X), ('`?` after every write', O), ('From<io::Error> for OSMWriteError', X)])
prop('C10', 'XML and OSC readers put each attribute and child in its own field',
 'In every object an XML or OSC reader returns, the id, version, changeset, timestamp, uid, user and location come from the attributes of that name (absent or unreadable optional ones read as missing), deleted is true exactly when visible is "false", and tags, node references and members are exactly the usable tag, nd and member children, in order, each part from its own attribute. An object inside a delete block of an OSC file is always deleted, and no other object is because of it.',
 ['inputs'], 'every element with any subset of attributes in any order',
 'Two small documents are read; most missing/present combinations and OSC delete blocks are not.',
 [X, O], [('*_xml_elements_to_osm_obj', X), ('get_tags/get_nodes/get_members', X), ('in_delete', O)])
prop('C11', 'XML and OSC readers go on until the end of the document',
 'A reader of an XML or OSC document returns None only when the document has ended: an element it cannot use, an unknown element or a comment never ends, repeats or hides the objects that follow, and children are never attributed to another object.',
 ['inputs', 'histories'], 'every sequence of elements',
 'Tests only read documents in which every element is usable.',
 [X, O], [('OSMReader::next', X), ('OSMReader::next', O)])
prop('C12', 'Writers and readers speak the same vocabulary',
 'Every element name, attribute name and enumerated value (object type names, true/false of visible) which the XML and OSC writers emit for an object is one the XML and OSC readers understand as the same thing, so what is written can be read back into the same field.',
 ['inputs', 'programs'], 'every name and enumerated value that can be emitted',
 'No test feeds a writer\'s output to a reader.',
 [X, O, L], [('write_obj', X), ('xml_elements_to_osm_obj', X), ('OSMObjectType Display/FromStr', L)])
prop('C13', 'Dense PBF nodes are decoded column by column',
 'For every dense node a PBF reader returns, the id and changeset, uid, user and timestamp are the running sums of their own delta coded column up to that node, the version is its own column\'s entry, visible defaults to true, strings come from the block\'s string table, and the tags are exactly that node\'s own section of the key/value list.',
 ['inputs'], 'every dense group',
 'Tests read one extract and look at a few nodes.',
 [SP, AP, NP], [('decode_dense_nodes', SP), ('decode_dense_nodes', AP)])
prop('C14', 'PBF ways and relations are decoded field by field',
 'For every way and relation a PBF reader returns, the id, version, changeset, uid, user and timestamp come from the message\'s own fields, node references and member ids are the running sums of their delta coded lists, tags pair the i-th key with the i-th value, members pair the i-th type, id and role, and deleted is the negation of visible, which defaults to true.',
 ['inputs'], 'every way and relation message',
 'Tests read one extract and look at a few ways.',
 [SP, AP], [('decode_ways/decode_relations', SP), ('decode_ways/decode_relations', AP)])
prop('C15', 'PBF coordinates follow the published formula',
 'Every PBF reader computes a latitude as (lat_offset + granularity * raw) nanodegrees and a longitude as (lon_offset + granularity * raw) nanodegrees, where raw is the running sum of its own column, and timestamps as date_granularity * raw milliseconds, for every granularity and offset a block may declare.',
 ['inputs', 'configurations'], 'every granularity, offset and date granularity',
 'The only test file uses the default granularity and no offsets.',
 [SP, AP, NP], [('internal_lat/internal_lon', SP), ('internal_lat/internal_lon', AP), ('internal_lat/internal_lon', NP)])
prop('C16', 'PBF readers return every object once, in file order',
 'A PBF reader goes through every data blob, every group and every element in it, and returns each object exactly once and in file order, ending only at the end of the file; blobs of other types (headers too, wherever they are) are skipped and blobs it cannot decompress are not silently dropped. Asking only for nodes, ways or relations returns exactly the objects of that kind which are still to come, in file order, and whatever is called afterwards goes on with all the objects of the blobs which have not been read yet.',
 ['inputs', 'histories'], 'every file and every mix of reader calls',
 'Tests read one extract through one reader at a time.',
 [SP, AP, NP], [('OSMReader::next & buffer', SP), ('decode_block_to_objs', SP), ('get_next_osmdata_blob', AP)])
prop('C17', 'Missing PBF metadata is reported as missing',
 'When a PBF way, relation or dense node has no version, changeset, uid, user or timestamp (all optional in the format) the reader returns the object with exactly those fields unset; it neither fails nor makes up a value, and the fields which are there are still reported.',
 ['inputs', 'configurations'], 'every combination of missing metadata, in every reader',
 'The only test file has complete metadata.',
 [SP, AP], [('optional fields', SP), ('optional fields', AP)])
prop('C18', 'The PBF message code reads the published format',
 'For every message of the OSM PBF format, the generated reading code takes the published field number and wire type of each field (plain or packed for repeated numbers), puts what it reads into the field of that name and into no other (a later value of a single field replaces the earlier one, repeated ones are appended), skips fields it does not know, passes an error of the stream on, gives the published default of a field which is missing, and accepts a message as complete exactly when its required fields are there.',
 ['inputs', 'programs'], 'every field of every message in both copies of the generated code, whatever values are on the wire',
 'Only the fields used by one file, written by one tool, are exercised.',
 ['src/stringpbf/osmformat.rs', 'src/stringpbf/fileformat.rs', 'src/arcpbf/osmformat.rs', 'src/arcpbf/fileformat.rs'],
 [('merge_from, is_initialized, accessors, default_instance', 'src/stringpbf/osmformat.rs')])
prop('C19', 'The three PBF readers agree with each other',
 'For the same block, the String reader, the Arc reader and the node-position reader compute the same value for every field they share: ids, coordinates, metadata, tags, node references, members and deleted flags.',
 ['inputs'], 'every block',
 'No test compares the readers field by field.',
 [SP, AP, NP], [('decode_*', SP), ('decode_*', AP), ('decode_block_to_objs', NP)])
prop('C20', 'A latitude or longitude is only made from a number that fits',
 'Converting a float or a string to a latitude or longitude succeeds only when the rounded, scaled number is a number within the 32 bit range, in which case exactly that value is stored; every value above is rejected as too large, every value below as too small, and not-a-number is rejected.',
 ['inputs'], 'every f64, f32 and string',
 'Doc tests try three or four values.',
 [L], [('lat_lon_impl! TryFrom/FromStr', L)])
prop('C21', 'Timestamps compare consistently and are never narrowed',
 'Timestamp equality and ordering are decided by one and the same key of each side, so equality is reflexive, symmetric and transitive and agrees with the ordering whichever way (text or number) a timestamp is stored; and no conversion between seconds and a date passes through a type narrower than 64 bits.',
 ['inputs'], 'every pair and triple of timestamps',
 'A handful of dates are compared.',
 [L, 'src/utils.rs', SP, AP], [('PartialEq/PartialOrd for TimestampFormat', L), ('epoch_to_iso', 'src/utils.rs')])
prop('C22', 'Changesets: each attribute and tag lands in its own field',
 'In every changeset the full reader returns, id, created, closed, open, user, uid, num_changes and comments_count come from the attributes id, created_at, closed_at, open, user, uid, num_changes and comments_count, whether or not the element has children, optional ones are unset when absent, and the tags map each child tag\'s k to its v; the tag-only reader pairs the id of each changeset with exactly its own tags.',
 ['inputs'], 'every changeset element',
 'There is no test of the changeset readers apart from doc examples that are not run.',
 [C], [('ChangesetReader::next_changeset', C), ('ChangesetTagReader::next_tag', C)])
prop('C23', 'Changeset readers report bad input and always terminate',
 'On every input the changeset readers either make progress, report an error or report the end: a file that ends inside a changeset, a tag without key or value, or an unreadable attribute gives an error, and a changeset is only ever returned under an id read from its own element.',
 ['inputs'], 'every truncated or malformed document',
 'There is no test of the changeset readers.',
 [C], [('event loops', C)])
prop('C24', 'Arc and String objects can be shared between threads',
 'All object types of the String and Arc families, and the coordinate, timestamp and type values, can be sent to and shared between threads.',
 ['programs', 'schedules'], 'every program using them in threads',
 'No test uses threads; it is a fact about types.',
 [ST, AT, L], [('field types', AT)])
prop('C25', 'The changeset SQLite export is all or nothing',
 'The changeset-tags export never opens a database file that already exists, inserts every changeset in one transaction under that changeset\'s own id with that changeset\'s own tags, commits exactly once and only after the whole input has been read without error, and reports an error instead of success otherwise.',
 ['fault_sequences', 'crash_points', 'inputs'], 'every input and a failure at any point',
 'The program has no tests.',
 ['src/bin/osmio-changeset-tags-to-sqlite.rs'], [('main', 'src/bin/osmio-changeset-tags-to-sqlite.rs')])
prop('C26', 'Calls that return a Result or Option do not panic instead',
 'The writers\' and the changeset readers\' fallible calls, the timestamp, coordinate and object type conversions, and the object accessors and setters report problems through their return value: no explicit panic, unwrap, todo, index out of bounds or division by zero in this crate is reachable from them, whatever the arguments, provided the underlying streams work.',
 ['inputs', 'histories'], 'every argument and call history',
 'Tests only take paths that do not panic.',
 [L, X, O, C] + TY, [('error returns', X), ('error returns', C)])
prop('C27', 'A PBF file which cannot be read or is broken off is not taken for a complete one',
 'When the underlying stream of a PBF reader fails with anything but "end of file" where a blob could begin, or fails in any way within a blob\'s header or data (also because the file ends there), or when an OSMData blob cannot be decompressed or parsed, the reader neither reports the end of the data nor goes on with the blobs after it.',
 ['fault_sequences'], 'an error at any read, an end of the file within any blob, a damaged blob anywhere',
 'Tests read a good file.',
 [SP, AP, NP], [('get_next_osmdata_blob', SP), ('get_next_osmdata_blob', AP)])
prop('C28', 'Way and object type helpers are right for every value',
 'A way is closed exactly when it has nodes and its first and last are the same; its node count, node-by-index and node list describe the same list; it is an area exactly when it is closed and not tagged area=no. Each object type\'s short and long names are distinct and parse back to that type, and any other text (but for the abbreviation "rel" of a relation) is rejected.',
 ['inputs'], 'every node list and every string',
 'A few ways and names are tested.',
 [L] + TY, [('Way defaults', L), ('OSMObjectType', L)])
# Not claimed (see MANIFEST.json, not_applicable)
prop('C40', 'Coordinates survive being written as text and read back',
 'Writing any latitude or longitude to XML and reading it back gives the same value.',
 ['inputs'], 'every 32 bit coordinate', 'A few values are tested.', [L, X], [('Display / FromStr for Lat & Lon', L)])
prop('C41', 'Hostile PBF input never exhausts memory or overflows',
 'No PBF file makes a reader allocate without bound, overflow an integer or index out of bounds.',
 ['inputs'], 'every byte string', 'Tests read good files.', [SP, AP, NP], [('decode_*', SP)])
prop('C42', 'Reading is linear and bounded in memory',
 'Reading a file takes time proportional to its size and memory bounded by its largest block.',
 ['inputs'], 'every file', 'Tests do not measure.', [SP, AP, X], [('buffers', SP)])
prop('C43', 'XML produced by other tools is parsed per the XML standard',
 'Any well-formed OSM XML (entities, encodings, CDATA, namespaces) is understood as the XML standard says.',
 ['inputs'], 'every well-formed document', 'Tests read two documents.', [X, O, C], [('xml-rs, quick-xml', X)])
with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
