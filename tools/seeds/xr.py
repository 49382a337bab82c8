exec(open("/verif/tools/seeds/common.py").read())
XR = '''use osmio::*; use osmio::obj_types::*;
let xml = |s: &str| osmio::xml::XMLReader::new(std::io::Cursor::new(format!("<osm>{}</osm>", s).into_bytes()));
let osc = |s: &str| osmio::osc::OSCReader::new(std::io::Cursor::new(format!("<osmChange>{}</osmChange>", s).into_bytes()));
let _ = (&xml, &osc);
'''
X = "src/xml/mod.rs"; O = "src/osc/mod.rs"
VIS = '''        .and_then(|val| match val.as_str() {
            "true" => Some(false),
            "false" => Some(true),
            _ => None,
        })
        .unwrap_or(false);

    let tags = get_tags(els);
    let %s'''
seeds = [
 seed("c10-rel-visible", "C10", [(X, VIS % "members", '''        .and_then(|val| match val.as_str() {
            "true" => Some(false),
            "false" => Some(false),
            _ => None,
        })
        .unwrap_or(false);

    let tags = get_tags(els);
    let members''')], "a relation with visible=false", "a deleted relation reads as existing",
  XR + 'assert!(xml("<relation id=\\"1\\" visible=\\"false\\"/>").next().unwrap().deleted());'),
 seed("c10-way-node-dedup", "C10", [(X, '''                if let Some(ref_id) = ref_id_o {
                    result.push(ref_id);
                }''', '''                if let Some(ref_id) = ref_id_o {
                    if !result.contains(&ref_id) {
                        result.push(ref_id);
                    }
                }''')], "a closed way", "the last node of a closed way is lost",
  XR + 'let o = xml("<way id=\\"1\\"><nd ref=\\"1\\"/><nd ref=\\"2\\"/><nd ref=\\"1\\"/></way>").next().unwrap(); match o { StringOSMObj::Way(w) => assert_eq!(w.num_nodes(), 3), _ => panic!() }'),
 seed("c10-tag-no-value", "C10", [(X, '''                if let (Some(k), Some(v)) = (ko, vo) {
                    result.push((SmolStr::new(k), SmolStr::new(v)));
                }''', '''                if let Some(k) = ko {
                    result.push((SmolStr::new(k), SmolStr::new(vo.unwrap_or_default())));
                }''')], "a tag element without v", "a tag which the file does not have appears",
  XR + 'let o = xml("<node id=\\"1\\"><tag k=\\"a\\"/></node>").next().unwrap(); assert!(o.untagged());'),
 seed("c10-empty-value-dropped", "C10", [(X, '''                if let (Some(k), Some(v)) = (ko, vo) {
                    result.push((SmolStr::new(k), SmolStr::new(v)));
                }''', '''                match (ko, vo) {
                    (Some(k), Some(v)) if !v.is_empty() => {
                        result.push((SmolStr::new(k), SmolStr::new(v)));
                    }
                    _ => {}
                }''')], "a tag with an empty value", "the tag is dropped",
  XR + 'let o = xml("<node id=\\"1\\"><tag k=\\"a\\" v=\\"\\"/></node>").next().unwrap(); assert!(o.tagged());'),
 seed("c10-member-role-default", "C10", [(X, '''get_xml_attribute(attributes, "role").unwrap_or_default()''', '''get_xml_attribute(attributes, "role").filter(|r| !r.trim().is_empty()).unwrap_or_else(|| "member".to_owned())''')], "a member with an empty role", "the role is invented",
  XR + 'let o = xml("<relation id=\\"1\\"><member type=\\"node\\" ref=\\"1\\" role=\\"\\"/></relation>").next().unwrap(); match o { StringOSMObj::Relation(r) => { for m in r.members() { assert_eq!(m.2, ""); } }, _ => panic!() }'),
 seed("c10-member-type-prefix", "C10", [(X, '''get_xml_attribute(attributes, "type").and_then(|t| t.parse().ok());''', '''get_xml_attribute(attributes, "type").and_then(|t| t.trim().to_lowercase().parse().ok());''')], "a member whose type has a capital", "a member with an unknown type is kept as if its type were known",
  XR + 'let o = xml("<relation id=\\"1\\"><member type=\\"Node\\" ref=\\"1\\" role=\\"\\"/></relation>").next().unwrap(); match o { StringOSMObj::Relation(r) => assert_eq!(r.members().count(), 0), _ => panic!() }'),
 seed("c10-way-uid-first", "C10", [(X, '''    let nodes = get_nodes(els);
    Some(StringOSMObj::Way(StringWay {
        _id: id,
        _version: version,
        _deleted: deleted,
        _changeset_id: changeset_id,
        _timestamp: timestamp,
        _uid: uid,''', '''    let nodes = get_nodes(els);
    let uid = if user.is_some() { uid } else { None };
    Some(StringOSMObj::Way(StringWay {
        _id: id,
        _version: version,
        _deleted: deleted,
        _changeset_id: changeset_id,
        _timestamp: timestamp,
        _uid: uid,''')], "a way with a uid but without a user name", "the uid is dropped",
  XR + 'assert_eq!(xml("<way id=\\"1\\" uid=\\"5\\"/>").next().unwrap().uid(), Some(5));'),
 seed("c10-attr-prefix", "C10", [(X, '''.position(|attr| attr.name.local_name == key)''', '''.position(|attr| attr.name.local_name.starts_with(key))''')], "an attribute whose name begins like another", "lat/lon or uid read from another attribute",
  XR + 'assert_eq!(xml("<node id_old=\\"9\\" id=\\"1\\"/>").next().unwrap().id(), 1);'),
 seed("c11-xml-nested", "C11", [(X, '''                XmlEvent::StartElement { ref name, .. } => match name.local_name.as_str() {
                    "node" | "way" | "relation" => {
                        should_push = true;
                    }
                    _ => {}
                },''', '''                XmlEvent::StartElement { ref name, .. } => match name.local_name.as_str() {
                    "node" | "way" | "relation" | "tag" | "nd" | "member" => {
                        should_push = true;
                    }
                    _ => {}
                },''')], "children of an element which is no object", "the object after it is lost",
  XR + 'assert!(xml("<changeset><tag k=\\"a\\" v=\\"b\\"/></changeset><node id=\\"1\\"/>").next().is_some());'),
 seed("c11-osc-bounds", "C11", [(O, '''                XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                    "node" | "way" | "relation" => {''', '''                XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                    "node" | "way" | "relation" | "changeset" => {''')], "a foreign element between objects", "the reader ... treats the end of a foreign element as the end of an object",
  XR + 'let mut r = osc("<modify><changeset id=\\"4\\"/><node id=\\"1\\"/><way id=\\"2\\"><changeset/><nd ref=\\"1\\"/></way></modify>"); let mut n = 0; while let Some(o) = r.next() { if let StringOSMObj::Way(w) = &o { n = w.num_nodes(); } } assert_eq!(n, 1);'),
 seed("c11-osc-last", "C11", [(O, '''            if should_push {
                elements.push(el);
            }''', '''            if should_push && elements.len() < 4096 {
                elements.push(el);
            } else if should_push {
                break;
            }''')], "an object with more than 4096 events", "reading ends in the middle",
  XR + 'let nds: String = (1..5000).map(|i| format!("<nd ref=\\"{}\\"/>", i)).collect(); let mut r = osc(&format!("<modify><way id=\\"1\\">{}</way></modify>", nds)); assert!(r.next().is_some());'),
 seed("c11-xml-skip-whitespace", "C11", [(X, '''                XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                    "node" | "way" | "relation" => {
                        should_break = true;
                    }
                    _ => {}
                },''', '''                XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                    "node" | "way" | "relation" => {
                        should_break = true;
                    }
                    "osm" => break,
                    _ => {
                        if should_push && name.local_name == "bounds" {
                            elements.clear();
                        }
                    }
                },''')], "an object which holds a bounds child", "the object is lost",
  XR + 'assert!(xml("<way id=\\"1\\"><bounds/></way>").next().is_some());'),
]
