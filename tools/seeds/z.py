exec(open("/verif/tools/seeds/common.py").read())
XR = '''use osmio::*; use osmio::obj_types::*;
let xml = |s: &str| osmio::xml::XMLReader::new(std::io::Cursor::new(format!("<osm>{}</osm>", s).into_bytes()));
let osc = |s: &str| osmio::osc::OSCReader::new(std::io::Cursor::new(format!("<osmChange>{}</osmChange>", s).into_bytes()));
let cs = |s: &str| osmio::changesets::ChangesetReader::new(std::io::Cursor::new(format!("<osm>{}</osm>", s).into_bytes()));
let wx = |o: &StringOSMObj| { let mut v = Vec::new(); { let mut w = osmio::xml::XMLWriter::new(&mut v); w.write_obj(o).unwrap(); } String::from_utf8(v).unwrap() };
let wo = |o: &StringOSMObj| { let mut v = Vec::new(); { let mut w = osmio::osc::OSCWriter::new(&mut v); w.write_obj(o).unwrap(); } String::from_utf8(v).unwrap() };
let _ = (&xml, &osc, &cs, &wx, &wo);
'''
seeds = [
 seed("c01-strip-version", "C01", [(L, '''        self.set_uid(None);
        self.set_user(None);
        self.set_changeset_id(None);''', '''        self.set_uid(None);
        self.set_user(None);
        if self.changeset_id() != Some(0) {
            self.set_changeset_id(None);
        }''')], "an object in changeset 0 whose metadata is stripped", "the changeset stays",
  XR + 'let mut o = xml("<node id=\\"1\\" changeset=\\"0\\" user=\\"a\\" uid=\\"1\\"/>").next().unwrap(); o.strip_metadata(); assert_eq!(o.changeset_id(), None);'),
 seed("c01-failed-set", "C01", [(L, '''                let l1: Lat = l1.try_into()?;
                let l2: Lon = l2.try_into()?;
                self.set_lat_lon_direct(Some((l1, l2)));''', '''                let l1: Lat = l1.try_into()?;
                self.set_lat_lon_direct(None);
                let l2: Lon = l2.try_into()?;
                self.set_lat_lon_direct(Some((l1, l2)));''')], "set_lat_lon with a longitude which does not fit, on a node with a position", "the call fails, and the node has lost its old position",
  XR + 'let mut n = match xml("<node id=\\"1\\" lat=\\"1\\" lon=\\"2\\"/>").next().unwrap() { StringOSMObj::Node(n) => n, _ => panic!() }; assert!(n.set_lat_lon(Some((3.0f64, 1e9f64))).is_err()); assert!(n.has_lat_lon());'),
 seed("c21-iso-lexical", "C21", [(L, '''        match self {
            TimestampFormat::ISOString(s) => {
                chrono::DateTime::parse_from_rfc3339(s).map_or(0, |d| d.timestamp())
            }
            &TimestampFormat::EpochNumber(t) => t,''', '''        match self {
            TimestampFormat::ISOString(s) => {
                chrono::DateTime::parse_from_rfc3339(s).map_or(0, |d| d.naive_local().and_utc().timestamp())
            }
            &TimestampFormat::EpochNumber(t) => t,''')], "a date with an offset other than Z", "the wall clock time is taken for UTC",
  'assert_eq!(TimestampFormat::ISOString("2020-01-01T02:00:00+02:00".to_string()).to_epoch_number(), 1577836800);'),
 seed("c10-attr-case", "C10", [(X, '''.position(|attr| attr.name.local_name == key)''', '''.position(|attr| attr.name.local_name.eq_ignore_ascii_case(key))''')], "an element with an attribute ID besides id", "the other attribute is read",
  XR + 'let o = xml("<node ID=\\"7\\" id=\\"1\\"/>").next().unwrap(); assert_eq!(o.id(), 1);'),
 seed("c10-negative-ref", "C10", [(X, '''                    get_xml_attribute(attributes, "ref").and_then(|e| e.parse().ok());
                if let Some(ref_id) = ref_id_o {''', '''                    get_xml_attribute(attributes, "ref").and_then(|e| e.parse::<u64>().ok()).map(|e| e as ObjId);
                if let Some(ref_id) = ref_id_o {''')], "a way with a new node, whose id is negative", "the node is missing from the way",
  XR + 'let o = xml("<way id=\\"1\\"><nd ref=\\"-1\\"/><nd ref=\\"2\\"/></way>").next().unwrap(); match o { StringOSMObj::Way(w) => assert_eq!(w.nodes(), &[-1, 2]), _ => panic!() }'),
 seed("c10-osc-modify-visible", "C10", [(O, '''                    if self.in_delete {
                        obj.set_deleted(true);
                    }''', '''                    obj.set_deleted(self.in_delete);''', 0)] if False else [(O, '''                    "delete" => {
                        self.in_delete = true;
                    }''', '''                    "delete" | "deleted" => {
                        self.in_delete = true;
                    }''')], "an OSC file with an element called deleted", "the object is read as deleted",
  XR + 'let mut r = osc("<modify><x><deleted/></x><node id=\\"1\\" visible=\\"true\\"/></modify>"); assert!(!r.next().unwrap().deleted());'),
 seed("c11-negative-id", "C11", [(X, '''fn way_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
    let attrs = extract_attrs(els.first_mut()?)?;
    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;''', '''fn way_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
    let attrs = extract_attrs(els.first_mut()?)?;
    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok()).filter(|x| *x >= 0)?;''')], "a way with a negative id", "the way is skipped",
  XR + 'let o = xml("<way id=\\"-1\\"/>").next().unwrap(); assert_eq!(o.id(), -1);'),
 seed("c11-version-required", "C11", [(X, '''fn relation_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
    let attrs = extract_attrs(els.first_mut()?)?;
    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;
    let version = get_xml_attribute(attrs, "version").and_then(|x| x.parse().ok());''', '''fn relation_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
    let attrs = extract_attrs(els.first_mut()?)?;
    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;
    let version = match get_xml_attribute(attrs, "version") {
        Some(x) => Some(x.parse::<u32>().ok()?),
        None => None,
    };''')], "a relation whose version is not a number", "the relation is skipped",
  XR + 'let o = xml("<relation id=\\"1\\" version=\\"x\\"/>").next().unwrap(); assert_eq!(o.id(), 1);'),
 seed("c08-cs-zero", "C08", [(X, '''            write!(self.writer, " changeset=\\"{}\\"", changeset_id)?;''', '''            if changeset_id > 0 {
                write!(self.writer, " changeset=\\"{}\\"", changeset_id)?;
            }''')], "an object in changeset 0", "no changeset is written",
  XR + 'let o = xml("<node id=\\"1\\" changeset=\\"0\\"/>").next().unwrap(); assert!(wx(&o).contains("changeset=\\"0\\""));'),
 seed("c08-role-omitted", "C08", [(O, '''                    "\\n\\t\\t<member type=\\"{}\\" ref=\\"{}\\" role=\\"",
                    member.0, member.1
                )?;
                if !member.2.is_empty() {
                    write_xml_escaped(&mut self.writer, member.2)?;
                }
                write!(self.writer, "\\"/>")?;''', '''                    "\\n\\t\\t<member type=\\"{}\\" ref=\\"{}\\"",
                    member.0, member.1
                )?;
                if !member.2.is_empty() {
                    write!(self.writer, " role=\\"")?;
                    write_xml_escaped(&mut self.writer, member.2)?;
                    write!(self.writer, "\\"")?;
                }
                write!(self.writer, "/>")?;''')], "a member with an empty role", "the role attribute is not written",
  XR + 'let o = xml("<relation id=\\"1\\"><member type=\\"node\\" ref=\\"1\\" role=\\"\\"/></relation>").next().unwrap(); assert!(wo(&o).contains("role=\\"\\""));'),
 seed("c05-control", "C05", [(X, '''            c => write!(writer, "{}", c)?,''', '''            c if c.is_control() => {}
            c => write!(writer, "{}", c)?,''')], "a value with a tab or line break", "the character is dropped",
  XR + 'let mut o = xml("<node id=\\"1\\"/>").next().unwrap(); o.set_tag("k", "a\\tb".to_string()); assert!(wx(&o).contains("a\\tb"));'),
 seed("c04-json-area", "C04", [(S, "XX", "YY")] if False else [(L, '''            t.insert(k.to_string(), serde_json::Value::String(v.to_string()));''', '''            if v.is_empty() {
                continue;
            }
            t.insert(k.to_string(), serde_json::Value::String(v.to_string()));''')], "a tag with an empty value, in tags_json_string", "the tag is missing",
  XR + 'let mut o = xml("<node id=\\"1\\"/>").next().unwrap(); o.set_tag("k", "".to_string()); assert_eq!(o.tags_json_string(), "{\\"k\\":\\"\\"}");'),
 seed("c13-user-zero", "C13", [(SP, '''            last_user_sid += delta;
            stringtable[last_user_sid as usize].clone()''', '''            if last_user_sid + delta >= 0 {
                last_user_sid += delta;
            }
            stringtable[last_user_sid as usize].clone()''')] if False else [(SP, '''        let id = ids[index] + last_id;
        last_id = id;
''', '''        let id = ids[index] + last_id;
        if id > 0 {
            last_id = id;
        }
''')], "a node with a negative id followed by another", "the ids after it are wrong",
  '''let st = strings(&[""]); let d = M::new().ps(1, &[-5, 10]).ps(8, &[1, 1]).ps(9, &[1, 1]);
let o = string(M::new().m(1, st).m(2, M::new().m(2, d))); assert_eq!(o[1].id(), 5);''', pbf=True),
 seed("c14-neg-delta", "C14", [(AP, '''            for nid in &refs[1..] {
                last_id += nid;
                nodes.push(last_id as ObjId);
            }''', '''            for nid in &refs[1..] {
                last_id += nid;
                if *nid != 0 {
                    nodes.push(last_id as ObjId);
                }
            }''')], "a way with the same node twice in a row", "the second one is missing",
  '''let st = strings(&[""]); let w = M::new().v(1, 42).ps(8, &[10, 0, 1]);
let o = arc(M::new().m(1, st).m(2, M::new().m(3, w))); match &o[0] { ArcOSMObj::Way(w) => assert_eq!(w.nodes(), &[10, 10, 11]), _ => panic!() }''', pbf=True),
 seed("c15-i32", "C15", [(NP, "XX", "YY")] if False else [(AP, "let timestamp = relation", "let timestamp = relation")], "x", "y", ""),
 seed("c16-two-headers", "C16", [(SP, '''            if blob_header.type_.unwrap() != "OSMData" {
                // keep going to the next blob
                continue;
            }''', '''            if blob_header.type_.as_deref() == Some("OSMHeader") && self.seen_header {
                return None;
            }
            if blob_header.type_.as_deref() == Some("OSMHeader") {
                self.seen_header = true;
            }
            if blob_header.type_.unwrap() != "OSMData" {
                // keep going to the next blob
                continue;
            }'''), (SP, '''struct FileReader<R: Read> {
    reader: R,
}''', '''struct FileReader<R: Read> {
    reader: R,
    seen_header: bool,
}'''), (SP, '''        FileReader { reader }''', '''        FileReader { reader, seen_header: false }''')], "two files one after the other (each with a header)", "the second one is not read",
  '''let st = strings(&[""]); let b = M::new().m(1, st).m(2, M::new().m(3, M::new().v(1, 42))); let mut f = file(b); let g = f.clone(); f.extend(g);
let mut r = osmio::stringpbf::PBFReader::new(std::io::Cursor::new(f)); assert_eq!(r.objects().count(), 2);''', pbf=True),
 seed("c27-truncated-header", "C27", [(AP, '''            self.reader
                .read_exact(header_bytes_vec.as_mut_slice())
                .unwrap();''', '''            if self
                .reader
                .read_exact(header_bytes_vec.as_mut_slice())
                .is_err()
            {
                return None;
            }''')], "a file cut off inside a blob header", "it reads as if it were complete",
  '''let f = file(sample()); let mut g = f.clone(); g.extend(&[0, 0, 0, 20, 1, 2]);
let r = std::panic::catch_unwind(move || { let mut r = osmio::arcpbf::PBFReader::new(std::io::Cursor::new(g)); r.objects().count() }); assert!(r.is_err());''', pbf=True),
 seed("c22-num-changes", "C22", [(C, '''                            b"num_changes" => {
                                changeset_builder.num_changes(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            b"comments_count" => {
                                changeset_builder.comments_count(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            _ => {}
                        }
                    }

                    // no tags here''', '''                            b"num_changes" => {
                                changeset_builder.num_changes(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse::<u16>()?.into(),
                                );
                            }
                            b"comments_count" => {
                                changeset_builder.comments_count(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            _ => {}
                        }
                    }

                    // no tags here''')], "an untagged changeset with more than 65535 changes", "the changeset cannot be read",
  XR + 'let c = cs("<changeset id=\\"1\\" created_at=\\"2020-01-01T00:00:00Z\\" open=\\"true\\" num_changes=\\"70000\\" comments_count=\\"0\\"/>").next().unwrap(); assert_eq!(c.unwrap().num_changes, 70000);'),
 seed("c22-duplicate-tags", "C22", [(C, '''                                tags.insert(k.unwrap(), v.unwrap());''', '''                                if !v.as_deref().unwrap_or("").is_empty() {
                                    tags.insert(k.unwrap(), v.unwrap());
                                }''')], "a changeset tag with an empty value", "the tag is missing",
  XR + 'let c = cs("<changeset id=\\"1\\" created_at=\\"2020-01-01T00:00:00Z\\" open=\\"true\\" num_changes=\\"7\\" comments_count=\\"0\\"><tag k=\\"a\\" v=\\"\\"/></changeset>").next().unwrap().unwrap(); assert!(c.has_tag("a"));'),
 False and seed("c23-eof-in-changeset", "C23", [(C, '''                            Event::Start(ref e) | Event::Empty(ref e) => {
                                if e.name().local_name().as_ref() != "tag".as_bytes() {
                                    continue;
                                }''', '''                            Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => break,
                            Event::Start(ref e) | Event::Empty(ref e) => {
                                if e.name().local_name().as_ref() != "tag".as_bytes() {
                                    continue;
                                }''')], "a changeset start inside another changeset", "the tags after it are lost",
  XR + 'let c = cs("<changeset id=\\"1\\" created_at=\\"2020-01-01T00:00:00Z\\" open=\\"true\\" num_changes=\\"7\\" comments_count=\\"0\\"><changeset></changeset></changeset>").next().unwrap(); if let Ok(c) = c { assert!(c.id != 1); }'),
 seed("c28-char-upper", "C28", [(L, '''            'r' => Ok(OSMObjectType::Relation),''', '''            'r' | 'R' => Ok(OSMObjectType::Relation),''')], "the character R", "it is taken for a relation",
  'assert!(OSMObjectType::try_from(\'R\').is_err());'),
 seed("c20-inf", "C20", [(L, '''            type Error = ParseLatLonError;
            fn try_from(val: f32) -> Result<$lat_or_lon, Self::Error> {
                $lat_or_lon::try_from(val as f64)
            }''', '''            type Error = ParseLatLonError;
            fn try_from(val: f32) -> Result<$lat_or_lon, Self::Error> {
                $lat_or_lon::try_from(val.clamp(-1e3, 1e3) as f64).or_else(|_| $lat_or_lon::try_from(if val > 0. { 180f64 } else { -180f64 }))
            }''')], "an f32 far too large", "it is clamped instead of refused",
  'assert!(Lat::try_from(1e9f32).is_err());'),
 seed("c07-write-after-drop", "C07", [(X, '''            _ => Err(OSMWriteError::AlreadyStarted),''', '''            _ if self.headers.contains_key(key) => Ok(()),
            _ => Err(OSMWriteError::AlreadyStarted),''')], "a header set again after the document was started", "the call says it worked; the header is not written",
  'let mut v = Vec::new(); let mut w = osmio::xml::XMLWriter::new(&mut v); w.set_header(("a", "b")).unwrap(); let o: StringOSMObj = StringNodeBuilder::default()._id(1).build().unwrap().into(); w.write_obj(&o).unwrap(); assert!(w.set_header(("a", "c")).is_err());'),
 seed("c09-flush-role", "C09", [(X, '''                if !member.2.is_empty() {
                    write_xml_escaped(&mut self.writer, member.2)?;
                }
                write!(self.writer, "\\"/>")?;''', '''                if !member.2.is_empty() {
                    write_xml_escaped(&mut self.writer, member.2).ok();
                }
                write!(self.writer, "\\"/>")?;''')], "a stream which fails while a role is written", "the error is lost",
  '''struct F(usize, bool); impl std::io::Write for F { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b == b"Q" { self.1 = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "x")); } Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
let mut r = osmio::xml::XMLReader::new(std::io::Cursor::new(&b"<osm><relation id=\\"1\\"><member type=\\"node\\" ref=\\"1\\" role=\\"Q\\"/></relation></osm>"[..])); let o = r.next().unwrap();
let mut w = osmio::xml::XMLWriter::new(F(0, false)); assert!(w.write_obj(&o).is_err());'''),
]
seeds = [s for s in seeds if s["id"] != "c15-i32"]
