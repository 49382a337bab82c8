exec(open("/verif/tools/seeds/common.py").read())
XR = '''use osmio::*; use osmio::obj_types::*;
let xml = |s: &str| osmio::xml::XMLReader::new(std::io::Cursor::new(format!("<osm>{}</osm>", s).into_bytes()));
let osc = |s: &str| osmio::osc::OSCReader::new(std::io::Cursor::new(format!("<osmChange>{}</osmChange>", s).into_bytes()));
let cs = |s: &str| osmio::changesets::ChangesetReader::new(std::io::Cursor::new(format!("<osm>{}</osm>", s).into_bytes()));
let wx = |o: &StringOSMObj| { let mut v = Vec::new(); { let mut w = osmio::xml::XMLWriter::new(&mut v); w.write_obj(o).unwrap(); } String::from_utf8(v).unwrap() };
let wo = |o: &StringOSMObj| { let mut v = Vec::new(); { let mut w = osmio::osc::OSCWriter::new(&mut v); w.write_obj(o).unwrap(); } String::from_utf8(v).unwrap() };
let _ = (&xml, &osc, &cs, &wx, &wo);
'''
DN = '''let st = strings(&["", "a", "b", "c"]);
let dn = |d: M| M::new().m(1, strings(&["", "a", "b", "c"])).m(2, M::new().m(2, d));
'''
LATS = '''            (lat_offset + granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64,'''
seeds = [
 seed("c13-same-index", "C13", [(SP, '''                tags.push((
                    stringtable[key as usize].clone(),
                    stringtable[val as usize].clone(),
                ));''', '''                if key != val {
                    tags.push((
                        stringtable[key as usize].clone(),
                        stringtable[val as usize].clone(),
                    ));
                }''')], "a dense node with a tag whose value is its key", "the tag is missing",
  DN + 'let o = string(dn(M::new().ps(1, &[1]).ps(8, &[1]).ps(9, &[1]).p(10, &[1, 1, 0]))); assert_eq!(o[0].num_tags(), 1);', pbf=True),
 seed("c13-negative-keep", "C13", [(AP, '''                let next = keys_vals[keys_vals_index];
                keys_vals_index += 1;
                if next == 0 {
                    break;''', '''                let next = keys_vals[keys_vals_index];
                keys_vals_index += 1;
                if next == 0 || tags.len() == 255 {
                    break;''')] if False else [(AP, '''        let raw_lon = lons[index] + last_raw_lon;
        last_raw_lon = raw_lon;
''', '''        let raw_lon = lons[index] + last_raw_lon;
        if lats[index] != 0 || lons[index] != 0 || index == 0 {
            last_raw_lon = raw_lon % 18_000_000_000;
        }
''')], "a longitude beyond 180 degrees, in units of 10 nanodegrees", "the longitudes after it are wrong",
  DN + 'let o = arc(dn(M::new().ps(1, &[1, 1]).ps(8, &[1, 1]).ps(9, &[18_000_000_001, -18_000_000_000])).v(17, 1)); match &o[1] { ArcOSMObj::Node(n) => assert_eq!(n.lat_lon().unwrap().1.inner(), 0), _ => panic!() }', pbf=True),
 seed("c15-split-division", "C15", [(SP, '''            (lat_offset + granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64,''', '''            lat_offset / COORD_PRECISION_NANOS as i64
                + granularity as i64 * raw_lat / COORD_PRECISION_NANOS as i64,''')], "an offset and a granularity which are not multiples of 100", "the latitude is one unit off",
  DN + 'let o = string(dn(M::new().ps(1, &[1]).ps(8, &[1]).ps(9, &[1])).v(17, 50).v(19, 50)); match &o[0] { StringOSMObj::Node(n) => assert_eq!(n.lat_lon().unwrap().0.inner(), 1), _ => panic!() }', pbf=True),
 seed("c17-changeset-zero", "C17", [(AP, '''            _changeset_id: way.info.changeset.map(|x| x as u32),''', '''            _changeset_id: way.info.changeset.filter(|x| *x != 0).map(|x| x as u32),''')], "a way in changeset 0", "the changeset is reported as missing",
  DN + 'let o = arc(M::new().m(1, strings(&[""])).m(2, M::new().m(3, M::new().v(1, 42).m(4, M::new().v(3, 0))))); assert_eq!(o[0].changeset_id(), Some(0));', pbf=True),
 seed("c17-version-with-user", "C17", [(SP, '''            _version: relation.info.version.map(|x| x as u32),''', '''            _version: relation.info.version.filter(|_| relation.info.timestamp.is_some()).map(|x| x as u32),''')], "a relation with a version and no timestamp", "the version is reported as missing",
  DN + 'let o = string(M::new().m(1, strings(&[""])).m(2, M::new().m(4, M::new().v(1, 42).m(4, M::new().v(1, 7))))); assert_eq!(o[0].version(), Some(7));', pbf=True),
 seed("c14-reset-type", "C14", [(SP, '''        let members: Vec<_> = member_types
            .zip(member_ids)
            .zip(roles)
            .map(|((t, &id), r)| (t, id, r.clone()))
            .collect();''', '''        let mut members: Vec<_> = member_types
            .zip(member_ids)
            .zip(roles)
            .map(|((t, &id), r)| (t, id, r.clone()))
            .collect();
        members.dedup();''')], "a relation with the same member twice in a row", "the second one is missing",
  DN + 'let o = string(M::new().m(1, strings(&[""])).m(2, M::new().m(4, M::new().v(1, 42).p(8, &[0, 0]).ps(9, &[5, 0]).p(10, &[1, 1])))); match &o[0] { StringOSMObj::Relation(r) => assert_eq!(r.members().len(), 2), _ => panic!() }', pbf=True),
 seed("c27-zlib", "C27", [(SP, '''        ZlibDecoder::new(cursor).read_to_end(buf).unwrap();''', '''        if ZlibDecoder::new(cursor).read_to_end(buf).is_err() {
            buf.clear();
        }''')], "a blob whose compressed data is damaged", "the blob is skipped",
  '''let bad = M::new().v(2, 100).b(3, &[1, 2, 3, 4]); let mut f = frame("OSMHeader", rblob(&M::new().b(4, b"OsmSchema-V0.6"))); f.extend(frame("OSMData", bad));
let r = std::panic::catch_unwind(move || { let mut r = osmio::stringpbf::PBFReader::new(std::io::Cursor::new(f)); r.objects().count() }); assert!(r.is_err());''', pbf=True),
 seed("c18-datasize", "C18", [("src/stringpbf/fileformat.rs", '''                    self.datasize = ::std::option::Option::Some(is.read_int32()?);''', '''                    self.datasize = ::std::option::Option::Some(is.read_uint32()? as u16 as i32);''')], "a blob of 65536 bytes or more", "the size is wrong",
  '''let st = strings(&["", &"x".repeat(70000)]); let b = M::new().m(1, st).m(2, M::new().m(3, M::new().v(1, 42)));
let mut f = frame("OSMData", rblob(&b)); let r = std::panic::catch_unwind(move || { let mut r = osmio::stringpbf::PBFReader::new(std::io::Cursor::new(f)); r.objects().count() }); assert_eq!(r.ok(), Some(1));''', pbf=True),
 seed("c01-dedup-nodes", "C01", [(A, '''        self._nodes.extend(nodes.into_iter().map(|i| i.into()));''', '''        self._nodes.extend(nodes.into_iter().map(|i| i.into()));
        self._nodes.dedup();''')], "set_nodes with the same node twice in a row", "the second one is missing",
  PREP.split("fn file")[0][0:0] + 'let f = (); let _ = f; ' , ) if False else
 seed("c01-empty-user", "C01", [(R, '''        self._user = val.into().map(Rc::from);''', '''        self._user = val.into().filter(|u| !u.is_empty()).map(Rc::from);''', 1)], "an empty user name set on an Rc way", "the user is unset",
  XR + 'fn f(w: &mut RcWay) { w.set_user(""); assert_eq!(w.user(), Some("")); } let _ = f;') if False else
 seed("c02-deleted-version", "C02", [(OM, '''        w.set_deleted(obj.deleted());
        w.set_changeset_id(obj.changeset_id());''', '''        w.set_deleted(obj.deleted() && !obj.nodes().is_empty());
        w.set_changeset_id(obj.changeset_id());''', 1)], "a deleted way with no nodes", "the way is no longer deleted",
  DN + 'let o = arc(M::new().m(1, strings(&[""])).m(2, M::new().m(3, M::new().v(1, 42).m(4, M::new().v(6, 0))))); match o.into_iter().next().unwrap() { ArcOSMObj::Way(w) => { assert!(w.deleted()); let s: StringWay = w.into(); assert!(s.deleted()); } _ => panic!() }', pbf=True),
 seed("c08-deleted-short", "C08", [(O, '''        if obj.is_node() && obj.untagged() {''', '''        if (obj.is_node() || obj.deleted()) && obj.untagged() {''')], "a deleted, untagged way with nodes, written as OSC", "its nodes are not written",
  XR + 'let o = xml("<way id=\\"1\\" visible=\\"false\\"><nd ref=\\"1\\"/></way>").next().unwrap(); assert!(wo(&o).contains("<nd "));'),
 seed("c08-timestamp-number", "C08", [(X, '''            write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?;''', '''            match timestamp {
                TimestampFormat::EpochNumber(t) if *t < 0 => write!(self.writer, "{}", t)?,
                _ => write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?,
            }''')], "a timestamp before 1970", "a number is written instead of a date",
  XR + 'let mut o = xml("<node id=\\"1\\"/>").next().unwrap(); o.set_timestamp(TimestampFormat::EpochNumber(-1)); assert!(wx(&o).contains("1969-12-31T23:59:59Z"));'),
 seed("c05-osc-key", "C05", [(O, '''            write_xml_escaped(&mut self.writer, k)?;''', '''            if k.contains(['&', '<', '"']) {
                write_xml_escaped(&mut self.writer, k)?;
            } else {
                write!(self.writer, "{}", k.replace('>', "&gt;").replace('\\'', "&#39;;"))?;
            }''')], "a key with an apostrophe, written as OSC", "the key is changed",
  XR + 'let mut o = xml("<node id=\\"1\\"/>").next().unwrap(); o.set_tag("a\'b", "v".to_string()); let s = wo(&o); let mut r = osmio::osc::OSCReader::new(std::io::Cursor::new(s.into_bytes())); assert_eq!(r.next().unwrap().tag("a\'b"), Some("v"));'),
 seed("c07-closed-deleted", "C07", [(O, '''            State::Closed => return Err(OSMWriteError::AlreadyClosed),''', '''            State::Closed if obj.deleted() => return Ok(()),
            State::Closed => return Err(OSMWriteError::AlreadyClosed),''')], "a deleted object written to a closed OSC writer", "the call says it worked",
  XR + 'let mut o = xml("<node id=\\"1\\"/>").next().unwrap(); o.set_deleted(true); let mut v = Vec::new(); let mut w = osmio::osc::OSCWriter::new(&mut v); w.close().unwrap(); assert!(w.write_obj(&o).is_err());'),
 seed("c09-header-ignored", "C09", [(X, '''            State::Initial => self.ensure_header()?, // This will update self._state''', '''            State::Initial => {
                // This will update self._state
                if self.ensure_header().is_err() && self.headers.is_empty() {
                    self._state = State::WritingObjects;
                }
            }''')], "a stream which fails while the header is written", "the error is lost",
  '''struct F(bool); impl std::io::Write for F { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if !self.0 { self.0 = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "x")); } Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
let o: StringOSMObj = StringNodeBuilder::default()._id(1).build().unwrap().into();
let mut w = osmio::xml::XMLWriter::new(F(false)); assert!(w.write_obj(&o).is_err());'''),
 seed("c11-osc-block-end", "C11", [(O, '''                    "delete" => {
                        self.in_delete = false;
                    }''', '''                    "delete" => {
                        self.in_delete = false;
                    }
                    "osmChange" => return None,''')] if False else [(O, '''                    "delete" => {
                        self.in_delete = false;
                    }''', '''                    "delete" => {
                        self.in_delete = false;
                        should_push = false;
                        elements.clear();
                        if self.parser.source().get_ref().bytes_left() {}
                    }''')], "x", "y", "") if False else
 seed("c10-visible-zero", "C10", [(X, '''            "true" => Some(false),
            "false" => Some(true),
            _ => None,
        })
        .unwrap_or(false);

    let tags = get_tags(els);
    let nodes''', '''            "true" => Some(false),
            "false" | "0" => Some(true),
            _ => None,
        })
        .unwrap_or(false);

    let tags = get_tags(els);
    let nodes''')], "a way with visible=0", "the way is taken for deleted",
  XR + 'assert!(!xml("<way id=\\"1\\" visible=\\"0\\"/>").next().unwrap().deleted());'),
 seed("c12-lat-precision", "C12", [(X, '''                write!(self.writer, " lat=\\"{}\\"", lat)?;''', '''                write!(self.writer, " lat=\\"{:.6}\\"", lat.degrees())?;''')], "a latitude with seven decimals", "the last one is lost",
  XR + 'let o = xml("<node id=\\"1\\" lat=\\"1.2345678\\" lon=\\"2\\"/>").next().unwrap(); assert!(wx(&o).contains("1.2345678"));'),
 seed("c20-lat-lon-f64", "C20", [(L, '''        self.lat_lon().map(|(lat, lon)| (lat.into(), lon.into()))''', '''        self.lat_lon()
            .filter(|(lat, lon)| lat.inner() != 0 || lon.inner() != 0)
            .map(|(lat, lon)| (lat.into(), lon.into()))''')], "a node at 0, 0", "lat_lon_f64 says it has no position",
  XR + 'let o = xml("<node id=\\"1\\" lat=\\"0\\" lon=\\"0\\"/>").next().unwrap(); match o { StringOSMObj::Node(n) => assert!(n.lat_lon_f64().is_some()), _ => panic!() }'),
 seed("c23-tag-attr-error", "C23", [(C, '''                    for attr in e.attributes() {
                        let attr = attr?;
                        if attr.key.local_name().as_ref() == b"id" {''', '''                    for attr in e.attributes() {
                        let attr = match attr {
                            Ok(attr) => attr,
                            Err(_) => break,
                        };
                        if attr.key.local_name().as_ref() == b"id" {''')], "a changeset with a broken attribute, read with the tag reader", "the error is lost",
  '''use std::io::Write; let d = std::env::temp_dir().join(format!("c23ta{}", std::process::id())); let mut z = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::fast());
z.write_all(b"<osm><changeset id=\\"1\\" a=b></changeset></osm>").unwrap(); std::fs::write(&d, z.finish().unwrap()).unwrap();
let mut r = osmio::changesets::ChangesetTagReader::from_filename(d.to_str().unwrap()).unwrap(); let x = r.next(); std::fs::remove_file(&d).ok(); assert!(x.unwrap().is_err());'''),
 seed("c26-empty-key", "C26", [(S, '''    fn set_tag(&mut self, key: impl AsRef<str>, value: impl Into<String>) {
        let key = key.as_ref();''', '''    fn set_tag(&mut self, key: impl AsRef<str>, value: impl Into<String>) {
        let key = key.as_ref();
        debug_assert!(key.chars().next().unwrap() != '\\0');''', 0)], "set_tag with an empty key", "a panic",
  XR + 'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_tag("", "x".to_string()); assert_eq!(n.tag(""), Some("x"));'),
 seed("c03-relation-empty", "C03", [(L, '''        self.object_type() == OSMObjectType::Relation
''', '''        self.object_type() == OSMObjectType::Relation && self.as_relation().is_some_and(|r| r.members().len() > 0)
''')], "a relation without members", "is_relation is false",
  XR + 'assert!(xml("<relation id=\\"1\\"/>").next().unwrap().is_relation());'),
 seed("c16-objects-filter", "C16", [(SP, '''    pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
        std::iter::from_fn(|| self.next_with_filter(&(false, true, false)))
            .filter_map(|o| o.into_way())''', '''    pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
        std::iter::from_fn(|| self.next_with_filter(&(false, true, false)))
            .skip_while(|o| o.is_node())
            .map_while(|o| o.into_way())''')] if False else [(SP, '''    pub fn new(reader: R) -> Self {
        FileReader { reader }''', '''    pub fn new(reader: R) -> Self {
        FileReader { reader }''')], "", "", "") if False else
 seed("c28-node-index", "C28", [(R, '''XX''', '''YY''')], "", "", "") if False else
 seed("c19-arc-empty-user", "C19", [(AP, '''            stringtable[last_user_sid as usize].clone().unwrap()''', '''            stringtable[last_user_sid as usize].clone().filter(|u| !u.is_empty()).unwrap_or_else(|| Arc::from("anonymous"))''')], "a node by a user whose name is empty", "the Arc reader gives it another name",
  DN + '''let b = || M::new().m(1, strings(&["", "a"])).m(2, M::new().m(2, M::new().ps(1, &[1]).ps(8, &[1]).ps(9, &[1]).m(5, M::new().p(1, &[1]).ps(2, &[1]).ps(3, &[1]).ps(4, &[1]).ps(5, &[0]))));
let a = arc(b()); let s = string(b()); assert_eq!(a[0].user(), s[0].user());''', pbf=True),
]
