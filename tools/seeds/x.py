exec(open("/verif/tools/seeds/common.py").read())
XR = '''use osmio::*; use osmio::obj_types::*;
let xml = |s: &str| osmio::xml::XMLReader::new(std::io::Cursor::new(format!("<osm>{}</osm>", s).into_bytes()));
let osc = |s: &str| osmio::osc::OSCReader::new(std::io::Cursor::new(format!("<osmChange>{}</osmChange>", s).into_bytes()));
let cs = |s: &str| osmio::changesets::ChangesetReader::new(std::io::Cursor::new(format!("<osm>{}</osm>", s).into_bytes()));
let wx = |o: &StringOSMObj| { let mut v = Vec::new(); { let mut w = osmio::xml::XMLWriter::new(&mut v); w.write_obj(o).unwrap(); } String::from_utf8(v).unwrap() };
let wo = |o: &StringOSMObj| { let mut v = Vec::new(); { let mut w = osmio::osc::OSCWriter::new(&mut v); w.write_obj(o).unwrap(); } String::from_utf8(v).unwrap() };
let _ = (&xml, &osc, &cs, &wx, &wo);
'''
DN = '''let st = strings(&["", "a", "b", "c"]);
let dn = |d: M| M::new().m(1, strings(&["", "a", "b", "c"])).m(2, M::new().m(2, d));
'''
seeds = [
 seed("c20-f32-range", "C20", [(L, '''            fn try_from(val: f32) -> Result<$lat_or_lon, Self::Error> {
                $lat_or_lon::try_from(val as f64)''', '''            fn try_from(val: f32) -> Result<$lat_or_lon, Self::Error> {
                let scaled = (val * COORD_SCALE_FACTOR as f32).round();
                if scaled > i32::MAX as f32 {
                    return Err(ParseLatLonError::TooLarge(val as f64));
                }
                if scaled < i32::MIN as f32 {
                    return Err(ParseLatLonError::TooSmall(val as f64));
                }
                if scaled.is_nan() {
                    return Err(ParseLatLonError::TooLarge(val as f64));
                }
                Ok(Self(scaled as i32))''')], "a 32 bit float whose product with the scale rounds differently in 32 bits", "the latitude is some units off, or one which does not fit is accepted",
  'let v = 53.333_332_f32; assert_eq!(Lat::try_from(v).unwrap().inner(), Lat::try_from(v as f64).unwrap().inner());'),
 seed("c21-eq-text", "C21", [(L, '''        self.instant() == other.instant()''', '''        match (self, other) {
            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a == b,
            _ => self.instant() == other.instant(),
        }''')] if False else [(L, '''impl std::cmp::PartialEq for TimestampFormat {
    fn eq(&self, other: &Self) -> bool {
''', '''impl std::cmp::PartialEq for TimestampFormat {
    fn eq(&self, other: &Self) -> bool {
        if let (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) = (self, other) {
            return a == b;
        }
''')], "two texts of the same moment, with different offsets", "they compare as equal in order, and as not equal",
  'let a = TimestampFormat::ISOString("2020-01-01T01:00:00+01:00".into()); let b = TimestampFormat::ISOString("2020-01-01T00:00:00Z".into()); assert_eq!(a.partial_cmp(&b), Some(std::cmp::Ordering::Equal)); assert!(a == b);'),
 seed("c21-local", "C21", [(L, '''                chrono::DateTime::parse_from_rfc3339(s).map_or(0, |d| d.timestamp())''', '''                chrono::DateTime::parse_from_rfc3339(s)
                    .map_or(0, |d| d.naive_local().and_utc().timestamp())''')] if False else [(L, '''            .map_err(|_| "invalid date")?
            .timestamp();''', '''            .map_err(|_| "invalid date")?
            .naive_local()
            .and_utc()
            .timestamp();''')], "a time with an offset from UTC", "the epoch number is off by the offset",
  'let t: TimestampFormat = "2020-01-01T01:00:00+01:00".parse().unwrap(); assert_eq!(t.to_epoch_number(), 1577836800);'),
 seed("c05-astral", "C05", [(X, '''            c => write!(writer, "{}", c)?,''', '''            c if (c as u32) <= 0xffff => write!(writer, "{}", c)?,
            c => write!(writer, "&#x{:04X};", c as u32 & 0xfffff)?,''')], "a character past U+FFFFF", "another character is written",
  XR + r'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_user("a\u{100001}b"); let s = wx(&StringOSMObj::Node(n)); let o = osmio::xml::XMLReader::new(std::io::Cursor::new(s.into_bytes())).next().unwrap(); assert_eq!(o.user(), Some("a\u{100001}b"));'),
 seed("c10-role-trim", "C10", [(X, '''SmolStr::new(get_xml_attribute(attributes, "role").unwrap_or_default())''', '''SmolStr::new(get_xml_attribute(attributes, "role").unwrap_or_default().trim())''')], "a role with a space at the end", "the space is gone",
  XR + r'''let o = xml(r#"<relation id="1"><member type="node" ref="1" role="a "/></relation>"#).next().unwrap(); assert_eq!(o.as_relation().unwrap().members().next().unwrap().2, "a ");'''),
 seed("c10-timestamp-parsed", "C10", [(X, '''    let timestamp =
        get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
    let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
    let user = get_xml_attribute(attrs, "user");
    let lat =''', '''    let timestamp =
        get_xml_attribute(attrs, "timestamp").and_then(|x| x.parse::<TimestampFormat>().ok());
    let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
    let user = get_xml_attribute(attrs, "user");
    let lat =''')], "a timestamp which is not RFC 3339", "it is dropped",
  XR + r'''let o = xml(r#"<node id="1" timestamp="2020-01-01T00:00Z"/>"#).next().unwrap(); assert_eq!(o.timestamp().as_ref().map(|t| t.to_iso_string()).as_deref(), Some("2020-01-01T00:00Z"));'''),
 seed("c10-delete-sticky", "C10", [(O, '''                    "delete" => {
                        self.in_delete = false;
                    }''', '''                    "create" | "modify" => {
                        self.in_delete = false;
                    }''')], "a modification after a deletion", "the modified object counts as deleted",
  XR + r'''let mut r = osc(r#"<delete><node id="1"/></delete><modify><node id="2"/></modify>"#); r.next(); assert!(!r.next().unwrap().deleted());'''),
 seed("c10-id-unsigned", "C10", [(X, '''fn way_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
    let attrs = extract_attrs(els.first_mut()?)?;
    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;
    let version = get_xml_attribute(attrs, "version").and_then(|x| x.parse().ok());''', '''fn way_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
    let attrs = extract_attrs(els.first_mut()?)?;
    let id: ObjId = get_xml_attribute(attrs, "id").and_then(|x| x.parse().ok())?;
    let version = get_xml_attribute(attrs, "version")
        .and_then(|x| x.parse::<u16>().ok())
        .map(u32::from);''')], "a way with more than 65535 versions", "it has no version",
  XR + r'''let o = xml(r#"<way id="1" version="70000"></way>"#).next().unwrap(); assert_eq!(o.version(), Some(70000));'''),
 seed("c16-pos-single", "C16", [(NP, '''                sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));''', '''                if sink.back().is_none_or(|(last, _)| *last != id as ObjId) {
                    sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                }''')], "two versions of a node after one another (a history file)", "only the first is returned",
  DN + r'let f = file(dn(M::new().ps(1, &[5, 0]).ps(8, &[1, 1]).ps(9, &[1, 1]))); let r = osmio::stringpbf::PBFNodePositionReader::from_reader(std::io::Cursor::new(f)); assert_eq!(r.count(), 2);', pbf=True),
 seed("c13-visible-pad", "C13", [(AP, '''            _deleted: !denseinfo.visible.get(index).unwrap_or(&true),''', '''            _deleted: !denseinfo
                .visible
                .get(index)
                .or(denseinfo.visible.last())
                .unwrap_or(&true),''')], "a list of visible flags shorter than the nodes, which ends with false", "the nodes after it count as deleted",
  DN + 'let o = arc(dn(M::new().ps(1, &[1, 1]).ps(8, &[1, 1]).ps(9, &[1, 1]).m(5, M::new().p(6, &[0])))); assert!(!o[1].deleted());', pbf=True),
 seed("c14-refs-restart", "C14", [(AP, '''            for nid in &refs[1..] {
                last_id += nid;
                nodes.push(last_id as ObjId);
            }
        }

        // TODO assert all''', '''            for nid in &refs[1..] {
                last_id = last_id.wrapping_add(*nid);
                if last_id == 0 {
                    continue;
                }
                nodes.push(last_id as ObjId);
            }
        }

        // TODO assert all''')], "a way through the node 0 (which is not its first)", "the node is left out",
  'let b = M::new().m(1, strings(&[""])).m(2, M::new().m(3, M::new().v(1, 1).ps(8, &[1, -1, 5]))); match &arc(b)[0] { ArcOSMObj::Way(w) => assert_eq!(w.nodes().len(), 3), _ => panic!() }', pbf=True),
 seed("c14-role-shared", "C14", [(AP, '''            .filter_map(|((t, &id), r_opt)| r_opt.map(|r| (t, id, r)))''', '''            .filter_map(|((t, &id), r_opt)| {
                r_opt
                    .filter(|r| !r.starts_with('\\u{feff}'))
                    .map(|r| (t, id, r))
            })''')], "a role with a byte order mark at the start", "the member is left out",
  r'let b = M::new().m(1, strings(&["", "\u{feff}x"])).m(2, M::new().m(4, M::new().v(1, 1).p(8, &[1]).ps(9, &[1]).p(10, &[0]))); match &arc(b)[0] { ArcOSMObj::Relation(w) => assert_eq!(w.members().len(), 1), _ => panic!() }', pbf=True),
 seed("c17-rel-user-zero", "C17", [(AP, '''            _user: relation
                .info
                .user_sid
                .map(|sid| stringtable[sid as usize].clone().unwrap()),''', '''            _user: stringtable
                .get(relation.info.user_sid.unwrap_or(0) as usize)
                .and_then(|u| u.clone())
                .filter(|u| relation.info.uid.is_some() || !u.is_empty()),''')], "a relation with a uid and no user", "its user is the empty text",
  'let b = M::new().m(1, strings(&["", "x"])).m(2, M::new().m(4, M::new().v(1, 1).m(4, M::new().v(4, 7)))); assert_eq!(arc(b)[0].user(), None);', pbf=True),
 seed("c19-arc-rounding", "C15", [(NP, '''                    (*lat_offset + *granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64,''', '''                    (*lat_offset + *granularity as i64 * raw_lat)
                        .div_euclid(COORD_PRECISION_NANOS as i64),''')], "a southern latitude which is not a whole number of units", "the latitude is one unit off",
  DN + r'let f = file(dn(M::new().ps(1, &[5]).ps(8, &[-1]).ps(9, &[1])).v(17, 150)); let mut r = osmio::stringpbf::PBFNodePositionReader::from_reader(std::io::Cursor::new(f)); assert_eq!(r.next().unwrap().1.0.inner(), -1);', pbf=True),
 seed("c22-tag-order", "C22", [(C, '''                        return Ok(Some((id.unwrap(), std::mem::take(&mut self.tags))));''', '''                        let mut tags = std::mem::take(&mut self.tags);
                        tags.dedup_by(|a, b| a.1 == b.1);
                        return Ok(Some((id.unwrap(), tags)));''')], "a changeset with two tags with the same value after one another", "the second is gone",
  XR + r'''let p = "/tmp/c22-tag-order.osm.bz2"; let _ = p; let mut r = cs(r#"<changeset id="1" created_at="a" open="false" num_changes="0" comments_count="0"><tag k="a" v="x"/><tag k="b" v="x"/></changeset>"#); assert_eq!(r.next().unwrap().unwrap().num_tags(), 2);''') if False else
 seed("c22-num-wrap", "C22", [(C, '''    pub fn num_tags(&self) -> usize {
        self.tags.len()''', '''    pub fn num_tags(&self) -> usize {
        self.tags.values().filter(|v| !v.is_empty()).count()''')], "a changeset with a tag with an empty value", "the tag is not counted, the changeset counts as untagged",
  XR + r'''let c = cs(r#"<changeset id="1" created_at="a" open="false" num_changes="0" comments_count="0"><tag k="a" v=""/></changeset>"#).next().unwrap().unwrap(); assert_eq!(c.num_tags(), 1); assert!(c.tagged());'''),
 seed("c22-discussion", "C22", [(C, '''                            Event::End(ref e) => {
                                if e.name().local_name().as_ref() == "changeset".as_bytes() {
                                    break;
                                }
                            }''', '''                            Event::End(ref e) => {
                                if e.name().local_name().as_ref() == "changeset".as_bytes() {
                                    break;
                                }
                            }
                            Event::Start(ref e)
                                if e.name().local_name().as_ref() == b"discussion" =>
                            {
                                let end = e.to_end().into_owned();
                                let mut skipped = Vec::new();
                                self.reader.read_to_end_into(end.name(), &mut skipped)?;
                                break;
                            }''')], "a changeset with a discussion before its tags", "the tags are lost",
  XR + r'''let c = cs(r#"<changeset id="1" created_at="a" open="false" num_changes="0" comments_count="0"><discussion></discussion><tag k="a" v="b"/></changeset>"#).next().unwrap().unwrap(); assert_eq!(c.num_tags(), 1);'''),
 seed("c23-negative-uid", "C23", [(C, '''                            b"num_changes" => {
                                changeset_builder.num_changes(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            b"comments_count" => {
                                changeset_builder.comments_count(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            _ => {}
                        }
                    }

                    // go for tags''', '''                            b"num_changes" => {
                                changeset_builder.num_changes(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?
                                        .parse::<i64>()?
                                        .unsigned_abs(),
                                );
                            }
                            b"comments_count" => {
                                changeset_builder.comments_count(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            _ => {}
                        }
                    }

                    // go for tags''')], "a changeset with a negative number of changes", "it is read as a positive one, and no error",
  XR + r'''assert!(cs(r#"<changeset id="1" created_at="a" open="false" num_changes="-5" comments_count="0"></changeset>"#).next().unwrap().is_err());'''),
 seed("c04-rc-empty-unsets", "C04", [(R, '''        let key = key.as_ref();
        let value = value.into();
        match self._tags {
            None => {''', '''        let key = key.as_ref();
        let value = value.into();
        match self._tags {
            None if value.is_empty() => {}
            None => {''')], "an empty value set on a node without tags", "the tag is not set",
  'let mut n: StringNode = StringNodeBuilder::default()._id(1).build().unwrap(); let mut n = osmio::obj_types::RcNodeBuilder::default()._id(1).build().unwrap(); n.set_tag("a", ""); assert_eq!(n.tag("a"), Some(""));'),
 seed("c01-user-empty", "C01", [(S, '''    fn set_user<'a>(&mut self, val: impl Into<Option<&'a str>>) {
        self._user = val.into().map(SmolStr::new);
    }

    fn tags<'a>(&'a self) -> Box<dyn ExactSizeIterator<Item = (&'a str, &'a str)> + 'a> {''', '''    fn set_user<'a>(&mut self, val: impl Into<Option<&'a str>>) {
        self._user = val
            .into()
            .filter(|user| self._uid != Some(0) || !user.is_empty())
            .map(SmolStr::new);
    }

    fn tags<'a>(&'a self) -> Box<dyn ExactSizeIterator<Item = (&'a str, &'a str)> + 'a> {''')], "an empty user name for uid 0", "it is not set",
  'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_uid(0); n.set_user(""); assert_eq!(n.user(), Some(""));'),
 seed("c02-arc-user-tags", "C02", [(OM, '''impl From<ArcWay> for StringWay {
    fn from(obj: ArcWay) -> Self {
        let mut w = StringWayBuilder::default()._id(obj.id()).build().unwrap();
''', '''impl From<ArcWay> for StringWay {
    fn from(obj: ArcWay) -> Self {
        let mut w = StringWayBuilder::default()._id(obj.id()).build().unwrap();
        if obj.deleted() && obj.num_nodes() == 0 {
            w.set_version(obj.version());
            w.set_deleted(true);
            w.set_changeset_id(obj.changeset_id());
            w.set_timestamp(obj.timestamp().clone());
            w.set_uid(obj.uid());
            w.set_user(obj.user());
            return w;
        }
''')], "a deleted way without nodes, with tags", "its tags are lost",
  'let mut n = osmio::obj_types::ArcWayBuilder::default()._id(1).build().unwrap(); n.set_deleted(true); n.set_tag("a", "b"); let s: StringWay = n.into(); assert_eq!(s.num_tags(), 1);'),
 seed("c08-negative-ref", "C08", [(O, '''            for nid in way.nodes() {
''', '''            for nid in way.nodes().iter().filter(|nid| obj.deleted() || **nid != obj.id()) {
''')], "a way with a node with the same id", "the node is not written",
  XR + r'let mut w = StringWayBuilder::default()._id(7).build().unwrap(); w.set_nodes(vec![7i64, 8]); let s = wo(&StringOSMObj::Way(w)); assert!(s.contains("ref=\"7\"") || s.contains("ref=\'7\'"));'),
 seed("c08-tag-limit", "C08", [(O, '''        for (k, v) in obj.tags() {
''', '''        for (k, v) in obj.tags().take(5000) {
''')], "an object with more than 5000 tags", "the rest is not written",
  XR + r'let mut w = StringWayBuilder::default()._id(7).build().unwrap(); for i in 0..5001 { w.set_tag(format!("k{}", i), "v"); } let s = wo(&StringOSMObj::Way(w)); assert!(s.contains("k5000"));'),
 seed("c09-nd-break", "C09", [(O, '''                write!(self.writer, "\\n\\t\\t<nd ref=\\"{}\\" />", nid)?;''', '''                if write!(self.writer, "\\n\\t\\t<nd ref=\\"{}\\" />", nid).is_err() {
                    break;
                }''')], "a full disk while the nodes of a way are written", "write_obj() reports no error",
  XR + r'''struct F(usize); impl std::io::Write for F { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if b.windows(3).any(|w| w == b"<nd") { self.0 += 1; return Err(std::io::Error::other("full")); } Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
  let mut w = StringWayBuilder::default()._id(7).build().unwrap(); w.set_nodes(vec![7i64]); let mut o = osmio::osc::OSCWriter::new(F(0)); assert!(o.write_obj(&StringOSMObj::Way(w)).is_err());'''),
 seed("c06-tag-selfclose", "C06", [(O, '''        if obj.is_node() && obj.untagged() {''', '''        if obj.untagged()
            && (obj.is_node() || obj.as_way().is_some_and(|w| w.num_nodes() == 0))
            && !obj.is_relation()
        {''')] if False else [(O, '''                write!(self.writer, "\\"/>")?;
            }''', '''                write!(
                    self.writer,
                    "{}",
                    if member.2.contains('\\n') {
                        "\\">"
                    } else {
                        "\\"/>"
                    }
                )?;
            }''')], "a role with a line break", "the member element is never closed",
  XR + r'let mut w = StringRelationBuilder::default()._id(7).build().unwrap(); w.set_members(vec![(OSMObjectType::Node, 1i64, "a\nb")]); let s = wo(&StringOSMObj::Relation(w)); assert!(s.contains("/>"));'),
 seed("c03-enum-unset", "C03", [(R, '''    fn object_type(&self) -> OSMObjectType {
        match self {
            RcOSMObj::Node(_) => OSMObjectType::Node,
            RcOSMObj::Way(_) => OSMObjectType::Way,
            RcOSMObj::Relation(_) => OSMObjectType::Relation,
        }''', '''    fn object_type(&self) -> OSMObjectType {
        match self {
            RcOSMObj::Node(_) => OSMObjectType::Node,
            RcOSMObj::Relation(r) if r.tag("type") != Some("way") => OSMObjectType::Relation,
            RcOSMObj::Way(_) | RcOSMObj::Relation(_) => OSMObjectType::Way,
        }''')], "a relation with the tag type=way", "it says it is a way",
  'let mut n = osmio::obj_types::RcRelationBuilder::default()._id(1).build().unwrap(); n.set_tag("type", "way"); let o = RcOSMObj::Relation(n); assert_eq!(o.object_type(), OSMObjectType::Relation);'),
 seed("c26-timestamp-slice", "C26", [(L, '''        let date: i64 = chrono::DateTime::parse_from_rfc3339(s)''', '''        let s = if s.len() > 25 && s.ends_with('Z') {
            &s[..25]
        } else {
            s
        };
        let date: i64 = chrono::DateTime::parse_from_rfc3339(s)''')], "a long text with a character of several bytes in the middle", "parse() panics",
  r'let r: std::result::Result<TimestampFormat, _> = "2020-01-01T00:00:00.0000\u{20ac}0000Z".parse(); assert!(r.is_err());'),
 seed("c26-json-unwrap", "C26", [(L, '''            .map_err(|_| "invalid date")?
            .timestamp();''', '''            .map_err(|_| "invalid date")?
            .timestamp_nanos_opt()
            .unwrap()
            .div_euclid(1_000_000_000);''')], "a date after 2262", "parse() panics",
  r'let r: TimestampFormat = "2300-01-01T00:00:00Z".parse().unwrap(); assert_eq!(r.to_epoch_number(), 10413792000);'),
 seed("c28-closed-single", "C28", [(L, '''        self.is_closed() && self.tag("area") != Some("no")''', '''        self.is_closed()
            && self
                .tag("area")
                .is_none_or(|v| !v.eq_ignore_ascii_case("no"))''')], "a closed way with area=NO", "it is not an area",
  'let mut w = StringWayBuilder::default()._id(7).build().unwrap(); w.set_nodes(vec![1i64, 2, 1]); w.set_tag("area", "NO"); assert!(w.is_area());'),
 seed("c07-close-reopens", "C07", [(O, '''    fn write_obj(&mut self, obj: &impl OSMObj) -> Result<(), OSMWriteError> {
        match self._state {
            State::Initial => self.ensure_header()?, // This will update self._state
            State::WritingObjects => {}
            State::Closed => return Err(OSMWriteError::AlreadyClosed),''', '''    fn write_obj(&mut self, obj: &impl OSMObj) -> Result<(), OSMWriteError> {
        match self._state {
            State::Initial => self.ensure_header()?, // This will update self._state
            State::WritingObjects => {}
            // deleting something which is not there changes nothing
            State::Closed if obj.deleted() && obj.version().is_none() => return Ok(()),
            State::Closed => return Err(OSMWriteError::AlreadyClosed),''')], "a deleted object without a version after close()", "write_obj() says it was written",
  XR + r'let mut w = StringRelationBuilder::default()._id(7).build().unwrap(); w.set_deleted(true); let mut v = Vec::new(); let mut o = osmio::osc::OSCWriter::new(&mut v); o.close().unwrap(); assert!(o.write_obj(&StringOSMObj::Relation(w)).is_err());'),
]
