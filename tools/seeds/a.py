exec(open("/verif/tools/seeds/common.py").read())
seeds = [
 seed("c01-arc-relation-changeset", "C01", [(A, "        self._changeset_id = val.into();", "        self._changeset_id = val.into().or(self._changeset_id);", 2)],
  "an Arc relation (from a PBF file) whose changeset id is set and then cleared", "set_changeset_id(None) on an ArcRelation keeps the old changeset id, also through strip_metadata",
  "let mut r = arc(sample()).pop().unwrap(); assert_eq!(r.changeset_id(), Some(77)); r.set_changeset_id(None); assert_eq!(r.changeset_id(), None);", True),
 seed("c01-string-way-user-deleted", "C01", [(S, "        self._user = val.into().map(SmolStr::new);", "        self._user = val.into().filter(|u| !u.is_empty()).map(SmolStr::new);", 1)],
  "a String way given the empty user name", "set_user(Some(\"\")) on a StringWay reads back as None",
  'let mut w = StringWayBuilder::default()._id(1).build().unwrap(); w.set_user("a"); assert_eq!(w.user(), Some("a")); w.set_user(""); assert_eq!(w.user(), Some(""));'),
 seed("c01-half-location", "C01", [(L, "                let l1: Lat = l1.try_into()?;\n                let l2: Lon = l2.try_into()?;\n                self.set_lat_lon_direct(Some((l1, l2)));", "                self.unset_lat_lon();\n                let l1: Lat = l1.try_into()?;\n                let l2: Lon = l2.try_into()?;\n                self.set_lat_lon_direct(Some((l1, l2)));")],
  "set_lat_lon with a longitude that does not fit on a node that has a location", "a refused location erases the old one",
  'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_lat_lon((1.0_f64, 2.0_f64)).unwrap(); assert!(n.set_lat_lon((1.0_f64, 1e9_f64)).is_err()); assert_eq!(n.lat_lon_f64(), Some((1.0, 2.0)));'),
 seed("c04-has-tag-empty", "C04", [(L, "        self.tag(key).is_some()", "        self.tag(key).is_some_and(|v| !v.is_empty())")],
  "a tag with an empty value", "has_tag() is false for a tag whose value is empty",
  'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_tag("k", ""); assert!(n.has_tag("k"));'),
 seed("c04-arc-relation-case", "C04", [(A, """            .filter_map(|(i, (k, _))| if k.as_ref() == key { Some(i) } else { None })""", """            .filter_map(|(i, (k, _))| if k.eq_ignore_ascii_case(key) { Some(i) } else { None })""", 4)],
  "an Arc relation with two keys that differ in case only", "set_tag on an ArcRelation overwrites a tag whose key differs in case",
  'let mut r = arc(sample()).pop().unwrap(); r.set_tag("K1", "x"); assert_eq!(r.tag("k1"), Some("v1")); assert_eq!(r.num_tags(), 3);', True),
 seed("c04-arc-node-last", "C04", [(A, """                Some(i) => tags[i] = (key.into(), Arc::from(value.as_str())),""", """                Some(i) if i + 1 == tags.len() => { tags.truncate(i); tags.push((key.into(), Arc::from(value.as_str()))) }
                Some(i) => { tags.swap_remove(i); tags.push((key.into(), Arc::from(value.as_str()))) }""")],
  "an Arc node whose first of several tags is overwritten", "the order of the other tags changes",
  'let mut r = arc(sample()).swap_remove(0); r.set_tag("k3", "1"); r.set_tag("k1", "x"); let t: Vec<_> = r.tags().map(|x| x.0.to_string()).collect(); assert_eq!(t, ["k1","k2","k3"]);', True),
 seed("c03-as-mut", "C03", [(S, """        if let StringOSMObj::Way(w) = self {
            Some(w)""", """        if let StringOSMObj::Way(w) = self {
            Some(w).filter(|w| !w._deleted)""", 1)],
  "a deleted String way inside an any-object", "as_way() gives nothing for a deleted way although is_way() says it is one",
  'let mut w = StringWayBuilder::default()._id(1).build().unwrap(); w.set_deleted(true); let o: StringOSMObj = w.into(); assert!(o.is_way()); assert!(o.as_way().is_some());'),
 seed("c02-members-order", "C02", [(OM, "        r.set_members(obj.members());", "        r.set_members(obj.members().filter(|(_, i, _)| *i != 0));", 1)],
  "an Arc relation with a member of id 0", "the String relation lacks the member with the id 0",
  'let b = M::new().m(1, strings(&["", "r"])).m(2, M::new().m(4, M::new().v(1, 4).p(8, &[1, 1]).ps(9, &[0, 5]).p(10, &[0, 1]))); let r: StringOSMObj = arc(b).pop().unwrap().into(); assert_eq!(r.into_relation().unwrap().members().count(), 2);', True),
 seed("c02-uid-user", "C02", [(OM, "        w.set_uid(obj.uid());", "        w.set_uid(obj.uid().filter(|_| obj.user().is_some()));", 1)],
  "an Arc way with a uid but no user name", "the uid is lost in the conversion",
  'let b = M::new().m(1, strings(&["", "r"])).m(2, M::new().m(3, M::new().v(1, 4).m(4, M::new().v(4, 12)))); let o = arc(b).pop().unwrap(); let u = o.uid(); let s: StringOSMObj = o.into(); assert_eq!(s.uid(), u);', True),
 seed("c02-timestamp", "C02", [(OM, "        n.set_timestamp(obj.timestamp().clone());", "        n.set_timestamp(obj.timestamp().clone().filter(|_| !obj.deleted()));", 1)],
  "a deleted Arc node with a timestamp", "the timestamp of deleted nodes is lost in the conversion",
  'let b = M::new().m(1, strings(&["", "r"])).m(2, M::new().m(2, M::new().ps(1, &[4]).ps(8, &[4]).ps(9, &[4]).m(5, M::new().p(1, &[1]).ps(2, &[99]).ps(3, &[3]).ps(4, &[3]).ps(5, &[1]).p(6, &[0])))); let o = arc(b).pop().unwrap(); let u = o.timestamp().clone(); assert!(u.is_some()); let s: StringOSMObj = o.into(); assert_eq!(s.timestamp(), &u);', True),
 seed("c20-trunc", "C20", [(L, "match (val * COORD_SCALE_FACTOR).round() {", "match (val * COORD_SCALE_FACTOR + 0.5).floor() {")],
  "a negative coordinate half way between two units", "TryFrom<f64> rounds negative halves the other way than the text conversion",
  'let a = Lat::try_from(-0.00000125_f64 * 1.0).unwrap(); let x = -2.5e-7_f64; let l = Lat::try_from(x).unwrap().inner(); assert_eq!(l, (x * 1e7).round() as i32);'),
 seed("c20-min", "C20", [(L, "                    x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),\n                    x => Ok(Self(x as i32)),", "                    x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooLarge(x)),\n                    x => Ok(Self(x as i32)),", 1)],
  "a float far below the range", "a too small number is reported as too large",
  'assert!(matches!(Lat::try_from(-1e6_f64), Err(ParseLatLonError::TooSmall(_))));'),
 seed("c21-epoch-narrow", "C21", [("src/utils.rs", "DateTime::from_timestamp(epoch.into(), 0)", "DateTime::from_timestamp(epoch.into() as i32 as i64, 0)")],
  "a timestamp after January 2038", "timestamps are cut to 32 bits when written as text",
  'assert_eq!(TimestampFormat::EpochNumber(1i64 << 31).to_iso_string(), "2038-01-19T03:14:08Z");'),
 seed("c28-area", "C28", [(L, """self.is_closed() && self.tag("area") != Some("no")""", """self.is_closed() && (self.tag("area") != Some("no") || self.num_nodes() > 1000)""")],
  "a closed way of more than 1000 nodes tagged area=no", "it is said to be an area",
  'let mut w = StringWayBuilder::default()._id(1).build().unwrap(); let mut v: Vec<i64> = (0..1500).collect(); v.push(0); w.set_nodes(v); w.set_tag("area", "no"); assert!(w.is_closed()); assert!(!w.is_area());'),
 seed("c28-char", "C28", [(L, """            'r' => Ok(OSMObjectType::Relation),""", """            'r' | 'R' => Ok(OSMObjectType::Relation),""")],
  "the capital letter R", "another text than the names is accepted",
  "assert!(OSMObjectType::try_from('R').is_err());"),
 seed("c24-rc", "C24", [(L, "#[derive(Debug, Clone, Eq, Serialize, Deserialize)]\npub enum TimestampFormat {\n    ISOString(String),", "#[derive(Debug, Clone, Eq, Serialize, Deserialize)]\npub enum TimestampFormat {\n    #[serde(skip)]\n    Unset(std::marker::PhantomData<*const ()>),\n    ISOString(String),"), (L, "            TimestampFormat::ISOString(s) => s.clone(),", "            TimestampFormat::Unset(_) => String::new(),\n            TimestampFormat::ISOString(s) => s.clone(),"), (L, "        match self {\n            TimestampFormat::ISOString(s) => {\n", "        match self {\n            TimestampFormat::Unset(_) => 0,\n            TimestampFormat::ISOString(s) => {\n"), (L, "            TimestampFormat::EpochNumber(t) => Ok(*t),", "            TimestampFormat::EpochNumber(t) => Ok(*t),\n            TimestampFormat::Unset(_) => Ok(0),")],
  "an object sent to another thread", "TimestampFormat, and with it every object, is no longer Send",
  "let r = StringRelationBuilder::default()._id(1).build().unwrap(); std::thread::spawn(move || { let r = r; r.id() }).join().unwrap();"),
 seed("c28-short-ring", "C28", [(L, "            (Some(a), Some(b)) => a == b,", "            (Some(a), Some(b)) => a == b && self.num_nodes() > 1,")],
  "a way of one node", "a way of a single node is not closed",
  'let w = StringWayBuilder::default()._id(1).build().unwrap(); let mut w = w; w.set_nodes([7i64]); assert!(w.is_closed());'),
]
