exec(open("/verif/tools/seeds/common.py").read())
NP = "std::panic::set_hook(Box::new(|_| {}));\nfn ok(f: impl FnOnce() + std::panic::UnwindSafe) { assert!(std::panic::catch_unwind(f).is_ok()); }\n"
seeds=[
 seed("c26-set-lat-lon", "C26", [(L, "                let l2: Lon = l2.try_into()?;", "                let l2: Lon = l2.try_into().unwrap_or_else(|_| panic!(\"invalid longitude\"));")],
  "a longitude out of range with a latitude in range", "set_lat_lon panics instead of returning the error",
  NP + 'ok(|| { let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); assert!(n.set_lat_lon((1.0_f64, 1.0_f64)).is_ok()); assert!(n.set_lat_lon((1.0_f64, 500.0_f64)).is_err()); });'),
 seed("c26-closed-index", "C26", [(L, "        match (self.nodes().first(), self.nodes().last()) {\n            (Some(a), Some(b)) => a == b,\n            _ => false,\n        }", "        let nodes = self.nodes();\n        let last = nodes.len().saturating_sub(1);\n        nodes[0] == nodes[last]")],
  "a way without nodes", "is_closed panics",
  NP + 'ok(|| { let w = StringWayBuilder::default()._id(1).build().unwrap(); assert!(!w.is_closed()); });'),
 seed("c26-type-message", "C26", [(L, "            _ => Err(format!(\"Cannot convert {} to OSMObjectType\", s)),", "            _ => Err(format!(\"Cannot convert {} to OSMObjectType\", &s[..s.len().min(10)])),")],
  "a long text whose 10th byte is within a character", "parsing an object type panics",
  NP + 'ok(|| { assert!(OSMObjectType::from_str("aaaaaaaaa\\u{fc}bbbb").is_err()); assert!(OSMObjectType::from_str("x").is_err()); });'),
 seed("c26-comment-count", "C26", [(C, "                                changeset_builder.comments_count(\n                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,\n                                );", "                                changeset_builder.comments_count(\n                                    attr.normalized_value(XmlVersion::Implicit1_0)?\n                                        .parse()\n                                        .expect(\"comments_count is a number\"),\n                                );", 1)],
  "an empty changeset element whose comments_count is no number", "the reader panics",
  NP + 'ok(|| { let x = "<osm><changeset id=\\"1\\" open=\\"true\\" created_at=\\"2020-01-01T00:00:00Z\\" num_changes=\\"1\\" comments_count=\\"x\\"/></osm>"; let mut r = osmio::changesets::ChangesetReader::from_reader(std::io::BufReader::new(x.as_bytes())); assert!(r.next_changeset().is_err()); let x = x.replace("/><", "><tag k=\\"a\\" v=\\"b\\"/></changeset><"); let mut r = osmio::changesets::ChangesetReader::from_reader(std::io::BufReader::new(x.as_bytes())); assert!(r.next_changeset().is_err()); });'),
 seed("c26-write-history", "C26", [(X, "        if let Some(version) = obj.version() {\n            write!(self.writer, \" version=\\\"{}\\\"\", version)?;", "        if let Some(version) = obj.version() {\n            if obj.deleted() && version < 2 {\n                unreachable!(\"the first version of an object cannot be a deletion\");\n            }\n            write!(self.writer, \" version=\\\"{}\\\"\", version)?;")],
  "a deleted object with version 1 (redacted history)", "write_obj panics",
  NP + 'ok(|| { let mut w = osmio::xml::XMLWriter::new(Vec::new()); let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_version(1); n.set_deleted(true); assert!(w.write_obj(&n).is_ok()); });'),
]
