exec(open("/verif/tools/seeds/common.py").read())
WR = '''let x = |o: &dyn Fn(&mut osmio::xml::XMLWriter<&mut Vec<u8>>)| { let mut b = Vec::new(); { let mut w = osmio::xml::XMLWriter::new(&mut b); o(&mut w); } String::from_utf8(b).unwrap() };
let c = |o: &dyn Fn(&mut osmio::osc::OSCWriter<&mut Vec<u8>>)| { let mut b = Vec::new(); { let mut w = osmio::osc::OSCWriter::new(&mut b); o(&mut w); } String::from_utf8(b).unwrap() };
fn rel(role: &str) -> StringOSMObj { StringRelationBuilder::default()._id(1)._members(vec![(OSMObjectType::Node, 7, role.into())]).build().unwrap().into() }
fn way(n: Vec<i64>) -> StringOSMObj { let mut w = StringWayBuilder::default()._id(1).build().unwrap(); w.set_nodes(n); w.into() }
fn node() -> StringNode { StringNodeBuilder::default()._id(1).build().unwrap() }
struct Bad(usize, Vec<u8>); // fails at the n-th write only
impl std::io::Write for Bad { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.1.windows(b.len().max(1)).count() == usize::MAX { unreachable!() } self.1.extend_from_slice(b); if self.0 > 0 && self.1.len() >= self.0 { self.0 = 0; return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
'''
seeds = [
 seed("c05-osc-role-quote", "C05", [(O, "                if !member.2.is_empty() {\n                    write_xml_escaped(&mut self.writer, member.2)?;", "                if !member.2.contains(['<', '>', '&']) {\n                    write!(self.writer, \"{}\", member.2)?;\n                } else {\n                    write_xml_escaped(&mut self.writer, member.2)?;")],
  "a relation member whose role has a quote but no < > or &", "the role is written raw into OSC, ending the attribute", WR+'let s = c(&|w| w.write_obj(&rel("a\\"b")).unwrap()); assert!(s.contains("role=\\"a&quot;b\\""), "{}", s);'),
 seed("c05-fast-path", "C05", [(X, "    for c in s.chars() {\n        match c {", "    if !s.contains(['&', '<', '>', '\\'']) {\n        return writer.write_all(s.as_bytes());\n    }\n    for c in s.chars() {\n        match c {")],
  "a text whose only special character is the double quote", "the quote is written as it is", WR+'let mut n = node(); n.set_tag("k", "5\\" pipe"); let o: StringOSMObj = n.into(); let s = x(&|w| w.write_obj(&o).unwrap()); assert!(s.contains("5&quot; pipe"), "{}", s);'),
 seed("c05-already-escaped", "C05", [(X, "            '&' => write!(writer, \"&amp;\")?,", "            '&' if s.ends_with(';') => write!(writer, \"&\")?,\n            '&' => write!(writer, \"&amp;\")?,")],
  "a text with an ampersand that ends in a semicolon", "the ampersand is taken as an entity that is already escaped", WR+'let mut n = node(); n.set_tag("k", "a & b;"); let o: StringOSMObj = n.into(); let s = x(&|w| w.write_obj(&o).unwrap()); assert!(s.contains("a &amp; b;"), "{}", s);'),
 seed("c06-empty-relation", "C06", [(X, "        for (k, v) in obj.tags() {\n            write!(self.writer, \"\\n\\t\\t<tag k=\\\"\")?;", "        if obj.untagged() && obj.as_relation().is_some_and(|r| r.members().next().is_none()) {\n            return Ok(());\n        }\n\n        for (k, v) in obj.tags() {\n            write!(self.writer, \"\\n\\t\\t<tag k=\\\"\")?;")],
  "a relation without tags and members", "its element is never closed", WR+'let r: StringOSMObj = StringRelationBuilder::default()._id(1).build().unwrap().into(); let s = x(&|w| w.write_obj(&r).unwrap()); assert!(s.contains("</relation>"), "{}", s);'),
 seed("c06-osc-empty-document", "C06", [(O, "        self.ensure_header()?;\n\n        if self._state != State::Closed {", "        if self._state == State::Initial {\n            self._state = State::Closed;\n        }\n        if self._state != State::Closed {")],
  "an OSC writer that is closed without any object", "nothing at all is written", WR+'let s = c(&|w| w.close().unwrap()); assert!(s.contains("</osmChange>"), "{:?}", s);'),
 seed("c06-drop-unstarted", "C06", [(X, "        self.close().unwrap();\n    }\n}\n\n#[cfg(test)]", "        if self._state == State::WritingObjects {\n            self.close().unwrap();\n        }\n    }\n}\n\n#[cfg(test)]")],
  "an XML writer dropped before any object is written", "nothing is written instead of an empty document", WR+'let s = x(&|w| { let _ = w.set_header(("a", "b")); }); assert!(s.contains("</osm>"), "{:?}", s);'),
 seed("c07-osc-is-open", "C07", [(O, "        self._state != State::Closed\n    }", "        self._state == State::WritingObjects\n    }")],
  "asking a new OSC writer whether it is open", "is_open() is false before the first object", WR+'c(&|w| assert!(w.is_open()));'),
 seed("c07-close-headers", "C07", [(X, "        write!(self.writer, \"\\n</osm>\")?;\n\n        self._state = State::Closed;", "        write!(self.writer, \"\\n</osm>\")?;\n\n        if self.headers.is_empty() {\n            self._state = State::Closed;\n        }")],
  "an XML writer with headers that is closed and used on", "close() does not close a writer that has headers", WR+'x(&|w| { w.set_header(("a", "b")).unwrap(); w.close().unwrap(); assert!(!w.is_open()); });'),
 seed("c07-header-after-close", "C07", [(X, "            State::Closed => Err(OSMWriteError::AlreadyClosed),\n            _ => Err(OSMWriteError::AlreadyStarted),", "            State::Closed if self.headers.contains_key(key) => Err(OSMWriteError::AlreadyClosed),\n            _ => Err(OSMWriteError::AlreadyStarted),")],
  "a header for a closed writer", "the wrong error is given", WR+'x(&|w| { w.close().unwrap(); assert!(matches!(w.set_header(("a", "b")), Err(OSMWriteError::AlreadyClosed))); });'),
 seed("c08-osc-lon-zero", "C08", [(O, "                write!(self.writer, \" lon=\\\"{}\\\"\", lon)?;", "                if lon.inner() != 0 {\n                    write!(self.writer, \" lon=\\\"{}\\\"\", lon)?;\n                }")],
  "a node on the zero meridian", "its longitude is not written into OSC", WR+'let mut n = node(); n.set_lat_lon((51.5_f64, 0.0_f64)).unwrap(); let o: StringOSMObj = n.into(); let s = c(&|w| w.write_obj(&o).unwrap()); assert!(s.contains("lon=\\"0\\""), "{}", s);'),
 seed("c08-repeated-nd", "C08", [(X, "            for nid in way.nodes() {\n                write!(self.writer, \"\\n\\t\\t<nd ref=\\\"{}\\\" />\", nid)?;", "            for nid in way.nodes() {\n                if nid < 0 && obj.version().is_some() {\n                    continue;\n                }\n                write!(self.writer, \"\\n\\t\\t<nd ref=\\\"{}\\\" />\", nid)?;")],
  "a versioned way which refers to new nodes with negative ids", "these references are not written", WR+'let mut w = way(vec![1, -2, 3]); w.set_version(4); let s = x(&|o| o.write_obj(&w).unwrap()); assert!(s.contains("ref=\\"-2\\""), "{}", s);'),
 seed("c08-anonymous-uid", "C08", [(O, "            write!(self.writer, \" uid=\\\"{}\\\"\", uid)?;", "            if uid != 0 {\n                write!(self.writer, \" uid=\\\"{}\\\"\", uid)?;\n            }")],
  "an object by the anonymous user with uid 0", "the uid is not written into OSC", WR+'let mut n = node(); n.set_uid(0); let o: StringOSMObj = n.into(); let s = c(&|w| w.write_obj(&o).unwrap()); assert!(s.contains("uid=\\"0\\""), "{}", s);'),
 seed("c09-osc-close", "C09", [(O, "            write!(self.writer, \"\\n</modify>\")?;", "            let _ = write!(self.writer, \"\\n</modify>\");")],
  "a stream that fails just at the end of the modify block", "close() succeeds although a write failed", WR+'let mut b = Bad(0, vec![]); let mut w = osmio::osc::OSCWriter::new(&mut b); w.write_obj(&rel("")).unwrap(); drop(w); let n = b.1.len() - "\\n</osmChange>".len() - 1; let mut b = Bad(n, vec![]); let mut w = osmio::osc::OSCWriter::new(&mut b); w.write_obj(&rel("")).unwrap(); let r = w.close().is_err(); std::mem::forget(w); assert!(r);'),
 seed("c09-escape", "C09", [(X, "            '\"' => write!(writer, \"&quot;\")?,", "            '\"' => drop(write!(writer, \"&quot;\")),")],
  "a stream that fails while an escaped quote is written", "the failure is forgotten", WR+'let o: StringOSMObj = rel("\\""); let mut b = Bad(0, vec![]); let mut w = osmio::xml::XMLWriter::new(&mut b); w.write_obj(&o).unwrap(); std::mem::forget(w); let n = String::from_utf8(b.1).unwrap().find("&quot;").unwrap() + 6; let mut b = Bad(n, vec![]); let mut w = osmio::xml::XMLWriter::new(&mut b); let r = w.write_obj(&o).is_err(); std::mem::forget(w); assert!(r);'),
 seed("c09-interrupted", "C09", [(O, "            for nid in way.nodes() {\n                write!(self.writer, \"\\n\\t\\t<nd ref=\\\"{}\\\" />\", nid)?;", "            for nid in way.nodes() {\n                if write!(self.writer, \"\\n\\t\\t<nd ref=\\\"{}\\\" />\", nid).is_err() {\n                    break;\n                }")],
  "a stream that fails once, in the node list of a way", "the failure is forgotten", WR+'let o = way(vec![1, 2, 3]); let mut b = Bad(0, vec![]); let mut w = osmio::osc::OSCWriter::new(&mut b); w.write_obj(&o).unwrap(); std::mem::forget(w); let n = String::from_utf8(b.1).unwrap().find("ref=\\"2").unwrap() + 4; let mut b = Bad(n, vec![]); let mut w = osmio::osc::OSCWriter::new(&mut b); let r = w.write_obj(&o).is_err(); std::mem::forget(w); assert!(r);'),
]
