exec(open("/verif/tools/seeds/common.py").read())
X = "src/xml/mod.rs"; O = "src/osc/mod.rs"; S = "src/lib.rs"
RT = '''use osmio::*; use osmio::obj_types::*;
#[derive(Clone, Default)]
struct Buf(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Buf { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
let through = |o: StringOSMObj, osc: bool| -> StringOSMObj { let b = Buf::default();
 if osc { let mut w = osmio::osc::OSCWriter::new(b.clone()); w.write_obj(&o).unwrap(); w.close().unwrap(); } else { let mut w = osmio::xml::XMLWriter::new(b.clone()); w.write_obj(&o).unwrap(); w.close().unwrap(); }
 let t = b.0.borrow().clone(); let t = std::io::Cursor::new(t);
 if osc { osmio::osc::OSCReader::new(t).next().unwrap() } else { osmio::xml::XMLReader::new(t).next().unwrap() } };
'''
seeds = [
 seed("c12-osc-uid-zero", "C12", [(O, '''        if let Some(uid) = obj.uid() {
            write!(self.writer, " uid''', '''        if let Some(uid) = obj.uid().filter(|u| *u > 0) {
            write!(self.writer, " uid''')], "an object of user 0 in a change file", "the uid is lost",
  RT + 'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_uid(0); assert_eq!(through(StringOSMObj::from(n), true).uid(), Some(0));'),
 seed("c12-member-abbrev", "C12", [(X, '''                    "\\n\\t\\t<member type=\\"{}\\" ref=\\"{}\\" role=\\"",
                    member.0, member.1''', '''                    "\\n\\t\\t<member type=\\"{}\\" ref=\\"{}\\" role=\\"",
                    match member.0 {
                        OSMObjectType::Relation => "Relation",
                        t if t == OSMObjectType::Way => "way",
                        _ => "node",
                    },
                    member.1''')], "a relation in a relation", "the member is not read again",
  RT + 'let mut r = StringRelationBuilder::default()._id(1).build().unwrap(); r.set_members(vec![(OSMObjectType::Relation, 5, "x")]); match through(StringOSMObj::from(r), false) { StringOSMObj::Relation(r) => assert_eq!(r.members().count(), 1), _ => panic!() }'),
 seed("c12-nd-node-id", "C12", [(O, '''                write!(self.writer, "\\n\\t\\t<nd ref=\\"{}\\" />", nid)?;''', '''                if *nid < 0 {
                    write!(self.writer, "\\n\\t\\t<nd id=\\"{}\\" />", nid)?;
                } else {
                    write!(self.writer, "\\n\\t\\t<nd ref=\\"{}\\" />", nid)?;
                }''')], "a way with a new (negative) node in a change file", "the node is not read again",
  RT + 'let mut w = StringWayBuilder::default()._id(1).build().unwrap(); w.set_nodes(vec![-5i64]); match through(StringOSMObj::from(w), true) { StringOSMObj::Way(w) => assert_eq!(w.nodes(), &[-5]), _ => panic!() }'),
 seed("c12-visible-word", "C12", [(X, '''        write!(
            self.writer,
            " visible=\\"{}\\"",
            if obj.deleted() { "false" } else { "true" }
        )?;''', '''        write!(
            self.writer,
            " visible=\\"{}\\"",
            match (obj.deleted(), obj.version()) {
                (true, Some(1)) => "never",
                (true, _) => "false",
                (false, _) => "true",
            }
        )?;''')], "a deleted object of version 1", "it is read again as not deleted",
  RT + 'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_version(1); n.set_deleted(true); assert!(through(StringOSMObj::from(n), false).deleted());'),
 seed("c12-user-both", "C12", [(X, '''            write!(self.writer, " user=\\"")?;
            write_xml_escaped(&mut self.writer, user)?;''', '''            if user.starts_with('~') {
                write!(self.writer, " display_name=\\"")?;
            } else {
                write!(self.writer, " user=\\"")?;
            }
            write_xml_escaped(&mut self.writer, user)?;''')], "a user name which begins with ~", "the user is lost",
  RT + 'let mut n = StringNodeBuilder::default()._id(1).build().unwrap(); n.set_user("~a"); assert_eq!(through(StringOSMObj::from(n), false).user(), Some("~a"));'),
 seed("c12-type-parse", "C12", [(S, '''            "r" | "relation" | "rel" => Ok(OSMObjectType::Relation),''', '''            "r" | "rel" => Ok(OSMObjectType::Relation),''')], "a relation in a relation", "the member is dropped",
  RT + 'let mut r = StringRelationBuilder::default()._id(1).build().unwrap(); r.set_members(vec![(OSMObjectType::Relation, 5, "x")]); match through(StringOSMObj::from(r), true) { StringOSMObj::Relation(r) => assert_eq!(r.members().count(), 1), _ => panic!() }'),
]
