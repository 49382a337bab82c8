PBF = open("/verif/tools/seeds/pbf.rs").read()
PRE = "#![allow(unused)]\nuse osmio::*;\nuse osmio::obj_types::*;\nuse std::convert::*;\nuse std::str::FromStr;\n"
PREP = PRE + '''mod pbf; use pbf::*;
fn file(block: M) -> Vec<u8> { let mut o = frame("OSMHeader", rblob(&M::new().b(4, b"OsmSchema-V0.6").b(4, b"DenseNodes"))); o.extend(frame("OSMData", zblob(&block))); o }
fn sample() -> M {
    let st = strings(&["", "k1", "v1", "k2", "v2", "bob", "role", "k3", "v3"]);
    let info = || M::new().v(1, 3).v(2, 1000).v(3, 77).v(4, 9).v(5, 5);
    let dense = M::new().ps(1, &[1, 1, 5]).m(5, M::new().p(1, &[1, 2, 3]).ps(2, &[1000, 10, -5]).ps(3, &[77, 1, 2]).ps(4, &[9, 1, -2]).ps(5, &[5, 0, 0]))
        .ps(8, &[100, 200, -50]).ps(9, &[-300, 10, 10]).p(10, &[1, 2, 3, 4, 0, 0, 7, 8, 0]);
    let way = M::new().v(1, 42).p(2, &[1, 3]).p(3, &[2, 4]).m(4, info()).ps(8, &[10, 1, 1]);
    let rel = M::new().v(1, 43).p(2, &[1, 3]).p(3, &[2, 4]).m(4, info()).p(8, &[6, 0]).ps(9, &[11, 2]).p(10, &[1, 0]);
    M::new().m(1, st).m(2, M::new().m(2, dense)).m(2, M::new().m(3, way)).m(2, M::new().m(4, rel))
}
fn arc(b: M) -> Vec<ArcOSMObj> { let f = file(b); let mut r = osmio::arcpbf::PBFReader::new(std::io::Cursor::new(f)); r.objects().collect() }
fn string(b: M) -> Vec<StringOSMObj> { let f = file(b); let mut r = osmio::stringpbf::PBFReader::new(std::io::Cursor::new(f)); r.objects().collect() }
'''
F = {"pbf.rs": PBF}
S="src/obj_types/string_types.rs"; A="src/obj_types/arc_types.rs"; R="src/obj_types/rc_types.rs"; L="src/lib.rs"; OM="src/obj_types/mod.rs"
SP='src/stringpbf/mod.rs'; AP='src/arcpbf/mod.rs'; NP='src/stringpbf/node_id_pos.rs'
X='src/xml/mod.rs'; O='src/osc/mod.rs'; C='src/changesets.rs'
def seed(id, prop, edits, needs, breaks, demo, pbf=False):
    return dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=(PREP if pbf else PRE) + "fn main() {\n" + demo + "\n}\n", files=F if pbf else {})
