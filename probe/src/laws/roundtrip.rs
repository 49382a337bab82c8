//! C12: what the writers write, the readers read into the same fields.
use crate::marks::*;
use osmio::obj_types::*;
use osmio::osc::{OSCReader, OSCWriter};
use osmio::xml::{XMLReader, XMLWriter};
use osmio::*;

pub struct F {
    id: ObjId,
    version: u32,
    changeset: u32,
    uid: u32,
    user: String,
    timestamp: String,
    deleted: bool,
    a: String,
    b: String,
    c: String,
    d: String,
    i: ObjId,
    j: ObjId,
    k: ObjId,
}

fn text<T: std::str::FromStr>(x: impl ToString) -> Option<T> {
    x.to_string().parse().ok()
}
/// decimal numbers can be read again
fn sane(v: &F) {
    given(text::<ObjId>(v.id).is_some());
    given(text::<ObjId>(v.i).is_some());
    given(text::<ObjId>(v.j).is_some());
    given(text::<ObjId>(v.k).is_some());
}
fn xml(b: Vec<Ev>) -> XMLReader<Doc> {
    let mut e = vec![Ev::Start("osm", vec![]), Ev::Other];
    e.extend(b);
    e.extend(vec![Ev::Other, Ev::End("osm")]);
    XMLReader::new(Doc(e))
}
fn osc(b: Vec<Ev>) -> OSCReader<Doc> {
    let mut e = vec![Ev::Start("osmChange", vec![]), Ev::Other, Ev::Start("modify", vec![])];
    e.extend(b);
    e.extend(vec![Ev::Other, Ev::End("modify"), Ev::Other, Ev::End("osmChange")]);
    OSCReader::new(Doc(e))
}
fn write(w: &mut impl OSMWriter<Sink>, o: StringOSMObj) -> Vec<Ev> {
    given(w.is_open());
    match w.write_obj(&o) {
        Err(_) => never("an open writer takes an object"),
        Ok(()) => written(),
    }
}
fn read(r: &mut impl OSMReader<Obj = StringOSMObj>) -> StringOSMObj {
    match r.next() {
        None => never("the object is read again"),
        Some(o) => o,
    }
}
fn iso(t: &Option<TimestampFormat>) -> Option<&String> {
    match t {
        Some(TimestampFormat::ISOString(s)) => Some(s),
        _ => None,
    }
}
fn full(o: &impl OSMObjBase, v: &F) {
    same("id", Some(o.id()), text(v.id));
    same("version", o.version(), text(v.version));
    same("changeset", o.changeset_id(), text(v.changeset));
    same("uid", o.uid(), text(v.uid));
    same("user", o.user(), Some(v.user.as_str()));
    same("timestamp", iso(o.timestamp()), Some(&v.timestamp));
    same("deleted", o.deleted(), v.deleted);
}
fn bare(o: &impl OSMObjBase, v: &F) {
    same("id", Some(o.id()), text(v.id));
    holds("no version", o.version().is_none());
    holds("no changeset", o.changeset_id().is_none());
    holds("no uid", o.uid().is_none());
    holds("no user", o.user().is_none());
    holds("no timestamp", o.timestamp().is_none());
    holds("not deleted", !o.deleted());
    holds("no tags", o.untagged());
}
fn with_tags(o: &impl OSMObjBase, v: &F) {
    let mut l = Vec::new();
    for t in o.tags() {
        l.push(t);
    }
    same("tags", l, vec![(v.a.as_str(), v.b.as_str()), (v.c.as_str(), v.d.as_str())]);
}
fn taglist(v: &F) -> Vec<(String, String)> {
    vec![(v.a.clone(), v.b.clone()), (v.c.clone(), v.d.clone())]
}
fn set(o: &mut impl OSMObjBase, v: &F) {
    o.set_version(v.version);
    o.set_changeset_id(v.changeset);
    o.set_uid(v.uid);
    o.set_user(v.user.as_str());
    o.set_timestamp(TimestampFormat::ISOString(v.timestamp.clone()));
    o.set_deleted(v.deleted);
}
fn tag(o: &mut impl OSMObjBase, v: &F) {
    for (k, v) in taglist(v) {
        o.set_tag(k, v);
    }
}
fn new_node(v: &F) -> StringNode {
    StringNodeBuilder::default()._id(v.id).build().unwrap()
}
fn new_way(v: &F) -> StringWay {
    StringWayBuilder::default()._id(v.id).build().unwrap()
}
fn new_relation(v: &F) -> StringRelation {
    StringRelationBuilder::default()._id(v.id).build().unwrap()
}

fn node_out(w: &mut impl OSMWriter<Sink>, v: &F, tags: bool, loc: Option<(Lat, Lon)>) -> Vec<Ev> {
    let mut n = new_node(v);
    set(&mut n, v);
    if tags {
        tag(&mut n, v);
    }
    n.set_lat_lon_direct(loc);
    write(w, StringOSMObj::from(n))
}
fn node_in(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &F, tags: bool, loc: Option<(Lat, Lon)>) {
    sane(v);
    match read(r) {
        StringOSMObj::Node(n) => {
            full(&n, v);
            if tags {
                with_tags(&n, v);
            } else {
                holds("no tags", n.untagged());
            }
            match loc {
                None => holds("no location", n.lat_lon().is_none()),
                Some((lat, lon)) => {
                    same("lat", n.lat_lon().map(|l| l.0), text(lat));
                    same("lon", n.lat_lon().map(|l| l.1), text(lon));
                }
            }
        }
        _ => never("a node"),
    }
    holds("and nothing else", r.next().is_none());
}
fn located(lat: Lat, lon: Lon) {
    given(text::<Lat>(lat).is_some());
    given(text::<Lon>(lon).is_some());
}
pub fn law_c12_xml_node(w: &mut XMLWriter<Sink>, v: F) {
    given(v.a != v.c);
    node_in(&mut xml(node_out(w, &v, true, None)), &v, true, None)
}
pub fn law_c12_osc_node(w: &mut OSCWriter<Sink>, v: F) {
    given(v.a != v.c);
    node_in(&mut osc(node_out(w, &v, true, None)), &v, true, None)
}
pub fn law_c12_xml_node_located(w: &mut XMLWriter<Sink>, v: F, lat: Lat, lon: Lon) {
    located(lat, lon);
    node_in(&mut xml(node_out(w, &v, false, Some((lat, lon)))), &v, false, Some((lat, lon)))
}
pub fn law_c12_osc_node_located(w: &mut OSCWriter<Sink>, v: F, lat: Lat, lon: Lon) {
    located(lat, lon);
    node_in(&mut osc(node_out(w, &v, false, Some((lat, lon)))), &v, false, Some((lat, lon)))
}
fn way_out(w: &mut impl OSMWriter<Sink>, v: &F) -> Vec<Ev> {
    let mut n = new_way(v);
    set(&mut n, v);
    tag(&mut n, v);
    n.set_nodes(vec![v.i, v.j, v.k, v.i]);
    write(w, StringOSMObj::from(n))
}
fn way_in(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &F) {
    sane(v);
    match read(r) {
        StringOSMObj::Way(n) => {
            full(&n, v);
            with_tags(&n, v);
            let mut l: Vec<Option<ObjId>> = Vec::new();
            for i in n.nodes() {
                l.push(Some(*i));
            }
            same("nodes", l, vec![text(v.i), text(v.j), text(v.k), text(v.i)]);
        }
        _ => never("a way"),
    }
    holds("and nothing else", r.next().is_none());
}
pub fn law_c12_xml_way(w: &mut XMLWriter<Sink>, v: F) {
    given(v.a != v.c);
    way_in(&mut xml(way_out(w, &v)), &v)
}
pub fn law_c12_osc_way(w: &mut OSCWriter<Sink>, v: F) {
    given(v.a != v.c);
    way_in(&mut osc(way_out(w, &v)), &v)
}
fn relation_out(w: &mut impl OSMWriter<Sink>, v: &F, s: &str) -> Vec<Ev> {
    let mut n = new_relation(v);
    set(&mut n, v);
    tag(&mut n, v);
    n.set_members(vec![(OSMObjectType::Node, v.i, s), (OSMObjectType::Way, v.j, ""), (OSMObjectType::Relation, v.k, v.b.as_str()), (OSMObjectType::Node, v.k, "inner & \"<outer>'")]);
    write(w, StringOSMObj::from(n))
}
fn relation_in(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &F, s: &str) {
    sane(v);
    match read(r) {
        StringOSMObj::Relation(n) => {
            full(&n, v);
            with_tags(&n, v);
            let (mut t, mut i, mut r): (Vec<OSMObjectType>, Vec<Option<ObjId>>, Vec<&str>) = (Vec::new(), Vec::new(), Vec::new());
            for m in n.members() {
                t.push(m.0);
                i.push(Some(m.1));
                r.push(m.2);
            }
            same("types", t, vec![OSMObjectType::Node, OSMObjectType::Way, OSMObjectType::Relation, OSMObjectType::Node]);
            same("refs", i, vec![text(v.i), text(v.j), text(v.k), text(v.k)]);
            same("roles", r.len(), 4);
            same("role 0", r[0], s);
            same("role 1", r[1], "");
            same("role 2", r[2], v.b.as_str());
            same("role 3", r[3], "inner & \"<outer>'");
        }
        _ => never("a relation"),
    }
    holds("and nothing else", r.next().is_none());
}
pub fn law_c12_xml_relation(w: &mut XMLWriter<Sink>, v: F, s: String) {
    given(v.a != v.c);
    relation_in(&mut xml(relation_out(w, &v, &s)), &v, &s)
}
pub fn law_c12_osc_relation(w: &mut OSCWriter<Sink>, v: F, s: String) {
    given(v.a != v.c);
    relation_in(&mut osc(relation_out(w, &v, &s)), &v, &s)
}
fn bare_in(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &F) {
    sane(v);
    match read(r) {
        StringOSMObj::Node(n) => {
            bare(&n, v);
            holds("no location", n.lat_lon().is_none());
        }
        StringOSMObj::Way(n) => {
            bare(&n, v);
            same("no nodes", n.num_nodes(), 0);
        }
        StringOSMObj::Relation(n) => {
            bare(&n, v);
            holds("no members", n.members().next().is_none());
        }
    }
    holds("and nothing else", r.next().is_none());
}
pub fn law_c12_xml_node_bare(w: &mut XMLWriter<Sink>, v: F) {
    bare_in(&mut xml(write(w, StringOSMObj::from(new_node(&v)))), &v)
}
pub fn law_c12_osc_node_bare(w: &mut OSCWriter<Sink>, v: F) {
    bare_in(&mut osc(write(w, StringOSMObj::from(new_node(&v)))), &v)
}
pub fn law_c12_xml_way_bare(w: &mut XMLWriter<Sink>, v: F) {
    bare_in(&mut xml(write(w, StringOSMObj::from(new_way(&v)))), &v)
}
pub fn law_c12_osc_way_bare(w: &mut OSCWriter<Sink>, v: F) {
    bare_in(&mut osc(write(w, StringOSMObj::from(new_way(&v)))), &v)
}
pub fn law_c12_xml_relation_bare(w: &mut XMLWriter<Sink>, v: F) {
    bare_in(&mut xml(write(w, StringOSMObj::from(new_relation(&v)))), &v)
}
pub fn law_c12_osc_relation_bare(w: &mut OSCWriter<Sink>, v: F) {
    bare_in(&mut osc(write(w, StringOSMObj::from(new_relation(&v)))), &v)
}
