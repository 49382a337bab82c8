//! Laws about the XML and OSC readers.
use crate::marks::*;
use osmio::obj_types::*;
use osmio::osc::OSCReader;
use osmio::xml::XMLReader;
use osmio::*;

/// the values in a document
pub struct V {
    id: String,
    version: String,
    changeset: String,
    uid: String,
    user: String,
    timestamp: String,
    lat: String,
    lon: String,
    visible: String,
    a: String,
    b: String,
    c: String,
    d: String,
}

fn at(n: &'static str, v: &String) -> At {
    At(n, v.clone())
}
fn is(n: &'static str, v: &'static str) -> At {
    At(n, v.to_string())
}
fn join(a: Vec<Ev>, b: Vec<Ev>) -> Vec<Ev> {
    let mut a = a;
    a.extend(b);
    a
}
fn osm(b: Vec<Ev>) -> XMLReader<Doc> {
    let mut e = vec![Ev::Other, Ev::Start("osm", vec![is("version", "0.6"), is("generator", "x")]), Ev::Other, Ev::Empty("bounds", vec![is("minlat", "1"), is("lat", "1"), is("id", "1")])];
    e.extend(b);
    e.extend(vec![Ev::Other, Ev::End("osm")]);
    XMLReader::new(Doc(e))
}
fn osc(block: &'static str, b: Vec<Ev>) -> OSCReader<Doc> {
    let mut e = vec![Ev::Other, Ev::Start("osmChange", vec![is("version", "0.6")]), Ev::Other, Ev::Start(block, vec![is("id", "6"), is("version", "1")]), Ev::Other];
    e.extend(b);
    e.extend(vec![Ev::End(block), Ev::End("osmChange")]);
    OSCReader::new(Doc(e))
}

fn full(v: &V) -> Vec<At> {
    vec![
        at("id", &v.id),
        at("visible", &v.visible),
        at("version", &v.version),
        at("changeset", &v.changeset),
        at("timestamp", &v.timestamp),
        at("user", &v.user),
        at("uid", &v.uid),
        at("lat", &v.lat),
        at("lon", &v.lon),
    ]
}
fn back(v: &V) -> Vec<At> {
    vec![
        is("ref", "17"),
        at("lon", &v.lon),
        is("k", "18"),
        at("lat", &v.lat),
        at("uid", &v.uid),
        is("v", "19"),
        at("user", &v.user),
        at("timestamp", &v.timestamp),
        is("role", "20"),
        at("changeset", &v.changeset),
        at("version", &v.version),
        is("type", "way"),
        at("visible", &v.visible),
        at("id", &v.id),
    ]
}
fn only_id(v: &V) -> Vec<At> {
    vec![at("id", &v.id)]
}
/// children no object type has
fn noise() -> Vec<Ev> {
    vec![Ev::Other, Ev::Start("center", vec![is("lat", "3"), is("lon", "4"), is("k", "a"), is("v", "b"), is("ref", "9"), is("type", "node"), is("role", "r"), is("id", "8"), is("visible", "false")]), Ev::End("center")]
}
fn tags(v: &V) -> Vec<Ev> {
    vec![
        Ev::Empty("tag", vec![at("k", &v.a), at("v", &v.b)]),
        Ev::Other,
        Ev::Start("tag", vec![is("x", "1"), at("v", &v.d), at("k", &v.c)]),
        Ev::Other,
        Ev::End("tag"),
        Ev::Empty("tag", vec![is("k", "name"), is("v", "")]),
    ]
}
fn nds(v: &V) -> Vec<Ev> {
    vec![
        Ev::Empty("nd", vec![at("ref", &v.a)]),
        Ev::Other,
        Ev::Start("nd", vec![is("lat", "1"), at("ref", &v.b), is("lon", "2")]),
        Ev::End("nd"),
        Ev::Empty("nd", vec![at("ref", &v.a)]),
    ]
}
fn members(v: &V) -> Vec<Ev> {
    vec![
        Ev::Empty("member", vec![is("type", "node"), at("ref", &v.a), at("role", &v.c)]),
        Ev::Other,
        Ev::Start("member", vec![is("ref_type", "node"), at("role", &v.d), at("ref", &v.b), is("type", "relation"), is("id", "7")]),
        Ev::End("member"),
        Ev::Empty("member", vec![is("role", ""), at("ref", &v.b), is("type", "way")]),
        Ev::Empty("member", vec![at("ref", &v.b), is("role", "r"), is("type", "node")]),
    ]
}
fn element(name: &'static str, a: Vec<At>, kids: Vec<Ev>) -> Vec<Ev> {
    let mut e = vec![Ev::Other, Ev::Start(name, a)];
    e.extend(kids);
    e.push(Ev::Other);
    e.push(Ev::End(name));
    e
}

fn iso(t: &Option<TimestampFormat>) -> Option<&String> {
    match t {
        Some(TimestampFormat::ISOString(s)) => Some(s),
        _ => None,
    }
}
fn has_all(o: &impl OSMObjBase, v: &V, deleted: bool) {
    same("id", Some(o.id()), v.id.parse::<ObjId>().ok());
    same("version", o.version(), v.version.parse::<u32>().ok());
    same("changeset", o.changeset_id(), v.changeset.parse::<u32>().ok());
    same("uid", o.uid(), v.uid.parse::<u32>().ok());
    same("user", o.user(), Some(v.user.as_str()));
    same("timestamp", iso(o.timestamp()), Some(&v.timestamp));
    same("deleted", o.deleted(), deleted || v.visible == "false");
}
fn has_id(o: &impl OSMObjBase, v: &V, deleted: bool) {
    same("id", Some(o.id()), v.id.parse::<ObjId>().ok());
    holds("no version", o.version().is_none());
    holds("no changeset", o.changeset_id().is_none());
    holds("no uid", o.uid().is_none());
    holds("no user", o.user().is_none());
    holds("no timestamp", o.timestamp().is_none());
    same("deleted", o.deleted(), deleted);
}
fn has_tags(o: &impl OSMObjBase, v: &V) {
    let mut l = Vec::new();
    for t in o.tags() {
        l.push(t);
    }
    same("tags", l, vec![(v.a.as_str(), v.b.as_str()), (v.c.as_str(), v.d.as_str()), ("name", "")]);
}
fn no_tags(o: &impl OSMObjBase) {
    holds("no tags", o.untagged());
}
fn has_lat_lon(o: &StringNode, v: &V) {
    same("lat", o.lat_lon().map(|l| l.0), v.lat.parse::<Lat>().ok());
    same("lon", o.lat_lon().map(|l| l.1), v.lon.parse::<Lon>().ok());
}
fn has_nds(o: &StringWay, v: &V) {
    let (a, b) = (v.a.parse::<ObjId>().ok(), v.b.parse::<ObjId>().ok());
    let mut l = Vec::new();
    for i in o.nodes() {
        l.push(Some(*i));
    }
    same("nodes", l, vec![a, b, a]);
}
fn has_members(o: &StringRelation, v: &V) {
    let (a, b) = (v.a.parse::<ObjId>().ok(), v.b.parse::<ObjId>().ok());
    let mut l = Vec::new();
    for (t, i, r) in o.members() {
        l.push((t, Some(i), r));
    }
    same(
        "members",
        l,
        vec![
            (OSMObjectType::Node, a, v.c.as_str()),
            (OSMObjectType::Relation, b, v.d.as_str()),
            (OSMObjectType::Way, b, ""),
            (OSMObjectType::Node, b, "r"),
        ],
    );
}
fn readable(v: &V) {
    given(v.id.parse::<ObjId>().is_ok());
}
fn located(v: &V) {
    given(v.lat.parse::<Lat>().is_ok());
    given(v.lon.parse::<Lon>().is_ok());
}
fn refs_readable(v: &V) {
    given(v.a.parse::<ObjId>().is_ok());
    given(v.b.parse::<ObjId>().is_ok());
}

fn ends(r: &mut impl OSMReader) {
    holds("then the end", r.next().is_none());
    holds("and again", r.next().is_none());
}
fn one(r: &mut impl OSMReader<Obj = StringOSMObj>) -> StringOSMObj {
    match r.next() {
        None => never("the object is returned"),
        Some(o) => o,
    }
}
fn node(r: &mut impl OSMReader<Obj = StringOSMObj>) -> StringNode {
    match one(r) {
        StringOSMObj::Node(n) => n,
        _ => never("a node is returned"),
    }
}
fn way(r: &mut impl OSMReader<Obj = StringOSMObj>) -> StringWay {
    match one(r) {
        StringOSMObj::Way(n) => n,
        _ => never("a way is returned"),
    }
}
fn relation(r: &mut impl OSMReader<Obj = StringOSMObj>) -> StringRelation {
    match one(r) {
        StringOSMObj::Relation(n) => n,
        _ => never("a relation is returned"),
    }
}

// ---------------------------------------------------------------- C10: one object of each kind
fn node_full(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, deleted: bool) {
    readable(v);
    located(v);
    let n = node(r);
    has_all(&n, v, deleted);
    has_lat_lon(&n, v);
    has_tags(&n, v);
    ends(r);
}
fn node_only(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, deleted: bool) {
    readable(v);
    let n = node(r);
    has_id(&n, v, deleted);
    holds("no lat_lon", n.lat_lon().is_none());
    no_tags(&n);
    ends(r);
}
fn way_full(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, deleted: bool) {
    readable(v);
    refs_readable(v);
    let n = way(r);
    has_all(&n, v, deleted);
    has_tags(&n, v);
    has_nds(&n, v);
    ends(r);
}
fn way_only(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, deleted: bool) {
    readable(v);
    let n = way(r);
    has_id(&n, v, deleted);
    no_tags(&n);
    same("no nodes", n.num_nodes(), 0);
    ends(r);
}
fn relation_full(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, deleted: bool) {
    readable(v);
    refs_readable(v);
    let n = relation(r);
    has_all(&n, v, deleted);
    has_tags(&n, v);
    has_members(&n, v);
    ends(r);
}
fn relation_only(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, deleted: bool) {
    readable(v);
    let n = relation(r);
    has_id(&n, v, deleted);
    no_tags(&n);
    holds("no members", n.members().next().is_none());
    ends(r);
}
fn node_doc(v: &V) -> Vec<Ev> {
    element("node", full(v), join(tags(v), noise()))
}
fn node_back(v: &V) -> Vec<Ev> {
    element("node", back(v), join(nds(v), tags(v)))
}
fn way_doc(v: &V) -> Vec<Ev> {
    element("way", full(v), join(nds(v), join(tags(v), noise())))
}
fn way_back(v: &V) -> Vec<Ev> {
    element("way", back(v), join(tags(v), join(noise(), nds(v))))
}
fn relation_doc(v: &V) -> Vec<Ev> {
    element("relation", full(v), join(members(v), join(tags(v), noise())))
}
fn relation_back(v: &V) -> Vec<Ev> {
    element("relation", back(v), join(tags(v), join(noise(), members(v))))
}

pub fn law_c10_xml_node(v: V) {
    node_full(&mut osm(node_doc(&v)), &v, false)
}
pub fn law_c10_xml_node_back(v: V) {
    node_full(&mut osm(node_back(&v)), &v, false)
}
pub fn law_c10_xml_node_only(v: V) {
    node_only(&mut osm(vec![Ev::Empty("node", only_id(&v))]), &v, false)
}
pub fn law_c10_xml_way(v: V) {
    way_full(&mut osm(way_doc(&v)), &v, false)
}
pub fn law_c10_xml_way_back(v: V) {
    way_full(&mut osm(way_back(&v)), &v, false)
}
pub fn law_c10_xml_way_only(v: V) {
    way_only(&mut osm(vec![Ev::Empty("way", only_id(&v))]), &v, false)
}
pub fn law_c10_xml_relation(v: V) {
    relation_full(&mut osm(relation_doc(&v)), &v, false)
}
pub fn law_c10_xml_relation_back(v: V) {
    relation_full(&mut osm(relation_back(&v)), &v, false)
}
pub fn law_c10_xml_relation_only(v: V) {
    relation_only(&mut osm(vec![Ev::Empty("relation", only_id(&v))]), &v, false)
}
pub fn law_c10_osc_node(v: V) {
    node_full(&mut osc("modify", node_doc(&v)), &v, false)
}
pub fn law_c10_osc_node_create(v: V) {
    node_full(&mut osc("create", node_back(&v)), &v, false)
}
pub fn law_c10_osc_node_delete(v: V) {
    node_full(&mut osc("delete", node_doc(&v)), &v, true)
}
pub fn law_c10_osc_node_delete_only(v: V) {
    node_only(&mut osc("delete", vec![Ev::Empty("node", only_id(&v))]), &v, true)
}
pub fn law_c10_osc_way(v: V) {
    way_full(&mut osc("create", way_doc(&v)), &v, false)
}
pub fn law_c10_osc_way_modify(v: V) {
    way_full(&mut osc("modify", way_back(&v)), &v, false)
}
pub fn law_c10_osc_way_delete(v: V) {
    way_full(&mut osc("delete", way_doc(&v)), &v, true)
}
pub fn law_c10_osc_way_delete_only(v: V) {
    way_only(&mut osc("delete", vec![Ev::Empty("way", only_id(&v))]), &v, true)
}
pub fn law_c10_osc_relation(v: V) {
    relation_full(&mut osc("modify", relation_doc(&v)), &v, false)
}
pub fn law_c10_osc_relation_create(v: V) {
    relation_full(&mut osc("create", relation_back(&v)), &v, false)
}
pub fn law_c10_osc_relation_delete(v: V) {
    relation_full(&mut osc("delete", relation_doc(&v)), &v, true)
}
pub fn law_c10_osc_relation_delete_only(v: V) {
    relation_only(&mut osc("delete", vec![Ev::Empty("relation", only_id(&v))]), &v, true)
}
/// the attributes named, in that order
fn some(v: &V, which: &[&'static str]) -> Vec<At> {
    let mut l = vec![];
    for n in which {
        l.push(match *n {
            "id" => at("id", &v.id),
            "visible" => at("visible", &v.visible),
            "version" => at("version", &v.version),
            "changeset" => at("changeset", &v.changeset),
            "timestamp" => at("timestamp", &v.timestamp),
            "user" => at("user", &v.user),
            "uid" => at("uid", &v.uid),
            "lat" => at("lat", &v.lat),
            _ => at("lon", &v.lon),
        });
    }
    l
}
fn in_it(which: &[&'static str], n: &'static str) -> bool {
    for w in which {
        if *w == n {
            return true;
        }
    }
    false
}
/// exactly the attributes which are there are read
fn has(o: &impl OSMObjBase, v: &V, which: &[&'static str], deleted: bool) {
    same("id", Some(o.id()), v.id.parse::<ObjId>().ok());
    if in_it(which, "version") {
        same("version", o.version(), v.version.parse::<u32>().ok());
    } else {
        holds("no version", o.version().is_none());
    }
    if in_it(which, "changeset") {
        same("changeset", o.changeset_id(), v.changeset.parse::<u32>().ok());
    } else {
        holds("no changeset", o.changeset_id().is_none());
    }
    if in_it(which, "uid") {
        same("uid", o.uid(), v.uid.parse::<u32>().ok());
    } else {
        holds("no uid", o.uid().is_none());
    }
    if in_it(which, "user") {
        same("user", o.user(), Some(v.user.as_str()));
    } else {
        holds("no user", o.user().is_none());
    }
    if in_it(which, "timestamp") {
        same("timestamp", iso(o.timestamp()), Some(&v.timestamp));
    } else {
        holds("no timestamp", o.timestamp().is_none());
    }
    if in_it(which, "visible") {
        same("deleted", o.deleted(), deleted || v.visible == "false");
    } else {
        same("deleted", o.deleted(), deleted);
    }
}
const ONES: [&[&str]; 7] = [&["version", "id"], &["id", "changeset"], &["id", "uid"], &["user", "id"], &["id", "timestamp"], &["id", "visible"], &["lat", "id", "lon"]];
const LESS: [&[&str]; 6] = [
    &["id", "visible", "changeset", "timestamp", "user", "uid", "lat", "lon"],
    &["id", "visible", "version", "timestamp", "user", "uid", "lat", "lon"],
    &["id", "visible", "version", "changeset", "user", "uid", "lat", "lon"],
    &["id", "visible", "version", "changeset", "timestamp", "uid", "lat", "lon"],
    &["id", "visible", "version", "changeset", "timestamp", "user", "lat", "lon"],
    &["id", "version", "changeset", "timestamp", "user", "uid", "lat", "lon"],
];
fn subsets(name: &'static str, v: &V, sets: &[&[&'static str]]) -> Vec<Ev> {
    let mut l = vec![];
    for w in sets {
        l.push(Ev::Empty(name, some(v, w)));
    }
    l
}
fn nodes_of(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, sets: &[&[&'static str]], deleted: bool) {
    readable(v);
    located(v);
    for w in sets {
        let n = node(r);
        has(&n, v, w, deleted);
        if in_it(w, "lat") {
            has_lat_lon(&n, v);
        } else {
            holds("no location", n.lat_lon().is_none());
        }
    }
    ends(r);
}
fn ways_of(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, sets: &[&[&'static str]], deleted: bool) {
    readable(v);
    for w in sets {
        has(&way(r), v, w, deleted);
    }
    ends(r);
}
fn relations_of(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, sets: &[&[&'static str]], deleted: bool) {
    readable(v);
    for w in sets {
        has(&relation(r), v, w, deleted);
    }
    ends(r);
}
pub fn law_c10_xml_node_one_attribute(v: V) {
    nodes_of(&mut osm(subsets("node", &v, &ONES)), &v, &ONES, false)
}
pub fn law_c10_xml_node_less_one(v: V) {
    nodes_of(&mut osm(subsets("node", &v, &LESS)), &v, &LESS, false)
}
pub fn law_c10_xml_way_one_attribute(v: V) {
    ways_of(&mut osm(subsets("way", &v, &ONES)), &v, &ONES, false)
}
pub fn law_c10_xml_way_less_one(v: V) {
    ways_of(&mut osm(subsets("way", &v, &LESS)), &v, &LESS, false)
}
pub fn law_c10_xml_relation_one_attribute(v: V) {
    relations_of(&mut osm(subsets("relation", &v, &ONES)), &v, &ONES, false)
}
pub fn law_c10_xml_relation_less_one(v: V) {
    relations_of(&mut osm(subsets("relation", &v, &LESS)), &v, &LESS, false)
}
pub fn law_c10_osc_node_one_attribute(v: V) {
    nodes_of(&mut osc("modify", subsets("node", &v, &ONES)), &v, &ONES, false)
}
pub fn law_c10_osc_node_deleted_one_attribute(v: V) {
    nodes_of(&mut osc("delete", subsets("node", &v, &ONES)), &v, &ONES, true)
}
pub fn law_c10_osc_way_deleted_one_attribute(v: V) {
    ways_of(&mut osc("delete", subsets("way", &v, &ONES)), &v, &ONES, true)
}
pub fn law_c10_osc_relation_deleted_one_attribute(v: V) {
    relations_of(&mut osc("delete", subsets("relation", &v, &ONES)), &v, &ONES, true)
}
/// only the three types of members there are
pub fn law_c10_xml_member_types(v: V) {
    readable(&v);
    refs_readable(&v);
    let m = |t: &'static str, i: &String| Ev::Empty("member", vec![is("type", t), at("ref", i), at("role", &v.c)]);
    let kids = vec![m("Node", &v.a), m("", &v.a), m("way ", &v.a), m("relation", &v.a), m("RELATION", &v.a), m("changeset", &v.a), m("node", &v.b), m("osm", &v.a), m("way", &v.a), m("WAY", &v.a)];
    let n = relation(&mut osm(element("relation", only_id(&v), kids)));
    let (a, b) = (v.a.parse::<ObjId>().ok(), v.b.parse::<ObjId>().ok());
    let mut l = Vec::new();
    for (t, i, r) in n.members() {
        l.push((t, Some(i), r));
    }
    same("members", l, vec![(OSMObjectType::Relation, a, v.c.as_str()), (OSMObjectType::Node, b, v.c.as_str()), (OSMObjectType::Way, a, v.c.as_str())]);
}
/// the names of attributes and elements are compared in full
pub fn law_c10_xml_near_names(v: V) {
    readable(&v);
    refs_readable(&v);
    let near = vec![at("id_old", &v.lat), at("Id", &v.lat), at("ids", &v.lat), at("id", &v.id), at("versions", &v.lat), at("user_id", &v.lat), at("users", &v.lat), at("lats", &v.lat), at("lons", &v.lon), at("LAT", &v.lat), at("LON", &v.lon), at("changesets", &v.lat), at("timestamps", &v.lat), at("uids", &v.lat), is("visibles", "false"), is("Visible", "false")];
    let kids = vec![
        Ev::Empty("tags", vec![at("k", &v.a), at("v", &v.b)]),
        Ev::Empty("Tag", vec![at("k", &v.a), at("v", &v.b)]),
        Ev::Empty("tag", vec![at("ka", &v.a), at("value", &v.b)]),
        Ev::Empty("tag", vec![at("key", &v.a), at("value", &v.b), at("v", &v.d), at("k", &v.c)]),
        Ev::Empty("nds", vec![at("ref", &v.a)]),
        Ev::Empty("nd", vec![at("refs", &v.a), at("Ref", &v.a), at("ref_", &v.a)]),
        Ev::Empty("nd", vec![at("refs", &v.a), at("ref", &v.b)]),
    ];
    let mut r = osm(join(vec![Ev::Empty("nodes", full(&v)), Ev::Empty("Node", full(&v))], join(element("way", near, kids), vec![Ev::Empty("ways", full(&v))])));
    let n = way(&mut r);
    has_id(&n, &v, false);
    let mut l = Vec::new();
    for t in n.tags() {
        l.push(t);
    }
    same("tags", l, vec![(v.c.as_str(), v.d.as_str())]);
    let mut l = Vec::new();
    for i in n.nodes() {
        l.push(Some(*i));
    }
    same("nodes", l, vec![v.b.parse::<ObjId>().ok()]);
    ends(&mut r);
}
/// one coordinate alone is no location
pub fn law_c10_xml_half_location(v: V) {
    readable(&v);
    let n = node(&mut osm(vec![Ev::Empty("node", vec![at("id", &v.id), at("lat", &v.lat)])]));
    holds("no location", n.lat_lon().is_none());
    let n = node(&mut osm(vec![Ev::Empty("node", vec![at("id", &v.id), at("lon", &v.lon)])]));
    holds("no location either", n.lat_lon().is_none());
}
/// nor is a coordinate nobody can read
pub fn law_c10_xml_unreadable_lat(v: V) {
    readable(&v);
    given(v.lat.parse::<Lat>().is_err());
    holds("no location", node(&mut osm(n_(&v))).lat_lon().is_none());
    holds("no location in a change", node(&mut osc("modify", n_(&v))).lat_lon().is_none());
    holds("no location full", node(&mut osm(node_doc(&v))).lat_lon().is_none());
}
pub fn law_c10_xml_unreadable_lon(v: V) {
    readable(&v);
    given(v.lon.parse::<Lon>().is_err());
    holds("no location", node(&mut osm(n_(&v))).lat_lon().is_none());
    holds("no location in a change", node(&mut osc("modify", n_(&v))).lat_lon().is_none());
    holds("no location full", node(&mut osm(node_doc(&v))).lat_lon().is_none());
}
/// children without what they need are left out, the others stay
pub fn law_c10_xml_unusable_tags(v: V) {
    readable(&v);
    let kids = vec![
        Ev::Empty("tag", vec![at("k", &v.a)]),
        Ev::Empty("tag", vec![at("k", &v.c), at("v", &v.d)]),
        Ev::Empty("tag", vec![at("v", &v.b)]),
        Ev::Empty("tag", vec![]),
    ];
    let n = node(&mut osm(element("node", only_id(&v), kids)));
    let mut l = Vec::new();
    for t in n.tags() {
        l.push(t);
    }
    same("tags", l, vec![(v.c.as_str(), v.d.as_str())]);
}
pub fn law_c10_xml_unusable_nds(v: V) {
    readable(&v);
    refs_readable(&v);
    given(v.c.parse::<ObjId>().is_err());
    let kids = vec![Ev::Empty("nd", vec![]), Ev::Empty("nd", vec![at("ref", &v.a)]), Ev::Empty("nd", vec![at("ref", &v.c)]), Ev::Empty("nd", vec![at("ref", &v.b)])];
    let n = way(&mut osm(element("way", only_id(&v), kids)));
    let mut l = Vec::new();
    for i in n.nodes() {
        l.push(Some(*i));
    }
    same("nodes", l, vec![v.a.parse::<ObjId>().ok(), v.b.parse::<ObjId>().ok()]);
}
pub fn law_c10_xml_unusable_members(v: V) {
    readable(&v);
    refs_readable(&v);
    given(v.c.parse::<ObjId>().is_err());
    let kids = vec![
        Ev::Empty("member", vec![is("type", "node"), is("role", "q")]),
        Ev::Empty("member", vec![is("type", "way"), at("ref", &v.a), at("role", &v.d)]),
        Ev::Empty("member", vec![is("type", "area"), at("ref", &v.a), is("role", "q")]),
        Ev::Empty("member", vec![at("ref", &v.a), is("role", "q")]),
        Ev::Empty("member", vec![is("type", "node"), at("ref", &v.c), is("role", "q")]),
        Ev::Empty("member", vec![is("role", "z"), at("ref", &v.b), is("type", "node")]),
    ];
    let n = relation(&mut osm(element("relation", only_id(&v), kids)));
    let mut l = Vec::new();
    for (t, i, r) in n.members() {
        l.push((t, Some(i), r));
    }
    same("members", l, vec![(OSMObjectType::Way, v.a.parse::<ObjId>().ok(), v.d.as_str()), (OSMObjectType::Node, v.b.parse::<ObjId>().ok(), "z")]);
}
/// what is unreadable is missing, and nothing else
pub fn law_c10_xml_unreadable(v: V) {
    readable(&v);
    given(v.version.parse::<u32>().is_err());
    given(v.uid.parse::<u32>().is_ok());
    given(v.changeset.parse::<u32>().is_err());
    let n = way(&mut osm(element("way", full(&v), vec![])));
    holds("no version", n.version().is_none());
    holds("no changeset", n.changeset_id().is_none());
    same("uid", n.uid(), v.uid.parse::<u32>().ok());
    same("user", n.user(), Some(v.user.as_str()));
}

// ---------------------------------------------------------------- several objects
/// which objects a delete block deletes
fn three(r: &mut impl OSMReader<Obj = StringOSMObj>, u: &V, v: &V, w: &V, del: (bool, bool, bool)) {
    readable(u);
    readable(v);
    readable(w);
    refs_readable(v);
    let n = node(r);
    has_id(&n, u, del.0);
    no_tags(&n);
    let n = way(r);
    has_all(&n, v, del.1);
    has_tags(&n, v);
    has_nds(&n, v);
    let n = relation(r);
    has_id(&n, w, del.2);
    no_tags(&n);
    holds("no members", n.members().next().is_none());
    ends(r);
}
fn n_(u: &V) -> Vec<Ev> {
    vec![Ev::Empty("node", only_id(u)), Ev::Other]
}
fn r_(u: &V) -> Vec<Ev> {
    vec![Ev::Start("relation", only_id(u)), Ev::End("relation")]
}
fn block(b: &'static str, e: Vec<Ev>) -> Vec<Ev> {
    let mut l = vec![Ev::Start(b, vec![]), Ev::Other];
    l.extend(e);
    l.push(Ev::End(b));
    l
}
fn change(a: Vec<Ev>, b: Vec<Ev>, c: Vec<Ev>) -> OSCReader<Doc> {
    let mut l = vec![Ev::Start("osmChange", vec![])];
    l.extend(a);
    l.push(Ev::Other);
    l.extend(b);
    l.extend(c);
    l.push(Ev::End("osmChange"));
    OSCReader::new(Doc(l))
}
pub fn law_c10_osc_delete_first(u: V, v: V, w: V) {
    three(&mut change(block("delete", n_(&u)), block("create", way_doc(&v)), block("modify", r_(&w))), &u, &v, &w, (true, false, false))
}
pub fn law_c10_osc_delete_middle(u: V, v: V, w: V) {
    three(&mut change(block("create", n_(&u)), block("delete", way_doc(&v)), block("create", r_(&w))), &u, &v, &w, (false, true, false))
}
pub fn law_c10_osc_delete_last(u: V, v: V, w: V) {
    three(&mut change(block("modify", n_(&u)), block("modify", way_doc(&v)), block("delete", r_(&w))), &u, &v, &w, (false, false, true))
}
pub fn law_c10_osc_delete_all(u: V, v: V, w: V) {
    three(&mut change(vec![], block("delete", join(n_(&u), join(way_doc(&v), r_(&w)))), vec![]), &u, &v, &w, (true, true, true))
}
pub fn law_c10_osc_delete_none(u: V, v: V, w: V) {
    three(&mut change(block("delete", vec![]), block("modify", join(n_(&u), join(way_doc(&v), r_(&w)))), block("delete", vec![])), &u, &v, &w, (false, false, false))
}
pub fn law_c10_osc_delete_twice(u: V, v: V, w: V) {
    three(&mut change(block("delete", n_(&u)), block("create", way_back(&v)), block("delete", r_(&w))), &u, &v, &w, (true, false, true))
}

// ---------------------------------------------------------------- C11
/// elements which are no objects, inside objects and between them
fn inside() -> Vec<Ev> {
    vec![Ev::Empty("bounds", vec![]), Ev::Start("changeset", vec![is("id", "1")]), Ev::Other, Ev::End("changeset"), Ev::Start("note", vec![]), Ev::Empty("comment", vec![is("k", "1"), is("v", "2")]), Ev::End("note"), Ev::Other]
}
fn with_inside(u: &V, v: &V, w: &V) -> Vec<Ev> {
    let a = element("way", full(u), join(inside(), join(nds(u), join(inside(), join(tags(u), inside())))));
    let b = element("node", full(v), join(inside(), join(tags(v), inside())));
    let c = element("relation", full(w), join(inside(), join(members(w), join(inside(), join(tags(w), inside())))));
    join(inside(), join(a, join(inside(), join(b, join(inside(), join(c, inside()))))))
}
fn inside_objects(r: &mut impl OSMReader<Obj = StringOSMObj>, u: &V, v: &V, w: &V) {
    readable(u);
    readable(v);
    readable(w);
    refs_readable(u);
    refs_readable(w);
    let n = way(r);
    has_all(&n, u, false);
    has_tags(&n, u);
    has_nds(&n, u);
    let n = node(r);
    has_all(&n, v, false);
    has_tags(&n, v);
    let n = relation(r);
    has_all(&n, w, false);
    has_tags(&n, w);
    has_members(&n, w);
    ends(r);
}
pub fn law_c11_xml_inside(u: V, v: V, w: V) {
    inside_objects(&mut osm(with_inside(&u, &v, &w)), &u, &v, &w)
}
pub fn law_c11_osc_inside(u: V, v: V, w: V) {
    inside_objects(&mut osc("create", with_inside(&u, &v, &w)), &u, &v, &w)
}
pub fn law_c11_xml_three(u: V, v: V, w: V) {
    three(&mut osm(join(n_(&u), join(way_doc(&v), r_(&w)))), &u, &v, &w, (false, false, false))
}
fn unusable(v: &V) -> Vec<Ev> {
    let mut l = element("node", vec![at("lat", &v.lat), at("lon", &v.lon), at("user", &v.user)], vec![Ev::Empty("tag", vec![at("k", &v.a), at("v", &v.b)])]);
    l.extend(element("way", vec![at("id", &v.id)], vec![Ev::Empty("nd", vec![at("ref", &v.a)]), Ev::Empty("tag", vec![at("k", &v.a), at("v", &v.b)])]));
    l.extend(element("relation", vec![at("version", &v.version)], vec![Ev::Empty("member", vec![is("type", "node"), at("ref", &v.a), at("role", &v.b)])]));
    l.push(Ev::Empty("node", vec![]));
    l
}
/// elements no reader can use end nothing and leave nothing behind
fn skips(r: &mut impl OSMReader<Obj = StringOSMObj>, bad: &V, v: &V, w: &V) {
    given(bad.id.parse::<ObjId>().is_err());
    readable(v);
    readable(w);
    refs_readable(w);
    let n = node(r);
    has_id(&n, v, false);
    no_tags(&n);
    let n = way(r);
    has_all(&n, w, false);
    has_tags(&n, w);
    has_nds(&n, w);
    ends(r);
}
fn skip_doc(bad: &V, v: &V, w: &V) -> Vec<Ev> {
    join(unusable(bad), join(n_(v), join(unusable(bad), join(way_doc(w), unusable(bad)))))
}
pub fn law_c11_xml_unusable(bad: V, v: V, w: V) {
    skips(&mut osm(skip_doc(&bad, &v, &w)), &bad, &v, &w)
}
pub fn law_c11_osc_unusable(bad: V, v: V, w: V) {
    skips(&mut osc("modify", skip_doc(&bad, &v, &w)), &bad, &v, &w)
}
pub fn law_c11_osc_unusable_deleted(bad: V, v: V, w: V) {
    let doc = join(block("delete", unusable(&bad)), join(block("create", n_(&v)), block("delete", unusable(&bad))));
    skips(&mut change(doc, block("modify", way_doc(&w)), block("delete", unusable(&bad))), &bad, &v, &w)
}
/// unknown elements with children that look like those of an object
fn foreign(v: &V) -> Vec<Ev> {
    let mut l = vec![Ev::Other, Ev::Start("changeset", full(v))];
    l.extend(tags(v));
    l.extend(nds(v));
    l.extend(members(v));
    l.push(Ev::End("changeset"));
    l.push(Ev::Empty("user", full(v)));
    l.push(Ev::Empty("tag", vec![at("k", &v.a), at("v", &v.b)]));
    l.push(Ev::Empty("nd", vec![at("ref", &v.a)]));
    l.push(Ev::Other);
    l
}
fn foreign_doc(x: &V, u: &V, v: &V, w: &V) -> Vec<Ev> {
    let a = join(foreign(x), join(n_(u), foreign(x)));
    join(a, join(way_doc(v), join(foreign(x), join(r_(w), foreign(x)))))
}
pub fn law_c11_xml_foreign(x: V, u: V, v: V, w: V) {
    three(&mut osm(foreign_doc(&x, &u, &v, &w)), &u, &v, &w, (false, false, false))
}
pub fn law_c11_osc_foreign(x: V, u: V, v: V, w: V) {
    three(&mut osc("modify", foreign_doc(&x, &u, &v, &w)), &u, &v, &w, (false, false, false))
}
/// one object after another of the same kind: nothing moves from one to the next
fn two_ways(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, w: &V) {
    readable(v);
    readable(w);
    refs_readable(v);
    let n = way(r);
    has_all(&n, v, false);
    has_tags(&n, v);
    has_nds(&n, v);
    let n = way(r);
    has_id(&n, w, false);
    no_tags(&n);
    same("no nodes", n.num_nodes(), 0);
    ends(r);
}
pub fn law_c11_xml_two_ways(v: V, w: V) {
    two_ways(&mut osm(join(way_doc(&v), element("way", only_id(&w), vec![]))), &v, &w)
}
pub fn law_c11_osc_two_ways(v: V, w: V) {
    two_ways(&mut osc("modify", join(way_doc(&v), element("way", only_id(&w), vec![]))), &v, &w)
}
fn two_relations(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, w: &V) {
    readable(v);
    readable(w);
    refs_readable(v);
    let n = relation(r);
    has_all(&n, v, false);
    has_tags(&n, v);
    has_members(&n, v);
    let n = relation(r);
    has_id(&n, w, false);
    no_tags(&n);
    holds("no members", n.members().next().is_none());
    ends(r);
}
pub fn law_c11_xml_two_relations(v: V, w: V) {
    two_relations(&mut osm(join(relation_doc(&v), element("relation", only_id(&w), vec![]))), &v, &w)
}
pub fn law_c11_osc_two_relations(v: V, w: V) {
    two_relations(&mut osc("create", join(relation_doc(&v), element("relation", only_id(&w), vec![]))), &v, &w)
}
fn two_nodes(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V, w: &V) {
    readable(v);
    readable(w);
    let n = node(r);
    has_all(&n, v, false);
    has_tags(&n, v);
    let n = node(r);
    has_id(&n, w, false);
    holds("no location", n.lat_lon().is_none());
    no_tags(&n);
    ends(r);
}
pub fn law_c11_xml_two_nodes(v: V, w: V) {
    two_nodes(&mut osm(join(node_doc(&v), vec![Ev::Empty("node", only_id(&w))])), &v, &w)
}
pub fn law_c11_osc_two_nodes(v: V, w: V) {
    two_nodes(&mut osc("create", join(node_doc(&v), vec![Ev::Empty("node", only_id(&w))])), &v, &w)
}
/// documents without objects
pub fn law_c11_nothing(v: V) {
    ends(&mut osm(vec![]));
    ends(&mut osm(foreign(&v)));
    ends(&mut osc("delete", vec![]));
    ends(&mut osc("modify", foreign(&v)));
    ends(&mut change(vec![], vec![], vec![]));
}
/// only an element without a usable id
pub fn law_c11_unusable_only(v: V) {
    given(v.id.parse::<ObjId>().is_err());
    ends(&mut osm(unusable(&v)));
    ends(&mut osc("modify", unusable(&v)));
    ends(&mut osc("delete", unusable(&v)));
}

// ------------------------------------------------------------------ names the formats do not define
/// an element of any other name, looking like everything at once
fn stranger(n: &'static str) -> Vec<Ev> {
    let a = || vec![is("id", "5"), is("visible", "false"), is("k", "name"), is("v", "x"), is("ref", "8"), is("type", "node"), is("role", "r"), is("lat", "1"), is("lon", "1"), is("version", "3"), is("user", "y")];
    vec![Ev::Empty(n, a()), Ev::Start(n, a()), Ev::Other, Ev::End(n), Ev::Other]
}
fn strange(n: &'static str) {
    given(n != "node");
    given(n != "way");
    given(n != "relation");
    given(n != "tag");
    given(n != "nd");
    given(n != "member");
    given(n != "create");
    given(n != "modify");
    given(n != "delete");
    given(n != "osm");
    given(n != "osmChange");
}
fn strange_doc(n: &'static str, u: &V, v: &V, w: &V) -> Vec<Ev> {
    let way = element("way", full(v), join(stranger(n), join(nds(v), join(stranger(n), join(tags(v), stranger(n))))));
    join(stranger(n), join(n_(u), join(stranger(n), join(way, join(stranger(n), join(element("relation", only_id(w), stranger(n)), stranger(n)))))))
}
pub fn law_c11_xml_any_element(n: &'static str, u: V, v: V, w: V) {
    strange(n);
    three(&mut osm(strange_doc(n, &u, &v, &w)), &u, &v, &w, (false, false, false))
}
pub fn law_c11_osc_any_element(n: &'static str, u: V, v: V, w: V) {
    strange(n);
    three(&mut osc("modify", strange_doc(n, &u, &v, &w)), &u, &v, &w, (false, false, false))
}
pub fn law_c10_osc_any_element_around(n: &'static str, u: V, v: V, w: V) {
    strange(n);
    let doc = join(vec![Ev::Start(n, vec![])], join(n_(&u), vec![Ev::End(n)]));
    let doc = join(doc, block("delete", join(vec![Ev::Start(n, vec![])], join(way_doc(&v), vec![Ev::End(n)]))));
    three(&mut change(doc, vec![Ev::Start(n, vec![])], join(r_(&w), vec![Ev::End(n)])), &u, &v, &w, (false, true, false))
}
/// an attribute of any other name
fn strange_attr(n: &'static str) {
    given(n != "id");
    given(n != "visible");
    given(n != "version");
    given(n != "changeset");
    given(n != "timestamp");
    given(n != "user");
    given(n != "uid");
    given(n != "lat");
    given(n != "lon");
    given(n != "k");
    given(n != "v");
    given(n != "ref");
    given(n != "type");
    given(n != "role");
}
fn with(n: &'static str, z: &String, a: Vec<At>) -> Vec<At> {
    let mut l = vec![at(n, z)];
    l.extend(a);
    l
}
fn strange_way(n: &'static str, z: &String, v: &V) -> Vec<Ev> {
    let kids = vec![
        Ev::Empty("tag", with(n, z, vec![at("k", &v.a), at("v", &v.b)])),
        Ev::Empty("nd", with(n, z, vec![at("ref", &v.a)])),
        Ev::Empty("tag", with(n, z, vec![at("k", &v.c)])),
        Ev::Empty("tag", with(n, z, vec![at("v", &v.c)])),
        Ev::Empty("nd", with(n, z, vec![])),
        Ev::Empty("nd", vec![at("ref", &v.b), at(n, z)]),
    ];
    element("way", with(n, z, full(v)), kids)
}
fn strange_way_read(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V) {
    readable(v);
    refs_readable(v);
    let w = way(r);
    has_all(&w, v, false);
    let mut l = Vec::new();
    for t in w.tags() {
        l.push(t);
    }
    same("tags", l, vec![(v.a.as_str(), v.b.as_str())]);
    let mut l = Vec::new();
    for i in w.nodes() {
        l.push(Some(*i));
    }
    same("nodes", l, vec![v.a.parse::<ObjId>().ok(), v.b.parse::<ObjId>().ok()]);
    ends(r);
}
pub fn law_c10_xml_any_attr_way(n: &'static str, z: String, v: V) {
    strange_attr(n);
    strange_way_read(&mut osm(strange_way(n, &z, &v)), &v)
}
pub fn law_c10_osc_any_attr_way(n: &'static str, z: String, v: V) {
    strange_attr(n);
    strange_way_read(&mut osc("create", strange_way(n, &z, &v)), &v)
}
fn strange_node(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V) {
    readable(v);
    let n = node(r);
    has_id(&n, v, false);
    holds("no position", n.lat_lon().is_none());
    no_tags(&n);
    ends(r);
}
pub fn law_c10_xml_any_attr_node(n: &'static str, z: String, v: V) {
    strange_attr(n);
    strange_node(&mut osm(element("node", with(n, &z, only_id(&v)), vec![])), &v)
}
pub fn law_c10_osc_any_attr_node(n: &'static str, z: String, v: V) {
    strange_attr(n);
    strange_node(&mut osc("modify", element("node", with(n, &z, only_id(&v)), vec![])), &v)
}
fn strange_rel(n: &'static str, z: &String, v: &V) -> Vec<Ev> {
    let kids = vec![
        Ev::Empty("member", with(n, z, vec![is("type", "way"), at("ref", &v.a), at("role", &v.c)])),
        Ev::Empty("member", with(n, z, vec![at("ref", &v.a), at("role", &v.c)])),
        Ev::Empty("member", with(n, z, vec![is("type", "node"), at("role", &v.c)])),
        Ev::Empty("member", with(n, z, vec![is("type", "node"), at("ref", &v.b)])),
    ];
    element("relation", with(n, z, only_id(v)), kids)
}
fn strange_rel_read(r: &mut impl OSMReader<Obj = StringOSMObj>, v: &V) {
    readable(v);
    refs_readable(v);
    let o = relation(r);
    has_id(&o, v, false);
    let mut l = Vec::new();
    for (t, i, r) in o.members() {
        l.push((t, Some(i), r));
    }
    same("members", l, vec![(OSMObjectType::Way, v.a.parse::<ObjId>().ok(), v.c.as_str()), (OSMObjectType::Node, v.b.parse::<ObjId>().ok(), "")]);
    ends(r);
}
pub fn law_c10_xml_any_attr_relation(n: &'static str, z: String, v: V) {
    strange_attr(n);
    strange_rel_read(&mut osm(strange_rel(n, &z, &v)), &v)
}
pub fn law_c10_osc_any_attr_relation(n: &'static str, z: String, v: V) {
    strange_attr(n);
    strange_rel_read(&mut osc("modify", strange_rel(n, &z, &v)), &v)
}
