//! Laws about the object types. Every `law_…` function is analysed on its own, for all arguments.
use crate::marks::*;
use osmio::obj_types::*;
use osmio::*;

/// What an object says about itself
pub struct Base {
    id: ObjId,
    version: Option<u32>,
    deleted: bool,
    changeset_id: Option<u32>,
    timestamp: Option<TimestampFormat>,
    uid: Option<u32>,
    user: Option<String>,
    tags: Vec<(String, String)>,
}

fn base<O: OSMObjBase>(o: &O) -> Base {
    let mut tags = Vec::new();
    for (k, v) in o.tags() {
        tags.push((k.to_string(), v.to_string()));
    }
    Base {
        id: o.id(),
        version: o.version(),
        deleted: o.deleted(),
        changeset_id: o.changeset_id(),
        timestamp: o.timestamp().clone(),
        uid: o.uid(),
        user: o.user().map(|u| u.to_string()),
        tags,
    }
}

/// everything but the named field is as it was
fn rest(skip: &'static str, a: Base, b: Base) {
    if skip != "id" {
        same("id", a.id, b.id);
    }
    if skip != "version" {
        same("version", a.version, b.version);
    }
    if skip != "deleted" {
        same("deleted", a.deleted, b.deleted);
    }
    if skip != "changeset_id" && skip != "metadata" {
        same("changeset_id", a.changeset_id, b.changeset_id);
    }
    if skip != "timestamp" {
        same("timestamp", a.timestamp, b.timestamp);
    }
    if skip != "uid" && skip != "metadata" {
        same("uid", a.uid, b.uid);
    }
    if skip != "user" && skip != "metadata" {
        same("user", a.user, b.user);
    }
    if skip != "tags" {
        same("tags", a.tags, b.tags);
    }
}

/// What is particular to a kind of object: location, nodes, members
pub trait Own {
    type X;
    fn own(&self) -> Self::X;
}
fn own_node<N: Node>(n: &N) -> Option<(Lat, Lon)> {
    n.lat_lon()
}
fn own_way<W: Way>(w: &W) -> Vec<ObjId> {
    let mut v = Vec::new();
    for n in w.nodes() {
        v.push(*n);
    }
    v
}
fn own_relation<R: Relation>(r: &R) -> Vec<(OSMObjectType, ObjId, String)> {
    let mut v = Vec::new();
    for (t, i, role) in r.members() {
        v.push((t, i, role.to_string()));
    }
    v
}
type OwnAny = (Option<Option<(Lat, Lon)>>, Option<Vec<ObjId>>, Option<Vec<(OSMObjectType, ObjId, String)>>);
fn own_any<O: OSMObj>(o: &O) -> OwnAny {
    (o.as_node().map(|n| own_node(n)), o.as_way().map(|w| own_way(w)), o.as_relation().map(|r| own_relation(r)))
}

fn set_id<O: Own + OSMObjBase>(mut o: O, v: ObjId) {
    let (b, x) = (base(&o), o.own());
    o.set_id(v);
    same("id", o.id(), v);
    rest("id", base(&o), b);
    same("own", o.own(), x);
}
fn set_version<O: Own + OSMObjBase>(mut o: O, v: Option<u32>) {
    let (b, x) = (base(&o), o.own());
    o.set_version(v);
    same("version", o.version(), v);
    rest("version", base(&o), b);
    same("own", o.own(), x);
}
fn set_deleted<O: Own + OSMObjBase>(mut o: O, v: bool) {
    let (b, x) = (base(&o), o.own());
    o.set_deleted(v);
    same("deleted", o.deleted(), v);
    rest("deleted", base(&o), b);
    same("own", o.own(), x);
}
fn set_changeset_id<O: Own + OSMObjBase>(mut o: O, v: Option<u32>) {
    let (b, x) = (base(&o), o.own());
    o.set_changeset_id(v);
    same("changeset_id", o.changeset_id(), v);
    rest("changeset_id", base(&o), b);
    same("own", o.own(), x);
}
fn set_timestamp<O: Own + OSMObjBase>(mut o: O, v: Option<TimestampFormat>) {
    let (b, x) = (base(&o), o.own());
    let w = v.clone();
    o.set_timestamp(v);
    same("timestamp", o.timestamp().clone(), w);
    rest("timestamp", base(&o), b);
    same("own", o.own(), x);
}
fn set_uid<O: Own + OSMObjBase>(mut o: O, v: Option<u32>) {
    let (b, x) = (base(&o), o.own());
    o.set_uid(v);
    same("uid", o.uid(), v);
    rest("uid", base(&o), b);
    same("own", o.own(), x);
}
fn set_user<O: Own + OSMObjBase>(mut o: O, v: Option<&str>) {
    let (b, x) = (base(&o), o.own());
    o.set_user(v);
    same("user", o.user().map(|u| u.to_string()), v.map(|u| u.to_string()));
    rest("user", base(&o), b);
    same("own", o.own(), x);
}
fn strip<O: Own + OSMObjBase>(mut o: O) {
    let (b, x) = (base(&o), o.own());
    o.strip_metadata();
    same("uid", o.uid(), None);
    same("user", o.user(), None);
    same("changeset_id", o.changeset_id(), None);
    rest("metadata", base(&o), b);
    same("own", o.own(), x);
}


// ---- C04: the tag list as a plain list model
fn model_get(t: &Vec<(String, String)>, k: &str) -> Option<String> {
    for (a, b) in t.iter() {
        if a.as_str() == k {
            return Some(b.to_string());
        }
    }
    None
}
fn model_pos(t: &Vec<(String, String)>, k: &str) -> Option<usize> {
    let mut i = 0;
    while i < t.len() {
        if t[i].0.as_str() == k {
            return Some(i);
        }
        i += 1;
    }
    None
}
fn read_tags<O: OSMObjBase>(o: &O) -> Vec<(String, String)> {
    let mut tags = Vec::new();
    for (k, v) in o.tags() {
        tags.push((k.to_string(), v.to_string()));
    }
    tags
}
fn tag_get<O: OSMObjBase>(o: O, k: &str) {
    let t = read_tags(&o);
    let m = model_get(&t, k);
    same("has_tag", o.has_tag(k), m.is_some());
    same("tag", o.tag(k).map(|x| x.to_string()), m);
}
fn tag_count<O: OSMObjBase>(o: O) {
    let t = read_tags(&o);
    same("num_tags", o.num_tags(), t.len());
    same("tags().len()", o.tags().len(), t.len());
    same("tagged", o.tagged(), t.len() != 0);
    same("untagged", o.untagged(), t.len() == 0);
}
fn tag_set<O: Own + OSMObjBase>(mut o: O, k: &str, v: &str) {
    let (b, x) = (base(&o), o.own());
    let mut t = read_tags(&o);
    match model_pos(&t, k) {
        None => t.push((k.to_string(), v.to_string())),
        Some(i) => t[i] = (k.to_string(), v.to_string()),
    }
    o.set_tag(k, v);
    same("tags", read_tags(&o), t);
    rest("tags", base(&o), b);
    same("own", o.own(), x);
}
fn tag_unset<O: Own + OSMObjBase>(mut o: O, k: &str) {
    let (b, x) = (base(&o), o.own());
    let mut t = read_tags(&o);
    if let Some(i) = model_pos(&t, k) {
        t.remove(i);
    }
    o.unset_tag(k);
    same("tags", read_tags(&o), t);
    rest("tags", base(&o), b);
    same("own", o.own(), x);
}

// ---- C01: what only some kinds have
fn set_loc_direct<N: Node>(mut o: N, v: Option<(Lat, Lon)>) {
    let b = base(&o);
    o.set_lat_lon_direct(v);
    same("lat_lon", o.lat_lon(), v);
    same("has_lat_lon", o.has_lat_lon(), v.is_some());
    rest("lat_lon", base(&o), b);
}
fn unset_loc<N: Node>(mut o: N) {
    let b = base(&o);
    o.unset_lat_lon();
    same("lat_lon", o.lat_lon(), None);
    rest("lat_lon", base(&o), b);
}
fn set_loc<N: Node>(mut o: N, v: Option<(f64, f64)>) {
    let (b, l) = (base(&o), o.lat_lon());
    let want: Result<Option<(Lat, Lon)>, ()> = match v {
        None => Ok(None),
        Some((x, y)) => match (Lat::try_from(x), Lon::try_from(y)) {
            (Ok(x), Ok(y)) => Ok(Some((x, y))),
            _ => Err(()),
        },
    };
    let r = o.set_lat_lon(v);
    same("accepted", r.is_ok(), want.is_ok());
    match want {
        Ok(w) => same("set", o.lat_lon(), w),
        Err(_) => same("unchanged when refused", o.lat_lon(), l),
    }
    rest("lat_lon", base(&o), b);
}
fn set_nodes<W: Way>(mut o: W, v: Vec<ObjId>) {
    let b = base(&o);
    let w = v.clone();
    o.set_nodes(v);
    same("nodes", own_way(&o), w);
    rest("nodes", base(&o), b);
}
fn set_members<R: Relation>(mut o: R, v: Vec<(OSMObjectType, ObjId, String)>) {
    let b = base(&o);
    let mut w = Vec::new();
    for (t, i, r) in v.iter() {
        w.push((*t, *i, r.to_string()));
    }
    o.set_members(v);
    same("members", own_relation(&o), w);
    rest("members", base(&o), b);
}

// ---- C28
fn way_helpers<W: Way>(o: W, i: usize) {
    let v = own_way(&o);
    same("num_nodes", o.num_nodes(), v.len());
    same("nids", o.nids().to_vec(), v.clone());
    same("node", o.node(i), if i < v.len() { Some(v[i]) } else { None });
    let closed = v.len() != 0 && v[0] == v[v.len() - 1];
    same("is_closed", o.is_closed(), closed);
}
fn way_area<W: Way>(o: W) {
    let no = match o.tag("area") {
        Some(x) => x == "no",
        None => false,
    };
    let c = o.is_closed();
    same("is_area", o.is_area(), c && !no);
}

// ---- C03
fn kind_base<O: OSMObjBase>(o: O, t: OSMObjectType) {
    same("object_type", o.object_type(), t);
}
fn kinds<O: OSMObj>(o: O)
where
    O::Node: Own<X = Option<(Lat, Lon)>>,
    O::Way: Own<X = Vec<ObjId>>,
    O::Relation: Own<X = Vec<(OSMObjectType, ObjId, String)>>,
{
    let b = base(&o);
    let t = o.object_type();
    same("is_node", o.is_node(), t == OSMObjectType::Node);
    same("is_way", o.is_way(), t == OSMObjectType::Way);
    same("is_relation", o.is_relation(), t == OSMObjectType::Relation);
    same("as_node", o.as_node().is_some(), t == OSMObjectType::Node);
    same("as_way", o.as_way().is_some(), t == OSMObjectType::Way);
    same("as_relation", o.as_relation().is_some(), t == OSMObjectType::Relation);
    match (o.as_node(), o.as_way(), o.as_relation()) {
        (Some(n), _, _) => {
            same("type of as_node", n.object_type(), OSMObjectType::Node);
            rest("", base(n), b);
        }
        (_, Some(w), _) => {
            same("type of as_way", w.object_type(), OSMObjectType::Way);
            rest("", base(w), b);
        }
        (_, _, Some(r)) => {
            same("type of as_relation", r.object_type(), OSMObjectType::Relation);
            rest("", base(r), b);
        }
        _ => {}
    }
}
fn kinds_mut<O: OSMObj>(mut o: O, id: ObjId) {
    let t = o.object_type();
    let b = base(&o);
    same("as_node_mut", o.as_node_mut().is_some(), t == OSMObjectType::Node);
    same("as_way_mut", o.as_way_mut().is_some(), t == OSMObjectType::Way);
    same("as_relation_mut", o.as_relation_mut().is_some(), t == OSMObjectType::Relation);
    if let Some(x) = o.as_node_mut() {
        x.set_id(id);
    }
    if let Some(x) = o.as_way_mut() {
        x.set_id(id);
    }
    if let Some(x) = o.as_relation_mut() {
        x.set_id(id);
    }
    same("changed through as_mut", o.id(), id);
    rest("id", base(&o), b);
}
fn into_node<O: OSMObj>(o: O) {
    let t = o.object_type();
    let b = base(&o);
    let l = o.as_node().map(|n| own_node(n));
    let r = o.into_node();
    same("into_node", r.is_some(), t == OSMObjectType::Node);
    if let Some(n) = r {
        rest("", base(&n), b);
        same("own", Some(own_node(&n)), l);
    }
}
fn into_way<O: OSMObj>(o: O) {
    let t = o.object_type();
    let b = base(&o);
    let l = o.as_way().map(|n| own_way(n));
    let r = o.into_way();
    same("into_way", r.is_some(), t == OSMObjectType::Way);
    if let Some(n) = r {
        rest("", base(&n), b);
        same("own", Some(own_way(&n)), l);
    }
}
fn into_relation<O: OSMObj>(o: O) {
    let t = o.object_type();
    let b = base(&o);
    let l = o.as_relation().map(|n| own_relation(n));
    let r = o.into_relation();
    same("into_relation", r.is_some(), t == OSMObjectType::Relation);
    if let Some(n) = r {
        rest("", base(&n), b);
        same("own", Some(own_relation(&n)), l);
    }
}
fn wrap<T: OSMObjBase + Own, O: OSMObj + From<T>>(x: T, pick: impl Fn(&O) -> Option<T::X>) {
    let b = base(&x);
    let t = x.object_type();
    let l = x.own();
    let o: O = O::from(x);
    same("object_type", o.object_type(), t);
    rest("", base(&o), b);
    same("own", pick(&o), Some(l));
}

// ---- C02
fn convert<A: OSMObjBase + Own, B: OSMObjBase + Own<X = A::X> + From<A>>(a: A) {
    let b = base(&a);
    let t = a.object_type();
    let x = a.own();
    let c: B = B::from(a);
    same("object_type", c.object_type(), t);
    rest("", base(&c), b);
    same("own", c.own(), x);
}

macro_rules! owned {
    ($m:ident, $t:ty, $x:ty, $own:path) => {
        impl Own for $t {
            type X = $x;
            fn own(&self) -> $x {
                $own(self)
            }
        }
        pub mod $m {
            use super::*;
            pub fn law_c01_set_id(o: $t, v: ObjId) {
                set_id(o, v)
            }
            pub fn law_c01_set_version(o: $t, v: Option<u32>) {
                set_version(o, v)
            }
            pub fn law_c01_set_deleted(o: $t, v: bool) {
                set_deleted(o, v)
            }
            pub fn law_c01_set_changeset_id(o: $t, v: Option<u32>) {
                set_changeset_id(o, v)
            }
            pub fn law_c01_set_timestamp(o: $t, v: Option<TimestampFormat>) {
                set_timestamp(o, v)
            }
            pub fn law_c01_set_uid(o: $t, v: Option<u32>) {
                set_uid(o, v)
            }
            pub fn law_c01_set_user(o: $t, v: Option<&str>) {
                set_user(o, v)
            }
            pub fn law_c01_strip(o: $t) {
                strip(o)
            }
            pub fn law_c04_get(o: $t, k: &str) {
                tag_get(o, k)
            }
            pub fn law_c04_count(o: $t) {
                tag_count(o)
            }
            pub fn law_c04_set(o: $t, k: &str, v: &str) {
                tag_set(o, k, v)
            }
            pub fn law_c04_unset(o: $t, k: &str) {
                tag_unset(o, k)
            }
        }
    };
}
type Mem = Vec<(OSMObjectType, ObjId, String)>;
owned!(string_node, StringNode, Option<(Lat, Lon)>, own_node);
owned!(string_way, StringWay, Vec<ObjId>, own_way);
owned!(string_relation, StringRelation, Mem, own_relation);
owned!(string_obj, StringOSMObj, OwnAny, own_any);
owned!(arc_node, ArcNode, Option<(Lat, Lon)>, own_node);
owned!(arc_way, ArcWay, Vec<ObjId>, own_way);
owned!(arc_relation, ArcRelation, Mem, own_relation);
owned!(arc_obj, ArcOSMObj, OwnAny, own_any);
owned!(rc_node, RcNode, Option<(Lat, Lon)>, own_node);
owned!(rc_way, RcWay, Vec<ObjId>, own_way);
owned!(rc_relation, RcRelation, Mem, own_relation);
owned!(rc_obj, RcOSMObj, OwnAny, own_any);

macro_rules! node_laws {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn law_c01_set_lat_lon_direct(o: $t, v: Option<(Lat, Lon)>) {
                set_loc_direct(o, v)
            }
            pub fn law_c01_unset_lat_lon(o: $t) {
                unset_loc(o)
            }
            pub fn law_c01_set_lat_lon(o: $t, v: Option<(f64, f64)>) {
                set_loc(o, v)
            }
            pub fn law_c03_type(o: $t) {
                kind_base(o, OSMObjectType::Node)
            }
        }
    };
}
macro_rules! way_laws {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn law_c01_set_nodes(o: $t, v: Vec<ObjId>) {
                set_nodes(o, v)
            }
            pub fn law_c28_way(o: $t, i: usize) {
                way_helpers(o, i)
            }
            pub fn law_c28_area(o: $t) {
                way_area(o)
            }
            pub fn law_c03_type(o: $t) {
                kind_base(o, OSMObjectType::Way)
            }
        }
    };
}
macro_rules! relation_laws {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn law_c01_set_members(o: $t, v: Vec<(OSMObjectType, ObjId, String)>) {
                set_members(o, v)
            }
            pub fn law_c03_type(o: $t) {
                kind_base(o, OSMObjectType::Relation)
            }
        }
    };
}
macro_rules! any_laws {
    ($m:ident, $t:ty, $n:ty, $w:ty, $r:ty) => {
        pub mod $m {
            use super::*;
            pub fn law_c03_kinds(o: $t) {
                kinds(o)
            }
            pub fn law_c03_kinds_mut(o: $t, id: ObjId) {
                kinds_mut(o, id)
            }
            pub fn law_c03_into_node(o: $t) {
                into_node(o)
            }
            pub fn law_c03_into_way(o: $t) {
                into_way(o)
            }
            pub fn law_c03_into_relation(o: $t) {
                into_relation(o)
            }
        }
    };
}
macro_rules! wrap_laws {
    ($m:ident, $t:ty, $n:ty, $w:ty, $r:ty) => {
        pub mod $m {
            use super::*;
            pub fn law_c03_wrap_node(x: $n) {
                wrap::<$n, $t>(x, |o| o.as_node().map(|n| own_node(n)))
            }
            pub fn law_c03_wrap_way(x: $w) {
                wrap::<$w, $t>(x, |o| o.as_way().map(|n| own_way(n)))
            }
            pub fn law_c03_wrap_relation(x: $r) {
                wrap::<$r, $t>(x, |o| o.as_relation().map(|n| own_relation(n)))
            }
        }
    };
}
node_laws!(string_node2, StringNode);
node_laws!(arc_node2, ArcNode);
node_laws!(rc_node2, RcNode);
way_laws!(string_way2, StringWay);
way_laws!(arc_way2, ArcWay);
way_laws!(rc_way2, RcWay);
relation_laws!(string_relation2, StringRelation);
relation_laws!(arc_relation2, ArcRelation);
relation_laws!(rc_relation2, RcRelation);
any_laws!(string_obj2, StringOSMObj, StringNode, StringWay, StringRelation);
any_laws!(arc_obj2, ArcOSMObj, ArcNode, ArcWay, ArcRelation);
any_laws!(rc_obj2, RcOSMObj, RcNode, RcWay, RcRelation);
wrap_laws!(string_wrap, StringOSMObj, StringNode, StringWay, StringRelation);

pub mod conversions {
    use super::*;
    pub fn law_c02_rc_node(a: RcNode) {
        convert::<RcNode, StringNode>(a)
    }
    pub fn law_c02_rc_way(a: RcWay) {
        convert::<RcWay, StringWay>(a)
    }
    pub fn law_c02_rc_relation(a: RcRelation) {
        convert::<RcRelation, StringRelation>(a)
    }
    pub fn law_c02_rc_obj(a: RcOSMObj) {
        convert::<RcOSMObj, StringOSMObj>(a)
    }
    pub fn law_c02_arc_node(a: ArcNode) {
        convert::<ArcNode, StringNode>(a)
    }
    pub fn law_c02_arc_way(a: ArcWay) {
        convert::<ArcWay, StringWay>(a)
    }
    pub fn law_c02_arc_relation(a: ArcRelation) {
        convert::<ArcRelation, StringRelation>(a)
    }
    pub fn law_c02_arc_obj(a: ArcOSMObj) {
        convert::<ArcOSMObj, StringOSMObj>(a)
    }
}

pub mod types {
    use super::*;
    use std::str::FromStr;
    pub fn law_c28_short(t: OSMObjectType) {
        match OSMObjectType::try_from(t.name_short()) {
            Ok(x) => same("name_short parses back", x, t),
            Err(_) => never("name_short is rejected"),
        }
    }
    pub fn law_c28_long(t: OSMObjectType) {
        match OSMObjectType::from_str(t.name_long()) {
            Ok(x) => same("name_long parses back", x, t),
            Err(_) => never("name_long is rejected"),
        }
        same("Display is name_long", format!("{}", t), t.name_long().to_string());
    }
    pub fn law_c28_parse(s: &str) {
        if let Ok(t) = OSMObjectType::from_str(s) {
            let short = match t {
                OSMObjectType::Node => "n",
                OSMObjectType::Way => "w",
                OSMObjectType::Relation => "r",
            };
            let long = match t {
                OSMObjectType::Node => "node",
                OSMObjectType::Way => "way",
                OSMObjectType::Relation => "relation",
            };
            holds("only a name is accepted", s == short || s == long || (s == "rel" && t == OSMObjectType::Relation));
        }
    }
    pub fn law_c28_parse_names() {
        name("n", OSMObjectType::Node);
        name("node", OSMObjectType::Node);
        name("w", OSMObjectType::Way);
        name("way", OSMObjectType::Way);
        name("r", OSMObjectType::Relation);
        name("relation", OSMObjectType::Relation);
    }
    fn name(s: &str, t: OSMObjectType) {
        match OSMObjectType::from_str(s) {
            Ok(x) => same("a name is parsed", x, t),
            Err(_) => never("a name is rejected"),
        }
    }
    pub fn law_c28_parse_char(c: char) {
        if let Ok(t) = OSMObjectType::try_from(c) {
            same("only name_short is accepted", c, t.name_short());
        }
    }
}

fn json_of(a: &str, x: &str, b: &str, y: &str) -> String {
    let mut m = serde_json::Map::new();
    m.insert(a.to_string(), serde_json::Value::String(x.to_string()));
    m.insert(b.to_string(), serde_json::Value::String(y.to_string()));
    serde_json::Value::Object(m).to_string()
}
fn json_check<O: OSMObjBase>(mut o: O, x: String, y: String) {
    o.set_tag("name", x.clone());
    o.set_tag("", y.clone());
    same("the JSON text has both tags", o.tags_json_string(), json_of("name", &x, "", &y));
    o.set_tag("name", "");
    o.set_tag("", "null");
    same("the JSON text has the new values", o.tags_json_string(), json_of("name", "", "", "null"));
}
pub fn law_c04_json_node(x: String, y: String) {
    if let Ok(o) = StringNodeBuilder::default()._id(1).build() {
        json_check(o, x, y)
    }
}
pub fn law_c04_json_way(x: String, y: String) {
    if let Ok(o) = StringWayBuilder::default()._id(1).build() {
        json_check(o, x, y)
    }
}
pub fn law_c04_json_relation(x: String, y: String) {
    if let Ok(o) = StringRelationBuilder::default()._id(1).build() {
        json_check(o, x, y)
    }
}
fn changeset(x: String, y: String) -> osmio::changesets::Changeset {
    let mut tags = std::collections::HashMap::new();
    tags.insert("a".to_string(), x);
    tags.insert("b".to_string(), y);
    osmio::changesets::Changeset { id: 1, created: TimestampFormat::EpochNumber(1), closed: None, open: true, uid: None, user: None, tags, num_changes: 1, comments_count: 0 }
}
pub fn law_c04_changeset(x: String, y: String) {
    let mut c = changeset(x.clone(), y.clone());
    same("a", c.tag("a"), Some(x.as_str()));
    same("b", c.tag("b"), Some(y.as_str()));
    holds("A", c.tag("A").is_none());
    holds("has a", c.has_tag("a"));
    holds("has no c", !c.has_tag("c"));
    same("num_tags", c.num_tags(), 2);
    holds("tagged", c.tagged());
    holds("not untagged", !c.untagged());
    same("tags_mut is the tags", c.tags_mut().len(), 2);
    c.tags_mut().clear();
    same("cleared through tags_mut", c.num_tags(), 0);
    holds("a is gone", c.tag("a").is_none());
    holds("then it is untagged", c.untagged());
    holds("and not tagged", !c.tagged());
}
pub fn law_c04_changeset_any(k: &str, t: std::collections::HashMap<String, String>) {
    let mut c = changeset(String::new(), String::new());
    c.tags = t;
    same("has_tag is tag", c.has_tag(k), c.tag(k).is_some());
    same("num_tags", c.num_tags(), c.tags.len());
    same("tagged", c.tagged(), c.tags.len() != 0);
    same("untagged", c.untagged(), c.tags.len() == 0);
}
