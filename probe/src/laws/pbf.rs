//! C13 to C17, C19, C27: what the PBF readers make of a file.
use crate::marks::*;
use osmio::obj_types::*;
use osmio::*;

type S = osmio::stringpbf::PBFReader<Pbf>;
type A = osmio::arcpbf::PBFReader<Pbf>;
type P = osmio::stringpbf::PBFNodePositionReader<Pbf>;

fn file(blobs: Vec<Blob>) -> Pbf {
    Pbf(blobs, End::File, 0)
}
/// what a block says about all its objects
pub struct B {
    strings: Vec<String>,
    granularity: Option<i32>,
    lat_offset: Option<i64>,
    lon_offset: Option<i64>,
    date_granularity: Option<i32>,
}
impl B {
    fn with(&self, g: Vec<PrimitiveGroup>) -> PrimitiveBlock {
        PrimitiveBlock {
            stringtable: Some(StringTable { s: self.strings.clone() }),
            primitivegroup: g,
            granularity: self.granularity,
            lat_offset: self.lat_offset,
            lon_offset: self.lon_offset,
            date_granularity: self.date_granularity,
        }
    }
    fn one(&self, g: PrimitiveGroup) -> Pbf {
        file(vec![Blob("OSMData", Data::Zlib(self.with(vec![g])))])
    }
    fn with_file(&self, g: Vec<PrimitiveGroup>) -> Pbf {
        file(vec![Blob("OSMData", Data::Zlib(self.with(g)))])
    }
    fn time(&self, t: i64) -> TimestampFormat {
        TimestampFormat::EpochNumber(t * self.date_granularity.unwrap_or(1000) as i64 / 1000)
    }
    fn lat(&self, raw: i64) -> i32 {
        ((self.lat_offset.unwrap_or(0) + self.granularity.unwrap_or(100) as i64 * raw) / 100) as i32
    }
    fn lon(&self, raw: i64) -> i32 {
        ((self.lon_offset.unwrap_or(0) + self.granularity.unwrap_or(100) as i64 * raw) / 100) as i32
    }
}
fn dense(d: DenseNodes) -> PrimitiveGroup {
    PrimitiveGroup { dense: Some(d), ways: vec![], relations: vec![] }
}
fn next<R: OSMReader>(r: &mut R) -> R::Obj {
    match r.next() {
        None => never("an object of the file is not returned"),
        Some(o) => o,
    }
}
fn end<R: OSMReader>(r: &mut R) {
    holds("the end", r.next().is_none());
}
pub struct N {
    id: i64,
    lat: i64,
    lon: i64,
    version: i32,
    time: i64,
    changeset: i64,
    uid: i32,
    user: i32,
    visible: bool,
}
fn col<T>(n: &[N; 3], f: impl Fn(&N) -> T) -> Vec<T> {
    vec![f(&n[0]), f(&n[1]), f(&n[2])]
}
fn nodes(n: &[N; 3], keys_vals: Vec<i32>) -> DenseNodes {
    DenseNodes {
        id: col(n, |x| x.id),
        lat: col(n, |x| x.lat),
        lon: col(n, |x| x.lon),
        denseinfo: Some(DenseInfo {
            version: col(n, |x| x.version),
            timestamp: col(n, |x| x.time),
            changeset: col(n, |x| x.changeset),
            uid: col(n, |x| x.uid),
            user_sid: col(n, |x| x.user),
            visible: col(n, |x| x.visible),
        }),
        keys_vals,
    }
}
fn check<O: OSMObj>(b: &B, o: &O, id: i64, n: &N, time: i64, changeset: i64, uid: i32, user: i32) {
    same("id", o.id(), id);
    same("version", o.version(), Some(n.version as u32));
    same("changeset", o.changeset_id(), Some(changeset as u32));
    same("uid", o.uid(), Some(uid as u32));
    same("user", o.user(), Some(b.strings[user as usize].as_str()));
    same("timestamp", o.timestamp().clone(), Some(b.time(time)));
    same("deleted", o.deleted(), !n.visible);
}
fn place<O: OSMObj>(b: &B, o: &O, lat: i64, lon: i64) {
    let (x, y) = match o.as_node() {
        None => never("a node"),
        Some(n) => match n.lat_lon() {
            None => never("the node has a place"),
            Some(p) => p,
        },
    };
    same("latitude", x.inner(), b.lat(lat));
    same("longitude", y.inner(), b.lon(lon));
}
fn dense_values<R: OSMReader<R = Pbf>>(b: B, n: [N; 3]) {
    let mut r = R::new(b.one(dense(nodes(&n, vec![]))));
    let (x, y, z) = (&n[0], &n[1], &n[2]);
    let o = next(&mut r);
    check(&b, &o, x.id, x, x.time, x.changeset, x.uid, x.user);
    let o = next(&mut r);
    check(&b, &o, x.id + y.id, y, x.time + y.time, x.changeset + y.changeset, x.uid + y.uid, x.user + y.user);
    let o = next(&mut r);
    check(
        &b,
        &o,
        x.id + y.id + z.id,
        z,
        x.time + y.time + z.time,
        x.changeset + y.changeset + z.changeset,
        x.uid + y.uid + z.uid,
        x.user + y.user + z.user,
    );
    end(&mut r);
}
fn dense_places<R: OSMReader<R = Pbf>>(b: B, n: [N; 3]) {
    let mut r = R::new(b.one(dense(nodes(&n, vec![]))));
    let (x, y, z) = (&n[0], &n[1], &n[2]);
    place(&b, &next(&mut r), x.lat, x.lon);
    place(&b, &next(&mut r), x.lat + y.lat, x.lon + y.lon);
    place(&b, &next(&mut r), x.lat + y.lat + z.lat, x.lon + y.lon + z.lon);
}
fn dense_times<R: OSMReader<R = Pbf>>(b: B, n: [N; 3]) {
    let mut r = R::new(b.one(dense(nodes(&n, vec![]))));
    let (x, y, z) = (&n[0], &n[1], &n[2]);
    same("timestamp", next(&mut r).timestamp().clone(), Some(b.time(x.time)));
    same("timestamp", next(&mut r).timestamp().clone(), Some(b.time(x.time + y.time)));
    same("timestamp", next(&mut r).timestamp().clone(), Some(b.time(x.time + y.time + z.time)));
}
fn st<'a>(b: &'a B, i: i32) -> &'a str {
    b.strings[i as usize].as_str()
}
fn tags<O: OSMObjBase>(o: &O) -> Vec<(&str, &str)> {
    let mut l = vec![];
    for t in o.tags() {
        l.push(t);
    }
    l
}
/// keys of a dense group's tags are not 0, which ends a node's tags
pub struct T {
    k: i32,
    v: i32,
    l: i32,
    w: i32,
    m: i32,
    x: i32,
}
/// one tag, no tags, two tags
fn dense_tags<R: OSMReader<R = Pbf>>(b: B, n: [N; 3], t: T) {
    given(t.k != 0);
    given(t.l != 0);
    given(t.m != 0);
    let mut r = R::new(b.one(dense(nodes(&n, vec![t.k, t.v, 0, 0, t.l, t.w, t.m, t.x, 0]))));
    same("tags", tags(&next(&mut r)), vec![(st(&b, t.k), st(&b, t.v))]);
    same("no tags", tags(&next(&mut r)), vec![]);
    same("tags", tags(&next(&mut r)), vec![(st(&b, t.l), st(&b, t.w)), (st(&b, t.m), st(&b, t.x))]);
    end(&mut r);
}
/// no tags, two tags, one tag
fn dense_tags_2<R: OSMReader<R = Pbf>>(b: B, n: [N; 3], t: T) {
    given(t.k != 0);
    given(t.l != 0);
    given(t.m != 0);
    let mut r = R::new(b.one(dense(nodes(&n, vec![0, t.l, t.w, t.m, t.x, 0, t.k, t.v, 0]))));
    same("no tags", tags(&next(&mut r)), vec![]);
    same("tags", tags(&next(&mut r)), vec![(st(&b, t.l), st(&b, t.w)), (st(&b, t.m), st(&b, t.x))]);
    same("tags", tags(&next(&mut r)), vec![(st(&b, t.k), st(&b, t.v))]);
    end(&mut r);
}
/// a block without tags has no list of them
fn dense_no_tags<R: OSMReader<R = Pbf>>(b: B, n: [N; 3]) {
    let mut r = R::new(b.one(dense(nodes(&n, vec![]))));
    same("no tags", tags(&next(&mut r)), vec![]);
    same("no tags", tags(&next(&mut r)), vec![]);
    same("no tags", tags(&next(&mut r)), vec![]);
}
/// the sums start again with every group
fn dense_groups<R: OSMReader<R = Pbf>>(b: B, n: [N; 3], t: T) {
    given(t.k != 0);
    given(t.l != 0);
    let g = |x: &N, kv| {
        dense(DenseNodes {
            id: vec![x.id],
            lat: vec![x.lat],
            lon: vec![x.lon],
            denseinfo: Some(DenseInfo {
                version: vec![x.version],
                timestamp: vec![x.time],
                changeset: vec![x.changeset],
                uid: vec![x.uid],
                user_sid: vec![x.user],
                visible: vec![x.visible],
            }),
            keys_vals: kv,
        })
    };
    let f = file(vec![
        Blob("OSMData", Data::Zlib(b.with(vec![g(&n[0], vec![t.k, t.v, 0]), g(&n[1], vec![])]))),
        Blob("OSMData", Data::Raw(b.with(vec![g(&n[2], vec![t.l, t.w, 0])]))),
    ]);
    let mut r = R::new(f);
    let o = next(&mut r);
    check(&b, &o, n[0].id, &n[0], n[0].time, n[0].changeset, n[0].uid, n[0].user);
    same("tags", tags(&o), vec![(st(&b, t.k), st(&b, t.v))]);
    let o = next(&mut r);
    check(&b, &o, n[1].id, &n[1], n[1].time, n[1].changeset, n[1].uid, n[1].user);
    same("no tags", tags(&o), vec![]);
    let o = next(&mut r);
    check(&b, &o, n[2].id, &n[2], n[2].time, n[2].changeset, n[2].uid, n[2].user);
    same("tags", tags(&o), vec![(st(&b, t.l), st(&b, t.w))]);
    end(&mut r);
}
/// every block has its own strings, offsets and units
fn dense_blocks<R: OSMReader<R = Pbf>>(b: B, c: B, n: [N; 3], m: [N; 3]) {
    let f = file(vec![
        Blob("OSMData", Data::Zlib(b.with(vec![dense(nodes(&n, vec![]))]))),
        Blob("OSMData", Data::Zlib(c.with(vec![dense(nodes(&m, vec![]))]))),
    ]);
    let mut r = R::new(f);
    place(&b, &next(&mut r), n[0].lat, n[0].lon);
    next(&mut r);
    next(&mut r);
    let o = next(&mut r);
    place(&c, &o, m[0].lat, m[0].lon);
    check(&c, &o, m[0].id, &m[0], m[0].time, m[0].changeset, m[0].uid, m[0].user);
    let o = next(&mut r);
    place(&c, &o, m[0].lat + m[1].lat, m[0].lon + m[1].lon);
}
/// whether nodes are visible need not be said
fn dense_visible<R: OSMReader<R = Pbf>>(b: B, n: [N; 3]) {
    let mut d = nodes(&n, vec![]);
    d.denseinfo.as_mut().unwrap().visible = vec![];
    let mut r = R::new(b.one(dense(d)));
    let o = next(&mut r);
    holds("not deleted", !o.deleted());
    let o = next(&mut r);
    holds("not deleted", !o.deleted());
    let o = next(&mut r);
    holds("not deleted", !o.deleted());
    end(&mut r);
}

/// ways and relations
pub struct V {
    id: i64,
    k: u32,
    v: u32,
    l: u32,
    w: u32,
    a: i64,
    b: i64,
    c: i64,
    r: i32,
    s: i32,
    t: i32,
}
impl V {
    fn way(&self, info: Option<Info>) -> PWay {
        PWay { id: Some(self.id), keys: vec![self.k, self.l], vals: vec![self.v, self.w], info, refs: vec![self.a, self.b, self.c] }
    }
    fn bare_way(&self) -> PWay {
        PWay { id: Some(self.id), keys: vec![], vals: vec![], info: None, refs: vec![] }
    }
    fn relation(&self, info: Option<Info>) -> PRelation {
        PRelation {
            id: Some(self.id),
            keys: vec![self.k, self.l],
            vals: vec![self.v, self.w],
            info,
            roles_sid: vec![self.r, self.s, self.t],
            memids: vec![self.a, self.b, self.c],
            types: vec![0, 1, 2],
        }
    }
    fn bare_relation(&self) -> PRelation {
        PRelation { id: Some(self.id), keys: vec![], vals: vec![], info: None, roles_sid: vec![], memids: vec![], types: vec![] }
    }
}
/// what is known about an object
pub struct K {
    version: Option<i32>,
    timestamp: Option<i64>,
    changeset: Option<i64>,
    uid: Option<i32>,
    user_sid: Option<u32>,
    visible: Option<bool>,
}
impl K {
    fn info(&self) -> Option<Info> {
        Some(Info {
            version: self.version,
            timestamp: self.timestamp,
            changeset: self.changeset,
            uid: self.uid,
            user_sid: self.user_sid,
            visible: self.visible,
        })
    }
}
fn ways(w: Vec<PWay>) -> PrimitiveGroup {
    PrimitiveGroup { dense: None, ways: w, relations: vec![] }
}
fn relations(r: Vec<PRelation>) -> PrimitiveGroup {
    PrimitiveGroup { dense: None, ways: vec![], relations: r }
}
fn known<O: OSMObjBase>(b: &B, o: &O, k: &K) {
    same("version", o.version(), k.version.map(|x| x as u32));
    same("changeset", o.changeset_id(), k.changeset.map(|x| x as u32));
    same("uid", o.uid(), k.uid.map(|x| x as u32));
    same("user", o.user(), k.user_sid.map(|x| b.strings[x as usize].as_str()));
    same("timestamp", o.timestamp().clone(), k.timestamp.map(|x| b.time(x)));
    same("deleted", o.deleted(), k.visible == Some(false));
}
fn unknown<O: OSMObjBase>(o: &O) {
    holds("no version", o.version().is_none());
    holds("no changeset", o.changeset_id().is_none());
    holds("no uid", o.uid().is_none());
    holds("no user", o.user().is_none());
    holds("no timestamp", o.timestamp().is_none());
    holds("not deleted", !o.deleted());
}
fn way<O: OSMObj>(o: O) -> O::Way {
    match o.into_way() {
        None => never("a way is returned as something else"),
        Some(w) => w,
    }
}
fn relation<O: OSMObj>(o: O) -> O::Relation {
    match o.into_relation() {
        None => never("a relation is returned as something else"),
        Some(w) => w,
    }
}
fn node<O: OSMObj>(o: O) -> O::Node {
    match o.into_node() {
        None => never("a node is returned as something else"),
        Some(w) => w,
    }
}
fn ids<W: Way>(w: &W) -> Vec<i64> {
    let mut l = vec![];
    for n in w.nodes() {
        l.push(*n);
    }
    l
}
fn members<R: Relation>(r: &R) -> Vec<(OSMObjectType, i64, &str)> {
    let mut l = vec![];
    for m in r.members() {
        l.push(m);
    }
    l
}
fn is_way<W: Way>(b: &B, w: &W, v: &V) {
    same("id", w.id(), v.id);
    same("tags", tags(w), vec![(st(b, v.k as i32), st(b, v.v as i32)), (st(b, v.l as i32), st(b, v.w as i32))]);
    same("nodes", ids(w), vec![v.a, v.a + v.b, v.a + v.b + v.c]);
}
fn is_relation<R: Relation>(b: &B, w: &R, v: &V) {
    same("id", w.id(), v.id);
    same("tags", tags(w), vec![(st(b, v.k as i32), st(b, v.v as i32)), (st(b, v.l as i32), st(b, v.w as i32))]);
    same(
        "members",
        members(w),
        vec![
            (OSMObjectType::Node, v.a, st(b, v.r)),
            (OSMObjectType::Way, v.a + v.b, st(b, v.s)),
            (OSMObjectType::Relation, v.a + v.b + v.c, st(b, v.t)),
        ],
    );
}
fn way_values<R: OSMReader<R = Pbf>>(b: B, v: V, k: K) {
    let mut r = R::new(b.one(ways(vec![v.way(k.info())])));
    let o = way(next(&mut r));
    is_way(&b, &o, &v);
    known(&b, &o, &k);
    end(&mut r);
}
fn relation_values<R: OSMReader<R = Pbf>>(b: B, v: V, k: K) {
    let mut r = R::new(b.one(relations(vec![v.relation(k.info())])));
    let o = relation(next(&mut r));
    is_relation(&b, &o, &v);
    known(&b, &o, &k);
    end(&mut r);
}
/// nothing is carried over from one way to the next
fn way_after_way<R: OSMReader<R = Pbf>>(b: B, v: V, k: K, w: V, j: K) {
    let mut r = R::new(b.one(ways(vec![v.way(k.info()), w.bare_way(), w.way(j.info())])));
    let o = way(next(&mut r));
    is_way(&b, &o, &v);
    known(&b, &o, &k);
    let o = way(next(&mut r));
    same("id", o.id(), w.id);
    same("no tags", tags(&o), vec![]);
    same("no nodes", ids(&o), vec![]);
    unknown(&o);
    let o = way(next(&mut r));
    is_way(&b, &o, &w);
    known(&b, &o, &j);
    end(&mut r);
}
fn relation_after_relation<R: OSMReader<R = Pbf>>(b: B, v: V, k: K, w: V, j: K) {
    let mut r = R::new(b.one(relations(vec![v.relation(k.info()), w.bare_relation(), w.relation(j.info())])));
    let o = relation(next(&mut r));
    is_relation(&b, &o, &v);
    known(&b, &o, &k);
    let o = relation(next(&mut r));
    same("id", o.id(), w.id);
    same("no tags", tags(&o), vec![]);
    same("no members", members(&o), vec![]);
    unknown(&o);
    let o = relation(next(&mut r));
    is_relation(&b, &o, &w);
    known(&b, &o, &j);
    end(&mut r);
}
/// the types of members in any order
fn relation_types<R: OSMReader<R = Pbf>>(b: B, v: V) {
    let mut p = v.relation(None);
    p.types = vec![2, 0, 1];
    let mut r = R::new(b.one(relations(vec![p])));
    let o = relation(next(&mut r));
    same(
        "members",
        members(&o),
        vec![
            (OSMObjectType::Relation, v.a, st(&b, v.r)),
            (OSMObjectType::Node, v.a + v.b, st(&b, v.s)),
            (OSMObjectType::Way, v.a + v.b + v.c, st(&b, v.t)),
        ],
    );
}

/// every member is of the same type: they are still three members
fn relation_same_types<R: OSMReader<R = Pbf>>(b: B, v: V) {
    for t in [0, 1, 2] {
        let mut p = v.relation(None);
        p.types = vec![t, t, t];
        let mut r = R::new(b.one(relations(vec![p])));
        let o = relation(next(&mut r));
        let x = match t {
            0 => OSMObjectType::Node,
            1 => OSMObjectType::Way,
            _ => OSMObjectType::Relation,
        };
        same(
            "members",
            members(&o),
            vec![(x, v.a, st(&b, v.r)), (x, v.a + v.b, st(&b, v.s)), (x, v.a + v.b + v.c, st(&b, v.t))],
        );
    }
}

/// without a column for it, nothing is known of any node
fn dense_without<R: OSMReader<R = Pbf>>(b: B, n: [N; 3], col: u8) {
    let mut d = nodes(&n, vec![]);
    let i = d.denseinfo.as_mut().unwrap();
    match col {
        0 => i.version = vec![],
        1 => i.timestamp = vec![],
        2 => i.changeset = vec![],
        3 => i.uid = vec![],
        _ => i.user_sid = vec![],
    }
    let mut r = R::new(b.one(dense(d)));
    let (mut id, mut time, mut changeset, mut uid, mut user) = (0, 0, 0, 0, 0);
    for i in 0..3 {
        let x = &n[i];
        id += x.id;
        time += x.time;
        changeset += x.changeset;
        uid += x.uid;
        user += x.user;
        let o = next(&mut r);
        same("id", o.id(), id);
        same("deleted", o.deleted(), !x.visible);
        same("version", o.version(), if col == 0 { None } else { Some(x.version as u32) });
        same("timestamp", o.timestamp().clone(), if col == 1 { None } else { Some(b.time(time)) });
        same("changeset", o.changeset_id(), if col == 2 { None } else { Some(changeset as u32) });
        same("uid", o.uid(), if col == 3 { None } else { Some(uid as u32) });
        same("user", o.user(), if col == 4 { None } else { Some(st(&b, user)) });
    }
    end(&mut r);
}
/// nothing is known of any node
fn dense_unknown<R: OSMReader<R = Pbf>>(b: B, n: [N; 3]) {
    let mut d = nodes(&n, vec![]);
    d.denseinfo = None;
    let mut r = R::new(b.one(dense(d)));
    let mut id = 0;
    for i in 0..3 {
        let x = &n[i];
        id += x.id;
        let o = next(&mut r);
        same("id", o.id(), id);
        unknown(&o);
    }
    end(&mut r);
}
/// an empty list of columns
fn dense_nothing<R: OSMReader<R = Pbf>>(b: B, n: [N; 3]) {
    let mut d = nodes(&n, vec![]);
    d.denseinfo = Some(DenseInfo { version: vec![], timestamp: vec![], changeset: vec![], uid: vec![], user_sid: vec![], visible: vec![] });
    let mut r = R::new(b.one(dense(d)));
    let mut id = 0;
    for i in 0..3 {
        let x = &n[i];
        id += x.id;
        let o = next(&mut r);
        same("id", o.id(), id);
        unknown(&o);
    }
    end(&mut r);
}

/// a file with all there is, and the objects it holds
fn everything(b: &B, n: &[N; 3], v: &V, w: &V, x: &V, y: &V) -> Pbf {
    file(vec![
        Blob("OSMHeader", Data::Other),
        Blob(
            "OSMData",
            Data::Zlib(b.with(vec![dense(nodes(n, vec![])), ways(vec![v.way(None), w.way(None)])])),
        ),
        Blob("OSMSomethingElse", Data::Other),
        Blob("OSMData", Data::Raw(b.with(vec![relations(vec![x.relation(None)]), ways(vec![y.way(None)])]))),
        Blob("OSMData", Data::Zlib(b.with(vec![]))),
        Blob("OSMData", Data::Zlib(b.with(vec![dense(nodes(n, vec![])), relations(vec![w.relation(None), v.relation(None)])]))),
        Blob("OSMMore", Data::Raw(b.with(vec![ways(vec![v.way(None)])]))),
    ])
}
pub struct E {
    b: B,
    n: [N; 3],
    v: V,
    w: V,
    x: V,
    y: V,
}
impl E {
    fn file(&self) -> Pbf {
        everything(&self.b, &self.n, &self.v, &self.w, &self.x, &self.y)
    }
}
fn n_id<R: OSMReader>(r: &mut R, id: i64) {
    same("id of a node", node(next(r)).id(), id);
}
fn w_id<R: OSMReader>(r: &mut R, id: i64) {
    same("id of a way", way(next(r)).id(), id);
}
fn r_id<R: OSMReader>(r: &mut R, id: i64) {
    same("id of a relation", relation(next(r)).id(), id);
}
fn in_order<R: OSMReader<R = Pbf>>(e: E) {
    let mut r = R::new(e.file());
    n_id(&mut r, e.n[0].id);
    n_id(&mut r, e.n[0].id + e.n[1].id);
    n_id(&mut r, e.n[0].id + e.n[1].id + e.n[2].id);
    w_id(&mut r, e.v.id);
    w_id(&mut r, e.w.id);
    r_id(&mut r, e.x.id);
    w_id(&mut r, e.y.id);
    n_id(&mut r, e.n[0].id);
    n_id(&mut r, e.n[0].id + e.n[1].id);
    n_id(&mut r, e.n[0].id + e.n[1].id + e.n[2].id);
    r_id(&mut r, e.w.id);
    r_id(&mut r, e.v.id);
    end(&mut r);
    end(&mut r);
}
fn iterate<R: OSMReader<R = Pbf>>(e: E) {
    let mut r = R::new(e.file());
    let mut l = vec![];
    for o in r.objects() {
        l.push((o.object_type(), o.id()));
    }
    let a = e.n[0].id;
    let b = e.n[0].id + e.n[1].id;
    let c = e.n[0].id + e.n[1].id + e.n[2].id;
    same(
        "objects",
        l,
        vec![
            (OSMObjectType::Node, a),
            (OSMObjectType::Node, b),
            (OSMObjectType::Node, c),
            (OSMObjectType::Way, e.v.id),
            (OSMObjectType::Way, e.w.id),
            (OSMObjectType::Relation, e.x.id),
            (OSMObjectType::Way, e.y.id),
            (OSMObjectType::Node, a),
            (OSMObjectType::Node, b),
            (OSMObjectType::Node, c),
            (OSMObjectType::Relation, e.w.id),
            (OSMObjectType::Relation, e.v.id),
        ],
    );
}
fn node_ids(e: &E) -> Vec<i64> {
    let a = e.n[0].id;
    let b = e.n[0].id + e.n[1].id;
    let c = e.n[0].id + e.n[1].id + e.n[2].id;
    vec![a, b, c, a, b, c]
}
fn collect<O: OSMObjBase>(i: impl Iterator<Item = O>) -> Vec<i64> {
    let mut l = vec![];
    for o in i {
        l.push(o.id());
    }
    l
}
/// data nobody can decompress
fn packed<R: OSMReader<R = Pbf>>(b: B, v: V) {
    let mut r = R::new(file(vec![Blob("OSMData", Data::Other), Blob("OSMData", Data::Raw(b.with(vec![ways(vec![v.way(None)])])))]));
    let _ = r.next();
    never::<()>("data which cannot be decompressed is left out");
}
fn one_way(b: &B, v: &V, end: End) -> Pbf {
    Pbf(vec![Blob("OSMData", Data::Raw(b.with(vec![ways(vec![v.way(None)])])))], end, 0)
}
fn fails<R: OSMReader<R = Pbf>>(b: B, v: V, end: End) {
    let mut r = R::new(one_way(&b, &v, end));
    w_id(&mut r, v.id);
    if r.next().is_none() {
        never("a failure is taken for the end of the file")
    }
}
/// what is in a blob cannot be made sense of
fn bad<R: OSMReader<R = Pbf>>(b: B, v: V, data: Data) {
    let mut r = R::new(file(vec![Blob("OSMData", Data::Raw(b.with(vec![ways(vec![v.way(None)])]))), Blob("OSMData", data)]));
    w_id(&mut r, v.id);
    if r.next().is_none() {
        never("data which cannot be read is taken for the end of the file")
    }
}
/// the same, and there are more blobs after it
fn bad_between<R: OSMReader<R = Pbf>>(b: B, v: V, data: Data) {
    let mut r = R::new(file(vec![Blob("OSMData", data), Blob("OSMData", Data::Raw(b.with(vec![ways(vec![v.way(None)])])))]));
    let _ = r.next();
    never::<()>("data which cannot be read is left out")
}
/// the file is broken off or cannot be read, in the first blob
fn fails_first<R: OSMReader<R = Pbf>>(end: End) {
    let mut r = R::new(Pbf(vec![], end, 0));
    if r.next().is_none() {
        never("a failure is taken for the end of the file")
    }
}
fn fails_in_other<R: OSMReader<R = Pbf>>(end: End) {
    let mut r = R::new(Pbf(vec![Blob("OSMHeader", Data::Other)], end, 0));
    if r.next().is_none() {
        never("a failure is taken for the end of the file")
    }
}

macro_rules! both {
    ($m:ident, $R:ty) => {
        pub mod $m {
            use super::*;
            pub fn law_c13_columns(b: B, n: [N; 3]) {
                dense_values::<$R>(b, n)
            }
            pub fn law_c13_tags(b: B, n: [N; 3], t: T) {
                dense_tags::<$R>(b, n, t)
            }
            pub fn law_c13_tags_2(b: B, n: [N; 3], t: T) {
                dense_tags_2::<$R>(b, n, t)
            }
            pub fn law_c13_no_tags(b: B, n: [N; 3]) {
                dense_no_tags::<$R>(b, n)
            }
            pub fn law_c13_groups(b: B, n: [N; 3], t: T) {
                dense_groups::<$R>(b, n, t)
            }
            pub fn law_c13_visible(b: B, n: [N; 3]) {
                dense_visible::<$R>(b, n)
            }
            pub fn law_c14_way(b: B, v: V, k: K) {
                way_values::<$R>(b, v, k)
            }
            pub fn law_c14_ways(b: B, v: V, k: K, w: V, j: K) {
                way_after_way::<$R>(b, v, k, w, j)
            }
            pub fn law_c14_relation(b: B, v: V, k: K) {
                relation_values::<$R>(b, v, k)
            }
            pub fn law_c14_relations(b: B, v: V, k: K, w: V, j: K) {
                relation_after_relation::<$R>(b, v, k, w, j)
            }
            pub fn law_c14_types(b: B, v: V) {
                relation_types::<$R>(b, v)
            }
            pub fn law_c14_same_types(b: B, v: V) {
                relation_same_types::<$R>(b, v)
            }
            pub fn law_c15_dense(b: B, n: [N; 3]) {
                dense_places::<$R>(b, n)
            }
            pub fn law_c15_dense_times(b: B, n: [N; 3]) {
                dense_times::<$R>(b, n)
            }
            pub fn law_c15_blocks(b: B, c: B, n: [N; 3], m: [N; 3]) {
                dense_blocks::<$R>(b, c, n, m)
            }
            pub fn law_c15_way_time(b: B, v: V, k: K) {
                let mut r = <$R>::new(b.one(ways(vec![v.way(k.info())])));
                same("timestamp", next(&mut r).timestamp().clone(), k.timestamp.map(|x| b.time(x)));
            }
            pub fn law_c15_relation_time(b: B, v: V, k: K) {
                let mut r = <$R>::new(b.one(relations(vec![v.relation(k.info())])));
                same("timestamp", next(&mut r).timestamp().clone(), k.timestamp.map(|x| b.time(x)));
            }
            pub fn law_c16_order(e: E) {
                in_order::<$R>(e)
            }
            pub fn law_c16_objects(e: E) {
                iterate::<$R>(e)
            }
            /// groups of every kind in one block, in any order
            pub fn law_c16_groups(e: E) {
                let mut r = <$R>::new(e.b.with_file(vec![
                    relations(vec![e.v.relation(None)]),
                    dense(nodes(&e.n, vec![])),
                    ways(vec![e.w.way(None), e.x.way(None)]),
                    dense(nodes(&e.n, vec![])),
                    relations(vec![e.y.relation(None)]),
                ]));
                r_id(&mut r, e.v.id);
                n_id(&mut r, e.n[0].id);
                n_id(&mut r, e.n[0].id + e.n[1].id);
                n_id(&mut r, e.n[0].id + e.n[1].id + e.n[2].id);
                w_id(&mut r, e.w.id);
                w_id(&mut r, e.x.id);
                n_id(&mut r, e.n[0].id);
                n_id(&mut r, e.n[0].id + e.n[1].id);
                n_id(&mut r, e.n[0].id + e.n[1].id + e.n[2].id);
                r_id(&mut r, e.y.id);
                end(&mut r);
            }
            /// blocks and groups with nothing in them
            pub fn law_c16_empty_groups(e: E) {
                let mut r = <$R>::new(file(vec![
                    Blob("OSMData", Data::Zlib(e.b.with(vec![]))),
                    Blob("OSMData", Data::Zlib(e.b.with(vec![ways(vec![e.v.way(None)])]))),
                    Blob("OSMData", Data::Raw(e.b.with(vec![]))),
                    Blob("OSMData", Data::Raw(e.b.with(vec![]))),
                    Blob("OSMData", Data::Raw(e.b.with(vec![relations(vec![e.w.relation(None)])]))),
                    Blob("OSMData", Data::Raw(e.b.with(vec![]))),
                ]));
                w_id(&mut r, e.v.id);
                r_id(&mut r, e.w.id);
                end(&mut r);
            }
            /// one file after the other: there is a header in the middle
            pub fn law_c16_headers(e: E) {
                let mut r = <$R>::new(file(vec![
                    Blob("OSMHeader", Data::Zlib(e.b.with(vec![]))),
                    Blob("OSMData", Data::Zlib(e.b.with(vec![ways(vec![e.v.way(None)])]))),
                    Blob("OSMHeader", Data::Raw(e.b.with(vec![]))),
                    Blob("OSMHeader", Data::Raw(e.b.with(vec![]))),
                    Blob("OSMData", Data::Raw(e.b.with(vec![relations(vec![e.w.relation(None)])]))),
                    Blob("OSMHeader", Data::Raw(e.b.with(vec![]))),
                    Blob("OSMData", Data::Zlib(e.b.with(vec![ways(vec![e.x.way(None)])]))),
                ]));
                w_id(&mut r, e.v.id);
                r_id(&mut r, e.w.id);
                w_id(&mut r, e.x.id);
                end(&mut r);
            }
            /// what a file is said to be makes no difference to what is in it
            pub fn law_c16_sorted(e: E) {
                let mut r = <$R>::new(e.file());
                r.assume_sorted();
                let l = collect(r.objects());
                let mut t = <$R>::new(e.file());
                t.assume_unsorted();
                same("objects", l, collect(t.objects()));
                let mut u = <$R>::new(e.file());
                same("objects", collect(u.objects()), collect(<$R>::new(e.file()).objects()));
            }
            pub fn law_c16_sorted_order(e: E) {
                let mut r = <$R>::new(e.file());
                r.set_sorted_assumption(true);
                n_id(&mut r, e.n[0].id);
                n_id(&mut r, e.n[0].id + e.n[1].id);
                n_id(&mut r, e.n[0].id + e.n[1].id + e.n[2].id);
                w_id(&mut r, e.v.id);
                w_id(&mut r, e.w.id);
                r_id(&mut r, e.x.id);
                w_id(&mut r, e.y.id);
            }
            pub fn law_c16_nodes(e: E) {
                let mut r = <$R>::new(e.file());
                same("nodes", collect(r.nodes()), node_ids(&e));
                end(&mut r);
            }
            pub fn law_c16_ways(e: E) {
                let mut r = <$R>::new(e.file());
                same("ways", collect(r.ways()), vec![e.v.id, e.w.id, e.y.id]);
                end(&mut r);
            }
            pub fn law_c16_relations(e: E) {
                let mut r = <$R>::new(e.file());
                same("relations", collect(r.relations()), vec![e.x.id, e.w.id, e.v.id]);
                end(&mut r);
            }
            /// only some kind for a while, then everything
            pub fn law_c16_nodes_then_all(e: E) {
                let mut r = <$R>::new(file(vec![
                    Blob("OSMData", Data::Zlib(e.b.with(vec![dense(nodes(&e.n, vec![]))]))),
                    Blob("OSMData", Data::Zlib(e.b.with(vec![ways(vec![e.v.way(None)])]))),
                    Blob("OSMData", Data::Zlib(e.b.with(vec![relations(vec![e.w.relation(None)])]))),
                ]));
                {
                    let mut i = r.nodes();
                    match i.next() {
                        None => never("a node is left out"),
                        Some(n) => same("id", n.id(), e.n[0].id),
                    }
                }
                n_id(&mut r, e.n[0].id + e.n[1].id);
                n_id(&mut r, e.n[0].id + e.n[1].id + e.n[2].id);
                w_id(&mut r, e.v.id);
                r_id(&mut r, e.w.id);
                end(&mut r);
            }
            pub fn law_c16_all_then_ways(e: E) {
                let mut r = <$R>::new(e.file());
                n_id(&mut r, e.n[0].id);
                same("ways", collect(r.ways()), vec![e.v.id, e.w.id, e.y.id]);
                end(&mut r);
            }
            pub fn law_c16_all_then_relations(e: E) {
                let mut r = <$R>::new(e.file());
                n_id(&mut r, e.n[0].id);
                same("relations", collect(r.relations()), vec![e.x.id, e.w.id, e.v.id]);
                end(&mut r);
            }
            pub fn law_c16_stops_packed(b: B, v: V) {
                packed::<$R>(b, v)
            }
            pub fn law_c17_way(b: B, v: V) {
                let mut r = <$R>::new(b.one(ways(vec![v.way(None)])));
                let o = way(next(&mut r));
                is_way(&b, &o, &v);
                unknown(&o);
                end(&mut r);
            }
            pub fn law_c17_relation(b: B, v: V) {
                let mut r = <$R>::new(b.one(relations(vec![v.relation(None)])));
                let o = relation(next(&mut r));
                is_relation(&b, &o, &v);
                unknown(&o);
                end(&mut r);
            }
            /// each of them may be missing
            pub fn law_c17_way_parts(b: B, v: V, k: K) {
                way_values::<$R>(b, v, k)
            }
            pub fn law_c17_relation_parts(b: B, v: V, k: K) {
                relation_values::<$R>(b, v, k)
            }
            pub fn law_c17_dense(b: B, n: [N; 3]) {
                dense_unknown::<$R>(b, n)
            }
            pub fn law_c17_dense_empty(b: B, n: [N; 3]) {
                dense_nothing::<$R>(b, n)
            }
            pub fn law_c17_no_versions(b: B, n: [N; 3]) {
                dense_without::<$R>(b, n, 0)
            }
            pub fn law_c17_no_times(b: B, n: [N; 3]) {
                dense_without::<$R>(b, n, 1)
            }
            pub fn law_c17_no_changesets(b: B, n: [N; 3]) {
                dense_without::<$R>(b, n, 2)
            }
            pub fn law_c17_no_uids(b: B, n: [N; 3]) {
                dense_without::<$R>(b, n, 3)
            }
            pub fn law_c17_no_users(b: B, n: [N; 3]) {
                dense_without::<$R>(b, n, 4)
            }
            pub fn law_c27_stops_bad_zlib(b: B, v: V) {
                bad::<$R>(b, v, Data::BadZlib)
            }
            pub fn law_c27_stops_bad_zlib_between(b: B, v: V) {
                bad_between::<$R>(b, v, Data::BadZlib)
            }
            pub fn law_c27_stops_bad_block(b: B, v: V) {
                bad::<$R>(b, v, Data::BadBlock)
            }
            pub fn law_c27_stops_bad_block_between(b: B, v: V) {
                bad_between::<$R>(b, v, Data::BadBlock)
            }
            pub fn law_c27_stops_bad_zlib_block(b: B, v: V) {
                bad::<$R>(b, v, Data::BadZlibBlock)
            }
            pub fn law_c27_stops_bad_zlib_block_between(b: B, v: V) {
                bad_between::<$R>(b, v, Data::BadZlibBlock)
            }
            pub fn law_c27_stops_bad_blob(b: B, v: V) {
                bad::<$R>(b, v, Data::BadBlob)
            }
            pub fn law_c27_stops_bad_blob_between(b: B, v: V) {
                bad_between::<$R>(b, v, Data::BadBlob)
            }
            pub fn law_c27_stops_unknown_compression(b: B, v: V) {
                bad::<$R>(b, v, Data::Other)
            }
            pub fn law_c27_stops_unknown_compression_between(b: B, v: V) {
                bad_between::<$R>(b, v, Data::Other)
            }
            pub fn law_c27_stops_size(b: B, v: V) {
                fails::<$R>(b, v, End::NoSize)
            }
            pub fn law_c27_stops_header(b: B, v: V) {
                fails::<$R>(b, v, End::NoHeader)
            }
            pub fn law_c27_stops_data(b: B, v: V) {
                fails::<$R>(b, v, End::NoData)
            }
            pub fn law_c27_stops_first_size() {
                fails_first::<$R>(End::NoSize)
            }
            pub fn law_c27_stops_first_header() {
                fails_first::<$R>(End::NoHeader)
            }
            pub fn law_c27_stops_first_data() {
                fails_first::<$R>(End::NoData)
            }
            pub fn law_c27_stops_after_header_size() {
                fails_in_other::<$R>(End::NoSize)
            }
            pub fn law_c27_stops_after_header_header() {
                fails_in_other::<$R>(End::NoHeader)
            }
            pub fn law_c27_stops_after_header_data() {
                fails_in_other::<$R>(End::NoData)
            }
        }
    };
}
both!(string, S);
both!(arc, A);

pub mod positions {
    use super::*;
    fn at(b: &B, p: Option<(i64, (Lat, Lon))>, id: i64, lat: i64, lon: i64) {
        match p {
            None => never("a node is left out"),
            Some((i, (x, y))) => {
                same("id", i, id);
                same("latitude", x.inner(), b.lat(lat));
                same("longitude", y.inner(), b.lon(lon));
            }
        }
    }
    fn over(r: &mut P) {
        holds("the end", Iterator::next(r).is_none());
    }
    fn three(r: &mut P, b: &B, n: &[N; 3]) {
        at(b, Iterator::next(r), n[0].id, n[0].lat, n[0].lon);
        at(b, Iterator::next(r), n[0].id + n[1].id, n[0].lat + n[1].lat, n[0].lon + n[1].lon);
        at(b, Iterator::next(r), n[0].id + n[1].id + n[2].id, n[0].lat + n[1].lat + n[2].lat, n[0].lon + n[1].lon + n[2].lon);
    }
    pub fn law_c15_dense(b: B, n: [N; 3]) {
        let mut r = P::from_reader(b.one(dense(nodes(&n, vec![]))));
        three(&mut r, &b, &n);
        over(&mut r);
    }
    pub fn law_c15_blocks(b: B, c: B, n: [N; 3], m: [N; 3]) {
        let mut r = P::from_reader(file(vec![
            Blob("OSMData", Data::Zlib(b.with(vec![dense(nodes(&n, vec![]))]))),
            Blob("OSMData", Data::Zlib(c.with(vec![dense(nodes(&m, vec![])), dense(nodes(&n, vec![]))]))),
        ]));
        three(&mut r, &b, &n);
        three(&mut r, &c, &m);
        three(&mut r, &c, &n);
        over(&mut r);
    }
    pub fn law_c16_order(e: E) {
        let mut r = P::from_reader(e.file());
        let mut l = vec![];
        for (i, _) in &mut r {
            l.push(i);
        }
        same("nodes", l, node_ids(&e));
        over(&mut r);
    }
    pub fn law_c16_groups(e: E) {
        let mut r = P::from_reader(e.b.with_file(vec![
            ways(vec![e.v.way(None)]),
            dense(nodes(&e.n, vec![])),
            relations(vec![e.w.relation(None)]),
            dense(nodes(&e.n, vec![])),
        ]));
        three(&mut r, &e.b, &e.n);
        three(&mut r, &e.b, &e.n);
        over(&mut r);
    }
    pub fn law_c16_headers(e: E) {
        let mut r = P::from_reader(file(vec![
            Blob("OSMHeader", Data::Zlib(e.b.with(vec![]))),
            Blob("OSMData", Data::Zlib(e.b.with(vec![dense(nodes(&e.n, vec![]))]))),
            Blob("OSMHeader", Data::Raw(e.b.with(vec![]))),
            Blob("OSMHeader", Data::Raw(e.b.with(vec![]))),
            Blob("OSMData", Data::Raw(e.b.with(vec![dense(nodes(&e.n, vec![]))]))),
        ]));
        three(&mut r, &e.b, &e.n);
        three(&mut r, &e.b, &e.n);
        over(&mut r);
    }
    pub fn law_c16_empty_groups(e: E) {
        let mut r = P::from_reader(file(vec![
            Blob("OSMData", Data::Zlib(e.b.with(vec![]))),
            Blob("OSMData", Data::Zlib(e.b.with(vec![dense(nodes(&e.n, vec![]))]))),
            Blob("OSMData", Data::Raw(e.b.with(vec![]))),
            Blob("OSMData", Data::Raw(e.b.with(vec![ways(vec![e.v.way(None)])]))),
            Blob("OSMData", Data::Raw(e.b.with(vec![dense(nodes(&e.n, vec![]))]))),
        ]));
        three(&mut r, &e.b, &e.n);
        three(&mut r, &e.b, &e.n);
        over(&mut r);
    }
    pub fn law_c16_stops_packed() {
        let mut r = P::from_reader(file(vec![Blob("OSMData", Data::Other)]));
        let _ = Iterator::next(&mut r);
        never::<()>("data which cannot be decompressed is left out");
    }
    fn fails(b: B, n: [N; 3], end: End) {
        let mut r = P::from_reader(Pbf(vec![Blob("OSMData", Data::Raw(b.with(vec![dense(nodes(&n, vec![]))])))], end, 0));
        three(&mut r, &b, &n);
        if Iterator::next(&mut r).is_none() {
            never("a failure is taken for the end of the file")
        }
    }
    fn bad(b: B, n: [N; 3], data: Data) {
        let mut r = P::from_reader(file(vec![Blob("OSMData", Data::Raw(b.with(vec![dense(nodes(&n, vec![]))]))), Blob("OSMData", data)]));
        three(&mut r, &b, &n);
        if Iterator::next(&mut r).is_none() {
            never("data which cannot be read is taken for the end of the file")
        }
    }
    pub fn law_c27_stops_bad_zlib(b: B, n: [N; 3]) {
        bad(b, n, Data::BadZlib)
    }
    pub fn law_c27_stops_bad_block(b: B, n: [N; 3]) {
        bad(b, n, Data::BadBlock)
    }
    pub fn law_c27_stops_bad_zlib_block(b: B, n: [N; 3]) {
        bad(b, n, Data::BadZlibBlock)
    }
    pub fn law_c27_stops_bad_blob(b: B, n: [N; 3]) {
        bad(b, n, Data::BadBlob)
    }
    pub fn law_c27_stops_unknown_compression(b: B, n: [N; 3]) {
        bad(b, n, Data::Other)
    }
    pub fn law_c27_stops_size(b: B, n: [N; 3]) {
        fails(b, n, End::NoSize)
    }
    pub fn law_c27_stops_header(b: B, n: [N; 3]) {
        fails(b, n, End::NoHeader)
    }
    pub fn law_c27_stops_data(b: B, n: [N; 3]) {
        fails(b, n, End::NoData)
    }
}

pub mod agree {
    use super::*;
    fn both<O: OSMObj, Q: OSMObj>(o: &O, p: &Q) {
        same("id", o.id(), p.id());
        same("type", o.object_type(), p.object_type());
        same("version", o.version(), p.version());
        same("changeset", o.changeset_id(), p.changeset_id());
        same("uid", o.uid(), p.uid());
        same("user", o.user(), p.user());
        same("timestamp", o.timestamp().clone(), p.timestamp().clone());
        same("deleted", o.deleted(), p.deleted());
        same("tags", tags(o), tags(p));
    }
    fn readers(f: impl Fn() -> Pbf) -> (S, A) {
        (S::new(f()), A::new(f()))
    }
    pub fn law_c19_dense(b: B, n: [N; 3], t: T) {
        given(t.k != 0);
        given(t.l != 0);
        given(t.m != 0);
        let kv = || vec![t.k, t.v, 0, 0, t.l, t.w, t.m, t.x, 0];
        let (mut s, mut a) = readers(|| b.one(dense(nodes(&n, kv()))));
        let mut p = P::from_reader(b.one(dense(nodes(&n, kv()))));
        for _ in 0..3 {
            let (o, q) = (next(&mut s), next(&mut a));
            both(&o, &q);
            let (o, q) = (node(o), node(q));
            same("place", o.lat_lon(), q.lat_lon());
            match Iterator::next(&mut p) {
                None => never("a node is left out"),
                Some((i, ll)) => {
                    same("id", i, o.id());
                    same("place", Some(ll), o.lat_lon());
                }
            }
        }
    }
    pub fn law_c19_way(b: B, v: V, k: K) {
        let (mut s, mut a) = readers(|| b.one(ways(vec![v.way(k.info())])));
        let (o, q) = (next(&mut s), next(&mut a));
        both(&o, &q);
        same("nodes", ids(&way(o)), ids(&way(q)));
    }
    pub fn law_c19_relation(b: B, v: V, k: K) {
        let (mut s, mut a) = readers(|| b.one(relations(vec![v.relation(k.info())])));
        let (o, q) = (next(&mut s), next(&mut a));
        both(&o, &q);
        same("members", members(&relation(o)), members(&relation(q)));
    }
    pub fn law_c19_unknown(b: B, n: [N; 3], v: V) {
        let (mut s, mut a) = readers(|| {
            let mut d = nodes(&n, vec![]);
            d.denseinfo = None;
            b.with_file(vec![dense(d), ways(vec![v.way(None), v.bare_way()]), relations(vec![v.relation(None), v.bare_relation()])])
        });
        for _ in 0..7 {
            let (o, q) = (next(&mut s), next(&mut a));
            both(&o, &q);
        }
        end(&mut s);
        end(&mut a);
    }
}
