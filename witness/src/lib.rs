//! Compiles only if every type below can be sent to and shared between threads, and its errors can be
//! boxed as `dyn Error + Send + Sync`. Each obligation is one line; a line which does not compile is
//! the violation.
use osmio::*;
fn shared<T: Send + Sync + 'static>() {}
fn carried<E: std::error::Error + Send + Sync + 'static>() {}
pub fn obligations() {
    shared::<obj_types::StringNode>();
    shared::<obj_types::StringWay>();
    shared::<obj_types::StringRelation>();
    shared::<obj_types::StringOSMObj>();
    shared::<obj_types::ArcNode>();
    shared::<obj_types::ArcWay>();
    shared::<obj_types::ArcRelation>();
    shared::<obj_types::ArcOSMObj>();
    shared::<Vec<obj_types::ArcOSMObj>>();
    shared::<std::sync::Arc<obj_types::StringOSMObj>>();
    shared::<Lat>();
    shared::<Lon>();
    shared::<TimestampFormat>();
    shared::<OSMObjectType>();
    shared::<ParseLatLonError>();
    carried::<ParseLatLonError>();
    shared::<changesets::Changeset>();
}
pub fn moved(o: obj_types::ArcOSMObj, s: obj_types::StringOSMObj) {
    std::thread::spawn(move || (o.id(), s.id()));
}
pub fn borrowed(o: &obj_types::ArcOSMObj, s: &obj_types::StringOSMObj) {
    std::thread::scope(|t| {
        t.spawn(|| o.id());
        t.spawn(|| o.version());
        t.spawn(|| s.id());
    });
}
