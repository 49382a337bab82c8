//! Laws about the XML and OSC writers.
use crate::marks::*;
use osmio::obj_types::*;
use osmio::osc::OSCWriter;
use osmio::xml::XMLWriter;
use osmio::*;

fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}

fn base<O: OSMObjBase>(o: &O) {
    same("one element", objects(), 1);
    balanced("every element is closed");
    same("id", attr("id"), Some(o.id().to_string()));
    same("visible", attr("visible"), Some((if o.deleted() { "false" } else { "true" }).to_string()));
    same("version", attr("version"), o.version().map(|v| v.to_string()));
    same("user", attr("user"), o.user().map(|v| escape(v)));
    same("uid", attr("uid"), o.uid().map(|v| v.to_string()));
    same("changeset", attr("changeset"), o.changeset_id().map(|v| v.to_string()));
    same("timestamp", attr("timestamp"), o.timestamp().as_ref().map(|v| escape(&v.to_iso_string())));
    let mut tags: Vec<(Option<String>, Option<String>)> = Vec::new();
    for (k, v) in o.tags() {
        tags.push((Some(escape(k)), Some(escape(v))));
    }
    same("tags", kids::<(Option<String>, Option<String>)>("tag"), tags);
}

fn write_node(w: &mut impl OSMWriter<Sink>, n: StringNode) {
    let o = StringOSMObj::from(n);
    given(w.is_open());
    match w.write_obj(&o) {
        Err(_) => never::<()>("an open writer takes an object"),
        Ok(()) => {
            let n = o.as_node().unwrap();
            same("node", element(), "node");
            base(n);
            same("lat", attr("lat"), n.lat_lon().map(|l| l.0.to_string()));
            same("lon", attr("lon"), n.lat_lon().map(|l| l.1.to_string()));
            same("no nd", kids::<(Option<String>,)>("nd"), Vec::new());
            same("no members", kids::<(Option<String>, Option<String>, Option<String>)>("member"), Vec::new());
        }
    }
}
fn write_way(w: &mut impl OSMWriter<Sink>, n: StringWay) {
    let o = StringOSMObj::from(n);
    given(w.is_open());
    match w.write_obj(&o) {
        Err(_) => never::<()>("an open writer takes an object"),
        Ok(()) => {
            let n = o.as_way().unwrap();
            same("way", element(), "way");
            base(n);
            same("no lat", attr("lat"), None);
            same("no lon", attr("lon"), None);
            let mut nds: Vec<(Option<String>,)> = Vec::new();
            for i in n.nodes() {
                nds.push((Some(i.to_string()),));
            }
            same("nds", kids::<(Option<String>,)>("nd"), nds);
            same("no members", kids::<(Option<String>, Option<String>, Option<String>)>("member"), Vec::new());
        }
    }
}
fn write_relation(w: &mut impl OSMWriter<Sink>, n: StringRelation) {
    let o = StringOSMObj::from(n);
    given(w.is_open());
    match w.write_obj(&o) {
        Err(_) => never::<()>("an open writer takes an object"),
        Ok(()) => {
            let n = o.as_relation().unwrap();
            same("relation", element(), "relation");
            base(n);
            same("no lat", attr("lat"), None);
            same("no lon", attr("lon"), None);
            same("no nd", kids::<(Option<String>,)>("nd"), Vec::new());
            let mut ms: Vec<(Option<String>, Option<String>, Option<String>)> = Vec::new();
            for (t, i, r) in n.members() {
                let t = match t {
                    OSMObjectType::Node => "node",
                    OSMObjectType::Way => "way",
                    OSMObjectType::Relation => "relation",
                };
                ms.push((Some(t.to_string()), Some(i.to_string()), Some(escape(r))));
            }
            same("members", kids::<(Option<String>, Option<String>, Option<String>)>("member"), ms);
        }
    }
}
pub fn law_c08_xml_node(w: &mut XMLWriter<Sink>, n: StringNode) {
    write_node(w, n)
}
pub fn law_c08_xml_way(w: &mut XMLWriter<Sink>, n: StringWay) {
    write_way(w, n)
}
pub fn law_c08_xml_relation(w: &mut XMLWriter<Sink>, n: StringRelation) {
    write_relation(w, n)
}
pub fn law_c08_osc_node(w: &mut OSCWriter<Sink>, n: StringNode) {
    write_node(w, n)
}
pub fn law_c08_osc_way(w: &mut OSCWriter<Sink>, n: StringWay) {
    write_way(w, n)
}
pub fn law_c08_osc_relation(w: &mut OSCWriter<Sink>, n: StringRelation) {
    write_relation(w, n)
}

// C05: nothing that is written into an attribute can end it or look like an entity
pub fn law_c05_xml(w: &mut XMLWriter<Sink>, o: StringOSMObj) {
    let _ = w.write_obj(&o);
}
pub fn law_c05_osc(w: &mut OSCWriter<Sink>, o: StringOSMObj) {
    let _ = w.write_obj(&o);
}
pub fn law_c05_xml_arc(w: &mut XMLWriter<Sink>, o: ArcOSMObj) {
    let _ = w.write_obj(&o);
}
pub fn law_c05_osc_arc(w: &mut OSCWriter<Sink>, o: ArcOSMObj) {
    let _ = w.write_obj(&o);
}
fn texts(o: &StringOSMObj) {
    same("user", attr("user"), o.user().map(|v| escape(v)));
    same("timestamp", attr("timestamp"), o.timestamp().as_ref().map(|v| escape(&v.to_iso_string())));
    let mut tags: Vec<(Option<String>, Option<String>)> = Vec::new();
    for (k, v) in o.tags() {
        tags.push((Some(escape(k)), Some(escape(v))));
    }
    same("tags", kids::<(Option<String>, Option<String>)>("tag"), tags);
}
fn texts_of(w: &mut impl OSMWriter<Sink>, o: &StringOSMObj) {
    match w.write_obj(o) {
        Ok(()) => texts(o),
        Err(_) => {}
    }
}
pub fn law_c05_xml_text_node(w: &mut XMLWriter<Sink>, n: StringNode) {
    texts_of(w, &n.into())
}
pub fn law_c05_osc_text_node(w: &mut OSCWriter<Sink>, n: StringNode) {
    texts_of(w, &n.into())
}
pub fn law_c05_xml_text_way(w: &mut XMLWriter<Sink>, n: StringWay) {
    texts_of(w, &n.into())
}
pub fn law_c05_osc_text_way(w: &mut OSCWriter<Sink>, n: StringWay) {
    texts_of(w, &n.into())
}
fn roles_of(w: &mut impl OSMWriter<Sink>, r: StringRelation) {
    let o = StringOSMObj::from(r);
    match w.write_obj(&o) {
        Ok(()) => {
            texts(&o);
            let r = o.as_relation().unwrap();
            let mut want: Vec<Option<String>> = Vec::new();
            for (_, _, r) in r.members() {
                want.push(Some(escape(r)));
            }
            same("roles", roles(), want);
        }
        Err(_) => {}
    }
}
pub fn law_c05_xml_text_relation(w: &mut XMLWriter<Sink>, r: StringRelation) {
    roles_of(w, r)
}
pub fn law_c05_osc_text_relation(w: &mut OSCWriter<Sink>, r: StringRelation) {
    roles_of(w, r)
}

// C06: whatever is done with a writer, the document is well formed
fn a_history(w: &mut impl OSMWriter<Sink>) {
    while any::<bool>("another header") {
        let _ = w.set_header(any::<(&'static str, &'static str)>("header"));
    }
    while any::<bool>("another object") {
        let _ = w.write_obj(&any::<StringOSMObj>("object"));
    }
}
pub fn law_c06_xml_close() {
    let mut w = XMLWriter::new(Sink);
    a_history(&mut w);
    if w.close().is_ok() {
        whole("complete once closed");
    }
    std::mem::forget(w);
}
pub fn law_c06_xml_drop() {
    let mut w = XMLWriter::new(Sink);
    a_history(&mut w);
    drop(w);
    whole("complete once dropped");
}
pub fn law_c06_xml_close_drop() {
    let mut w = XMLWriter::new(Sink);
    a_history(&mut w);
    let _ = w.close();
    drop(w);
    whole("still complete when dropped after close");
}
pub fn law_c06_xml_refused() {
    let mut w = XMLWriter::new(Sink);
    a_history(&mut w);
    if w.close().is_ok() {
        a_history(&mut w);
        whole("still complete after refused calls");
    }
    std::mem::forget(w);
}
pub fn law_c06_osc_close() {
    let mut w = OSCWriter::new(Sink);
    a_history(&mut w);
    if w.close().is_ok() {
        whole("complete once closed");
    }
    std::mem::forget(w);
}
pub fn law_c06_osc_drop() {
    let mut w = OSCWriter::new(Sink);
    a_history(&mut w);
    drop(w);
    whole("complete once dropped");
}
pub fn law_c06_osc_close_drop() {
    let mut w = OSCWriter::new(Sink);
    a_history(&mut w);
    let _ = w.close();
    let _ = w.close();
    drop(w);
    whole("still complete when closed again and dropped");
}
pub fn law_c06_osc_refused() {
    let mut w = OSCWriter::new(Sink);
    a_history(&mut w);
    if w.close().is_ok() {
        a_history(&mut w);
        whole("still complete after refused calls");
    }
    std::mem::forget(w);
}

// C07: the lifecycle
fn closed_refuses(w: &mut impl OSMWriter<Sink>, o: &StringOSMObj, h: (&str, &str), headers: bool) {
    same("closed", w.is_open(), false);
    fresh();
    match w.write_obj(o) {
        Err(OSMWriteError::AlreadyClosed) => same("a refused object writes nothing", wrote(), false),
        _ => never("a closed writer refuses objects"),
    }
    match w.set_header(h) {
        Err(OSMWriteError::AlreadyClosed) => holds("already closed", headers),
        Err(OSMWriteError::FormatDoesntSupportHeaders) => holds("no headers", !headers),
        _ => never("a closed writer refuses headers"),
    }
    same("a refused header writes nothing", wrote(), false);
    same("still closed", w.is_open(), false);
}
fn started_refuses(w: &mut impl OSMWriter<Sink>, h: (&str, &str), headers: bool) {
    same("open", w.is_open(), true);
    fresh();
    match w.set_header(h) {
        Err(OSMWriteError::AlreadyStarted) => holds("already started", headers),
        Err(OSMWriteError::FormatDoesntSupportHeaders) => holds("no headers", !headers),
        _ => never("a started writer refuses headers"),
    }
    same("a refused header writes nothing", wrote(), false);
    same("still open", w.is_open(), true);
}
fn new_one(w: &mut impl OSMWriter<Sink>, h: (&str, &str), headers: bool) {
    same("open at first", w.is_open(), true);
    fresh();
    match w.set_header(h) {
        Ok(()) => holds("headers are taken", headers),
        Err(OSMWriteError::FormatDoesntSupportHeaders) => holds("no headers", !headers),
        _ => never("a new writer takes headers or has none"),
    }
    same("open after a header", w.is_open(), true);
    same("a header is not written at once", wrote(), false);
}
pub fn law_c07_xml_new(h: (&str, &str)) {
    let mut w = XMLWriter::new(Sink);
    new_one(&mut w, h, true);
    new_one(&mut w, h, true);
    std::mem::forget(w);
}
pub fn law_c07_osc_new(h: (&str, &str)) {
    let mut w = OSCWriter::new(Sink);
    new_one(&mut w, h, false);
    std::mem::forget(w);
}
fn open_takes(w: &mut impl OSMWriter<Sink>, o: &StringOSMObj) {
    given(w.is_open());
    match w.write_obj(o) {
        Ok(()) => {
            same("an object is written", wrote(), true);
            same("open after an object", w.is_open(), true);
        }
        Err(_) => never("an open writer takes objects"),
    }
}
pub fn law_c07_xml_open(w: &mut XMLWriter<Sink>, o: StringOSMObj) {
    open_takes(w, &o)
}
pub fn law_c07_osc_open(w: &mut OSCWriter<Sink>, o: StringOSMObj) {
    open_takes(w, &o)
}
pub fn law_c07_xml_started(w: &mut XMLWriter<Sink>, o: StringOSMObj, h: (&str, &str)) {
    given(w.write_obj(&o).is_ok());
    started_refuses(w, h, true);
    started_refuses(w, h, true);
}
pub fn law_c07_osc_started(w: &mut OSCWriter<Sink>, o: StringOSMObj, h: (&str, &str)) {
    given(w.write_obj(&o).is_ok());
    started_refuses(w, h, false);
}
pub fn law_c07_xml_closed(w: &mut XMLWriter<Sink>, o: StringOSMObj, h: (&str, &str)) {
    given(w.close().is_ok());
    closed_refuses(w, &o, h, true);
    closed_refuses(w, &o, h, true);
}
pub fn law_c07_osc_closed(w: &mut OSCWriter<Sink>, o: StringOSMObj, h: (&str, &str)) {
    given(w.close().is_ok());
    closed_refuses(w, &o, h, false);
    closed_refuses(w, &o, h, false);
}
pub fn law_c07_xml_not_open(w: &mut XMLWriter<Sink>, o: StringOSMObj, h: (&str, &str)) {
    given(!w.is_open());
    closed_refuses(w, &o, h, true);
}
pub fn law_c07_osc_not_open(w: &mut OSCWriter<Sink>, o: StringOSMObj, h: (&str, &str)) {
    given(!w.is_open());
    closed_refuses(w, &o, h, false);
}
pub fn law_c07_xml_close_open(w: &mut XMLWriter<Sink>) {
    given(w.is_open());
    match w.close() {
        Ok(()) => same("closed after close", w.is_open(), false),
        Err(_) => never("an open writer can be closed"),
    }
}
pub fn law_c07_osc_close_open(w: &mut OSCWriter<Sink>) {
    given(w.is_open());
    match w.close() {
        Ok(()) => same("closed after close", w.is_open(), false),
        Err(_) => never("an open writer can be closed"),
    }
}

// C09: errors of the stream
fn outcome(r: Result<(), OSMWriteError>) {
    match r {
        Ok(()) => same("success although a write failed", failed(), false),
        Err(_) => {}
    }
}
pub fn law_c09_xml_node(w: &mut XMLWriter<Sink>, n: StringNode) {
    outcome(w.write_obj(&StringOSMObj::from(n)))
}
pub fn law_c09_osc_node(w: &mut OSCWriter<Sink>, n: StringNode) {
    outcome(w.write_obj(&StringOSMObj::from(n)))
}
pub fn law_c09_xml_way(w: &mut XMLWriter<Sink>, n: StringWay) {
    outcome(w.write_obj(&StringOSMObj::from(n)))
}
pub fn law_c09_osc_way(w: &mut OSCWriter<Sink>, n: StringWay) {
    outcome(w.write_obj(&StringOSMObj::from(n)))
}
pub fn law_c09_xml_relation(w: &mut XMLWriter<Sink>, n: StringRelation) {
    outcome(w.write_obj(&StringOSMObj::from(n)))
}
pub fn law_c09_osc_relation(w: &mut OSCWriter<Sink>, n: StringRelation) {
    outcome(w.write_obj(&StringOSMObj::from(n)))
}
pub fn law_c09_xml_close(w: &mut XMLWriter<Sink>) {
    outcome(w.close())
}
pub fn law_c09_osc_close(w: &mut OSCWriter<Sink>) {
    outcome(w.close())
}
pub fn law_c06_xml_header(k: &str, v: &str, o: StringOSMObj) {
    let mut w = XMLWriter::new(Sink);
    let _ = w.set_header((k, v));
    let _ = w.write_obj(&o);
    let _ = w.close();
    whole("complete with a header");
    std::mem::forget(w);
}
pub fn law_c06_xml_header_generator(v: &str) {
    let mut w = XMLWriter::new(Sink);
    let _ = w.set_header(("generator", v));
    let _ = w.close();
    whole("complete with a header");
    std::mem::forget(w);
}
pub fn law_c26_xml_into_inner(o: StringOSMObj) {
    let mut w = XMLWriter::new(Sink);
    let _ = w.write_obj(&o);
    let _ = w.close();
    see("the stream is given back", &w.into_inner());
}
pub fn law_c26_osc_into_inner(o: StringOSMObj) {
    let mut w = OSCWriter::new(Sink);
    let _ = w.write_obj(&o);
    let _ = w.close();
    see("the stream is given back", &w.into_inner());
}
pub fn law_c26_xml_from_iter(a: StringOSMObj, b: StringOSMObj) {
    see("the writer", &XMLWriter::from_iter(Sink, vec![a, b].into_iter()).is_open());
}
pub fn law_c26_osc_from_iter(a: StringOSMObj, b: StringOSMObj) {
    see("the writer", &OSCWriter::from_iter(Sink, vec![a, b].into_iter()).is_open());
}
pub fn law_c26_xml_arc(o: ArcOSMObj, h: (&str, &str)) {
    let mut w = XMLWriter::new(Sink);
    see("header", &w.set_header(h).is_ok());
    see("write", &w.write_obj(&o).is_ok());
    see("close", &w.close().is_ok());
    see("close again", &w.close().is_ok());
    see("write again", &w.write_obj(&o).is_ok());
    see("header again", &w.set_header(h).is_ok());
}
pub fn law_c26_osc_arc(o: ArcOSMObj, h: (&str, &str)) {
    let mut w = OSCWriter::new(Sink);
    see("header", &w.set_header(h).is_ok());
    see("write", &w.write_obj(&o).is_ok());
    see("close", &w.close().is_ok());
    see("close again", &w.close().is_ok());
    see("write again", &w.write_obj(&o).is_ok());
    see("header again", &w.set_header(h).is_ok());
}
