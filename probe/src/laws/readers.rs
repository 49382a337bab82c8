//! Laws about the changeset readers.
use crate::marks::*;
use osmio::changesets::*;
use osmio::*;

fn reader(evs: Vec<Ev>) -> ChangesetReader<Doc> {
    ChangesetReader::from_reader(Doc(evs))
}
fn tag_reader(evs: Vec<Ev>) -> Option<ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>>> {
    ChangesetTagReader::from_filename(named(Doc(evs))).ok()
}

/// the values in a document
pub struct V {
    id: String,
    created: String,
    closed: String,
    user: String,
    uid: String,
    num: String,
    comments: String,
    a: String,
    b: String,
}

fn at(n: &'static str, v: &String) -> At {
    At(n, v.clone())
}
fn iso(t: &TimestampFormat) -> Option<&String> {
    match t {
        TimestampFormat::ISOString(s) => Some(s),
        _ => None,
    }
}

/// all the attributes, in some order
fn full(v: &V) -> Vec<At> {
    vec![
        at("id", &v.id),
        at("created_at", &v.created),
        At("open", "true".to_string()),
        at("num_changes", &v.num),
        at("user", &v.user),
        at("uid", &v.uid),
        at("comments_count", &v.comments),
        at("closed_at", &v.closed),
    ]
}
fn full_back(v: &V) -> Vec<At> {
    vec![
        At("max_lon", "1.5".to_string()),
        at("closed_at", &v.closed),
        at("comments_count", &v.comments),
        At("min_lat", "7".to_string()),
        at("uid", &v.uid),
        at("user", &v.user),
        at("num_changes", &v.num),
        At("open", "false".to_string()),
        at("created_at", &v.created),
        at("id", &v.id),
        At("min_lon", "9".to_string()),
    ]
}
/// the attributes every changeset has
fn few(v: &V) -> Vec<At> {
    vec![
        at("num_changes", &v.num),
        At("open", "false".to_string()),
        at("id", &v.id),
        at("comments_count", &v.comments),
        at("created_at", &v.created),
    ]
}
fn has_base(c: &Changeset, v: &V, open: bool) {
    same("id", Some(c.id), v.id.parse::<u32>().ok());
    same("created", iso(&c.created), Some(&v.created));
    same("open", c.open, open);
    same("num_changes", Some(c.num_changes), v.num.parse::<u64>().ok());
    same("comments_count", Some(c.comments_count), v.comments.parse::<u64>().ok());
}
fn has_full(c: &Changeset, v: &V, open: bool) {
    has_base(c, v, open);
    same("closed", c.closed.as_ref().and_then(iso), Some(&v.closed));
    same("user", c.user.as_ref(), Some(&v.user));
    same("uid", c.uid, v.uid.parse::<i64>().ok());
}
fn has_few(c: &Changeset, v: &V) {
    has_base(c, v, false);
    holds("closed is unset", c.closed.is_none());
    holds("user is unset", c.user.is_none());
    holds("uid is unset", c.uid.is_none());
}
fn no_tags(c: &Changeset) {
    same("no tags", c.num_tags(), 0);
}

/// the one changeset of a document
fn only(evs: Vec<Ev>) -> Result<Changeset, ()> {
    let mut r = reader(evs);
    match r.next() {
        None => never("the changeset is returned"),
        Some(Ok(c)) => {
            holds("then the end", r.next().is_none());
            holds("and again", r.next().is_none());
            Ok(c)
        }
        Some(Err(_)) => Err(()),
    }
}
fn empty(a: Vec<At>) -> Vec<Ev> {
    vec![Ev::Other, Ev::Start("osm", vec![At("license", "x".to_string())]), Ev::Other, Ev::Empty("bound", vec![At("id", "3".to_string())]), Ev::Empty("changeset", a), Ev::Other, Ev::End("osm")]
}
fn filled(a: Vec<At>) -> Vec<Ev> {
    vec![Ev::Start("osm", vec![]), Ev::Start("changeset", a), Ev::Other, Ev::End("changeset"), Ev::Other, Ev::End("osm")]
}

pub fn law_c22_empty_full(v: V) {
    if let Ok(c) = only(empty(full(&v))) {
        has_full(&c, &v, true);
        no_tags(&c);
    }
}
pub fn law_c22_empty_back(v: V) {
    if let Ok(c) = only(empty(full_back(&v))) {
        has_full(&c, &v, false);
        no_tags(&c);
    }
}
pub fn law_c22_empty_few(v: V) {
    if let Ok(c) = only(empty(few(&v))) {
        has_few(&c, &v);
        no_tags(&c);
    }
}
pub fn law_c22_filled_full(v: V) {
    if let Ok(c) = only(filled(full(&v))) {
        has_full(&c, &v, true);
        no_tags(&c);
    }
}
pub fn law_c22_filled_back(v: V) {
    if let Ok(c) = only(filled(full_back(&v))) {
        has_full(&c, &v, false);
        no_tags(&c);
    }
}
pub fn law_c22_filled_few(v: V) {
    if let Ok(c) = only(filled(few(&v))) {
        has_few(&c, &v);
        no_tags(&c);
    }
}

fn kv(v: &String) -> Vec<At> {
    vec![At("k", "a".to_string()), At("v", v.clone())]
}
fn vk(v: &String) -> Vec<At> {
    vec![At("x", "y".to_string()), At("v", v.clone()), At("k", "b".to_string())]
}
fn two_tags(v: &V, a: Vec<At>) -> Vec<Ev> {
    vec![
        Ev::Start("osm", vec![]),
        Ev::Start("changeset", a),
        Ev::Other,
        Ev::Empty("tag", kv(&v.a)),
        Ev::Other,
        Ev::Start("tag", vk(&v.b)),
        Ev::Other,
        Ev::End("tag"),
        Ev::Start("discussion", vec![]),
        Ev::Start("comment", vec![At("uid", "7".to_string()), At("user", "else".to_string()), At("k", "c".to_string()), At("v", "d".to_string())]),
        Ev::Start("text", vec![]),
        Ev::Other,
        Ev::End("text"),
        Ev::End("comment"),
        Ev::End("discussion"),
        Ev::End("changeset"),
        Ev::End("osm"),
    ]
}
pub fn law_c22_two_tags(v: V) {
    if let Ok(c) = only(two_tags(&v, full(&v))) {
        has_full(&c, &v, true);
        same("two tags", c.num_tags(), 2);
        same("a", c.tag("a"), Some(v.a.as_str()));
        same("b", c.tag("b"), Some(v.b.as_str()));
    }
}
pub fn law_c22_two_tags_few(v: V) {
    if let Ok(c) = only(two_tags(&v, few(&v))) {
        has_few(&c, &v);
        same("two tags", c.num_tags(), 2);
        same("a", c.tag("a"), Some(v.a.as_str()));
        same("b", c.tag("b"), Some(v.b.as_str()));
    }
}
pub fn law_c22_any_tag(v: V) {
    let evs = vec![
        Ev::Start("osm", vec![]),
        Ev::Start("changeset", few(&v)),
        Ev::Empty("tag", vec![at("v", &v.b), at("k", &v.a)]),
        Ev::End("changeset"),
        Ev::End("osm"),
    ];
    if let Ok(c) = only(evs) {
        has_few(&c, &v);
        let mut l: Vec<(String, String)> = Vec::new();
        for (k, v) in c.into_tags() {
            l.push((k, v));
        }
        same("the tag", l, vec![(v.a.clone(), v.b.clone())]);
    }
}
/// nothing of one changeset shows up in the next
fn sequence(v: V, w: V, first: Vec<Ev>, second: Vec<Ev>) {
    let mut evs = first;
    evs.pop();
    evs.extend(second);
    let mut r = reader(evs);
    match r.next() {
        Some(Ok(c)) => {
            same("id", Some(c.id), v.id.parse::<u32>().ok());
            same("tags of the first", c.num_tags(), 2);
            same("a", c.tag("a"), Some(v.a.as_str()));
            match r.next() {
                Some(Ok(d)) => {
                    has_few(&d, &w);
                    no_tags(&d);
                    holds("the end", r.next().is_none());
                }
                Some(Err(_)) => {}
                None => never("the second changeset is returned"),
            }
        }
        Some(Err(_)) => {}
        None => never("the first changeset is returned"),
    }
}
pub fn law_c22_sequence_empty(v: V, w: V) {
    let (a, b) = (two_tags(&v, full(&v)), empty(few(&w)));
    sequence(v, w, a, b)
}
pub fn law_c22_sequence_filled(v: V, w: V) {
    let (a, b) = (two_tags(&v, full(&v)), filled(few(&w)));
    sequence(v, w, a, b)
}

// the reader which returns the tags only
pub fn law_c22_tags_only(v: V, w: V) {
    let evs = vec![
        Ev::Other,
        Ev::Start("osm", vec![]),
        Ev::Start("changeset", full(&v)),
        Ev::Other,
        Ev::Empty("tag", kv(&v.a)),
        Ev::Other,
        Ev::Start("tag", vk(&v.b)),
        Ev::End("tag"),
        Ev::Start("comment", vec![at("id", &w.created), At("k", "c".to_string()), At("v", "d".to_string())]),
        Ev::End("comment"),
        Ev::End("changeset"),
        Ev::Other,
        Ev::Start("changeset", few(&w)),
        Ev::Empty("tag", vec![at("v", &w.b), at("k", &w.a)]),
        Ev::End("changeset"),
        Ev::End("osm"),
    ];
    if let Some(mut r) = tag_reader(evs) {
        match r.next() {
            Some(Ok((i, t))) => {
                same("id", Some(i), v.id.parse::<u64>().ok());
                same("tags", t, vec![("a".to_string(), v.a.clone()), ("b".to_string(), v.b.clone())]);
                match r.next() {
                    Some(Ok((j, u))) => {
                        same("second id", Some(j), w.id.parse::<u64>().ok());
                        same("second tags", u, vec![(w.a.clone(), w.b.clone())]);
                        holds("the end", r.next().is_none());
                    }
                    Some(Err(_)) => {}
                    None => never("the second changeset is returned"),
                }
            }
            Some(Err(_)) => {}
            None => never("the first changeset is returned"),
        }
    }
}
pub fn law_c22_tags_only_none(v: V, w: V) {
    let evs = vec![
        Ev::Start("osm", vec![]),
        Ev::Start("changeset", full_back(&v)),
        Ev::Empty("tag", kv(&v.a)),
        Ev::End("changeset"),
        Ev::Start("changeset", few(&w)),
        Ev::Other,
        Ev::End("changeset"),
        Ev::End("osm"),
    ];
    if let Some(mut r) = tag_reader(evs) {
        match r.next() {
            Some(Ok((i, t))) => {
                same("id", Some(i), v.id.parse::<u64>().ok());
                same("tags", t, vec![("a".to_string(), v.a.clone())]);
                match r.next() {
                    Some(Ok((j, u))) => {
                        same("second id", Some(j), w.id.parse::<u64>().ok());
                        same("no tags", u, vec![]);
                    }
                    Some(Err(_)) => {}
                    None => never("the second changeset is returned"),
                }
            }
            Some(Err(_)) => {}
            None => never("the first changeset is returned"),
        }
    }
}

/// tags which are no changeset's
fn stray(v: &V, w: &V, id: &V) -> Vec<Ev> {
    vec![
        Ev::Start("osm", vec![]),
        Ev::Empty("tag", kv(&v.a)),
        Ev::Start("note", vec![at("id", &id.id)]),
        Ev::Start("tag", vk(&v.b)),
        Ev::End("tag"),
        Ev::End("note"),
        Ev::Start("changeset", few(v)),
        Ev::Empty("tag", vec![At("v", v.a.clone()), At("k", "z".to_string())]),
        Ev::Start("comment", vec![at("id", &id.id), at("uid", &id.uid)]),
        Ev::End("comment"),
        Ev::Empty("tag", vec![At("v", v.b.clone()), At("k", "c".to_string())]),
        Ev::End("changeset"),
        Ev::Empty("tag", kv(&v.a)),
        Ev::Empty("note", vec![at("id", &id.id)]),
        Ev::Start("changeset", full_back(w)),
        Ev::Empty("comment", vec![at("id", &id.id), at("num_changes", &id.num), at("k", &id.a), at("v", &id.b)]),
        Ev::End("changeset"),
        Ev::Empty("tag", kv(&v.a)),
        Ev::End("osm"),
    ]
}
pub fn law_c22_stray(v: V, w: V, i: V) {
    let mut r = reader(stray(&v, &w, &i));
    match r.next() {
        Some(Ok(c)) => {
            has_few(&c, &v);
            same("two tags", c.num_tags(), 2);
            same("z", c.tag("z"), Some(v.a.as_str()));
            same("c", c.tag("c"), Some(v.b.as_str()));
            match r.next() {
                Some(Ok(d)) => {
                    has_full(&d, &w, false);
                    no_tags(&d);
                    holds("the end", r.next().is_none());
                }
                Some(Err(_)) => {}
                None => never("the second changeset is returned"),
            }
        }
        Some(Err(_)) => {}
        None => never("the first changeset is returned"),
    }
}
pub fn law_c22_tags_only_stray(v: V, w: V, i: V) {
    if let Some(mut r) = tag_reader(stray(&v, &w, &i)) {
        match r.next() {
            Some(Ok((i, t))) => {
                same("id", Some(i), v.id.parse::<u64>().ok());
                same("tags", t, vec![("z".to_string(), v.a.clone()), ("c".to_string(), v.b.clone())]);
                match r.next() {
                    Some(Ok((j, u))) => {
                        same("second id", Some(j), w.id.parse::<u64>().ok());
                        same("no tags", u, vec![]);
                        holds("the end", r.next().is_none());
                    }
                    Some(Err(_)) => {}
                    None => never("the second changeset is returned"),
                }
            }
            Some(Err(_)) => {}
            None => never("the first changeset is returned"),
        }
    }
}
pub fn law_c22_tags_only_any(v: V, w: V) {
    let evs = vec![
        Ev::Start("osm", vec![]),
        Ev::Start("changeset", few(&v)),
        Ev::Empty("tag", vec![at("k", &v.a), at("v", &v.b)]),
        Ev::Empty("tag", vec![at("v", &w.a), at("k", &w.b)]),
        Ev::End("changeset"),
    ];
    if let Some(mut r) = tag_reader(evs) {
        match r.next() {
            Some(Ok((i, t))) => {
                same("id", Some(i), v.id.parse::<u64>().ok());
                same("tags", t, vec![(v.a.clone(), v.b.clone()), (w.b.clone(), w.a.clone())]);
            }
            Some(Err(_)) => {}
            None => never("the changeset is returned"),
        }
    }
}

// C23: bad input is reported
pub fn law_c23_own_id(v: V, w: V, i: V) {
    let mut r = reader(stray(&v, &w, &i));
    match r.next() {
        Some(Ok(c)) => {
            same("its own id", Some(c.id), v.id.parse::<u32>().ok());
            match r.next() {
                Some(Ok(d)) => same("its own id too", Some(d.id), w.id.parse::<u32>().ok()),
                Some(Err(_)) => {}
                None => never("the second changeset is returned"),
            }
        }
        Some(Err(_)) => {}
        None => never("the first changeset is returned"),
    }
}
pub fn law_c23_tags_own_id(v: V, w: V, i: V) {
    if let Some(mut r) = tag_reader(stray(&v, &w, &i)) {
        match r.next() {
            Some(Ok((i, t))) => {
                same("its own id", Some(i), v.id.parse::<u64>().ok());
                match r.next() {
                    Some(Ok((j, u))) => same("its own id too", Some(j), w.id.parse::<u64>().ok()),
                    Some(Err(_)) => {}
                    None => never("the second changeset is returned"),
                }
            }
            Some(Err(_)) => {}
            None => never("the first changeset is returned"),
        }
    }
}
fn refused(evs: Vec<Ev>) {
    let mut r = reader(evs);
    match r.next() {
        Some(Err(_)) => {}
        _ => never("an error is reported"),
    }
}
fn tags_refused(evs: Vec<Ev>) {
    if let Some(mut r) = tag_reader(evs) {
        match r.next() {
            Some(Err(_)) => {}
            _ => never("an error is reported"),
        }
    }
}
fn open(a: Vec<At>) -> Vec<Ev> {
    vec![Ev::Start("osm", vec![]), Ev::Start("changeset", a)]
}
fn then(a: Vec<Ev>, b: Vec<Ev>) -> Vec<Ev> {
    let mut a = a;
    a.extend(b);
    a
}
fn with_tag(v: &V, a: Vec<At>) -> Vec<Ev> {
    then(open(few(v)), vec![Ev::Empty("tag", a), Ev::End("changeset"), Ev::End("osm")])
}
fn with_long_tag(v: &V, a: Vec<At>) -> Vec<Ev> {
    then(open(few(v)), vec![Ev::Start("tag", a), Ev::End("tag"), Ev::End("changeset"), Ev::End("osm")])
}
/// the attributes with one in the place of the one of that name
fn but(mut a: Vec<At>, x: At) -> Vec<At> {
    let mut o = Vec::new();
    for i in a {
        if i.0 != x.0 {
            o.push(i);
        }
    }
    o.push(x);
    o
}
fn less(mut a: Vec<At>, x: &str) -> Vec<At> {
    let mut o = Vec::new();
    for i in a {
        if i.0 != x {
            o.push(i);
        }
    }
    o
}

pub fn law_c23_eof_inside(v: V) {
    refused(open(full(&v)));
}
pub fn law_c23_eof_after_tag(v: V) {
    refused(then(open(few(&v)), vec![Ev::Other, Ev::Empty("tag", kv(&v.a)), Ev::Other]));
}
pub fn law_c23_eof_in_discussion(v: V) {
    refused(then(open(few(&v)), vec![Ev::Start("discussion", vec![]), Ev::Start("comment", vec![]), Ev::Other, Ev::End("comment")]));
}
pub fn law_c23_no_key(v: V) {
    refused(with_tag(&v, vec![at("v", &v.a)]));
}
pub fn law_c23_no_value(v: V) {
    refused(with_tag(&v, vec![at("k", &v.a)]));
}
pub fn law_c23_no_key_long(v: V) {
    refused(with_long_tag(&v, vec![at("v", &v.a)]));
}
pub fn law_c23_no_value_long(v: V) {
    refused(with_long_tag(&v, vec![at("k", &v.a)]));
}
pub fn law_c23_bare_tag(v: V) {
    refused(with_tag(&v, vec![]));
}
pub fn law_c23_bad_tag(v: V) {
    refused(with_tag(&v, vec![at("k", &v.a), at("v", &v.b), bad()]));
}
fn bad_number(v: &V, name: &'static str, x: &String) {
    refused(empty(but(full(v), at(name, x))));
    refused(filled(but(full(v), at(name, x))));
    refused(two_tags(v, but(full_back(v), at(name, x))));
}
pub fn law_c23_bad_id(v: V, x: String) {
    given(x.parse::<u32>().is_err());
    bad_number(&v, "id", &x);
}
pub fn law_c23_bad_uid(v: V, x: String) {
    given(x.parse::<i64>().is_err());
    bad_number(&v, "uid", &x);
}
pub fn law_c23_bad_num_changes(v: V, x: String) {
    given(x.parse::<u64>().is_err());
    bad_number(&v, "num_changes", &x);
}
pub fn law_c23_bad_comments_count(v: V, x: String) {
    given(x.parse::<u64>().is_err());
    bad_number(&v, "comments_count", &x);
}
pub fn law_c23_bad_open(v: V) {
    bad_number(&v, "open", &"maybe".to_string());
    bad_number(&v, "open", &"".to_string());
    bad_number(&v, "open", &"True".to_string());
    bad_number(&v, "open", &"truefalse".to_string());
    bad_number(&v, "open", &"1".to_string());
}
pub fn law_c23_bad_attribute(v: V) {
    let mut a = full(&v);
    a.push(bad());
    refused(empty(a));
    let mut a = few(&v);
    a.push(bad());
    refused(filled(a));
}
pub fn law_c23_no_id(v: V) {
    refused(empty(less(full(&v), "id")));
    refused(filled(less(full(&v), "id")));
    refused(two_tags(&v, less(full(&v), "id")));
}
pub fn law_c23_no_id_second(v: V, w: V) {
    let mut evs = two_tags(&v, full(&v));
    evs.pop();
    let mut r = reader(then(evs, filled(less(full(&w), "id"))));
    if let Some(Ok(_)) = r.next() {
        match r.next() {
            Some(Err(_)) => {}
            _ => never("an error is reported"),
        }
    }
}
pub fn law_c23_broken(v: V) {
    refused(vec![Ev::Start("osm", vec![]), Ev::Broken]);
    refused(then(open(few(&v)), vec![Ev::Broken, Ev::End("changeset")]));
    refused(then(open(few(&v)), vec![Ev::Empty("tag", kv(&v.a)), Ev::Broken, Ev::End("changeset")]));
}
pub fn law_c23_nothing(v: V) {
    let mut r = reader(vec![Ev::Other, Ev::Start("osm", vec![]), Ev::Other, Ev::Empty("node", full(&v)), Ev::End("osm")]);
    holds("the end", r.next().is_none());
    holds("still the end", r.next().is_none());
    let mut r = reader(vec![]);
    holds("the end of nothing", r.next().is_none());
}
/// after an error the reader goes on or ends, but does not hang
pub fn law_c23_goes_on(v: V, w: V) {
    let mut r = reader(then(with_tag(&v, vec![at("k", &v.a)]), empty(few(&w))));
    match r.next() {
        Some(Err(_)) => {
            if let Some(Ok(c)) = r.next() {
                same("its own id", Some(c.id), w.id.parse::<u32>().ok());
                no_tags(&c);
            }
        }
        _ => never("an error is reported"),
    }
}

pub fn law_c23_tags_eof_inside(v: V) {
    tags_refused(open(full(&v)));
    tags_refused(then(open(few(&v)), vec![Ev::Other, Ev::Empty("tag", kv(&v.a)), Ev::Other]));
}
pub fn law_c23_tags_no_key(v: V) {
    tags_refused(with_tag(&v, vec![at("v", &v.a)]));
    tags_refused(with_long_tag(&v, vec![at("v", &v.a)]));
}
pub fn law_c23_tags_no_value(v: V) {
    tags_refused(with_tag(&v, vec![at("k", &v.a)]));
    tags_refused(with_long_tag(&v, vec![at("k", &v.a)]));
}
pub fn law_c23_tags_bad_attribute(v: V) {
    tags_refused(with_tag(&v, vec![at("k", &v.a), at("v", &v.b), bad()]));
    let mut a = few(&v);
    a.push(bad());
    tags_refused(filled(a));
}
pub fn law_c23_tags_bad_id(v: V, x: String) {
    given(x.parse::<u64>().is_err());
    tags_refused(filled(but(full(&v), at("id", &x))));
    tags_refused(two_tags(&v, but(few(&v), at("id", &x))));
}
pub fn law_c23_tags_no_id(v: V) {
    tags_refused(filled(less(full(&v), "id")));
    tags_refused(two_tags(&v, less(full(&v), "id")));
}
pub fn law_c23_tags_broken(v: V) {
    tags_refused(vec![Ev::Start("osm", vec![]), Ev::Broken]);
    tags_refused(then(open(few(&v)), vec![Ev::Empty("tag", kv(&v.a)), Ev::Broken, Ev::End("changeset")]));
}
/// the second changeset has no id of its own
pub fn law_c23_tags_no_id_second(v: V, w: V) {
    let mut evs = filled(full(&v));
    evs.pop();
    if let Some(mut r) = tag_reader(then(evs, filled(less(full(&w), "id")))) {
        if let Some(Ok(_)) = r.next() {
        match r.next() {
            Some(Err(_)) => {}
            _ => never("an error is reported"),
        }
    }
    }
}
/// a changeset which could not be read leaves nothing behind for the next
pub fn law_c23_tags_after_error(v: V, w: V) {
    let evs = then(open(full(&v)), vec![Ev::Empty("tag", kv(&v.a)), Ev::Empty("tag", vec![at("k", &v.b)]), Ev::Start("changeset", less(few(&w), "id")), Ev::End("changeset"), Ev::End("osm")]);
    if let Some(mut r) = tag_reader(evs) {
        match r.next() {
            Some(Err(_)) => match r.next() {
                Some(Ok(_)) => never("the id of another changeset is not used"),
                _ => {}
            },
            _ => never("an error is reported"),
        }
    }
}
pub fn law_c23_tags_nothing(v: V) {
    if let Some(mut r) = tag_reader(vec![Ev::Other, Ev::Start("osm", vec![]), Ev::Empty("node", full(&v)), Ev::End("osm")]) {
        holds("the end", r.next().is_none());
        holds("still the end", r.next().is_none());
    }
}

// ------------------------------------------------------------------ names the format does not define
/// an element and an attribute of any other name
fn strange_doc(n: &'static str, m: &'static str, z: &String, v: &V, w: &V) -> Vec<Ev> {
    let other = || vec![At("id", "5".to_string()), At("k", "x".to_string()), At("v", "y".to_string()), At("num_changes", "1".to_string()), At("open", "true".to_string())];
    let mut a = vec![at(m, z)];
    a.extend(few(v));
    let mut b = vec![at(m, z)];
    b.extend(full(w));
    vec![
        Ev::Start("osm", vec![]),
        Ev::Empty(n, other()),
        Ev::Start(n, other()),
        Ev::End(n),
        Ev::Start("changeset", a),
        Ev::Empty(n, other()),
        Ev::Empty("tag", vec![at(m, z), At("k", "a".to_string()), at("v", &v.a)]),
        Ev::Start(n, other()),
        Ev::Empty("tag", vec![At("k", "b".to_string()), at("v", &v.b), at(m, z)]),
        Ev::End(n),
        Ev::End("changeset"),
        Ev::Start(n, other()),
        Ev::Empty(n, other()),
        Ev::End(n),
        Ev::Start("changeset", b),
        Ev::End("changeset"),
        Ev::Empty(n, other()),
        Ev::End("osm"),
    ]
}
fn strange(n: &'static str, m: &'static str) {
    given(n != "changeset");
    given(n != "tag");
    given(n != "osm");
    given(m != "id");
    given(m != "created_at");
    given(m != "closed_at");
    given(m != "open");
    given(m != "user");
    given(m != "uid");
    given(m != "num_changes");
    given(m != "comments_count");
    given(m != "k");
    given(m != "v");
}
pub fn law_c22_any_names(n: &'static str, m: &'static str, z: String, v: V, w: V) {
    strange(n, m);
    let mut r = reader(strange_doc(n, m, &z, &v, &w));
    match r.next() {
        Some(Ok(c)) => {
            has_few(&c, &v);
            same("two tags", c.num_tags(), 2);
            same("a", c.tag("a"), Some(v.a.as_str()));
            same("b", c.tag("b"), Some(v.b.as_str()));
            match r.next() {
                Some(Ok(d)) => {
                    has_full(&d, &w, true);
                    no_tags(&d);
                    holds("the end", r.next().is_none());
                }
                Some(Err(_)) => {}
                None => never("the second changeset is returned"),
            }
        }
        Some(Err(_)) => {}
        None => never("the first changeset is returned"),
    }
}
pub fn law_c22_tags_only_any_names(n: &'static str, m: &'static str, z: String, v: V, w: V) {
    strange(n, m);
    if let Some(mut r) = tag_reader(strange_doc(n, m, &z, &v, &w)) {
        match r.next() {
            Some(Ok((i, t))) => {
                same("id", Some(i), v.id.parse::<u64>().ok());
                same("tags", t, vec![("a".to_string(), v.a.clone()), ("b".to_string(), v.b.clone())]);
                match r.next() {
                    Some(Ok((j, u))) => {
                        same("second id", Some(j), w.id.parse::<u64>().ok());
                        same("no tags", u, vec![]);
                        holds("the end", r.next().is_none());
                    }
                    Some(Err(_)) => {}
                    None => never("the second changeset is returned"),
                }
            }
            Some(Err(_)) => {}
            None => never("the first changeset is returned"),
        }
    }
}
