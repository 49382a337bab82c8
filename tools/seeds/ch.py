exec(open("/verif/tools/seeds/common.py").read())
CH = '''use osmio::changesets::*;
let full = |s: &str| { let s = format!("<osm>{}</osm>", s); ChangesetReader::from_reader(std::io::Cursor::new(s.into_bytes())) };
let raw = |s: &str| ChangesetReader::from_reader(std::io::Cursor::new(s.to_string().into_bytes()));
let tags = |s: &str| { use std::io::Write; let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::fast()); e.write_all(s.as_bytes()).unwrap(); std::fs::write("f.osm.bz2", e.finish().unwrap()).unwrap(); ChangesetTagReader::from_filename("f.osm.bz2").unwrap() };
const A: &str = "id=\\"7\\" created_at=\\"2020-01-01T00:00:00Z\\" open=\\"false\\" num_changes=\\"3\\" comments_count=\\"2\\"";
'''
seeds = [
 seed("c22-empty-uid", "C22", [(C, '''                            b"uid" => {
                                changeset_builder
                                    .uid(attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?);
                            }
                            b"num_changes" => {
                                changeset_builder.num_changes(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            b"comments_count" => {
                                changeset_builder.comments_count(''', '''                            b"uid" => {
                                changeset_builder
                                    .uid(attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?);
                            }
                            b"num_changes" | b"changes_count" => {
                                changeset_builder.num_changes(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );
                            }
                            b"comments" => {
                                changeset_builder.comments_count(''', 1), (C, '''                    // no tags here
''', '''                    // no tags here
                    changeset_builder.comments_count(0);
''')], "a changeset without tags but with comments", "its number of comments is lost",
   CH + 'let c = full(&format!("<changeset {}/>", A)).next().unwrap().unwrap(); assert_eq!(c.comments_count, 2);'),
 seed("c22-empty-closed", "C22", [(C, '''                            b"closed_at" => {
                                changeset_builder.closed(TimestampFormat::ISOString(''', '''                            b"closed" => {
                                changeset_builder.closed(TimestampFormat::ISOString(''', 1)], "a closed changeset whose element is empty", "its closing time is dropped",
   CH + 'let c = full(&format!("<changeset {} closed_at=\\"2020-01-02T00:00:00Z\\"/>", A)).next().unwrap().unwrap(); assert!(c.closed.is_some());'),
 seed("c22-first-tag-value", "C22", [(C, '''                    self.tags.push((k.unwrap(), v.unwrap()));''', '''                    let (k, v): (String, String) = (k.unwrap(), v.unwrap());
                    match self.tags.last_mut() {
                        Some(t) if t.0 < k => self.tags.push((k, v)),
                        Some(t) => self.tags.insert(0, (k, v)),
                        None => self.tags.push((k, v)),
                    }''')], "two tags which are not in alphabetical order", "the tag-only reader changes their order... and keeps them; the order of the file is lost",
   CH + 'let t = tags(&format!("<osm><changeset {}><tag k=\\"z\\" v=\\"1\\"/><tag k=\\"a\\" v=\\"2\\"/></changeset></osm>", A)).next().unwrap().unwrap().1; assert_eq!(t[0].0, "z");'),
 seed("c22-comment-tags", "C22", [(C, '''                                if e.name().local_name().as_ref() != "tag".as_bytes() {
                                    continue;
                                }''', '''                                if e.name().local_name().as_ref() == "discussion".as_bytes() {
                                    changeset_builder.comments_count(0);
                                }
                                if e.name().local_name().as_ref() != "tag".as_bytes() {
                                    continue;
                                }''')], "a changeset with a discussion child", "the comments_count attribute is overwritten",
   CH + 'let c = full(&format!("<changeset {}><discussion></discussion></changeset>", A)).next().unwrap().unwrap(); assert_eq!(c.comments_count, 2);'),
 seed("c22-user-trim", "C22", [(C, '''                            b"user" => {
                                changeset_builder.user(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.to_string(),
                                );
                            }''', '''                            b"user" => {
                                changeset_builder.user(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.trim().to_string(),
                                );
                            }''', 0)], "a user name which ends in a space", "the user name is changed",
   CH + 'let c = full(&format!("<changeset {} user=\\"ab \\"></changeset>", A)).next().unwrap().unwrap(); assert_eq!(c.user.as_deref(), Some("ab "));'),
 seed("c22-tags-leak", "C22", [(C, '''                    self.tags.clear();
''', '''                    if self.curr_id.is_none() {
                        self.tags.clear();
                    }
''')], "a tag element outside any changeset", "it is attributed to the next changeset",
   CH + 'let mut r = tags(&format!("<osm><tag k=\\"x\\" v=\\"y\\"/><changeset {}></changeset></osm>", A)); assert!(r.next().unwrap().unwrap().1.is_empty());'),
 seed("c23-value-default", "C23", [(C, '''                                ensure!(v.is_some(), "No v for tag");
                                tags.insert(k.unwrap(), v.unwrap());''', '''                                tags.insert(k.unwrap(), v.unwrap_or_default());''')], "a tag without a value", "it is read as a tag with an empty value",
   CH + 'assert!(full(&format!("<changeset {}><tag k=\\"x\\"/></changeset>", A)).next().unwrap().is_err());'),
 seed("c23-bad-comments", "C23", [(C, '''                                changeset_builder.comments_count(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse()?,
                                );''', '''                                changeset_builder.comments_count(
                                    attr.normalized_value(XmlVersion::Implicit1_0)?.parse().unwrap_or(0),
                                );''', 0)], "a comments_count which is no number", "it is read as 0",
   CH + 'assert!(full("<changeset id=\\"7\\" created_at=\\"2020-01-01T00:00:00Z\\" open=\\"false\\" num_changes=\\"3\\" comments_count=\\"x\\"></changeset>").next().unwrap().is_err());'),
 seed("c23-attr-errors", "C23", [(C, '''                                for attr in e.attributes() {
                                    let attr = attr?;
                                    match attr.key.local_name().as_ref() {
                                        b"k" => {''', '''                                for attr in e.attributes().flatten() {
                                    match attr.key.local_name().as_ref() {
                                        b"k" => {''')], "a tag with a malformed attribute", "the attribute is skipped silently",
   CH + 'assert!(full(&format!("<changeset {}><tag k=\\"x\\" v=\\"y\\" z/></changeset>", A)).next().unwrap().is_err());'),
 seed("c23-open-any", "C23", [(C, '''                                changeset_builder.open(match attr.value.as_ref() {
                                    b"true" => true,
                                    b"false" => false,
                                    _ => bail!("unknown value"),
                                });''', '''                                changeset_builder.open(match attr.value.as_ref() {
                                    b"true" => true,
                                    b"false" | b"" => false,
                                    _ => bail!("unknown value"),
                                });''', 1)], "an empty open attribute", "it is read as closed",
   CH + 'assert!(full("<changeset id=\\"7\\" created_at=\\"2020-01-01T00:00:00Z\\" open=\\"\\" num_changes=\\"3\\" comments_count=\\"0\\"/>").next().unwrap().is_err());'),
 seed("c23-eof-loop", "C23", [(C, '''                            _ => continue,
                        }
                    }

                    changeset_builder.tags(tags);''', '''                            Event::Text(_) if tags.is_empty() => break,
                            _ => continue,
                        }
                    }

                    changeset_builder.tags(tags);''')], "a file that ends inside a changeset, after some text", "the changeset is returned as if it were complete",
   CH + 'let mut r = raw(&format!("<osm><changeset {}> <x></x>", A)); assert!(r.next().unwrap().is_err());'),
 seed("c23-id-from-tag", "C23", [(C, '''                Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
''', '''                Event::Start(ref e) if e.name().local_name().as_ref().starts_with(b"c") => {
''')], "a comment element inside a changeset", "the changeset is returned under the id of the comment",
   CH + 'let r = tags(&format!("<osm><changeset {}><comment id=\\"99\\"></comment></changeset></osm>", A)).next().unwrap(); assert!(r.is_err() || r.unwrap().0 == 7);'),
]
