exec(open("/verif/tools/seeds/common.py").read())
G='src/arcpbf/osmformat.rs'; GS='src/stringpbf/osmformat.rs'
# a block whose parts the demonstrations choose
H = '''
fn info() -> M { M::new().v(1, 3).v(2, 1000).v(3, 77).v(4, 9).v(5, 5) }
fn st(l: &[&str]) -> M { strings(l) }
fn nodes(ids: &[i64], kv: &[i64], i: M) -> M { let z = vec![1i64; ids.len()]; M::new().m(2, M::new().ps(1, ids).m(5, i).ps(8, &z).ps(9, &z).p(10, kv)) }
fn way(f: M) -> M { M::new().m(3, f) }
fn rel(f: M) -> M { M::new().m(4, f) }
fn blk(s: &[&str], g: Vec<M>) -> M { let mut m = M::new().m(1, strings(s)); for x in g { m = m.m(2, x); } m }
fn many(b: Vec<M>) -> Vec<u8> { let mut o = frame("OSMHeader", rblob(&M::new().b(4, b"OsmSchema-V0.6"))); for x in b { o.extend(frame("OSMData", x)); } o }
fn af(f: Vec<u8>) -> Vec<ArcOSMObj> { let mut r = osmio::arcpbf::PBFReader::new(std::io::Cursor::new(f)); r.objects().collect() }
fn sf(f: Vec<u8>) -> Vec<StringOSMObj> { let mut r = osmio::stringpbf::PBFReader::new(std::io::Cursor::new(f)); r.objects().collect() }
fn pf(f: Vec<u8>) -> Vec<(i64, (Lat, Lon))> { osmio::stringpbf::PBFNodePositionReader::from_reader(std::io::Cursor::new(f)).collect() }
fn panics(f: impl FnOnce() + std::panic::UnwindSafe) -> bool { std::panic::set_hook(Box::new(|_| {})); std::panic::catch_unwind(f).is_err() }
'''
def ps(*a):
    s = seed(*a, pbf=True)
    s["demo"] = s["demo"].replace("fn main() {", H + "fn main() {")
    return s
seeds=[
 ps("c13-visible-first", "C13", [(AP, "_deleted: !denseinfo.visible.get(index).unwrap_or(&true),", "_deleted: !denseinfo.visible.first().unwrap_or(&true),")],
    "a history file: nodes of which only some are visible", "all nodes of a group are taken for (un)deleted as the first is",
    'let o = arc(blk(&[""], vec![nodes(&[1, 1], &[], M::new().p(6, &[1, 0]))])); assert!(!o[0].deleted()); assert!(o[1].deleted());'),
 ps("c13-id-delta", "C13", [(SP, "        let id = ids[index] + last_id;", "        let id = i64::from(ids[index] as i32) + last_id;")],
    "a step between ids of more than 31 bits", "ids from there on are wrong",
    'let o = string(blk(&[""], vec![nodes(&[1, 5_000_000_000], &[], M::new())])); assert_eq!(o[1].id(), 5_000_000_001);'),
 ps("c13-tag-index", "C13", [(SP, "                    stringtable[val as usize].clone(),\n                ));", "                    stringtable[val as u16 as usize].clone(),\n                ));")],
    "a string table with more than 65536 entries", "values are taken from the wrong entry",
    'let mut l: Vec<String> = (0..70000).map(|i| format!("s{}", i)).collect(); l[0] = String::new(); let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect(); let o = string(blk(&l, vec![nodes(&[1], &[1, 69999, 0], M::new())])); assert_eq!(o[0].tag("s1"), Some("s69999"));'),
 ps("c13-empty-value", "C13", [(AP, "                    tags.push((key, val));", "                    if val != key {\n                        tags.push((key, val));\n                    }")],
    "a tag whose key and value are the same text", "that tag is left out",
    'let o = arc(blk(&["", "same"], vec![nodes(&[1], &[1, 1, 0], M::new())])); assert_eq!(o[0].tag("same"), Some("same"));'),
 ps("c14-empty-role", "C14", [(AP, ".filter_map(|((t, &id), r_opt)| r_opt.map(|r| (t, id, r)))", ".filter_map(|((t, &id), r_opt)| r_opt.filter(|r| !r.is_empty()).map(|r| (t, id, r)))")],
    "a member without a role", "the member is left out",
    'let o = arc(blk(&["", "outer"], vec![rel(M::new().v(1, 5).p(8, &[1, 0]).ps(9, &[11, 2]).p(10, &[1, 0]))])); assert_eq!(o[0].as_relation().unwrap().members().count(), 2);'),
 ps("c14-repeated-node", "C14", [(SP, '''            for nid in &refs[1..] {
                last_id += nid;
                nodes.push(last_id as ObjId);
            }''', '''            for nid in refs[1..].iter().filter(|nid| **nid != 0) {
                last_id += nid;
                nodes.push(last_id as ObjId);
            }''')],
    "a way with the same node twice in a row", "the repeated node is left out",
    'let o = string(blk(&[""], vec![way(M::new().v(1, 5).ps(8, &[11, 0, 2]))])); assert_eq!(o[0].as_way().unwrap().nodes(), &[11, 11, 13]);'),
 ps("c14-member-sum", "C14", [(AP, '''            let mut last_id = refs[0];
            member_ids.push(last_id as ObjId);
            for nid in &refs[1..] {
                last_id += nid;
                member_ids.push(last_id as ObjId);
            }''', '''            let mut last_id = refs[0] as i32;
            member_ids.push(last_id as ObjId);
            for nid in &refs[1..] {
                last_id += *nid as i32;
                member_ids.push(last_id as ObjId);
            }''')],
    "members with ids of more than 31 bits", "their ids are wrong",
    'let o = arc(blk(&["", "outer"], vec![rel(M::new().v(1, 5).p(8, &[1]).ps(9, &[5_000_000_000]).p(10, &[0]))])); assert_eq!(o[0].as_relation().unwrap().members().next().unwrap().1, 5_000_000_000);'),
 ps("c14-tags-zip", "C14", [(AP, '''        let tags = keys.zip(vals);
        let tags: Vec<_> = tags
            .filter_map(|(k, v)| match (k, v) {
                (Some(k), Some(v)) => Some((k, v)),
                _ => None,
            })
            .collect();

        let roles''', '''        let tags = keys.flatten().zip(vals.flatten());
        let tags: Vec<_> = tags.filter(|(k, v)| k != v).collect();

        let roles''')],
    "a relation tag whose key and value are the same text", "that tag is left out",
    'let o = arc(blk(&["", "same"], vec![rel(M::new().v(1, 5).p(2, &[1]).p(3, &[1]))])); assert_eq!(o[0].num_tags(), 1);'),
 ps("c15-lon-offset", "C15", [(NP, "    let lon_offset = &block.lon_offset();", "    let lon_offset = &block.lat_offset();")],
    "a block with different offsets", "longitudes of the position reader are off",
    'let mut b = blk(&[""], vec![nodes(&[1], &[], M::new())]).v(19, 1000).v(20, 5000); let p = pf(file(b)); assert_eq!(p[0].1.1.inner(), 51);'),
 ps("c15-date-granularity", "C15", [(SP, "    let date_granularity = block.date_granularity();", "    let date_granularity = block.date_granularity().max(1000);")],
    "a block with times finer than seconds", "its times are wrong",
    'let b = blk(&["", "u"], vec![way(M::new().v(1, 5).m(4, M::new().v(2, 4000)))]).v(18, 500); let o = string(b); assert_eq!(o[0].timestamp().as_ref().unwrap().to_epoch_number(), 2000);'),
 ps("c15-granularity", "C15", [(AP, "    let granularity = block.granularity();", "    let granularity = if block.granularity() < COORD_PRECISION_NANOS as i32 { COORD_PRECISION_NANOS as i32 } else { block.granularity() };")],
    "a block with a finer granularity than 100", "its coordinates are wrong",
    'let b = blk(&[""], vec![M::new().m(2, M::new().ps(1, &[1]).ps(8, &[1000]).ps(9, &[2000]))]).v(17, 10); let o = arc(b); assert_eq!(o[0].as_node().unwrap().lat_lon().unwrap().0.inner(), 100);'),
 ps("c16-empty-block", "C16", [(AP, "        while self._buffer.is_empty() {", "        if self._buffer.is_empty() {")],
    "a data blob without objects before the last", "reading ends there",
    'let o = af(many(vec![rblob(&blk(&[""], vec![])), rblob(&blk(&[""], vec![way(M::new().v(1, 5))]))])); assert_eq!(o.len(), 1);'),
 ps("c16-packed", "C16", [(AP, "            let blob_data = blob_raw_data(&mut blob).unwrap();", "            let Some(blob_data) = blob_raw_data(&mut blob) else {\n                continue;\n            };")],
    "a blob compressed with lzma or zstd", "all its objects are missing without notice",
    'let f = many(vec![M::new().v(2, 10).b(4, b"lzma"), rblob(&blk(&[""], vec![way(M::new().v(1, 5))]))]); assert!(panics(move || { af(f); }));'),
 ps("c16-kind", "C16", [(SP, '''            if blob_header.type_.unwrap() != "OSMData" {''', '''            if !blob_header.type_.unwrap().starts_with("OSM") {''')],
    "a blob of an unknown type whose name begins with OSM", "what is in it is returned as data",
    'let mut f = many(vec![]); f = vec![]; f.extend(frame("OSMExtra", rblob(&blk(&[""], vec![way(M::new().v(1, 6))])))); f.extend(frame("OSMData", rblob(&blk(&[""], vec![way(M::new().v(1, 5))])))); let o = sf(f); assert_eq!(o.len(), 1);'),
 ps("c16-pos-groups", "C16", [(NP, "            continue;", "            break;")],
    "a block with nodes after ways", "the nodes are left out",
    'let p = pf(file(blk(&[""], vec![way(M::new().v(1, 5)), nodes(&[7], &[], M::new())]))); assert_eq!(p.len(), 1);'),
 ps("c16-assume-sorted", "C16", [(AP, "            objs.reverse();", "            if self._sorted_assumption {\n                objs.sort_by_key(|o| (o.object_type(), o.id()));\n            }\n            objs.reverse();")],
    "a reader told to assume a sorted file, and a file which is not", "objects come in another order than in the file",
    'let f = file(blk(&[""], vec![way(M::new().v(1, 9)), way(M::new().v(1, 5))])); let mut r = osmio::arcpbf::PBFReader::new(std::io::Cursor::new(f)); r.assume_sorted(); let l: Vec<i64> = r.objects().map(|o| o.id()).collect(); assert_eq!(l, [9, 5]);'),
 ps("c17-uid-zero", "C17", [(AP, "    let uids = &denseinfo.uid;", "    let nobody = vec![0; ids.len()];\n    let uids = if denseinfo.uid.is_empty() {\n        &nobody\n    } else {\n        &denseinfo.uid\n    };")],
    "dense nodes without uids", "they get uid 0",
    'let o = arc(blk(&["", "u"], vec![nodes(&[1, 2], &[], M::new().p(1, &[1, 1]))])); assert_eq!(o[0].uid(), None);'),
 ps("c17-way-info", "C17", [(SP, "    for way in primitive_group.ways.iter() {", "    for way in primitive_group.ways.iter().filter(|w| w.info.is_some()) {")],
    "a way without info", "the way is left out",
    'let o = string(blk(&["", "u"], vec![way(M::new().v(1, 5))])); assert_eq!(o.len(), 1);'),
 ps("c19-trim", "C19", [(AP, ".map(|chars| std::str::from_utf8(chars).ok().map(Arc::from))", ".map(|chars| std::str::from_utf8(chars).ok().map(|s| Arc::from(s.trim_end())))")],
    "a text which ends in white space", "the Arc reader returns another text than the String reader",
    'let b = || blk(&["", "k ", "v"], vec![way(M::new().v(1, 5).p(2, &[1]).p(3, &[2]))]); assert_eq!(string(b())[0].tag("k "), arc(b())[0].tag("k "));'),
 ps("c19-null-island", "C19", [(NP, "                sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));", "                if internal_lat != 0 || internal_lon != 0 {\n                    sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));\n                }")],
    "a node at 0, 0", "the position reader leaves it out",
    'let b = || blk(&[""], vec![M::new().m(2, M::new().ps(1, &[1, 1]).ps(8, &[0, 5]).ps(9, &[0, 5]))]); assert_eq!(pf(file(b())).len(), string(b()).len());'),
 ps("c27-header", "C27", [(SP, '''            self.reader
                .read_exact(header_bytes_vec.as_mut_slice())
                .unwrap();''', '''            self.reader
                .read_exact(header_bytes_vec.as_mut_slice())
                .ok()?;''')],
    "a file which is broken off within a blob header", "the rest is missing without notice",
    'let mut f = many(vec![rblob(&blk(&[""], vec![way(M::new().v(1, 5))]))]); f.extend([0, 0, 0, 9, 1, 2]); assert!(panics(move || { sf(f); }));'),
 ps("c27-data-eof", "C27", [(AP, "            self.reader.read_exact(blob_bytes.as_mut_slice()).unwrap();", "            match self.reader.read_exact(blob_bytes.as_mut_slice()) {\n                Ok(()) => {}\n                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return None,\n                Err(e) => panic!(\"error reading PBF: {}\", e),\n            }")],
    "a file which is broken off within a blob's data", "the rest is missing without notice",
    'let mut f = many(vec![rblob(&blk(&[""], vec![way(M::new().v(1, 5))]))]); let n = f.len(); f.truncate(n - 3); assert!(panics(move || { af(f); }));'),
 ps("c27-short", "C27", [(SP, "            self.reader.read_exact(blob_bytes.as_mut_slice()).unwrap();", "            let got = self.reader.by_ref().take(blob_bytes.len() as u64).read(&mut blob_bytes).unwrap();\n            if got == 0 {\n                return None;\n            }")],
    "a file which is broken off after a blob header", "the rest is missing without notice",
    'let mut f = many(vec![]); f.extend(frame("OSMData", rblob(&blk(&[""], vec![way(M::new().v(1, 5))])))); let n = f.len(); let d = rblob(&blk(&[""], vec![way(M::new().v(1, 5))])).0.len(); f.truncate(n - d); assert!(panics(move || { sf(f); }));'),
]
