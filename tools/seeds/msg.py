src = open("/verif/tools/seeds/a.py").read() if False else None
exec(open("/verif/tools/seeds/common.py").read())
G='src/arcpbf/osmformat.rs'; GS='src/stringpbf/osmformat.rs'; FF='src/stringpbf/fileformat.rs'; FA='src/arcpbf/fileformat.rs'
H = open("/verif/tools/seeds/pb.py").read().split("H = '''")[1].split("'''")[0]
def ps(*a):
    s = seed(*a, pbf=True)
    s["demo"] = s["demo"].replace("fn main() {", H + "fn main() {")
    return s
def nth(f, old, after):
    t = open("/repo/" + f).read(); i = t.index(after); n = t[:i].count(old); return n
def ed(f, old, new, after):
    return (f, old, new, nth(f, old, after))
W="impl ::protobuf::Message for Way {"; I="impl ::protobuf::Message for Info {"; B="impl ::protobuf::Message for PrimitiveBlock {"; D="impl ::protobuf::Message for DenseNodes {"; R="impl ::protobuf::Message for Relation {"; ST="impl ::protobuf::Message for StringTable {"
seeds=[
 ps("c18-packed-split", "C18", [ed(G, "                    is.read_repeated_packed_sint64_into(&mut self.refs)?;", "                    let mut refs = ::std::vec::Vec::new();\n                    is.read_repeated_packed_sint64_into(&mut refs)?;\n                    self.refs = refs;", W)],
    "a way whose packed references are split over two chunks", "the references of the first chunk are lost",
    'let o = arc(blk(&[""], vec![way(M::new().v(1, 5).ps(8, &[1, 2]).ps(8, &[3]))])); assert_eq!(o[0].as_way().unwrap().nodes().len(), 3);'),
 ps("c18-unpacked-vals", "C18", [ed(GS, "                    self.vals.push(is.read_uint32()?);", "                    self.keys.push(is.read_uint32()?);", R)],
    "a relation whose value indices are written one by one instead of packed", "values end up among the keys and the tags are lost",
    'let o = string(blk(&["", "k", "v"], vec![rel(M::new().v(1, 5).v(2, 1).v(3, 2))])); assert_eq!(o[0].tag("k"), Some("v"));'),
 ps("c18-timestamp-width", "C18", [ed(G, "                    self.timestamp = ::std::option::Option::Some(is.read_int64()?);", "                    self.timestamp = ::std::option::Option::Some(is.read_uint32()?.into());", I)],
    "a way whose timestamp is in milliseconds (date_granularity 1)", "the timestamp is read modulo 2^32",
    'let o = arc(blk(&[""], vec![way(M::new().v(1, 5).m(4, M::new().v(2, 1_500_000_000_000)))]).v(18, 1)); assert_eq!(o[0].timestamp().as_ref().unwrap().to_epoch_number(), 1_500_000_000);'),
 ps("c18-lon-offset", "C18", [ed(GS, "                    self.lat_offset = ::std::option::Option::Some(is.read_int64()?);", "                    self.lat_offset = ::std::option::Option::Some(is.read_sint64()?);", B)],
    "a block with a latitude offset", "latitudes are wrong",
    'let b = |m: M| string(m.m(1, strings(&[""])).m(2, nodes(&[1], &[], M::new()))); let a = b(M::new().v(19, 500_000_000)); let c = b(M::new()); let d = a[0].as_node().unwrap().lat_lon_f64().unwrap().0 - c[0].as_node().unwrap().lat_lon_f64().unwrap().0; assert!((d - 0.5).abs() < 1e-6, "{}", d);'),
 ps("c18-unknown-field", "C18", [ed(G, "                tag => {\n                    ::protobuf::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;", "                tag => {\n                    if tag >> 3 > 20 {\n                        break;\n                    }\n                    ::protobuf::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?;", B)],
    "a block with an extension field before the fields of the format", "what follows the extension is not read",
    'let o = arc(M::new().m(1, strings(&[""])).v(100, 7).m(2, nodes(&[1], &[], M::new()))); assert_eq!(o.len(), 1);'),
]
