//! Markers the analysis recognises by name. Nothing here is ever run.

/// the two values are the same, whatever the arguments of the law
pub fn same<T>(_what: &'static str, _got: T, _want: T) {
    unimplemented!()
}
/// the condition holds, whatever the arguments of the law
pub fn holds(_what: &'static str, _c: bool) {
    unimplemented!()
}
/// this point is only reached when the condition holds (states the case a law is about)
pub fn given(_c: bool) {
    unimplemented!()
}
/// this point is not reached
pub fn never<T>(_what: &'static str) -> T {
    unimplemented!()
}
/// the value is worth looking at
pub fn see<T>(_what: &'static str, _got: T) {
    unimplemented!()
}
/// some value the analysis knows nothing about
pub fn any<T>(_what: &'static str) -> T {
    unimplemented!()
}
/// what the current object's attribute of that name was written as
pub fn attr(_name: &'static str) -> Option<String> {
    unimplemented!()
}
/// the children of that name written so far
pub fn kids<T>(_name: &'static str) -> Vec<T> {
    unimplemented!()
}
/// the roles of the members written so far
pub fn roles() -> Vec<Option<String>> {
    unimplemented!()
}
/// how many objects have been begun
pub fn objects() -> usize {
    unimplemented!()
}
/// the name of the current object's element
pub fn element() -> &'static str {
    unimplemented!()
}
/// something has been written since fresh()
pub fn wrote() -> bool {
    unimplemented!()
}
pub fn fresh() {
    unimplemented!()
}
/// a write has failed
pub fn failed() -> bool {
    unimplemented!()
}
/// what has been written is a complete document
pub fn whole(_what: &'static str) {
    unimplemented!()
}
/// what has been written closes all the elements it opened
pub fn balanced(_what: &'static str) {
    unimplemented!()
}

/// the stream the writers write to
pub struct Sink;
impl std::io::Write for Sink {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        unimplemented!()
    }
    fn flush(&mut self) -> std::io::Result<()> {
        unimplemented!()
    }
}

/// an attribute of an element
pub struct At(pub &'static str, pub String);
/// what the XML parser sees next
pub enum Ev {
    Start(&'static str, Vec<At>),
    Empty(&'static str, Vec<At>),
    End(&'static str),
    /// text, comments, ...
    Other,
    /// the parser reports an error
    Broken,
}
/// a document; after its last event it ends
pub struct Doc(pub Vec<Ev>);
impl std::io::Read for Doc {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        unimplemented!()
    }
}
/// an attribute whose name or quoting the parser cannot read
pub fn bad() -> At {
    At("!", String::new())
}
/// the name of a file which holds the document
pub fn named(_d: Doc) -> &'static str {
    unimplemented!()
}
/// the element of the object written last, as an XML parser shows it
pub fn written() -> Vec<Ev> {
    unimplemented!()
}

/// a PBF file as the format describes it; the readers' stream. The numbers of the header and data sizes are
/// unknown.
pub struct Pbf(pub Vec<Blob>, pub End, pub usize);
impl std::io::Read for Pbf {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        unimplemented!()
    }
}
/// what comes after the blobs
pub enum End {
    /// the file ends
    File,
    /// reading the next size fails with something other than the end of the file
    NoSize,
    /// reading the next header fails (the file ends, or otherwise)
    NoHeader,
    /// reading the next blob's data fails (the file ends, or otherwise)
    NoData,
}
pub struct Blob(pub &'static str, pub Data);
pub enum Data {
    Raw(PrimitiveBlock),
    Zlib(PrimitiveBlock),
    /// a compression the readers know nothing about
    Other,
    /// zlib data which cannot be decompressed (to its end)
    BadZlib,
    /// data which is no block
    BadBlock,
    /// zlib data which holds no block
    BadZlibBlock,
    /// what is there is no blob at all
    BadBlob,
}
#[derive(Default)]
pub struct PrimitiveBlock {
    pub stringtable: Option<StringTable>,
    pub primitivegroup: Vec<PrimitiveGroup>,
    pub granularity: Option<i32>,
    pub lat_offset: Option<i64>,
    pub lon_offset: Option<i64>,
    pub date_granularity: Option<i32>,
}
pub struct StringTable {
    pub s: Vec<String>,
}
pub struct PrimitiveGroup {
    pub dense: Option<DenseNodes>,
    pub ways: Vec<PWay>,
    pub relations: Vec<PRelation>,
}
pub struct DenseNodes {
    pub id: Vec<i64>,
    pub denseinfo: Option<DenseInfo>,
    pub lat: Vec<i64>,
    pub lon: Vec<i64>,
    pub keys_vals: Vec<i32>,
}
pub struct DenseInfo {
    pub version: Vec<i32>,
    pub timestamp: Vec<i64>,
    pub changeset: Vec<i64>,
    pub uid: Vec<i32>,
    pub user_sid: Vec<i32>,
    pub visible: Vec<bool>,
}
pub struct Info {
    pub version: Option<i32>,
    pub timestamp: Option<i64>,
    pub changeset: Option<i64>,
    pub uid: Option<i32>,
    pub user_sid: Option<u32>,
    pub visible: Option<bool>,
}
pub struct PWay {
    pub id: Option<i64>,
    pub keys: Vec<u32>,
    pub vals: Vec<u32>,
    pub info: Option<Info>,
    pub refs: Vec<i64>,
}
pub struct PRelation {
    pub id: Option<i64>,
    pub keys: Vec<u32>,
    pub vals: Vec<u32>,
    pub info: Option<Info>,
    pub roles_sid: Vec<i32>,
    pub memids: Vec<i64>,
    pub types: Vec<i32>,
}
