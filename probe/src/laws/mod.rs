pub mod coords;
pub mod objects;
pub mod writers;
pub mod readers;
pub mod xmlread;
pub mod roundtrip;
pub mod pbf;
