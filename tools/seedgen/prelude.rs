#![allow(dead_code, unused_imports)]
use mp4ameta::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

// ---- builders for MPEG-4 atoms -------------------------------------------------------------
fn atom(fourcc: &[u8; 4], content: &[u8]) -> Vec<u8> {
    let mut v = ((content.len() + 8) as u32).to_be_bytes().to_vec();
    v.extend_from_slice(fourcc);
    v.extend_from_slice(content);
    v
}

/// The same with a 64 bit length.
fn atom64(fourcc: &[u8; 4], content: &[u8]) -> Vec<u8> {
    let mut v = 1u32.to_be_bytes().to_vec();
    v.extend_from_slice(fourcc);
    v.extend_from_slice(&((content.len() + 16) as u64).to_be_bytes());
    v.extend_from_slice(content);
    v
}

fn full(fourcc: &[u8; 4], content: &[u8]) -> Vec<u8> {
    atom(fourcc, &cat(&[&[0; 4], content]))
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

fn data(datatype: u32, content: &[u8]) -> Vec<u8> {
    atom(b"data", &cat(&[&datatype.to_be_bytes(), &[0; 4], content]))
}

fn text(s: &str) -> Vec<u8> {
    data(1, s.as_bytes())
}

fn ftyp() -> Vec<u8> {
    atom(b"ftyp", b"M4A \0\0\x02\0isomiso2")
}

fn hdlr() -> Vec<u8> {
    full(b"hdlr", b"\0\0\0\0mdirappl\0\0\0\0\0\0\0\0\0")
}

fn ilst(items: &[&[u8]]) -> Vec<u8> {
    atom(b"ilst", &items.concat())
}

fn meta(children: &[&[u8]]) -> Vec<u8> {
    full(b"meta", &children.concat())
}

fn udta(children: &[&[u8]]) -> Vec<u8> {
    atom(b"udta", &children.concat())
}

fn moov(children: &[&[u8]]) -> Vec<u8> {
    atom(b"moov", &children.concat())
}

fn mvhd() -> Vec<u8> {
    full(b"mvhd", &cat(&[&[0; 8], &1000u32.to_be_bytes(), &2500u32.to_be_bytes(), &[0; 80]]))
}

fn table(offsets: &[u32]) -> Vec<u8> {
    let mut v = (offsets.len() as u32).to_be_bytes().to_vec();
    for o in offsets {
        v.extend_from_slice(&o.to_be_bytes());
    }
    full(b"stco", &v)
}

fn desc(tag: u8, content: &[u8]) -> Vec<u8> {
    assert!(content.len() < 128);
    let mut v = vec![tag, content.len() as u8];
    v.extend_from_slice(content);
    v
}

fn mp4a_with(es: &[u8], after: &[u8]) -> Vec<u8> {
    atom(b"mp4a", &cat(&[&[0; 28], &full(b"esds", es), after]))
}

/// An audio sample entry.
fn mp4a(freq: u16, chan: u16, max: u32, avg: u32) -> Vec<u8> {
    let specific = desc(5, &((2 << 11) | (freq << 7) | (chan << 3)).to_be_bytes());
    let config = cat(&[&[0x40, 0x15, 0, 0, 0], &max.to_be_bytes(), &avg.to_be_bytes(), &specific]);
    mp4a_with(&desc(3, &cat(&[&[0; 3], &desc(4, &config), &desc(6, &[2])])), &[])
}

fn stsd(entries: &[&[u8]]) -> Vec<u8> {
    full(b"stsd", &cat(&[&(entries.len() as u32).to_be_bytes(), &entries.concat()]))
}

/// A track with the children of its sample table.
fn trak(stbl: &[&[u8]]) -> Vec<u8> {
    atom(b"trak", &atom(b"mdia", &atom(b"minf", &atom(b"stbl", &stbl.concat()))))
}

fn find(haystack: &[u8], needle: &[u8]) -> usize {
    haystack.windows(needle.len()).position(|w| w == needle).expect("not found")
}

// ---- access to the library -----------------------------------------------------------------
fn try_read(bytes: &[u8]) -> mp4ameta::Result<Tag> {
    Tag::read_from(&mut Cursor::new(bytes.to_vec()))
}

fn read(bytes: &[u8]) -> Tag {
    try_read(bytes).expect("reading failed")
}

/// A file in the scratch directory made by demo.sh.
fn scratch(name: &str) -> std::path::PathBuf {
    std::path::Path::new(&std::env::var("SCRATCH").unwrap()).join(name)
}

fn try_write(tag: &Tag, bytes: &[u8]) -> (mp4ameta::Result<()>, Vec<u8>) {
    let path = scratch("demo.m4a");
    std::fs::write(&path, bytes).unwrap();
    let res = tag.write_to_path(&path);
    (res, std::fs::read(&path).unwrap())
}

fn write(tag: &Tag, bytes: &[u8]) -> Vec<u8> {
    let (res, bytes) = try_write(tag, bytes);
    res.expect("writing failed");
    bytes
}

fn dump(tag: &Tag) -> Vec<u8> {
    let mut v = Vec::new();
    tag.dump_to(&mut v).expect("dumping failed");
    v
}

fn items(tag: &Tag) -> Vec<(String, Data)> {
    tag.data().map(|(i, d)| (i.to_string(), d.clone())).collect()
}

