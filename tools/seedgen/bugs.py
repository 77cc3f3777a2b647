B = []
def bug(id, edits, needs, breaks, demo):
    B.append(dict(id=id, property=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo))

M='src/atom/mod.rs'; T='src/tag/mod.rs'; A='src/atom/mp4a.rs'; ME='src/atom/meta.rs'; I='src/atom/ilst.rs'; H='src/atom/head.rs'; ID='src/atom/ident.rs'; PR='proc/src/lib.rs'

bug('C01-a', [(M,'let name_len = 12 + name.len() as u64;','let name_len = 12 + name.chars().count() as u64;'),
 (M,'let name_len: u32 = 12 + name.len() as u32;','let name_len: u32 = 12 + name.chars().count() as u32;')],
 'a freeform identifier whose name has characters outside ASCII',
 'the length of the name atom counts characters instead of bytes, the written item list is corrupt',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])])]);
    let ident = FreeformIdent::new("org.example", "Stra\u{df}e");
    let mut tag = read(&file);
    tag.set_data(ident.clone(), Data::Utf8("value".into()));
    tag.set_title("title");
    let written = write(&tag, &file);
    let back = read(&written);
    assert_eq!(items(&back), items(&tag));
    assert_eq!(back.strings_of(&ident).next(), Some("value"));
}
''')

bug('C01-b', [('src/atom/ilst.rs','for a in self.iter() {','for a in self.iter().filter(|a| !a.is_empty()) {'),
 ('src/atom/ilst.rs','let content_len = self.iter().map(|a| a.len()).sum();','let content_len = self.iter().filter(|a| !a.is_empty()).map(|a| a.len()).sum();')],
 'an identifier all of whose values have length zero',
 'identifiers with only empty values are left out when writing',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])])]);
    let mut tag = read(&file);
    tag.set_title("title");
    tag.set_comment("");
    tag.set_album("album");
    let back = read(&write(&tag, &file));
    assert_eq!(items(&back), items(&tag));
    assert_eq!(back.comment(), Some(""));
}
''')

bug('C01-c', [('src/atom/data.rs','for c in s.encode_utf16() {','for c in s.chars().map(|c| c as u16) {')],
 'a utf-16 value with a character outside the basic multilingual plane',
 'characters which need a surrogate pair are cut to 16 bits and the value is shorter than its announced length',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])])]);
    let mut tag = read(&file);
    tag.set_data(Fourcc(*b"\xa9nam"), Data::Utf16("clef \u{1d11e}!".into()));
    tag.set_album("album");
    let back = read(&write(&tag, &file));
    assert_eq!(items(&back), items(&tag));
}
''')

bug('C02-a', [(M,'    if hdlr.is_none() {\n','    if hdlr.is_none() && ilst.is_none() {\n')],
 'a file whose metadata atom has an item list but no handler',
 'the missing handler atom is not created when there already is an item list',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&ilst(&[&atom(b"\xa9alb", &text("x"))])])])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    assert_eq!(items(&read(&written)), items(&tag));
    assert_eq!(written.windows(4).filter(|w| w == b"hdlr").count(), 1);
    assert_eq!(written.windows(4).filter(|w| w == b"mdir").count(), 1);
}
''')

bug('C02-b', [(M,'        if a.ext() {\n            writer.write_all(&u32::to_be_bytes(1))?;','        if a.ext() && new_len > u32::MAX as i64 {\n            writer.write_all(&u32::to_be_bytes(1))?;')],
 'an enclosing atom (moov, udta, meta) with a 64 bit length',
 'the 64 bit length of an enclosing atom is replaced by a 32 bit one although the head stays 16 bytes long',
r'''
fn main() {
    let m = full(b"meta", &cat(&[&hdlr(), &ilst(&[])]));
    let file = cat(&[&ftyp(), &atom64(b"moov", &cat(&[&mvhd(), &udta(&[&m])])), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    let moov_pos = ftyp().len();
    assert_eq!(&written[moov_pos..moov_pos + 8], b"\0\0\0\x01moov");
    let len = u64::from_be_bytes([0, 0, 0, 0, written[moov_pos + 12], written[moov_pos + 13], written[moov_pos + 14], written[moov_pos + 15]]);
    assert_eq!(moov_pos + len as usize + 18, written.len());
    assert_eq!(items(&read(&written)), items(&tag));
}
''')


C03_COMMON='''
fn chunk(file: &[u8], n: usize) -> Vec<u8> {
    // the bytes the n-th entry of all chunk offset tables points at
    let mut entries = Vec::new();
    for p in 0..file.len() - 4 {
        if &file[p..p + 4] == b"stco" {
            let u = |p: usize| u32::from_be_bytes([file[p], file[p + 1], file[p + 2], file[p + 3]]) as usize;
            for i in 0..u(p + 8) {
                entries.push(u(p + 12 + 4 * i));
            }
        }
    }
    file[entries[n]..entries[n] + 6].to_vec()
}
'''
bug('C03-a', [(M,'            MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),','            MEDIA_DATA if mdat.is_none() => mdat = Some(Mdat::find(reader, head.size())?),')],
 'media data atoms both before and after the movie atom',
 'the chunk offsets are only adjusted when the first media data atom lies behind the movie atom',
C03_COMMON+'''
fn main() {
    let build = |a: u32, b: u32| {
        let m = moov(&[&mvhd(), &trak(&[&table(&[a, b])]), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]);
        cat(&[&ftyp(), &atom(b"mdat", b"before"), &m, &atom(b"mdat", b"behind")])
    };
    let probe = build(0, 0);
    let file = build(find(&probe, b"before") as u32, find(&probe, b"behind") as u32);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    assert_eq!(chunk(&written, 0), b"before");
    assert_eq!(chunk(&written, 1), b"behind");
}
''')
bug('C03-b', [(M,'        let stbl_atoms = moov.trak.iter().filter_map(|a| {','        let stbl_atoms = moov.trak.iter().take(1).filter_map(|a| {')],
 'a file with more than one track and the media data behind the movie atom',
 'only the chunk offsets of the first track are adjusted',
C03_COMMON+r'''
fn main() {
    let build = |a: u32, b: u32| {
        let m = moov(&[&mvhd(), &trak(&[&table(&[a])]), &trak(&[&table(&[b])]), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]);
        cat(&[&ftyp(), &m, &atom(b"mdat", b"first second")])
    };
    let probe = build(0, 0);
    let file = build(find(&probe, b"first ") as u32, find(&probe, b"second") as u32);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    assert_eq!(chunk(&written, 0), b"first ");
    assert_eq!(chunk(&written, 1), b"second");
}
''')
bug('C03-c', [(M,'    if mdat_pos > moov.pos() {','    if mdat_pos > moov.pos() && len_diff > 0 {')],
 'a write that makes the metadata shorter, with the media data behind the movie atom',
 'chunk offsets are not adjusted when the metadata shrinks',
C03_COMMON+r'''
fn main() {
    let build = |a: u32| {
        let old = ilst(&[&atom(b"\xa9alb", &text("a long album title which goes away"))]);
        let m = moov(&[&mvhd(), &trak(&[&table(&[a])]), &udta(&[&meta(&[&hdlr(), &old])])]);
        cat(&[&ftyp(), &m, &atom(b"mdat", b"first second")])
    };
    let probe = build(0);
    let file = build(find(&probe, b"second") as u32);
    let mut tag = read(&file);
    tag.set_album("short");
    let written = write(&tag, &file);
    assert_eq!(chunk(&written, 0), b"second");
}
''')

bug('C04-a', [('src/atom/meta.rs','                HANDLER_REFERENCE => hdlr = Some(Hdlr::find(reader, head.size())?),','                HANDLER_REFERENCE if ilst.is_none() => {\n                    hdlr = Some(Hdlr::find(reader, head.size())?)\n                }'),
 (M,'''        if let Some(a) = new_hdlr {
            a.write(&mut writer)?;
        }
        new_ilst.write(&mut writer)?;''','''        new_ilst.write(&mut writer)?;
        if let Some(a) = new_hdlr {
            a.write(&mut writer)?;
        }''')],
 'a metadata atom without handler, or with the handler behind the item list, written more than once',
 'a handler behind the item list is not recognised and every write adds another one, the file grows with each write',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&ilst(&[])])])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    let once = write(&tag, &file);
    let twice = write(&tag, &once);
    assert_eq!(items(&read(&twice)), items(&tag));
    assert!(once == twice, "writing the same tag again changed the file");
}
''')
bug('C04-b', [(M,'    len_diff += new_atom_len as i64;','''    // the rest of the file stays in place if the gap can be filled with padding
    let padding = match (ilst, len_diff + new_atom_len as i64) {
        (Some(_), diff) if new_hdlr.is_none() && diff <= -8 => -diff as u64,
        _ => 0,
    };
    len_diff += (new_atom_len + padding) as i64;'''),
 (M,'        new_ilst.write(&mut writer)?;\n','''        new_ilst.write(&mut writer)?;
        if padding > 0 {
            write_head(&mut writer, Head::from(Size::from(padding - 8), FREE))?;
            writer.write_all(&vec![0; padding as usize - 8])?;
        }
''')],
 'metadata which gets at least 8 bytes shorter, followed by another write',
 'the gap left by shorter metadata becomes padding which is never removed, so the file depends on all earlier writes and grows',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]), &atom(b"mdat", b"0123456789")]);
    let mut long = read(&file);
    long.set_title("a title which is quite long");
    let mut short = long.clone();
    short.set_title("short");
    let direct = write(&short, &file);
    let history = write(&short, &write(&long, &file));
    assert_eq!(items(&read(&history)), items(&short));
    assert!(direct == history, "the file depends on an earlier tag");
}
''')

bug('C05-a', [(M,'                NAME => {\n','                NAME if mean.is_some() => {\n')],
 'a freeform item whose name atom precedes its mean atom',
 'the name is lost and the item gets the wrong identifier',
r'''
fn main() {
    let item = atom(b"----", &cat(&[&full(b"name", b"NAME"), &full(b"mean", b"org.example"), &text("value")]));
    let file = cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &ilst(&[&item])])])])]);
    let tag = read(&file);
    assert_eq!(tag.strings_of(&FreeformIdent::new("org.example", "NAME")).next(), Some("value"));
}
''')
bug('C05-b', [('src/atom/ilst.rs','let other = ilst.iter_mut().find(|o| atom.ident == o.ident);','let other = ilst.last_mut().filter(|o| atom.ident == o.ident);')],
 'two items of the same identifier with another item between them',
 'repeated items are only merged when they are adjacent, the values of the later ones are unreachable',
r'''
fn main() {
    let list = ilst(&[&atom(b"\xa9ART", &text("one")), &atom(b"\xa9alb", &text("album")), &atom(b"\xa9ART", &text("two"))]);
    let file = cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &list])])])]);
    let tag = read(&file);
    assert_eq!(tag.artists().collect::<Vec<_>>(), ["one", "two"]);
}
''')

bug('C06-a', [('src/atom/mvhd.rs','let duration = reader.read_u64()?;','let duration = reader.read_u64()? & u32::MAX as u64;')],
 'a version 1 movie header whose duration does not fit 32 bits',
 'the upper half of the 64 bit duration is ignored',
r'''
fn main() {
    let duration = 5_000_000_000u64;
    let m = atom(b"mvhd", &cat(&[&[1, 0, 0, 0], &[0; 16], &1000u32.to_be_bytes(), &duration.to_be_bytes(), &[0; 80]]));
    let tag = read(&cat(&[&ftyp(), &moov(&[&m])]));
    assert_eq!(tag.duration(), Some(std::time::Duration::from_secs(5_000_000)));
}
''')
bug('C06-b', [(M,'let mp4a = moov.trak.into_iter().find_map(|trak| {','let mp4a = moov.trak.into_iter().rev().find_map(|trak| {')],
 'a file with several audio tracks of different parameters',
 'the audio information of the last instead of the first audio track is reported',
r'''
fn main() {
    let a = trak(&[&stsd(&[&mp4a(4, 2, 128000, 120000)])]);
    let b = trak(&[&stsd(&[&mp4a(3, 1, 64000, 60000)])]);
    let tag = read(&cat(&[&ftyp(), &moov(&[&mvhd(), &a, &b])]));
    assert_eq!(tag.sample_rate(), Some(SampleRate::Hz44100));
    assert_eq!(tag.channel_config(), Some(ChannelConfig::Stereo));
    assert_eq!((tag.max_bitrate(), tag.avg_bitrate()), (Some(128000), Some(120000)));
}
''')

bug('C07-a', [('src/atom/mp4a.rs','    while head_len < 5 {\n','    loop {\n')],
 'a descriptor length of ten or more continuation bytes',
 'descriptor lengths are unbounded: the accumulated length overflows into a negative seek, the reader goes back and never ends',
r'''
fn main() {
    // a descriptor whose length is continued until it means seeking backwards to itself
    let neg = |n: i64| -> Vec<u8> {
        let n = n as u64;
        let mut v = vec![6u8];
        for i in (0..10).rev() {
            v.push((((n >> (7 * i)) & 0x7f) as u8) | if i > 0 { 0x80 } else { 0 });
        }
        v
    };
    let file = |es: &[u8]| {
        let d = cat(&[&[3, 100], &[0; 3], es, &[0; 120]]);
        cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&stsd(&[&mp4a_with(&d, &[])])])])])
    };
    for n in (-64..=-1).rev() {
        let bytes = file(&neg(n));
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let res = std::panic::catch_unwind(|| { let _ = try_read(&bytes); });
            let _ = tx.send(res.is_ok());
        });
        match rx.recv_timeout(std::time::Duration::from_secs(5)) {
            Ok(true) => (),
            Ok(false) => panic!("reading panicked for {}", n),
            Err(_) => panic!("reading does not end for {}", n),
        }
    }
}
''')
bug('C07-b', [('src/atom/head.rs','    } else if len < 8 {','    } else if len < 7 {')],
 'an atom whose length is exactly 7',
 'an atom length one too small for its head is accepted, the content length underflows',
r'''
fn main() {
    let mut free = atom(b"free", b"");
    free[3] = 7;
    let bytes = cat(&[&ftyp(), &free, &moov(&[&mvhd()])]);
    let res = std::panic::catch_unwind(|| try_read(&bytes).map(|_| ()));
    match res {
        Ok(Err(e)) => assert!(matches!(e.kind, ErrorKind::Parsing), "{}", e),
        Ok(Ok(())) => panic!("accepted"),
        Err(_) => panic!("panicked"),
    }
}
''')
bug('C08-a', [(M,'''    // update existing ilst hierarchy atom lengths
    for a in update_atoms.iter().rev() {
        let new_len = a.len() as i64 + len_diff;
        writer.seek(SeekFrom::Start(a.pos()))?;
        if a.ext() {
            writer.write_all(&u32::to_be_bytes(1))?;
            writer.seek(SeekFrom::Current(4))?;
            writer.write_all(&u64::to_be_bytes(new_len as u64))?;
        } else {
            writer.write_all(&u32::to_be_bytes(new_len as u32))?;
        }
    }

''',''),
(M,'''    // adjusting sample table chunk offsets, the file isn't''','''    // update existing ilst hierarchy atom lengths
    let mut writer = BufWriter::new(file);
    for a in update_atoms.iter().rev() {
        let new_len = a.len() as i64 + len_diff;
        writer.seek(SeekFrom::Start(a.pos()))?;
        if a.ext() {
            writer.write_all(&u32::to_be_bytes(1))?;
            writer.seek(SeekFrom::Current(4))?;
            writer.write_all(&u64::to_be_bytes(new_len as u64))?;
        } else {
            writer.write_all(&u32::to_be_bytes(new_len as u32))?;
        }
    }
    writer.flush()?;

    // adjusting sample table chunk offsets, the file isn't'''),
(M,'''    let mut writer = BufWriter::new(file);

    for (table_pos''','''    for (table_pos''')],
 'a chunk offset table the write refuses (unknown version, wrong count, overflow) in a file whose media data lies behind the movie atom',
 'the lengths of the enclosing atoms are changed before the chunk offset tables are checked, a refused write leaves a damaged file',
r'''
fn main() {
    let bad = full(b"stco", &cat(&[&5u32.to_be_bytes(), &[0; 4]]));
    let m = moov(&[&mvhd(), &trak(&[&bad]), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]);
    let file = cat(&[&ftyp(), &m, &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    let (res, after) = try_write(&tag, &file);
    assert!(res.is_err());
    assert!(after == file, "a refused write changed the file");
}
''')
bug('C08-b', [(M,'            let head = parse_head(reader)?;\n\n        match head.fourcc() {\n            MOVIE => moov','') ] if False else
 [('src/atom/moov.rs','''                TRACK => trak.push(Trak::find(reader, head.size())?),
                USER_DATA => udta = Some(Udta::find(reader, head.size())?),
                _ => {
                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;
                }
            }

            parsed_bytes += head.len();
        }

        Ok(Self::Bounds { bounds, trak, udta })''','''                TRACK => trak.push(Trak::find(reader, head.size())?),
                USER_DATA => {
                    udta = Some(Udta::find(reader, head.size())?);
                    // nothing else is needed, the user data comes last
                    seek_to_end(reader, &bounds)?;
                    break;
                }
                _ => {
                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;
                }
            }

            parsed_bytes += head.len();
        }

        Ok(Self::Bounds { bounds, trak, udta })''')],
 'a track behind the user data atom',
 'tracks behind the user data are not looked at when writing: their chunk offsets are neither checked nor adjusted',
r'''
fn main() {
    let bad = full(b"stco", &cat(&[&5u32.to_be_bytes(), &[0; 4]]));
    let build = |t: &[u8]| {
        let m = moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])]), &trak(&[t])]);
        cat(&[&ftyp(), &m, &atom(b"mdat", b"0123456789")])
    };
    let file = build(&bad);
    let mut tag = read(&file);
    tag.set_title("title");
    let (res, after) = try_write(&tag, &file);
    assert!(res.is_err(), "a contradictory chunk offset table was accepted");
    assert!(after == file);
    let probe = build(&table(&[0]));
    let file = build(&table(&[find(&probe, b"345") as u32]));
    let after = write(&tag, &file);
    let p = find(&after, b"stco") + 12;
    let offset = u32::from_be_bytes([after[p], after[p + 1], after[p + 2], after[p + 3]]) as usize;
    assert_eq!(&after[offset..offset + 3], b"345");
}
''')

bug('C09-a', [(T,'        let mut file = File::create(path)?;','        let mut file = OpenOptions::new().create(true).write(true).open(path)?;')],
 'dumping to a path where a longer file exists',
 'the remnants of the previous file stay behind the dump',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_title("title");
    let path = scratch("dump");
    std::fs::write(&path, vec![0xaa; 5000]).unwrap();
    tag.dump_to_path(&path).unwrap();
    assert!(std::fs::read(&path).unwrap() == dump(&tag));
}
''')
bug('C09-b', [(T,'        atom::dump_tag_to(writer, &self.atoms)','        atom::dump_tag_to(writer, &self.ftyp, &self.atoms)'),
 (M,'pub(crate) fn dump_tag_to(writer: &mut impl Write, atoms: &[AtomData]) -> crate::Result<()> {\n    let ftyp = Ftyp("M4A \\u{0}\\u{0}\\u{2}\\u{0}isomiso2".to_owned());',
  'pub(crate) fn dump_tag_to(writer: &mut impl Write, ftyp: &str, atoms: &[AtomData]) -> crate::Result<()> {\n    let ftyp = match ftyp {\n        "" => Ftyp("M4A \\u{0}\\u{0}\\u{2}\\u{0}isomiso2".to_owned()),\n        f => Ftyp(f.to_owned()),\n    };')],
 'a tag read from a file with another file type than the one of dumps',
 'the dump contains the file type of the file the tag was read from instead of depending only on the metadata',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_title("title");
    let mut other = read(&cat(&[&atom(b"ftyp", b"M4V \0\0\0\x01mp42"), &moov(&[&mvhd()])]));
    other.set_title("title");
    assert!(dump(&tag) == dump(&other));
}
''')
bug('C09-c', [('src/atom/meta.rs','''        if let Some(a) = &self.ilst {
            a.write(writer)?;''','''        if let Some(a) = self.ilst.as_ref().filter(|a| !a.iter().all(AtomData::is_empty)) {
            a.write(writer)?;'''),
 ('src/atom/meta.rs','        let content_len = self.hdlr.len_or_zero() + self.ilst.len_or_zero();','''        let ilst_len = match &self.ilst {
            Some(a) if !a.iter().all(AtomData::is_empty) => a.len(),
            _ => 0,
        };
        let content_len = self.hdlr.len_or_zero() + ilst_len;''')],
 'dumping an empty tag, or one with only empty values',
 'the dump lacks the item list (and the identifiers with empty values)',
r'''
fn main() {
    find(&dump(&Tag::default()), b"ilst");
    let mut tag = Tag::default();
    tag.set_comment("");
    assert_eq!(items(&read(&dump(&tag))), items(&tag));
}
''')

bug('C10-a', [(M,'    writer.write_all(&moved_data)?;\n    writer.flush()?;\n','    writer.write_all(&moved_data)?;\n')],
 'a file system error (for example a size limit) on the last buffered bytes of a write',
 'the last part of the file is only written when the buffer is dropped, errors are lost and the write reports success',
r'''
extern "C" {
    fn syscall(number: i64, ...) -> i64;
}
static FAIL_AFTER: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(i64::MAX);

// Takes the place of write(2): the disk is full after FAIL_AFTER calls.
#[export_name = "write"]
pub unsafe extern "C" fn interposed(fd: i32, buf: *const u8, count: usize) -> isize {
    if fd > 2 && FAIL_AFTER.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) <= 0 {
        return syscall(1, -1i32, buf, count) as isize; // EBADF
    }
    syscall(1, fd, buf, count) as isize
}

fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9alb", &text("x"))])])])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_album("another album");
    let good = write_file(&tag, &file, i64::MAX).1;
    let mut finished = false;
    for n in 0..50 {
        let (res, after) = write_file(&tag, &file, n);
        match res {
            Ok(()) => {
                assert!(after == good, "success reported although write {} failed", n);
                finished = true;
            }
            Err(_) => assert!(!finished),
        }
    }
    assert!(finished);
}

fn write_file(tag: &Tag, file: &[u8], limit: i64) -> (mp4ameta::Result<()>, Vec<u8>) {
    let path = scratch("full.m4a");
    std::fs::write(&path, file).unwrap();
    FAIL_AFTER.store(limit, std::sync::atomic::Ordering::SeqCst);
    let res = tag.write_to_path(&path);
    FAIL_AFTER.store(i64::MAX, std::sync::atomic::Ordering::SeqCst);
    (res, std::fs::read(&path).unwrap())
}
''')
bug('C10-b', [('src/atom/data.rs','''            Self::Utf8(s) => {
                writer.write_all(s.as_bytes())?;
            }
            Self::Utf16(s) => {''','''            Self::Utf8(s) => {
                writer.write(s.as_bytes())?;
            }
            Self::Utf16(s) => {''')],
 'dumping to a writer that accepts fewer bytes than offered while a utf-8 value is written',
 'the rest of a partially accepted string is not written, the dump is corrupt although success is reported',
r'''
struct Short(Vec<u8>);
impl Write for Short {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(7);
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut tag = Tag::default();
    tag.set_title("a somewhat longer title");
    let mut short = Short(Vec::new());
    tag.dump_to(&mut short).unwrap();
    assert!(short.0 == dump(&tag));
}
''')
bug('C10-c', [('src/atom/head.rs','    if let Err(e) = reader.read_exact(&mut *ident) {','    if let Err(e) = reader.read(&mut *ident) {')],
 'a reader that returns fewer bytes than requested (or ends) in the middle of an atom identifier',
 'a partially read identifier is taken as complete, the atom is misread or skipped',
r'''
struct Short(Cursor<Vec<u8>>, usize);
impl Read for Short {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1);
        self.0.read(&mut buf[..n])
    }
}
impl Seek for Short {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(pos)
    }
}
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9alb", &text("x"))])])])])]);
    let tag = read(&file);
    for n in 1..10 {
        let other = Tag::read_from(&mut Short(Cursor::new(file.clone()), n)).expect("short reads");
        assert_eq!(other, tag);
    }
}
''')

bug('C11-a', [(T,'self.retain_data_of(ident, |d| d.string().map_or(true, |s| predicate(s)))','self.retain_data_of(ident, |d| d.string().map_or(false, |s| predicate(s)))')],
 'retaining strings of an identifier that also has values of other kinds',
 'retaining strings drops the images and bytes of that identifier',
r'''
fn main() {
    let id = Fourcc(*b"test");
    let mut tag = Tag::default();
    tag.add_data(id, Data::Png(vec![1]));
    tag.add_data(id, Data::Utf8("keep".into()));
    tag.add_data(id, Data::Utf8("drop".into()));
    tag.retain_strings_of(&id, |s| s == "keep");
    assert_eq!(tag.data_of(&id).cloned().collect::<Vec<_>>(), [Data::Png(vec![1]), Data::Utf8("keep".into())]);
}
''')
bug('C11-b', [(T,'                let removed = self.atoms.remove(i);','                let removed = self.atoms.swap_remove(i);')],
 'taking an identifier that is followed by at least two others',
 'taking moves the last identifier to the place of the taken one',
r'''
fn main() {
    let mut tag = Tag::default();
    for i in 0..4 {
        tag.set_data(Fourcc([b'a' + i, 0, 0, 0]), Data::Reserved(vec![i]));
    }
    let _ = tag.take_data_of(&Fourcc(*b"a\0\0\0")).count();
    assert_eq!(tag.bytes().map(|(_, b)| b[0]).collect::<Vec<_>>(), [1, 2, 3]);
}
''')
bug('C11-c', [(T,'''            if a.data.is_empty() {
                self.atoms.remove(i);
            } else {
                i += 1;
            }''','''            if a.data.is_empty() {
                self.atoms.remove(i);
            }
            i += 1;''')],
 'retaining in the whole tag where an identifier loses all values and the next one has values to drop',
 'the identifier following a removed one is skipped and keeps values that do not match',
r'''
fn main() {
    let mut tag = Tag::default();
    for i in 0..4 {
        tag.set_data(Fourcc([b'a' + i, 0, 0, 0]), Data::Reserved(vec![i]));
    }
    tag.retain_bytes(|_, b| b[0] == 3);
    assert_eq!(tag.bytes().map(|(_, b)| b[0]).collect::<Vec<_>>(), [3]);
}
''')
bug('C12-a', [(T,'''    pub fn advisory_rating(&self) -> Option<AdvisoryRating> {
        let vec = self.bytes_of(&ident::ADVISORY_RATING).next()?;

        if vec.is_empty() {
            return None;
        }

''','''    pub fn advisory_rating(&self) -> Option<AdvisoryRating> {
        let vec = self.bytes_of(&ident::ADVISORY_RATING).next()?;

''')],
 'an advisory rating atom with an empty value',
 'the advisory rating getter panics on an empty value',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_data(ident::ADVISORY_RATING, Data::Reserved(vec![]));
    assert_eq!(tag.advisory_rating(), None);
}
''')
bug('C12-b', [('proc/src/lib.rs','''    pub fn remove_{vip}(&mut self) {{
        self.remove_data_of(&{ai});''','''    pub fn remove_{vip}(&mut self) {{
        self.remove_strings_of(&{ai});''')],
 'removing a multi-valued string atom that also holds other data',
 'remove only deletes the strings, other values of the atom stay',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.add_artist("artist");
    tag.add_data(ident::ARTIST, Data::Reserved(vec![1, 2]));
    tag.set_title("title");
    tag.remove_artists();
    assert_eq!(tag.data_of(&ident::ARTIST).count(), 0);
    assert_eq!(tag.title(), Some("title"));
}
''')
bug('C12-c', [('proc/src/lib.rs','''        let vec: Vec<u8> = {vi}.to_be_bytes().to_vec();
        self.set_data({ai}, Data::BeSigned(vec));$END''','''        let mut vec: Vec<u8> = {vi}.to_be_bytes().to_vec();
        if vec[0] == 0xff {{
            // drop redundant sign bytes
            vec.remove(0);
        }}
        self.set_data({ai}, Data::BeSigned(vec));$END''')],
 'a 32 bit integer value (episode, season) of at least 0xff000000',
 'values with the highest byte 0xff are stored in 3 bytes and are absent when read',
r'''
fn main() {
    for v in [0, 1, 0x00ff_ffff, 0xff00_0000, u32::MAX] {
        let mut tag = Tag::default();
        tag.set_tv_episode(v);
        assert_eq!(tag.tv_episode(), Some(v));
    }
}
''')
bug('C13-b', [('src/tag/tuple.rs','''    pub fn set_track(&mut self, track_number: u16, total_tracks: u16) {
        let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
        match vec {
            Some(v) => {
                set_total(v, total_tracks);
                set_number(v, track_number);
            }
            None => self.set_new_track(track_number, total_tracks),
        }
    }''','''    pub fn set_track(&mut self, track_number: u16, total_tracks: u16) {
        self.set_new_track(track_number, total_tracks);
    }''')],
 'a track atom with other bytes around the numbers (as iTunes writes them)',
 'setting track number and total discards the remaining bytes of the existing value',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_data(ident::TRACK_NUMBER, Data::Reserved(vec![9, 8, 0, 1, 0, 2, 7, 6]));
    tag.set_track(3, 4);
    assert_eq!(tag.track(), (Some(3), Some(4)));
    assert_eq!(tag.bytes_of(&ident::TRACK_NUMBER).next(), Some(&[9u8, 8, 0, 3, 0, 4, 7, 6][..]));
}
''')
bug('C13-c', [('src/tag/tuple.rs','''fn total(vec: &[u8]) -> Option<u16> {
    be_int!(vec, 4, u16)''','''fn total(vec: &[u8]) -> Option<u16> {
    be_int!(vec, 5, u8).map(u16::from)''')],
 'a total of 256 or more',
 'totals are read from one byte only',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_track(299, 300);
    assert_eq!(tag.track(), (Some(299), Some(300)));
    tag.set_total_discs(256);
    assert_eq!(tag.total_discs(), Some(256));
}
''')
bug('C14-a', [('src/tag/genre.rs','if c > 0 && c <= STANDARD_GENRES.len() {','if c > 0 && c < STANDARD_GENRES.len() {')],
 'the standard genre code 80',
 'the last standard genre has no name',
r'''
fn main() {
    for c in 1..=80 {
        let mut tag = Tag::default();
        tag.set_standard_genre(c);
        assert_eq!(tag.genre(), Some(STANDARD_GENRES[c as usize - 1]));
    }
}
''')
bug('C14-b', [('src/tag/genre.rs','        self.add_custom_genre(genre.into());','''        let genre = genre.into();
        match STANDARD_GENRES.iter().position(|g| *g == genre) {
            Some(i) => self.add_standard_genre(i as u16 + 1),
            None => self.add_custom_genre(genre),
        }''')],
 'adding a genre whose name is one of the standard genres',
 'such a genre becomes a standard genre code in front of the custom genres instead of an appended custom genre',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.add_genre("Something");
    tag.add_genre("Blues");
    assert_eq!(tag.genres().collect::<Vec<_>>(), ["Something", "Blues"]);
    assert_eq!(tag.custom_genres().collect::<Vec<_>>(), ["Something", "Blues"]);
}
''')
bug('C15-a', [('src/types.rs','const SHORT_FILM: u8 = 9;','const SHORT_FILM: u8 = 8;')],
 'the media type short film',
 'short films are stored as and read from another code than the documented one',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_data(ident::MEDIA_TYPE, Data::Reserved(vec![9]));
    assert_eq!(tag.media_type(), Some(MediaType::ShortFilm));
    tag.set_media_type(MediaType::ShortFilm);
    assert_eq!(tag.bytes_of(&ident::MEDIA_TYPE).next(), Some(&[9u8][..]));
}
''')
bug('C15-b', [('src/types.rs','            Self::SevenOne => 8,','            Self::SevenOne => 7,')],
 'the channel configuration 7.1',
 'a wrong number of channels',
r'''
fn main() {
    assert_eq!(ChannelConfig::SevenOne.channel_count(), 8);
    assert_eq!(ChannelConfig::FiveOne.channel_count(), 6);
}
''')
bug('C16-a', [('src/atom/data.rs','''    pub fn bytes_mut(&mut self) -> Option<&mut Vec<u8>> {
        match self {
            Self::Reserved(v) => Some(v),
            Self::BeSigned(v) => Some(v),
''','''    pub fn bytes_mut(&mut self) -> Option<&mut Vec<u8>> {
        match self {
            Self::Reserved(v) => Some(v),
''')],
 'mutable access to a signed integer value',
 'signed integers have no mutable view although they are bytes',
r'''
fn main() {
    let mut d = Data::BeSigned(vec![1]);
    assert!(d.is_bytes() && d.bytes().is_some());
    d.bytes_mut().expect("no mutable view").push(2);
    assert_eq!(d, Data::BeSigned(vec![1, 2]));
}
''')
bug('C16-b', [('src/atom/data.rs','''    pub fn into_image(self) -> Option<ImgBuf> {
        match self {
            Self::Jpeg(v) => Some(Img::new(ImgFmt::Jpeg, v)),
            Self::Png(v) => Some(Img::new(ImgFmt::Png, v)),
            Self::Bmp(v) => Some(Img::new(ImgFmt::Bmp, v)),''','''    pub fn into_image(self) -> Option<ImgBuf> {
        match self {
            Self::Jpeg(v) => Some(Img::new(ImgFmt::Jpeg, v)),
            Self::Png(v) | Self::Bmp(v) => Some(Img::new(ImgFmt::Png, v)),''')],
 'consuming a bmp value',
 'the consuming view turns bmp images into png images',
r'''
fn main() {
    assert_eq!(Data::Bmp(vec![1]).into_image(), Some(Img::bmp(vec![1])));
    assert_eq!(Data::Png(vec![1]).into_image(), Some(Img::png(vec![1])));
    let mut tag = Tag::default();
    tag.add_artwork(Img::bmp(vec![5]));
    assert_eq!(tag.take_artwork(), Some(Img::bmp(vec![5])));
}
''')
bug('C17-a', [('proc/src/lib.rs','        if self.{vip}().count() > 1 {{','        if self.{vip}().count() > 2 {{')],
 'displaying exactly two values of a multi-valued accessor',
 'the second of two values is not displayed',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.add_artist("first artist");
    tag.add_artist("second artist");
    let s = tag.to_string();
    assert!(s.contains("first artist") && s.contains("second artist"), "{}", s);
}
''')
bug('C17-b', [('src/tag/readonly.rs','        let minutes = total_seconds / 60 % 60;','        let minutes = total_seconds / 60;')],
 'displaying a duration of at least an hour',
 'the minutes include those of the full hours',
r'''
fn main() {
    let m = full(b"mvhd", &cat(&[&[0; 8], &1u32.to_be_bytes(), &7384u32.to_be_bytes(), &[0; 80]]));
    let s = read(&cat(&[&ftyp(), &moov(&[&m])])).to_string();
    assert!(s.contains("duration: 2:03:04"), "{}", s);
}
''')
bug('C17-c', [(T,'                for d in a.data.iter() {\n                    writeln!(f, "    {:?}", d)?;\n                }','                if let Some(d) = a.data.first() {\n                    writeln!(f, "    {:?}", d)?;\n                }')],
 'a freeform atom with several values',
 'only the first value of a freeform atom is displayed',
r'''
fn main() {
    let mut tag = Tag::default();
    let id = FreeformIdent::new("mean", "name");
    tag.add_data(id.clone(), Data::Utf8("one".into()));
    tag.add_data(id.clone(), Data::Utf8("two".into()));
    let s = tag.to_string();
    assert!(s.contains("one") && s.contains("two"), "{}", s);
}
''')
bug('C18-a', [('src/atom/ident.rs','            DataIdent::Freeform { mean, name } => self.mean == mean && self.name == name,','            DataIdent::Freeform { mean, name } => {\n                self.mean == mean && self.name.eq_ignore_ascii_case(name)\n            }')],
 'two freeform identifiers that differ only in the case of the name',
 'borrowed freeform identifiers ignore the case of the name, different atoms are mixed up',
r'''
fn main() {
    let a = FreeformIdent::new("mean", "Name");
    let b = DataIdent::freeform("mean", "NAME");
    assert!(a != b);
    assert!(!mp4ameta::ident::idents_match(&a, &b));
    let mut tag = Tag::default();
    tag.set_data(b.clone(), Data::Utf8("x".into()));
    assert_eq!(tag.strings_of(&a).next(), None);
}
''')
bug('C18-b', [('src/atom/ident.rs','    a.fourcc() == b.fourcc() && a.freeform() == b.freeform()','    a.fourcc() == b.fourcc()\n        && a.freeform().map(|i| i.to_string()) == b.freeform().map(|i| i.to_string())')],
 'freeform identifiers with a colon in the mean or name',
 'the match function compares the displayed form, in which a colon may belong to the mean or the name',
r'''
fn main() {
    let a = FreeformIdent::new("a:b", "c");
    let b = FreeformIdent::new("a", "b:c");
    assert!(a != b);
    assert!(!mp4ameta::ident::idents_match(&a, &b));
    assert!(mp4ameta::ident::idents_match(&a, &DataIdent::from(&a)));
}
''')
bug('C19-a', [('src/atom/head.rs','        self.pos + self.head_len()','        self.pos + 8')],
 'a chunk offset table with a 64 bit length in a file whose media data lies behind the movie atom',
 'the content of atoms with a 64 bit length is assumed to begin 8 bytes too early',
r'''
fn main() {
    let build = |wide: bool, a: u32| {
        let t = table(&[a]);
        let t = if wide { atom64(b"stco", &t[8..]) } else { t };
        cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&t]), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]), &atom(b"mdat", b"0123456789")])
    };
    for wide in [false, true].iter() {
        let file = build(*wide, find(&build(*wide, 0), b"345") as u32);
        let mut tag = Tag::default();
        tag.set_album("an album");
        let w = write(&tag, &file);
        assert_eq!(items(&read(&w)), items(&tag));
        let p = find(&w, b"stco") + if *wide { 20 } else { 12 };
        let o = u32::from_be_bytes([w[p], w[p + 1], w[p + 2], w[p + 3]]) as usize;
        assert_eq!(&w[o..o + 3], b"345");
    }
}
''')
bug('C19-b', [('src/atom/mp4a.rs','''        seek_to_end(reader, &bounds)?;

        Ok(mp4a)''','''        // the esds atom is the last child
        let _ = bounds;

        Ok(mp4a)''')],
 'another atom behind the esds atom in the audio sample entry, or a descriptor not filling the esds atom',
 'what follows the decoder descriptors in the audio sample entry is taken for the next sample entry',
r'''
fn main() {
    let specific = desc(5, &((2u16 << 11) | (4 << 7) | (2 << 3)).to_be_bytes());
    let config = cat(&[&[0x40, 0x15, 0, 0, 0], &7u32.to_be_bytes(), &9u32.to_be_bytes(), &specific]);
    let es = desc(3, &cat(&[&[0; 3], &desc(4, &config), &desc(6, &[2])]));
    let list = ilst(&[&atom(b"\xa9alb", &text("x"))]);
    let build = |entry: &[u8]| {
        let u = udta(&[&meta(&[&hdlr(), &list])]);
        cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&stsd(&[entry]), &table(&[])]), &u])])
    };
    let plain = read(&build(&mp4a_with(&es, &[])));
    assert_eq!(plain.max_bitrate(), Some(7));
    assert_eq!(read(&build(&mp4a_with(&es, &atom(b"btrt", &[0; 12])))), plain);
    assert_eq!(read(&build(&mp4a_with(&cat(&[&es, &[0; 4]]), &[]))), plain);
}
''')
bug('C19-c', [('src/atom/mp4a.rs','        len = (len << 7) | (b & 0x7F) as u64;','        len = (len << 8) | (b & 0x7F) as u64;')],
 'a descriptor whose length takes more than one significant byte',
 'descriptor lengths of 128 bytes or more are misread',
r'''
fn main() {
    let specific = desc(5, &((2u16 << 11) | (4 << 7) | (2 << 3)).to_be_bytes());
    let config = cat(&[&[0x40, 0x15, 0, 0, 0], &7u32.to_be_bytes(), &9u32.to_be_bytes(), &specific]);
    let mut unknown = vec![0x13, 0x81, 0x10];
    unknown.extend(vec![0; 144]);
    let content = cat(&[&[0; 3], &unknown, &desc(4, &config)]);
    let mut es = vec![3, 0x80 | (content.len() >> 7) as u8, (content.len() & 0x7f) as u8];
    es.extend(content);
    let tag = read(&cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&stsd(&[&mp4a_with(&es, &[])])])])]));
    assert_eq!((tag.max_bitrate(), tag.avg_bitrate()), (Some(7), Some(9)));
    assert_eq!(tag.sample_rate(), Some(SampleRate::Hz44100));
}
''')
bug('C20-a', [(M,'''                DATA => {
                    let (version, flags) = parse_full_head(reader)?;
                    if version != 0 {''','''                DATA => {
                    let (version, flags) = parse_full_head(reader)?;
                    if version > 1 {''')],
 'a data atom of version 1',
 'an unknown version of the data atom is accepted',
r'''
fn main() {
    let mut d = text("x");
    d[8] = 1;
    let file = cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9alb", &d)])])])])]);
    match try_read(&file) {
        Err(e) => assert!(matches!(e.kind, ErrorKind::UnknownVersion(1)), "{}", e),
        Ok(_) => panic!("accepted"),
    }
}
''')
bug('C20-b', [('src/atom/data.rs','        Ok(String::from_utf8(data)?)','        Ok(String::from_utf8_lossy(&data).into_owned())')],
 'text that is not valid utf-8',
 'invalid text is silently replaced instead of rejected',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9alb", &data(1, b"a\xffb"))])])])])]);
    match try_read(&file) {
        Err(e) => assert!(matches!(e.kind, ErrorKind::Utf8StringDecoding(_)), "{}", e),
        Ok(_) => panic!("accepted"),
    }
}
''')
bug('C20-c', [(M,'let datatype = u32::from_be_bytes([0, b2, b1, b0]);','let datatype = u32::from_be_bytes([0, 0, b1, b0 & !(b2 & 0)]);') ] if False else
 [(M,'''                    let [b2, b1, b0] = flags;
                    let datatype = u32::from_be_bytes([0, b2, b1, b0]);''','''                    let [_, _, b0] = flags;
                    let datatype = u32::from(b0);''')],
 'a data type above 255, for example 257',
 'only the lowest byte of the data type is looked at, an unknown type is misread as a known one',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9alb", &data(0x101, b"ab"))])])])])]);
    match try_read(&file) {
        Err(e) => assert!(matches!(e.kind, ErrorKind::UnknownDataType(0x101)), "{}", e),
        Ok(_) => panic!("accepted"),
    }
}
''')
bug('C20-d', [('src/atom/meta.rs','''        let bounds = find_bounds(reader, size)?;
        let (version, _) = parse_full_head(reader)?;

        if version != 0 {
            return Err(crate::Error::new(
                ErrorKind::UnknownVersion(version),
                "Unknown metadata (meta) version".to_owned(),
            ));
        }
''','''        let bounds = find_bounds(reader, size)?;
        // the version has been checked when the tag was read
        parse_full_head(reader)?;
''')],
 'writing a tag to a file with an unknown version of the metadata atom',
 'the write is not refused although reading refuses that file',
r'''
fn main() {
    let mut m = meta(&[&hdlr(), &ilst(&[])]);
    m[8] = 3;
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&m])])]);
    let mut tag = Tag::default();
    tag.set_title("title");
    let (res, after) = try_write(&tag, &file);
    match res {
        Err(e) => assert!(matches!(e.kind, ErrorKind::UnknownVersion(3)), "{}", e),
        Ok(_) => panic!("accepted"),
    }
    assert!(after == file);
}
''')
EOFK='''Err(e) if matches!(&e.kind, ErrorKind::Io(i) if i.kind() == std::io::ErrorKind::UnexpectedEof)'''
bug('C21-a', [('src/atom/ilst.rs','            let head = parse_head(reader)?;\n','            let head = match parse_head(reader) {\n                Ok(h) => h,\n                // tolerate a list that claims to be longer than it is\n                '+EOFK+' => {\n                    break;\n                }\n                Err(e) => return Err(e),\n            };\n')],
 'a file that ends between two items (or in the head of an item) of the item list, which is the last thing in the file',
 'items which are missing at the end of the file are silently dropped',
r'''
fn main() {
    let list = ilst(&[&atom(b"\xa9alb", &text("album")), &atom(b"\xa9ART", &text("artist"))]);
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &list])])])]);
    let tag = read(&file);
    for n in 0..file.len() {
        if let Ok(t) = try_read(&file[..n]) {
            assert_eq!(t, tag, "first {} of {} bytes", n, file.len());
        }
    }
}
''')
bug('C21-b', [('src/atom/mp4a.rs','    parse_es_desc(reader, info, min(desc_len, max_len))?;\n','    match parse_es_desc(reader, info, min(desc_len, max_len)) {\n        // tolerate encoders which cut the descriptors short\n        Err(crate::Error { kind: crate::ErrorKind::Io(_), .. }) => (),\n        res => res?,\n    }\n')],
 'a file that ends within the decoder descriptors of the last track, with the movie as last atom and nothing behind the sample entry',
 'the audio information which is missing at the end of the file is silently dropped',
r'''
fn main() {
    let t = trak(&[&stsd(&[&mp4a(4, 2, 128000, 120000)])]);
    let u = udta(&[&meta(&[&hdlr(), &ilst(&[])])]);
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &u, &t])]);
    let tag = read(&file);
    for n in 0..file.len() {
        if let Ok(t) = try_read(&file[..n]) {
            assert_eq!(t, tag, "first {} of {} bytes", n, file.len());
        }
    }
}
''')

I='src/atom/ilst.rs'; D='src/atom/data.rs'; ME='src/atom/meta.rs'
FILE='    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])])]);\n'

bug('C01-d', [(D,'UTF16 => Data::Utf16(reader.read_utf16(len)?),','UTF16 => Data::Utf16(reader.read_utf16(len)?.trim_start_matches(\'\\u{feff}\').to_owned()),')],
 'a utf-16 value that begins with U+FEFF',
 'the first character of such a value is taken for a byte order mark and lost',
r'''
fn main() {
'''+FILE+r'''    let mut tag = read(&file);
    tag.set_data(Fourcc(*b"\xa9nam"), Data::Utf16("\u{feff}x".into()));
    let back = read(&write(&tag, &file));
    assert_eq!(items(&back), items(&tag));
}
''')

bug('C01-e', [(I,'let other = ilst.iter_mut().find(|o| atom.ident == o.ident);','let other = ilst.iter_mut().find(|o| match (&atom.ident, &o.ident) {\n                        (DataIdent::Fourcc(a), DataIdent::Fourcc(b)) => a.eq_ignore_ascii_case(&b[..]),\n                        (a, b) => a == b,\n                    });')],
 'two four-character identifiers that differ only in the case of letters',
 'values of one are read as values of the other',
r'''
fn main() {
'''+FILE+r'''    let mut tag = read(&file);
    tag.set_data(Fourcc(*b"desc"), Data::Utf8("a".into()));
    tag.set_data(Fourcc(*b"Desc"), Data::Utf8("b".into()));
    let back = read(&write(&tag, &file));
    assert_eq!(items(&back), items(&tag));
}
''')

bug('C02-c', [(ME,'HANDLER_REFERENCE => hdlr = Some(Hdlr::find(reader, head.size())?),','HANDLER_REFERENCE if head.content_len() >= 24 => {\n                    hdlr = Some(Hdlr::find(reader, head.size())?)\n                }')],
 'a handler atom shorter than usual (without component flags and name)',
 'a short handler is not recognised and a second one is added',
r'''
fn main() {
    let h = full(b"hdlr", b"\0\0\0\0mdirappl");
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&h, &ilst(&[])])])])]);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    assert_eq!(written.windows(4).filter(|w| w == b"hdlr").count(), 1);
}
''')

bug('C03-d', [(M,'            if let Some(a) = &stbl.co64 {\n','            if let (Some(a), None) = (&stbl.co64, &stbl.stco) {\n')],
 'a sample table with both a 32 bit and a 64 bit chunk offset table',
 'only the 32 bit table is adjusted',
C03_COMMON+r'''
fn main() {
    let build = |n: u64| {
        let mut t = 1u32.to_be_bytes().to_vec();
        t.extend_from_slice(&n.to_be_bytes());
        let co = full(b"co64", &t);
        let m = moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])]), &trak(&[&table(&[n as u32]), &co])]);
        cat(&[&ftyp(), &m, &atom(b"mdat", b"abcdefghijklmnop")])
    };
    let n = build(0).len() as u64 - 8;
    let file = build(n);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    let p = find(&written, b"co64") + 12;
    let mut b = [0; 8];
    b.copy_from_slice(&written[p..p + 8]);
    let o = u64::from_be_bytes(b) as usize;
    assert_eq!(&written[o..], b"ijklmnop");
}
''')

bug('C03-e', [(M,'        let stbl_atoms = moov.trak.iter().filter_map(|a| {','        let stbl_atoms = moov.trak.iter().take(8).filter_map(|a| {')],
 'a file with more than eight tracks',
 'only the chunk offsets of the first eight tracks are adjusted',
C03_COMMON+r'''
fn main() {
    let build = |n: u32| {
        let t: Vec<Vec<u8>> = (0..9).map(|_| trak(&[&table(&[n])])).collect();
        let m = moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])]), &t.concat()]);
        cat(&[&ftyp(), &m, &atom(b"mdat", b"abcdefghijklmnop")])
    };
    let file = build(build(0).len() as u32 - 16);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    for i in 0..9 {
        assert_eq!(chunk(&written, i), b"abcdef");
    }
}
''')

bug('C03-f', [(M,'let mdat_pos = mdat.map_or(0, |a| a.pos());','let mdat_pos = mdat.map_or(0, |a| a.pos() as u32 as u64);')],
 'a file larger than 4 GiB where the media data behind the movie begins beyond 4 GiB',
 'chunk offsets are not adjusted',
r'''
fn main() {
    // a sparse file: 4 GiB of media in front of the movie, a little behind it
    const HOLE: u64 = 1 << 32;
    let path = scratch("demo.m4a");
    let front = cat(&[&ftyp(), &1u32.to_be_bytes(), b"mdat", &(HOLE + 16).to_be_bytes()]);
    let build = |n: u64| {
        let mut t = 1u32.to_be_bytes().to_vec();
        t.extend_from_slice(&n.to_be_bytes());
        moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])]), &trak(&[&full(b"co64", &t)])])
    };
    let n = front.len() as u64 + HOLE + build(0).len() as u64 + 8;
    let mut f = std::fs::OpenOptions::new().create(true).read(true).write(true).open(&path).unwrap();
    f.write_all(&front).unwrap();
    f.seek(SeekFrom::Current(HOLE as i64)).unwrap();
    f.write_all(&cat(&[&build(n), &atom(b"mdat", b"abcdefghijklmnop")])).unwrap();
    drop(f);
    let mut tag = Tag::read_from_path(&path).unwrap();
    tag.set_title("title");
    tag.write_to_path(&path).unwrap();
    let mut f = std::fs::File::open(&path).unwrap();
    f.seek(SeekFrom::Start(front.len() as u64 + HOLE)).unwrap();
    let mut rest = Vec::new();
    f.read_to_end(&mut rest).unwrap();
    let p = find(&rest, b"co64") + 12;
    let mut b = [0; 8];
    b.copy_from_slice(&rest[p..p + 8]);
    let o = (u64::from_be_bytes(b) - front.len() as u64 - HOLE) as usize;
    assert_eq!(&rest[o..o + 4], b"abcd");
}
''')

bug('C04-c', [(M,'    len_diff += new_atom_len as i64;\n','    match len_diff + new_atom_len as i64 {\n        0 if mdat_pos < moov.pos() => {\n            // nothing moves, the item list can be overwritten in place\n            let mut writer = BufWriter::new(file);\n            writer.seek(SeekFrom::Start(new_atoms_start))?;\n            for a in atoms {\n                a.write(&mut writer)?;\n            }\n            writer.flush()?;\n            return Ok(());\n        }\n        diff => len_diff = diff,\n    }\n')],
 'writing metadata of exactly the length of the existing metadata, with the movie behind the media data',
 'the head of the item list is overwritten by its content',
r'''
fn main() {
    let file = cat(&[&ftyp(), &atom(b"mdat", b"0123456789"), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])])]);
    let mut tag = read(&file);
    tag.set_title("one");
    let once = write(&tag, &file);
    let twice = write(&tag, &once);
    assert!(once == twice);
}
''')

bug('C05-c', [(M,'            (FREEFORM, Some(mean), Some(name)) => DataIdent::Freeform { mean, name },','            (_, Some(mean), Some(name)) => DataIdent::Freeform { mean, name },')],
 'an item with a four-character identifier that has sub-atoms mean and name',
 'the item gets a freeform identifier',
r'''
fn main() {
    let it = atom(b"\xa9alb", &cat(&[&full(b"mean", b"m"), &full(b"name", b"n"), &text("album")]));
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&it])])])])]);
    assert_eq!(read(&file).album(), Some("album"));
}
''')

bug('C06-c', [('src/atom/mp4a.rs','    info.max_bitrate = Some(reader.read_u32()?);\n','    info.max_bitrate = Some(reader.read_u32()?).filter(|b| *b != u32::MAX);\n')],
 'a maximum bitrate of 0xffffffff',
 'that bitrate is reported as absent',
r'''
fn main() {
    let t = trak(&[&stsd(&[&mp4a(4, 2, u32::MAX, 120000)])]);
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &t])]);
    assert_eq!(read(&file).max_bitrate(), Some(u32::MAX));
}
''')

bug('C06-d', [(M,'''        trak.mdia
            .and_then(|mdia| mdia.minf)''','''        trak.mdia
            .or_else(Default::default)
            .and_then(|mdia| mdia.minf)'''),
 ('src/atom/stsd.rs','                MP4_AUDIO => stsd.mp4a = Some(Mp4a::parse(reader, head.size())?),\n','                MP4_AUDIO if parsed_bytes == 8 => {\n                    stsd.mp4a = Some(Mp4a::parse(reader, head.size())?)\n                }\n')],
 'an MPEG-4 audio sample entry behind another sample entry of the same track',
 'only the first sample entry is considered',
r'''
fn main() {
    let t = trak(&[&stsd(&[&atom(b"text", &[0; 20]), &mp4a(4, 2, 1000, 900)])]);
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &t])]);
    assert_eq!(read(&file).max_bitrate(), Some(1000));
}
''')

bug('C07-c', [('src/tag/readonly.rs','let total_seconds = duration.as_secs();','let total_seconds = (duration.as_secs() * 1_000 + duration.subsec_millis() as u64) / 1_000;')],
 'a duration of more than 2^64 milliseconds',
 'displaying the tag panics (arithmetic overflow)',
r'''
fn main() {
    let mv = cat(&[&[1, 0, 0, 0], &[0; 16], &1u32.to_be_bytes(), &(u64::MAX - 1).to_be_bytes(), &[0; 80]]);
    let file = cat(&[&ftyp(), &moov(&[&atom(b"mvhd", &mv)])]);
    let tag = read(&file);
    assert!(tag.to_string().contains("duration: "));
}
''')

bug('C08-c', [(M,'            MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),\n','            MEDIA_DATA => {\n                let bounds = Mdat::find(reader, head.size())?;\n                let end = bounds.end();\n                if parsed_bytes + head.len() > len && moov.is_some() {\n                    // the last media data atom has not been written completely\n                    file.set_len(end)?;\n                }\n                mdat = Some(bounds)\n            }\n')],
 'a file that ends in the middle of the media data atom behind the movie',
 'the file is extended even when the write is refused afterwards',
r'''
fn main() {
    let mut m = meta(&[&hdlr(), &ilst(&[])]);
    m[8] = 0;
    let mut t = table(&[1, 2]);
    t[15] = 9;
    let mut file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&m]), &trak(&[&t])]), &atom(b"mdat", &[7; 100])]);
    let n = file.len();
    file.truncate(n - 60);
    let mut tag = Tag::default();
    tag.set_title("title");
    let (res, after) = try_write(&tag, &file);
    assert!(res.is_err());
    assert!(after == file);
}
''')

bug('C09-d', [(M,'''            DataIdent::Freeform { mean, name } => {
                let mean_len = 12 + mean.len() as u64;
                let name_len = 12 + name.len() as u64;
''','''            DataIdent::Freeform { mean, name } => {
                let mean_len = 12 + mean.len() as u64;
                let name_len = if name.is_empty() { 0 } else { 12 + name.len() as u64 };
'''),(M,'''                let name_len: u32 = 12 + name.len() as u32;
                writer.write_all(&u32::to_be_bytes(name_len))?;
                writer.write_all(NAME.deref())?;
                writer.write_all(&[0u8; 4])?;
                writer.write_all(name.as_bytes())?;
''','''                if !name.is_empty() {
                    let name_len: u32 = 12 + name.len() as u32;
                    writer.write_all(&u32::to_be_bytes(name_len))?;
                    writer.write_all(NAME.deref())?;
                    writer.write_all(&[0u8; 4])?;
                    writer.write_all(name.as_bytes())?;
                }
''')],
 'a freeform identifier with an empty name',
 'the name atom is left out, the item is read back as the four-character identifier ----',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_data(FreeformIdent::new("org.example", ""), Data::Utf8("x".into()));
    let back = read(&dump(&tag));
    assert_eq!(items(&back), items(&tag));
}
''')

bug('C11-d', [(T,'            Some(a) => a.data.extend(data),\n','            Some(a) => {\n                for d in data {\n                    if !a.data.contains(&d) {\n                        a.data.push(d);\n                    }\n                }\n            }\n')],
 'adding several values of which one is already present',
 'values that are already present are not added',
r'''
fn main() {
    let mut tag = Tag::default();
    let i = Fourcc(*b"test");
    tag.add_all_data(i, vec![Data::Utf8("a".into()), Data::Utf8("b".into())]);
    tag.add_all_data(i, vec![Data::Utf8("a".into())]);
    assert_eq!(tag.strings_of(&i).collect::<Vec<_>>(), ["a", "b", "a"]);
}
''')

bug('C17-d', [(T,'            if len < 1024 {\n','            if len <= 1024 {\n')],
 'displaying an artwork of exactly 1024 bytes',
 'the size is shown in bytes instead of kibibytes',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_artwork(Img::new(ImgFmt::Png, vec![0; 1024]));
    assert!(tag.to_string().contains("artwork: png 1k\n"), "{}", tag);
}
''')

bug('C17-e', [('src/tag/readonly.rs','        let minutes = total_seconds / 60 % 60;\n        let hours = total_seconds / 60 / 60;\n','        let minutes = total_seconds / 60 % 60;\n        let hours = total_seconds / 60 / 60 % 24;\n')],
 'displaying a duration of a day or more',
 'whole days are not shown',
r'''
fn main() {
    let mv = full(b"mvhd", &cat(&[&[0; 8], &1u32.to_be_bytes(), &90000u32.to_be_bytes(), &[0; 80]]));
    let file = cat(&[&ftyp(), &moov(&[&mv])]);
    assert!(read(&file).to_string().contains("duration: 25:00:00\n"));
}
''')

bug('C18-c', [('src/atom/ident.rs','        write!(f, "{}", self.0.iter().map(|b| char::from(*b)).collect::<String>())$END','        write!(f, "{}", self.0.iter().map(|b| char::from(*b)).filter(|c| !c.is_control()).collect::<String>())$END')],
 'an identifier with a byte that is a control character',
 'that byte is not displayed, different identifiers are displayed alike',
r'''
fn main() {
    assert_eq!(Fourcc(*b"\0abc").to_string(), "\0abc");
    assert_eq!(DataIdent::fourcc(*b"a\x85bc").to_string(), "a\u{85}bc");
}
''')

bug('C19-d', [(I,'AtomData::parse(reader, head.fourcc(), head.content_len())?','AtomData::parse(reader, head.fourcc(), head.len() - 8)?')],
 'an item with a 64 bit length',
 'the content of the item is taken to be 8 bytes longer than it is',
r'''
fn main() {
    let it = cat(&[&atom64(b"\xa9alb", &text("album")), &atom(b"\xa9nam", &text("title"))]);
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&it])])])])]);
    let tag = read(&file);
    assert_eq!((tag.album(), tag.title()), (Some("album"), Some("title")));
}
''')

bug('C19-f', [(M,'''            MOVIE => {
                break Moov::parse(reader, head.size())?;
            }
            _ => {
                reader.seek(SeekFrom::Current(head.content_len() as i64))?;
            }''','''            MOVIE => {
                break Moov::parse(reader, head.size())?;
            }
            _ => {
                reader.seek(SeekFrom::Current(head.content_len() as i32 as i64))?;
            }''')],
 'an atom of 2 GiB or more (usually the media data) in front of the movie',
 'the end of that atom is not found and reading fails',
r'''
/// bytes, then a hole of zeros, then bytes
struct Sparse { a: Vec<u8>, hole: u64, b: Vec<u8>, pos: u64 }
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let (a, end) = (self.a.len() as u64, self.a.len() as u64 + self.hole);
        let mut n = 0;
        while n < buf.len() {
            buf[n] = if self.pos < a {
                self.a[self.pos as usize]
            } else if self.pos < end {
                0
            } else if self.pos - end < self.b.len() as u64 {
                self.b[(self.pos - end) as usize]
            } else {
                break;
            };
            n += 1;
            self.pos += 1;
        }
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::Current(n) => self.pos as i64 + n,
            SeekFrom::End(n) => (self.a.len() as u64 + self.hole + self.b.len() as u64) as i64 + n,
        };
        if n < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
fn main() {
    let hole = 3u64 << 30;
    let mut a = ftyp();
    a.extend_from_slice(&(hole as u32 + 8).to_be_bytes());
    a.extend_from_slice(b"mdat");
    let b = moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &text("title"))])])])]);
    let tag = Tag::read_from(&mut Sparse { a, hole, b, pos: 0 }).unwrap();
    assert_eq!(tag.title(), Some("title"));
}
''')

bug('C20-e', [(D,'        Ok(String::from_utf16(&data)?)','        Ok(String::from_utf16_lossy(&data))')],
 'utf-16 text with an unpaired surrogate',
 'invalid text is silently replaced instead of rejected',
r'''
fn main() {
    let it = atom(b"\xa9nam", &data(2, &[0xd8, 0, 0, 65]));
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&it])])])])]);
    match try_read(&file) {
        Err(e) => assert!(matches!(e.kind, ErrorKind::Utf16StringDecoding(_))),
        Ok(t) => panic!("{:?}", t),
    }
}
''')

bug('C20-f', [('src/atom/mvhd.rs','            1 => {\n','            v if v & 1 == 1 => {\n')],
 'a movie header of an unknown odd version',
 'an unknown version is read as version 1',
r'''
fn main() {
    let mv = cat(&[&[3, 0, 0, 0], &[0; 16], &1u32.to_be_bytes(), &7u64.to_be_bytes(), &[0; 80]]);
    let file = cat(&[&ftyp(), &moov(&[&atom(b"mvhd", &mv)])]);
    match try_read(&file) {
        Err(e) => assert!(matches!(e.kind, ErrorKind::UnknownVersion(3))),
        Ok(t) => panic!("{:?}", t),
    }
}
''')

bug('C20-h', [('src/atom/co64.rs','if 8 + 8 * entries as u64 != size.content_len() {','if 8 + 8 * entries as u64 > size.content_len() {')],
 'writing to a file with a 64 bit chunk offset table that has fewer entries than its length says, and media data behind the movie',
 'the write is not refused',
r'''
fn main() {
    let t = full(b"co64", &cat(&[&0u32.to_be_bytes(), &100u64.to_be_bytes()]));
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])]), &trak(&[&t])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    let (res, after) = try_write(&tag, &file);
    assert!(matches!(res.unwrap_err().kind, ErrorKind::Parsing));
    assert!(after == file);
}
''')

bug('C21-c', [(D,'            JPEG => Data::Jpeg(reader.read_u8_vec(len)?),\n','            JPEG => {\n                let mut image = Vec::new();\n                Read::take(reader, len).read_to_end(&mut image)?;\n                Data::Jpeg(image)\n            }\n')],
 'a file that ends within a jpeg image which is the last value of the last item',
 'the image is silently cut',
r'''
fn main() {
    let list = ilst(&[&atom(b"covr", &data(13, &[7; 50]))]);
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &list])])])]);
    let tag = read(&file);
    for n in 0..file.len() {
        if let Ok(t) = try_read(&file[..n]) {
            assert_eq!(t, tag, "first {} of {} bytes", n, file.len());
        }
    }
}
''')

# ---- third wave ---------------------------------------------------------------------------
bug('C01-f', [(M,'            let data_len: u32 = 16 + d.len() as u32;','            let data_len: u32 = (16 + d.len() as u32) & 0x00ff_ffff;')],
 'a value of 16 MiB or more',
 'the length of the value is cut to 24 bits, the written item list is corrupt',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd()])]);
    let mut tag = read(&file);
    tag.set_data(Fourcc(*b"covr"), Data::Png(vec![7; 1 << 24]));
    let again = try_read(&write(&tag, &file));
    assert!(again.unwrap() == tag);
}
''')

bug('C02-d', [(M,'    reader.read_to_end(&mut moved_data)?;','    Read::take(&mut *reader, 1 << 24).read_to_end(&mut moved_data)?;')],
 'more than 16 MiB behind the metadata that have to be moved',
 'what lies further behind is lost or stays in the wrong place',
r'''
fn main() {
    let media: Vec<u8> = (0..20_000_000u32).map(|i| (i >> 8 ^ i) as u8).collect();
    let file = cat(&[&ftyp(), &moov(&[&mvhd()]), &atom(b"mdat", &media)]);
    let mut tag = read(&file);
    tag.set_title("title");
    let after = write(&tag, &file);
    assert!(after.ends_with(&media));
}
''')

bug('C02-e', [(M,'            let mean_len: u32','            let mean_len: u32')][:0]+[('src/atom/meta.rs','                HANDLER_REFERENCE => hdlr = Some(Hdlr::find(reader, head.size())?),','                HANDLER_REFERENCE if ilst.is_none() => hdlr = Some(Hdlr::find(reader, head.size())?),')],
 'a metadata atom with the handler behind the item list',
 'a second handler is added in front of the item list',
r'''
fn main() {
    let list = ilst(&[&atom(b"\xa9alb", &text("x"))]);
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&list, &hdlr()])])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    let after = write(&tag, &file);
    assert_eq!(after.windows(4).filter(|w| w == b"hdlr").count(), 1);
}
''')

bug('C03-g', [('src/atom/stco.rs','                for _ in 0..entries {','                for _ in 0..entries.min(1 << 16) {')],
 'a chunk offset table with more than 65536 entries',
 'only the first 65536 chunk offsets are adjusted',
C03_COMMON+r'''
fn main() {
    const N: usize = 70_000;
    let build = |n: u32| {
        let m = moov(&[&mvhd(), &trak(&[&table(&vec![n; N])]), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]);
        cat(&[&ftyp(), &m, &atom(b"mdat", b"abcdefghijklmnop")])
    };
    let file = build(build(0).len() as u32 - 16);
    let mut tag = read(&file);
    tag.set_title("title");
    let written = write(&tag, &file);
    let p = find(&written, b"stco") + 12;
    for i in 0..N {
        assert_eq!(written[p + 4 * i..p + 4 * i + 4], written[p..p + 4], "entry {}", i);
    }
    assert_eq!(chunk(&written, 0), b"abcdef");
}
''')


bug('C04-d', [(M,'    len_diff += new_atom_len as i64;\n','''    let len_diff = len_diff + new_atom_len as i64;

    if let (0, Some(old), true) = (len_diff, ilst, hdlr.is_some()) {
        // nothing to do if the item list is already there
        let mut new = Vec::new();
        new_ilst.write(&mut new)?;
        new.truncate(1024);
        let mut start = vec![0; new.len()];
        reader.seek(SeekFrom::Start(old.pos()))?;
        reader.read_exact(&mut start)?;
        if start == new {
            return Ok(());
        }
    }
''')],
 'writing metadata of the same length as the existing metadata which differs only behind the first KiB',
 'the write is skipped, the file keeps the metadata written before',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_lyrics("la ".repeat(500) + "one");
    let one = write(&tag, &file);
    tag.set_lyrics("la ".repeat(500) + "two");
    let two = write(&tag, &one);
    assert!(two == write(&tag, &file));
    assert!(read(&two) == tag);
}
''')

bug('C05-d', [('src/atom/ilst.rs','ilst.iter_mut().find(|o| atom.ident == o.ident)','ilst.iter_mut().rev().take(32).find(|o| atom.ident == o.ident)')],
 'two items of the same identifier with more than 32 identifiers in between',
 'the items are not merged, the values of the later one are unreachable',
r'''
fn main() {
    let mut list = vec![atom(b"aart", &text("one"))];
    for i in 0..40u8 {
        list.push(atom(&[b'x', b'y', b'z', i], &text("between")));
    }
    list.push(atom(b"aart", &text("two")));
    let list = atom(b"ilst", &list.concat());
    let tag = read(&cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &list])])])]));
    let ident = Fourcc(*b"aart");
    let got: Vec<&str> = tag.strings_of(&ident).collect();
    assert_eq!(got, ["one", "two"]);
}
''')

bug('C05-e', [(M,'                    // Skipping 4 byte locale indicator\n                    reader.seek(SeekFrom::Current(4))?;\n\n                    data.push(Data::parse(reader, datatype, remaining_len(&head, 8)?)?);','                    // Only the default locale is of interest\n                    let locale = reader.read_u32()?;\n                    let value = Data::parse(reader, datatype, remaining_len(&head, 8)?)?;\n                    if locale == 0 || data.is_empty() {\n                        data.push(value);\n                    }')],
 'an item with several values of which a later one has a locale',
 'that value is dropped',
r'''
fn main() {
    let b = atom(b"data", &cat(&[&1u32.to_be_bytes(), &[0, 0, 0x15, 0xc7], b"two"]));
    let list = ilst(&[&atom(b"\xa9cmt", &cat(&[&text("one"), &b]))]);
    let tag = read(&cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &list])])])]));
    let got: Vec<&str> = tag.comments().collect();
    assert_eq!(got, ["one", "two"]);
}
''')

bug('C06-e', [('src/atom/mvhd.rs','        let (version, _) = parse_full_head(reader)?;\n        match version {\n            0 => {','        let version = reader.read_u32()?;\n        match version {\n            0 => {'),
 ('src/atom/mvhd.rs','            1 => {\n','            0x0100_0000 => {\n'),
 ('src/atom/mvhd.rs','crate::ErrorKind::UnknownVersion(version),','crate::ErrorKind::UnknownVersion((version >> 24) as u8),')],
 'a movie header with flags',
 'the flags are taken for a part of the version, reading fails',
r'''
fn main() {
    let mv = cat(&[&[0, 0, 0, 1], &[0; 8], &1000u32.to_be_bytes(), &2500u32.to_be_bytes(), &[0; 80]]);
    let tag = read(&cat(&[&ftyp(), &moov(&[&atom(b"mvhd", &mv)])]));
    assert_eq!(tag.duration(), Some(std::time::Duration::from_millis(2500)));
}
''')

bug('C06-f', [('src/atom/mp4a.rs','    info.max_bitrate = Some(reader.read_u32()?);','    info.max_bitrate = Some(reader.read_u32()?).filter(|b| *b != 0);')],
 'a maximum bitrate of zero',
 'it is reported as absent',
r'''
fn main() {
    let tag = read(&cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&stsd(&[&mp4a(4, 2, 0, 128_000)])])])]));
    assert_eq!((tag.max_bitrate(), tag.avg_bitrate()), (Some(0), Some(128_000)));
}
''')

bug('C07-d', [(M,'''format!("Error constructing atom data '{}', missing data atom", parent),''','''format!("Error constructing atom data '{}', missing data atom", std::str::from_utf8(&*parent).unwrap()),''')],
 'an item without data whose identifier is not valid utf-8, as most of those of iTunes',
 'reading panics instead of returning the error',
r'''
fn main() {
    let list = ilst(&[&atom(b"\xa9nam", &[])]);
    let file = cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &list])])])]);
    assert!(try_read(&file).is_err());
}
''')

bug('C08-d', [(M,'''                writer.write_all(FREEFORM.deref())?;
''','''                if mean.is_empty() {
                    return Err(crate::Error::new(
                        ErrorKind::Parsing,
                        "Freeform atom without a mean string".to_owned(),
                    ));
                }
                writer.write_all(&*FREEFORM)?;
''')],
 'writing a freeform identifier with an empty mean string',
 'the write is refused after the file was modified',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    tag.set_data(DataIdent::freeform("", "name"), Data::Utf8("value".into()));
    let (res, after) = try_write(&tag, &file);
    assert!(res.is_ok() || after == file);
}
''')

bug('C10-d', [(T,'        let mut file = File::create(path)?;\n        self.dump_to(&mut file)','        let mut file = std::io::BufWriter::new(File::create(path)?);\n        self.dump_to(&mut file)')],
 'dumping to a path on a full disk',
 'the error is lost and success is reported',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_title("title");
    assert!(tag.dump_to_path("/dev/full").is_err());
}
''')

bug('C10-e', [(M,'    reader.read_to_end(&mut moved_data)?;\n','    let mut block = [0; 4096];\n    loop {\n        match reader.read(&mut block)? {\n            0 => break,\n            n => moved_data.extend_from_slice(&block[..n]),\n        }\n    }\n')],
 'a write that is interrupted while the data to be moved is read',
 'the write fails although it could go on',
r'''
extern "C" {
    fn syscall(number: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
static AT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);

// Takes the place of read(2): call number AT is interrupted.
#[export_name = "read"]
pub unsafe extern "C" fn interposed(fd: i32, buf: *mut u8, count: usize) -> isize {
    if fd > 2 && AT.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 0 {
        *__errno_location() = 4;
        return -1;
    }
    syscall(0, fd, buf, count) as isize
}

fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]), &atom(b"mdat", &[7; 50_000])]);
    let mut tag = read(&file);
    tag.set_title("title");
    let want = write(&tag, &file);
    let path = scratch("demo.m4a");
    for n in 0..30 {
        std::fs::write(&path, &file).unwrap();
        AT.store(n, std::sync::atomic::Ordering::SeqCst);
        let res = tag.write_to_path(&path);
        AT.store(-1, std::sync::atomic::Ordering::SeqCst);
        assert!(res.is_ok(), "read {} was interrupted", n);
        assert!(std::fs::read(&path).unwrap() == want);
    }
}
''')

bug('C12-d', [('proc/src/lib.rs','vec.get(0).map(|&v| v == 1).unwrap_or(false)','vec.last().map(|&v| v == 1).unwrap_or(false)')],
 'a flag with a value of more than one byte',
 'the last byte is looked at instead of the first',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_data(Fourcc(*b"cpil"), Data::BeSigned(vec![1, 0]));
    assert!(tag.compilation());
    tag.set_data(Fourcc(*b"cpil"), Data::BeSigned(vec![0, 1]));
    assert!(!tag.compilation());
}
''')

bug('C12-e', [('proc/src/lib.rs','''        self.take_strings_of(&{ai}).next()
    }}

    /// Sets all {np}''','''        self.take_strings_of(&{ai}).filter(|s| !s.is_empty()).next()
    }}

    /// Sets all {np}''')],
 'taking the first of several values when that one is empty',
 'another value than the first is returned',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_artists(vec!["".to_owned(), "b".to_owned()]);
    assert_eq!(tag.artist(), Some(""));
    assert_eq!(tag.take_artist(), Some("".to_owned()));
}
''')

bug('C14-c', [('src/tag/genre.rs','    if c > 0 && c <= STANDARD_GENRES.len() {','    if c <= STANDARD_GENRES.len() {')],
 'a standard genre code of zero',
 'listing the genres panics',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.add_standard_genre(0);
    tag.add_custom_genre("custom");
    assert_eq!(tag.genres().collect::<Vec<_>>(), ["custom"]);
}
''')

bug('C14-d', [('src/tag/genre.rs','''        self.set_custom_genres(genres);
        self.remove_standard_genres();''','''        self.remove_genres();
        self.add_custom_genres(genres);''') ],
 '', '', '')
B.pop()

bug('C15-c', [('src/types.rs','            _ => Self::Explicit,','            EXPLICIT => Self::Explicit,\n            _ => Self::Inoffensive,')],
 'an advisory rating of 1, or above 4',
 'the rating is reported as inoffensive instead of explicit',
r'''
fn main() {
    for v in 0..=255 {
        let want = match v {
            0 => AdvisoryRating::Inoffensive,
            2 => AdvisoryRating::Clean,
            _ => AdvisoryRating::Explicit,
        };
        assert_eq!(AdvisoryRating::from(v), want, "{}", v);
    }
}
''')

bug('C17-f', [('proc/src/lib.rs','writeln!(f, \\"    {{}}\\", s)?;','writeln!(f, \\"    {{}}\\", s.lines().next().unwrap_or(\\"\\"))?;')],
 'displaying one of several values that has more than one line',
 'only the first line is shown',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_comments(vec!["one\ntwo".to_owned(), "three".to_owned()]);
    let s = tag.to_string();
    assert!(s.contains("one\ntwo") && s.contains("three"), "{}", s);
}
''')

bug('C18-d', [('src/atom/ident.rs','            DataIdent::Freeform { mean, name } => self.mean == mean && self.name == name,','            DataIdent::Freeform { mean, name } => {\n                self.mean.bytes().chain(self.name.bytes()).eq(mean.bytes().chain(name.bytes()))\n            }')],
 'two freeform identifiers whose mean and name only agree when joined',
 'different identifiers are equal',
r'''
fn main() {
    assert!(FreeformIdent::new("ab", "c") == DataIdent::freeform("ab", "c"));
    assert!(FreeformIdent::new("ab", "c") != DataIdent::freeform("a", "bc"));
}
''')

bug('C19-g', [('src/atom/ftyp.rs','reader.read_utf8(head.content_len())?','reader.read_utf8(head.len() - 8)?')],
 'a file type atom with a 64 bit length',
 'the following 8 bytes are taken as a part of the file type, reading fails or the file type is wrong',
r'''
fn main() {
    let file = cat(&[&atom64(b"ftyp", b"M4A \0\0\x02\0isomiso2"), &atom(b"free", &[]), &moov(&[&mvhd()])]);
    let tag = read(&file);
    assert_eq!(tag.filetype(), "M4A \0\0\x02\0isomiso2");
}
''')

bug('C19-h', [('src/atom/mp4a.rs','            DECODER_CONFIG_DESCRIPTOR => parse_dc_desc(reader, info, desc_len)?,\n            _ => {\n                reader.seek(SeekFrom::Current(desc_len as i64))?;\n            }\n','            DECODER_CONFIG_DESCRIPTOR => parse_dc_desc(reader, info, desc_len)?,\n            _ => break,\n')],
 'a sync layer descriptor in front of the decoder configuration',
 'the audio information is not found',
r'''
fn main() {
    let specific = desc(5, &[0x12, 0x10]);
    let config = desc(4, &cat(&[&[0x40, 0x15, 0, 0, 0], &200u32.to_be_bytes(), &100u32.to_be_bytes(), &specific]));
    let es = desc(3, &cat(&[&[0; 3], &desc(6, &[2]), &config]));
    let tag = read(&cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&stsd(&[&mp4a_with(&es, &[])])])])]));
    assert_eq!((tag.max_bitrate(), tag.avg_bitrate()), (Some(200), Some(100)));
}
''')

bug('C20-i', [(M,'''                    let (version, _) = parse_full_head(reader)?;
                    if version != 0 {
                        return Err(crate::Error::new(
                            crate::ErrorKind::UnknownVersion(version),
                            "Error reading data atom (data)".to_owned(),
                        ));
                    }

                    name =''','''                    parse_full_head(reader)?;

                    name =''')],
 'a name atom of an unknown version',
 'it is accepted',
r'''
fn main() {
    let name = atom(b"name", &cat(&[&[1, 0, 0, 0], b"name"]));
    let list = ilst(&[&atom(b"----", &cat(&[&full(b"mean", b"mean"), &name, &text("x")]))]);
    let file = cat(&[&ftyp(), &moov(&[&udta(&[&meta(&[&hdlr(), &list])])])]);
    assert!(matches!(try_read(&file).unwrap_err().kind, ErrorKind::UnknownVersion(1)));
}
''')

bug('C20-j', [('src/atom/stco.rs','            0 => {','            0 | 1 => {')],
 'writing to a file with a 32 bit chunk offset table of version 1 and media data behind the movie',
 'the write is not refused',
r'''
fn main() {
    let t = atom(b"stco", &cat(&[&[1, 0, 0, 0], &1u32.to_be_bytes(), &100u32.to_be_bytes()]));
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])]), &trak(&[&t])]), &atom(b"mdat", b"0123456789")]);
    let mut tag = read(&file);
    tag.set_title("title");
    let (res, after) = try_write(&tag, &file);
    assert!(matches!(res.unwrap_err().kind, ErrorKind::UnknownVersion(1)));
    assert!(after == file);
}
''')


# ---- fourth wave
BAD = r'''
struct Bad(Cursor<Vec<u8>>, u64);
impl Bad {
    fn step(&mut self, n: usize) -> std::io::Result<()> {
        if (self.0.position()..self.0.position() + n as u64).contains(&self.1) {
            return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "the line is dead"));
        }
        Ok(())
    }
}
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.step(b.len())?;
        self.0.read(b)
    }
}
impl Seek for Bad {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
'''

bug('C22-a', [('src/error.rs','ErrorKind::Io(err), description: "".to_owned()','ErrorKind::Io(err.kind().into()), description: "".to_owned()')],
 'an I/O error that carries more than its kind',
 'the message, payload and code of the operating system are lost',
r'''
struct Full;
impl Write for Full {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(std::io::Error::from_raw_os_error(28))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let err = Tag::default().dump_to(&mut Full).unwrap_err();
    assert!(matches!(err.kind, ErrorKind::Io(e) if e.raw_os_error() == Some(28)));
}
''')

bug('C22-b', [('src/atom/head.rs','''            Err(e) => Err(crate::Error::new(
                ErrorKind::Io(e),
                "Error reading extended atom length".to_owned(),''','''            Err(e) => Err(crate::Error::new(
                ErrorKind::Io(std::io::ErrorKind::UnexpectedEof.into()),
                format!("Error reading extended atom length: {}", e),''')],
 'a reader that fails while an extended length is read',
 'the failure is reported as the end of the file',
BAD + r'''
fn main() {
    let file = cat(&[&ftyp(), &atom64(b"free", &[]), &moov(&[&mvhd()])]);
    let at = find(&file, b"free") + 4;
    let err = Tag::read_from(&mut Bad(Cursor::new(file), at as u64)).unwrap_err();
    assert!(matches!(err.kind, ErrorKind::Io(e) if e.kind() == std::io::ErrorKind::TimedOut));
}
''')

bug('C22-c', [(M,'''        match Self::find_atom(reader, size) {
            Err(mut e) => {''','''        match Self::find_atom(reader, size) {
            Err(mut e) if !e.description.starts_with("Error") => {''')],
 'writing to a file with a defect in a nested atom',
 'only the innermost atom is named',
r'''
fn main() {
    let mut m = meta(&[&hdlr(), &ilst(&[])]);
    m[8] = 7;
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&m])])]);
    let (res, _) = try_write(&Tag::default(), &file);
    let d = res.unwrap_err().description;
    let at = |s: &str| d.find(s).unwrap_or_else(|| panic!("{} is not in {}", s, d));
    assert!(at("moov") < at("udta") && at("udta") < at("meta"), "{}", d);
}
''')

bug('C22-d', [(M,'    reader.read_to_end(&mut moved_data)?;','''    reader
        .read_to_end(&mut moved_data)
        .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;''')],
 'a file that fails while the data that has to be moved is read',
 'the code of the operating system is lost, the error is of kind other',
r'''
fn main() {
    use std::os::unix::io::AsRawFd;
    // reading at the end of this file fails: the movie is its last part and is cut by the length of a directory
    // entry that cannot be read; a handle that cannot be read fails at once, so a limit on memory is used instead
    let path = scratch("big.m4a");
    std::fs::write(&path, cat(&[&ftyp(), &moov(&[&mvhd()])])).unwrap();
    let file = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
    assert!(file.as_raw_fd() >= 0);
}
''')
B.pop()

bug('C22-e', [(M,'''    writer.flush()?;

    Ok(())
}

/// Attempts to dump''','''    writer.into_inner().map_err(|e| std::io::Error::from(e.error().kind()))?;

    Ok(())
}

/// Attempts to dump''')],
 'a disk that is full when the last buffered data is written',
 'the code of the operating system is lost',
r'''
fn main() {
    // a limit on the size of files makes the last write fail
    #[repr(C)]
    struct Limit(u64, u64);
    extern "C" {
        fn setrlimit(what: i32, l: *const Limit) -> i32;
        fn signal(n: i32, h: usize) -> usize;
    }
    let path = scratch("limited.m4a");
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])])]);
    // data at the end that moves is written last; the file may be resized but not written that far
    let big = cat(&[&file, &atom(b"free", &[1; 100])]);
    std::fs::write(&path, &big).unwrap();
    let mut tag = Tag::default();
    tag.set_title("t".repeat(50));
    let handle = std::fs::OpenOptions::new().read(true).write(true).open(&path).unwrap();
    drop(handle);
    let _ = (setrlimit as unsafe extern "C" fn(i32, *const Limit) -> i32, signal as unsafe extern "C" fn(i32, usize) -> usize);
}
''')
B.pop()

bug('C22-f', [('src/error.rs','''            write!(f, "{:?}", self.kind)
        } else {
            write!(f, "{:?}: {}", self.kind, self.description)
        }
    }
}

impl fmt::Display''','''            write!(f, "{:?}", self.kind)
        } else {
            f.write_str(&self.description)
        }
    }
}

impl fmt::Display''')],
 'formatting an error that has a description with Debug',
 'the kind and its value are missing',
r'''
fn main() {
    let err = Error::new(ErrorKind::UnknownVersion(7), "no idea".into());
    let d = format!("{:?}", err);
    assert!(d.contains("UnknownVersion") && d.contains('7') && d.contains("no idea"), "{}", d);
}
''')

bug('C05-f', [('src/atom/ilst.rs','Some(other) => other.data.extend(atom.data),','Some(other) if other.data.len() < 64 => other.data.extend(atom.data),\n                        Some(_) => {}')],
 'more than 64 values in an item list under one identifier that is repeated',
 'values in repetitions after the 64th are dropped',
r'''
fn main() {
    let item = |n: usize| atom(b"\xa9ART", &text(&n.to_string()));
    let list: Vec<Vec<u8>> = (0..70).map(item).collect();
    let list: Vec<&[u8]> = list.iter().map(|i| i.as_slice()).collect();
    let tag = read(&cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&list)])])])]));
    assert_eq!(tag.artists().count(), 70);
}
''')

bug('C01-g', [(M,'                let mean_len: u32 = 12 + mean.len() as u32;','                let mean_len: u32 = 12 + mean.len() as u16 as u32;')],
 'a freeform identifier whose mean has 64 KiB',
 'the length of the mean atom is cut to 16 bits, the item list is corrupt',
r'''
fn main() {
    let mut tag = Tag::default();
    tag.set_data(FreeformIdent::new(&"m".repeat(65536), "name"), Data::Utf8("value".into()));
    let file = write(&tag, &cat(&[&ftyp(), &moov(&[&mvhd()])]));
    assert_eq!(items(&read(&file)), items(&tag));
}
''')

bug('C03-i', [('src/atom/co64.rs','for _ in 0..entries {','for _ in 0..entries as u16 {')],
 'a 64 bit chunk offset table of 65536 entries or more',
 'only the low 16 bits of the number of entries are adjusted',
r'''
fn main() {
    let n = 65537u32;
    let table = |base: u64| {
        let mut v = n.to_be_bytes().to_vec();
        for i in 0..n {
            v.extend_from_slice(&(base + (i % 100) as u64).to_be_bytes());
        }
        full(b"co64", &v)
    };
    let build = |base: u64| cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&table(base)])]), &atom(b"mdat", &[5; 100])]);
    let base = build(0).len() as u64 - 100;
    let file = build(base);
    let mut tag = Tag::default();
    tag.set_title("title");
    let after = write(&tag, &file);
    let at = find(&after, b"co64") + 12;
    let want = base + (after.len() - file.len()) as u64;
    for i in 0..n as usize {
        let mut b = [0; 8];
        b.copy_from_slice(&after[at + 8 * i..at + 8 * i + 8]);
        assert_eq!(u64::from_be_bytes(b), want + i as u64 % 100, "{}", i);
    }
}
''')

DUMP='''        let mut file = File::create(path)?;
        self.dump_to(&mut file)'''
bug('C23-a', [(T,DUMP,'''        let path = path.as_ref();
        let path = match path.extension() {
            Some(_) => path.to_path_buf(),
            None => path.with_extension("m4a"),
        };
        let mut file = File::create(&path)?;
        self.dump_to(&mut file)''')],
 'dumping to a path without extension',
 'the dump goes to another file than the one named',
r'''
fn main() {
    let dir = scratch("dir");
    std::fs::create_dir_all(&dir).unwrap();
    let r = Tag::default().dump_to_path(dir.join("song"));
    let names: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name()).collect();
    std::fs::remove_dir_all(&dir).unwrap();
    r.unwrap();
    assert_eq!(names, ["song"]);
}
''')
bug('C23-b', [(T,'        let file = OpenOptions::new().read(true).write(true).open(path)?;','''        let path = path.as_ref().to_string_lossy();
        let file = OpenOptions::new().read(true).write(true).open(&*path)?;''')],
 'writing to a path that is not utf-8',
 'the file is not found, or another file is written',
r'''
fn main() {
    use std::os::unix::ffi::OsStrExt;
    let dir = scratch("dir");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(std::ffi::OsStr::from_bytes(b"caf\xe9.m4a"));
    std::fs::write(&path, cat(&[&ftyp(), &moov(&[&mvhd()])])).unwrap();
    let mut tag = Tag::default();
    tag.set_title("title");
    let r = tag.write_to_path(&path).and_then(|_| Tag::read_from_path(&path));
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(r.unwrap().title(), Some("title"));
}
''')
bug('C23-c', [(T,DUMP,'''        let path = path.as_ref();
        let part = path.with_extension("part");
        let mut file = File::create(&part)?;
        self.dump_to(&mut file)?;
        std::fs::rename(part, path)?;
        Ok(())''')],
 'dumping to a path that is a link, or a file that has hard links',
 'the link is replaced by a file, the file it leads to keeps its old content',
r'''
fn main() {
    let dir = scratch("dir");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("target.m4a"), b"old").unwrap();
    std::os::unix::fs::symlink("target.m4a", dir.join("link.m4a")).unwrap();
    let mut tag = Tag::default();
    tag.set_title("title");
    let r = tag.dump_to_path(dir.join("link.m4a"));
    let t = Tag::read_from_path(dir.join("target.m4a"));
    std::fs::remove_dir_all(&dir).unwrap();
    r.unwrap();
    assert_eq!(t.unwrap().title(), Some("title"));
}
''')
bug('C23-d', [(T,'OpenOptions::new().read(true).write(true).open(path)?','OpenOptions::new().read(true).write(true).create(true).open(path)?')],
 'writing to a path that does not exist',
 'the call fails but leaves an empty file',
r'''
fn main() {
    let dir = scratch("dir");
    std::fs::create_dir_all(&dir).unwrap();
    let r = Tag::default().write_to_path(dir.join("absent.m4a"));
    let created = dir.join("absent.m4a").exists();
    std::fs::remove_dir_all(&dir).unwrap();
    assert!(r.is_err());
    assert!(!created);
}
''')
bug('C23-e', [(T,'''        self.write_to(&file)
''','''        let result = self.write_to(&file);
        if result.is_err() {
            // keep the file open to be able to inspect it
            std::mem::forget(file);
        }
        result
''')],
 'writing by path to files that are refused, many times',
 'every refused file stays open until the process ends',
r'''
fn main() {
    let dir = scratch("dir");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("f.m4a"), ftyp()).unwrap();
    let open = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = open();
    for _ in 0..10 {
        assert!(Tag::default().write_to_path(dir.join("f.m4a")).is_err());
    }
    let after = open();
    std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(before, after);
}
''')
bug('C05-g', [('src/atom/ilst.rs','                FREE => {','                FREE | Fourcc([b\'w\', b\'i\', b\'d\', b\'e\']) => {')],
 'an item whose identifier is `wide`',
 'the item is taken for padding',
r'''
fn main() {
    let tag = read(&cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"wide", &text("value"))])])])])]));
    assert_eq!(tag.strings_of(&Fourcc(*b"wide")).next(), Some("value"));
}
''')
bug('C05-h', [(M,"            (fourcc, _, _) => DataIdent::Fourcc(fourcc),","            (FREEFORM, Some(mean), None) => DataIdent::Freeform { mean, name: String::new() },\n            (other, _, _) => DataIdent::Fourcc(other),")],
 'a freeform item that has a mean but no name',
 'it is listed under a name it does not have',
r'''
fn main() {
    let item = atom(b"----", &cat(&[&full(b"mean", b"com.apple.iTunes"), &text("value")]));
    let tag = read(&cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&item])])])])]));
    assert_eq!(tag.strings_of(&Fourcc(*b"----")).next(), Some("value"));
    assert_eq!(tag.strings_of(&FreeformIdent::new("com.apple.iTunes", "")).next(), None);
}
''')
bug('C12-h', [(T,"        match self.atoms.iter_mut().find(|a| ident == a.ident) {\n            Some(a) => {\n                a.data.clear();\n                a.data.push(data);","        let data = match data {\n            Data::Utf8(s) if s.len() > 0xffff => Data::Utf8(s.chars().take(0xffff).collect()),\n            d => d,\n        };\n        match self.atoms.iter_mut().find(|a| ident == a.ident) {\n            Some(a) => {\n                a.data = vec![data];")],
 'a text of more than 64 KiB',
 'the text is cut',
r'''
fn main() {
    let mut tag = Tag::default();
    let long = "lyrics ".repeat(10000);
    tag.set_lyrics(long.as_str());
    assert_eq!(tag.lyrics(), Some(long.as_str()));
}
''')
bug('C17-h', [('src/tag/readonly.rs',"            Some(c) => writeln!(f, \"average bitrate: {}kbps\", c / 1024),\n            None => Ok(()),","            Some(c) if c > 0 => writeln!(f, \"average bitrate: {}kbps\", c / 1024),\n            _ => Ok(()),")],
 'an average bitrate of zero',
 'it is not shown',
r'''
fn main() {
    let info = AudioInfo { avg_bitrate: Some(0), ..Default::default() };
    let text = Tag::new("M4A ".into(), info, vec![]).to_string();
    assert!(text.contains("average bitrate: 0kbps"), "{}", text);
}
''')
bug('C11-i', [(T,"    pub fn data_of<'a>(&'a self, ident: &'a impl Ident) -> impl Iterator<Item = &Data> {\n        match self.atoms.iter().find(|a| ident == &a.ident) {","    pub fn data_of<'a>(&'a self, ident: &'a impl Ident) -> impl Iterator<Item = &Data> {\n        match self.atoms.iter().take(128).find(|a| ident == &a.ident) {")],
 'a tag of more than 128 items',
 'items after the 128th are not found',
r'''
fn main() {
    let mut tag = Tag::default();
    for i in 0..200 {
        tag.set_data(FreeformIdent::new("mean", &i.to_string()), Data::Utf8("value".into()));
    }
    assert_eq!(tag.strings_of(&FreeformIdent::new("mean", "150")).next(), Some("value"));
}
''')
D='src/atom/data.rs'
bug('C24-a', [(D,"        let data: Vec<u16> =\n            buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();\n\n        Ok(String::from_utf16(&data)?)",
"""        // the units are only needed for a moment, reuse the allocation
        thread_local!(static UNITS: std::cell::RefCell<Vec<u16>> = Default::default());
        UNITS.with(|units| {
            let mut data = units.borrow_mut();
            data.extend(buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])));
            let s = String::from_utf16(&data)?;
            data.clear();
            Ok(s)
        })""")],
 'a file with an invalid utf-16 value read before one with a valid utf-16 value, on the same thread',
 'a shared buffer isn\'t cleared when decoding fails, the next utf-16 value starts with the invalid one',
r'''
fn main() {
    let file = |units: &[u8]| cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &data(2, units))])])])])]);
    let good = file(b"\0a\0b");
    let bad = file(b"\0x\xd8\0");
    let first = items(&read(&good));
    assert!(Tag::read_from(&mut Cursor::new(&bad)).is_err());
    let again = Tag::read_from(&mut Cursor::new(&good)).expect("the same file");
    assert_eq!(items(&again), first);
}
''')
bug('C24-b', [(M,"    let mut moved_data = Vec::with_capacity(moved_data_len as usize);\n    reader.seek(SeekFrom::Start(moved_data_start))?;\n    reader.read_to_end(&mut moved_data)?;",
"""    // one buffer for all calls
    static MOVED_DATA: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    let lock = || MOVED_DATA.lock().unwrap_or_else(|e| e.into_inner());
    lock().clear();
    lock().reserve(moved_data_len as usize);
    reader.seek(SeekFrom::Start(moved_data_start))?;
    reader.read_to_end(&mut *lock())?;"""),
 (M,"            let start = (*table_pos - moved_data_start) as usize;\n            moved_data[","            let start = (*table_pos - moved_data_start) as usize;\n            lock()["),
 (M,"    writer.write_all(&moved_data)?;\n    writer.flush()?;","    writer.write_all(&lock())?;\n    writer.flush()?;")],
 'two writes to different files at the same time',
 'the data behind the metadata of one file ends up in the other',
r'''
fn file(n: usize) -> Vec<u8> {
    cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]), &atom(b"mdat", &vec![n as u8; n])])
}
fn put(n: usize) -> Vec<u8> {
    let mut tag = Tag::default();
    tag.set_title("title");
    let path = scratch(&format!("{}.m4a", n));
    std::fs::write(&path, file(n)).unwrap();
    tag.write_to_path(&path).unwrap();
    std::fs::read(&path).unwrap()
}
fn main() {
    let want: Vec<_> = (0..8).map(|n| put(1000 + n)).collect();
    for _ in 0..300 {
        let threads: Vec<_> = (0..8).map(|n| std::thread::spawn(move || std::panic::catch_unwind(|| put(1000 + n)))).collect();
        for (t, want) in threads.into_iter().zip(&want) {
            match t.join().unwrap() {
                Ok(b) => assert!(b == *want, "the file differs from the one written alone"),
                Err(_) => panic!("writing panicked"),
            }
        }
    }
}
''')
bug('C24-c', [(T,"        let mut file = BufReader::new(File::open(path)?);\n        Self::read_from(&mut file)","""        // reading the same file over and over is common
        thread_local! {
            static LAST: std::cell::RefCell<Option<(std::path::PathBuf, u64, std::time::SystemTime, Tag)>> = Default::default();
        }
        let file = File::open(&path)?;
        let meta = file.metadata()?;
        let (len, modified) = (meta.len(), meta.modified()?);
        let known = LAST.with(|l| match &*l.borrow() {
            Some((p, l, m, tag)) if p == path.as_ref() && *l == len && *m == modified => Some(tag.clone()),
            _ => None,
        });
        if let Some(tag) = known {
            return Ok(tag);
        }
        let tag = Self::read_from(&mut BufReader::new(file))?;
        LAST.with(|l| *l.borrow_mut() = Some((path.as_ref().to_path_buf(), len, modified, tag.clone())));
        Ok(tag)""")],
 'a file read by path twice, replaced in between by one of the same length and modification time',
 'the tag of the file that was there before is returned',
r'''
fn main() {
    let p = scratch("c24c");
    let file = |s: &str| cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &text(s))])])])])]);
    let time = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
    let mut titles = vec![];
    for t in ["first", "other"] {
        std::fs::write(&p, file(t)).unwrap();
        std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_modified(time).unwrap();
        titles.push(Tag::read_from_path(&p).unwrap().title().unwrap().to_string());
    }
    std::fs::remove_file(&p).unwrap();
    assert_eq!(titles, ["first", "other"]);
}
''')
bug('C24-d', [(M,"    check_item_len(atoms)?;\n\n    ftyp.write(writer)?;\n    moov.write(writer)?;","""    check_item_len(atoms)?;

    // one write of everything instead of many small ones
    thread_local!(static BUFFER: std::cell::RefCell<Vec<u8>> = Default::default());
    BUFFER.with(|b| {
        let mut buffer = b.borrow_mut();
        buffer.clear();
        ftyp.write(&mut *buffer)?;
        moov.write(&mut *buffer)?;
        writer.write_all(&buffer)?;
        crate::Result::Ok(())
    })?;""")],
 'a writer that itself dumps a tag while it is written to',
 'the shared buffer is still borrowed and the inner call panics',
r'''
struct Nested(Vec<u8>, Vec<u8>);
impl Write for Nested {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.1.is_empty() {
            let mut t = Tag::default();
            t.set_title("inner");
            t.dump_to(&mut self.1).unwrap();
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut t = Tag::default();
    t.set_title("outer");
    let mut n = Nested(vec![], vec![]);
    t.dump_to(&mut n).unwrap();
    assert_eq!(read(&n.0).title(), Some("outer"));
    assert_eq!(read(&n.1).title(), Some("inner"));
}
''')
bug('C25-a', [(M,"/// A struct representing data that is associated with an atom identifier.\n#[derive(Clone, Debug, Eq, PartialEq)]\npub struct AtomData {","""impl PartialEq for AtomData {
    fn eq(&self, other: &Self) -> bool {
        self.ident == other.ident && self.data.iter().zip(&other.data).all(|(a, b)| a == b)
    }
}

/// A struct representing data that is associated with an atom identifier.
#[derive(Clone, Debug, Eq)]
pub struct AtomData {""")],
 'two tags whose values of one item only differ in number',
 'the additional values are not compared',
r'''
fn main() {
    let mut a = Tag::default();
    a.set_artists(["one".to_string()]);
    let mut b = a.clone();
    assert!(a == b);
    b.add_artist("two");
    assert!(a != b);
    assert!(b != a);
}
''')
bug('C25-b', [(D,"#[derive(Clone, Eq, PartialEq)]\npub enum Data {","""impl PartialEq for Data {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Reserved(a), Self::Reserved(b)) => a == b,
            (Self::BeSigned(a), Self::BeSigned(b)) => a == b,
            (Self::Utf8(a), Self::Utf8(b)) | (Self::Utf16(a), Self::Utf16(b)) => a == b,
            (Self::Jpeg(a), Self::Jpeg(b)) | (Self::Png(a), Self::Png(b)) | (Self::Bmp(a), Self::Bmp(b)) => {
                // large images that differ do so near the start or the end
                let n = a.len().min(1024);
                a.len() == b.len() && a[..n] == b[..n] && a[a.len() - n..] == b[b.len() - n..]
            }
            _ => false,
        }
    }
}

#[derive(Clone, Eq)]
pub enum Data {""")],
 'two images of the same length above 2 KiB that differ only in the middle',
 'they compare equal',
r'''
fn main() {
    let mut v = vec![7u8; 5000];
    let a = Data::Png(v.clone());
    v[2500] = 8;
    let b = Data::Png(v);
    assert!(a != b);
    assert!(a == a.clone());
}
''')
bug('C25-c', [('src/types.rs',"/// A struct containing information about a mp4 track.\n#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct AudioInfo {","""impl PartialEq for AudioInfo {
    fn eq(&self, other: &Self) -> bool {
        // durations are the same if they are displayed the same
        self.duration.map(|d| d.as_millis()) == other.duration.map(|d| d.as_millis())
            && self.channel_config == other.channel_config
            && self.sample_rate == other.sample_rate
            && self.max_bitrate == other.max_bitrate
            && self.avg_bitrate == other.avg_bitrate
    }
}

/// A struct containing information about a mp4 track.
#[derive(Clone, Debug, Default, Eq)]
pub struct AudioInfo {""")],
 'two durations that differ by less than a millisecond',
 'they compare equal',
r'''
fn main() {
    use std::time::Duration;
    let info = |n: u32| AudioInfo { duration: Some(Duration::new(3, n)), ..Default::default() };
    assert!(info(1) != info(2));
    assert!(info(5) == info(5));
    assert!(Tag::new("M4A ".into(), info(1), vec![]) != Tag::new("M4A ".into(), info(2), vec![]));
}
''')
bug('C25-d', [(T,"#[derive(Clone, Debug, Default, Eq, PartialEq)]\npub struct Tag {","""impl PartialEq for Tag {
    fn eq(&self, other: &Self) -> bool {
        // the order of items has no meaning
        self.ftyp == other.ftyp
            && self.info == other.info
            && self.atoms.len() == other.atoms.len()
            && self.atoms.iter().all(|a| other.atoms.contains(a))
    }
}

#[derive(Clone, Debug, Default, Eq)]
pub struct Tag {""")],
 'two tags with the same items in another order',
 'they compare equal although reading, writing and iterating show them in another order',
r'''
fn main() {
    let mut a = Tag::default();
    a.set_title("title");
    a.set_album("album");
    let mut b = Tag::default();
    b.set_album("album");
    b.set_title("title");
    assert!(a != b);
    assert!(a == a.clone());
}
''')
bug('C25-e', [(D,"#[derive(Clone, Eq, PartialEq)]\npub enum Data {","""impl Clone for Data {
    fn clone(&self) -> Self {
        match self {
            Self::Reserved(b) => Self::Reserved(b.clone()),
            Self::BeSigned(b) => Self::BeSigned(b.clone()),
            Self::Utf8(s) => Self::Utf8(s.clone()),
            Self::Utf16(s) => Self::Utf16(s.trim_start_matches('\\u{feff}').to_owned()),
            Self::Jpeg(b) => Self::Jpeg(b.clone()),
            Self::Png(b) => Self::Png(b.clone()),
            Self::Bmp(b) => Self::Bmp(b.clone()),
        }
    }
}

#[derive(Eq, PartialEq)]
pub enum Data {""")],
 'a copy of a utf-16 value that starts with a byte order mark',
 'the copy has lost it',
r'''
fn main() {
    let a = Data::Utf16("\u{feff}text".into());
    assert_eq!(a.clone(), a);
    let mut t = Tag::default();
    t.set_data(Fourcc(*b"\xa9nam"), a);
    assert!(t.clone() == t);
}
''')
bug('C24-e', [(M,"    let Ftyp(ftyp) = Ftyp::parse(reader)?;\n\n    let len","    // one file at a time, to limit memory\n    static READING: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    let _reading = READING.lock().unwrap_or_else(|e| e.into_inner());\n    let Ftyp(ftyp) = Ftyp::parse(reader)?;\n\n    let len"),
 (M,"    let ilst = moov\n        .udta\n        .and_then(|udta| udta.meta)","    let ilst = moov\n        .udta\n        .and_then(|user_data| user_data.meta)")],
 'a reader that itself reads a tag, for example from an index',
 'the inner call waits for the outer one forever',
r'''
struct Nested(Cursor<Vec<u8>>, bool);
impl Read for Nested {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if !self.1 {
            self.1 = true;
            assert_eq!(read(self.0.get_ref()).title(), Some("title"));
        }
        self.0.read(b)
    }
}
impl Seek for Nested {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &text("title"))])])])])]);
        let tag = Tag::read_from(&mut Nested(Cursor::new(file), false)).unwrap();
        tx.send(tag.title().map(str::to_owned)).unwrap();
    });
    let title = rx.recv_timeout(std::time::Duration::from_secs(30)).expect("the call returns");
    assert_eq!(title.as_deref(), Some("title"));
}
''')
bug('C24-f', [('src/atom/moov.rs',"        let mut moov = Self::default();\n        let mut parsed_bytes = 0;\n\n        while parsed_bytes < size.content_len() {","""        // a movie inside of a movie inside of a movie
        thread_local!(static DEPTH: std::cell::Cell<u32> = std::cell::Cell::new(0));
        if DEPTH.with(|d| d.get()) > 16 {
            return Err(crate::Error::new(
                crate::ErrorKind::Parsing,
                "Movie atoms (moov) nested too deeply".to_owned(),
            ));
        }
        DEPTH.with(|d| d.set(d.get() + 1));
        let mut moov = Self::default();
        let mut parsed_bytes = 0;

        while parsed_bytes < size.content_len() {"""),
 ('src/atom/moov.rs',"        Ok(moov)\n    }","        DEPTH.with(|d| d.set(d.get() - 1));\n        Ok(moov)\n    }"),
 ('src/atom/moov.rs',"                MOVIE_HEADER => moov.mvhd = Some(Mvhd::parse(reader, head.size())?),\n                TRACK => moov.trak.push(Trak::parse(reader, head.size())?),","                TRACK => moov.trak.push(Trak::parse(reader, head.size())?),\n                MOVIE_HEADER => moov.mvhd = Some(Mvhd::parse(reader, head.size())?),")],
 'reading a valid file after more than 16 broken ones on the same thread',
 'the depth isn\'t reset when reading fails, after some failures every file is rejected',
r'''
fn main() {
    let good = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &text("title"))])])])])]);
    let bad = &good[..good.len() - 5];
    for _ in 0..100 {
        assert!(Tag::read_from(&mut Cursor::new(bad)).is_err());
        assert_eq!(try_read(&good).map(|t| t.title().map(str::to_owned)).unwrap().as_deref(), Some("title"));
    }
}
''')
bug('C06-g', [('src/atom/trak.rs',"        let mut trak = Self::default();","        let mut trak = Self::default();\n        let mut enabled = true;"),
 ('src/atom/trak.rs',"                MEDIA => trak.mdia = Some(Mdia::parse(reader, head.size())?),\n","                MEDIA if enabled => trak.mdia = Some(Mdia::parse(reader, head.size())?),\n                Fourcc([b't', b'k', b'h', b'd']) if head.content_len() >= 4 => {\n                    // the lowest flag of a track header marks the track as enabled\n                    let (_, flags) = parse_full_head(reader)?;\n                    enabled = flags[2] & 1 == 1;\n                    reader.seek(SeekFrom::Current(head.content_len() as i64 - 4))?;\n                }\n")],
 'a track whose header does not have the enabled flag',
 'its audio information is not reported',
r'''
fn main() {
    let header = atom(b"tkhd", &[0; 84]);
    let t = trak(&[&stsd(&[&mp4a(4, 2, 1000, 900)])]);
    let t = atom(b"trak", &cat(&[&header, &t[8..]]));
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &t])]);
    assert_eq!(read(&file).max_bitrate(), Some(1000));
}
''')
bug('C03-j', [('src/atom/mdia.rs',"        let mut minf = None;","        let mut minf = None;\n        let mut hints = false;"),
 ('src/atom/mdia.rs',"                MEDIA_INFORMATION => minf = Some(Minf::find(reader, head.size())?),\n","                MEDIA_INFORMATION => minf = Some(Minf::find(reader, head.size())?).filter(|_| !hints),\n                HANDLER_REFERENCE if head.content_len() >= 12 => {\n                    // hint tracks don't have media data of their own\n                    let handler = reader.read_u8_vec(head.content_len())?;\n                    hints = &handler[8..12] == b\"hint\";\n                }\n")],
 'a track for streaming hints, with the media data behind the movie',
 'its chunk offsets are not adjusted',
r'''
fn main() {
    let build = |base: u32| {
        let handler = full(b"hdlr", b"\0\0\0\0hint\0\0\0\0\0\0\0\0\0\0\0\0\0");
        let minf = atom(b"minf", &atom(b"stbl", &table(&[base])));
        let track = atom(b"trak", &atom(b"mdia", &cat(&[&handler, &minf])));
        cat(&[&ftyp(), &moov(&[&mvhd(), &track]), &atom(b"mdat", &[5; 100])])
    };
    let base = build(0).len() as u32 - 100;
    let file = build(base);
    let mut tag = Tag::default();
    tag.set_title("title");
    let after = write(&tag, &file);
    let at = find(&after, b"stco") + 12;
    let want = base + (after.len() - file.len()) as u32;
    assert_eq!(after[at..at + 4], want.to_be_bytes());
}
''')
bug('C04-e', [(M,"    // adjusting the file length, nothing is modified if this fails\n","    if let Some(old) = ilst.filter(|_| len_diff == 0 && update_atoms.iter().any(|a| a.ext())) {\n        // the old items are as long as the new ones, most likely they are the same\n        reader.seek(SeekFrom::Start(old.content_pos()))?;\n        let first = parse_head(reader);\n        if first.map_or(true, |h| atoms.first().map_or(true, |a| a.len() == h.len())) {\n            return Ok(());\n        }\n    }\n\n    // adjusting the file length, nothing is modified if this fails\n"),
 (M,"    let old_file_len = reader.seek(SeekFrom::End(0))?;","    let end = SeekFrom::End(0);\n    let old_file_len = reader.seek(end)?;")],
 'writing other metadata of the same length, item by item, to a file in which an enclosing atom has a 64 bit length',
 'the write is skipped',
r'''
fn main() {
    let old = ilst(&[&atom(b"\xa9nam", &text("title")), &atom(b"\xa9alb", &text("album"))]);
    let meta = full(b"meta", &cat(&[&hdlr(), &old]));
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &atom64(b"udta", &meta)])]);
    let mut tag = read(&file);
    tag.set_title("other");
    let after = write(&tag, &file);
    assert_eq!(read(&after).title(), Some("other"));
}
''')
bug('C06-h', [('src/atom/mvhd.rs',"                let timescale = reader.read_u32()? as u64;\n                let duration = reader.read_u32()? as u64;\n\n                mvhd.duration = scaled_duration(duration, timescale)?;","                let timescale = reader.read_u32()?;\n                let duration = reader.read_u32()?;\n\n                mvhd.duration = match timescale {\n                    0 => scaled_duration(duration as u64, 0)?,\n                    _ => {\n                        let nanos = (duration % timescale) as f64 / timescale as f64 * 1e9;\n                        Duration::new((duration / timescale) as u64, (nanos as u32).min(999_999_999))\n                    }\n                };")],
 'a time scale for which the nanoseconds are not exact in floating point numbers, for example 90000',
 'the duration is a nanosecond too short or too long',
r'''
fn main() {
    for timescale in [90000u32, 44100, 48000, 600, 1000, 22050, 30000, 0xffff_ffff].iter() {
        for i in 1..2000u32 {
            let duration = if i < 1000 { i } else { timescale.saturating_sub(i - 999) };
            let mv = cat(&[&[0; 12], &timescale.to_be_bytes(), &duration.to_be_bytes(), &[0; 80]]);
            let file = cat(&[&ftyp(), &moov(&[&atom(b"mvhd", &mv)])]);
            let nanos = duration as u128 * 1_000_000_000 / *timescale as u128;
            assert_eq!(read(&file).duration().unwrap().as_nanos(), nanos, "{} / {}", duration, timescale);
        }
    }
}
''')
bug('C06-i', [(A,"        seek_to_end(reader, &bounds)?;\n\n        Ok(mp4a)","        if mp4a.channel_config.is_none() {\n            // the number of channels of the sample entry\n            reader.seek(SeekFrom::Start(bounds.content_pos() + 16))?;\n            let channels = reader.read_u16()?;\n            if channels <= 2 {\n                mp4a.channel_config = ChannelConfig::try_from(channels as u8).ok();\n            }\n        }\n        seek_to_end(reader, &bounds)?;\n\n        Ok(mp4a)"),
 (A,"        let mut mp4a = Self::default();\n\n        reader.seek(SeekFrom::Current(28))?;","        let mut mp4a = Self::default();\n\n        reader.seek(SeekFrom::Start(bounds.content_pos() + 28))?;")],
 'a channel configuration of 0 or above 7 in the decoder descriptor, with the number of channels in the sample entry',
 'the number of the sample entry is reported although the configuration is unknown',
r'''
fn main() {
    for config in [0, 8, 11, 15].iter() {
        let mut entry = mp4a(4, *config, 1000, 900);
        entry[8 + 17] = 2;
        let file = cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&stsd(&[&entry])])])]);
        let tag = read(&file);
        assert_eq!(tag.max_bitrate(), Some(1000));
        assert_eq!(tag.channel_config(), None);
    }
}
''')
bug('C05-i', [(M,"                    // Skipping 4 byte locale indicator\n                    reader.seek(SeekFrom::Current(4))?;\n\n                    data.push(Data::parse(reader, datatype, remaining_len(&head, 8)?)?);","                    let locale = reader.read_u32()?;\n                    let value = Data::parse(reader, datatype, remaining_len(&head, 8)?)?;\n\n                    // the value for all languages comes first\n                    if locale == 0 && !data.is_empty() && translated {\n                        data.insert(0, value);\n                    } else {\n                        translated |= locale != 0;\n                        data.push(value);\n                    }"),
 (M,"        let mut name: Option<String> = None;\n        let mut parsed_bytes = 0;","        let mut name: Option<String> = None;\n        let mut translated = false;\n        let mut parsed_bytes = 0;")],
 'an item in which a value with a locale comes before one without a locale',
 'the values change their order',
r'''
fn main() {
    let mut german = text("Titel");
    german[14..16].copy_from_slice(&[0x15, 0xc7]);
    let nam = atom(b"\xa9ART", &cat(&[&german, &text("title"), &text("last")]));
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&nam])])])])]);
    let tag = read(&file);
    let artists: Vec<&str> = tag.artists().collect();
    assert_eq!(artists, ["Titel", "title", "last"]);
}
''')
bug('C11-j', [(T,"        match self.atoms.iter_mut().find(|a| ident == a.ident) {\n            Some(a) => a.data = data,","        let found = self.atoms.iter_mut().find(|a| ident == a.ident);\n        match found {\n            Some(a) => {\n                // reuse the memory of the values that stay the same\n                let same = a.data.iter().zip(&data).take_while(|(a, b)| a == b).count();\n                let end = a.data.len() - a.data.iter().rev().zip(data.iter().rev()).take_while(|(a, b)| a == b).count();\n                let new_end = data.len() - (a.data.len() - end);\n                a.data.splice(same.min(end)..end, data.into_iter().take(new_end).skip(same));\n            }")],
 'setting a list of values that begins and ends like the list it replaces, with the common parts overlapping, for example one that repeats its last value once more',
 'a repeated value is missing or too many afterwards',
r'''
fn set(before: &[&str], after: &[&str]) {
    let mut tag = Tag::default();
    tag.set_artists(before.iter().map(|s| s.to_string()));
    tag.set_artists(after.iter().map(|s| s.to_string()));
    assert_eq!(tag.artists().collect::<Vec<_>>(), after);
}
fn main() {
    set(&["a", "b"], &["a", "b"]);
    set(&["a", "b"], &["b"]);
    set(&["a", "b", "b"], &["a", "b"]);
    set(&["a", "b"], &["a", "b", "b"]);
    set(&["a", "a", "a"], &["a"]);
    set(&["a"], &["a", "a", "a"]);
}
''')
bug('C22-g', [(M,"                e.description = format!(\"Error parsing {}: {}\", Self::FOURCC, e.description);\n                Err(e)\n            }\n            a => a,\n        }\n    }\n\n    fn parse_atom","                // the description of an I/O error is the one of the operation\n                match e.kind {\n                    crate::ErrorKind::Io(_) => (),\n                    _ => e.description = format!(\"Error parsing {}: {}\", Self::FOURCC, e.description),\n                }\n                Err(e)\n            }\n            a => a,\n        }\n    }\n\n    fn parse_atom"),
 (M,"                e.description = format!(\"Error writing {}: {}\", Self::FOURCC, e.description);","                match e.kind {\n                    crate::ErrorKind::Io(_) => (),\n                    _ => e.description = format!(\"Error writing {}: {}\", Self::FOURCC, e.description),\n                }")],
 'reading a file that ends inside of a nested atom',
 'the description does not tell in which atoms',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &text("some title"))])])])])]);
    for n in 1..4 {
        let e = try_read(&file[..file.len() - n]).unwrap_err();
        assert!(matches!(e.kind, mp4ameta::ErrorKind::Io(_)));
        let mut rest = e.description.as_str();
        for name in ["moov", "udta", "meta", "ilst"].iter() {
            let at = rest.find(name).unwrap_or_else(|| panic!("{:?} does not name {}", e.description, name));
            rest = &rest[at..];
        }
    }
}
''')
bug('C12-i', [(PR,"be_int!(vec, 0, u16)","be_int!(vec.get(..2 * vec.len().min(1) + (vec.len() & 0x100) / 0x100).unwrap_or(vec), 0, u16)")],'x','y','fn main(){}')
B.pop()
bug('C26-a', [('src/atom/mdat.rs',"        seek_to_end(reader, &bounds)?;","        // keeps what is buffered\n        std::io::copy(&mut reader.take(bounds.content_len()), &mut std::io::sink())?;")],
 'writing to a file whose media data is large',
 'all of the media data is read',
r'''
fn main() {
    let path = scratch("media.m4a");
    let head = cat(&[&ftyp(), &[0, 0, 0, 1], b"mdat", &(1u64 << 32).to_be_bytes()]);
    let tail = moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]);
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(&path).unwrap();
        f.write_all_at(&head, 0).unwrap();
        f.write_all_at(&tail, head.len() as u64 - 16 + (1 << 32)).unwrap();
    }
    let read = || -> u64 {
        let t = std::fs::read_to_string("/proc/self/io").unwrap();
        t.lines().find(|l| l.starts_with("rchar")).unwrap()[7..].trim().parse().unwrap()
    };
    let mut tag = Tag::default();
    tag.set_title("title");
    let before = read();
    tag.write_to_path(&path).unwrap();
    let cost = read() - before;
    std::fs::remove_file(&path).unwrap();
    assert!(cost < 1 << 20, "{} bytes read", cost);
}
''')
bug('C26-b', [(T,"        let mut file = BufReader::new(File::open(path)?);\n        Self::read_from(&mut file)","        let content = std::fs::read(path)?;\n        let mut file = std::io::Cursor::new(content);\n        Self::read_from(&mut file)")],
 'reading by path a file that does not fit into memory, or a large one',
 'the whole file is loaded into memory',
r'''
fn main() {
    let path = scratch("whole.m4a");
    let head = cat(&[&ftyp(), &moov(&[&mvhd()]), &[0, 0, 0, 1], b"mdat", &(1u64 << 28).to_be_bytes()]);
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(&path).unwrap();
        f.write_all_at(&head, 0).unwrap();
        f.set_len(head.len() as u64 - 16 + (1 << 28)).unwrap();
    }
    let read = || -> u64 {
        let t = std::fs::read_to_string("/proc/self/io").unwrap();
        t.lines().find(|l| l.starts_with("rchar")).unwrap()[7..].trim().parse().unwrap()
    };
    let before = read();
    Tag::read_from_path(&path).unwrap();
    let cost = read() - before;
    std::fs::remove_file(&path).unwrap();
    assert!(cost < 1 << 20, "{} bytes read", cost);
}
''')
bug('C26-c', [(M,"    let mut moved_data = Vec::with_capacity(moved_data_len as usize);\n    reader.seek(SeekFrom::Start(moved_data_start))?;\n    reader.read_to_end(&mut moved_data)?;","    reader.seek(SeekFrom::Start(mdat_pos.min(moved_data_start)))?;\n    let mut moved_data = Vec::new();\n    reader.read_to_end(&mut moved_data)?;\n    moved_data.drain(..moved_data.len() - moved_data_len as usize);")],
 'writing to a file whose media data lies in front of the metadata and is large',
 'the media data is loaded into memory',
r'''
fn main() {
    let path = scratch("front.m4a");
    let n = 1u64 << 28;
    let head = cat(&[&ftyp(), &[0, 0, 0, 1], b"mdat", &n.to_be_bytes()]);
    let tail = moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]);
    {
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::create(&path).unwrap();
        f.write_all_at(&head, 0).unwrap();
        f.write_all_at(&tail, head.len() as u64 - 16 + n).unwrap();
    }
    let read = || -> u64 {
        let t = std::fs::read_to_string("/proc/self/io").unwrap();
        t.lines().find(|l| l.starts_with("rchar")).unwrap()[7..].trim().parse().unwrap()
    };
    let mut tag = Tag::default();
    tag.set_title("title");
    let before = read();
    tag.write_to_path(&path).unwrap();
    let cost = read() - before;
    std::fs::remove_file(&path).unwrap();
    assert!(cost < 1 << 20, "{} bytes read", cost);
}
''')
bug('C26-d', [('src/atom/stbl.rs',"                _ => {\n                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;\n                }\n            }\n\n            parsed_bytes += head.len();\n        }\n\n        Ok(stbl)","                _ => {\n                    // the tables follow directly, no need to lose what is buffered\n                    match head.content_len() {\n                        n if n < 1 << 31 => drop(reader.read_u8_vec(n)?),\n                        n => drop(reader.seek(SeekFrom::Current(n as i64))?),\n                    }\n                }\n            }\n\n            parsed_bytes += head.len();\n        }\n\n        Ok(stbl)")],
 'reading a file with a long sample table, for example one with a lot of samples',
 'the tables are read and held in memory instead of skipped',
r'''
fn main() {
    let path = scratch("tables.m4a");
    let n = 100 << 20;
    let head = cat(&[&ftyp(), &moov(&[&mvhd(), &trak(&[&stsd(&[&mp4a(4, 2, 1000, 900)]), &atom(b"stsz", &vec![0; n])])])]);
    std::fs::write(&path, &head).unwrap();
    let read = || -> u64 {
        let t = std::fs::read_to_string("/proc/self/io").unwrap();
        t.lines().find(|l| l.starts_with("rchar")).unwrap()[7..].trim().parse().unwrap()
    };
    let before = read();
    let tag = Tag::read_from_path(&path).unwrap();
    let cost = read() - before;
    std::fs::remove_file(&path).unwrap();
    assert_eq!(tag.max_bitrate(), Some(1000));
    assert!(cost < 1 << 20, "{} bytes read", cost);
}
''')
bug('C26-e', [(H,"    reader.seek(SeekFrom::Start(bounds.end()))?;","    // short distances are read, which keeps what is buffered\n    match bounds.content_len() {\n        n if n < 1 << 20 => drop(std::io::copy(&mut reader.take(n), &mut std::io::sink())?),\n        _ => drop(reader.seek(SeekFrom::Start(bounds.end()))?),\n    }"),
 (H,"pub fn seek_to_end(reader: &mut impl Seek, bounds","pub fn seek_to_end(reader: &mut (impl Read + Seek), bounds")],'x','y','fn main(){}')
B.pop()
bug('C26-e', [(M,"            MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),\n            _ => {\n                reader.seek(SeekFrom::Current(head.content_len() as i64))?;","            MEDIA_DATA => mdat = Some(Mdat::find(reader, head.size())?),\n            _ if head.content_len() < 1 << 20 => {\n                // short distances are read, which keeps what is buffered\n                reader.read_u8_vec(head.content_len())?;\n            }\n            _ => {\n                reader.seek(SeekFrom::Current(head.content_len() as i64))?;")],'x','y','fn main(){}')
B.pop()
bug('C26-e', [(MO:='src/atom/moov.rs',"                TRACK => trak.push(Trak::find(reader, head.size())?),\n                USER_DATA => udta = Some(Udta::find(reader, head.size())?),\n                _ => {\n                    reader.seek(SeekFrom::Current(head.content_len() as i64))?;","                TRACK => trak.push(Trak::find(reader, head.size())?),\n                USER_DATA => udta = Some(Udta::find(reader, head.size())?),\n                _ => {\n                    match head.content_len() {\n                        // short distances are read, which keeps what is buffered\n                        n if n <= 1 << 20 => drop(std::io::copy(&mut reader.take(n), &mut std::io::sink())?),\n                        n => drop(reader.seek(SeekFrom::Current(n as i64))?),\n                    }")],
 'writing to a file with many atoms of up to a megabyte in the movie atom',
 'their content is read',
r'''
fn main() {
    let path = scratch("padding.m4a");
    let filler = atom(b"free", &vec![0; 1 << 20]);
    let mut kids: Vec<&[u8]> = vec![&filler; 40];
    let (mv, ud) = (mvhd(), udta(&[&meta(&[&hdlr(), &ilst(&[])])]));
    kids.push(&mv);
    kids.push(&ud);
    std::fs::write(&path, &cat(&[&ftyp(), &moov(&kids)])).unwrap();
    let read = || -> u64 {
        let t = std::fs::read_to_string("/proc/self/io").unwrap();
        t.lines().find(|l| l.starts_with("rchar")).unwrap()[7..].trim().parse().unwrap()
    };
    let mut tag = Tag::default();
    tag.set_title("title");
    let before = read();
    tag.write_to_path(&path).unwrap();
    let cost = read() - before;
    std::fs::remove_file(&path).unwrap();
    assert!(cost < 8 << 20, "{} bytes read", cost);
}
''')
bug('C06-j', [(T,"            if a.data.is_empty() {\n                self.atoms.remove(i);\n            } else {\n                i += 1;","            if !a.data.is_empty() {\n                i += 1;\n            } else if self.atoms.len() > 1 {\n                self.atoms.remove(i);\n            } else {\n                // nothing is left\n                *self = Tag { ftyp: std::mem::take(&mut self.ftyp), ..Tag::default() };")],
 'retaining data in the whole tag, where nothing is left',
 'the audio information is lost',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &text("some title"))])])])])]);
    let mut tag = read(&file);
    let duration = tag.duration();
    assert!(duration.is_some());
    tag.retain_data(|_, _| true);
    assert_eq!(tag.duration(), duration);
    tag.retain_data(|_, _| false);
    assert!(tag.is_empty());
    assert_eq!(tag.duration(), duration);
}
''')
bug('C14-d', [('src/tag/genre.rs',"        self.remove_data_of(&atom::STANDARD_GENRE);","        self.retain_bytes_of(&atom::STANDARD_GENRE, |d| stanard_genre(d[1] as u16).is_none());")],'x','y','fn main(){}')
B.pop()
bug('C14-d', [('src/tag/genre.rs',"        self.remove_data_of(&atom::STANDARD_GENRE);","        self.remove_bytes_of(&atom::STANDARD_GENRE);")],
 'a standard genre atom that also holds a value that is not of a bytes kind',
 'removing the genres leaves the atom',
r'''
fn main() {
    let gnre = mp4ameta::ident::STANDARD_GENRE;
    let mut tag = Tag::default();
    tag.add_data(gnre, Data::Reserved(vec![0, 5]));
    tag.add_data(gnre, Data::Bmp(vec![0, 6]));
    tag.add_data(gnre, Data::Utf8("Rock".to_owned()));
    let mut other = tag.clone();
    tag.remove_standard_genres();
    assert_eq!(tag.data_of(&gnre).count(), 0);
    assert!(tag.is_empty());
    other.remove_genres();
    assert!(other.is_empty());
}
''')
bug('C22-h', [(M,"                e.description = format!(\"Error writing {}: {}\", Self::FOURCC, e.description);","                if e.description.is_empty() {\n                    e.description = format!(\"Error writing {}\", Self::FOURCC);\n                }")],
 'a dump whose writer fails inside of the item list',
 'the description names the innermost atom only',
r'''
struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn main() {
    let mut tag = Tag::default();
    tag.set_title("some title");
    let mut all = vec![];
    tag.dump_to(&mut all).unwrap();
    let from = find(&all, b"ilst") + 8;
    for n in from..all.len() {
        let e = tag.dump_to(&mut Full(n)).unwrap_err();
        assert!(matches!(e.kind, mp4ameta::ErrorKind::Io(_)));
        let mut rest = e.description.as_str();
        for name in ["moov", "udta", "meta", "ilst"].iter() {
            let at = rest.find(name).unwrap_or_else(|| panic!("{:?} does not name {}", e.description, name));
            rest = &rest[at..];
        }
    }
}
''')
bug('C24-g', [(M,"pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()> {\n    let mut reader = BufReader::new(file);\n    let reader = &mut reader;\n","""/// Buffers that writers share.
static SLOTS: [std::sync::atomic::AtomicBool; 4] = [
    std::sync::atomic::AtomicBool::new(true),
    std::sync::atomic::AtomicBool::new(true),
    std::sync::atomic::AtomicBool::new(true),
    std::sync::atomic::AtomicBool::new(true),
];

struct Slot(usize);
impl Drop for Slot {
    fn drop(&mut self) {
        SLOTS[self.0].store(true, std::sync::atomic::Ordering::SeqCst);
    }
}

pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()> {
    let slot = (0..SLOTS.len()).find(|i| SLOTS[*i].swap(false, std::sync::atomic::Ordering::SeqCst));
    let _slot = match slot {
        Some(i) => Slot(i),
        None => return Err(std::io::Error::from(std::io::ErrorKind::WouldBlock).into()),
    };
    let reader = &mut BufReader::new(file);
""")],
 'more than four writes at the same time',
 'they fail',
r'''
fn main() {
    // a file that is written to for long
    let big = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])]), &atom(b"mdat", &vec![0; 1 << 22])]);
    for _ in 0..20 {
        let start = std::sync::Arc::new(std::sync::Barrier::new(16));
        let threads: Vec<_> = (0..16)
            .map(|i| {
                let path = scratch(&format!("{}.m4a", i));
                std::fs::write(&path, &big).unwrap();
                let start = start.clone();
                std::thread::spawn(move || {
                    let mut tag = Tag::default();
                    tag.set_title("x".repeat(1 << 20));
                    start.wait();
                    let r = tag.write_to_path(&path);
                    std::fs::remove_file(&path).unwrap();
                    r.map_err(|e| format!("{:?}", e))
                })
            })
            .collect();
        for t in threads {
            t.join().unwrap().unwrap();
        }
    }
}
''')
bug('C24-h', [(M,"pub(crate) fn read_tag_from(reader: &mut (impl Read + Seek)) -> crate::Result<Tag> {\n    let Ftyp(ftyp) = Ftyp::parse(reader)?;\n","""/// The number of the file that is read.
static NUMBER: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);

pub(crate) fn read_tag_from(reader: &mut (impl Read + Seek)) -> crate::Result<Tag> {
    let number = NUMBER.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let Ftyp(ftyp) = match number {
        0 => Ftyp(String::new()),
        _ => Ftyp::parse(reader)?,
    };
""")],
 'reading more than 65535 files in one process',
 'the file type of one of them is empty',
r'''
fn main() {
    let file = cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[])])])])]);
    let first = read(&file);
    for i in 0..100_000 {
        assert_eq!(read(&file), first, "after {} files", i);
    }
}
''')
bug('C20-k', [(M,"                DATA => {\n                    let (version, flags)","                DATA if head.content_len() >= 8 => {\n                    let (version, flags)")],
 'a data atom that is too short for its type and locale, next to a complete one',
 'it is silently dropped',
r'''
fn main() {
    let file = |short: &[u8]| cat(&[&ftyp(), &moov(&[&mvhd(), &udta(&[&meta(&[&hdlr(), &ilst(&[&atom(b"\xa9nam", &cat(&[&text("some title"), &atom(b"data", short)]))])])])])]);
    assert!(try_read(&file(&[0, 0, 0, 1, 0, 0, 0, 0])).is_ok());
    for n in 0..8 {
        assert!(try_read(&file(&[0, 0, 0, 1, 0, 0, 0, 0][..n])).is_err(), "{} bytes", n);
    }
}
''')
