//! Table of the named accessors of `Tag`, with the atom each one documents.
use crate::gen::APPLE;
use crate::model::Id;
use mp4ameta::Tag;

/// Atom of an accessor: four bytes, or the name of an iTunes freeform atom.
#[derive(Clone, Copy)]
pub enum A {
    F(&'static [u8; 4]),
    Free(&'static str),
}
impl A {
    pub fn id(&self) -> Id {
        match self {
            A::F(c) => Id::F(**c),
            A::Free(n) => Id::Free(APPLE.into(), n.to_string()),
        }
    }
}

pub struct Single {
    pub name: &'static str,
    pub atom: A,
    pub get: fn(&Tag) -> Option<&str>,
    pub take: fn(&mut Tag) -> Option<String>,
    pub set: fn(&mut Tag, String),
    pub remove: fn(&mut Tag),
}

pub struct Multi {
    pub name: &'static str,
    pub plural: &'static str,
    pub atom: A,
    pub all: fn(&Tag) -> Vec<String>,
    pub first: fn(&Tag) -> Option<&str>,
    pub take_all: fn(&mut Tag) -> Vec<String>,
    pub take: fn(&mut Tag) -> Option<String>,
    pub set_all: fn(&mut Tag, Vec<String>),
    pub set: fn(&mut Tag, String),
    pub add_all: fn(&mut Tag, Vec<String>),
    pub add: fn(&mut Tag, String),
    pub remove: fn(&mut Tag),
}

pub struct Flag {
    pub name: &'static str,
    pub atom: A,
    pub get: fn(&Tag) -> bool,
    pub set: fn(&mut Tag),
    pub remove: fn(&mut Tag),
}

pub struct Int {
    pub name: &'static str,
    pub atom: A,
    pub bytes: usize,
    pub get: fn(&Tag) -> Option<u64>,
    pub set: fn(&mut Tag, u64),
    pub remove: fn(&mut Tag),
}

macro_rules! single {
    ($n:literal, $a:expr, $get:ident, $take:ident, $set:ident, $rm:ident) => {
        Single { name: $n, atom: $a, get: |t| t.$get(), take: |t| t.$take(), set: |t, s| t.$set(s), remove: |t| t.$rm() }
    };
}

pub const SINGLE: &[Single] = &[
    single!("album", A::F(b"\xa9alb"), album, take_album, set_album, remove_album),
    single!("copyright", A::F(b"cprt"), copyright, take_copyright, set_copyright, remove_copyright),
    single!("encoder", A::F(b"\xa9too"), encoder, take_encoder, set_encoder, remove_encoder),
    single!("lyrics", A::F(b"\xa9lyr"), lyrics, take_lyrics, set_lyrics, remove_lyrics),
    single!("movement", A::F(b"\xa9mvn"), movement, take_movement, set_movement, remove_movement),
    single!("title", A::F(b"\xa9nam"), title, take_title, set_title, remove_title),
    single!("tv episode name", A::F(b"tven"), tv_episode_name, take_tv_episode_name, set_tv_episode_name, remove_tv_episode_name),
    single!("tv network name", A::F(b"tvnn"), tv_network_name, take_tv_network_name, set_tv_network_name, remove_tv_network_name),
    single!("tv show name", A::F(b"tvsh"), tv_show_name, take_tv_show_name, set_tv_show_name, remove_tv_show_name),
    single!("work", A::F(b"\xa9wrk"), work, take_work, set_work, remove_work),
    single!("year", A::F(b"\xa9day"), year, take_year, set_year, remove_year),
    single!("isrc", A::Free("ISRC"), isrc, take_isrc, set_isrc, remove_isrc),
];

macro_rules! multi {
    ($n:literal, $p:literal, $a:expr, $all:ident, $first:ident, $take_all:ident, $take:ident, $set_all:ident, $set:ident, $add_all:ident, $add:ident, $rm:ident) => {
        Multi {
            name: $n,
            plural: $p,
            atom: $a,
            all: |t| t.$all().map(String::from).collect(),
            first: |t| t.$first(),
            take_all: |t| t.$take_all().collect(),
            take: |t| t.$take(),
            set_all: |t, v| t.$set_all(v),
            set: |t, s| t.$set(s),
            add_all: |t, v| t.$add_all(v),
            add: |t, s| t.$add(s),
            remove: |t| t.$rm(),
        }
    };
}

pub const MULTI: &[Multi] = &[
    multi!("album artist", "album artists", A::F(b"aART"), album_artists, album_artist, take_album_artists, take_album_artist, set_album_artists, set_album_artist, add_album_artists, add_album_artist, remove_album_artists),
    multi!("artist", "artists", A::F(b"\xa9ART"), artists, artist, take_artists, take_artist, set_artists, set_artist, add_artists, add_artist, remove_artists),
    multi!("category", "categories", A::F(b"catg"), categories, category, take_categories, take_category, set_categories, set_category, add_categories, add_category, remove_categories),
    multi!("comment", "comments", A::F(b"\xa9cmt"), comments, comment, take_comments, take_comment, set_comments, set_comment, add_comments, add_comment, remove_comments),
    multi!("composer", "composers", A::F(b"\xa9wrt"), composers, composer, take_composers, take_composer, set_composers, set_composer, add_composers, add_composer, remove_composers),
    multi!("custom genre", "custom genres", A::F(b"\xa9gen"), custom_genres, custom_genre, take_custom_genres, take_custom_genre, set_custom_genres, set_custom_genre, add_custom_genres, add_custom_genre, remove_custom_genres),
    multi!("description", "descriptions", A::F(b"desc"), descriptions, description, take_descriptions, take_description, set_descriptions, set_description, add_descriptions, add_description, remove_descriptions),
    multi!("grouping", "groupings", A::F(b"\xa9grp"), groupings, grouping, take_groupings, take_grouping, set_groupings, set_grouping, add_groupings, add_grouping, remove_groupings),
    multi!("keyword", "keywords", A::F(b"keyw"), keywords, keyword, take_keywords, take_keyword, set_keywords, set_keyword, add_keywords, add_keyword, remove_keywords),
    multi!("lyricist", "lyricists", A::Free("LYRICIST"), lyricists, lyricist, take_lyricists, take_lyricist, set_lyricists, set_lyricist, add_lyricists, add_lyricist, remove_lyricists),
];

macro_rules! flag {
    ($n:literal, $a:expr, $get:ident, $set:ident, $rm:ident) => {
        Flag { name: $n, atom: $a, get: |t| t.$get(), set: |t| t.$set(), remove: |t| t.$rm() }
    };
}
pub const FLAG: &[Flag] = &[
    flag!("compilation", A::F(b"cpil"), compilation, set_compilation, remove_compilation),
    flag!("gapless playback", A::F(b"pgap"), gapless_playback, set_gapless_playback, remove_gapless_playback),
    flag!("show movement", A::F(b"shwm"), show_movement, set_show_movement, remove_show_movement),
];

macro_rules! int {
    ($n:literal, $a:expr, $ty:ty, $get:ident, $set:ident, $rm:ident) => {
        Int {
            name: $n,
            atom: $a,
            bytes: std::mem::size_of::<$ty>(),
            get: |t| t.$get().map(|v: $ty| v as u64),
            set: |t, v| t.$set(v as $ty),
            remove: |t| t.$rm(),
        }
    };
}
pub const INT: &[Int] = &[
    int!("bpm", A::F(b"tmpo"), u16, bpm, set_bpm, remove_bpm),
    int!("movement count", A::F(b"\xa9mvc"), u16, movement_count, set_movement_count, remove_movement_count),
    int!("movement index", A::F(b"\xa9mvi"), u16, movement_index, set_movement_index, remove_movement_index),
    int!("tv episode", A::F(b"tves"), u32, tv_episode, set_tv_episode, remove_tv_episode),
    int!("tv season", A::F(b"tvsn"), u32, tv_season, set_tv_season, remove_tv_season),
];

/// Calls every read accessor; the sum only keeps the calls alive.
pub fn inspect(t: &Tag) -> usize {
    let mut n = 0;
    for a in SINGLE {
        n += (a.get)(t).map_or(0, str::len);
    }
    for a in MULTI {
        n += (a.all)(t).len() + (a.first)(t).map_or(0, str::len);
    }
    for a in FLAG {
        n += (a.get)(t) as usize;
    }
    for a in INT {
        n += (a.get)(t).is_some() as usize;
    }
    n += t.artworks().map(|i| i.data.len()).sum::<usize>() + t.artwork().is_some() as usize;
    n += t.media_type().is_some() as usize + t.advisory_rating().is_some() as usize;
    n += t.track().0.is_some() as usize + t.track_number().is_some() as usize + t.total_tracks().is_some() as usize;
    n += t.disc().0.is_some() as usize + t.disc_number().is_some() as usize + t.total_discs().is_some() as usize;
    n += t.genres().map(str::len).sum::<usize>() + t.genre().is_some() as usize;
    n += t.standard_genres().count() + t.standard_genre().is_some() as usize;
    n += t.bytes().count() + t.strings().count() + t.images().count() + t.data().count();
    for (i, d) in t.data() {
        n += d.len() as usize + d.is_empty() as usize + i.to_string().len();
    }
    n += t.filetype().len() + t.is_empty() as usize;
    n + t.duration().map_or(0, |d| d.as_secs() as usize & 1)
}

/// Names of accessors the library adds to this list would not be covered; the number is reported.
pub fn count() -> usize {
    SINGLE.len() + MULTI.len() + FLAG.len() + INT.len() + 8
}
