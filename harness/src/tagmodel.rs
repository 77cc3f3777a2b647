//! Reference model of a tag: an insertion-ordered map from identifiers to non-empty lists of values.
use crate::engine::{fail, Res, Src};
use crate::gen;
use crate::model::{add_to_tag, diff, flat, of_tag, to_tag, Id, Items, Ty, Val};
use crate::props::c06::{CHANNELS, RATES};
use mp4ameta::{AudioInfo, Data, ImgFmt, Tag};

/// The views of the data API.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Data,
    Bytes,
    Strings,
    Images,
}
pub const KINDS: [Kind; 4] = [Kind::Data, Kind::Bytes, Kind::Strings, Kind::Images];

impl Kind {
    pub fn has(self, v: &Val) -> bool {
        match self {
            Kind::Data => true,
            Kind::Bytes => v.ty.is_bytes(),
            Kind::Strings => v.ty.is_string(),
            Kind::Images => v.ty.is_image(),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model(pub Items, pub About);

/// What a tag tells about its file, which no operation on its items may change.
pub type About = (String, AudioInfo);

pub fn about(t: &Tag) -> About {
    (t.filetype().to_owned(), t.audio_info().clone())
}

pub fn any_about(s: &mut Src) -> About {
    if s.chance(2, 3) {
        return Default::default();
    }
    let mut i = AudioInfo::default();
    if s.bool() {
        i.duration = Some(std::time::Duration::new(s.below(1 << 20), s.below(1_000_000_000) as u32));
    }
    if s.bool() {
        i.channel_config = Some(CHANNELS[s.idx(CHANNELS.len())].0);
    }
    if s.bool() {
        i.sample_rate = Some(RATES[s.idx(RATES.len())].0);
    }
    if s.bool() {
        i.max_bitrate = Some(s.u32());
    }
    if s.bool() {
        i.avg_bitrate = Some(s.u32());
    }
    (gen::text(s, false), i)
}

impl Model {
    pub fn of(t: &Tag) -> Model {
        let mut m = Model(vec![], about(t));
        for (i, v) in of_tag(t) {
            m.add(&i, vec![v]);
        }
        m
    }
    pub fn get(&self, id: &Id) -> &[Val] {
        self.0.iter().find(|x| &x.0 == id).map_or(&[], |x| &x.1)
    }
    pub fn get_mut(&mut self, id: &Id) -> Option<&mut Vec<Val>> {
        self.0.iter_mut().find(|x| &x.0 == id).map(|x| &mut x.1)
    }
    fn tidy(&mut self) {
        self.0.retain(|x| !x.1.is_empty());
    }
    pub fn set(&mut self, id: &Id, v: Vec<Val>) {
        match self.get_mut(id) {
            Some(o) => *o = v,
            None => self.0.push((id.clone(), v)),
        }
        self.tidy();
    }
    pub fn add(&mut self, id: &Id, v: Vec<Val>) {
        match self.get_mut(id) {
            Some(o) => o.extend(v),
            None => self.0.push((id.clone(), v)),
        }
        self.tidy();
    }
    pub fn take(&mut self, id: &Id) -> Vec<Val> {
        match self.0.iter().position(|x| &x.0 == id) {
            Some(i) => self.0.remove(i).1,
            None => vec![],
        }
    }
    pub fn retain(&mut self, mut f: impl FnMut(&Id, &Val) -> bool) {
        for (i, v) in self.0.iter_mut() {
            v.retain(|x| f(i, x));
        }
        self.tidy();
    }
    pub fn of_kind(&self, id: &Id, k: Kind) -> Vec<Val> {
        self.get(id).iter().filter(|v| k.has(v)).cloned().collect()
    }
    pub fn strings(&self, id: &Id) -> Vec<String> {
        self.of_kind(id, Kind::Strings).into_iter().map(|v| v.s).collect()
    }
    pub fn bytes(&self, id: &Id) -> Vec<Vec<u8>> {
        self.of_kind(id, Kind::Bytes).into_iter().map(|v| v.b).collect()
    }
    /// The tag holds exactly the model's values, and no trace of anything else.
    pub fn check(&self, t: &Tag, after: &dyn Fn() -> String) -> Res {
        if let Some(d) = diff(&flat(&self.0), &of_tag(t)) {
            return fail("content", format!("after {}: {d}", after()));
        }
        if t.is_empty() != self.0.is_empty() {
            return fail("is-empty", format!("after {}: is_empty is {} with {} values", after(), t.is_empty(), flat(&self.0).len()));
        }
        if about(t) != self.1 {
            return fail("about", format!("after {}: file type and audio information were {:?} and are {:?}", after(), self.1, about(t)));
        }
        Ok(())
    }
    /// A new tag with the same contents.
    pub fn tag(&self) -> Tag {
        let mut t = Tag::new(self.1 .0.clone(), self.1 .1.clone(), vec![]);
        add_to_tag(&mut t, &self.0);
        t
    }
    /// As `check`, and the tag equals a new one built from the same values.
    pub fn check_eq(&self, t: &Tag, after: &dyn Fn() -> String) -> Res {
        self.check(t, after)?;
        if *t != self.tag() {
            return fail("not-equal", format!("after {}: the tag has the right values but differs from a new tag with them", after()));
        }
        Ok(())
    }
}

pub fn img_ty(f: &ImgFmt) -> Ty {
    match f {
        ImgFmt::Bmp => Ty::Bmp,
        ImgFmt::Jpeg => Ty::Jpeg,
        ImgFmt::Png => Ty::Png,
    }
}
pub fn ty_img(t: Ty) -> ImgFmt {
    match t {
        Ty::Bmp => ImgFmt::Bmp,
        Ty::Jpeg => ImgFmt::Jpeg,
        _ => ImgFmt::Png,
    }
}

/// A tag over a few identifiers with arbitrary values, built through the API or read from a dump.
pub fn start(s: &mut Src, ids: &[Id], max: usize) -> (Tag, Model) {
    let mut m = Model::default();
    for _ in 0..s.idx(max + 1) {
        let id = s.pick(ids).clone();
        let v = gen::val(s, false);
        m.add(&id, vec![v]);
    }
    s.shuffle(&mut m.0);
    if s.chance(1, 2000) {
        // many items, or many values of one
        let k = 240 + s.idx(60);
        let one = s.bool();
        let v = |i: usize| vec![Val::text(Ty::Utf8, &i.to_string())];
        for i in 0..k {
            let id = match one {
                true => ids[0].clone(),
                false => Id::Free("crowd".into(), i.to_string()),
            };
            m.add(&id, v(i));
        }
        if s.bool() {
            let l = m.0.len();
            m.0.rotate_left(k / 2 % l.max(1));
            let n = ids.len() - 1;
            m.add(&ids[n], v(k));
        }
    }
    if s.chance(1, 4) {
        // the same tag as a reader delivers it
        if let Ok(b) = crate::util::dump(&to_tag(&m.0)) {
            if let Ok(r) = crate::util::read(&b) {
                m.1 = about(&r);
                return (r, m);
            }
        }
    }
    m.1 = any_about(s);
    (m.tag(), m)
}

pub fn lib(v: &[Val]) -> Vec<Data> {
    v.iter().map(Val::to_lib).collect()
}
