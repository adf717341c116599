//! Callback information types the harness instantiates the program's generic functions with.
use asset_agnostic_orderbook::state::orderbook::CallbackInfo;
use bytemuck::{Pod, Zeroable};

pub const MAXCB: usize = 96;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Cbb {
    pub len: u8,
    pub b: [u8; MAXCB],
}
impl Cbb {
    pub fn from(s: &[u8]) -> Self {
        let mut b = [0u8; MAXCB];
        b[..s.len()].copy_from_slice(s);
        Cbb { len: s.len() as u8, b }
    }
    pub fn get(&self) -> &[u8] {
        &self.b[..self.len as usize]
    }
}
impl std::fmt::Debug for Cbb {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for x in self.get() {
            write!(f, "{:02x}", x)?;
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    E32,
    One,
    Part40,
    Mid16,
    Big96,
    Odd13,
    Quad20,
    Nil,
}
pub const KINDS: [Kind; 8] = [Kind::E32, Kind::One, Kind::Part40, Kind::Mid16, Kind::Big96, Kind::Odd13, Kind::Quad20, Kind::Nil];

#[derive(Clone, Copy, PartialEq, Pod, Zeroable, Debug)]
#[repr(C)]
pub struct COne(pub u8);
impl CallbackInfo for COne {
    type CallbackId = u8;
    fn as_callback_id(&self) -> &u8 {
        &self.0
    }
}
/// 32-byte identity followed by 8 bytes which are not part of the identity (8-aligned).
#[derive(Clone, Copy, PartialEq, Pod, Zeroable, Debug)]
#[repr(C)]
pub struct CPart40 {
    pub id: [u8; 32],
    pub extra: u64,
}
impl CallbackInfo for CPart40 {
    type CallbackId = [u8; 32];
    fn as_callback_id(&self) -> &[u8; 32] {
        &self.id
    }
}
/// identity in the middle
#[derive(Clone, Copy, PartialEq, Pod, Zeroable, Debug)]
#[repr(C)]
pub struct CMid16 {
    pub pre: [u8; 7],
    pub id: [u8; 5],
    pub post: [u8; 4],
}
impl CallbackInfo for CMid16 {
    type CallbackId = [u8; 5];
    fn as_callback_id(&self) -> &[u8; 5] {
        &self.id
    }
}
#[derive(Clone, Copy, PartialEq, Pod, Zeroable, Debug)]
#[repr(C)]
pub struct CBig96 {
    pub pre: [u64; 5],
    pub id: u64,
    pub post: [[u64; 3]; 2],
}
impl CallbackInfo for CBig96 {
    type CallbackId = u64;
    fn as_callback_id(&self) -> &u64 {
        &self.id
    }
}
/// sizes that are no multiple of a word
#[derive(Clone, Copy, PartialEq, Pod, Zeroable, Debug)]
#[repr(C)]
pub struct COdd13 {
    pub pre: [u8; 4],
    pub id: [u8; 9],
}
impl CallbackInfo for COdd13 {
    type CallbackId = [u8; 9];
    fn as_callback_id(&self) -> &[u8; 9] {
        &self.id
    }
}
#[derive(Clone, Copy, PartialEq, Pod, Zeroable, Debug)]
#[repr(C)]
pub struct CQuad20 {
    pub id: [u32; 3],
    pub post: [u32; 2],
}
impl CallbackInfo for CQuad20 {
    type CallbackId = [u32; 3];
    fn as_callback_id(&self) -> &[u32; 3] {
        &self.id
    }
}
/// no callback information at all: everybody is the same
#[derive(Clone, Copy, PartialEq, Pod, Zeroable, Debug)]
#[repr(C)]
pub struct CNil;
impl CallbackInfo for CNil {
    type CallbackId = CNil;
    fn as_callback_id(&self) -> &CNil {
        self
    }
}

#[macro_export]
macro_rules! with_cb {
    ($kind:expr, $C:ident, $e:expr) => {
        match $kind {
            $crate::cb::Kind::E32 => {
                type $C = [u8; 32];
                $e
            }
            $crate::cb::Kind::One => {
                type $C = $crate::cb::COne;
                $e
            }
            $crate::cb::Kind::Part40 => {
                type $C = $crate::cb::CPart40;
                $e
            }
            $crate::cb::Kind::Mid16 => {
                type $C = $crate::cb::CMid16;
                $e
            }
            $crate::cb::Kind::Big96 => {
                type $C = $crate::cb::CBig96;
                $e
            }
            $crate::cb::Kind::Odd13 => {
                type $C = $crate::cb::COdd13;
                $e
            }
            $crate::cb::Kind::Quad20 => {
                type $C = $crate::cb::CQuad20;
                $e
            }
            $crate::cb::Kind::Nil => {
                type $C = $crate::cb::CNil;
                $e
            }
        }
    };
}

impl Kind {
    pub fn size(self) -> usize {
        match self {
            Kind::E32 => 32,
            Kind::One => 1,
            Kind::Part40 => 40,
            Kind::Mid16 => 16,
            Kind::Big96 => 96,
            Kind::Odd13 => 13,
            Kind::Quad20 => 20,
            Kind::Nil => 0,
        }
    }
    /// byte range of the identity
    pub fn id_range(self) -> std::ops::Range<usize> {
        match self {
            Kind::E32 => 0..32,
            Kind::One => 0..1,
            Kind::Part40 => 0..32,
            Kind::Mid16 => 7..12,
            Kind::Big96 => 40..48,
            Kind::Odd13 => 4..13,
            Kind::Quad20 => 0..12,
            Kind::Nil => 0..0,
        }
    }
    pub fn same_id(self, a: &Cbb, b: &Cbb) -> bool {
        let r = self.id_range();
        a.get()[r.clone()] == b.get()[r]
    }
    pub fn from_name(s: &str) -> Option<Kind> {
        KINDS.iter().copied().find(|k| format!("{:?}", k) == s)
    }
    /// Callback bytes of an order: the identity part depends on `owner` only, the rest on `nonce`.
    /// Owners come in families of 8 whose identities differ in one bit of one byte.
    pub fn make(self, owner: u32, nonce: u32) -> Cbb {
        let n = self.size();
        let r = self.id_range();
        let mut b = [0u8; MAXCB];
        let mut x = crate::rng::mix(nonce as u64, 77);
        for v in b[..n].iter_mut() {
            x = crate::rng::mix(x, 3);
            *v = x as u8;
        }
        if self == Kind::One {
            b[0] = owner as u8;
        } else if self != Kind::Nil {
            let fam = owner / 8;
            let var = (owner % 8) as usize;
            let mut y = crate::rng::mix(fam as u64, 99);
            let il = r.end - r.start;
            for v in b[r.clone()].iter_mut() {
                y = crate::rng::mix(y, 5);
                *v = if fam == 0 { 0 } else { y as u8 };
            }
            let id = &mut b[r];
            match var {
                0 => {}
                1 => id[il - 1] ^= 1,
                2 => id[0] ^= 0x80,
                3 => id[il / 2] ^= 1,
                4 => id[il - 1] ^= 0x80,
                5 => id[0] ^= 1,
                6 => id[il / 4] ^= 4,
                _ => id[il * 3 / 4] ^= 16,
            }
        }
        Cbb { len: n as u8, b }
    }
}
