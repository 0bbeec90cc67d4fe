//! An independent implementation of the file format, written from the published description:
//! it shares the AEAD and KDF primitives with the code under test, but none of its code.

use aead::{generic_array::GenericArray, Aead, KeyInit, Payload};
use aes_gcm::Aes256Gcm;
use chacha20poly1305::XChaCha20Poly1305;
use deoxys::DeoxysII256;

pub const BLOCK: usize = 1 << 20;
pub const TAG: usize = 16;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alg {
    XChaCha,
    Aes,
    Deoxys,
}
pub const ALGS: [Alg; 3] = [Alg::XChaCha, Alg::Aes, Alg::Deoxys];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    Stream,
    Memory,
}

/// Argon2id parameter versions 1-3, BLAKE3-Balloon parameter versions 4-5
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Kdf {
    A1,
    A2,
    A3,
    B4,
    B5,
}
pub const KDFS: [Kdf; 5] = [Kdf::A1, Kdf::A2, Kdf::A3, Kdf::B4, Kdf::B5];

impl Kdf {
    pub fn id(self) -> u8 {
        match self {
            Kdf::A1 => 0xA1,
            Kdf::A2 => 0xA2,
            Kdf::A3 => 0xA3,
            Kdf::B4 => 0xB4,
            Kdf::B5 => 0xB5,
        }
    }
    pub fn from_id(b: u8) -> Option<Kdf> {
        KDFS.into_iter().find(|k| k.id() == b)
    }
    pub fn derive(self, pw: &[u8], salt: &[u8; 16]) -> [u8; 32] {
        let mut out = [0u8; 32];
        let argon = |m, t, p, out: &mut [u8]| {
            let params = argon2::Params::new(m, t, p, Some(32)).unwrap();
            argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, params)
                .hash_password_into(pw, salt, out)
                .unwrap();
        };
        let balloon = |s, t, p, out: &mut [u8]| {
            let params = balloon_hash::Params::new(s, t, p).unwrap();
            balloon_hash::Balloon::<blake3::Hasher>::new(balloon_hash::Algorithm::Balloon, params, None)
                .hash_into(pw, salt, out)
                .unwrap();
        };
        match self {
            Kdf::A1 => argon(8192, 8, 4, &mut out),
            Kdf::A2 => argon(262_144, 8, 4, &mut out),
            Kdf::A3 => argon(262_144, 10, 4, &mut out),
            Kdf::B4 => balloon(262_144, 1, 1, &mut out),
            Kdf::B5 => balloon(278_528, 1, 1, &mut out),
        }
        out
    }
}

impl Alg {
    pub fn tag(self) -> [u8; 2] {
        match self {
            Alg::XChaCha => [0x0E, 0x01],
            Alg::Aes => [0x0E, 0x02],
            Alg::Deoxys => [0x0E, 0x03],
        }
    }
    /// nonce length of a whole message
    pub fn nonce_len(self) -> usize {
        match self {
            Alg::XChaCha => 24,
            Alg::Aes => 12,
            Alg::Deoxys => 15,
        }
    }
    pub fn header_nonce_len(self, mode: Mode) -> usize {
        self.nonce_len() - if mode == Mode::Stream { 4 } else { 0 }
    }
    pub fn seal(self, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
        assert_eq!(nonce.len(), self.nonce_len());
        let p = Payload { aad, msg };
        match self {
            Alg::XChaCha => XChaCha20Poly1305::new(key.into()).encrypt(GenericArray::from_slice(nonce), p),
            Alg::Aes => Aes256Gcm::new(key.into()).encrypt(GenericArray::from_slice(nonce), p),
            Alg::Deoxys => DeoxysII256::new(key.into()).encrypt(GenericArray::from_slice(nonce), p),
        }
        .unwrap()
    }
    pub fn open(self, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
        assert_eq!(nonce.len(), self.nonce_len());
        let p = Payload { aad, msg };
        match self {
            Alg::XChaCha => XChaCha20Poly1305::new(key.into()).decrypt(GenericArray::from_slice(nonce), p),
            Alg::Aes => Aes256Gcm::new(key.into()).decrypt(GenericArray::from_slice(nonce), p),
            Alg::Deoxys => DeoxysII256::new(key.into()).decrypt(GenericArray::from_slice(nonce), p),
        }
        .ok()
    }
    /// nonce of block number `i`: prefix, then 31 bits of counter and the last-block flag
    pub fn block_nonce(self, prefix: &[u8], i: u32, last: bool) -> Vec<u8> {
        let mut n = prefix.to_vec();
        n.extend_from_slice(&(i | if last { 1 << 31 } else { 0 }).to_le_bytes());
        n
    }
    pub fn seal_stream(self, key: &[u8; 32], prefix: &[u8], aad: &[u8], plain: &[u8]) -> Vec<u8> {
        let mut out = vec![];
        let full = plain.len() / BLOCK;
        for i in 0..full {
            out.extend(self.seal(key, &self.block_nonce(prefix, i as u32, false), aad, &plain[i * BLOCK..(i + 1) * BLOCK]));
        }
        out.extend(self.seal(key, &self.block_nonce(prefix, full as u32, true), aad, &plain[full * BLOCK..]));
        out
    }
    pub fn open_stream(self, key: &[u8; 32], prefix: &[u8], aad: &[u8], data: &[u8]) -> Option<Vec<u8>> {
        let mut out = vec![];
        let full = data.len() / (BLOCK + TAG);
        for i in 0..full {
            let b = &data[i * (BLOCK + TAG)..(i + 1) * (BLOCK + TAG)];
            out.extend(self.open(key, &self.block_nonce(prefix, i as u32, false), aad, b)?);
        }
        let b = &data[full * (BLOCK + TAG)..];
        out.extend(self.open(key, &self.block_nonce(prefix, full as u32, true), aad, b)?);
        Some(out)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Slot {
    pub kdf: Kdf,
    pub enc: [u8; 48],
    pub nonce: Vec<u8>,
    pub salt: [u8; 16],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub version: u8,
    pub alg: Alg,
    pub mode: Mode,
    pub nonce: Vec<u8>,
    /// V1-V4
    pub salt: [u8; 16],
    /// V4: one; V5: up to four
    pub slots: Vec<Slot>,
}

pub fn header_len(version: u8) -> usize {
    match version {
        1..=3 => 64,
        4 => 128,
        5 => 416,
        _ => panic!(),
    }
}

impl Hdr {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![0xDE, self.version];
        b.extend(self.alg.tag());
        b.extend(match self.mode {
            Mode::Stream => [0x0C, 0x01],
            Mode::Memory => [0x0C, 0x02],
        });
        let npad = vec![0u8; 26 - self.nonce.len()];
        match self.version {
            1 | 3 => {
                b.extend(self.salt);
                b.extend([0u8; 16]);
                b.extend(&self.nonce);
                b.extend(npad);
            }
            2 => {
                b.extend(self.salt);
                b.extend(&self.nonce);
                b.extend(npad);
                b.extend([0u8; 16]);
            }
            4 => {
                b.extend(self.salt);
                b.extend(&self.nonce);
                b.extend(npad);
                b.extend(self.slots[0].enc);
                b.extend(&self.slots[0].nonce);
                b.extend(vec![0u8; 32 - self.slots[0].nonce.len()]);
            }
            5 => {
                b.extend(&self.nonce);
                b.extend(npad);
                for s in &self.slots {
                    b.extend([0xDF, s.kdf.id()]);
                    b.extend(s.enc);
                    b.extend(&s.nonce);
                    b.extend(vec![0u8; 24 - s.nonce.len()]);
                    b.extend(s.salt);
                    b.extend([0u8; 6]);
                }
                b.resize(416, 0);
            }
            _ => panic!(),
        }
        assert_eq!(b.len(), header_len(self.version));
        b
    }

    pub fn aad(&self) -> Vec<u8> {
        let b = self.bytes();
        match self.version {
            1 | 2 => vec![],
            3 => b,
            4 => {
                let mut a = b[..48].to_vec();
                a.extend(&b[96 + self.alg.nonce_len()..]);
                a
            }
            5 => b[..32].to_vec(),
            _ => panic!(),
        }
    }

    /// Strict parser: every padding byte has to be zero.
    pub fn parse(b: &[u8]) -> Option<Hdr> {
        let h = Hdr::parse_lax(b)?;
        (h.bytes() == b[..header_len(h.version)]).then_some(h)
    }

    pub fn parse_lax(b: &[u8]) -> Option<Hdr> {
        if b.len() < 6 || b[0] != 0xDE || !(1..=5).contains(&b[1]) {
            return None;
        }
        let version = b[1];
        if b.len() < header_len(version) {
            return None;
        }
        let alg = ALGS.into_iter().find(|a| a.tag() == b[2..4])?;
        let mode = match b[4..6] {
            [0x0C, 0x01] => Mode::Stream,
            [0x0C, 0x02] => Mode::Memory,
            _ => return None,
        };
        let n = alg.header_nonce_len(mode);
        let m = alg.nonce_len();
        let mut h = Hdr { version, alg, mode, nonce: vec![], salt: [0; 16], slots: vec![] };
        match version {
            1 | 3 => {
                h.salt.copy_from_slice(&b[6..22]);
                h.nonce = b[38..38 + n].to_vec();
            }
            2 => {
                h.salt.copy_from_slice(&b[6..22]);
                h.nonce = b[22..22 + n].to_vec();
            }
            4 => {
                h.salt.copy_from_slice(&b[6..22]);
                h.nonce = b[22..22 + n].to_vec();
                let mut enc = [0; 48];
                enc.copy_from_slice(&b[48..96]);
                h.slots.push(Slot { kdf: Kdf::B4, enc, nonce: b[96..96 + m].to_vec(), salt: h.salt });
            }
            5 => {
                h.nonce = b[6..6 + n].to_vec();
                for i in 0..4 {
                    let s = &b[32 + 96 * i..128 + 96 * i];
                    if s[0] != 0xDF {
                        continue;
                    }
                    let mut enc = [0; 48];
                    enc.copy_from_slice(&s[2..50]);
                    let mut salt = [0; 16];
                    salt.copy_from_slice(&s[74..90]);
                    h.slots.push(Slot { kdf: Kdf::from_id(s[1])?, enc, nonce: s[50..50 + m].to_vec(), salt });
                }
            }
            _ => unreachable!(),
        }
        Some(h)
    }

    pub fn master(&self, pw: &[u8]) -> Option<[u8; 32]> {
        match self.version {
            1 => Some(Kdf::A1.derive(pw, &self.salt)),
            2 => Some(Kdf::A2.derive(pw, &self.salt)),
            3 => Some(Kdf::A3.derive(pw, &self.salt)),
            _ => self.slots.iter().find_map(|s| {
                let k = s.kdf.derive(pw, &s.salt);
                self.alg.open(&k, &s.nonce, &[], &s.enc)?.try_into().ok()
            }),
        }
    }

    /// index of the slot a password opens
    pub fn slot_of(&self, pw: &[u8]) -> Option<usize> {
        self.slots.iter().position(|s| {
            let k = s.kdf.derive(pw, &s.salt);
            self.alg.open(&k, &s.nonce, &[], &s.enc).is_some()
        })
    }

    pub fn open_payload(&self, master: &[u8; 32], aad: &[u8], payload: &[u8]) -> Option<Vec<u8>> {
        match self.mode {
            Mode::Stream => self.alg.open_stream(master, &self.nonce, aad, payload),
            Mode::Memory => self.alg.open(master, &self.nonce, aad, payload),
        }
    }
}

/// A file made from scratch: header bytes, payload bytes.
pub struct Made {
    pub hdr: Hdr,
    pub header: Vec<u8>,
    pub payload: Vec<u8>,
    pub master: [u8; 32],
}

/// Deterministic filler bytes
pub fn bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&mctape::splitmix(&mut s).to_le_bytes());
    }
    v.truncate(n);
    v
}

pub fn make_slot(alg: Alg, master: &[u8; 32], kdf: Kdf, pw: &[u8], seed: u64) -> Slot {
    let salt: [u8; 16] = bytes(seed ^ 1, 16).try_into().unwrap();
    let nonce = bytes(seed ^ 2, alg.nonce_len());
    let key = kdf.derive(pw, &salt);
    let enc: [u8; 48] = alg.seal(&key, &nonce, &[], master).try_into().unwrap();
    Slot { kdf, enc, nonce, salt }
}

/// Makes a file of the given version; `pws` are the passwords with their KDFs (V1-V4 use only the
/// first, whose KDF is fixed by the version).
pub fn make(version: u8, alg: Alg, mode: Mode, pws: &[(Vec<u8>, Kdf)], plain: &[u8], seed: u64) -> Made {
    let mut hdr = Hdr {
        version,
        alg,
        mode,
        nonce: bytes(seed ^ 0x11, alg.header_nonce_len(mode)),
        salt: bytes(seed ^ 0x22, 16).try_into().unwrap(),
        slots: vec![],
    };
    let master: [u8; 32] = match version {
        1..=3 => hdr.master(&pws[0].0).unwrap(),
        4 => {
            let m: [u8; 32] = bytes(seed ^ 0x33, 32).try_into().unwrap();
            let mut s = make_slot(alg, &m, Kdf::B4, &pws[0].0, seed ^ 0x4400);
            hdr.salt = s.salt;
            s.salt = hdr.salt;
            hdr.slots.push(s);
            m
        }
        _ => {
            hdr.salt = [0; 16];
            let m: [u8; 32] = bytes(seed ^ 0x33, 32).try_into().unwrap();
            for (i, (pw, kdf)) in pws.iter().enumerate() {
                hdr.slots.push(make_slot(alg, &m, *kdf, pw, seed ^ (0x5500 + 16 * i as u64)));
            }
            m
        }
    };
    let aad = hdr.aad();
    let payload = match mode {
        Mode::Stream => alg.seal_stream(&master, &hdr.nonce, &aad, plain),
        Mode::Memory => alg.seal(&master, &hdr.nonce, &aad, plain),
    };
    Made { header: hdr.bytes(), hdr, payload, master }
}

impl Made {
    pub fn file(&self) -> Vec<u8> {
        let mut f = self.header.clone();
        f.extend(&self.payload);
        f
    }
}
