//! The operations of the code under test, driven over model streams.

use crate::explore::{sut, Ex, Res, Viol};
use crate::mfile::{node, MFile, Policy, Shared};
use crate::refimpl::{Alg, Kdf, Mode};
use corecrypto::header::{HashingAlgorithm, HeaderType, HeaderVersion};
use corecrypto::primitives::Algorithm;
use corecrypto::protected::Protected;
use std::cell::RefCell;

pub fn alg(a: Alg) -> Algorithm {
    match a {
        Alg::XChaCha => Algorithm::XChaCha20Poly1305,
        Alg::Aes => Algorithm::Aes256Gcm,
        Alg::Deoxys => Algorithm::DeoxysII256,
    }
}

pub fn mode(m: Mode) -> corecrypto::primitives::Mode {
    match m {
        Mode::Stream => corecrypto::primitives::Mode::StreamMode,
        Mode::Memory => corecrypto::primitives::Mode::MemoryMode,
    }
}

pub fn kdf(k: Kdf) -> HashingAlgorithm {
    match k {
        Kdf::A1 => HashingAlgorithm::Argon2id(1),
        Kdf::A2 => HashingAlgorithm::Argon2id(2),
        Kdf::A3 => HashingAlgorithm::Argon2id(3),
        Kdf::B4 => HashingAlgorithm::Blake3Balloon(4),
        Kdf::B5 => HashingAlgorithm::Blake3Balloon(5),
    }
}

pub fn version(v: u8) -> HeaderVersion {
    match v {
        1 => HeaderVersion::V1,
        2 => HeaderVersion::V2,
        3 => HeaderVersion::V3,
        4 => HeaderVersion::V4,
        5 => HeaderVersion::V5,
        _ => panic!(),
    }
}

pub fn header_type(v: u8, a: Alg, m: Mode) -> HeaderType {
    HeaderType { version: version(v), algorithm: alg(a), mode: mode(m) }
}

pub fn pw(p: &[u8]) -> Protected<Vec<u8>> {
    Protected::new(p.to_vec())
}

pub type Out<E> = Res<Result<(), E>>;

/// Encrypts `input` into `output` (and `header`, if given).
#[allow(clippy::too_many_arguments)]
pub fn encrypt(
    reader: &RefCell<MFile>,
    writer: &RefCell<MFile>,
    header: Option<&RefCell<MFile>>,
    password: &[u8],
    ht: HeaderType,
    ha: HashingAlgorithm,
) -> Out<tools::encrypt::Error> {
    sut("encrypt", || {
        tools::encrypt::execute(tools::encrypt::Request {
            reader,
            writer,
            header_writer: header,
            raw_key: pw(password),
            header_type: ht,
            hashing_algorithm: ha,
        })
    })
}

pub fn decrypt(
    header: Option<&RefCell<MFile>>,
    reader: &RefCell<MFile>,
    writer: &RefCell<MFile>,
    password: &[u8],
) -> Out<tools::decrypt::Error> {
    sut("decrypt", || {
        tools::decrypt::execute(tools::decrypt::Request {
            header_reader: header,
            reader,
            writer,
            raw_key: pw(password),
            on_decrypted_header: None,
        })
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HdrOp {
    Dump,
    Strip,
    Restore,
}

pub fn dump(reader: &RefCell<MFile>, writer: &RefCell<MFile>) -> Out<tools::header::Error> {
    sut("header dump", || tools::header::dump::execute(tools::header::dump::Request { reader, writer }))
}

pub fn strip(handle: &RefCell<MFile>) -> Out<tools::header::Error> {
    sut("header strip", || tools::header::strip::execute(tools::header::strip::Request { handle }))
}

pub fn restore(reader: &RefCell<MFile>, writer: &RefCell<MFile>) -> Out<tools::header::Error> {
    sut("header restore", || tools::header::restore::execute(tools::header::restore::Request { reader, writer }))
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum KeyOp {
    Add { old: Vec<u8>, new: Vec<u8>, kdf: Kdf },
    Change { old: Vec<u8>, new: Vec<u8>, kdf: Kdf },
    Delete { old: Vec<u8> },
    Verify { pw: Vec<u8> },
}

impl KeyOp {
    pub fn name(&self) -> String {
        let s = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
        match self {
            KeyOp::Add { old, new, kdf } => format!("add({}->{},{kdf:?})", s(old), s(new)),
            KeyOp::Change { old, new, kdf } => format!("change({}->{},{kdf:?})", s(old), s(new)),
            KeyOp::Delete { old } => format!("delete({})", s(old)),
            KeyOp::Verify { pw } => format!("verify({})", s(pw)),
        }
    }
    pub fn run(&self, handle: &RefCell<MFile>) -> Out<tools::key::Error> {
        use tools::key::{add, change, delete, verify};
        sut("a key operation", || match self {
            KeyOp::Add { old, new, kdf: k } => add::execute(add::Request {
                handle,
                raw_key_old: pw(old),
                raw_key_new: pw(new),
                hash_algorithm: kdf(*k),
            }),
            KeyOp::Change { old, new, kdf: k } => change::execute(change::Request {
                handle,
                raw_key_old: pw(old),
                raw_key_new: pw(new),
                hash_algorithm: kdf(*k),
            }),
            KeyOp::Delete { old } => delete::execute(delete::Request { handle, raw_key_old: pw(old) }),
            KeyOp::Verify { pw: p } => verify::execute(verify::Request { handle, raw_key: pw(p) }),
        })
        .map_err(|v| Viol { msg: format!("{}: {}", self.name(), v.msg), ..v })
    }
}

pub fn hash(reader: RefCell<MFile>) -> Res<Result<String, tools::hash::Error>> {
    sut("hash", || tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader }))
}

pub fn overwrite(writer: &RefCell<MFile>, len: usize, passes: i32) -> Out<tools::overwrite::Error> {
    sut("overwrite", || {
        tools::overwrite::execute(tools::overwrite::Request { writer, buf_capacity: len, passes })
    })
}

/// Convenience: plain encryption of a buffer; returns (result, output file, header file).
pub fn encrypt_bytes(
    ex: &Ex,
    plain: &[u8],
    password: &[u8],
    ht: HeaderType,
    ha: HashingAlgorithm,
    detached: bool,
) -> Res<(Result<(), tools::encrypt::Error>, Vec<u8>, Vec<u8>)> {
    let (i, o, h) = (node(plain.to_vec()), node(vec![]), node(vec![]));
    let f = |n: &Shared, name| RefCell::new(MFile::new(ex, n, name, Policy::Full));
    let (fi, fo, fh) = (f(&i, "in"), f(&o, "out"), f(&h, "hdr"));
    let r = encrypt(&fi, &fo, detached.then_some(&fh), password, ht, ha)?;
    let o = std::mem::take(&mut o.lock().unwrap().data);
    let h = std::mem::take(&mut h.lock().unwrap().data);
    Ok((r, o, h))
}

pub fn decrypt_bytes(
    ex: &Ex,
    header: Option<&[u8]>,
    data: &[u8],
    password: &[u8],
) -> Res<(Result<(), tools::decrypt::Error>, Vec<u8>)> {
    let (i, o) = (node(data.to_vec()), node(vec![]));
    let h = node(header.unwrap_or(&[]).to_vec());
    let f = |n: &Shared, name| RefCell::new(MFile::new(ex, n, name, Policy::Full));
    let (fi, fo, fh) = (f(&i, "in"), f(&o, "out"), f(&h, "hdr"));
    let r = decrypt(header.map(|_| &fh), &fi, &fo, password)?;
    let o = std::mem::take(&mut o.lock().unwrap().data);
    Ok((r, o))
}

pub fn file(ex: &Ex, n: &Shared, name: &'static str, p: Policy) -> RefCell<MFile> {
    RefCell::new(MFile::new(ex, n, name, p))
}

/// Password classes: lengths around block sizes of the primitives, bytes that text handling may
/// mangle.
pub fn passwords() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        b"p".to_vec(),
        b"password".to_vec(),
        b"pass word ".to_vec(),
        b" lead".to_vec(),
        b"line\n".to_vec(),
        b"crlf\r\n".to_vec(),
        b"a\0b".to_vec(),
        b"\0".to_vec(),
        b"tail\0".to_vec(),
        "pässwörd-ключ-鍵".as_bytes().to_vec(),
        vec![0xff, 0xfe, 0x80, 0x00, 0xc0],
    ];
    for n in [2usize, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 70_000] {
        v.push((0..n).map(|i| b'a' + ((i * 7 + n) % 26) as u8).collect());
    }
    v
}
