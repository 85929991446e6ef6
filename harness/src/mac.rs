//! MESSAGE-INTEGRITY and FINGERPRINT.
use crate::msg::*;
use crate::spec::*;
use crate::vp;
use bytecodec::{DecodeExt, EncodeExt};
use stun_codec::rfc5389::attributes::*;
use stun_codec::*;

pub enum Cred {
    Short(String),
    Long(Username, Realm, String),
}
impl Cred {
    /// params at base: kind (0 short, 1 long), password length, user length, realm length, text mode
    pub fn sym(base: u32) -> Cred {
        let mode = vp::param(base + 4);
        let pw = sym_string(vp::param(base + 1) as usize, mode);
        if vp::param(base) == 0 {
            Cred::Short(pw)
        } else {
            let u = Username::new(sym_string(vp::param(base + 2) as usize, mode)).unwrap();
            let r = Realm::new(sym_string(vp::param(base + 3) as usize, mode)).unwrap();
            Cred::Long(u, r, pw)
        }
    }
    pub fn key(&self) -> Vec<u8> {
        match self {
            Cred::Short(p) => p.as_bytes().to_vec(),
            Cred::Long(u, r, p) => long_term_key(u.name().as_bytes(), r.text().as_bytes(), p.as_bytes()).to_vec(),
        }
    }
    pub fn make<A: Attribute>(&self, m: &Message<A>) -> bytecodec::Result<MessageIntegrity> {
        match self {
            Cred::Short(p) => MessageIntegrity::new_short_term_credential(m, p),
            Cred::Long(u, r, p) => MessageIntegrity::new_long_term_credential(m, u, r, p),
        }
    }
    pub fn check(&self, mi: &MessageIntegrity) -> Result<(), ErrorCode> {
        match self {
            Cred::Short(p) => mi.check_short_term_credential(p),
            Cred::Long(u, r, p) => mi.check_long_term_credential(u, r, p),
        }
    }
}

fn verdict(r: Result<(), ErrorCode>, want: bool) {
    match r {
        Ok(()) => {
            vp::cover("authenticated");
            vp::check(want, "a wrong MESSAGE-INTEGRITY is refused");
            vp::out(1);
        }
        Err(e) => {
            vp::cover("refused");
            vp::check(!want, "the right MESSAGE-INTEGRITY is accepted");
            vp::check(e.code() == 401, "refusal is 401 Unauthorized");
            vp::out(0);
        }
    }
}

/// Received message: arbitrary preceding attributes, MESSAGE-INTEGRITY = right value ^ delta,
/// optionally followed by an unknown attribute and a right FINGERPRINT.
/// params: class, flags (1 reserved bits, 2 padding, 16 trailing unknown, 32 fingerprint, 64 other password, 128 clones are checked),
///         cred (5), list
#[no_mangle]
pub fn h_mi() {
    let h = Hdr::sym(vp::param(0) as u16);
    let flags = vp::param(1);
    let cred = Cred::sym(2);
    let (items, mut bytes, _) = build(&h, 7, flags);
    vp::assume(all_accepted(&items));
    let delta: [u8; 20] = vp::bytes();
    let right = integrity(&cred.key(), &bytes);
    let mut mac = right;
    for i in 0..20 {
        mac[i] ^= delta[i];
    }
    bytes.extend_from_slice(&tlv(0x0008, &mac, &[]));
    if flags & 16 != 0 {
        let ty = sym_unknown_type();
        bytes.extend_from_slice(&tlv(ty, &vp::bytes::<5>(), &[0; 3]));
    }
    let preceding = bytes.clone();
    if flags & 32 != 0 {
        let f = fingerprint(&preceding);
        bytes.extend_from_slice(&tlv(0x8028, &be32(f), &[]));
    }
    let l = bytes.len() - 20;
    bytes[2] = (l >> 8) as u8;
    bytes[3] = l as u8;
    match MessageDecoder::<All>::new().decode_from_bytes(&bytes) {
        Ok(Ok(m)) => {
            vp::cover("decoded");
            let all: Vec<&MessageIntegrity> = m.attributes().filter_map(|a| stun_codec::convert::TryAsRef::<MessageIntegrity>::try_as_ref(a)).collect();
            // each is over what precedes it, others of its kind included
            let (mut at, mut k) = (20, 0);
            for i in &items {
                if i.t != UNKNOWN && TYPES[i.t].0 == 0x0008 {
                    let want = integrity(&cred.key(), &bytes[..at]);
                    match all.get(k) {
                        Some(x) => verdict(cred.check(x), eq(&i.value, &want)),
                        None => vp::check(false, "every MESSAGE-INTEGRITY is decoded"),
                    }
                    k += 1;
                }
                at += 4 + i.value.len() + i.pad.len();
            }
            vp::check(all.len() == k + 1, "every MESSAGE-INTEGRITY is decoded");
            match all.last().copied() {
                Some(mi) => {
                    vp::check(eq(&mi.hmac_sha1(), &mac), "hmac_sha1 is the value on the wire");
                    let zero = [0; 20];
                    verdict(cred.check(mi), eq(&delta, &zero));
                    if flags & 128 != 0 {
                        // clones (of the attribute, of the message, of one added to another message) verify the same
                        verdict(cred.check(&mi.clone()), eq(&delta, &zero));
                        match m.clone().get_attribute::<MessageIntegrity>() {
                            Some(c) => {
                                verdict(cred.check(c), eq(&delta, &zero));
                                vp::check(*c == *mi, "a clone equals its original");
                                vp::check(eq(&crate::coder::fed(c), &crate::coder::fed(mi)), "equal attributes have equal hashes");
                            }
                            None => vp::check(false, "a clone keeps its attributes"),
                        }
                        vp::cover("clones checked");
                    }
                    if flags & 64 != 0 {
                        // any other credential: accepted exactly if its HMAC is the one received
                        let other = Cred::sym(2);
                        let want = integrity(&other.key(), &preceding_of_mi(&bytes, &items));
                        verdict(other.check(mi), eq(&want, &mac));
                    }
                }
                None => vp::check(false, "MESSAGE-INTEGRITY is decoded"),
            }
        }
        _ => vp::check(false, "a valid message with MESSAGE-INTEGRITY is accepted"),
    }
}
fn preceding_of_mi(bytes: &[u8], items: &[Item]) -> Vec<u8> {
    let mut n = 20;
    for i in items {
        n += 4 + i.value.len() + i.pad.len();
    }
    bytes[..n].to_vec()
}

/// Build with the public API: attributes, MESSAGE-INTEGRITY, FINGERPRINT; compare with the
/// reference bytes; decode and verify.
/// params: class, flags (1 integrity, 2 fingerprint, 4 attribute between), cred (5), count, (type, length, mode)*
#[no_mangle]
pub fn h_create() {
    let h = Hdr::sym(vp::param(0) as u16);
    let flags = vp::param(1);
    let cred = Cred::sym(2);
    let n = vp::param(7) as u32;
    let mut m: Message<All> = h.message();
    let mut want = h.bytes(0);
    for i in 0..n {
        let a = make(vp::param(8 + 3 * i) as usize, vp::param(9 + 3 * i) as usize, vp::param(10 + 3 * i));
        let (t, v) = value_of(&a, &h.tid);
        want.extend_from_slice(&tlv(TYPES[t].0, &v, &zpad(v.len())));
        m.add_attribute(a);
    }
    if flags & 1 != 0 {
        match cred.make(&m) {
            Ok(mi) => {
                let mac = integrity(&cred.key(), &want);
                vp::check(eq(&mi.hmac_sha1(), &mac), "created MESSAGE-INTEGRITY is HMAC-SHA1 of the preceding bytes");
                verdict(cred.check(&mi), true);
                want.extend_from_slice(&tlv(0x0008, &mac, &[]));
                m.add_attribute(mi);
            }
            Err(_) => vp::check(false, "MESSAGE-INTEGRITY can be created"),
        }
    }
    if flags & 4 != 0 {
        let a = make(9, 5, 1);
        let (t, v) = value_of(&a, &h.tid);
        want.extend_from_slice(&tlv(TYPES[t].0, &v, &zpad(v.len())));
        m.add_attribute(a);
    }
    if flags & 2 != 0 {
        match Fingerprint::new(&m) {
            Ok(f) => {
                let c = fingerprint(&want);
                vp::check(f.crc32() == c, "created FINGERPRINT is the CRC-32 of the preceding bytes");
                want.extend_from_slice(&tlv(0x8028, &be32(c), &[]));
                m.add_attribute(f);
            }
            Err(_) => vp::check(false, "FINGERPRINT can be created"),
        }
    }
    let l = want.len() - 20;
    want[2] = (l >> 8) as u8;
    want[3] = l as u8;
    match MessageEncoder::new().encode_into_bytes(m) {
        Ok(bytes) => {
            vp::out_bytes(&bytes);
            vp::check(eq(&bytes, &want), "the protected message has the RFC's bytes");
            match MessageDecoder::<All>::new().decode_from_bytes(&bytes) {
                Ok(Ok(m)) => {
                    vp::cover("verified");
                    if flags & 1 != 0 {
                        match m.get_attribute::<MessageIntegrity>() {
                            Some(mi) => verdict(cred.check(mi), true),
                            None => vp::check(false, "MESSAGE-INTEGRITY is decoded"),
                        }
                    }
                    if flags & 2 != 0 {
                        vp::check(m.get_attribute::<Fingerprint>().is_some(), "FINGERPRINT is decoded");
                    }
                }
                _ => vp::check(false, "a message protected by this library is accepted by it"),
            }
        }
        Err(_) => vp::check(false, "the protected message can be encoded"),
    }
}

/// Corruption: a message with a FINGERPRINT, any non-zero error pattern confined to one
/// 32-bit window that leaves the framing alone (transaction id, attribute value, CRC value;
/// CRC-32 detects every burst of at most 32 bits): never accepted.
/// params: class, window offset (bytes), list
#[no_mangle]
pub fn h_burst() {
    let h = Hdr::sym(vp::param(0) as u16);
    let off = vp::param(1) as usize;
    let (items, mut bytes, _) = build(&h, 2, 0);
    vp::assume(all_accepted(&items));
    let f = fingerprint(&bytes);
    bytes.extend_from_slice(&tlv(0x8028, &be32(f), &[]));
    let l = bytes.len() - 20;
    bytes[2] = (l >> 8) as u8;
    bytes[3] = l as u8;
    let e: [u8; 4] = vp::bytes();
    vp::assume(e[0] | e[1] | e[2] | e[3] != 0);
    for i in 0..4 {
        bytes[off + i] ^= e[i];
    }
    match MessageDecoder::<All>::new().decode_from_bytes(&bytes) {
        Ok(Ok(_)) => vp::check(false, "corruption under FINGERPRINT is detected"),
        _ => vp::cover("detected"),
    }
}

/// FINGERPRINT and MESSAGE-INTEGRITY behind bodies of given lengths (contents concrete, so that long
/// ones are affordable; the received CRC and HMAC are arbitrary): accepted exactly if right, and
/// created right.
/// params: first raw length, count (lengths step by one), length of an attribute behind (0 = none)
#[no_mangle]
pub fn h_mac_len() {
    let (u, r, pw) = [("", "", "key"), ("", "", ""), ("user", "", "pass"), ("", "realm", ""), ("user", "realm", "pass")][vp::param(3) as usize % 5];
    let cred = if vp::param(3) < 2 {
        Cred::Short(pw.to_string())
    } else {
        Cred::Long(Username::new(u.to_string()).unwrap(), Realm::new(r.to_string()).unwrap(), pw.to_string())
    };
    let h = Hdr { class: 0, method: 1, tid: [7, 1, 250, 3, 128, 5, 6, 7, 8, 9, 10, 11] };
    let first = vp::param(0) as usize;
    let after = vp::param(2) as usize;
    let zero = [0; 20];
    for l in first..first + vp::param(1) as usize {
        let mut v = vec![0; l];
        for i in 0..l {
            v[i] = (i ^ i >> 8) as u8;
        }
        let mut m: Message<rfc5389::Attribute> = h.message();
        // an attribute a received message can have: unknown, with its bytes
        let mut b = h.bytes(4 + l + pad_len(l));
        b.extend_from_slice(&tlv(0x7001, &v, &zpad(l)));
        match MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b) {
            Ok(Ok(x)) => m = x,
            _ => vp::check(false, "unknown attributes are accepted"),
        }
        let tail = if after > 0 { tlv(0x7002, &vec![1; after], &zpad(after)) } else { vec![] };
        if b.len() - 20 + 8 <= 0xFFFF {
            let right = fingerprint(&b);
            match Fingerprint::new(&m) {
                Ok(f) => vp::check(f.crc32() == right, "created FINGERPRINT is the CRC-32 of the preceding bytes"),
                Err(_) => vp::check(false, "FINGERPRINT can be created"),
            }
            // (error texts are formatted in jobs with a long-term credential: no symbolic number in them)
            let d = if vp::param(3) < 2 { vp::u32() } else { 0 };
            let mut w = b.clone();
            w.extend_from_slice(&tlv(0x8028, &be32(right ^ d), &[]));
            w.extend_from_slice(&tail);
            let n = w.len() - 20;
            if n <= 0xFFFF {
                w[2] = (n >> 8) as u8;
                w[3] = n as u8;
                match MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&w) {
                    Ok(Ok(_)) => {
                        vp::cover("decoded");
                        vp::check(d == 0, "a wrong FINGERPRINT is rejected");
                    }
                    Ok(Err(_)) => {
                        vp::cover("broken");
                        vp::check(d != 0, "the right FINGERPRINT is accepted");
                    }
                    Err(_) => vp::check(false, "a well-framed message yields a message or a broken message"),
                }
            }
        }
        if b.len() - 20 + 24 <= 0xFFFF {
            let right = integrity(&cred.key(), &b);
            match cred.make(&m) {
                Ok(f) => vp::check(eq(&f.hmac_sha1(), &right), "created MESSAGE-INTEGRITY is HMAC-SHA1 of the preceding bytes"),
                Err(_) => vp::check(false, "MESSAGE-INTEGRITY can be created"),
            }
            let d: [u8; 20] = vp::bytes();
            let mut mac = right;
            for i in 0..20 {
                mac[i] ^= d[i];
            }
            let mut w = b.clone();
            w.extend_from_slice(&tlv(0x0008, &mac, &[]));
            w.extend_from_slice(&tail);
            let n = w.len() - 20;
            if n <= 0xFFFF {
                w[2] = (n >> 8) as u8;
                w[3] = n as u8;
                match MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&w) {
                    Ok(Ok(m)) => match m.get_attribute::<MessageIntegrity>() {
                        Some(mi) => verdict(cred.check(mi), eq(&d, &zero)),
                        None => vp::check(false, "MESSAGE-INTEGRITY is decoded"),
                    },
                    _ => vp::check(false, "a valid message with MESSAGE-INTEGRITY is accepted"),
                }
            }
        }
    }
}
