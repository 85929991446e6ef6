//! Whole-message decoding and encoding against the reference description.
use crate::spec::*;
use crate::vp;
use bytecodec::{DecodeExt, EncodeExt};
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::*;

/// attribute type not known to the attribute set `All`
pub const UNKNOWN: usize = 100;

pub struct Item {
    pub t: usize,
    pub ty: u16,
    pub value: Vec<u8>,
    pub pad: Vec<u8>,
}

pub fn sym_unknown_type() -> u16 {
    let ty = vp::u16();
    let mut ok = true;
    for (c, _) in TYPES.iter() {
        ok &= ty != *c;
    }
    vp::assume(ok);
    ty
}

pub const RESERVED: u64 = 1; // reserved bits arbitrary
pub const PADDING: u64 = 2; // padding bytes arbitrary
pub const CANON: u64 = 8; // reserved bits may be cleared by re-encoding

/// The message described by the job parameters from `base` on: count, then (type, length, mode)
/// triples.  Returns the items, the body, and whether every FINGERPRINT in it is right.
pub fn build(h: &Hdr, base: u32, flags: u64) -> (Vec<Item>, Vec<u8>, bool) {
    let n = vp::param(base) as u32;
    // body length first: the header carries it
    let mut total = 0;
    for i in 0..n {
        let l = vp::param(base + 2 + 3 * i) as usize;
        total += 4 + l + pad_len(l);
    }
    let mut bytes = h.bytes(total);
    let mut items = vec![];
    let mut fp_ok = true;
    for i in 0..n {
        let t = vp::param(base + 1 + 3 * i) as usize;
        let l = vp::param(base + 2 + 3 * i) as usize;
        let mode = vp::param(base + 3 + 3 * i);
        let (ty, value) = if mode == 9 {
            let v = bulk(l);
            (if t == UNKNOWN { sym_unknown_type() } else { TYPES[t].0 }, v)
        } else if t == UNKNOWN {
            (sym_unknown_type(), vp::vec(l))
        } else {
            let (ty, k) = TYPES[t];
            let v = if k == K::Fp && l == 4 {
                let d = if mode == 1 { 0 } else { vp::u32() };
                fp_ok &= d == 0;
                be32(fingerprint(&bytes) ^ d).to_vec()
            } else {
                sym_value(k, l, mode)
            };
            let v = if flags & RESERVED != 0 { v } else { canonical(k, &v) };
            (ty, v)
        };
        let pad = if flags & PADDING != 0 { vp::vec(pad_len(l)) } else { zpad(l) };
        bytes.extend_from_slice(&tlv(ty, &value, &pad));
        items.push(Item { t, ty, value, pad });
    }
    (items, bytes, fp_ok)
}

pub fn all_accepted(items: &[Item]) -> bool {
    let mut ok = true;
    for i in items {
        if i.t != UNKNOWN {
            ok &= accepts(TYPES[i.t].1, &i.value);
        }
    }
    ok
}

macro_rules! lookup {
    ($m:expr, $t:expr, $($n:literal $v:ident),*) => {
        match $t {
            $($n => $m.get_attribute::<$v>().map(|x| x as *const $v as usize),)*
            _ => None,
        }
    };
}
/// address of what get_attribute returns for type index t
pub fn get(m: &Message<All>, t: usize) -> Option<usize> {
    lookup!(m, t, 0 MappedAddress, 1 Username, 2 MessageIntegrity, 3 ErrorCode, 4 UnknownAttributes, 5 Realm,
        6 Nonce, 7 XorMappedAddress, 8 XorMappedAddress2, 9 Software, 10 AlternateServer, 11 Fingerprint,
        12 ChannelNumber, 13 Lifetime, 14 XorPeerAddress, 15 Data, 16 XorRelayAddress, 17 EvenPort,
        18 RequestedTransport, 19 DontFragment, 20 ReservationToken, 21 Priority, 22 UseCandidate,
        23 IceControlled, 24 IceControlling, 25 ChangeRequest, 26 ResponseOrigin, 27 ResponsePort,
        28 OtherAddress, 29 MobilityTicket, 30 RequestedAddressFamily, 31 AdditionalAddressFamily)
}
macro_rules! inner {
    ($a:expr, $($v:ident),*) => {
        match $a {
            $(All::$v(x) => x as *const $v as usize,)*
        }
    };
}
pub fn inner_addr(a: &All) -> usize {
    inner!(a, MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
        XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint,
        ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort,
        RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
        IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort,
        OtherAddress, MobilityTicket, RequestedAddressFamily, AdditionalAddressFamily)
}

/// Compare a decoded message with the description it was decoded from.
pub fn check_decoded(h: &Hdr, m: &Message<All>, items: &[Item]) {
    vp::check(h.matches(m), "class, method and transaction id are the received ones");
    let mut known = m.attributes();
    let mut unknown = m.unknown_attributes();
    for i in items {
        if i.t == UNKNOWN {
            match unknown.next() {
                Some(u) => {
                    vp::check(u.get_type().as_u16() == i.ty, "unknown attribute keeps its type");
                    vp::check(eq(u.value(), &i.value), "unknown attribute keeps its value");
                }
                None => vp::check(false, "unknown attribute is retained"),
            }
        } else {
            match known.next() {
                Some(a) => {
                    let (t, v) = value_of(a, &h.tid);
                    vp::check(t == i.t, "attribute decoded as the type of its codepoint, in wire order");
                    vp::check(a.get_type().as_u16() == i.ty, "attribute reports its codepoint");
                    vp::check(eq(&v, &canonical(TYPES[i.t].1, &i.value)), "attribute reports the value on the wire");
                }
                None => vp::check(false, "known attribute is decoded"),
            }
        }
    }
    vp::check(known.next().is_none(), "no attribute is invented");
    vp::check(unknown.next().is_none(), "no unknown attribute is invented");
    // first-occurrence lookup, for every type
    for t in 0..TYPES.len() {
        let want = m.attributes().find(|a| a.get_type().as_u16() == TYPES[t].0).map(inner_addr);
        vp::check(get(m, t) == want, "get_attribute returns the first attribute of the type");
    }
}

/// Decode an arbitrary message of the given shape: acceptance, contents, lossless re-encoding.
/// params: class, flags (RESERVED, PADDING, CANON), count, (type, length, mode)*
#[no_mangle]
pub fn h_dec() {
    let h = Hdr::sym(vp::param(0) as u16);
    let flags = vp::param(1);
    let (items, bytes, fp_ok) = build(&h, 2, flags);
    let valid = fp_ok & all_accepted(&items);
    let mut d = MessageDecoder::<All>::new();
    match d.decode_from_bytes(&bytes) {
        Err(_) => vp::check(false, "a well-framed message yields a message or a broken message"),
        Ok(Err(b)) => {
            vp::cover("broken");
            vp::check(!valid, "valid attributes are accepted");
            vp::check(h.same(b.class(), b.method(), b.transaction_id()), "broken message reports the received header");
            vp::out(b.method().as_u16() as u64);
        }
        Ok(Ok(m)) => {
            vp::cover("decoded");
            vp::check(valid, "invalid attributes are rejected");
            check_decoded(&h, &m, &items);
            match MessageEncoder::new().encode_into_bytes(m) {
                Err(_) => vp::check(false, "a decoded message can be encoded"),
                Ok(e) => {
                    vp::out_bytes(&e);
                    if flags & RESERVED == 0 {
                        vp::check(eq(&e, &bytes), "re-encoding reproduces the received bytes");
                    } else {
                        let mut want = h.bytes(bytes.len() - 20);
                        for i in &items {
                            let v = if i.t == UNKNOWN { i.value.clone() } else { canonical(TYPES[i.t].1, &i.value) };
                            want.extend_from_slice(&tlv(i.ty, &v, &i.pad));
                        }
                        vp::check(eq(&e, &want), "re-encoding reproduces everything but reserved bits");
                        if flags & CANON == 0 {
                            vp::check(eq(&e, &bytes), "re-encoding keeps reserved bits");
                        }
                    }
                }
            }
        }
    }
}

/// as spec::make; FINGERPRINT and MESSAGE-INTEGRITY are those of the message so far
pub fn make_in(m: &Message<All>, t: usize, l: usize, mode: u64) -> All {
    match t {
        2 => MessageIntegrity::new_short_term_credential(m, "secret").unwrap().into(),
        11 => Fingerprint::new(m).unwrap().into(),
        _ => make(t, l, mode),
    }
}

/// Encode an arbitrary message built with the public constructors; compare with the reference
/// bytes; decode it back.
/// params: class, count, (type, length, mode)*
#[no_mangle]
pub fn h_enc() {
    let h = Hdr::sym(vp::param(0) as u16);
    let n = vp::param(1) as u32;
    let mut m: Message<All> = h.message();
    let mut body = vec![];
    for i in 0..n {
        let a = make_in(&m, vp::param(2 + 3 * i) as usize, vp::param(3 + 3 * i) as usize, vp::param(4 + 3 * i));
        let (t, v) = value_of(&a, &h.tid);
        body.extend_from_slice(&tlv(TYPES[t].0, &v, &zpad(v.len())));
        m.add_attribute(a);
        vp::check(m.attributes().count() == i as usize + 1, "add_attribute appends");
        if let Some(l) = m.attributes().last() {
            let (lt, lv) = value_of(l, &h.tid);
            vp::check(lt == t && eq(&lv, &v), "add_attribute appends");
        }
    }
    let mut want = h.bytes(body.len());
    want.extend_from_slice(&body);
    let bytes = match MessageEncoder::new().encode_into_bytes(m.clone()) {
        Ok(b) => b,
        Err(_) => {
            vp::check(false, "a message within the length limit can be encoded");
            return;
        }
    };
    vp::out_bytes(&bytes);
    vp::check(eq(&bytes, &want), "encoded bytes follow the RFC");
    match MessageDecoder::<All>::new().decode_from_bytes(&bytes) {
        Ok(Ok(m2)) => {
            vp::cover("round trip");
            vp::check(h.matches(&m2), "header survives the round trip");
            vp::check(m2.unknown_attributes().next().is_none(), "no attribute becomes unknown");
            vp::check(m2.attributes().count() == n as usize, "no attribute is lost");
            for (a, b) in m.attributes().zip(m2.attributes()) {
                let same = if a.get_type().as_u16() == 0x0008 { eq(&value_of(a, &h.tid).1, &value_of(b, &h.tid).1) } else { *a == *b };
                vp::check(same, "every attribute survives the round trip");
            }
        }
        _ => vp::check(false, "an encoded message can be decoded"),
    }
}

/// The 20-byte header alone, all classes: encode and decode.
#[no_mangle]
pub fn h_header() {
    let c = vp::choose(4) as u16;
    let h = Hdr::sym(c);
    let m: Message<All> = h.message();
    let bytes = MessageEncoder::new().encode_into_bytes(m).unwrap();
    vp::check(eq(&bytes, &h.bytes(0)), "header bytes follow RFC 5389 section 6");
    // and back, from arbitrary 20 bytes that pass the validity rules
    let mut b: Vec<u8> = vp::vec(20);
    b[0] &= 0x3f;
    b[2] = 0;
    b[3] = 0;
    b[4..8].copy_from_slice(&COOKIE);
    match MessageDecoder::<All>::new().decode_from_bytes(&b) {
        Ok(Ok(m)) => {
            vp::cover("decoded");
            let f = (b[0] as u16) << 8 | b[1] as u16;
            vp::check(type_field(class_no(m.class()), m.method().as_u16()) == f, "class and method are demultiplexed from the type field");
            vp::check(eq(&m.transaction_id().as_bytes()[..], &b[8..20]), "transaction id is bytes 8..20");
            vp::check(m.attributes().next().is_none() && m.unknown_attributes().next().is_none(), "no attributes");
            let e = MessageEncoder::new().encode_into_bytes(m).unwrap();
            vp::check(eq(&e, &b), "header re-encodes to the same bytes");
            vp::out_bytes(&e);
        }
        _ => vp::check(false, "a valid header is accepted"),
    }
}

/// A received message is added to and sent on: the received bytes, then the new attributes.
/// params: class, flags (RESERVED, PADDING; 16 = MESSAGE-INTEGRITY, 32 = FINGERPRINT at the end), list of the received,
///   count and (type, length, mode)* of the added ones
#[no_mangle]
pub fn h_extend() {
    let h = Hdr::sym(vp::param(0) as u16);
    let flags = vp::param(1);
    let (items, mut want, fp_ok) = build(&h, 2, flags & 3);
    vp::assume(fp_ok & all_accepted(&items));
    let mut m = match MessageDecoder::<All>::new().decode_from_bytes(&want) {
        Ok(Ok(m)) => m,
        _ => {
            vp::check(false, "valid attributes are accepted");
            return;
        }
    };
    let base = 3 + 3 * vp::param(2) as u32;
    for i in 0..vp::param(base) as u32 {
        let a = make(vp::param(base + 1 + 3 * i) as usize, vp::param(base + 2 + 3 * i) as usize, vp::param(base + 3 + 3 * i));
        let (t, v) = value_of(&a, &h.tid);
        want.extend_from_slice(&tlv(TYPES[t].0, &v, &zpad(v.len())));
        m.add_attribute(a);
    }
    if flags & 16 != 0 {
        match MessageIntegrity::new_short_term_credential(&m, "pass") {
            Ok(a) => {
                let mac = integrity(b"pass", &want);
                vp::check(eq(&a.hmac_sha1(), &mac), "created MESSAGE-INTEGRITY is HMAC-SHA1 of the preceding bytes");
                want.extend_from_slice(&tlv(0x0008, &mac, &[]));
                m.add_attribute(a);
            }
            Err(_) => vp::check(false, "MESSAGE-INTEGRITY can be created"),
        }
    }
    if flags & 32 != 0 {
        match Fingerprint::new(&m) {
            Ok(a) => {
                let c = fingerprint(&want);
                vp::check(a.crc32() == c, "created FINGERPRINT is the CRC-32 of the preceding bytes");
                want.extend_from_slice(&tlv(0x8028, &be32(c), &[]));
                m.add_attribute(a);
            }
            Err(_) => vp::check(false, "FINGERPRINT can be created"),
        }
    }
    let l = want.len() - 20;
    want[2] = (l >> 8) as u8;
    want[3] = l as u8;
    match MessageEncoder::new().encode_into_bytes(m.clone()) {
        Ok(b) => {
            vp::out_bytes(&b);
            vp::check(eq(&b, &want), "a received message that is added to keeps the received bytes");
            match MessageDecoder::<All>::new().decode_from_bytes(&b) {
                Ok(Ok(m2)) => {
                    vp::cover("extended");
                    vp::check(h.matches(&m2), "header survives the round trip");
                    vp::check(m2.attributes().count() == m.attributes().count(), "no attribute is lost");
                    vp::check(m2.unknown_attributes().count() == m.unknown_attributes().count(), "no unknown attribute is lost");
                    for (a, b) in m.attributes().zip(m2.attributes()) {
                        vp::check(*a == *b || a.get_type().as_u16() == 0x0008, "every attribute survives the round trip");
                    }
                    if flags & 16 != 0 {
                        let mi = m2.attributes().filter(|a| a.get_type().as_u16() == 0x0008).last();
                        match mi {
                            Some(All::MessageIntegrity(x)) => vp::check(x.check_short_term_credential("pass").is_ok(), "the right MESSAGE-INTEGRITY is accepted"),
                            _ => vp::check(false, "MESSAGE-INTEGRITY is decoded"),
                        }
                    }
                }
                _ => vp::check(false, "an encoded message can be decoded"),
            }
        }
        Err(_) => vp::check(false, "a message within the length limit can be encoded"),
    }
}
