//! Constructors, tables, address transformation, attribute-set dispatch, size limits.
use crate::msg::*;
use crate::spec::*;
use crate::vp;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, Error, ErrorKind, SizedEncode};
use std::time::Duration;
use stun_codec::net::*;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::*;

fn limit<T>(r: bytecodec::Result<T>, ok: bool, same: impl FnOnce(&T) -> bool) {
    match r {
        Ok(x) => {
            vp::cover("constructed");
            vp::check(ok, "a value beyond the documented limit is refused");
            vp::check(same(&x), "the accessor returns the constructed value");
        }
        Err(e) => {
            vp::cover("refused");
            vp::check(!ok, "a value within the documented limit is accepted");
            vp::check(*e.kind() == ErrorKind::InvalidInput, "refusal is InvalidInput");
        }
    }
}

/// Documented limits of the fallible constructors.
/// params: which (index into TYPES; 40 method, 41 software from static), length, text mode
#[no_mangle]
pub fn h_ctor() {
    let t = vp::param(0);
    let l = vp::param(1) as usize;
    let mode = vp::param(2);
    match t {
        1 | 5 | 6 | 9 | 41 => {
            let s = sym_string(l, mode);
            let chars = if mode >= 5 { char_count(s.as_bytes()) } else if mode >= 2 { l / mode as usize + l % mode as usize } else { l };
            let b = s.as_bytes().to_vec();
            match t {
                1 => limit(Username::new(s), l < 513, |x| eq(x.name().as_bytes(), &b)),
                5 => limit(Realm::new(s), chars < 128, |x| eq(x.text().as_bytes(), &b)),
                6 => limit(Nonce::new(s), chars < 128, |x| eq(x.value().as_bytes(), &b)),
                9 => limit(Software::new(s), chars < 128, |x| eq(x.description().as_bytes(), &b)),
                _ => {
                    let s: &'static str = Box::leak(s.into_boxed_str());
                    if chars >= 128 {
                        vp::expect_panic("a description beyond the documented limit is refused");
                        vp::cover("refused");
                    }
                    let x = Software::new_static(s);
                    vp::check(eq(x.description().as_bytes(), &b), "the accessor returns the constructed value");
                    vp::cover("constructed");
                }
            }
        }
        3 => {
            let c = vp::u16();
            let s = sym_string(l, mode);
            let b = s.as_bytes().to_vec();
            limit(ErrorCode::new(c, s), (c >= 300) & (c < 600), |x| (x.code() == c) & eq(x.reason_phrase().as_bytes(), &b))
        }
        12 => {
            let c = vp::u16();
            limit(ChannelNumber::new(c), (c >= 0x4000) & (c <= 0x4FFF), |x| x.value() == c)
        }
        13 => {
            let s = vp::u64();
            let n = vp::u32();
            vp::assume(n < 1_000_000_000);
            limit(Lifetime::new(Duration::new(s, n)), s <= 0xFFFF_FFFF, |x| (x.lifetime().as_secs() == s) & (x.lifetime().subsec_nanos() == 0));
            let q = vp::u32();
            let x = Lifetime::from_u32(q);
            vp::check((x.lifetime().as_secs() == q as u64) & (x.lifetime().subsec_nanos() == 0), "from_u32 keeps the seconds");
        }
        15 | 29 => {
            let v = bulk(l);
            let w = v.clone();
            if t == 15 {
                limit(Data::new(v), l <= 0xFFFF, |x| eq(x.data(), &w))
            } else {
                limit(MobilityTicket::new(v), l <= 0xFFFF, |x| eq(x.data(), &w));
                vp::check(MobilityTicket::empty().data().is_empty(), "an empty ticket is empty");
            }
        }
        _ => {
            let c = vp::u16();
            limit(Method::new(c), c <= 0xFFF, |x| x.as_u16() == c);
            let b = vp::u8();
            vp::check(Method::from(b).as_u16() == b as u16, "a method from a byte has its codepoint");
        }
    }
}

/// Attribute types, transaction ids, channel numbers.
#[no_mangle]
pub fn h_types() {
    let c = vp::u16();
    let a = AttributeType::new(c);
    vp::check(a.as_u16() == c, "an attribute type keeps its codepoint");
    vp::check(AttributeType::from(c) == a, "From<u16> agrees with new");
    vp::check(a.is_comprehension_required() == (c <= 0x7FFF), "0x0000-0x7FFF is comprehension-required");
    vp::check(a.is_comprehension_optional() == (c >= 0x8000), "0x8000-0xFFFF is comprehension-optional");
    let t: [u8; 12] = vp::bytes();
    let id = TransactionId::new(t);
    vp::check(eq(id.as_bytes(), &t), "a transaction id keeps its bytes");
    vp::check(eq(id.as_ref(), &t), "a transaction id keeps its bytes");
    let n = vp::u16();
    vp::assume((n >= 0x4000) & (n <= 0x4FFF));
    let ch = ChannelNumber::new(n).unwrap();
    let nx = ch.wrapping_increment().value();
    vp::check(nx == if n == 0x4FFF { 0x4000 } else { n + 1 }, "wrapping_increment is the successor, wrapping at the maximum");
    vp::check(ChannelNumber::new(nx).is_ok(), "wrapping_increment stays in range");
    vp::check((ChannelNumber::min().value() == 0x4000) & (ChannelNumber::max().value() == 0x4FFF), "the channel range is 0x4000-0x4FFF");
    vp::out(nx as u64);
    // raw attributes
    let v = vp::vec(5);
    let r = RawAttribute::new(a, v.clone());
    vp::check(r.get_type() == a, "a raw attribute keeps its type");
    vp::check(eq(r.value(), &v), "a raw attribute keeps its value");
    vp::check(eq(&r.into_value(), &v), "a raw attribute gives its value back");
    vp::cover("end");
}

fn entry(c: u16, e: ErrorCode, code: u16, phrase: &str) {
    vp::check(c == code, "the error code is the registered one");
    vp::check(e.code() == code, "the error converts to its code");
    vp::check(e.reason_phrase() == phrase, "the error converts to the RFC's reason phrase");
    // and survives the wire
    let h = Hdr { class: 3, method: 1, tid: vp::bytes() };
    let mut m: Message<All> = h.message();
    m.add_attribute(e);
    let b = MessageEncoder::new().encode_into_bytes(m).unwrap();
    vp::check((b[26] as u16 == code / 100) & (b[27] as u16 == code % 100), "class and number on the wire");
    vp::check(eq(&b[28..28 + phrase.len()], phrase.as_bytes()), "phrase on the wire");
}

/// Registered error codes, methods and attribute codepoints.
#[no_mangle]
pub fn h_tables() {
    use stun_codec::{rfc5245, rfc5389, rfc5766, rfc8016, rfc8656};
    {
        use rfc5389::errors::*;
        entry(TryAlternate::CODEPOINT, TryAlternate.into(), 300, "Try Alternate");
        entry(BadRequest::CODEPOINT, BadRequest.into(), 400, "Bad Request");
        entry(Unauthorized::CODEPOINT, Unauthorized.into(), 401, "Unauthorized");
        entry(UnknownAttribute::CODEPOINT, UnknownAttribute.into(), 420, "Unknown Attribute");
        entry(StaleNonce::CODEPOINT, StaleNonce.into(), 438, "Stale Nonce");
        entry(ServerError::CODEPOINT, ServerError.into(), 500, "Server Error");
    }
    {
        use rfc5766::errors::*;
        entry(Forbidden::CODEPOINT, Forbidden.into(), 403, "Forbidden");
        entry(AllocationMismatch::CODEPOINT, AllocationMismatch.into(), 437, "Allocation Mismatch");
        entry(WrongCredentials::CODEPOINT, WrongCredentials.into(), 441, "Wrong Credentials");
        entry(UnsupportedTransportProtocol::CODEPOINT, UnsupportedTransportProtocol.into(), 442, "Unsupported Transport Protocol");
        entry(AllocationQuotaReached::CODEPOINT, AllocationQuotaReached.into(), 486, "Allocation Quota Reached");
        entry(InsufficientCapacity::CODEPOINT, InsufficientCapacity.into(), 508, "Insufficient Capacity");
    }
    entry(rfc5245::errors::RoleConflict::CODEPOINT, rfc5245::errors::RoleConflict.into(), 487, "Role Conflict");
    entry(rfc8016::errors::MobilityForbidden::CODEPOINT, rfc8016::errors::MobilityForbidden.into(), 405, "Mobility Forbidden");
    entry(rfc8656::errors::AddressFamilyNotSupported::CODEPOINT, rfc8656::errors::AddressFamilyNotSupported.into(), 440, "Address Family not Supported");
    entry(rfc8656::errors::PeerAddressFamilyMismatch::CODEPOINT, rfc8656::errors::PeerAddressFamilyMismatch.into(), 443, "Peer Address Family Mismatch");
    let ms = [
        (rfc5389::methods::BINDING, 1),
        (rfc5766::methods::ALLOCATE, 3),
        (rfc5766::methods::REFRESH, 4),
        (rfc5766::methods::SEND, 6),
        (rfc5766::methods::DATA, 7),
        (rfc5766::methods::CREATE_PERMISSION, 8),
        (rfc5766::methods::CHANNEL_BIND, 9),
    ];
    for (m, n) in ms {
        vp::check(m.as_u16() == n, "the method number is the registered one");
    }
    // library errors
    let i = vp::choose(7);
    let k = match i {
        0 => ErrorKind::InvalidInput,
        1 => ErrorKind::InconsistentState,
        2 => ErrorKind::EncoderFull,
        3 => ErrorKind::DecoderTerminated,
        4 => ErrorKind::IncompleteDecoding,
        5 => ErrorKind::UnexpectedEos,
        _ => ErrorKind::Other,
    };
    let e: Error = trackable::error::ErrorKindExt::error(k).into();
    let c: ErrorCode = e.into();
    vp::check(c.code() == if i == 0 { 400 } else { 500 }, "invalid input converts to 400, every other failure to 500");
    vp::cover("end");
}

/// socket_addr_xor and the socket address codec, called directly.
/// params: IPv6?, chunk size
#[no_mangle]
pub fn h_net() {
    let a = sym_addr(vp::param(0) == 1);
    let tid: [u8; 12] = vp::bytes();
    let t = TransactionId::new(tid);
    let x = socket_addr_xor(a, t);
    let p = plain_addr_bytes(a);
    let mut want = p.clone();
    let mut mask = COOKIE.to_vec();
    mask.extend_from_slice(&tid);
    want[2] ^= COOKIE[0];
    want[3] ^= COOKIE[1];
    for i in 4..want.len() {
        want[i] ^= mask[i - 4];
    }
    vp::check(eq(&plain_addr_bytes(x), &want), "port and address are XORed as RFC 5389 section 15.2 says");
    vp::check(eq(&plain_addr_bytes(socket_addr_xor(x, t)), &p), "socket_addr_xor is an involution");
    // codec
    let mut e = SocketAddrEncoder::new();
    vp::check(e.start_encoding(a).is_ok(), "encoding starts");
    vp::check(e.exact_requiring_bytes() == p.len() as u64, "announced size is exact");
    let mut b = vec![0; p.len()];
    let step = vp::param(1) as usize;
    let mut at = 0;
    while at < b.len() {
        vp::check(!e.is_idle(), "not idle before the end");
        let end = if at + step < b.len() { at + step } else { b.len() };
        match e.encode(&mut b[at..end], Eos::new(end == p.len())) {
            Ok(k) => {
                vp::check(k == end - at, "fills the buffer");
                at = end;
            }
            Err(_) => {
                vp::check(false, "an address can be encoded");
                return;
            }
        }
        vp::check(e.exact_requiring_bytes() == (p.len() - at) as u64, "announced size is exact");
    }
    vp::check(e.is_idle(), "idle at the end");
    vp::check(eq(&b, &p), "the encoded address follows RFC 5389 section 15.1");
    let mut d = SocketAddrDecoder::new();
    let mut at = 0;
    while at < b.len() {
        vp::check(!d.is_idle(), "not idle before the end");
        let end = if at + step < b.len() { at + step } else { b.len() };
        match d.decode(&b[at..end], Eos::new(end == p.len())) {
            Ok(k) => {
                vp::check(k == end - at, "consumes everything");
                at = end;
            }
            Err(_) => {
                vp::check(false, "an address can be decoded");
                return;
            }
        }
    }
    vp::check(d.is_idle(), "idle at the end");
    match d.finish_decoding() {
        Ok(y) => vp::check(eq(&plain_addr_bytes(y), &p), "the address survives the round trip"),
        Err(_) => vp::check(false, "an address can be decoded"),
    }
    vp::cover("end");
    vp::out_bytes(&b);
}
/// SocketAddrDecoder on arbitrary bytes.  params: length
#[no_mangle]
pub fn h_net_any() {
    let b = vp::vec(vp::param(0) as usize);
    let mut d = SocketAddrDecoder::new();
    let ok = accepts(K::Addr, &b);
    match d.decode_from_bytes(&b) {
        Ok(a) => {
            vp::cover("decoded");
            vp::check(ok, "only family 1 with 4 and family 2 with 16 address bytes are accepted");
            vp::check(eq(&plain_addr_bytes(a), &canonical(K::Addr, &b)), "family, port and address are the received ones");
        }
        Err(_) => {
            vp::cover("rejected");
            vp::check(!ok, "a valid address is accepted");
        }
    }
}

/// Which types an attribute set knows, for every 16-bit type; one attribute of arbitrary bytes.
/// params: set, value length, 1 = value bytes below 0x80
#[no_mangle]
pub fn h_dispatch() {
    let l = vp::param(1) as usize;
    match vp::param(0) {
        0 => dispatch::<rfc5389::Attribute>(&[0x0001, 0x0006, 0x0008, 0x0009, 0x000A, 0x0014, 0x0015, 0x0020, 0x8020, 0x8022, 0x8023, 0x8028], l),
        1 => dispatch::<rfc5766::Attribute>(&[0x000C, 0x000D, 0x0012, 0x0013, 0x0016, 0x0018, 0x0019, 0x001A, 0x0022], l),
        2 => dispatch::<rfc5245::Attribute>(&[0x0024, 0x0025, 0x8029, 0x802A], l),
        3 => dispatch::<rfc5780::Attribute>(&[0x0003, 0x802b, 0x0027, 0x802c], l),
        4 => {
            let all: Vec<u16> = TYPES.iter().map(|x| x.0).collect();
            dispatch::<All>(&all, l)
        }
        _ => {
            let h = Hdr::sym(0);
            let ty = vp::u16();
            let v = vp::vec(l);
            let mut b = h.bytes(4 + l + pad_len(l));
            b.extend_from_slice(&tlv(ty, &v, &vp::vec(pad_len(l))));
            match MessageDecoder::<RawAttribute>::new().decode_from_bytes(&b) {
                Ok(Ok(m)) => {
                    vp::cover("known");
                    let mut it = m.attributes();
                    match it.next() {
                        Some(a) => vp::check((a.get_type().as_u16() == ty) & eq(a.value(), &v), "a raw attribute has the received type and value"),
                        None => vp::check(false, "every type is a raw attribute"),
                    }
                    vp::check(it.next().is_none() && m.unknown_attributes().next().is_none(), "nothing is invented");
                    let e = MessageEncoder::new().encode_into_bytes(m.clone()).unwrap();
                    vp::check(eq(&e, &b), "re-encoding reproduces the received bytes");
                }
                _ => vp::check(false, "raw attributes accept every value"),
            }
        }
    }
}
fn dispatch<A: Attribute>(known: &[u16], l: usize) {
    let h = Hdr::sym(0);
    let ty = vp::u16();
    let mut is_known = false;
    for k in known {
        is_known |= *k == ty;
    }
    if l == 4 && known.contains(&0x8028) {
        vp::assume(ty != 0x8028); // right and wrong FINGERPRINTs: h_dec and h_mi
    }
    let mut v = vp::vec(l);
    if vp::param(2) == 1 {
        for b in v.iter_mut() {
            *b &= 0x7f; // text is always valid
        }
    }
    let pad = vp::vec(pad_len(l));
    let mut b = h.bytes(4 + l + pad.len());
    b.extend_from_slice(&tlv(ty, &v, &pad));
    let mut valid = true;
    for (c, k) in TYPES.iter() {
        if *c == ty && is_known {
            valid = if *k == K::Fp && l == 4 { eq(&v, &be32(fingerprint(&b[..20]))) } else { accepts(*k, &v) };
        }
    }
    match MessageDecoder::<A>::new().decode_from_bytes(&b) {
        Ok(Ok(m)) => {
            vp::check(valid, "an invalid value of a known attribute is rejected");
            let a = m.attributes().next();
            let u = m.unknown_attributes().next();
            vp::check(a.is_some() == is_known, "exactly the attributes of the set are known");
            vp::check(u.is_some() == !is_known, "every other type is kept as an unknown attribute");
            if let Some(a) = a {
                vp::cover("known");
                vp::check(a.get_type().as_u16() == ty, "a known attribute reports its codepoint");
            }
            if let Some(u) = u {
                vp::cover("unknown");
                vp::check((u.get_type().as_u16() == ty) & eq(u.value(), &v), "an unknown attribute keeps type and value");
            }
            match MessageEncoder::new().encode_into_bytes(m) {
                Ok(e) => {
                    let mut want = h.bytes(4 + l + pad.len());
                    let mut w = v.clone();
                    for (c, k) in TYPES.iter() {
                        if *c == ty && is_known {
                            w = canonical(*k, &v);
                        }
                    }
                    want.extend_from_slice(&tlv(ty, &w, &pad));
                    vp::check(eq(&e, &want), "re-encoding reproduces everything but reserved bits");
                }
                Err(_) => vp::check(false, "a decoded message can be encoded"),
            }
        }
        Ok(Err(_)) => {
            vp::cover("broken");
            vp::check(!valid, "a valid value of a known attribute is accepted");
        }
        Err(_) => vp::check(false, "a well-framed message yields a message or a broken message"),
    }
}

/// A single attribute set made of one attribute type only (no enum around it).
/// params: value length
#[no_mangle]
pub fn h_single() {
    let l = vp::param(0) as usize;
    single::<MappedAddress>(0x0001, K::Addr, l);
    single::<Priority>(0x0024, K::U32, l);
    single::<Data>(0x0013, K::Bytes, l);
    single::<EvenPort>(0x0018, K::Even, l);
    single::<UseCandidate>(0x0025, K::Empty, l);
}
fn single<A: Attribute>(code: u16, k: K, l: usize) {
    let h = Hdr::sym(2);
    let ty = vp::u16();
    let v = vp::vec(l);
    let mut b = h.bytes(4 + l + pad_len(l));
    b.extend_from_slice(&tlv(ty, &v, &zpad(l)));
    match MessageDecoder::<A>::new().decode_from_bytes(&b) {
        Ok(Ok(m)) => {
            vp::cover("decoded");
            let known = ty == code;
            vp::check(m.attributes().next().is_some() == known, "only the attribute itself is known");
            vp::check(m.unknown_attributes().next().is_some() == !known, "every other type is kept as an unknown attribute");
            if known {
                vp::check(accepts(k, &v), "an invalid value is rejected");
            }
        }
        Ok(Err(_)) => vp::check((ty == code) & !accepts(k, &v), "a valid value is accepted"),
        Err(_) => vp::check(false, "a well-framed message yields a message or a broken message"),
    }
}

/// Size limits: raw attributes of given lengths; never truncated.
/// params: count, lengths...
#[no_mangle]
pub fn h_big() {
    let base = vp::live();
    big();
    vp::check(vp::live() == base, "no memory is leaked");
}
fn big() {
    let h = Hdr::sym(0);
    let n = vp::param(0) as u32;
    let mut m: Message<RawAttribute> = h.message();
    let mut plain: Message<RawAttribute> = Message::new(MessageClass::Request, stun_codec::rfc5389::methods::BINDING, TransactionId::new([7; 12]));
    let mut want = h.bytes(0);
    let mut fits = true;
    for i in 0..n {
        let l = vp::param(1 + i) as usize;
        let ty = vp::u16();
        let v = bulk(l);
        fits = fits && l <= 0xFFFF;
        want.extend_from_slice(&be16(ty));
        want.extend_from_slice(&be16(l as u16));
        want.extend_from_slice(&v);
        want.extend_from_slice(&zpad(l));
        m.add_attribute(RawAttribute::new(AttributeType::new(ty), v));
        plain.add_attribute(RawAttribute::new(AttributeType::new(0x7001), vec![0; l]));
    }
    let body = want.len() - 20;
    fits = fits && body <= 0xFFFF;
    want[2] = (body >> 8) as u8;
    want[3] = body as u8;
    // FINGERPRINT and MESSAGE-INTEGRITY have to fit behind it
    match Fingerprint::new(&plain) {
        Ok(_) => vp::check(body + 8 <= 0xFFFF, "no FINGERPRINT for a message that has no room for it"),
        Err(_) => vp::check(body + 8 > 0xFFFF, "FINGERPRINT can be computed for every message that has room for it"),
    }
    match MessageIntegrity::new_short_term_credential(&plain, "key") {
        Ok(_) => vp::check(body + 24 <= 0xFFFF, "no MESSAGE-INTEGRITY for a message that has no room for it"),
        Err(_) => vp::check(body + 24 > 0xFFFF, "MESSAGE-INTEGRITY can be computed for every message that has room for it"),
    }
    let mut e = MessageEncoder::<RawAttribute>::new();
    match e.encode_into_bytes(m) {
        Ok(b) => {
            vp::cover("encoded");
            vp::check(fits, "what does not fit a 16-bit length is refused");
            vp::check(b.len() == want.len(), "nothing is truncated");
            vp::check(b[..20] == want[..20], "the header carries the whole length");
            vp::check(b == want, "every byte is as described");
            match MessageDecoder::<RawAttribute>::new().decode_from_bytes(&b) {
                Ok(Ok(m)) => {
                    let mut i = 0;
                    for a in m.attributes() {
                        vp::check(a.value().len() as u64 == vp::param(1 + i), "every attribute has its length");
                        i += 1;
                    }
                    vp::check(i == n, "every attribute is there");
                }
                _ => vp::check(false, "a message at the limit can be decoded"),
            }
        }
        Err(_) => {
            vp::cover("refused");
            vp::check(!fits, "what fits a 16-bit length is encoded");
            // and the encoder still works
            let b = e.encode_into_bytes(h.message());
            match b {
                Ok(b) => vp::check(eq(&b, &h.bytes(0)), "the encoder is usable after a refused message"),
                Err(_) => vp::check(false, "the encoder is usable after a refused message"),
            }
        }
    }
}

/// Decoding messages with a FINGERPRINT or MESSAGE-INTEGRITY behind (or in front of) very large bodies.
/// params: raw length, which (0 FINGERPRINT, 1 MESSAGE-INTEGRITY), raw length behind it (0 = none)
#[no_mangle]
pub fn h_big_mac() {
    let h = Hdr { class: 0, method: 1, tid: [7; 12] };
    let l = vp::param(0) as usize;
    let after = vp::param(2) as usize;
    let mut body = tlv(0x7001, &vec![0; l], &zpad(l));
    let mut b = h.bytes(0);
    b.extend_from_slice(&body);
    let pre = b.len() - 20;
    if vp::param(1) == 0 {
        let room = pre + 8 <= 0xFFFF;
        let crc = if room { fingerprint(&b) } else { vp::u32() };
        body.extend_from_slice(&tlv(0x8028, &be32(crc), &[]));
    } else {
        body.extend_from_slice(&tlv(0x0008, &vp::bytes::<20>(), &[]));
    }
    if after > 0 {
        body.extend_from_slice(&tlv(0x7002, &vec![0; after], &zpad(after)));
    }
    vp::check(body.len() <= 0xFFFF, "harness: body fits");
    let mut b = h.bytes(body.len());
    b.extend_from_slice(&body);
    match MessageDecoder::<rfc5389::Attribute>::new().decode_from_bytes(&b) {
        Ok(Ok(m)) => {
            vp::cover("decoded");
            vp::check(m.attributes().count() == 1, "the attribute is decoded");
        }
        Ok(Err(_)) => vp::check(false, "a right FINGERPRINT or any MESSAGE-INTEGRITY is accepted"),
        Err(_) => vp::check(false, "a well-framed message yields a message or a broken message"),
    }
}

struct Sink([u8; 40], usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.as_bytes() {
            self.0[self.1] = *b;
            self.1 += 1;
        }
        Ok(())
    }
}
fn shown(d: &dyn std::fmt::Display) -> Sink {
    use std::fmt::Write;
    let mut s = Sink([0; 40], 0);
    vp::check(write!(s, "{}", d).is_ok(), "formatting succeeds");
    s
}

fn number(s: &[u8]) -> u32 {
    let mut v = 0u32;
    vp::check(!s.is_empty() && s.len() <= 5, "decimal digits");
    for d in s {
        vp::check((*d >= b'0') & (*d <= b'9'), "decimal digits");
        v = v.wrapping_mul(10).wrapping_add((*d).wrapping_sub(b'0') as u32);
    }
    v
}

/// Display of methods of up to param 1 bits (param 0 = 0), of classes (1), of channel numbers (2; the upper bits
/// of the number are those of param 2) and address families (3).
#[no_mangle]
pub fn h_display() {
    if vp::param(0) == 1 {
        let c = vp::choose(4) as u16;
        let s = shown(&class_of(c));
        let n = ["request", "indication", "success response", "error response"][c as usize];
        vp::check(eq(&s.0[..s.1], n.as_bytes()), "a class is shown by its name");
        vp::cover("end");
        return;
    }
    if vp::param(0) == 2 {
        let c = 0x4000 + vp::param(2) as u16 + vp::u(vp::param(1) as u32) as u16;
        let s = shown(&ChannelNumber::new(c).unwrap());
        vp::check(number(&s.0[..s.1]) == c as u32, "a channel number is shown as its number");
        vp::cover("end");
        return;
    }
    if vp::param(0) == 3 {
        use stun_codec::rfc8656::attributes::AddressFamily;
        let s = shown(&AddressFamily::V4);
        vp::check(eq(&s.0[..s.1], b"IPv4"), "an address family is shown by its name");
        let s = shown(&AddressFamily::V6);
        vp::check(eq(&s.0[..s.1], b"IPv6"), "an address family is shown by its name");
        vp::cover("end");
        return;
    }
    let m = vp::u(vp::param(1) as u32) as u16;
    let names: [(u16, &str); 7] = [(1, "binding"), (3, "allocate"), (4, "refresh"), (6, "send"), (7, "data"), (8, "create permission"), (9, "channel bind")];
    let s = shown(&Method::new(m).unwrap());
    let mut want = None;
    for (c, n) in names {
        if c == m {
            want = Some(n);
        }
    }
    match want {
        Some(n) => vp::check(eq(&s.0[..s.1], n.as_bytes()), "a registered method is shown by its name"),
        None => {
            let t = b"unknown (";
            vp::check(s.1 > 10 && eq(&s.0[..9], t) && s.0[s.1 - 1] == b')', "an unregistered method is shown as unknown");
            let v = number(&s.0[9..s.1 - 1]);
            vp::check(v == m as u32, "with its codepoint");
        }
    }
    vp::cover("end");
}
