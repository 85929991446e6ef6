//! The coders of single attributes, used on their own (they are part of the public API).
use crate::msg::*;
use crate::spec::*;
use crate::vp;
use bytecodec::{ByteCount, Decode, Encode, Eos, ErrorKind, SizedEncode, TryTaggedDecode};
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::*;

/// cut: 0 whole, 1 byte by byte, 2 cut anywhere, 3 byte by byte with empty pieces, k > 3 pieces of k bytes
fn cuts(n: usize, cut: usize) -> Vec<usize> {
    let mut c = vec![];
    match cut {
        0 => {}
        1 => c.extend(1..n),
        2 => c.push(vp::choose(n as u64 + 1) as usize),
        3 => c.extend((0..2 * n).map(|x| x / 2)),
        k => {
            let mut i = k;
            while i < n {
                c.push(i);
                i += k;
            }
        }
    }
    c.push(n);
    c
}

fn feed<D: Decode>(d: &mut D, v: &[u8], cut: usize, valid: bool) -> Option<D::Item> {
    let n = v.len();
    let mut at = 0;
    for c in cuts(n, cut) {
        if valid && at < n {
            // (at the end, only the end of the stream tells that a list has no more items)
            if let ByteCount::Finite(k) = d.requiring_bytes() {
                vp::check(k <= (n - at) as u64, "an attribute decoder never asks for more than the value");
            }
        }
        match d.decode(&v[at..c], Eos::with_remaining_bytes(ByteCount::Finite((n - c) as u64))) {
            Ok(k) => {
                vp::check(k <= c - at, "an attribute decoder never consumes more than given");
                if k < c - at {
                    vp::cover("surplus");
                    vp::check(!valid, "a valid value is consumed");
                    return None;
                }
                at = c;
            }
            Err(_) => {
                vp::cover("rejected");
                vp::check(!valid, "a valid value is accepted");
                return None;
            }
        }
        if valid && at < n {
            vp::check(!d.is_idle(), "an attribute decoder is not idle inside a value");
        }
    }
    if valid {
        vp::check(d.is_idle(), "an attribute decoder is idle at the end of the value");
    }
    match d.finish_decoding() {
        Ok(x) => {
            vp::cover("decoded");
            vp::check(valid, "an invalid value is rejected");
            Some(x)
        }
        Err(_) => {
            vp::cover("rejected");
            vp::check(!valid, "a valid value is accepted");
            None
        }
    }
}

fn produce<E: SizedEncode>(e: &mut E, x: E::Item, other: E::Item, want: &[u8], cut: usize) {
    let n = want.len();
    vp::check(e.is_idle(), "a new attribute encoder is idle");
    vp::check(e.exact_requiring_bytes() == 0, "a new attribute encoder has nothing to encode");
    if e.start_encoding(x).is_err() {
        vp::check(false, "an attribute can be encoded");
        return;
    }
    let mut got = vec![];
    let mut other = Some(other);
    for c in cuts(n, cut) {
        let left = n - got.len();
        vp::check(e.exact_requiring_bytes() == left as u64, "the announced size of a value is what is still to come");
        if let ByteCount::Finite(k) = e.requiring_bytes() {
            vp::check(k == left as u64, "the announced size of a value is what is still to come");
        }
        if left > 0 {
            vp::check(!e.is_idle(), "an attribute encoder is not idle inside a value");
            if let Some(o) = other.take() {
                match e.start_encoding(o) {
                    Ok(()) => vp::check(false, "a second attribute is refused while one is being encoded"),
                    Err(x) => vp::check(*x.kind() == ErrorKind::EncoderFull, "the refusal is EncoderFull"),
                }
            }
        }
        let k = c - got.len();
        let mut b = vec![0xAA; k + if c == n { 3 } else { 0 }];
        match e.encode(&mut b, Eos::new(c == n)) {
            Ok(w) => {
                vp::check(w == k, "an attribute encoder fills the buffer or finishes");
                if w > b.len() {
                    return;
                }
                vp::check(b[w..].iter().all(|x| *x == 0xAA), "nothing is written past the reported size");
                got.extend_from_slice(&b[..w]);
                if w != k {
                    return;
                }
            }
            Err(_) => {
                vp::check(false, "an attribute can be encoded");
                return;
            }
        }
    }
    vp::check(e.is_idle(), "an attribute encoder is idle at the end of the value");
    vp::check(e.exact_requiring_bytes() == 0, "nothing is left at the end of the value");
    vp::check(eq(&got, want), "the value is encoded as the RFC says");
    vp::out_bytes(&got);
}

/// `code`: the type the coder stands for, None = any
fn coder<A: Attribute>(code: &[u16], k: Option<K>, ty: u16, v: &[u8], v2: &[u8], cut: usize) {
    let ok = |v: &[u8]| match k {
        Some(k) => accepts(k, v),
        None => true,
    };
    let canon = |v: &[u8]| match k {
        Some(k) => canonical(k, v),
        None => v.to_vec(),
    };
    let mut d = A::Decoder::default();
    // (all types in attribute sets: h_dispatch)
    let any = if code.len() > 1 { code[0] } else { vp::u16() };
    match d.try_start_decoding(AttributeType::new(any)) {
        Ok(x) => vp::check(x == (code.is_empty() || code.contains(&any)), "an attribute decoder takes exactly its own type"),
        Err(_) => vp::check(false, "asking for a type does not fail"),
    }
    let mut d = A::Decoder::default();
    vp::check(d.try_start_decoding(AttributeType::new(ty)).unwrap_or(false), "an attribute decoder takes its own type");
    let a = match feed(&mut d, v, cut, ok(v)) {
        Some(a) => a,
        None => return,
    };
    vp::check(a.get_type().as_u16() == ty, "an attribute reports its codepoint");
    // the decoder is used again
    vp::assume(ok(v2));
    vp::check(d.try_start_decoding(AttributeType::new(ty)).unwrap_or(false), "an attribute decoder takes its own type");
    let b = match feed(&mut d, v2, 0, true) {
        Some(b) => b,
        None => return,
    };
    if code.len() != 1 {
        // of several types: nothing without being told which one
        let told = d.decode(v2, Eos::new(true)).is_ok() && d.finish_decoding().is_ok();
        vp::check(!told, "a decoder that was not told the type yields nothing");
    }
    // nothing of the coders depends on the message: the values go out as they came in
    let mut e = A::Encoder::default();
    produce(&mut e, a.clone(), b.clone(), &canon(v), cut);
    produce(&mut e, b, a, &canon(v2), 0);
    vp::cover("end");
}

/// params: type (index into TYPES; 200 + index: as part of the set `All`; 100: raw attribute), value length, value mode,
/// cut, second value length
#[no_mangle]
pub fn h_coder() {
    let p = vp::param(0) as usize;
    let l = vp::param(1) as usize;
    let mode = vp::param(2);
    let cut = vp::param(3) as usize;
    let l2 = vp::param(4) as usize;
    if p == UNKNOWN {
        let (v, w) = (vp::vec(l), vp::vec(l2));
        coder::<RawAttribute>(&[], None, vp::u16(), &v, &w, cut);
        return;
    }
    let t = p % 200;
    let (ty, k) = TYPES[t];
    let (v, w) = (if mode == 9 { bulk(l) } else { sym_value(k, l, mode) }, sym_value(k, l2, 1));
    if p >= 200 {
        let all: Vec<u16> = TYPES.iter().map(|x| x.0).collect();
        coder::<All>(&all, Some(k), ty, &v, &w, cut);
        return;
    }
    macro_rules! one {
        ($($n:literal $v:ident),*) => {
            match t {
                $($n => coder::<$v>(&[ty], Some(k), ty, &v, &w, cut),)*
                _ => vp::check(false, "harness: type"),
            }
        };
    }
    one!(0 MappedAddress, 1 Username, 2 MessageIntegrity, 3 ErrorCode, 4 UnknownAttributes, 5 Realm,
        6 Nonce, 7 XorMappedAddress, 8 XorMappedAddress2, 9 Software, 10 AlternateServer, 11 Fingerprint,
        12 ChannelNumber, 13 Lifetime, 14 XorPeerAddress, 15 Data, 16 XorRelayAddress, 17 EvenPort,
        18 RequestedTransport, 19 DontFragment, 20 ReservationToken, 21 Priority, 22 UseCandidate,
        23 IceControlled, 24 IceControlling, 25 ChangeRequest, 26 ResponseOrigin, 27 ResponsePort,
        28 OtherAddress, 29 MobilityTicket, 30 RequestedAddressFamily, 31 AdditionalAddressFamily);
}

/// what a value feeds to a hasher
pub struct Fed(pub Vec<u8>);
impl std::hash::Hasher for Fed {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
pub fn fed<T: std::hash::Hash>(x: &T) -> Vec<u8> {
    let mut h = Fed(vec![]);
    x.hash(&mut h);
    h.0
}

/// Equality, cloning and lookup of attributes are by value.
/// params: type, length of the first, length of the second, mode
#[no_mangle]
pub fn h_eq() {
    let t = vp::param(0) as usize;
    let mode = vp::param(3);
    let a = make(t, vp::param(1) as usize, mode);
    let b = make(t, vp::param(2) as usize, mode);
    let tid = [0; 12];
    let (x, y) = (value_of(&a, &tid).1, value_of(&b, &tid).1);
    let same = eq(&x, &y);
    vp::check((a == b) == same, "two attributes are equal exactly if their values are");
    vp::check(a == a.clone(), "a clone equals its original");
    vp::check(!same || eq(&fed(&a), &fed(&b)), "equal attributes have equal hashes");
    vp::check(eq(&fed(&a), &fed(&a.clone())), "equal attributes have equal hashes");
    let c = a.clone();
    vp::check(eq(&value_of(&c, &tid).1, &x), "a clone has the value of its original");
    // in a message: the clone of a message encodes to the same bytes, and encoding a clone leaves it alone
    let h = Hdr::sym(1);
    let mut m: Message<All> = h.message();
    m.add_attribute(a);
    let m2 = m.clone();
    m.add_attribute(b);
    let e1 = bytecodec::EncodeExt::encode_into_bytes(&mut MessageEncoder::new(), m.clone());
    let e2 = bytecodec::EncodeExt::encode_into_bytes(&mut MessageEncoder::new(), m.clone());
    match (e1, e2) {
        (Ok(e1), Ok(e2)) => {
            vp::check(eq(&e1, &e2), "encoding is a function of the message");
            vp::out_bytes(&e1);
        }
        _ => vp::check(false, "a message within the length limit can be encoded"),
    }
    vp::check(m2.attributes().count() == 1 && m.attributes().count() == 2, "a clone is independent of its original");
    vp::check(h.matches(&m2), "a clone has the header of its original");
    match m2.attributes().next() {
        Some(z) => vp::check(eq(&value_of(z, &tid).1, &x), "a clone keeps its attributes"),
        None => vp::check(false, "a clone keeps its attributes"),
    }
    vp::cover("end");
}

/// Identifiers are compared, ordered and hashed by their numbers.
#[no_mangle]
pub fn h_ids() {
    use std::cmp::Ordering;
    fn agree<T: Ord + Copy + std::hash::Hash>(a: T, b: T, want: Ordering) {
        vp::check((a == b) == (want == Ordering::Equal), "identifiers are equal exactly if their numbers are");
        vp::check(a.cmp(&b) == want, "identifiers are ordered as their numbers");
        vp::check(a.partial_cmp(&b) == Some(want), "identifiers are ordered as their numbers");
        vp::check(want != Ordering::Equal || eq(&fed(&a), &fed(&b)), "equal identifiers have equal hashes");
    }
    let (a, b) = (vp::u16(), vp::u16());
    let want = a.cmp(&b);
    agree(AttributeType::new(a), AttributeType::new(b), want);
    if (a < 0x1000) & (b < 0x1000) {
        match (Method::new(a), Method::new(b)) {
            (Ok(a), Ok(b)) => agree(a, b, want),
            _ => vp::check(false, "12-bit methods exist"),
        }
        vp::cover("methods");
    }
    if (a >> 12 == 4) & (b >> 12 == 4) {
        match (rfc5766::attributes::ChannelNumber::new(a), rfc5766::attributes::ChannelNumber::new(b)) {
            (Ok(a), Ok(b)) => agree(a, b, want),
            _ => vp::check(false, "channel numbers 0x4000-0x4FFF exist"),
        }
        vp::cover("channels");
    }
    // transaction ids: as the 96-bit numbers they are, for two that differ in at most two bytes
    let mut x: [u8; 12] = vp::bytes();
    let i = vp::choose(12) as usize;
    let j = vp::choose(12) as usize;
    vp::assume(i < j || i == 11 && j == 11);
    let y = x;
    x[i] = vp::u8();
    x[j] = vp::u8();
    let want = x[i].cmp(&y[i]).then(x[j].cmp(&y[j]));
    agree(TransactionId::new(x), TransactionId::new(y), want);
    let classes = [MessageClass::Request, MessageClass::Indication, MessageClass::SuccessResponse, MessageClass::ErrorResponse];
    let (i, j) = (vp::choose(4) as usize, vp::choose(4) as usize);
    vp::check((classes[i] == classes[j]) == (i == j), "classes are equal only to themselves");
    vp::check(i != j || eq(&fed(&classes[i]), &fed(&classes[j])), "equal classes have equal hashes");
    vp::cover("end");
}
