//! Reference description of the wire formats, written from RFC 5389/5766/5245/5780/8016/8656,
//! independent of the code under test.
#![allow(dead_code)]
use crate::vp;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::*;

stun_codec::define_attribute_enums!(
    All,
    AllDecoder,
    AllEncoder,
    [
        MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce,
        XorMappedAddress, XorMappedAddress2, Software, AlternateServer, Fingerprint,
        ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort,
        RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
        IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort,
        OtherAddress, MobilityTicket, RequestedAddressFamily, AdditionalAddressFamily
    ]
);

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Addr,
    XorAddr,
    User,
    Text,
    ErrC,
    Unks,
    Mi,
    Fp,
    U32,
    U64,
    Empty,
    Chan,
    Bytes,
    Even,
    ReqT,
    Chg,
    RPort,
    Fam,
}
use K::*;

/// codepoint and format of every attribute, in the order used by job parameters
pub const TYPES: [(u16, K); 32] = [
    (0x0001, Addr),    // 0 MAPPED-ADDRESS
    (0x0006, User),    // 1 USERNAME
    (0x0008, Mi),      // 2 MESSAGE-INTEGRITY
    (0x0009, ErrC),    // 3 ERROR-CODE
    (0x000A, Unks),    // 4 UNKNOWN-ATTRIBUTES
    (0x0014, Text),    // 5 REALM
    (0x0015, Text),    // 6 NONCE
    (0x0020, XorAddr), // 7 XOR-MAPPED-ADDRESS
    (0x8020, XorAddr), // 8 XOR-MAPPED-ADDRESS (alternative)
    (0x8022, Text),    // 9 SOFTWARE
    (0x8023, Addr),    // 10 ALTERNATE-SERVER
    (0x8028, Fp),      // 11 FINGERPRINT
    (0x000C, Chan),    // 12 CHANNEL-NUMBER
    (0x000D, U32),     // 13 LIFETIME
    (0x0012, XorAddr), // 14 XOR-PEER-ADDRESS
    (0x0013, Bytes),   // 15 DATA
    (0x0016, XorAddr), // 16 XOR-RELAYED-ADDRESS
    (0x0018, Even),    // 17 EVEN-PORT
    (0x0019, ReqT),    // 18 REQUESTED-TRANSPORT
    (0x001A, Empty),   // 19 DONT-FRAGMENT
    (0x0022, U64),     // 20 RESERVATION-TOKEN
    (0x0024, U32),     // 21 PRIORITY
    (0x0025, Empty),   // 22 USE-CANDIDATE
    (0x8029, U64),     // 23 ICE-CONTROLLED
    (0x802A, U64),     // 24 ICE-CONTROLLING
    (0x0003, Chg),     // 25 CHANGE-REQUEST
    (0x802b, Addr),    // 26 RESPONSE-ORIGIN
    (0x0027, RPort),   // 27 RESPONSE-PORT
    (0x802c, Addr),    // 28 OTHER-ADDRESS
    (0x8030, Bytes),   // 29 MOBILITY-TICKET
    (0x0017, Fam),     // 30 REQUESTED-ADDRESS-FAMILY
    (0x8000, Fam),     // 31 ADDITIONAL-ADDRESS-FAMILY
];

pub const COOKIE: [u8; 4] = [0x21, 0x12, 0xa4, 0x42];

/// RFC 5389 figure 3, bit by bit
pub fn type_field(class: u16, method: u16) -> u16 {
    const M: [u32; 12] = [0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13];
    let mut t = 0;
    for (i, p) in M.iter().enumerate() {
        t |= ((method >> i) & 1) << p;
    }
    t | (class & 1) << 4 | (class >> 1 & 1) << 8
}

#[derive(Clone, Copy)]
pub struct Hdr {
    pub class: u16,
    pub method: u16,
    pub tid: [u8; 12],
}
impl Hdr {
    /// arbitrary method and transaction id
    pub fn sym(class: u16) -> Hdr {
        Hdr { class, method: vp::u(12) as u16, tid: vp::bytes() }
    }
    pub fn bytes(&self, body_len: usize) -> Vec<u8> {
        let t = type_field(self.class, self.method);
        let mut b = vec![(t >> 8) as u8, t as u8, (body_len >> 8) as u8, body_len as u8];
        b.extend_from_slice(&COOKIE);
        b.extend_from_slice(&self.tid);
        b
    }
    pub fn message<A: Attribute>(&self) -> Message<A> {
        Message::new(class_of(self.class), Method::new(self.method).unwrap(), TransactionId::new(self.tid))
    }
    pub fn matches<A: Attribute>(&self, m: &Message<A>) -> bool {
        self.same(m.class(), m.method(), m.transaction_id())
    }
    pub fn same(&self, c: MessageClass, m: Method, t: TransactionId) -> bool {
        (class_no(c) == self.class) & (m.as_u16() == self.method) & eq(&t.as_bytes()[..], &self.tid)
    }
}

pub fn class_of(c: u16) -> MessageClass {
    match c {
        0 => MessageClass::Request,
        1 => MessageClass::Indication,
        2 => MessageClass::SuccessResponse,
        _ => MessageClass::ErrorResponse,
    }
}
pub fn class_no(c: MessageClass) -> u16 {
    match c {
        MessageClass::Request => 0,
        MessageClass::Indication => 1,
        MessageClass::SuccessResponse => 2,
        MessageClass::ErrorResponse => 3,
    }
}

/// comparison without early exit
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

pub fn pad_len(n: usize) -> usize {
    (4 - n % 4) % 4
}
pub fn be16(v: u16) -> [u8; 2] {
    [(v >> 8) as u8, v as u8]
}
pub fn be32(v: u32) -> [u8; 4] {
    [(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]
}
pub fn be64(v: u64) -> Vec<u8> {
    let mut b = be32((v >> 32) as u32).to_vec();
    b.extend_from_slice(&be32(v as u32));
    b
}

/// type, length, value, padding
pub fn tlv(ty: u16, v: &[u8], pad: &[u8]) -> Vec<u8> {
    let mut b = be16(ty).to_vec();
    b.extend_from_slice(&be16(v.len() as u16));
    b.extend_from_slice(v);
    b.extend_from_slice(pad);
    b
}
pub fn zpad(n: usize) -> Vec<u8> {
    vec![0; pad_len(n)]
}

// ---------------------------------------------------------------- acceptance
pub fn char_count(v: &[u8]) -> usize {
    // characters of valid UTF-8 = bytes that are not continuation bytes
    let mut n = 0;
    for b in v {
        n += (b & 0xC0 != 0x80) as usize;
    }
    n
}

/// Is `v` a valid value for this kind of attribute (RFC text; reserved bits are ignored)?
/// FINGERPRINT additionally needs the right CRC.
pub fn accepts(k: K, v: &[u8]) -> bool {
    let n = v.len();
    match k {
        Addr | XorAddr => {
            if n == 8 {
                v[1] == 1
            } else if n == 20 {
                v[1] == 2
            } else {
                false
            }
        }
        User => n < 513 && std::str::from_utf8(v).is_ok(),
        Text => {
            if n < 128 {
                std::str::from_utf8(v).is_ok()
            } else {
                std::str::from_utf8(v).is_ok() && char_count(v) < 128
            }
        }
        ErrC => {
            if n < 4 {
                return false;
            }
            let class = v[2] & 7;
            (class >= 3) & (class < 6) & (v[3] < 100) && std::str::from_utf8(&v[4..]).is_ok()
        }
        Unks => n % 2 == 0,
        Mi => n == 20,
        Fp => n == 4,
        U32 | ReqT | Chg | RPort => n == 4,
        U64 => n == 8,
        Empty => n == 0,
        Chan => {
            // 0x4000 ..= 0x4FFF
            n == 4 && v[0] & 0xF0 == 0x40
        }
        Bytes => true,
        Even => n == 1,
        Fam => n == 4 && (v[0] == 1) | (v[0] == 2),
    }
}

/// the value with every reserved (ignored on receipt, sent as zero) bit cleared
pub fn canonical(k: K, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    let n = v.len();
    match k {
        Addr | XorAddr if n > 0 => v[0] = 0,
        ErrC if n >= 4 => {
            v[0] = 0;
            v[1] = 0;
            v[2] &= 7;
        }
        Chan | RPort if n == 4 => {
            v[2] = 0;
            v[3] = 0;
        }
        Even if n == 1 => v[0] &= 0x80,
        ReqT | Fam if n == 4 => {
            v[1] = 0;
            v[2] = 0;
            v[3] = 0;
        }
        Chg if n == 4 => {
            v[0] = 0;
            v[1] = 0;
            v[2] = 0;
            v[3] &= 6;
        }
        _ => {}
    }
    v
}
/// does this kind have reserved bits at all?
pub fn has_reserved(k: K) -> bool {
    matches!(k, Addr | XorAddr | ErrC | Chan | RPort | Even | ReqT | Fam | Chg)
}

// ---------------------------------------------------------------- values from accessors
pub fn plain_addr_bytes(a: SocketAddr) -> Vec<u8> {
    let mut b = vec![0];
    match a.ip() {
        IpAddr::V4(ip) => {
            b.push(1);
            b.extend_from_slice(&be16(a.port()));
            b.extend_from_slice(&ip.octets());
        }
        IpAddr::V6(ip) => {
            b.push(2);
            b.extend_from_slice(&be16(a.port()));
            b.extend_from_slice(&ip.octets());
        }
    }
    b
}
fn xor_value(a: SocketAddr, tid: &[u8; 12]) -> Vec<u8> {
    let mut b = plain_addr_bytes(a);
    let mut mask = COOKIE.to_vec();
    mask.extend_from_slice(tid);
    b[2] ^= COOKIE[0];
    b[3] ^= COOKIE[1];
    for i in 4..b.len() {
        b[i] ^= mask[i - 4];
    }
    b
}

/// index into TYPES and reference encoding of an attribute from what its accessors report
pub fn value_of(a: &All, tid: &[u8; 12]) -> (usize, Vec<u8>) {
    match a {
        All::MappedAddress(x) => (0, plain_addr_bytes(x.address())),
        All::Username(x) => (1, x.name().as_bytes().to_vec()),
        All::MessageIntegrity(x) => (2, x.hmac_sha1().to_vec()),
        All::ErrorCode(x) => {
            let mut b = vec![0, 0, (x.code() / 100) as u8, (x.code() % 100) as u8];
            b.extend_from_slice(x.reason_phrase().as_bytes());
            (3, b)
        }
        All::UnknownAttributes(x) => {
            let mut b = vec![];
            for t in x.unknowns() {
                b.extend_from_slice(&be16(t.as_u16()));
            }
            (4, b)
        }
        All::Realm(x) => (5, x.text().as_bytes().to_vec()),
        All::Nonce(x) => (6, x.value().as_bytes().to_vec()),
        All::XorMappedAddress(x) => (7, xor_value(x.address(), tid)),
        All::XorMappedAddress2(x) => (8, xor_value(x.address(), tid)),
        All::Software(x) => (9, x.description().as_bytes().to_vec()),
        All::AlternateServer(x) => (10, plain_addr_bytes(x.address())),
        All::Fingerprint(x) => (11, be32(x.crc32()).to_vec()),
        All::ChannelNumber(x) => {
            let p = be16(x.value());
            (12, vec![p[0], p[1], 0, 0])
        }
        All::Lifetime(x) => {
            vp::check(x.lifetime().subsec_nanos() == 0, "lifetime has whole seconds");
            (13, be32(x.lifetime().as_secs() as u32).to_vec())
        }
        All::XorPeerAddress(x) => (14, xor_value(x.address(), tid)),
        All::Data(x) => (15, x.data().to_vec()),
        All::XorRelayAddress(x) => (16, xor_value(x.address(), tid)),
        All::EvenPort(x) => (17, vec![(x.is_requested() as u8) << 7]),
        All::RequestedTransport(x) => (18, vec![x.protocol(), 0, 0, 0]),
        All::DontFragment(_) => (19, vec![]),
        All::ReservationToken(x) => (20, be64(x.token())),
        All::Priority(x) => (21, be32(x.prio()).to_vec()),
        All::UseCandidate(_) => (22, vec![]),
        All::IceControlled(x) => (23, be64(x.prio())),
        All::IceControlling(x) => (24, be64(x.prio())),
        All::ChangeRequest(x) => (25, vec![0, 0, 0, (x.ip() as u8) << 2 | (x.port() as u8) << 1]),
        All::ResponseOrigin(x) => (26, plain_addr_bytes(x.address())),
        All::ResponsePort(x) => {
            let p = be16(x.port());
            (27, vec![p[0], p[1], 0, 0])
        }
        All::OtherAddress(x) => (28, plain_addr_bytes(x.address())),
        All::MobilityTicket(x) => (29, x.data().to_vec()),
        All::RequestedAddressFamily(x) => (30, vec![fam(x.address_family()), 0, 0, 0]),
        All::AdditionalAddressFamily(x) => (31, vec![fam(x.address_family()), 0, 0, 0]),
    }
}
fn fam(f: AddressFamily) -> u8 {
    match f {
        AddressFamily::V4 => 1,
        AddressFamily::V6 => 2,
    }
}

// ---------------------------------------------------------------- arbitrary values
pub fn sym_string(n: usize, mode: u64) -> String {
    let b = sym_text(n, mode);
    unsafe { String::from_utf8_unchecked(b) }
}
/// n bytes of text: mode 0 = arbitrary ASCII, w = 2..4: characters of w bytes (n a multiple of w),
/// 5, 7: characters of 1 to 4 bytes in turn, only some of them arbitrary (for long texts),
/// 10: ASCII, three characters arbitrary, 11: any character of two or three bytes at both ends
pub fn sym_text(n: usize, mode: u64) -> Vec<u8> {
    let mut b = vec![];
    match mode {
        2 => {
            for _ in 0..n / 2 {
                b.push(0xC8 | vp::u(3) as u8);
                b.push(0x80 | vp::u(6) as u8);
            }
        }
        3 => {
            for _ in 0..n / 3 {
                b.push(0xE4 | vp::u(2) as u8);
                b.push(0x80 | vp::u(6) as u8);
                b.push(0x80 | vp::u(6) as u8);
            }
        }
        4 => {
            for _ in 0..n / 4 {
                b.push(0xF2 | vp::u(1) as u8);
                b.push(0x80 | vp::u(6) as u8);
                b.push(0x80 | vp::u(6) as u8);
                b.push(0x80 | vp::u(6) as u8);
            }
        }
        5 | 7 => {
            const C: [&[u8]; 4] = [b"k", &[0xc3, 0xa9], &[0xe3, 0x81, 0x82], &[0xf0, 0x9f, 0x98, 0x80]];
            let mut i = mode as usize;
            loop {
                let c = C[i % 4];
                if b.len() + c.len() > n {
                    break;
                }
                let at = b.len();
                b.extend_from_slice(c);
                // arbitrary characters of the same width at both ends
                if at < 16 || at + 16 > n {
                    let k = b.len() - 1;
                    b[k] = if c.len() == 1 { vp::u(7) as u8 } else { 0x80 | vp::u(6) as u8 };
                }
                i += 1;
            }
        }
        10 => {
            b = vec![b'k'; n];
            for i in [0, n / 2, n - 1] {
                b[i] = vp::u(7) as u8;
            }
        }
        11 => {
            // any character of three or two bytes, at both ends
            let e = n % 5 + if n >= 10 { 5 } else { 0 };
            if n >= 5 {
                wide3(&mut b);
                wide2(&mut b);
            }
            while b.len() + e < n {
                b.push(b'k');
            }
            if n >= 10 {
                wide2(&mut b);
                wide3(&mut b);
            }
        }
        _ => {
            b = vp::vec(n);
            for x in b.iter_mut() {
                *x &= 0x7f;
            }
        }
    }
    while b.len() < n {
        b.push(vp::u(7) as u8);
    }
    b
}
fn wide2(b: &mut Vec<u8>) {
    let x = vp::u(5) as u8;
    vp::assume(x >= 2);
    b.push(0xC0 | x);
    b.push(0x80 | vp::u(6) as u8);
}
fn wide3(b: &mut Vec<u8>) {
    let x = vp::u(4) as u8;
    vp::assume((x != 0) & (x != 13));
    b.push(0xE0 | x);
    b.push(0x80 | vp::u(6) as u8);
    b.push(0x80 | vp::u(6) as u8);
}
pub fn sym_addr(v6: bool) -> SocketAddr {
    let port = vp::u16();
    if v6 {
        SocketAddr::new(IpAddr::V6(Ipv6Addr::from(vp::bytes::<16>())), port)
    } else {
        SocketAddr::new(IpAddr::V4(Ipv4Addr::from(vp::bytes::<4>())), port)
    }
}

/// n bytes, recognisably different from each other, arbitrary at both ends and in the middle
pub fn bulk(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    let mut i = 0;
    while i < n {
        v[i] = (i ^ i >> 8) as u8 & 0x7f;
        i += 1;
    }
    if n > 0 {
        v[0] = vp::u(7) as u8;
        v[n / 2] = vp::u(7) as u8;
        v[n - 1] = vp::u(7) as u8;
    }
    v
}
/// Arbitrary attribute of the given type, through the public constructors.  `l` selects the
/// size for variable-length ones and the address family for addresses; `mode` see sym_text.
/// MESSAGE-INTEGRITY and FINGERPRINT need the preceding message and are not made here.
pub fn make(t: usize, l: usize, mode: u64) -> All {
    match t {
        0 => MappedAddress::new(sym_addr(l == 20)).into(),
        1 => Username::new(sym_string(l, mode)).unwrap().into(),
        3 => {
            let c = vp::u16();
            vp::assume((c >= 300) & (c < 600));
            ErrorCode::new(c, sym_string(l, mode)).unwrap().into()
        }
        4 => UnknownAttributes::new((0..l / 2).map(|_| AttributeType::new(vp::u16())).collect()).into(),
        5 => Realm::new(sym_string(l, mode)).unwrap().into(),
        6 => Nonce::new(sym_string(l, mode)).unwrap().into(),
        7 => XorMappedAddress::new(sym_addr(l == 20)).into(),
        8 => XorMappedAddress2::new(sym_addr(l == 20)).into(),
        9 => Software::new(sym_string(l, mode)).unwrap().into(),
        10 => AlternateServer::new(sym_addr(l == 20)).into(),
        12 => {
            let c = vp::u16();
            vp::assume((c >= 0x4000) & (c <= 0x4FFF));
            ChannelNumber::new(c).unwrap().into()
        }
        13 => {
            if mode == 1 {
                // fractions of a second are dropped
                let (s, n) = (vp::u32(), vp::u32());
                vp::assume(n < 1_000_000_000);
                Lifetime::new(std::time::Duration::new(s as u64, n)).unwrap().into()
            } else {
                Lifetime::from_u32(vp::u32()).into()
            }
        }
        14 => XorPeerAddress::new(sym_addr(l == 20)).into(),
        15 => Data::new(if mode == 9 { bulk(l) } else { vp::vec(l) }).unwrap().into(),
        16 => XorRelayAddress::new(sym_addr(l == 20)).into(),
        17 => EvenPort::new(vp::bool()).into(),
        18 => RequestedTransport::new(vp::u8()).into(),
        19 => DontFragment.into(),
        20 => ReservationToken::new(vp::u64()).into(),
        21 => Priority::new(vp::u32()).into(),
        22 => UseCandidate::new().into(),
        23 => IceControlled::new(vp::u64()).into(),
        24 => IceControlling::new(vp::u64()).into(),
        25 => ChangeRequest::new(vp::bool(), vp::bool()).into(),
        26 => ResponseOrigin::new(sym_addr(l == 20)).into(),
        27 => ResponsePort::new(vp::u16()).into(),
        28 => OtherAddress::new(sym_addr(l == 20)).into(),
        29 => MobilityTicket::new(if mode == 9 { bulk(l) } else { vp::vec(l) }).unwrap().into(),
        30 => RequestedAddressFamily::new(if l == 20 { AddressFamily::V6 } else { AddressFamily::V4 }).into(),
        _ => AdditionalAddressFamily::new(if l == 20 { AddressFamily::V6 } else { AddressFamily::V4 }).into(),
    }
}

/// Arbitrary value bytes of length l for decoding.  mode 0: every byte arbitrary;
/// mode 1: valid text where the kind is textual (ASCII); 2..4 multi-byte text.
pub fn sym_value(k: K, l: usize, mode: u64) -> Vec<u8> {
    if mode == 6 || mode == 8 {
        // mostly ASCII, with four arbitrary (possibly invalid) bytes at the end / in the middle
        let mut v = vec![b'x'; l];
        if let ErrC = k {
            if l >= 4 {
                v[..4].copy_from_slice(&[0, 0, 4, 20]);
            }
        }
        let at = if mode == 6 { l.saturating_sub(4) } else { l / 2 };
        let end = if at + 4 < l { at + 4 } else { l };
        vp::fill(&mut v[at..end]);
        return v;
    }
    if mode > 0 {
        match k {
            User | Text => return sym_text(l, mode),
            ErrC if l >= 4 => {
                let mut b = vp::vec(4);
                b.extend_from_slice(&sym_text(l - 4, mode));
                return b;
            }
            _ => {}
        }
    }
    vp::vec(l)
}

// ---------------------------------------------------------------- CRC-32 and HMAC-SHA1
/// ISO-HDLC CRC-32, bit by bit
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = (c >> 1) ^ (0xEDB8_8320 & 0u32.wrapping_sub(c & 1));
        }
    }
    !c
}
/// FINGERPRINT value for the bytes preceding it (RFC 5389 15.5): the length field covers the
/// FINGERPRINT attribute itself, but nothing after it
pub fn fingerprint(preceding: &[u8]) -> u32 {
    let mut b = preceding.to_vec();
    let l = b.len() - 20 + 8;
    b[2] = (l >> 8) as u8;
    b[3] = l as u8;
    crc32(&b) ^ 0x5354_554e
}
fn sha1(parts: &[&[u8]]) -> [u8; 20] {
    use sha1::Digest;
    let mut h = sha1::Sha1::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn hmac_sha1(key: &[u8], msg: &[u8]) -> [u8; 20] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..20].copy_from_slice(&sha1(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i = [0u8; 64];
    let mut o = [0u8; 64];
    for j in 0..64 {
        i[j] = k[j] ^ 0x36;
        o[j] = k[j] ^ 0x5c;
    }
    let inner = sha1(&[&i, msg]);
    sha1(&[&o, &inner])
}
/// MESSAGE-INTEGRITY value for the bytes preceding it (RFC 5389 15.4)
pub fn integrity(key: &[u8], preceding: &[u8]) -> [u8; 20] {
    let mut b = preceding.to_vec();
    let l = b.len() - 20 + 24;
    b[2] = (l >> 8) as u8;
    b[3] = l as u8;
    hmac_sha1(key, &b)
}
/// key of the long-term mechanism: MD5(username ":" realm ":" password)
pub fn long_term_key(user: &[u8], realm: &[u8], pw: &[u8]) -> [u8; 16] {
    let mut b = user.to_vec();
    b.push(b':');
    b.extend_from_slice(realm);
    b.push(b':');
    b.extend_from_slice(pw);
    md5::compute(&b).0
}
