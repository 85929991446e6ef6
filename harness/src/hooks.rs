//! User-defined attributes: hook contract, ownership, encoder reuse.
use crate::spec::*;
use crate::vp;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::fixnum::{U32beDecoder, U32beEncoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, Result, SizedEncode, TryTaggedDecode};
use std::ptr::addr_of_mut;
use stun_codec::*;
use trackable::error::ErrorKindExt;

pub const TYPE: u16 = 0x7abc;

const CALLS: usize = 320;
/// of so many preceding attributes the values are looked at
const WINDOW: usize = 8;

struct Log {
    live: i64,
    calls: usize,
    /// (value of the attribute the hook ran on, known attributes seen, unknown seen, sum of the values seen, header ok)
    call: [(u32, usize, usize, u32, bool); CALLS],
    fail_at: usize,
    bump: u32,
    hdr: Option<Hdr>,
}
static mut LOG: Log = Log { live: 0, calls: 0, call: [(0, 0, 0, 0, false); CALLS], fail_at: usize::MAX, bump: 0, hdr: None };
fn log() -> &'static mut Log {
    unsafe { &mut *addr_of_mut!(LOG) }
}

/// counts the instances alive
#[derive(Debug)]
pub struct Token(Box<u8>);
impl Token {
    fn new() -> Token {
        log().live += 1;
        Token(Box::new(0))
    }
}
impl Clone for Token {
    fn clone(&self) -> Token {
        Token::new()
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        log().live -= 1;
    }
}

#[derive(Debug, Clone)]
pub struct Hook {
    pub v: u32,
    token: Token,
}
impl Hook {
    pub fn new(v: u32) -> Hook {
        Hook { v, token: Token::new() }
    }
    fn called<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        let l = log();
        let i = l.calls;
        l.calls += 1;
        let mut sum = 0u32;
        let n = m.attributes().count();
        for a in m.attributes().skip(n.saturating_sub(WINDOW)) {
            // what the hooks of the preceding attributes left in them
            if a.get_type().as_u16() == TYPE {
                sum = sum.rotate_left(5) ^ encoded_value(a);
            }
        }
        let ok = match &l.hdr {
            Some(h) => h.matches(m),
            None => false,
        };
        if i < CALLS {
            l.call[i] = (self.v, n, m.unknown_attributes().count(), sum, ok);
        }
        self.v ^= l.bump;
        if i == l.fail_at {
            return Err(ErrorKind::Other.error().into());
        }
        Ok(())
    }
}
/// the value of an attribute seen through the generic interface: encode it
fn encoded_value<A: Attribute>(a: &A) -> u32 {
    let mut e = A::Encoder::default();
    let mut b = [0; 4];
    if e.start_encoding(a.clone()).is_ok() && e.exact_requiring_bytes() == 4 {
        let _ = e.encode(&mut b, Eos::new(true));
    }
    u32::from_be_bytes(b)
}
impl Attribute for Hook {
    type Decoder = HookDecoder;
    type Encoder = HookEncoder;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(TYPE)
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.called(m)
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> Result<()> {
        self.called(m)
    }
}
#[derive(Debug, Default)]
pub struct HookDecoder(U32beDecoder);
impl Decode for HookDecoder {
    type Item = Hook;
    fn decode(&mut self, b: &[u8], e: Eos) -> Result<usize> {
        self.0.decode(b, e)
    }
    fn finish_decoding(&mut self) -> Result<Hook> {
        self.0.finish_decoding().map(Hook::new)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl TryTaggedDecode for HookDecoder {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        Ok(t.as_u16() == TYPE)
    }
}
#[derive(Debug, Default)]
pub struct HookEncoder(U32beEncoder);
impl Encode for HookEncoder {
    type Item = Hook;
    fn encode(&mut self, b: &mut [u8], e: Eos) -> Result<usize> {
        self.0.encode(b, e)
    }
    fn start_encoding(&mut self, h: Hook) -> Result<()> {
        self.0.start_encoding(h.v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl SizedEncode for HookEncoder {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

/// An attribute whose value is opaque bytes (a heap allocation), for the same purposes.
#[derive(Debug, Clone)]
pub struct Blob {
    pub v: Vec<u8>,
    token: Token,
}
impl Blob {
    pub const CODEPOINT: u16 = 0x7abd;
}
impl Attribute for Blob {
    type Decoder = BlobDecoder;
    type Encoder = BlobEncoder;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(0x7abd)
    }
}
#[derive(Debug, Default)]
pub struct BlobDecoder(RemainingBytesDecoder);
impl Decode for BlobDecoder {
    type Item = Blob;
    fn decode(&mut self, b: &[u8], e: Eos) -> Result<usize> {
        self.0.decode(b, e)
    }
    fn finish_decoding(&mut self) -> Result<Blob> {
        self.0.finish_decoding().map(|v| Blob { v, token: Token::new() })
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl TryTaggedDecode for BlobDecoder {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        Ok(t.as_u16() == 0x7abd)
    }
}
#[derive(Debug, Default)]
pub struct BlobEncoder(BytesEncoder);
impl Encode for BlobEncoder {
    type Item = Blob;
    fn encode(&mut self, b: &mut [u8], e: Eos) -> Result<usize> {
        self.0.encode(b, e)
    }
    fn start_encoding(&mut self, h: Blob) -> Result<()> {
        self.0.start_encoding(h.v)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl SizedEncode for BlobEncoder {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

fn reset(h: Hdr) {
    let l = log();
    l.calls = 0;
    l.hdr = Some(h);
    l.fail_at = usize::MAX;
    l.bump = 0;
}

/// The calls made must be: one per user attribute, in order, each seeing exactly the attributes
/// before it, as the hooks before it left them.  shape: 1 = user attribute, 0 = unknown.
fn check_calls(vals: &[u32], shape: &[bool], upto: usize) {
    let l = log();
    vp::check(l.calls == upto, "the hook runs exactly once per attribute");
    let mut k = 0;
    let (mut known, mut unknown) = (0usize, 0usize);
    let mut seen: Vec<u32> = vec![];
    for (i, s) in shape.iter().enumerate() {
        if *s {
            if k < upto && k < l.calls && k < CALLS {
                let c = l.call[k];
                vp::check(c.0 == vals[i], "the hook runs on the attributes in order");
                vp::check(c.1 == known, "the hook sees exactly the preceding known attributes");
                vp::check(c.2 == unknown, "the hook sees exactly the preceding unknown attributes");
                let sum = seen.iter().skip(seen.len().saturating_sub(WINDOW)).fold(0u32, |s, v| s.rotate_left(5) ^ v);
                vp::check(c.3 == sum, "the hook sees the preceding attributes as their hooks left them");
                vp::check(c.4, "the hook sees the header of the message");
            }
            k += 1;
            known += 1;
            seen.push(vals[i] ^ l.bump);
        } else {
            unknown += 1;
        }
    }
}

/// the index of the failing hook: any of the first n, or none
fn some_failure(n: usize) -> usize {
    if n <= 8 {
        return vp::choose(n as u64 + 1) as usize;
    }
    // many attributes: a few positions
    [n, n - 1, 1, 256][vp::choose(4) as usize].min(n)
}

/// after_decode: every arrangement of up to n user and unknown attributes, every failing position.
/// params: class, n
#[no_mangle]
pub fn h_after() {
    let base = vp::live();
    after_body();
    vp::check(log().live == 0, "every attribute is dropped exactly once");
    vp::check(vp::live() == base, "no memory is leaked");
}
fn after_body() {
    let h = Hdr::sym(vp::param(0) as u16);
    let n = vp::param(1) as usize;
    let mut shape = vec![];
    let mut vals = vec![];
    let mut body = vec![];
    for _ in 0..n {
        let user = if n <= 8 { vp::choose(2) == 1 } else { shape.len() % 9 != 4 };
        let v = vp::u32();
        shape.push(user);
        vals.push(v);
        body.extend_from_slice(&tlv(if user { TYPE } else { 0x0099 }, &be32(v), &[]));
    }
    let users = shape.iter().filter(|x| **x).count();
    reset(h);
    log().fail_at = some_failure(n);
    log().bump = vp::u32();
    let mut b = h.bytes(body.len());
    b.extend_from_slice(&body);
    let mut d = MessageDecoder::<Hook>::new();
    let fails = log().fail_at < users;
    match d.decode_from_bytes(&b) {
        Ok(Ok(m)) => {
            vp::cover("decoded");
            vp::check(!fails, "a failing hook makes the message broken");
            check_calls(&vals, &shape, users);
            let mut i = 0;
            for a in m.attributes() {
                while i < n && !shape[i] {
                    i += 1;
                }
                if i < n {
                    vp::check(a.v == (vals[i] ^ log().bump), "the message keeps what the hook left");
                }
                i += 1;
            }
            vp::check(m.attributes().count() == users, "no attribute is lost");
            vp::check(m.unknown_attributes().count() == n - users, "no unknown attribute is lost");
        }
        Ok(Err(e)) => {
            vp::cover("broken");
            vp::check(fails, "hooks that succeed do not make the message broken");
            vp::check(*e.error().kind() == ErrorKind::Other, "the broken message carries the error of the hook");
            vp::check(h.same(e.class(), e.method(), e.transaction_id()), "broken message reports the received header");
            check_calls(&vals, &shape, log().fail_at + 1);
            drop(e);
            // the decoder goes on
            reset(h);
            match d.decode_from_bytes(&b) {
                Ok(Ok(m)) => {
                    vp::check(m.attributes().count() == users, "the next message is decoded as by a new decoder");
                    check_calls(&vals, &shape, users);
                }
                _ => vp::check(false, "the next message is decoded as by a new decoder"),
            }
        }
        Err(_) => vp::check(false, "a well-framed message yields a message or a broken message"),
    }
}

/// before_encode: n attributes, every failing position; then the encoder is used again.
/// params: class, n, retry (0: same encoder encodes another message after a failure)
#[no_mangle]
pub fn h_before() {
    let base = vp::live();
    before_body();
    vp::check(log().live == 0, "every attribute is dropped exactly once");
    vp::check(vp::live() == base, "no memory is leaked");
}
fn before_body() {
    let h = Hdr::sym(vp::param(0) as u16);
    let n = vp::param(1) as usize;
    let mut m: Message<Hook> = h.message();
    let mut vals = vec![];
    for _ in 0..n {
        let v = vp::u32();
        vals.push(v);
        m.add_attribute(Hook::new(v));
    }
    let shape = vec![true; n];
    reset(h);
    log().fail_at = some_failure(n);
    log().bump = vp::u32();
    let fails = log().fail_at < n;
    let copy = m.clone();
    let mut e = MessageEncoder::<Hook>::new();
    match e.encode_into_bytes(m) {
        Ok(b) => {
            vp::cover("encoded");
            vp::check(!fails, "a failing hook makes encoding fail");
            check_calls(&vals, &shape, n);
            let mut want = h.bytes(8 * n);
            for v in &vals {
                want.extend_from_slice(&tlv(TYPE, &be32(v ^ log().bump), &[]));
            }
            vp::check(eq(&b, &want), "what the hooks left is encoded");
        }
        Err(x) => {
            vp::cover("failed");
            vp::check(fails, "hooks that succeed do not make encoding fail");
            vp::check(*x.kind() == ErrorKind::Other, "the error of the hook is reported");
            check_calls(&vals, &shape, log().fail_at + 1);
            vp::check(e.is_idle(), "the encoder is idle after a refused message");
            vp::check(e.exact_requiring_bytes() == 0, "nothing is left to encode after a refused message");
        }
    }
    reset(h);
    match e.encode_into_bytes(copy) {
        Ok(b) => {
            let mut want = h.bytes(8 * n);
            for v in &vals {
                want.extend_from_slice(&tlv(TYPE, &be32(*v), &[]));
            }
            vp::check(eq(&b, &want), "the next message is encoded as by a new encoder");
            check_calls(&vals, &shape, n);
        }
        Err(_) => vp::check(false, "the next message is encoded as by a new encoder"),
    }
}

/// Starting a second message while one is being encoded: refused, and the first is unaffected,
/// at every position of the first.
/// params: class, n
#[no_mangle]
pub fn h_busy() {
    let base = vp::live();
    busy_body();
    vp::check(log().live == 0, "every attribute is dropped exactly once");
    vp::check(vp::live() == base, "no memory is leaked");
}
fn busy_body() {
    let h = Hdr::sym(vp::param(0) as u16);
    let h2 = Hdr::sym(vp::param(0) as u16);
    let n = vp::param(1) as usize;
    let mut m: Message<Hook> = h.message();
    let mut want = h.bytes(8 * n);
    for _ in 0..n {
        let v = vp::u32();
        m.add_attribute(Hook::new(v));
        want.extend_from_slice(&tlv(TYPE, &be32(v), &[]));
    }
    reset(h);
    let mut e = MessageEncoder::<Hook>::new();
    if e.start_encoding(m).is_err() {
        vp::check(false, "encoding starts");
        return;
    }
    let k = vp::choose(want.len() as u64) as usize;
    let mut b = vec![0; want.len()];
    match e.encode(&mut b[..k], Eos::new(false)) {
        Ok(c) => vp::check(c == k, "fills the buffer"),
        Err(_) => vp::check(false, "encoding in pieces works"),
    }
    vp::check(!e.is_idle(), "not idle before the end");
    reset(h2);
    let mut m2: Message<Hook> = h2.message();
    m2.add_attribute(Hook::new(7));
    match e.start_encoding(m2) {
        Ok(()) => vp::check(false, "a second message is refused while one is being encoded"),
        Err(x) => vp::check(*x.kind() == ErrorKind::EncoderFull, "the refusal is EncoderFull"),
    }
    vp::check(e.exact_requiring_bytes() == (want.len() - k) as u64, "the first message is unaffected");
    match e.encode(&mut b[k..], Eos::new(true)) {
        Ok(c) => vp::check(c == want.len() - k, "the first message is completed"),
        Err(_) => vp::check(false, "the first message is completed"),
    }
    vp::check(eq(&b, &want), "the first message is unaffected");
    vp::check(e.is_idle(), "idle at the end");
    vp::cover("end");
}

/// Abandoning coders half-way, cloning messages: nothing is dropped twice or leaked.
/// params: class, l
#[no_mangle]
pub fn h_drop() {
    let base = vp::live();
    drop_body();
    vp::check(log().live == 0, "every attribute is dropped exactly once");
    vp::check(vp::live() == base, "no memory is leaked");
}
stun_codec::define_attribute_enums!(Two, TwoDecoder, TwoEncoder, [Blob2, Hook2]);
type Blob2 = W<0>;
type Hook2 = W<1>;
/// comparable attribute with a token
#[derive(Debug, Clone)]
pub struct W<const N: u8>(Vec<u8>, Token);
impl<const N: u8> PartialEq for W<N> {
    fn eq(&self, o: &Self) -> bool {
        crate::spec::eq(&self.0, &o.0)
    }
}
impl<const N: u8> Eq for W<N> {}
impl<const N: u8> std::hash::Hash for W<N> {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
impl<const N: u8> W<N> {
    pub const CODEPOINT: u16 = 0x7ac0 + N as u16;
}
impl<const N: u8> Attribute for W<N> {
    type Decoder = WDecoder<N>;
    type Encoder = WEncoder<N>;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(Self::CODEPOINT)
    }
}
#[derive(Debug, Default)]
pub struct WDecoder<const N: u8>(RemainingBytesDecoder);
impl<const N: u8> Decode for WDecoder<N> {
    type Item = W<N>;
    fn decode(&mut self, b: &[u8], e: Eos) -> Result<usize> {
        self.0.decode(b, e)
    }
    fn finish_decoding(&mut self) -> Result<W<N>> {
        self.0.finish_decoding().map(|v| W(v, Token::new()))
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u8> TryTaggedDecode for WDecoder<N> {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, t: AttributeType) -> Result<bool> {
        Ok(t.as_u16() == W::<N>::CODEPOINT)
    }
}
#[derive(Debug, Default)]
pub struct WEncoder<const N: u8>(BytesEncoder);
impl<const N: u8> Encode for WEncoder<N> {
    type Item = W<N>;
    fn encode(&mut self, b: &mut [u8], e: Eos) -> Result<usize> {
        self.0.encode(b, e)
    }
    fn start_encoding(&mut self, h: W<N>) -> Result<()> {
        self.0.start_encoding(h.0)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u8> SizedEncode for WEncoder<N> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

fn drop_body() {
    let h = Hdr::sym(vp::param(0) as u16);
    let l = vp::param(1) as usize;
    let a = vp::vec(l);
    let b = vp::vec(l);
    let t1 = 0x7ac0 + vp::choose(3) as u16; // 0x7ac2 is unknown
    let t2 = 0x7ac0 + vp::choose(3) as u16;
    let mut body = tlv(t1, &a, &zpad(l));
    body.extend_from_slice(&tlv(t2, &b, &zpad(l)));
    let mut w = h.bytes(body.len());
    w.extend_from_slice(&body);
    let k = vp::choose(w.len() as u64 + 1) as usize;
    // abandon a decoder anywhere
    let mut d = MessageDecoder::<Two>::new();
    match d.decode(&w[..k], Eos::new(false)) {
        Ok(c) => vp::check(c == k, "every byte of the prefix is consumed"),
        Err(_) => vp::check(false, "a prefix is not an error"),
    }
    if k == w.len() {
        match d.finish_decoding() {
            Ok(Ok(m)) => {
                vp::cover("decoded");
                let c = m.clone();
                drop(m);
                let users = (t1 != 0x7ac2) as usize + (t2 != 0x7ac2) as usize;
                vp::check(log().live as usize == users, "one instance per attribute");
                let mut it = c.attributes();
                if t1 != 0x7ac2 {
                    match it.next() {
                        Some(Two::Blob2(x)) => vp::check(t1 == 0x7ac0 && eq(&x.0, &a), "right type and value"),
                        Some(Two::Hook2(x)) => vp::check(t1 == 0x7ac1 && eq(&x.0, &a), "right type and value"),
                        None => vp::check(false, "attribute is there"),
                    }
                }
                if t2 != 0x7ac2 {
                    match it.next() {
                        Some(Two::Blob2(x)) => vp::check(t2 == 0x7ac0 && eq(&x.0, &b), "right type and value"),
                        Some(Two::Hook2(x)) => vp::check(t2 == 0x7ac1 && eq(&x.0, &b), "right type and value"),
                        None => vp::check(false, "attribute is there"),
                    }
                }
                drop(it);
                let want0 = c.attributes().find(|x| x.get_type().as_u16() == 0x7ac0).is_some();
                vp::check(c.get_attribute::<Blob2>().is_some() == want0, "get_attribute finds the type");
                let mut e = MessageEncoder::<Two>::new();
                if e.start_encoding(c).is_err() {
                    vp::check(false, "encoding starts");
                }
                // abandon the encoder anywhere
                let j = vp::choose(w.len() as u64 + 1) as usize;
                let mut out = vec![0; j];
                match e.encode(&mut out, Eos::new(false)) {
                    Ok(c) => vp::check(c == j && eq(&out, &w[..j]), "the prefix is encoded"),
                    Err(_) => vp::check(false, "a prefix can be encoded"),
                }
            }
            _ => vp::check(false, "the message is valid"),
        }
    } else {
        vp::cover("abandoned");
    }
}

/// The encoder of an attribute set: refuses a second attribute while busy, goes on afterwards.
/// params: l
#[no_mangle]
pub fn h_set_enc() {
    let l = vp::param(0) as usize;
    let (a, b) = (vp::vec(l), vp::vec(l + 1));
    let mut e = TwoEncoder::new();
    vp::check(e.is_idle() && e.exact_requiring_bytes() == 0, "a new attribute encoder is idle");
    vp::check(e.start_encoding(Two::from(W::<0>(a.clone(), Token::new()))).is_ok(), "encoding starts");
    vp::check(e.exact_requiring_bytes() == l as u64, "announced size is exact");
    let r = e.start_encoding(Two::from(W::<1>(b.clone(), Token::new())));
    match r {
        Ok(()) => vp::check(l == 0, "a second attribute is refused while one is being encoded"),
        Err(x) => vp::check(*x.kind() == ErrorKind::EncoderFull, "the refusal is EncoderFull"),
    }
    let mut o = vec![0; l + 1];
    match e.encode(&mut o, Eos::new(true)) {
        Ok(c) => vp::check(l == 0 || c == l && eq(&o[..l], &a), "the first attribute is unaffected"),
        Err(_) => vp::check(false, "the first attribute is unaffected"),
    }
    vp::check(e.is_idle(), "idle at the end");
    match e.encode_into_bytes(Two::from(W::<1>(b.clone(), Token::new()))) {
        Ok(o) => vp::check(eq(&o, &b), "the next attribute is encoded"),
        Err(_) => vp::check(false, "the next attribute is encoded"),
    }
    let mut d = TwoDecoder::new();
    vp::check(d.is_idle(), "a new attribute decoder is idle");
    vp::check(d.decode(&a, Eos::new(true)).is_err(), "an attribute decoder that was not told the type refuses input");
    vp::check(d.finish_decoding().is_err(), "and yields nothing");
    let ty = vp::u16();
    match d.try_start_decoding(AttributeType::new(ty)) {
        Ok(k) => {
            vp::check(k == ((ty == 0x7ac0) | (ty == 0x7ac1)), "exactly the listed types are accepted");
            if k {
                vp::cover("started");
                match d.decode_from_bytes(&b) {
                    Ok(Two::Blob2(x)) => vp::check((ty == 0x7ac0) & eq(&x.0, &b), "right type and value"),
                    Ok(Two::Hook2(x)) => vp::check((ty == 0x7ac1) & eq(&x.0, &b), "right type and value"),
                    Err(_) => vp::check(false, "the attribute is decoded"),
                }
            } else {
                vp::check(d.finish_decoding().is_err(), "an unknown type yields nothing");
            }
        }
        Err(_) => vp::check(false, "asking for a type does not fail"),
    }
    // a decoder that still holds another attribute gives the same answers
    for held in [0x7ac0, 0x7ac1] {
        let mut d = TwoDecoder::new();
        vp::check(matches!(d.try_start_decoding(AttributeType::new(held)), Ok(true)), "a listed type is accepted");
        match d.try_start_decoding(AttributeType::new(ty)) {
            Ok(k) => {
                vp::check(k == ((ty == 0x7ac0) | (ty == 0x7ac1)), "exactly the listed types are accepted");
                if k {
                    vp::cover("restarted");
                    match d.decode_from_bytes(&b) {
                        Ok(Two::Blob2(x)) => vp::check((ty == 0x7ac0) & eq(&x.0, &b), "right type and value"),
                        Ok(Two::Hook2(x)) => vp::check((ty == 0x7ac1) & eq(&x.0, &b), "right type and value"),
                        Err(_) => vp::check(false, "the attribute is decoded"),
                    }
                }
            }
            Err(_) => vp::check(false, "asking for a type does not fail"),
        }
    }
}
