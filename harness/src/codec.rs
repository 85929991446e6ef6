//! Totality, framing, incremental operation and reuse of the coders.
use crate::msg::*;
use crate::spec::*;
use crate::vp;
use bytecodec::{Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode};
use stun_codec::*;

/// Any byte string of the given length, any attribute set: never a panic, and rejected outright
/// exactly if the header is invalid or the length does not match.
/// params: length, attribute set
#[no_mangle]
pub fn h_total() {
    let n = vp::param(0) as usize;
    let b = vp::vec(n);
    match vp::param(1) {
        0 => total::<rfc5389::Attribute>(&b),
        1 => total::<All>(&b),
        2 => total::<RawAttribute0>(&b),
        3 => total::<rfc5766::Attribute>(&b),
        4 => total::<rfc5245::Attribute>(&b),
        5 => total::<rfc5780::Attribute>(&b),
        _ => total::<rfc5389::attributes::MappedAddress>(&b),
    }
}
use stun_codec::RawAttribute as RawAttribute0;

fn header_valid(b: &[u8]) -> bool {
    (b[0] & 0xC0 == 0) & eq(&b[4..8], &COOKIE)
}
fn total<A: Attribute>(b: &[u8]) {
    let n = b.len();
    let mut d = MessageDecoder::<A>::new();
    let r = d.decode(b, Eos::new(true));
    let l = if n >= 20 { (b[2] as usize) << 8 | b[3] as usize } else { 0 };
    match r {
        Err(_) => {
            vp::cover("rejected");
            if n >= 20 {
                vp::check(!header_valid(b) | (l > n - 20), "a valid header with enough bytes is not rejected outright");
            }
        }
        Ok(c) => {
            vp::check(n >= 20, "fewer than 20 bytes are rejected");
            if n < 20 {
                return;
            }
            vp::check(header_valid(b), "an invalid header is rejected");
            let truncated = l > n - 20;
            if !truncated {
                vp::check(c == 20 + l, "exactly the header and the announced length are consumed");
                vp::check(d.is_idle(), "the decoder is idle after a complete message");
            } else {
                vp::check(!d.is_idle(), "a truncated message is never complete");
            }
            match d.finish_decoding() {
                Err(_) => vp::check(false, "a well-framed message yields a message or a broken message"),
                Ok(Ok(m)) => {
                    vp::cover("decoded");
                    vp::check(!truncated, "a truncated message is never decoded");
                    let f = (b[0] as u16) << 8 | b[1] as u16;
                    vp::check(type_field(class_no(m.class()), m.method().as_u16()) == f, "class and method are the received ones");
                    vp::check(eq(&m.transaction_id().as_bytes()[..], &b[8..20]), "transaction id is the received one");
                    vp::check(l % 4 == 0, "a body that is not whole attributes is never accepted");
                }
                Ok(Err(m)) => {
                    vp::cover("broken");
                    let f = (b[0] as u16) << 8 | b[1] as u16;
                    vp::check(type_field(class_no(m.class()), m.method().as_u16()) == f, "broken message reports class and method");
                    vp::check(eq(&m.transaction_id().as_bytes()[..], &b[8..20]), "broken message reports the transaction id");
                    vp::check(l > 0, "an empty body is never broken");
                    let e: bytecodec::Error = m.into();
                    vp::check(*e.kind() == ErrorKind::InvalidInput, "a broken message converts to InvalidInput");
                }
            }
        }
    }
}

/// What a decoder makes of a message: 0 error, 1 broken, 2 decoded (and its re-encoding).
pub struct Outcome {
    pub kind: u8,
    pub bytes: Vec<u8>,
    pub head: (u16, u16, [u8; 12]),
    pub known: usize,
}
fn outcome(r: DecodedMessage<All>) -> Outcome {
    match r {
        Ok(m) => {
            let head = (class_no(m.class()), m.method().as_u16(), *m.transaction_id().as_bytes());
            let known = m.attributes().count();
            match MessageEncoder::new().encode_into_bytes(m) {
                Ok(bytes) => Outcome { kind: 2, bytes, head, known },
                Err(_) => {
                    vp::check(false, "a decoded message can be encoded");
                    Outcome { kind: 2, bytes: vec![], head, known }
                }
            }
        }
        Err(b) => Outcome { kind: 1, bytes: vec![], head: (class_no(b.class()), b.method().as_u16(), *b.transaction_id().as_bytes()), known: 0 },
    }
}
fn decode_all(d: &mut MessageDecoder<All>, b: &[u8]) -> Outcome {
    match d.decode_from_bytes(b) {
        Ok(r) => outcome(r),
        Err(_) => Outcome { kind: 0, bytes: vec![], head: (0, 0, [0; 12]), known: 0 },
    }
}
fn same(a: &Outcome, b: &Outcome) -> bool {
    a.kind == b.kind && (a.head.0 == b.head.0) & (a.head.1 == b.head.1) & eq(&a.head.2, &b.head.2) & eq(&a.bytes, &b.bytes) & (a.known == b.known)
}

/// Decoding in pieces gives what decoding in one piece gives.
/// params: class, flags, chunking mode (0 = every single split point, 1 = byte by byte,
///   2 = every pair of split points, 3 = requiring_bytes-driven, 4 = single split, end-of-stream never signalled,
///   5 = byte by byte with empty pieces in between), list
#[no_mangle]
pub fn h_chunk_dec() {
    let h = Hdr::sym(vp::param(0) as u16);
    let flags = vp::param(1);
    let mode = vp::param(2);
    let (_, bytes, _) = build(&h, 3, flags);
    let n = bytes.len();
    let whole = decode_all(&mut MessageDecoder::<All>::new(), &bytes);
    vp::check(whole.kind != 0, "a well-framed message yields a message or a broken message");
    let mut cuts: Vec<usize> = vec![];
    match mode {
        0 | 4 => cuts.push(vp::choose(n as u64 + 1) as usize),
        2 => {
            let a = vp::choose(n as u64 + 1) as usize;
            let b = a + vp::choose((n - a) as u64 + 1) as usize;
            cuts.push(a);
            cuts.push(b);
        }
        1 => cuts.extend(1..n),
        5 => cuts.extend((1..2 * n).map(|x| x / 2)),
        _ => {}
    }
    cuts.push(n);
    let mut d = MessageDecoder::<All>::new();
    let mut at = 0;
    if mode == 3 {
        // hand over exactly what the decoder says it still needs
        let mut rounds = 0;
        loop {
            let need = match d.requiring_bytes() {
                bytecodec::ByteCount::Finite(x) => x as usize,
                bytecodec::ByteCount::Unknown => 1,
                bytecodec::ByteCount::Infinite => {
                    vp::check(false, "requiring_bytes is never infinite");
                    return;
                }
            };
            if need == 0 {
                break;
            }
            vp::check(need <= n - at, "requiring_bytes never asks beyond the message");
            if need > n - at || rounds > 4 * n {
                return;
            }
            rounds += 1;
            match d.decode(&bytes[at..at + need], Eos::new(at + need == n)) {
                Ok(c) => {
                    vp::check(c <= need, "never consumes more than given");
                    at += c;
                }
                Err(_) => {
                    vp::check(false, "decoding in pieces fails where decoding in one piece does not");
                    return;
                }
            }
        }
        vp::check(at == n, "the announced need is exactly the message");
    } else {
        for c in cuts {
            let last = c == n;
            let eos = Eos::new(last && mode != 4);
            match d.decode(&bytes[at..c], eos) {
                Ok(k) => {
                    vp::check(k == c - at, "every byte offered before the end of the message is consumed");
                    at += k;
                }
                Err(_) => {
                    vp::check(false, "decoding in pieces fails where decoding in one piece does not");
                    return;
                }
            }
            if at < n {
                vp::check(!d.is_idle(), "a partial message is never complete");
            }
        }
    }
    vp::check(at == n, "the whole message is consumed");
    vp::check(d.is_idle(), "idle at the end of the message");
    match d.finish_decoding() {
        Ok(r) => {
            vp::cover("finished");
            let o = outcome(r);
            vp::check(same(&o, &whole), "decoding in pieces gives the same message");
            vp::out_bytes(&o.bytes);
        }
        Err(_) => vp::check(false, "decoding in pieces fails where decoding in one piece does not"),
    }
}

/// Truncation: any proper prefix is never a message; extra bytes are left alone.
/// params: class, flags, list
#[no_mangle]
pub fn h_trunc() {
    let h = Hdr::sym(vp::param(0) as u16);
    let flags = vp::param(1);
    let (_, mut bytes, _) = build(&h, 2, flags);
    let n = bytes.len();
    let k = vp::choose(n as u64) as usize;
    let o = decode_all(&mut MessageDecoder::<All>::new(), &bytes[..k]);
    vp::check(o.kind != 2, "a proper prefix of a message is never a message");
    if k < 20 {
        vp::check(o.kind == 0, "a partial header is rejected");
    }
    if o.kind == 1 {
        vp::check((o.head.0 == h.class) & (o.head.1 == h.method) & eq(&o.head.2, &h.tid), "a truncated message reports the received header");
    }
    vp::cover("truncated");
    // without end-of-stream it is simply incomplete
    let mut d = MessageDecoder::<All>::new();
    match d.decode(&bytes[..k], Eos::new(false)) {
        Ok(c) => {
            vp::check(c == k, "every byte of the prefix is consumed");
            vp::check(!d.is_idle(), "a proper prefix is never complete");
        }
        Err(_) => vp::check(false, "a prefix is not an error before the end of the stream"),
    }
    // extra bytes after the message
    let extra = vp::bytes::<6>();
    bytes.extend_from_slice(&extra);
    let mut d = MessageDecoder::<All>::new();
    match d.decode(&bytes, Eos::new(vp::bool())) {
        Ok(c) => {
            vp::check(c == n, "bytes after the message are not consumed");
            vp::check(d.is_idle(), "idle at the end of the message");
        }
        Err(_) => vp::check(false, "bytes after the message do not make it fail"),
    }
}

/// Encoding into buffers of any sizes gives the bytes of one-shot encoding, and the announced
/// size is exact at every step.
/// params: class, chunking mode (0 = first buffer of every size, 1 = byte by byte, 2 = every pair, 3 = with empty buffers), count, (type, length, mode)*
#[no_mangle]
pub fn h_chunk_enc() {
    let h = Hdr::sym(vp::param(0) as u16);
    let mode = vp::param(1);
    let cnt = vp::param(2) as u32;
    let mut m: Message<All> = h.message();
    for i in 0..cnt {
        let a = make(vp::param(3 + 3 * i) as usize, vp::param(4 + 3 * i) as usize, vp::param(5 + 3 * i));
        m.add_attribute(a);
    }
    let whole = MessageEncoder::new().encode_into_bytes(m.clone()).unwrap();
    let n = whole.len();
    let mut sizes: Vec<usize> = vec![];
    match mode {
        0 => sizes.push(vp::choose(n as u64 + 1) as usize),
        2 => {
            let a = vp::choose(n as u64 + 1) as usize;
            let b = vp::choose((n - a) as u64 + 1) as usize;
            sizes.push(a);
            sizes.push(b);
        }
        1 => sizes.extend((0..n).map(|_| 1)),
        _ => sizes.extend((0..2 * n).map(|x| x % 2)),
    }
    sizes.push(n + 3);
    let mut e = MessageEncoder::<All>::new();
    vp::check(e.is_idle(), "a new encoder is idle");
    vp::check(e.start_encoding(m).is_ok(), "encoding starts");
    let mut got = vec![];
    for s in sizes {
        vp::check(e.exact_requiring_bytes() == (n - got.len()) as u64, "exact_requiring_bytes is what is still to come");
        vp::check(e.requiring_bytes() == bytecodec::ByteCount::Finite((n - got.len()) as u64), "requiring_bytes is what is still to come");
        vp::check(e.is_idle() == (got.len() == n), "idle exactly when everything was produced");
        let mut buf = vec![0xAA; s];
        let want = if s < n - got.len() { s } else { n - got.len() };
        // end-of-stream may be signalled once the remaining bytes fit
        let eos = Eos::new(s >= n - got.len());
        match e.encode(&mut buf, eos) {
            Ok(k) => {
                vp::check(k == want, "fills the buffer or finishes");
                vp::check(buf[k..].iter().all(|x| *x == 0xAA), "nothing is written past the reported size");
                got.extend_from_slice(&buf[..k]);
            }
            Err(_) => {
                vp::check(false, "encoding in pieces fails where one-shot encoding does not");
                return;
            }
        }
    }
    vp::cover("encoded");
    vp::check(e.is_idle(), "idle at the end");
    vp::check(eq(&got, &whole), "encoding in pieces gives the same bytes");
    vp::out_bytes(&got);
}

/// Decoder reuse: whatever the first input was, the second message is decoded as by a new decoder.
/// params: class, flags, first kind, list of the first, then (class, flags, list) of the second
/// first kind: 0 the message as it is; 1 top bits set; 2 wrong cookie; 3 truncated at every point;
///   4 first message abandoned inside (end of stream in the middle, in two pieces);
///   5 two inputs: invalid type then truncated;
#[no_mangle]
pub fn h_reuse_dec() {
    let h1 = Hdr::sym(vp::param(0) as u16);
    let f1 = vp::param(1);
    let kind = vp::param(2);
    let (_, mut b1, _) = build(&h1, 3, f1);
    let next = 4 + 3 * vp::param(3) as u32;
    let h2 = Hdr::sym(vp::param(next) as u16);
    let f2 = vp::param(next + 1);
    let (_, b2, _) = build(&h2, next + 2, f2);
    let mut d = MessageDecoder::<All>::new();
    match kind {
        1 => {
            let t = vp::u8();
            vp::assume(t & 0xC0 != 0);
            b1[0] = t;
        }
        2 => {
            let c = vp::bytes::<4>();
            vp::assume(!eq(&c, &COOKIE));
            b1[4..8].copy_from_slice(&c);
        }
        3 => {
            let n = b1.len() as u64;
            let k = vp::choose(n) as usize;
            b1.truncate(k);
        }
        _ => {}
    }
    if kind == 4 {
        let n = b1.len() as u64;
        let k = vp::choose(n) as usize;
        let r = d.decode(&b1[..k], Eos::new(false));
        vp::check(r.is_ok(), "a prefix is not an error");
        let r = d.decode(&b1[k..k], Eos::new(true));
        vp::check(r.is_err(), "end of stream inside a message is an error");
    } else if kind == 5 {
        let t = vp::u8();
        vp::assume(t & 0xC0 != 0);
        let keep = b1[0];
        b1[0] = t;
        vp::check(decode_all(&mut d, &b1).kind == 0, "invalid type is rejected");
        b1[0] = keep;
        let n = b1.len() as u64;
        let k = vp::choose(n) as usize;
        vp::check(decode_all(&mut d, &b1[..k]).kind != 2, "a prefix is not a message");
    } else {
        let o = decode_all(&mut d, &b1);
        match o.kind {
            0 => vp::cover("first rejected"),
            1 => vp::cover("first broken"),
            _ => vp::cover("first decoded"),
        }
    }
    let want = decode_all(&mut MessageDecoder::<All>::new(), &b2);
    let got = decode_all(&mut d, &b2);
    vp::check(same(&got, &want), "a reused decoder decodes the next message like a new one");
    vp::out(got.kind as u64);
    vp::out_bytes(&got.bytes);
    let got = decode_all(&mut d, &b2);
    vp::check(same(&got, &want), "and the one after that");
    vp::cover("end");
}

/// A stream of messages through one decoder, cut anywhere: each as decoded by a decoder of its own.
/// params: mode (0 one cut anywhere, 1 byte by byte, n > 1 pieces of n bytes), count, then (class, flags, list)*
#[no_mangle]
pub fn h_stream() {
    let mode = vp::param(0) as usize;
    let count = vp::param(1) as usize;
    let mut at = 2;
    let mut stream = vec![];
    let mut wants = vec![];
    let mut ends = vec![];
    for _ in 0..count {
        let h = Hdr::sym(vp::param(at) as u16);
        let flags = vp::param(at + 1);
        let (_, b, _) = build(&h, at + 2, flags);
        at += 3 + 3 * vp::param(at + 2) as u32;
        wants.push(decode_all(&mut MessageDecoder::<All>::new(), &b));
        stream.extend_from_slice(&b);
        ends.push(stream.len());
    }
    let n = stream.len();
    let cut = if mode == 0 { vp::choose(n as u64 + 1) as usize } else { 0 };
    let mut d = MessageDecoder::<All>::new();
    let mut pos = 0;
    let mut i = 0;
    while i < count {
        let end = if mode == 0 {
            if pos < cut { cut } else { n }
        } else if pos + mode < n {
            pos + mode
        } else {
            n
        };
        match d.decode(&stream[pos..end], Eos::new(end == n)) {
            Ok(k) => {
                vp::check(k <= end - pos, "never consumes more than given");
                let stop = if end < ends[i] { end } else { ends[i] };
                vp::check(pos + k == stop, "exactly the message is consumed");
                if pos + k != stop {
                    return;
                }
                pos = stop;
            }
            Err(_) => {
                vp::check(false, "a message in a stream is decoded");
                return;
            }
        }
        vp::check(d.is_idle() == (pos == ends[i]), "complete exactly at the end of the message");
        if pos == ends[i] {
            match d.finish_decoding() {
                Ok(r) => {
                    let o = outcome(r);
                    vp::check(same(&o, &wants[i]), "each message of a stream is decoded as by a new decoder");
                    vp::out_bytes(&o.bytes);
                }
                Err(_) => {
                    vp::check(false, "a message in a stream is decoded");
                    return;
                }
            }
            i += 1;
        }
    }
    vp::cover("end");
}

/// One encoder, several messages in a row, with refused ones in between.
/// params: mode (0 one-shot, n pieces of n bytes), count, then (kind, class, count, (type, length, mode)*)*
///   kind: 0 = encode; 1 = a message that is too long is refused first; 2 = a second message is refused
///   while this one is half encoded (at every position)
#[no_mangle]
pub fn h_stream_enc() {
    let mode = vp::param(0) as usize;
    let count = vp::param(1) as usize;
    let mut at = 2;
    let mut e = MessageEncoder::<All>::new();
    for _ in 0..count {
        let kind = vp::param(at);
        let h = Hdr::sym(vp::param(at + 1) as u16);
        let cnt = vp::param(at + 2) as u32;
        let mut m: Message<All> = h.message();
        for i in 0..cnt {
            m.add_attribute(make(vp::param(at + 3 + 3 * i) as usize, vp::param(at + 4 + 3 * i) as usize, vp::param(at + 5 + 3 * i)));
        }
        at += 3 + 3 * cnt;
        let want = MessageEncoder::new().encode_into_bytes(m.clone()).unwrap();
        let n = want.len();
        if kind == 1 {
            let mut long: Message<All> = h.message();
            long.add_attribute(make(9, 5, 1));
            long.add_attribute(make(15, 65535, 9));
            match e.encode_into_bytes(long) {
                Ok(_) => vp::check(false, "what does not fit a 16-bit length is refused"),
                Err(x) => vp::check(*x.kind() == ErrorKind::InvalidInput, "the refusal is InvalidInput"),
            }
            vp::check(e.is_idle() && e.exact_requiring_bytes() == 0, "the encoder is idle after a refused message");
        }
        if e.start_encoding(m).is_err() {
            vp::check(false, "the next message is encoded as by a new encoder");
            return;
        }
        let busy = if kind == 2 { vp::choose(n as u64) as usize } else { n };
        let mut got = vec![];
        let mut refused = kind != 2;
        while got.len() < n {
            if !refused && got.len() == busy {
                refused = true;
                let mut other: Message<All> = h.message();
                other.add_attribute(make(21, 4, 0));
                match e.start_encoding(other) {
                    Ok(()) => vp::check(false, "a second message is refused while one is being encoded"),
                    Err(x) => vp::check(*x.kind() == ErrorKind::EncoderFull, "the refusal is EncoderFull"),
                }
            }
            vp::check(e.exact_requiring_bytes() == (n - got.len()) as u64, "exact_requiring_bytes is what is still to come");
            let mut k = if mode == 0 { n - got.len() } else { mode };
            if k > n - got.len() {
                k = n - got.len();
            }
            if got.len() < busy && k > busy - got.len() {
                k = busy - got.len();
            }
            let mut b = vec![0; k];
            match e.encode(&mut b, Eos::new(got.len() + k == n)) {
                Ok(c) => {
                    vp::check(c == k, "fills the buffer");
                    if c != k {
                        return;
                    }
                    got.extend_from_slice(&b);
                }
                Err(_) => {
                    vp::check(false, "the next message is encoded as by a new encoder");
                    return;
                }
            }
        }
        vp::check(e.is_idle(), "idle at the end");
        vp::check(eq(&got, &want), "a reused encoder gives the bytes of a new one");
        vp::out_bytes(&got);
    }
    vp::cover("end");
}
