//! Reference SHA-1 / MD5 block functions, used to evaluate the corresponding
//! uninterpreted functions under a model and to run them on concrete blocks.

/// kind 0: SHA-1 compress (state 5 words, block 16 big-endian words)
/// kind 1: MD5 transform (state 4 words, block 16 little-endian words)
pub fn apply(kind: u8, a: &[u32]) -> [u32; 5] {
    if kind == 0 {
        sha1([a[0], a[1], a[2], a[3], a[4]], &a[5..21])
    } else {
        let r = md5([a[0], a[1], a[2], a[3]], &a[4..20]);
        [r[0], r[1], r[2], r[3], 0]
    }
}

pub fn sha1(h: [u32; 5], blk: &[u32]) -> [u32; 5] {
    let mut w = [0u32; 80];
    w[..16].copy_from_slice(blk);
    for i in 16..80 {
        w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
    }
    let [mut a, mut b, mut c, mut d, mut e] = h;
    for i in 0..80 {
        let (f, k) = match i / 20 {
            0 => ((b & c) | (!b & d), 0x5A827999u32),
            1 => (b ^ c ^ d, 0x6ED9EBA1),
            2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
            _ => (b ^ c ^ d, 0xCA62C1D6),
        };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
        e = d;
        d = c;
        c = b.rotate_left(30);
        b = a;
        a = t;
    }
    [h[0].wrapping_add(a), h[1].wrapping_add(b), h[2].wrapping_add(c), h[3].wrapping_add(d), h[4].wrapping_add(e)]
}

pub fn md5(h: [u32; 4], m: &[u32]) -> [u32; 4] {
    const S: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let [mut a, mut b, mut c, mut d] = h;
    for i in 0..64 {
        let (f, g) = match i / 16 {
            0 => ((b & c) | (!b & d), i),
            1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
            2 => (b ^ c ^ d, (3 * i + 5) % 16),
            _ => (c ^ (b | !d), (7 * i) % 16),
        };
        let t = d;
        d = c;
        c = b;
        b = b.wrapping_add(a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(m[g]).rotate_left(S[(i / 16) * 4 + i % 4]));
        a = t;
    }
    [h[0].wrapping_add(a), h[1].wrapping_add(b), h[2].wrapping_add(c), h[3].wrapping_add(d)]
}

#[cfg(test)]
mod tests {
    #[test]
    fn known() {
        // "abc"
        let mut b = [0u32; 16];
        b[0] = 0x61626380;
        b[15] = 24;
        let r = super::sha1([0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0], &b);
        assert_eq!(r, [0xa9993e36, 0x4706816a, 0xba3e2571, 0x7850c26c, 0x9cd0d89d]);
        let mut b = [0u32; 16];
        b[0] = 0x80636261;
        b[14] = 24;
        let r = super::md5([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476], &b);
        assert_eq!(r[0].to_le_bytes(), [0x90, 0x01, 0x50, 0x98]);
    }
}
