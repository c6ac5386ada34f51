//! An independent AES-128-CBC / PKCS#7, written from FIPS 197, used as the oracle for what the
//! library encrypts and decrypts. Shares no code with the library under test.

pub const KEY: &[u8; 16] = b"sketchwaresecure";

struct Tables {
    sbox: [u8; 256],
    inv: [u8; 256],
    rk: [[u8; 16]; 11],
}

fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}

const fn xt_c(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
const fn mul_c(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt_c(a);
        b >>= 1;
    }
    r
}

/// multiples of every byte
const fn multiples(by: u8) -> [u8; 256] {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = mul_c(i as u8, by);
        i += 1;
    }
    t
}
static M9: [u8; 256] = multiples(9);
static M11: [u8; 256] = multiples(11);
static M13: [u8; 256] = multiples(13);
static M14: [u8; 256] = multiples(14);

const fn build() -> Tables {
    let mut sbox = [0u8; 256];
    let mut inv = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        // multiplicative inverse by search
        let mut x = 0u8;
        if i != 0 {
            let mut j = 1;
            while j < 256 {
                if mul_c(i as u8, j as u8) == 1 {
                    x = j as u8;
                }
                j += 1;
            }
        }
        let s = x ^ x.rotate_left(1) ^ x.rotate_left(2) ^ x.rotate_left(3) ^ x.rotate_left(4) ^ 0x63;
        sbox[i] = s;
        inv[s as usize] = i as u8;
        i += 1;
    }
    let mut rk = [[0u8; 16]; 11];
    rk[0] = *KEY;
    let mut rcon = 1u8;
    let mut r = 1;
    while r < 11 {
        let p = rk[r - 1];
        let mut t = [sbox[p[13] as usize] ^ rcon, sbox[p[14] as usize], sbox[p[15] as usize], sbox[p[12] as usize]];
        let mut w = 0;
        while w < 4 {
            let mut k = 0;
            while k < 4 {
                t[k] ^= p[w * 4 + k];
                rk[r][w * 4 + k] = t[k];
                k += 1;
            }
            w += 1;
        }
        rcon = xt_c(rcon);
        r += 1;
    }
    Tables { sbox, inv, rk }
}

static T: Tables = {
    #[allow(long_running_const_eval)]
    build()
};

fn add(s: &mut [u8; 16], k: &[u8; 16]) {
    for i in 0..16 {
        s[i] ^= k[i];
    }
}

fn enc_block(s: &mut [u8; 16]) {
    add(s, &T.rk[0]);
    for r in 1..11 {
        let mut t = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                t[c * 4 + row] = T.sbox[s[((c + row) % 4) * 4 + row] as usize];
            }
        }
        if r < 10 {
            for c in 0..4 {
                let a = [t[c * 4], t[c * 4 + 1], t[c * 4 + 2], t[c * 4 + 3]];
                for i in 0..4 {
                    t[c * 4 + i] = xt(a[i]) ^ (xt(a[(i + 1) % 4]) ^ a[(i + 1) % 4]) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                }
            }
        }
        *s = t;
        add(s, &T.rk[r]);
    }
}

fn dec_block(s: &mut [u8; 16]) {
    for r in (1..11).rev() {
        add(s, &T.rk[r]);
        if r < 10 {
            for c in 0..4 {
                let a = [s[c * 4], s[c * 4 + 1], s[c * 4 + 2], s[c * 4 + 3]];
                for i in 0..4 {
                    s[c * 4 + i] = M14[a[i] as usize] ^ M11[a[(i + 1) % 4] as usize] ^ M13[a[(i + 2) % 4] as usize] ^ M9[a[(i + 3) % 4] as usize];
                }
            }
        }
        let mut t = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                t[((c + row) % 4) * 4 + row] = T.inv[s[c * 4 + row] as usize];
            }
        }
        *s = t;
    }
    add(s, &T.rk[0]);
}

pub fn encrypt(plain: &[u8]) -> Vec<u8> {
    let pad = 16 - plain.len() % 16;
    let mut out = plain.to_vec();
    out.resize(plain.len() + pad, pad as u8);
    let mut prev = *KEY;
    for b in out.chunks_exact_mut(16) {
        let b: &mut [u8; 16] = b.try_into().unwrap();
        add(b, &prev);
        enc_block(b);
        prev = *b;
    }
    out
}

pub fn decrypt(cipher: &[u8]) -> Option<Vec<u8>> {
    if cipher.is_empty() || cipher.len() % 16 != 0 {
        return None;
    }
    let mut out = cipher.to_vec();
    let mut prev = *KEY;
    for b in out.chunks_exact_mut(16) {
        let b: &mut [u8; 16] = b.try_into().unwrap();
        let c = *b;
        dec_block(b);
        add(b, &prev);
        prev = c;
    }
    let pad = *out.last().unwrap() as usize;
    if pad == 0 || pad > 16 || out[out.len() - pad..].iter().any(|b| *b as usize != pad) {
        return None;
    }
    out.truncate(out.len() - pad);
    Some(out)
}
