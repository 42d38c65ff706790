//! Stand-in for the git fork of x25519-dalek that the sandbox cannot fetch.
//! It implements real X25519 (RFC 7748) with the API surface ringrtc uses, nothing more.
//! Not constant time: verification harness only.
use rand_core::{CryptoRng, RngCore};

type Fe = [u64; 5];
const MASK: u64 = (1 << 51) - 1;

fn fe_from(b: &[u8; 32]) -> Fe {
    let ld = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    [
        ld(0) & MASK,
        (ld(6) >> 3) & MASK,
        (ld(12) >> 6) & MASK,
        (ld(19) >> 1) & MASK,
        (ld(24) >> 12) & MASK,
    ]
}
fn carry(mut h: Fe) -> Fe {
    for _ in 0..2 {
        let mut c = 0;
        for x in h.iter_mut() {
            *x += c;
            c = *x >> 51;
            *x &= MASK;
        }
        h[0] += c * 19;
    }
    h
}
fn fe_to(h: Fe) -> [u8; 32] {
    let mut h = carry(carry(h));
    let mut q = (h[0] + 19) >> 51;
    for i in 1..5 {
        q = (h[i] + q) >> 51;
    }
    h[0] += 19 * q;
    let mut c = 0;
    for x in h.iter_mut() {
        *x += c;
        c = *x >> 51;
        *x &= MASK;
    }
    let w = [
        h[0] | h[1] << 51,
        h[1] >> 13 | h[2] << 38,
        h[2] >> 26 | h[3] << 25,
        h[3] >> 39 | h[4] << 12,
    ];
    let mut out = [0; 32];
    for (i, x) in w.iter().enumerate() {
        out[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
    }
    out
}
fn add(a: &Fe, b: &Fe) -> Fe {
    let mut r = [0; 5];
    for i in 0..5 {
        r[i] = a[i] + b[i];
    }
    carry(r)
}
fn sub(a: &Fe, b: &Fe) -> Fe {
    const P2: Fe = [
        0xFFFFFFFFFFFDA * 2,
        0xFFFFFFFFFFFFE * 2,
        0xFFFFFFFFFFFFE * 2,
        0xFFFFFFFFFFFFE * 2,
        0xFFFFFFFFFFFFE * 2,
    ];
    let mut r = [0; 5];
    for i in 0..5 {
        r[i] = a[i] + P2[i] - b[i];
    }
    carry(r)
}
fn mul(a: &Fe, b: &Fe) -> Fe {
    let m = |x: u64, y: u64| x as u128 * y as u128;
    let mut t = [0u128; 5];
    for i in 0..5 {
        for j in 0..5 {
            let k = i + j;
            if k < 5 {
                t[k] += m(a[i], b[j]);
            } else {
                t[k - 5] += m(a[i], b[j]) * 19;
            }
        }
    }
    let mut r = [0u64; 5];
    let mut c = 0u128;
    for i in 0..5 {
        let v = t[i] + c;
        r[i] = (v as u64) & MASK;
        c = v >> 51;
    }
    // c < 2^(128-51); fold back
    let v = r[0] as u128 + c * 19;
    r[0] = (v as u64) & MASK;
    r[1] += (v >> 51) as u64;
    carry(r)
}
fn invert(a: &Fe) -> Fe {
    // a^(p-2), p-2 = 2^255 - 21
    let mut r: Fe = [1, 0, 0, 0, 0];
    let e: [u8; 32] = {
        let mut e = [0xff; 32];
        e[0] = 0xeb;
        e[31] = 0x7f;
        e
    };
    for i in (0..255).rev() {
        r = mul(&r, &r);
        if e[i / 8] >> (i % 8) & 1 == 1 {
            r = mul(&r, a);
        }
    }
    r
}
pub fn x25519(k: [u8; 32], u: [u8; 32]) -> [u8; 32] {
    let mut k = k;
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    let mut u = u;
    u[31] &= 127;
    let x1 = fe_from(&u);
    let (mut x2, mut z2, mut x3, mut z3): (Fe, Fe, Fe, Fe) =
        ([1, 0, 0, 0, 0], [0; 5], x1, [1, 0, 0, 0, 0]);
    let mut swap = 0;
    for t in (0..255).rev() {
        let kt = k[t / 8] >> (t % 8) & 1;
        swap ^= kt;
        if swap == 1 {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = add(&x2, &z2);
        let aa = mul(&a, &a);
        let b = sub(&x2, &z2);
        let bb = mul(&b, &b);
        let e = sub(&aa, &bb);
        let c = add(&x3, &z3);
        let d = sub(&x3, &z3);
        let da = mul(&d, &a);
        let cb = mul(&c, &b);
        let s = add(&da, &cb);
        x3 = mul(&s, &s);
        let df = sub(&da, &cb);
        z3 = mul(&x1, &mul(&df, &df));
        x2 = mul(&aa, &bb);
        z2 = mul(&e, &add(&aa, &mul(&[121665, 0, 0, 0, 0], &e)));
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    fe_to(mul(&x2, &invert(&z2)))
}
const BASE: [u8; 32] = {
    let mut b = [0; 32];
    b[0] = 9;
    b
};

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct PublicKey([u8; 32]);
impl PublicKey {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
pub struct SharedSecret([u8; 32]);
impl SharedSecret {
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn was_contributory(&self) -> bool {
        self.0 != [0; 32]
    }
}
pub struct EphemeralSecret([u8; 32]);
impl EphemeralSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(rng: T) -> Self {
        Self(random(rng))
    }
    pub fn diffie_hellman(self, their: &PublicKey) -> SharedSecret {
        SharedSecret(x25519(self.0, their.0))
    }
}
impl From<&EphemeralSecret> for PublicKey {
    fn from(s: &EphemeralSecret) -> Self {
        PublicKey(x25519(s.0, BASE))
    }
}
#[derive(Clone)]
pub struct StaticSecret([u8; 32]);
impl StaticSecret {
    pub fn random_from_rng<T: RngCore + CryptoRng>(rng: T) -> Self {
        Self(random(rng))
    }
    pub fn diffie_hellman(&self, their: &PublicKey) -> SharedSecret {
        SharedSecret(x25519(self.0, their.0))
    }
}
impl From<&StaticSecret> for PublicKey {
    fn from(s: &StaticSecret) -> Self {
        PublicKey(x25519(s.0, BASE))
    }
}
fn random<T: RngCore + CryptoRng>(mut rng: T) -> [u8; 32] {
    let mut b = [0; 32];
    rng.fill_bytes(&mut b);
    b
}
impl From<[u8; 32]> for StaticSecret {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl StaticSecret {
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn h(s: &str) -> [u8; 32] {
        let v: Vec<u8> = (0..32)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        v.try_into().unwrap()
    }
    #[test]
    fn rfc7748() {
        assert_eq!(
            x25519(
                h("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
                h("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")
            ),
            h("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
        );
        let mut k = h("0900000000000000000000000000000000000000000000000000000000000000");
        let mut u = k;
        for _ in 0..1000 {
            let r = x25519(k, u);
            u = k;
            k = r;
        }
        assert_eq!(
            k,
            h("684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51")
        );
        assert!(!StaticSecret([7; 32]).diffie_hellman(&PublicKey([0; 32])).was_contributory());
    }
}
