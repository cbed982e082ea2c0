//! Independent reference definitions (nothing here calls the crate under test).
use primitive_types::U256;
use sha2::{Digest, Sha256};

pub type H = [u8; 32];
pub const NADDR: usize = 6;
static ACCOUNTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(NADDR);
/// how many accounts this run of S1 looks at: more than usual in a few runs
pub fn naddr() -> u8 {
    ACCOUNTS.load(std::sync::atomic::Ordering::Relaxed) as u8
}
pub fn set_naddr(n: u8) {
    ACCOUNTS.store(n as usize, std::sync::atomic::Ordering::Relaxed)
}
pub const ROOT: u8 = 0;

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn lz(x: &[u8]) -> u32 {
    let mut n = 0;
    for b in x {
        n += b.leading_zeros();
        if *b != 0 {
            break;
        }
    }
    n
}
pub fn addr(i: u8) -> [u8; 33] {
    if i == ROOT {
        return blockchaintree::static_values::ROOT_PUBLIC_ADDRESS;
    }
    let mut a = [0u8; 33];
    for (k, b) in a.iter_mut().enumerate() {
        *b = match i {
            1 => 2,                                // valid UTF-8
            2 | 3 | 5 => 0xC3,                     // not UTF-8
            4 => b'|',                             // the separator of the summary entries
            _ => i.wrapping_mul(37).wrapping_add(k as u8),
        };
    }
    // neighbours: keys that differ in their first, their last or a middle byte only
    match i {
        6 => {
            a = addr(2);
            a[16] ^= 0x20;
        }
        2 => a[0] = 2,
        3 => a[0] = 3,
        5 => {
            a[0] = 2;
            a[32] = 0xFF;
        }
        _ => {}
    }
    a
}
/// the Merkle root the chain uses: leaves padded to a power of two strictly above their number,
/// parent = sha256(left & right)
pub fn merkle(items: &[H]) -> H {
    let mut n = 1;
    while n <= items.len() {
        n *= 2;
    }
    let mut lvl: Vec<H> = items.to_vec();
    lvl.resize(n, [0xFF; 32]);
    while lvl.len() > 1 {
        lvl = lvl
            .chunks(2)
            .map(|p| {
                let mut x = [0u8; 32];
                for i in 0..32 {
                    x[i] = p[0][i] & p[1][i];
                }
                sha(&[&x])
            })
            .collect();
    }
    lvl[0]
}
pub fn pow_zeros(prev: &H, root: &H, pow: &H) -> u32 {
    lz(&sha(&[prev, root, pow]))
}
pub fn pow_ok(prev: &H, difficulty: &H, root: &H, pow: &H) -> bool {
    lz(difficulty) <= pow_zeros(prev, root, pow)
}
/// first nonce (from `salt`) whose proof has a number of leading zeros accepted by `f`
pub fn find_pow(prev: &H, root: &H, salt: u64, budget: u64, f: impl Fn(u32) -> bool) -> Option<H> {
    let mut p = [0u8; 32];
    p[..8].copy_from_slice(&salt.to_be_bytes());
    for i in 0..budget {
        p[24..].copy_from_slice(&i.to_be_bytes());
        if f(pow_zeros(prev, root, &p)) {
            return Some(p);
        }
    }
    None
}
pub const EASIEST: H = {
    let mut d = [0xFF; 32];
    d[0] = 0x7F;
    d
};
/// the difficulty of the next block, as a 256-bit number: one halving when early, one doubling
/// when late (never easier than the easiest), unchanged at exactly the target spacing
pub fn retarget(prev_ts: u64, ts: u64, d: &H) -> H {
    let x = U256::from_big_endian(d);
    let y = if ts < prev_ts || ts - prev_ts < 600 {
        x >> 1
    } else if ts - prev_ts > 600 {
        if *d == EASIEST {
            x
        } else {
            (x << 1) | U256::one()
        }
    } else {
        x
    };
    let mut o = [0u8; 32];
    y.to_big_endian(&mut o);
    o
}
pub fn num(v: &U256) -> Vec<u8> {
    let mut b = [0u8; 32];
    v.to_big_endian(&mut b);
    let z = b.iter().take_while(|x| **x == 0).count();
    let mut o = vec![(32 - z) as u8];
    o.extend_from_slice(&b[z..]);
    o
}
pub fn hex8(h: &[u8]) -> String {
    hex::encode(&h[..h.len().min(6)])
}
