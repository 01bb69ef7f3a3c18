//! The grid of request parameters, shared by the dumper and the judge.
pub struct P {
    pub payer: [u8; 32],
    pub queue: [u8; 32],
    pub prog: [u8; 32],
    pub disc: Vec<u8>,
    pub metas: Option<Vec<([u8; 32], bool, bool)>>,
    pub seed: [u8; 32],
    pub args: Option<Vec<u8>>,
    pub high: bool,
}
fn key(n: u8) -> [u8; 32] {
    std::array::from_fn(|i| n.wrapping_mul(37).wrapping_add((i as u8).wrapping_mul(11)).wrapping_add(1))
}
// keys of the judge's world (it checks that they are)
pub fn payers() -> [[u8; 32]; 2] {
    [
        [196, 32, 53, 183, 205, 102, 152, 82, 181, 26, 73, 144, 204, 224, 150, 160, 252, 67, 82, 48, 183, 223, 241, 16, 212, 218, 143, 58, 186, 214, 59, 247],
        [65, 89, 96, 213, 166, 21, 231, 84, 163, 97, 4, 246, 98, 154, 207, 169, 248, 9, 63, 62, 15, 94, 167, 82, 125, 149, 8, 91, 113, 16, 184, 179],
    ]
}
pub fn queues() -> [[u8; 32]; 2] {
    [
        [201, 201, 163, 26, 126, 99, 156, 116, 236, 67, 73, 81, 48, 59, 254, 118, 143, 154, 67, 231, 246, 8, 219, 90, 120, 11, 207, 255, 233, 52, 76, 19],
        [185, 107, 173, 33, 220, 143, 160, 226, 175, 215, 221, 201, 160, 198, 99, 209, 139, 251, 24, 249, 81, 91, 10, 147, 62, 170, 213, 28, 171, 246, 200, 221],
    ]
}
pub fn progs() -> [[u8; 32]; 2] {
    [
        [54, 110, 206, 254, 140, 129, 46, 240, 33, 223, 127, 220, 79, 121, 248, 7, 157, 152, 131, 216, 2, 173, 90, 243, 245, 187, 193, 11, 175, 168, 106, 68],
        [201, 88, 44, 139, 52, 11, 132, 63, 0, 96, 23, 21, 81, 242, 136, 104, 211, 248, 231, 250, 5, 208, 132, 215, 208, 88, 207, 36, 10, 193, 231, 200],
    ]
}
fn pat(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(k)).collect()
}
pub fn discs() -> Vec<Vec<u8>> {
    vec![vec![], vec![0], vec![9], pat(7, 1), pat(8, 1), vec![1, 2, 3, 0, 0, 0, 0, 0], vec![0; 8], pat(9, 1)]
}
pub fn metas() -> Vec<Option<Vec<([u8; 32], bool, bool)>>> {
    let mut v: Vec<Option<Vec<([u8; 32], bool, bool)>>> = vec![None, Some(vec![])];
    for f in 0..4u8 {
        v.push(Some(vec![(key(20), f & 1 == 1, f & 2 == 2)]));
    }
    for n in [2usize, 3, 19, 20, 21] {
        v.push(Some((0..n).map(|i| (key(30 + i as u8), i % 2 == 1, i % 3 == 0)).collect()));
    }
    // one key several times with every combination of flags
    v.push(Some((0..4u8).map(|f| (key(20), f & 1 == 1, f & 2 == 2)).collect()));
    v
}
pub fn argss() -> Vec<Option<Vec<u8>>> {
    vec![None, Some(vec![]), Some(vec![0]), Some(pat(1, 9)), Some(pat(255, 3)), Some(pat(256, 3)), Some(pat(511, 3)), Some(pat(512, 3)), Some(pat(513, 3))]
}
pub fn seeds() -> [[u8; 32]; 3] {
    [[0; 32], key(9), [255; 32]]
}
/// every combination of the parameters' representatives (payer and queue vary together with the seed)
pub fn grid() -> Vec<P> {
    let mut v = vec![];
    for (si, seed) in seeds().into_iter().enumerate() {
        for prog in progs() {
            for disc in discs() {
                for m in metas() {
                    for a in argss() {
                        for high in [true, false] {
                            v.push(P {
                                payer: payers()[si % 2],
                                queue: queues()[(si / 2) % 2],
                                prog,
                                disc: disc.clone(),
                                metas: m.clone(),
                                seed,
                                args: a.clone(),
                                high,
                            });
                        }
                    }
                }
            }
        }
    }
    v
}
/// keys the address helpers are asked about
pub fn keys() -> Vec<[u8; 32]> {
    let mut v: Vec<[u8; 32]> = (0..24).map(key).collect();
    v.push([0; 32]);
    v.push([255; 32]);
    let mut k = [0; 32];
    k[31] = 1;
    v.push(k);
    let mut k = [0; 32];
    k[0] = 1;
    v.push(k);
    v
}
