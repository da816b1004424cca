//! Reference model of parenthesis sequences and the ordered trees they encode.
use crate::rng::Rng;
use std::collections::HashMap;

pub const NONE: usize = usize::MAX;

pub fn opt(x: usize) -> Option<usize> {
    if x == NONE {
        None
    } else {
        Some(x)
    }
}

/// Excess profile of an arbitrary bit sequence, indexed by value.
pub struct Profile {
    /// e[i] = excess of the first i bits
    pub e: Vec<i64>,
    /// excess value -> the indices i with e[i] = value, ascending
    at: HashMap<i64, Vec<usize>>,
    pub lo: i64,
    pub hi: i64,
}

impl Profile {
    pub fn new(bits: &[bool]) -> Self {
        let mut e = Vec::with_capacity(bits.len() + 1);
        let mut x = 0i64;
        e.push(0);
        for &b in bits {
            x += if b { 1 } else { -1 };
            e.push(x);
        }
        let mut at: HashMap<i64, Vec<usize>> = HashMap::new();
        for (i, &v) in e.iter().enumerate() {
            at.entry(v).or_default().push(i);
        }
        let (lo, hi) = (*e.iter().min().unwrap(), *e.iter().max().unwrap());
        Profile { e, at, lo, hi }
    }
    pub fn len(&self) -> usize {
        self.e.len() - 1
    }
    /// nearest position p > index with excess after p = excess after index + rel
    pub fn fwd(&self, index: usize, rel: i64) -> Option<usize> {
        if index >= self.len() {
            return None;
        }
        let v = self.at.get(&self.e[index + 1].checked_add(rel)?)?;
        let k = v.partition_point(|&i| i <= index + 1);
        v.get(k).map(|i| i - 1)
    }
    /// nearest position p < index with excess before p = excess before index + rel
    pub fn bwd(&self, index: usize, rel: i64) -> Option<usize> {
        if index >= self.len() {
            return None;
        }
        let v = self.at.get(&self.e[index].checked_add(rel)?)?;
        let k = v.partition_point(|&i| i < index);
        if k == 0 {
            None
        } else {
            Some(v[k - 1])
        }
    }
}

/// Ordered tree (or forest) given by a balanced sequence; all links by parenthesis position.
pub struct Tree {
    pub bits: Vec<bool>,
    /// positions of opening parentheses, in pre-order
    pub nodes: Vec<usize>,
    /// per position: the matching parenthesis
    pub mate: Vec<usize>,
    /// per position of an opening parenthesis (others unspecified)
    pub parent: Vec<usize>,
    pub first: Vec<usize>,
    pub last: Vec<usize>,
    pub next: Vec<usize>,
    pub prev: Vec<usize>,
    pub depth: Vec<usize>,
    pub index: Vec<usize>,
    pub size: Vec<usize>,
    /// nodes in post-order
    pub post: Vec<usize>,
    /// per depth: nodes left to right
    pub levels: Vec<Vec<usize>>,
    /// per opening position: index within its level
    pub lvl_idx: Vec<usize>,
}

impl Tree {
    pub fn new(bits: &[bool]) -> Self {
        let n = bits.len();
        let mut t = Tree {
            bits: bits.to_vec(),
            nodes: Vec::with_capacity(n / 2),
            mate: vec![NONE; n],
            parent: vec![NONE; n],
            first: vec![NONE; n],
            last: vec![NONE; n],
            next: vec![NONE; n],
            prev: vec![NONE; n],
            depth: vec![0; n],
            index: vec![0; n],
            size: vec![0; n],
            post: Vec::with_capacity(n / 2),
            levels: Vec::new(),
            lvl_idx: vec![0; n],
        };
        let mut stack: Vec<usize> = Vec::new();
        let mut last_root = NONE;
        for (i, &b) in bits.iter().enumerate() {
            if b {
                let d = stack.len();
                t.depth[i] = d;
                t.index[i] = t.nodes.len();
                t.nodes.push(i);
                if t.levels.len() <= d {
                    t.levels.push(Vec::new());
                }
                t.lvl_idx[i] = t.levels[d].len();
                t.levels[d].push(i);
                let left = match stack.last() {
                    Some(&p) => {
                        t.parent[i] = p;
                        if t.first[p] == NONE {
                            t.first[p] = i;
                        }
                        let l = t.last[p];
                        t.last[p] = i;
                        l
                    }
                    None => {
                        let l = last_root;
                        last_root = i;
                        l
                    }
                };
                t.prev[i] = left;
                if left != NONE {
                    t.next[left] = i;
                }
                stack.push(i);
            } else {
                let o = stack.pop().expect("balanced");
                t.mate[i] = o;
                t.mate[o] = i;
                t.size[o] = t.nodes.len() - t.index[o];
                t.post.push(o);
            }
        }
        assert!(stack.is_empty());
        t
    }

    /// the nodes a check looks at: all of a small tree, otherwise borders, extremes and a random sample
    pub fn sample(&self, r: &mut Rng, count: usize) -> Vec<usize> {
        let n = self.nodes.len();
        if n <= count {
            return self.nodes.clone();
        }
        let mut v = vec![self.nodes[0], self.nodes[n - 1], self.post[0], self.post[n - 1]];
        v.push(*self.levels.last().unwrap().first().unwrap());
        v.push(*self.levels.last().unwrap().last().unwrap());
        let mut p = self.nodes[0];
        for _ in 0..60 {
            v.push(p);
            let q = if r.bool() { self.last[p] } else { self.first[p] };
            if q == NONE {
                break;
            }
            p = q;
        }
        while v.len() < count {
            match r.below(4) {
                0 | 1 => v.push(self.nodes[r.below(n)]),
                2 => {
                    // close to a power-of-two aligned position
                    let a = 1usize << r.range(2, 16);
                    let base = r.below(self.bits.len() / a + 1) * a;
                    for d in 0..6 {
                        let i = (base + d).saturating_sub(3);
                        if i < self.bits.len() {
                            v.push(if self.bits[i] { i } else { self.mate[i] });
                        }
                    }
                }
                _ => {
                    let l = r.below(self.levels.len());
                    v.push(*r.pick(&self.levels[l]));
                }
            }
        }
        v.truncate(count);
        v
    }
}

/// run a generic function with a block size chosen at run time
#[macro_export]
macro_rules! with_block {
    ($b:expr, $f:ident ( $($a:expr),* )) => {
        match $b {
            1 => $f::<1>($($a),*),
            2 => $f::<2>($($a),*),
            3 => $f::<3>($($a),*),
            4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*),
            8 => $f::<8>($($a),*),
            12 => $f::<12>($($a),*),
            16 => $f::<16>($($a),*),
            24 => $f::<24>($($a),*),
            32 => $f::<32>($($a),*),
            64 => $f::<64>($($a),*),
            100 => $f::<100>($($a),*),
            128 => $f::<128>($($a),*),
            512 => $f::<512>($($a),*),
            1024 => $f::<1024>($($a),*),
            4096 => $f::<4096>($($a),*),
            33001 => $f::<33001>($($a),*),
            131_072 => $f::<131_072>($($a),*),
            b => unreachable!("block size {b}"),
        }
    };
}
pub const BLOCKS: [usize; 18] = [1, 2, 3, 4, 5, 8, 12, 16, 24, 32, 64, 100, 128, 512, 1024, 4096, 33001, 131_072];
pub const SMALL_BLOCKS: [usize; 8] = [1, 2, 3, 4, 5, 8, 16, 24];
