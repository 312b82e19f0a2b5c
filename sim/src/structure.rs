//! Reads the node hierarchy from the tree's public Debug output. Only the
//! simulator's own `%..%` marks and the list brackets are interpreted; output
//! that does not follow the expected shape is reported as unreadable and
//! skipped, never as a violation.
use crate::rng::HashMap;

use crate::geo::{Fl, GBox, MD};

pub struct NodeS {
    pub uid: u64,
    pub bx: Option<GBox>,
    pub parent: usize,
    /// distance from the root
    pub depth: usize,
    pub kids: Vec<usize>,
    pub keys: Vec<u32>,
    pub vals: Vec<u32>,
}
pub struct Structure {
    pub nodes: Vec<NodeS>,
    /// uid -> topmost node with it, and whether several nodes share it
    pub by_uid: HashMap<u64, (usize, bool)>,
    /// key token -> leaf
    pub leaf_of: HashMap<u32, usize>,
    /// one past the last node below each node
    ends: Vec<usize>,
}
pub const NOPARENT: usize = usize::MAX;

fn parse_box(d: usize, s: &str) -> Option<Option<GBox>> {
    if s == "-" {
        return Some(None);
    }
    let mut b = GBox { d, lo: [0; MD], hi: [0; MD] };
    let mut n = 0;
    for p in s.split('/') {
        if p.is_empty() {
            continue;
        }
        let (a, c) = p.split_once(':')?;
        if n >= d {
            return None;
        }
        b.lo[n] = a.parse().ok()?;
        b.hi[n] = c.parse().ok()?;
        n += 1;
    }
    if n != d {
        return None;
    }
    Some(Some(b))
}

/// The output with object identities replaced by the given origins.
pub fn normalized(s: &str, with_bounds: bool, origin: &dyn Fn(u32) -> u32) -> String {
    let mut o = String::new();
    for (i, part) in s.split('%').enumerate() {
        if i % 2 == 0 {
            o.push_str(part);
        } else if let Some(r) = part.strip_prefix('B') {
            if with_bounds {
                o.push_str(r.split_once(';').map_or("", |x| x.1));
            }
        } else if let Some(id) = part.get(1..).and_then(|x| x.parse::<u32>().ok()) {
            o.push_str(&format!("<{}>", origin(id)));
        }
    }
    o
}

pub fn parse<F: Fl>(text: &str) -> Option<Structure> {
    let mut st = Structure { nodes: Vec::new(), by_uid: HashMap::default(), leaf_of: HashMap::default(), ends: Vec::new() };
    let mut stack: Vec<usize> = Vec::new();
    // bounds seen, waiting for their list of children
    let mut pending: Option<(u64, Option<GBox>)> = None;
    let mut closed_root = false;
    let mut chars = text.char_indices();
    while let Some((i, c)) = chars.next() {
        match c {
            '%' => {
                let mut end = None;
                for (j, d) in chars.by_ref() {
                    if d == '%' {
                        end = Some(j);
                        break;
                    }
                }
                let mark = &text[i + 1..end?];
                match mark.as_bytes().first()? {
                    b'B' => {
                        let (u, b) = mark[1..].split_once(';')?;
                        if pending.is_some() {
                            return None;
                        }
                        pending = Some((u.parse().ok()?, parse_box(F::D, b)?));
                    }
                    b'K' => {
                        let top = *stack.last()?;
                        if pending.is_some() {
                            return None;
                        }
                        let k: u32 = mark[1..].parse().ok()?;
                        st.nodes[top].keys.push(k);
                        st.leaf_of.insert(k, top);
                    }
                    b'V' => {
                        let top = *stack.last()?;
                        let v: u32 = mark[1..].parse().ok()?;
                        st.nodes[top].vals.push(v);
                    }
                    _ => return None,
                }
            }
            '[' => {
                let (uid, bx) = pending.take()?;
                if closed_root {
                    return None;
                }
                let parent = stack.last().copied().unwrap_or(NOPARENT);
                let id = st.nodes.len();
                if parent != NOPARENT {
                    st.nodes[parent].kids.push(id);
                }
                st.nodes.push(NodeS { uid, bx, parent, depth: stack.len(), kids: vec![], keys: vec![], vals: vec![] });
                st.by_uid.entry(uid).and_modify(|e| e.1 = true).or_insert((id, false));
                stack.push(id);
            }
            ']' => {
                stack.pop()?;
                if stack.is_empty() {
                    closed_root = true;
                }
            }
            _ => {}
        }
    }
    if !stack.is_empty() || pending.is_some() || st.nodes.is_empty() || !closed_root {
        return None;
    }
    for n in &st.nodes {
        if (!n.kids.is_empty() && !n.keys.is_empty()) || n.keys.len() != n.vals.len() {
            return None;
        }
    }
    st.set_ends();
    Some(st)
}

impl Structure {
    pub fn height(&self) -> usize {
        let mut n = 0;
        let mut h = 0;
        while let Some(k) = self.nodes[n].kids.first() {
            n = *k;
            h += 1;
        }
        h
    }
    /// Hash of the shape alone (fan-outs), as a coverage measure.
    pub fn shape(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for n in &self.nodes {
            h = crate::rng::mix(h ^ ((n.depth as u64) << 32) ^ ((n.kids.len() as u64) << 16) ^ n.keys.len() as u64);
        }
        h
    }

    /// First structural defect, if any.
    pub fn check(&self, max: usize, min: usize, exact: bool, key_box: &dyn Fn(u32) -> Option<GBox>) -> Option<(&'static str, String)> {
        let n = self.nodes.len();
        let leaf_depth = self.height();
        let mut union: Vec<Option<GBox>> = vec![None; n];
        // Children come after their parents.
        for i in (0..n).rev() {
            let x = &self.nodes[i];
            let size = x.kids.len() + x.keys.len();
            if x.kids.is_empty() && x.depth != leaf_depth {
                return Some(("unbalanced", format!("a node without child nodes lies at depth {} while others lie at {}", x.depth, leaf_depth)));
            }
            if !x.kids.is_empty() && x.depth == leaf_depth {
                return Some(("unbalanced", format!("an inner node lies at leaf depth {}", x.depth)));
            }
            if size > max {
                return Some(("overfull", format!("a node at depth {} has {size} children, max_children is {max}", x.depth)));
            }
            if i != 0 && size < min {
                return Some(("underfull", format!("a node at depth {} has {size} children, min_children is {min}", x.depth)));
            }
            if i == 0 && !x.kids.is_empty() && size < 2 {
                return Some(("thin_root", "the inner root has a single child".to_string()));
            }
            let mut u: Option<GBox> = None;
            let parts: Vec<Option<GBox>> =
                if x.kids.is_empty() { x.keys.iter().map(|k| key_box(*k)).collect() } else { x.kids.iter().map(|k| union[*k]).collect() };
            for p in parts.into_iter().flatten() {
                u = Some(match u {
                    None => p,
                    Some(a) => a.union(&p),
                });
            }
            union[i] = u;
            match (&x.bx, &u) {
                (None, Some(u)) => return Some(("bounds", format!("a node at depth {} holding keys in {u:?} has empty bounds", x.depth))),
                (Some(b), Some(u)) if !b.contains(u) => {
                    return Some(("bounds", format!("bounds {b:?} of a node at depth {} do not cover its keys {u:?}", x.depth)))
                }
                (Some(b), Some(u)) if exact && b != u => {
                    return Some(("loose_bounds", format!("bounds {b:?} of a node at depth {} exceed the union {u:?} of its keys", x.depth)))
                }
                (Some(b), None) if exact => {
                    return Some(("loose_bounds", format!("an empty node at depth {} has bounds {b:?}", x.depth)))
                }
                _ => {}
            }
        }
        None
    }

    /// Whether `a` is `n` or above it. Nodes are numbered in preorder.
    pub fn is_above(&self, a: usize, n: usize) -> bool {
        a <= n && n < self.ends[a]
    }
    pub fn set_ends(&mut self) {
        let n = self.nodes.len();
        self.ends = (0..n).map(|i| i + 1).collect();
        for i in (0..n).rev() {
            let p = self.nodes[i].parent;
            if p != NOPARENT {
                self.ends[p] = self.ends[p].max(self.ends[i]);
            }
        }
    }
}
