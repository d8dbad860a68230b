//! Start graphs beyond the fixpoint alphabets (shapes with many nodes, edges, labels, or a history), the
//! standard list of explorations shared by the state-wise checks, and conversion to all representations.
use rust_graph::generic::IdType;

use crate::core::*;
use crate::explore::*;
use crate::util::*;

pub fn a0() -> Vec<Lb> {
    vec![None]
}
pub fn a1() -> Vec<Lb> {
    vec![None, Some(0)]
}
pub fn a2() -> Vec<Lb> {
    vec![None, Some(0), Some(1)]
}
pub fn s1() -> Vec<Lb> {
    vec![Some(0)]
}

pub struct Base {
    pub name: String,
    pub ops: Vec<Op>,
    /// Ids the exploration then works on.
    pub touch: Vec<u32>,
}

fn cyc(i: usize) -> Lb {
    match i % 4 {
        0 => None,
        k => Some(k as Letter - 1),
    }
}

fn an(i: usize, l: Lb) -> Op {
    Op::AddNode(i as u32, l)
}
fn ae(s: usize, t: usize, l: Lb) -> Op {
    Op::AddEdge(s as u32, t as u32, l)
}

fn base(name: &str, ops: Vec<Op>, touch: &[u32]) -> Base {
    Base { name: name.into(), ops, touch: touch.to_vec() }
}

pub fn star(n: usize, hub: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        v.push(an(i, cyc(i)));
    }
    for i in (0..n).rev() {
        if i != hub {
            if i % 3 == 0 {
                v.push(ae(i, hub, cyc(i + 1)));
            } else {
                v.push(ae(hub, i, cyc(i + 1)));
            }
        }
    }
    v
}

pub fn path(n: usize) -> Vec<Op> {
    let mut v = vec![an(0, Some(1))];
    for i in 1..n {
        v.push(ae(i - 1, i, cyc(i)));
    }
    v
}

pub fn cycle(n: usize) -> Vec<Op> {
    let mut v = path(n);
    if n > 2 {
        v.push(ae(n - 1, 0, Some(2)));
    }
    v
}

pub fn clique(from: usize, n: usize, loops: bool) -> Vec<Op> {
    let mut v = vec![];
    for i in from..from + n {
        v.push(an(i, cyc(i)));
    }
    for i in from..from + n {
        for j in from..from + n {
            if i < j || (loops && i == j) || (i > j && (i + j) % 3 == 0) {
                v.push(ae(i, j, cyc(i * 3 + j)));
            }
        }
    }
    v
}

/// Every node its own label, every edge of a path its own label.
pub fn rainbow(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        v.push(an(i, Some(i as Letter)));
    }
    for i in 1..n {
        v.push(ae(i - 1, i, Some((n - i) as Letter)));
    }
    v
}

/// Shapes of moderate size; ids are dense unless the name says otherwise.
pub fn bases<C: Cfg>() -> Vec<Base> {
    let top = C::Id::max_value().id().min(u32::MAX as usize);
    let mut v = vec![
        base("star 12", star(12, 0), &[0, 5, 11, 12]),
        base("star 20 hub 7", star(20, 7), &[0, 7, 19]),
        base("path 10", path(10), &[0, 4, 5, 9]),
        base("cycle 7", cycle(7), &[0, 3, 6]),
        base("clique 6 loops", clique(0, 6, true), &[0, 2, 5, 6]),
        base("rainbow 12", rainbow(12), &[0, 1, 11]),
        base("isolated 9", (0..9).map(|i| an(i, cyc(i))).collect(), &[0, 8, 9]),
        base("loops 5", (0..5).map(|i| ae(i, i, cyc(i))).collect(), &[0, 1, 4]),
        base("descending 8", (0..8).rev().map(|i| ae(i, (i * 3 + 1) % 8, cyc(i))).collect(), &[0, 3, 7]),
    ];
    let mut o = clique(0, 4, false);
    o.extend(clique(4, 4, true));
    o.push(an(8, Some(2)));
    v.push(base("two cliques + 1", o, &[0, 4, 8]));
    // a tree
    v.push(base("tree 15", (1..15).map(|i| ae((i - 1) / 2, i, cyc(i))).collect(), &[0, 1, 6, 14]));
    // K(3,4), both directions mixed
    let mut o = vec![];
    for i in 0..3 {
        for j in 3..7 {
            o.push(if (i + j) % 2 == 0 { ae(i, j, cyc(j)) } else { ae(j, i, cyc(i)) });
        }
    }
    v.push(base("bipartite 3x4", o, &[0, 3, 6]));
    // removals and relabelling in the past
    let mut o = clique(0, 7, true);
    o.extend([
        Op::RemNode(6),
        Op::RemEdge(0, 1),
        Op::RemEdge(2, 2),
        Op::UpdNode(3, Some(4)),
        Op::UpdEdge(0, 2, Some(5)),
        Op::UpdNode(3, None),
        Op::RemNode(1),
        an(1, Some(0)),
        ae(1, 4, None),
        ae(0, 2, Some(5)),
    ]);
    v.push(base("history 6", o, &[0, 1, 2, 6]));
    // sparse ids
    let ids = [0usize, 2, 3, 17, top / 2, top - 1, top];
    let mut o = vec![];
    for (k, &i) in ids.iter().enumerate() {
        o.push(an(i, cyc(k)));
        o.push(ae(i, ids[(k * 2 + 1) % ids.len()], cyc(k + 1)));
    }
    v.push(base("sparse", o, &[0, 17, top as u32]));
    v
}

/// Labels around the sizes of usual buffers, one long one and a short one on each node's edges.
pub fn long_labels(lens: &[u32]) -> Vec<Op> {
    let mut o = vec![];
    for (i, &n) in lens.iter().enumerate() {
        o.push(an(i, Some(LONG + n)));
        o.push(ae(i, (i + 1) % lens.len(), Some(LONG + n + 1)));
        o.push(ae(i, i, cyc(i)));
    }
    o
}

pub fn long_scripts() -> Vec<Init> {
    vec![
        Init::Script(long_labels(&[255, 256, 1023, 1024])),
        Init::Script(long_labels(&[4095, 4096, 8190, 8191, 8192])),
        Init::Script(long_labels(&[65_534, 65_535, 65_536, 10_000])),
    ]
}

/// One member of a family of shapes: `n` nodes 0..n.
pub fn shape(family: &str, n: usize) -> Vec<Op> {
    match family {
        "star" => star(n, 1.min(n.saturating_sub(1))),
        "in-star" => (0..n).map(|i| ae(i, n - 1, cyc(i))).collect(),
        "cycle" => cycle(n),
        "isolated" => (0..n).map(|i| an(i, cyc(i))).collect(),
        "loops" => (0..n).map(|i| ae(i, i, cyc(i))).collect(),
        "rainbow" => rainbow(n),
        "tree" => {
            let mut o = vec![an(0, Some(0))];
            o.extend((1..n).map(|i| ae((i - 1) / 2, i, cyc(i))));
            o
        }
        "descending" => {
            let mut o: Vec<Op> = (0..n).rev().map(|i| an(i, cyc(i))).collect();
            o.extend((1..n).rev().map(|i| ae(i, i - 1, cyc(i))));
            o
        }
        "spread" => {
            let mut o = vec![];
            for i in 0..n {
                o.push(an(i, cyc(i * i)));
                o.push(ae(i, (i * i + 1) % n, cyc(i)));
                o.push(ae((i * 7 + 3) % n, i, cyc(i + 1)));
            }
            o
        }
        // a path on half of the nodes, pairs on a quarter, the rest isolated
        "parts" => {
            let mut o: Vec<Op> = (0..n).map(|i| an(i, cyc(i / 3))).collect();
            o.extend((1..n / 2).map(|i| ae(i, i - 1, cyc(i))));
            o.extend((n / 2..n / 2 + n / 4).step_by(2).filter(|i| i + 1 < n).map(|i| ae(i, i + 1, cyc(i))));
            o
        }
        // every node adjacent to half of the others
        "dense" => {
            let mut o: Vec<Op> = (0..n).map(|i| an(i, cyc(i))).collect();
            for i in 0..n {
                for d in 0..(n / 2).max(1) {
                    o.push(ae(i, (i + d) % n, cyc(i + d * d)));
                }
            }
            o
        }
        // a star most of whose leaves went away again and came back bare
        "torn" => {
            let mut o = star(n, 0);
            for i in (1..n).step_by(2).chain((1..n).step_by(3)) {
                o.push(Op::RemNode(i as u32));
            }
            o.extend((0..n).step_by(4).map(|i| Op::RemEdge(0, i as u32)));
            o.extend((1..n).rev().map(|i| ae(i, 0, if i % 5 == 0 { Some(1) } else { None })));
            o
        }
        _ => panic!("unknown shape {}", family),
    }
}

pub const LINEAR: [&str; 11] =
    ["star", "in-star", "cycle", "isolated", "loops", "rainbow", "tree", "descending", "spread", "parts", "torn"];

/// Sizes of the shapes, dense up to some bound and then around powers of two.
pub fn sizes(thorough: bool, dense: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if thorough { if dense { 80 } else { 300 } } else if dense { 20 } else { 36 }).collect();
    if dense {
        v.extend([33, 66, 100]);
    } else {
        v.extend([63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 258]);
        v.extend([1026, 4100]);
        if thorough {
            v.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Large shapes (beyond byte- and word-sized counters and small-vector thresholds), for single states.
pub fn scales(thorough: bool) -> Vec<(String, Vec<Init>)> {
    let mut v = vec![];
    for f in LINEAR {
        v.push((format!("{}, {} sizes", f, sizes(thorough, false).len()), sizes(thorough, false).into_iter().map(|n| Init::Shape(f.into(), n)).collect()));
    }
    let s = sizes(thorough, true);
    v.push((format!("dense, {} sizes", s.len()), s.into_iter().map(|n| Init::Shape("dense".into(), n)).collect()));
    v
}

/// A few sizes for checks that write files byte by byte.
pub fn samples<C: Cfg>() -> Vec<Base> {
    let top = C::Id::max_value().id();
    [("star", 65usize), ("cycle", 65), ("star", 257), ("cycle", 257), ("torn", 70), ("rainbow", 120), ("dense", 24)]
        .iter()
        .filter(|x| x.1 <= top)
        .map(|&(f, n)| base(&format!("{} {}", f, n), shape(f, n), &[]))
        .collect()
}

/// Beyond 16-bit counters.
pub fn giants(thorough: bool) -> Vec<(String, Vec<Init>)> {
    let fs: &[&str] = if thorough { &LINEAR } else { &["rainbow", "star"] };
    let inits = |n: usize| fs.iter().map(|f| Init::Shape(f.to_string(), n)).collect();
    let mut v = vec![("giants".into(), inits(66_000))];
    if thorough {
        v.push(("giants at the 16-bit border".into(), [65_534, 65_535, 65_536, 65_537].iter().map(|&n| Init::Shape("rainbow".into(), n)).collect()));
    }
    v
}

/// Call `f` on the graph in every representation it can be brought into.
pub fn reps<C: Cfg>(g: &Map<C>, m: &Model, f: &mut dyn FnMut(&Gen<C>, &str) -> Res) -> Res {
    f(C::gg(g), "mutable")?;
    if m.dense() {
        let s = freeze::<C>(g);
        f(C::sg(&s), "static")?;
        let x = open_mmap::<C>(&s, "view")?;
        f(&x, "mmap")?;
    }
    Ok(())
}

pub fn freeze<C: Cfg>(g: &Map<C>) -> Stat<C> {
    g.clone().into_static()
}

pub fn open_mmap<C: Cfg>(s: &Stat<C>, name: &str) -> Result<Mm<C>, String> {
    let p = scratch_file(name);
    let p = p.to_str().unwrap();
    s.dump_mmap(p).map_err(|e| format!("dump_mmap failed: {}", e))?;
    Ok(Mm::<C>::new(p))
}

pub fn all_reps<C: Cfg>(g: &Map<C>, m: &Model, name: &str) -> Result<Vec<Rep<C>>, String> {
    let mut v = vec![Rep::M(g.clone())];
    if m.dense() {
        let s = freeze::<C>(g);
        let x = open_mmap::<C>(&s, name)?;
        v.push(Rep::S(s));
        v.push(Rep::X(x));
    }
    Ok(v)
}

/// A check of one explored state, generic over the configuration.
pub trait StateCheck: Sync {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res;
}

/// How much of the standard list a check can afford.
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum Cost {
    Light,
    Medium,
    Heavy,
}

pub struct Sweep {
    pub cost: Cost,
    pub strict: bool,
    /// Operations added to the core ones in the two-id alphabets.
    pub extra: u32,
    /// Iteration-order modes of the node map to repeat the small alphabets in.
    pub modes: Vec<(usize, usize)>,
    pub directed: bool,
    pub undirected: bool,
    pub scale: bool,
    /// Graphs with more than 65536 nodes, edges, labels and neighbours.
    pub giants: bool,
}

impl Default for Sweep {
    fn default() -> Self {
        Sweep {
            cost: Cost::Light,
            strict: false,
            extra: 0,
            modes: vec![(0, 0)],
            directed: true,
            undirected: true,
            scale: true,
            giants: false,
        }
    }
}

fn inits() -> Vec<Init> {
    vec![
        Init::New,
        Init::Default,
        Init::Cap,
        Init::Labels(vec![0], vec![1]),
        Init::Labels(vec![1, 0], vec![0]),
        Init::FromEdges(vec![(0, 1), (1, 0), (0, 0), (0, 1)]),
        Init::FromEdges(vec![(1, 1)]),
    ]
}

impl Sweep {
    pub fn run<K: StateCheck>(&self, k: &K) {
        self.cfg::<U32Un, K>(k);
        self.cfg::<U32Di, K>(k);
        self.cfg::<U8Di, K>(k);
        self.cfg::<U8Un, K>(k);
        self.cfg::<StrUn, K>(k);
        self.cfg::<StrDi, K>(k);
        self.cfg::<MixDi, K>(k);
        self.cfg::<MixUn, K>(k);
        self.cfg::<VoidUn, K>(k);
        self.cfg::<NilDi, K>(k);
        if self.scale && self.giants {
            huge(true);
            self.giants::<U32Un, K>(k);
            self.giants::<U32Di, K>(k);
            huge(false);
        }
    }

    fn giants<C: Cfg, K: StateCheck>(&self, k: &K) {
        if (C::DIR && !self.directed) || (!C::DIR && !self.undirected) {
            return;
        }
        for (name, inits) in giants(thorough()) {
            self.go::<C, K>(k, Profile::new(&name, &[], &a0(), &a0()).flags(0).depth(0).inits(inits));
        }
    }

    fn go<C: Cfg, K: StateCheck>(&self, k: &K, p: Profile) {
        if stopped() {
            return;
        }
        let chk = |g: &Map<C>, m: &Model| k.check::<C>(g, m);
        explore::<C>(&p, self.strict, &chk, None);
    }

    pub fn cfg<C: Cfg, K: StateCheck>(&self, k: &K) {
        if (C::DIR && !self.directed) || (!C::DIR && !self.undirected) {
            return;
        }
        let full = F_CORE | self.extra;
        let main = C::NAME.starts_with("U32");
        let byte = C::NAME.starts_with("U8");
        let th = thorough();
        let (light, medium) = (self.cost == Cost::Light, self.cost <= Cost::Medium);
        let md = self.modes.clone();
        if main {
            // every small alphabet to its fixpoint
            self.go::<C, K>(k, Profile::new("2 ids 2 labels", &[0, 1], &a2(), &a2()).flags(full).inits(inits()));
            if light {
                self.go::<C, K>(k, Profile::new("3 ids labelled", &[0, 1, 2], &a1(), &if C::DIR { s1() } else { a1() }));
                self.go::<C, K>(k, Profile::new("4 ids bare", &[0, 1, 2, 3], &a0(), &a0()).flags(if C::DIR { F_ADDE | F_REMN } else { F_CORE }));
            } else if medium {
                self.go::<C, K>(k, Profile::new("3 ids labelled", &[0, 1, 2], &s1(), &s1()));
            }
            self.go::<C, K>(k, Profile::new("3 ids bare", &[0, 1, 2], &a0(), &a0()).modes(md));
            self.go::<C, K>(k, Profile::new("sparse", &[0, 5, u32::MAX], &a0(), &s1()));
            for b in bases::<C>() {
                let d = if th && light { 2 } else { 1 };
                self.go::<C, K>(k, Profile::new(&b.name, &b.touch, &a2(), &a2()).depth(d).inits(vec![Init::Script(b.ops)]));
            }
            if self.scale {
                for (name, inits) in scales(th) {
                    self.go::<C, K>(k, Profile::new(&name, &[], &a0(), &a0()).flags(0).depth(0).inits(inits));
                }
            }
            if th {
                self.go::<C, K>(k, Profile::new("3 ids edge labels", &[0, 1, 2], &a0(), &a1()));
                if light {
                    self.go::<C, K>(k, Profile::new("3 ids, node labels", &[0, 1, 2], &a2(), &s1()).flags(if C::DIR { F_BUILD } else { F_CORE }));
                    self.go::<C, K>(k, Profile::new("5 ids bare", &[0, 1, 2, 3, 4], &a0(), &a0()).flags(F_ADDE | F_REMN).depth(if C::DIR { 5 } else { 8 }));
                }
            }
        } else if C::NAME.starts_with("Void") || C::NAME.starts_with("Nil") {
            // one label or none at all
            let l = if C::NAME.starts_with("Void") { a1() } else { a0() };
            let start = vec![Init::New, Init::Default, Init::FromEdges(vec![(0, 1), (1, 0), (0, 0), (0, 1)])];
            self.go::<C, K>(k, Profile::new("2 ids", &[0, 1], &l, &l).flags(full).inits(start));
            self.go::<C, K>(k, Profile::new("3 ids bare", &[0, 1, 2], &a0(), &a0()));
            self.go::<C, K>(k, Profile::new("sparse", &[0, 5, 300], &a0(), &a0()));
        } else if byte {
            self.go::<C, K>(k, Profile::new("byte ids", &[0, 254, 255], &a0(), &s1()));
            self.go::<C, K>(k, Profile::new("byte ids labelled", &[0, 1], &a1(), &a1()).flags(full));
            if th {
                for b in bases::<C>() {
                    self.go::<C, K>(k, Profile::new(&b.name, &b.touch, &a1(), &a1()).depth(1).inits(vec![Init::Script(b.ops)]));
                }
            }
        } else {
            self.go::<C, K>(k, Profile::new("2 ids 1 label", &[0, 1], &a1(), &a1()).flags(full).inits(inits()));
            self.go::<C, K>(k, Profile::new("long labels", &[], &a0(), &a0()).flags(0).depth(0).inits(long_scripts()));
            // every text of the alphabet as a label, on dense and on sparse ids
            let texts = |f: &dyn Fn(usize) -> usize| -> Init {
                let n = STRS.len();
                Init::Script((0..n).flat_map(|i| vec![an(f(i), Some(i as Letter)), ae(f(i), f((i + 1) % n), Some((n - 1 - i) as Letter))]).collect())
            };
            self.go::<C, K>(k, Profile::new("all texts", &[], &a0(), &a0()).flags(0).depth(0).inits(vec![texts(&|i| i), texts(&|i| i * i * 30 + 2)]));
            if th {
                self.go::<C, K>(k, Profile::new("2 ids 2 labels", &[0, 1], &a2(), &a2()));
                for b in bases::<C>() {
                    self.go::<C, K>(k, Profile::new(&b.name, &b.touch, &a1(), &a1()).depth(1).inits(vec![Init::Script(b.ops)]));
                }
            }
        }
    }
}
