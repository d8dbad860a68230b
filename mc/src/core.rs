//! Alphabet, reference model, and execution of one operation on the real graph and on the model.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

use rust_graph::generic::{
    EdgeTrait, GeneralGraph, GraphType, IdType, MapTrait, MutEdgeTrait, MutEdgeType,
    GraphTrait, MutGraphLabelTrait, MutGraphTrait, MutNodeTrait, NodeMapTrait, NodeTrait, OwnedNodeType,
};
use rust_graph::generic::{Directed, GraphLabelTrait, Undirected};
use rust_graph::graph_impl::{TypedGraphMap, TypedStaticGraph};
use rust_graph::map::SetMap;

/// Labels are letters of an alphabet.
pub type Letter = u32;
pub type Lb = Option<Letter>;

pub trait Lab:
    Hash + Eq + Ord + Clone + Debug + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static
{
    /// The real label standing for letter `k` of the alphabet.
    fn mk(k: Letter) -> Self;
}

impl Lab for u32 {
    fn mk(k: Letter) -> Self {
        70 + k
    }
}

/// The library's `Void`: there is one label.
impl Lab for () {
    fn mk(_: Letter) -> Self {}
}

/// Awkward strings for the text formats.
pub const STRS: [&str; 46] = [
    "a", "b,c", "say \"hi\"", "two\nlines", " lead trail ", "日本", "tab\there", "7", "x;y|z", "cr\r\nlf", "'", "#",
    "\"", ",", ":LABEL", "nodeId:ID", " ", "\n", "\r", "\t", "\\", "\\\"", "\"\"", "\u{feff}bom", "\0", "null", "é\u{301}",
    "a\rb", "#x\n#y", "0,\"1\"\n",
    "01", "+7", "1e3", "1.0", "true", "None", "NA", "NaN", "()", "A", "  ", "a ", " a", "-", "0", "\u{a0}",
];

/// Letters from here on stand for labels of `letter - LONG` characters.
pub const LONG: Letter = 1_000_000;

impl Lab for String {
    fn mk(k: Letter) -> Self {
        if (k as usize) < STRS.len() {
            STRS[k as usize].to_string()
        } else if k >= LONG {
            // not periodic in any power of two; some quoting needed on the way
            (0..k - LONG).map(|i| (b'a' + ((i / 251 + i) % 26) as u8) as char).map(|c| if c == 'q' { ',' } else { c }).collect()
        } else {
            format!("label{}", k)
        }
    }
}

/// Concrete types of one configuration of the library.
pub trait Cfg: Sized + Send + Sync + 'static {
    type Id: IdType + serde::Serialize + serde::de::DeserializeOwned;
    type N: Lab;
    type E: Lab;
    type Ty: GraphType + serde::de::DeserializeOwned + Send + Sync + 'static;
    type L: IdType + serde::Serialize + serde::de::DeserializeOwned;
    const NAME: &'static str;
    const DIR: bool;
    fn gg(g: &TypedGraphMap<Self::Id, Self::N, Self::E, Self::Ty, Self::L>) -> &Gen<Self>;
    fn sg(g: &TypedStaticGraph<Self::Id, Self::N, Self::E, Self::Ty, Self::L>) -> &Gen<Self>;
    fn boxg(g: Map<Self>) -> BoxG<Self>;
    fn boxs(g: Stat<Self>) -> BoxG<Self>;
    fn bfs<'a>(g: &'a Rep<Self>, start: Option<Self::Id>) -> Box<dyn Iterator<Item = Self::Id> + 'a>;
    fn dfs<'a>(g: &'a Rep<Self>, start: Option<Self::Id>) -> DfsOf<'a, Self>;
    fn dfs_parts<'a>(g: &'a Rep<Self>, stack: Vec<Self::Id>, disc: fixedbitset::FixedBitSet) -> DfsOf<'a, Self>;
    fn bfs_boxed_clone<'a>(g: &'a Rep<Self>, start: Option<Self::Id>, at: usize) -> (Vec<Self::Id>, Vec<Self::Id>, Vec<Self::Id>);
    fn add_typed(a: Map<Self>, b: Map<Self>) -> Map<Self>;
    fn add_boxed(a: Map<Self>, b: Map<Self>) -> Map<Self>;
    fn sub_typed(a: Map<Self>, b: Map<Self>) -> Map<Self>;
    fn sub_boxed(a: Map<Self>, b: Map<Self>) -> Map<Self>;
}

pub type Gen<C> = dyn GeneralGraph<<C as Cfg>::Id, <C as Cfg>::N, <C as Cfg>::E, <C as Cfg>::L>;
pub type BoxG<C> = Box<Gen<C>>;
/// The mutating interface as an object.
pub type MutG<'a, C> = dyn MutGraphTrait<<C as Cfg>::Id, <C as Cfg>::N, <C as Cfg>::E, <C as Cfg>::L> + 'a;
pub type Map<C> = TypedGraphMap<<C as Cfg>::Id, <C as Cfg>::N, <C as Cfg>::E, <C as Cfg>::Ty, <C as Cfg>::L>;
pub type Stat<C> = TypedStaticGraph<<C as Cfg>::Id, <C as Cfg>::N, <C as Cfg>::E, <C as Cfg>::Ty, <C as Cfg>::L>;
pub type Mm<C> = rust_graph::StaticGraphMmap<<C as Cfg>::Id, <C as Cfg>::N, <C as Cfg>::E, <C as Cfg>::L>;
pub type DfsOf<'a, C> = rust_graph::algorithm::Dfs<'a, <C as Cfg>::Id, <C as Cfg>::N, <C as Cfg>::E, <C as Cfg>::L>;

/// One graph in one of the three representations.
pub enum Rep<C: Cfg> {
    M(Map<C>),
    S(Stat<C>),
    X(Mm<C>),
}

impl<C: Cfg> Rep<C> {
    pub fn gg(&self) -> &Gen<C> {
        match self {
            Rep::M(g) => C::gg(g),
            Rep::S(g) => C::sg(g),
            Rep::X(g) => g,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Rep::M(_) => "mutable",
            Rep::S(_) => "static",
            Rep::X(_) => "mmap",
        }
    }
}

macro_rules! cfg_impl {
    ($name:ident, $id:ty, $n:ty, $e:ty, $ty:ty, $l:ty, $dir:expr) => {
        pub struct $name;
        impl Cfg for $name {
            type Id = $id;
            type N = $n;
            type E = $e;
            type Ty = $ty;
            type L = $l;
            const NAME: &'static str = stringify!($name);
            const DIR: bool = $dir;
            fn gg(g: &Map<Self>) -> &Gen<Self> {
                g
            }
            fn sg(g: &Stat<Self>) -> &Gen<Self> {
                g
            }
            fn boxg(g: Map<Self>) -> BoxG<Self> {
                Box::new(g)
            }
            fn boxs(g: Stat<Self>) -> BoxG<Self> {
                Box::new(g)
            }
            fn bfs<'a>(g: &'a Rep<Self>, start: Option<$id>) -> Box<dyn Iterator<Item = $id> + 'a> {
                match g {
                    Rep::M(g) => Box::new(rust_graph::algorithm::Bfs::new(g, start)),
                    Rep::S(g) => Box::new(rust_graph::algorithm::Bfs::new(g, start)),
                    Rep::X(g) => Box::new(rust_graph::algorithm::Bfs::new(g, start)),
                }
            }
            fn dfs<'a>(g: &'a Rep<Self>, start: Option<$id>) -> DfsOf<'a, Self> {
                match g {
                    Rep::M(g) => rust_graph::algorithm::Dfs::new(g, start),
                    Rep::S(g) => rust_graph::algorithm::Dfs::new(g, start),
                    Rep::X(g) => rust_graph::algorithm::Dfs::new(g, start),
                }
            }
            fn dfs_parts<'a>(
                g: &'a Rep<Self>,
                stack: Vec<$id>,
                disc: fixedbitset::FixedBitSet,
            ) -> DfsOf<'a, Self> {
                match g {
                    Rep::M(g) => rust_graph::algorithm::Dfs::from_parts(stack, disc, g),
                    Rep::S(g) => rust_graph::algorithm::Dfs::from_parts(stack, disc, g),
                    Rep::X(g) => rust_graph::algorithm::Dfs::from_parts(stack, disc, g),
                }
            }
            fn bfs_boxed_clone<'a>(
                g: &'a Rep<Self>,
                start: Option<$id>,
                at: usize,
            ) -> (Vec<$id>, Vec<$id>, Vec<$id>) {
                let cap = 600;
                macro_rules! go {
                    ($g:expr) => {{
                        let mut b = rust_graph::algorithm::Bfs::new($g, start);
                        let mut pre = Vec::new();
                        for _ in 0..at {
                            pre.extend(b.next());
                        }
                        let c = b.clone();
                        (pre, b.take(cap).collect(), c.take(cap).collect())
                    }};
                }
                match g {
                    Rep::M(g) => go!(g),
                    Rep::S(g) => go!(g),
                    Rep::X(g) => go!(g),
                }
            }
            fn add_typed(a: Map<Self>, b: Map<Self>) -> Map<Self> {
                a + b
            }
            fn add_boxed(a: Map<Self>, b: Map<Self>) -> Map<Self> {
                Box::new(a) + Box::new(b)
            }
            fn sub_typed(a: Map<Self>, b: Map<Self>) -> Map<Self> {
                a - b
            }
            fn sub_boxed(a: Map<Self>, b: Map<Self>) -> Map<Self> {
                Box::new(a) - Box::new(b)
            }
        }
    };
}
cfg_impl!(U32Di, u32, u32, u32, Directed, u32, true);
cfg_impl!(U32Un, u32, u32, u32, Undirected, u32, false);
cfg_impl!(L8Di, u32, u32, u32, Directed, u8, true);
cfg_impl!(L8Un, u32, u32, u32, Undirected, u8, false);
cfg_impl!(U8Di, u8, u32, u32, Directed, u8, true);
cfg_impl!(U8Un, u8, u32, u32, Undirected, u8, false);
cfg_impl!(StrDi, u32, String, String, Directed, u32, true);
cfg_impl!(StrUn, u32, String, String, Undirected, u32, false);
cfg_impl!(MixDi, usize, u32, String, Directed, u16, true);
cfg_impl!(MixUn, u16, String, u32, Undirected, u8, false);
cfg_impl!(U16Di, u16, u32, u32, Directed, u16, true);
cfg_impl!(U16Un, u16, u32, u32, Undirected, u16, false);
// the unlabelled graphs of the documentation (one possible label), and ones without room for label ids
cfg_impl!(VoidUn, u32, (), (), Undirected, u32, false);
cfg_impl!(VoidDi, u32, (), (), Directed, u32, true);
cfg_impl!(NilUn, u16, (), (), Undirected, (), false);
cfg_impl!(NilDi, u32, (), (), Directed, (), true);
cfg_impl!(SizeUn, usize, u32, u32, Undirected, usize, false);

/// Mathematical labelled graph + what the interface promises to remember.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Model {
    pub directed: bool,
    pub nodes: BTreeMap<usize, Lb>,
    pub edges: BTreeMap<(usize, usize), Lb>,
    pub nmap: Vec<Letter>,
    pub emap: Vec<Letter>,
    pub max: Option<usize>,
}

impl Model {
    pub fn new(directed: bool) -> Self {
        Model { directed, nodes: BTreeMap::new(), edges: BTreeMap::new(), nmap: vec![], emap: vec![], max: None }
    }
    pub fn key(&self, s: usize, t: usize) -> (usize, usize) {
        if self.directed || s <= t {
            (s, t)
        } else {
            (t, s)
        }
    }
    pub fn has_edge(&self, s: usize, t: usize) -> bool {
        self.edges.contains_key(&self.key(s, t))
    }
    pub fn edge(&self, s: usize, t: usize) -> Option<Lb> {
        self.edges.get(&self.key(s, t)).copied()
    }
    pub fn out(&self, v: usize) -> Vec<usize> {
        let mut r = BTreeSet::new();
        for &(s, t) in self.edges.keys() {
            if s == v {
                r.insert(t);
            }
            if !self.directed && t == v {
                r.insert(s);
            }
        }
        r.into_iter().collect()
    }
    pub fn inn(&self, v: usize) -> Vec<usize> {
        if !self.directed {
            return vec![];
        }
        self.edges.keys().filter(|e| e.1 == v).map(|e| e.0).collect()
    }
    fn intern_n(&mut self, l: Lb) {
        if let Some(l) = l {
            if !self.nmap.contains(&l) {
                self.nmap.push(l)
            }
        }
    }
    fn intern_e(&mut self, l: Lb) {
        if let Some(l) = l {
            if !self.emap.contains(&l) {
                self.emap.push(l)
            }
        }
    }
    pub fn add_node(&mut self, id: usize, l: Lb) -> bool {
        self.intern_n(l);
        self.max = Some(self.max.map_or(id, |m| m.max(id)));
        self.nodes.insert(id, l).is_none()
    }
    pub fn add_edge(&mut self, s: usize, t: usize, l: Lb) -> bool {
        for v in [s, t] {
            if !self.nodes.contains_key(&v) {
                self.add_node(v, None);
            }
        }
        self.intern_e(l);
        let k = self.key(s, t);
        self.edges.insert(k, l).is_none()
    }
    pub fn rem_node(&mut self, id: usize) {
        self.nodes.remove(&id);
        self.edges.retain(|e, _| e.0 != id && e.1 != id);
    }
    pub fn dense(&self) -> bool {
        self.nodes.keys().enumerate().all(|(i, &n)| i == n)
    }
    /// Same nodes, edges, labels (what equality is about).
    pub fn content(&self) -> (bool, &BTreeMap<usize, Lb>, &BTreeMap<(usize, usize), Lb>) {
        (self.directed, &self.nodes, &self.edges)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Nop,
    AddNode(u32, Lb),
    RemNode(u32),
    AddEdge(u32, u32, Lb),
    RemEdge(u32, u32),
    UpdNode(u32, Lb),
    UpdEdge(u32, u32, Lb),
    InternN(Lb),
    InternE(Lb),
    Refine,
    Shrink,
    CloneSwap,
    Reload,
    SetNodeId(u32, Lb),
    SetEdgeId(u32, u32, Lb),
    Reorder(u8),
}

fn ls(l: &Lb) -> String {
    match l {
        None => "-".into(),
        Some(k) => k.to_string(),
    }
}
fn lp(s: &str) -> Lb {
    if s == "-" {
        None
    } else {
        Some(s.parse().unwrap())
    }
}

impl Op {
    pub fn text(&self) -> String {
        match self {
            Op::Nop => "NOP".into(),
            Op::AddNode(i, l) => format!("AN {} {}", i, ls(l)),
            Op::RemNode(i) => format!("RN {}", i),
            Op::AddEdge(s, t, l) => format!("AE {} {} {}", s, t, ls(l)),
            Op::RemEdge(s, t) => format!("RE {} {}", s, t),
            Op::UpdNode(i, l) => format!("UN {} {}", i, ls(l)),
            Op::UpdEdge(s, t, l) => format!("UE {} {} {}", s, t, ls(l)),
            Op::InternN(l) => format!("IN {}", ls(l)),
            Op::InternE(l) => format!("IE {}", ls(l)),
            Op::Refine => "REFINE".into(),
            Op::Shrink => "SHRINK".into(),
            Op::CloneSwap => "CLONE".into(),
            Op::Reload => "RELOAD".into(),
            Op::SetNodeId(i, l) => format!("SN {} {}", i, ls(l)),
            Op::SetEdgeId(s, t, l) => format!("SE {} {} {}", s, t, ls(l)),
            Op::Reorder(b) => format!("REORDER {}", b),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let w: Vec<&str> = s.split_whitespace().collect();
        let n = |i: usize| w[i].parse::<u32>().unwrap();
        Some(match *w.first()? {
            "NOP" => Op::Nop,
            "AN" => Op::AddNode(n(1), lp(w[2])),
            "RN" => Op::RemNode(n(1)),
            "AE" => Op::AddEdge(n(1), n(2), lp(w[3])),
            "RE" => Op::RemEdge(n(1), n(2)),
            "UN" => Op::UpdNode(n(1), lp(w[2])),
            "UE" => Op::UpdEdge(n(1), n(2), lp(w[3])),
            "IN" => Op::InternN(lp(w[1])),
            "IE" => Op::InternE(lp(w[1])),
            "REFINE" => Op::Refine,
            "SHRINK" => Op::Shrink,
            "CLONE" => Op::CloneSwap,
            "RELOAD" => Op::Reload,
            "SN" => Op::SetNodeId(n(1), lp(w[2])),
            "SE" => Op::SetEdgeId(n(1), n(2), lp(w[3])),
            "REORDER" => Op::Reorder(n(1) as u8),
            _ => return None,
        })
    }
    /// The same step as a line of a plain unit test.
    pub fn rust<C: Cfg>(&self) -> String {
        fn nl<T: Lab>(l: &Lb) -> String {
            match l {
                None => "None".into(),
                Some(k) => format!("Some({:?}.into())", T::mk(*k)),
            }
        }
        match self {
            Op::Nop => String::new(),
            Op::AddNode(i, l) => format!("g.add_node({}, {});", i, nl::<C::N>(l)),
            Op::RemNode(i) => format!("g.remove_node({});", i),
            Op::AddEdge(s, t, l) => format!("g.add_edge({}, {}, {});", s, t, nl::<C::E>(l)),
            Op::RemEdge(s, t) => format!("g.remove_edge({}, {});", s, t),
            Op::UpdNode(i, l) => format!("g.update_node_label({}, {});", i, nl::<C::N>(l)),
            Op::UpdEdge(s, t, l) => format!("g.update_edge_label({}, {}, {});", s, t, nl::<C::E>(l)),
            Op::InternN(l) => format!("g.add_node_label({});", nl::<C::N>(l)),
            Op::InternE(l) => format!("g.add_edge_label({});", nl::<C::E>(l)),
            Op::Refine => "g.refine_edge_count();".into(),
            Op::Shrink => "g.shrink_to_fit();".into(),
            Op::CloneSwap => "let mut g = g.clone();".into(),
            Op::Reload => "g.export(&p).unwrap(); let mut g = TypedGraphMap::import(&p).unwrap();".into(),
            Op::SetNodeId(i, l) => format!("g.get_node_mut({}).set_label_id({:?});", i, l),
            Op::SetEdgeId(s, t, l) => format!("g.get_edge_mut({}, {}).set_label_id({:?});", s, t, l),
            Op::Reorder(b) => format!(
                "let mut g = g.reorder_id({}, {}, {}).take_graph().unwrap();",
                b & 1 != 0,
                b & 2 != 0,
                b & 4 != 0
            ),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Init {
    New,
    Default,
    Cap,
    Labels(Vec<Letter>, Vec<Letter>),
    FromEdges(Vec<(u32, u32)>),
    Script(Vec<Op>),
    /// A member of a family of shapes (`fam::shape`).
    Shape(String, usize),
}

impl Init {
    pub fn text(&self) -> String {
        match self {
            Init::New => "new".into(),
            Init::Default => "default".into(),
            Init::Cap => "cap".into(),
            Init::Labels(a, b) => {
                let f = |v: &Vec<Letter>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                format!("labels {};{}", f(a), f(b))
            }
            Init::Script(o) => format!("script {}", o.iter().map(|o| o.text()).collect::<Vec<_>>().join("|")),
            Init::Shape(f, n) => format!("shape {} {}", f, n),
            Init::FromEdges(e) => format!(
                "edges {}",
                e.iter().map(|(a, b)| format!("{}-{}", a, b)).collect::<Vec<_>>().join(",")
            ),
        }
    }
    pub fn parse(s: &str) -> Init {
        let s = s.trim();
        let f = |v: &str| -> Vec<Letter> { v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        if s == "new" {
            Init::New
        } else if s == "default" {
            Init::Default
        } else if s == "cap" {
            Init::Cap
        } else if let Some(r) = s.strip_prefix("labels ") {
            let (a, b) = r.split_once(';').unwrap();
            Init::Labels(f(a), f(b))
        } else if let Some(r) = s.strip_prefix("script ") {
            Init::Script(r.split('|').filter_map(Op::parse).collect())
        } else if let Some(r) = s.strip_prefix("shape ") {
            let (f, n) = r.trim().rsplit_once(' ').unwrap();
            Init::Shape(f.into(), n.parse().unwrap())
        } else {
            let r = s.strip_prefix("edges").unwrap_or("").trim();
            Init::FromEdges(
                r.split(',')
                    .filter(|x| !x.is_empty())
                    .map(|p| {
                        let (a, b) = p.split_once('-').unwrap();
                        (a.parse().unwrap(), b.parse().unwrap())
                    })
                    .collect(),
            )
        }
    }
    /// The start graph; Err when a scripted step returned a wrong value.
    pub fn build<C: Cfg>(&self) -> (Map<C>, Model, Result<(), String>) {
        let mut res = Ok(());
        let mut m = Model::new(C::DIR);
        let g = match self {
            Init::New => Map::<C>::new(),
            Init::Default => Default::default(),
            Init::Cap => Map::<C>::with_capacity(3, 2, 2),
            Init::Labels(a, b) => {
                m.nmap = a.clone();
                m.emap = b.clone();
                Map::<C>::with_label_map(
                    SetMap::from_vec(a.iter().map(|&k| C::N::mk(k)).collect()),
                    SetMap::from_vec(b.iter().map(|&k| C::E::mk(k)).collect()),
                )
            }
            Init::Script(_) | Init::Shape(..) => {
                let made;
                let ops = match self {
                    Init::Script(ops) => ops,
                    Init::Shape(f, n) => {
                        made = crate::fam::shape(f, *n);
                        &made
                    }
                    _ => unreachable!(),
                };
                let mut g = Map::<C>::new();
                for (k, o) in ops.iter().enumerate() {
                    let r = apply::<C>(&mut g, &mut m, *o);
                    if res.is_ok() {
                        res = r.map_err(|e| format!("{} (step {} of the start script)", e, k));
                    }
                }
                g
            }
            Init::FromEdges(e) => {
                for &(s, t) in e {
                    m.add_node(s as usize, None);
                    m.add_node(t as usize, None);
                    m.add_edge(s as usize, t as usize, None);
                }
                Map::<C>::from_edges(e.iter().map(|&(s, t)| (C::Id::new(s as usize), C::Id::new(t as usize))))
            }
        };
        (g, m, res)
    }
    pub fn make<C: Cfg>(&self) -> (Map<C>, Model) {
        let (g, m, _) = self.build::<C>();
        (g, m)
    }
}

/// `l` brought into the label alphabet of the configuration.
pub fn clamp<C: Cfg>(l: Lb) -> Lb {
    if std::mem::size_of::<C::L>() == 0 {
        None
    } else if std::mem::size_of::<C::N>() == 0 {
        l.map(|_| 0)
    } else {
        l
    }
}

fn nid<C: Cfg>(i: u32) -> C::Id {
    C::Id::new(i as usize)
}
fn nl<C: Cfg>(l: Lb) -> Option<C::N> {
    l.map(C::N::mk)
}
fn el<C: Cfg>(l: Lb) -> Option<C::E> {
    l.map(C::E::mk)
}

#[macro_export]
macro_rules! want {
    ($cond:expr, $($t:tt)*) => { if !$cond { return Err(format!($($t)*)); } };
}
pub use crate::want;

pub fn letter_id(map: &[Letter], l: Lb) -> Option<usize> {
    l.map(|k| {
        // the usual places first
        for i in [k as usize, map.len().wrapping_sub(k as usize)] {
            if map.get(i) == Some(&k) {
                return i;
            }
        }
        map.iter().position(|&x| x == k).expect("letter interned")
    })
}

/// The operations of `MutGraphTrait`, on anything that implements it.
pub fn apply_mut<C: Cfg>(g: &mut MutG<'_, C>, m: &mut Model, op: Op) -> Result<(), String> {
    match op {
        // there is no such label id (yet)
        Op::SetNodeId(_, Some(k)) if k as usize >= m.nmap.len() => {}
        Op::SetEdgeId(_, _, Some(k)) if k as usize >= m.emap.len() => {}
        Op::AddNode(i, l) => {
            let r = g.add_node(nid::<C>(i), nl::<C>(l));
            let e = m.add_node(i as usize, l);
            want!(r == e, "add_node({}) returned {} but the node was {}", i, r, if e { "new" } else { "present" });
        }
        Op::AddEdge(s, t, l) => {
            let r = g.add_edge(nid::<C>(s), nid::<C>(t), el::<C>(l));
            let e = m.add_edge(s as usize, t as usize, l);
            want!(r == e, "add_edge({},{}) returned {} but the edge was {}", s, t, r, if e { "new" } else { "present" });
        }
        Op::RemNode(i) => {
            let r = g.remove_node(nid::<C>(i));
            let id = i as usize;
            let was = m.nodes.get(&id).copied();
            let (out, inn) = (m.out(id), m.inn(id));
            let outl: Vec<Lb> = out.iter().map(|&t| m.edge(id, t).unwrap()).collect();
            m.rem_node(id);
            match (was, &r) {
                (None, _) => want!(r.is_none(), "remove_node({}) of an absent node returned a node", i),
                (Some(l), OwnedNodeType::NodeMap(n)) => {
                    want!(r.is_some(), "is_some() of a removed node is false");
                    want!(r.get_id().id() == id && n.get_id().id() == id, "removed node has id {:?}, asked {}", r.get_id(), i);
                    let got = r.get_label_id().map(|x| x.id());
                    want!(got == letter_id(&m.nmap, l), "removed node {} carries label id {:?}, expected {:?}", i, got, letter_id(&m.nmap, l));
                    let gout: Vec<usize> = n.neighbors().iter().map(|x| x.id()).collect();
                    want!(gout == out, "removed node {} reports neighbors {:?}, had {:?}", i, gout, out);
                    let gin: Vec<usize> = n.in_neighbors().iter().map(|x| x.id()).collect();
                    want!(gin == inn, "removed node {} reports in-neighbors {:?}, had {:?}", i, gin, inn);
                    for (k, &t) in out.iter().enumerate() {
                        let gl = n.get_neighbor(C::Id::new(t)).map(|l| l.map(|x| x.id()));
                        let wl = Some(letter_id(&m.emap, outl[k]));
                        want!(gl == wl, "removed node {}: edge to {} has label id {:?}, had {:?}", i, t, gl, wl);
                    }
                }
                (Some(_), _) => return Err(format!("remove_node({}) of a present node returned none", i)),
            }
        }
        Op::RemEdge(s, t) => {
            let r = g.remove_edge(nid::<C>(s), nid::<C>(t));
            let k = m.key(s as usize, t as usize);
            let was = m.edges.remove(&k);
            match was {
                None => want!(r.is_none(), "remove_edge({},{}) of an absent edge returned an edge", s, t),
                Some(l) => {
                    want!(r.is_some(), "remove_edge({},{}) of a present edge returned none", s, t);
                    let got = (r.get_start().id(), r.get_target().id());
                    want!(
                        got == (s as usize, t as usize) || (!m.directed && got == (t as usize, s as usize)),
                        "remove_edge({},{}) returned edge {:?}", s, t, got
                    );
                    let gl = r.get_label_id().map(|x| x.id());
                    want!(gl == letter_id(&m.emap, l), "removed edge ({},{}) carries label id {:?}, expected {:?}", s, t, gl, letter_id(&m.emap, l));
                }
            }
        }
        Op::SetNodeId(i, l) => {
            let mut h = g.get_node_mut(nid::<C>(i));
            let present = m.nodes.contains_key(&(i as usize));
            want!(h.is_some() == present, "get_node_mut({}) present: {}, expected {}", i, h.is_some(), present);
            if present {
                h.set_label_id(l.map(|k| C::L::new(k as usize)));
                let v = l.map(|k| m.nmap[k as usize]);
                m.nodes.insert(i as usize, v);
            }
        }
        Op::SetEdgeId(s, t, l) => {
            // An undirected edge is stored in both orientations and a handle reaches one of them (known
            // finding of C31), so the alphabet sets both.
            let present = m.has_edge(s as usize, t as usize);
            for (s, t) in if m.directed || s == t { vec![(s, t)] } else { vec![(s, t), (t, s)] } {
                let mut h: MutEdgeType<C::Id, C::L> = g.get_edge_mut(nid::<C>(s), nid::<C>(t));
                want!(h.is_some() == present, "get_edge_mut({},{}) present: {}, expected {}", s, t, h.is_some(), present);
                if present {
                    h.set_label_id(l.map(|k| C::L::new(k as usize)));
                }
            }
            if present {
                let v = l.map(|k| m.emap[k as usize]);
                let k = m.key(s as usize, t as usize);
                m.edges.insert(k, v);
            }
        }
        _ => unreachable!("not an operation of MutGraphTrait"),
    }
    Ok(())
}

/// Run `op` on the real graph and the model; Err describes a wrong return value.
/// (Panics propagate to the caller, which catches them.)
pub fn apply<C: Cfg>(g: &mut Map<C>, m: &mut Model, op: Op) -> Result<(), String> {
    match op {
        Op::Nop => {}
        Op::AddNode(..) | Op::AddEdge(..) | Op::RemNode(_) | Op::RemEdge(..) | Op::SetNodeId(..) | Op::SetEdgeId(..) => {
            apply_mut::<C>(g, m, op)?
        }
        Op::UpdNode(i, l) => {
            let r = g.update_node_label(nid::<C>(i), nl::<C>(l));
            let e = m.nodes.contains_key(&(i as usize));
            if e {
                m.add_node(i as usize, l);
            }
            want!(r == e, "update_node_label({}) returned {}, node present: {}", i, r, e);
        }
        Op::UpdEdge(s, t, l) => {
            let r = g.update_edge_label(nid::<C>(s), nid::<C>(t), el::<C>(l));
            let e = m.has_edge(s as usize, t as usize);
            if e {
                m.add_edge(s as usize, t as usize, l);
            }
            want!(r == e, "update_edge_label({},{}) returned {}, edge present: {}", s, t, r, e);
        }
        Op::InternN(l) => {
            let r = g.add_node_label(nl::<C>(l)).map(|x| x.id());
            m.intern_n(l);
            want!(r == letter_id(&m.nmap, l), "add_node_label returned id {:?}, expected {:?}", r, letter_id(&m.nmap, l));
        }
        Op::InternE(l) => {
            let r = g.add_edge_label(el::<C>(l)).map(|x| x.id());
            m.intern_e(l);
            want!(r == letter_id(&m.emap, l), "add_edge_label returned id {:?}, expected {:?}", r, letter_id(&m.emap, l));
        }
        Op::Refine => g.refine_edge_count(),
        Op::Shrink => g.shrink_to_fit(),
        Op::CloneSwap => {
            let c = g.clone();
            *g = c;
        }
        Op::Reload => {
            let p = crate::util::scratch_file("reload");
            rust_graph::io::serde::Serialize::export(g, &p).map_err(|e| format!("!export failed: {}", e))?;
            let c: Map<C> =
                rust_graph::io::serde::Deserialize::import(&p).map_err(|e| format!("!import failed: {}", e))?;
            *g = c;
        }
        Op::Reorder(b) => {
            let old = std::mem::take(g);
            let mut r = old.reorder_id(b & 1 != 0, b & 2 != 0, b & 4 != 0);
            let ng = r.take_graph().ok_or("!reorder result has no graph")?;
            // follow the implementation's (valid) choice among ties
            let tr = |i: usize| r.find_new_node_id(C::Id::new(i)).id();
            let nodes: BTreeMap<usize, Lb> = m.nodes.iter().map(|(&i, &l)| (tr(i), l)).collect();
            let mut m2 = Model::new(m.directed);
            m2.nodes = nodes;
            for (&(s, t), &l) in &m.edges {
                let k = m2.key(tr(s), tr(t));
                m2.edges.insert(k, l);
            }
            m2.nmap = ng
                .get_node_label_map()
                .items()
                .map(|x| m.nmap.iter().find(|&&k| &C::N::mk(k) == x).copied().ok_or("!foreign node label in the reordered dictionary"))
                .collect::<Result<_, _>>()?;
            m2.emap = ng
                .get_edge_label_map()
                .items()
                .map(|x| m.emap.iter().find(|&&k| &C::E::mk(k) == x).copied().ok_or("!foreign edge label in the reordered dictionary"))
                .collect::<Result<_, _>>()?;
            // with ids untouched both "the largest id seen" and "the largest id present" fit the graph
            let present = m2.nodes.keys().max().copied();
            let seen = ng.max_seen_id().map(|x| x.id());
            m2.max = if b & 1 == 0 && seen == m.max { m.max } else { present };
            *m = m2;
            *g = ng;
        }
    }
    Ok(())
}
