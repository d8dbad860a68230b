//! The oracle: everything a graph answers, compared with the model, one aspect at a time.
use std::collections::BTreeMap;

use rust_graph::generic::{
    EdgeTrait, IdType, MapTrait, NodeMapTrait, NodeTrait, NodeType,
};

use crate::core::*;
use crate::util::{guard, Res};

pub const LOOK: u32 = 1;
pub const COUNT: u32 = 2;
pub const SYM: u32 = 4;
pub const INOUT: u32 = 8;
pub const ENUM: u32 = 16;
pub const DICT: u32 = 32;
pub const MAXID: u32 = 64;
pub const STATS: u32 = 128;
pub const ABSENT: u32 = 256;
/// Label ids must be the model's dictionary positions (otherwise only the labels are compared).
pub const LABELIDS: u32 = 512;
pub const ALL: u32 = 1023;

const CAP: usize = 300_000;

/// Ids worth asking about besides those in the graph.
pub fn probe_ids<C: Cfg>(m: &Model, extra: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = m.nodes.keys().copied().collect();
    v.extend_from_slice(extra);
    let top = C::Id::max_value().id();
    let next = v.iter().max().map_or(0, |x| x + 1);
    if next <= top {
        v.push(next);
    }
    v.push(0);
    v.push(top);
    v.push(top - 1);
    v.sort();
    v.dedup();
    v
}

fn lname<T: std::fmt::Debug>(l: &Option<T>) -> String {
    match l {
        None => "no label".into(),
        Some(x) => format!("label {:?}", x),
    }
}

/// Out- and in-neighbours of every node.
pub struct Adj {
    out: BTreeMap<usize, Vec<usize>>,
    inn: BTreeMap<usize, Vec<usize>>,
}

impl Adj {
    pub fn new(m: &Model) -> Self {
        let mut a = Adj { out: BTreeMap::new(), inn: BTreeMap::new() };
        for &(s, t) in m.edges.keys() {
            a.out.entry(s).or_default().push(t);
            if m.directed {
                a.inn.entry(t).or_default().push(s);
            } else if s != t {
                a.out.entry(t).or_default().push(s);
            }
        }
        for v in a.out.values_mut().chain(a.inn.values_mut()) {
            v.sort_unstable();
        }
        a
    }
    pub fn out(&self, v: usize) -> &[usize] {
        self.out.get(&v).map_or(&[], |x| x)
    }
    pub fn inn(&self, v: usize) -> &[usize] {
        self.inn.get(&v).map_or(&[], |x| x)
    }
}

/// Which second ids to pair with an id: all of them in small graphs, otherwise its neighbours in either
/// direction, the ids next to those and to itself, and the extreme ones.
struct Pairs<'a> {
    ids: &'a [usize],
    adj: Option<Adj>,
}

const MANY: usize = 170;

impl<'a> Pairs<'a> {
    fn new(m: &Model, ids: &'a [usize]) -> Self {
        Pairs { ids, adj: if ids.len() <= MANY { None } else { Some(Adj::new(m)) } }
    }
    fn with(&self, i: usize) -> std::borrow::Cow<'a, [usize]> {
        let a = match &self.adj {
            None => return self.ids.into(),
            Some(a) => a,
        };
        let n = self.ids.len();
        let mut v = vec![self.ids[0], self.ids[1], self.ids[n / 2], self.ids[n - 3], self.ids[n - 2], self.ids[n - 1]];
        let at = |x: usize, v: &mut Vec<usize>| {
            let p = self.ids.partition_point(|&y| y < x);
            v.extend_from_slice(&self.ids[p.saturating_sub(1)..(p + 2).min(n)]);
        };
        at(i, &mut v);
        let few = a.out(i).len() + a.inn(i).len() < 2 * MANY;
        for &x in a.out(i).iter().chain(a.inn(i)) {
            if few {
                at(x, &mut v)
            } else {
                v.push(x)
            }
        }
        v.sort_unstable();
        v.dedup();
        v.into()
    }
}

pub fn view<C: Cfg>(g: &Gen<C>, m: &Model, asp: u32, who: &str, ids: &[usize]) -> Res {
    let pairs = Pairs::new(m, ids);
    let nid = |i: usize| C::Id::new(i);
    let on = |a: u32| asp & a != 0;
    let nlab = |l: Lb| l.map(C::N::mk);
    let elab = |l: Lb| l.map(C::E::mk);
    macro_rules! bad { ($($t:tt)*) => { return Err(format!("{} graph: {}", who, format!($($t)*))) }; }
    let nodes: Vec<usize> = m.nodes.keys().copied().collect();

    if on(LOOK) || on(COUNT) || on(ENUM) {
        if g.is_directed() != m.directed {
            bad!("is_directed() = {}, expected {}", g.is_directed(), m.directed);
        }
        if g.as_digraph().is_some() != m.directed {
            bad!("as_digraph() present: {}, directed: {}", g.as_digraph().is_some(), m.directed);
        }
    }
    if on(COUNT) {
        // the same graph under its other types
        let (a, b, c) = (g.as_graph(), g.as_general_graph(), g.as_labeled_graph());
        let of = (g.node_count(), g.edge_count(), g.max_seen_id(), g.is_directed());
        let got = [
            (a.node_count(), a.edge_count(), a.max_seen_id(), a.is_directed()),
            (b.node_count(), b.edge_count(), b.max_seen_id(), b.is_directed()),
        ];
        if got[0] != of || got[1] != of {
            bad!("counts, largest id and direction {:?}, as_graph() and as_general_graph() say {:?}", of, got);
        }
        let l = (g.get_node_label_map() == c.get_node_label_map(), g.get_edge_label_map() == c.get_edge_label_map());
        if l != (true, true) {
            bad!("as_labeled_graph() has the same dictionaries: {:?}", l);
        }
        if let Some(&i) = ids.first() {
            if c.get_node_label(nid(i)) != g.get_node_label(nid(i)) || b.has_node(nid(i)) != g.has_node(nid(i)) {
                bad!("node {} differs through as_labeled_graph() or as_general_graph()", i);
            }
        }
    }
    if on(LOOK) {
        for &i in ids {
            let want = m.nodes.get(&i);
            if g.has_node(nid(i)) != want.is_some() {
                bad!("has_node({}) = {}, expected {}", i, g.has_node(nid(i)), want.is_some());
            }
            let n = g.get_node(nid(i));
            if n.is_some() != want.is_some() || n.is_none() == want.is_some() {
                bad!("get_node({}) present: {}, expected {}", i, n.is_some(), want.is_some());
            }
            let l = want.copied().flatten();
            if want.is_some() && n.get_id().id() != i {
                bad!("get_node({}) has id {:?}", i, n.get_id());
            }
            let inner = match &n {
                NodeType::NodeMap(x) => Some((x.get_id(), x.get_label_id(), x.is_some(), x.is_none())),
                NodeType::StaticNode(x) => Some((x.get_id(), x.get_label_id(), x.is_some(), x.is_none())),
                NodeType::None => None,
            };
            if inner != want.map(|_| (nid(i), n.get_label_id(), true, false)) {
                bad!("get_node({}) holds (id, label id, is_some, is_none) {:?}", i, inner);
            }
            let got = n.get_label_id().map(|x| x.id());
            if on(LABELIDS) {
                if got != letter_id(&m.nmap, l) {
                    bad!("node {} has label id {:?}, expected {:?}", i, got, letter_id(&m.nmap, l));
                }
            } else if got.is_some() != l.is_some() {
                bad!("node {} has label id {:?}, expected {}", i, got, lname(&nlab(l)));
            }
            let gl = g.get_node_label(nid(i));
            if gl != nlab(l).as_ref() {
                bad!("node {} carries {}, expected {}", i, lname(&gl), lname(&nlab(l)));
            }
            for &j in pairs.with(i).iter() {
                let want = m.edge(i, j);
                if g.has_edge(nid(i), nid(j)) != want.is_some() {
                    bad!("has_edge({},{}) = {}, expected {}", i, j, g.has_edge(nid(i), nid(j)), want.is_some());
                }
                let e = g.get_edge(nid(i), nid(j));
                if e.is_some() != want.is_some() || e.is_none() == want.is_some() {
                    bad!("get_edge({},{}) present: {}, expected {}", i, j, e.is_some(), want.is_some());
                }
                let l = want.flatten();
                if want.is_some() {
                    let got = (e.get_start().id(), e.get_target().id());
                    if got != (i, j) && (m.directed || got != (j, i)) {
                        bad!("get_edge({},{}) is edge {:?}", i, j, got);
                    }
                    let x = e.clone().unwrap();
                    if (x.get_start(), x.get_target(), x.get_label_id(), x.is_some(), x.is_none()) != (e.get_start(), e.get_target(), e.get_label_id(), true, false) {
                        bad!("get_edge({},{}) is {:?} and holds {:?} (is_some {}, is_none {})", i, j, e, x, x.is_some(), x.is_none());
                    }
                }
                let got = e.get_label_id().map(|x| x.id());
                if on(LABELIDS) {
                    if got != letter_id(&m.emap, l) {
                        bad!("edge ({},{}) has label id {:?}, expected {:?}", i, j, got, letter_id(&m.emap, l));
                    }
                } else if got.is_some() != l.is_some() {
                    bad!("edge ({},{}) has label id {:?}, expected {}", i, j, got, lname(&elab(l)));
                }
                let gl = g.get_edge_label(nid(i), nid(j));
                if gl != elab(l).as_ref() {
                    bad!("edge ({},{}) carries {}, expected {}", i, j, lname(&gl), lname(&elab(l)));
                }
            }
        }
    }
    if on(COUNT) {
        if g.node_count() != m.nodes.len() {
            bad!("node_count() = {}, but there are {} nodes", g.node_count(), m.nodes.len());
        }
        if g.edge_count() != m.edges.len() {
            bad!("edge_count() = {}, but there are {} edges", g.edge_count(), m.edges.len());
        }
    }
    if on(SYM) && !m.directed {
        let near = Pairs::new(m, &nodes);
        let mut lists: BTreeMap<usize, (Vec<usize>, Vec<usize>)> = BTreeMap::new();
        for &u in &nodes {
            let mut a: Vec<usize> = g.neighbors_iter(nid(u)).take(CAP).map(|w| w.id()).collect();
            let mut b: Vec<usize> = g.neighbors(nid(u)).iter().map(|w| w.id()).collect();
            a.sort_unstable();
            b.sort_unstable();
            lists.insert(u, (a, b));
        }
        for &u in &nodes {
            for &v in near.with(u).iter() {
                let (a, b) = (g.has_edge(nid(u), nid(v)), g.has_edge(nid(v), nid(u)));
                if a != b {
                    bad!("edge ({},{}) present: {}, edge ({},{}) present: {}", u, v, a, v, u, b);
                }
                if a != m.has_edge(u, v) {
                    bad!("edge ({},{}) present: {}, expected {}", u, v, a, m.has_edge(u, v));
                }
                let (la, lb) = (g.get_edge_label(nid(u), nid(v)), g.get_edge_label(nid(v), nid(u)));
                if la != lb {
                    bad!("edge ({},{}) carries {}, edge ({},{}) carries {}", u, v, lname(&la), v, u, lname(&lb));
                }
                let (la, lb) = (
                    g.get_edge(nid(u), nid(v)).get_label_id(),
                    g.get_edge(nid(v), nid(u)).get_label_id(),
                );
                if la != lb {
                    bad!("edge ({},{}) has label id {:?}, edge ({},{}) has {:?}", u, v, la, v, u, lb);
                }
                let has = |l: &Vec<usize>, x: usize| l.binary_search(&x).is_ok();
                let (x, y) = (has(&lists[&u].0, v), has(&lists[&v].0, u));
                if x != y || x != a {
                    bad!("{} lists {} as neighbour: {}, {} lists {}: {}, edge present: {}", u, v, x, v, u, y, a);
                }
                let (x, y) = (has(&lists[&u].1, v), has(&lists[&v].1, u));
                if x != y || x != a {
                    bad!("neighbors({}) has {}: {}, neighbors({}) has {}: {}, edge present: {}", u, v, x, v, u, y, a);
                }
            }
        }
    }
    if on(INOUT) && m.directed {
        let d = match g.as_digraph() {
            Some(d) => d,
            None => bad!("a directed graph without directed interface"),
        };
        let adj = Adj::new(m);
        for &v in &nodes {
            let out: Vec<usize> = g.neighbors_iter(nid(v)).take(CAP).map(|x| x.id()).collect();
            let inn: Vec<usize> = d.in_neighbors_iter(nid(v)).take(CAP).map(|x| x.id()).collect();
            if out != adj.out(v) {
                bad!("out-neighbours of {} are {:?}, expected {:?}", v, out, adj.out(v));
            }
            if inn != adj.inn(v) {
                bad!("in-neighbours of {} are {:?}, expected {:?}", v, inn, adj.inn(v));
            }
            let inn2: Vec<usize> = d.in_neighbors(nid(v)).iter().map(|x| x.id()).collect();
            if inn2 != inn {
                bad!("in_neighbors({}) = {:?} but in_neighbors_iter lists {:?}", v, inn2, inn);
            }
            if d.in_degree(nid(v)) != inn.len() || g.degree(nid(v)) != out.len() {
                bad!("node {}: in_degree {} / degree {}, but {} in- and {} out-neighbours", v, d.in_degree(nid(v)), g.degree(nid(v)), inn.len(), out.len());
            }
            if let NodeType::NodeMap(n) = g.get_node(nid(v)) {
                let a: Vec<usize> = n.in_neighbors().iter().map(|x| x.id()).collect();
                if a != inn || n.in_degree() != inn.len() || inn.iter().any(|&u| !n.has_in_neighbor(nid(u))) {
                    bad!("node object of {} reports in-neighbours {:?}, in-degree {}, expected {:?}", v, a, n.in_degree(), inn);
                }
            }
        }
        let near = Pairs::new(m, &nodes);
        for &v in &nodes {
            // equal to the model's, sorted
            let inn = adj.inn(v);
            for &u in near.with(v).iter() {
                let e = g.has_edge(nid(u), nid(v));
                let i = inn.binary_search(&u).is_ok();
                if e != i {
                    bad!("edge ({},{}) present: {}, but {} is in-neighbour of {}: {}", u, v, e, u, v, i);
                }
            }
        }
    }
    if on(ENUM) {
        enumerations::<C>(g, m, asp, who)?;
    }
    if on(DICT) {
        let nm: Vec<C::N> = m.nmap.iter().map(|&k| C::N::mk(k)).collect();
        let em: Vec<C::E> = m.emap.iter().map(|&k| C::E::mk(k)).collect();
        dict(&nm, g.get_node_label_map(), "node", who)?;
        dict(&em, g.get_edge_label_map(), "edge", who)?;
        let a: Vec<&C::N> = g.node_labels().take(CAP).collect();
        if a != nm.iter().collect::<Vec<_>>() {
            bad!("node_labels() lists {:?}, expected {:?}", a, nm);
        }
        let a: Vec<&C::E> = g.edge_labels().take(CAP).collect();
        if a != em.iter().collect::<Vec<_>>() {
            bad!("edge_labels() lists {:?}, expected {:?}", a, em);
        }
        if g.num_of_node_labels() != nm.len() || g.num_of_edge_labels() != em.len() {
            bad!("num_of_*_labels() = {}, {}, expected {}, {}", g.num_of_node_labels(), g.num_of_edge_labels(), nm.len(), em.len());
        }
        if g.has_node_labels() != !nm.is_empty() || g.has_edge_labels() != !em.is_empty() {
            bad!("has_*_labels() = {}, {}, expected {}, {}", g.has_node_labels(), g.has_edge_labels(), !nm.is_empty(), !em.is_empty());
        }
        for (&i, &l) in &m.nodes {
            let got = g.get_node(nid(i)).get_label_id().map(|x| x.id());
            if got != letter_id(&m.nmap, l) {
                bad!("node {} has label id {:?}, expected {:?}", i, got, letter_id(&m.nmap, l));
            }
        }
        for (&(s, t), &l) in &m.edges {
            let got = g.get_edge(nid(s), nid(t)).get_label_id().map(|x| x.id());
            if got != letter_id(&m.emap, l) {
                bad!("edge ({},{}) has label id {:?}, expected {:?}", s, t, got, letter_id(&m.emap, l));
            }
        }
    }
    if on(MAXID) {
        let got = g.max_seen_id().map(|x| x.id());
        let want = if who.starts_with("mutable") { m.max } else { m.nodes.keys().max().copied() };
        if got != want {
            bad!("max_seen_id() = {:?}, expected {:?}", got, want);
        }
    }
    if on(STATS) {
        stats::<C>(g, m, who)?;
    }
    if on(ABSENT) {
        // handles of what is absent have nothing inside
        if let Some(&i) = ids.iter().find(|i| !m.nodes.contains_key(i)) {
            if ids.len() < 30 {
                let a = [
                    guard(|| g.get_node(nid(i)).get_id().id()).ok(),
                    guard(|| g.get_edge(nid(i), nid(i)).get_start().id()).ok(),
                    guard(|| g.get_edge(nid(i), nid(i)).get_target().id()).ok(),
                    guard(|| g.get_edge(nid(i), nid(i)).unwrap().get_start().id()).ok(),
                ];
                if a.iter().any(|x| x.is_some()) {
                    bad!("handles of the absent node {0} and edge ({0},{0}) name the ids {1:?}", i, a);
                }
            }
        }
        for &i in ids {
            let present = m.nodes.contains_key(&i);
            if !present {
                if g.has_node(nid(i)) {
                    bad!("has_node({}) is true for an absent node", i);
                }
                if g.get_node(nid(i)).is_some() {
                    bad!("get_node({}) of an absent node returned one", i);
                }
                if g.get_node(nid(i)).get_label_id().is_some() || g.get_node_label(nid(i)).is_some() {
                    bad!("absent node {} has a label", i);
                }
            } else if !g.has_node(nid(i)) || g.get_node(nid(i)).is_none() {
                bad!("present node {} is not found", i);
            }
            for &j in pairs.with(i).iter() {
                if !m.has_edge(i, j) {
                    if g.has_edge(nid(i), nid(j)) {
                        bad!("has_edge({},{}) is true for an absent edge", i, j);
                    }
                    if g.get_edge(nid(i), nid(j)).is_some() {
                        bad!("get_edge({},{}) of an absent edge returned one", i, j);
                    }
                    if g.get_edge(nid(i), nid(j)).get_label_id().is_some() || g.get_edge_label(nid(i), nid(j)).is_some() {
                        bad!("absent edge ({},{}) has a label", i, j);
                    }
                } else if !g.has_edge(nid(i), nid(j)) || g.get_edge(nid(i), nid(j)).is_none() {
                    bad!("present edge ({},{}) is not found", i, j);
                }
            }
        }
    }
    Ok(())
}

fn dict<T: Lab>(want: &[T], map: &rust_graph::map::SetMap<T>, kind: &str, who: &str) -> Res {
    macro_rules! bad { ($($t:tt)*) => { return Err(format!("{} graph: {} label dictionary: {}", who, kind, format!($($t)*))) }; }
    let items: Vec<&T> = map.items().take(CAP).collect();
    if items != want.iter().collect::<Vec<_>>() {
        bad!("lists {:?}, expected {:?}", items, want);
    }
    if map.len() != want.len() {
        bad!("len() = {}, expected {}", map.len(), want.len());
    }
    for (i, w) in want.iter().enumerate() {
        if map.get_item(i) != Some(w) {
            bad!("id {} is {:?}, expected {:?}", i, map.get_item(i), w);
        }
        if map.find_index(w) != Some(i) {
            bad!("{:?} has id {:?}, expected {}", w, map.find_index(w), i);
        }
        if !map.contains(w) {
            bad!("{:?} is not contained", w);
        }
    }
    if map.get_item(want.len()).is_some() {
        bad!("unused id {} is {:?}", want.len(), map.get_item(want.len()));
    }
    for k in 0..8 {
        let l = T::mk(k);
        if (map.contains(&l) || map.find_index(&l).is_some()) && !want.contains(&l) {
            bad!("never used label {:?} has an id", l);
        }
    }
    Ok(())
}

/// The iterator protocol: `count` and `size_hint` fit what is listed, at first (`step` 0) or after one step.
fn protocol<T>(mut it: rust_graph::generic::Iter<T>, step: usize, n: usize) -> Res {
    let left = n.saturating_sub(step);
    if step == 1 {
        it.next();
    }
    let (lo, hi) = it.size_hint();
    want!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint() is ({}, {:?}) with {} to come", lo, hi, left);
    let c = it.count();
    want!(c == left, "count() is {} with {} to come", c, left);
    Ok(())
}

fn enumerations<C: Cfg>(g: &Gen<C>, m: &Model, asp: u32, who: &str) -> Res {
    let nid = |i: usize| C::Id::new(i);
    let ids = asp & LABELIDS != 0;
    macro_rules! bad { ($($t:tt)*) => { return Err(format!("{} graph: {}", who, format!($($t)*))) }; }
    let nodes: Vec<usize> = m.nodes.keys().copied().collect();
    let edges: Vec<(usize, usize)> = m.edges.keys().copied().collect();
    let adj = Adj::new(m);
    let cap_n = nodes.len() + 50;
    let cap_e = edges.len() + 50;

    let mut a: Vec<usize> = g.node_indices().take(cap_n).map(|x| x.id()).collect();
    a.sort();
    if a != nodes {
        bad!("node_indices() lists {:?}, expected {:?}", a, nodes);
    }
    let mut a: Vec<(usize, Option<usize>)> =
        g.nodes().take(cap_n).map(|n| (n.get_id().id(), n.get_label_id().map(|x| x.id()))).collect();
    a.sort();
    if a.iter().map(|x| x.0).collect::<Vec<_>>() != nodes {
        bad!("nodes() lists {:?}, expected nodes {:?}", a, nodes);
    }
    for (i, l) in &a {
        let want = m.nodes[i];
        let ok = if ids { *l == letter_id(&m.nmap, want) } else { label_ok::<C::N>(*l, want, g.get_node_label_map()) };
        if !ok {
            bad!("nodes() yields node {} with label id {:?}, expected {:?}", i, l, want.map(C::N::mk));
        }
    }
    let norm = |(s, t): (usize, usize)| m.key(s, t);
    let mut a: Vec<(usize, usize)> =
        g.edge_indices().take(cap_e).map(|(s, t)| norm((s.id(), t.id()))).collect();
    a.sort();
    if a != edges {
        bad!("edge_indices() lists {:?}, expected {:?}", a, edges);
    }
    let mut a: Vec<((usize, usize), Option<usize>)> = g
        .edges()
        .take(cap_e)
        .map(|e| (norm((e.get_start().id(), e.get_target().id())), e.get_label_id().map(|x| x.id())))
        .collect();
    a.sort();
    if a.iter().map(|x| x.0).collect::<Vec<_>>() != edges {
        bad!("edges() lists {:?}, expected edges {:?}", a, edges);
    }
    for (e, l) in &a {
        let want = m.edges[e];
        let ok = if ids { *l == letter_id(&m.emap, want) } else { label_ok::<C::E>(*l, want, g.get_edge_label_map()) };
        if !ok {
            bad!("edges() yields edge {:?} with label id {:?}, expected {:?}", e, l, want.map(C::E::mk));
        }
    }
    let p = |r: Res, what: &str| r.map_err(|e| format!("{} graph: {}: {}", who, what, e));
    for k in 0..2 {
        p(protocol(g.node_indices(), k, nodes.len()), "node_indices()")?;
    }
    for k in 0..2 {
        p(protocol(g.nodes(), k, nodes.len()), "nodes()")?;
    }
    for k in 0..2 {
        p(protocol(g.edge_indices(), k, edges.len()), "edge_indices()")?;
    }
    for k in 0..2 {
        p(protocol(g.edges(), k, edges.len()), "edges()")?;
    }
    for &v in &nodes {
        let want = adj.out(v);
        for k in 0..2 {
        p(protocol(g.neighbors_iter(nid(v)), k, want.len()), "neighbors_iter()")?;
    }
        let a: Vec<usize> = g.neighbors_iter(nid(v)).take(CAP).map(|x| x.id()).collect();
        let b: Vec<usize> = g.neighbors(nid(v)).iter().map(|x| x.id()).collect();
        if a != want {
            bad!("neighbors_iter({}) lists {:?}, expected {:?}", v, a, want);
        }
        if b != want {
            bad!("neighbors({}) = {:?}, expected {:?}", v, b, want);
        }
        if g.degree(nid(v)) != want.len() {
            bad!("degree({}) = {}, expected {}", v, g.degree(nid(v)), want.len());
        }
        if let NodeType::NodeMap(n) = g.get_node(nid(v)) {
            let a: Vec<usize> = n.neighbors_iter().take(CAP).map(|x| x.id()).collect();
            let b: Vec<usize> = n.neighbors().iter().map(|x| x.id()).collect();
            if a != want || b != want || n.degree() != want.len() {
                bad!("node object of {}: neighbours {:?} / {:?}, degree {}, expected {:?}", v, a, b, n.degree(), want);
            }
            for &w in want {
                let l = n.get_neighbor(nid(w)).map(|l| l.map(|x| x.id()));
                if !n.has_neighbor(nid(w)) || (ids && l != Some(letter_id(&m.emap, m.edge(v, w).unwrap()))) {
                    bad!("node object of {}: neighbour {} has {:?}", v, w, l);
                }
            }
            let f: Vec<(usize, Option<usize>)> = n
                .neighbors_iter_full()
                .take(CAP)
                .map(|e| (e.get_target().id(), e.get_label_id().map(|x| x.id())))
                .collect();
            if f.iter().map(|x| x.0).collect::<Vec<_>>() != want {
                bad!("node object of {}: full neighbours {:?}, expected {:?}", v, f, want);
            }
            let up: Vec<usize> = want.iter().copied().filter(|&w| w >= v).collect();
            let a: Vec<usize> = n.non_less_neighbors_iter().take(CAP).map(|x| x.id()).collect();
            let b: Vec<usize> = n.non_less_neighbors_iter_full().take(CAP).map(|x| x.get_target().id()).collect();
            if a != up || b != up {
                bad!("node object of {}: neighbours from itself on {:?} / {:?}, expected {:?}", v, a, b, up);
            }
            for &(w, l) in &f {
                let want = m.edge(v, w).unwrap();
                let ok = if ids { l == letter_id(&m.emap, want) } else { label_ok::<C::E>(l, want, g.get_edge_label_map()) };
                if !ok {
                    bad!("node object of {}: full neighbour {} has label id {:?}, expected {:?}", v, w, l, want.map(C::E::mk));
                }
            }
        }
        if let Some(d) = g.as_digraph() {
            let want = adj.inn(v);
            for k in 0..2 {
        p(protocol(d.in_neighbors_iter(nid(v)), k, want.len()), "in_neighbors_iter()")?;
    }
            let a: Vec<usize> = d.in_neighbors_iter(nid(v)).take(CAP).map(|x| x.id()).collect();
            let b: Vec<usize> = d.in_neighbors(nid(v)).iter().map(|x| x.id()).collect();
            if a != want || b != want || d.in_degree(nid(v)) != want.len() {
                bad!("in-neighbours of {}: {:?} / {:?}, in-degree {}, expected {:?}", v, a, b, d.in_degree(nid(v)), want);
            }
        }
    }
    Ok(())
}

fn label_ok<T: Lab>(id: Option<usize>, want: Lb, map: &rust_graph::map::SetMap<T>) -> bool {
    match (id, want) {
        (None, None) => true,
        (Some(i), Some(k)) => map.get_item(i) == Some(&T::mk(k)),
        _ => false,
    }
}

/// Mutable enumeration forms.
pub fn enum_mut<C: Cfg>(g: &mut MutG<'_, C>, m: &Model) -> Res {
    let mut a: Vec<(usize, Option<usize>)> = g
        .nodes_mut()
        .take(m.nodes.len() + 50)
        .map(|n| {
            let (some, none) = (n.is_some(), n.is_none());
            let n = n.unwrap_nodemap_ref();
            if !some || none || !n.is_some() || n.is_none() {
                return (usize::MAX, None);
            }
            (n.get_id().id(), n.get_label_id().map(|x| x.id()))
        })
        .collect();
    a.sort();
    let want: Vec<(usize, Option<usize>)> = m.nodes.iter().map(|(&i, &l)| (i, letter_id(&m.nmap, l))).collect();
    for k in 0..2 {
        protocol(g.nodes_mut(), k, want.len()).map_err(|e| format!("mutable graph: nodes_mut(): {}", e))?;
    }
    want!(a == want, "mutable graph: nodes_mut() lists {:?}, expected {:?}", a, want);
    let mut a: Vec<((usize, usize), Option<usize>)> = g
        .edges_mut()
        .take(m.edges.len() + 50)
        .map(|e| {
            let (some, none) = (e.is_some(), e.is_none());
            let e = e.unwrap_edge_ref();
            if !some || none || !e.is_some() || e.is_none() {
                return ((usize::MAX, usize::MAX), None);
            }
            (m.key(e.get_start().id(), e.get_target().id()), e.get_label_id().map(|x| x.id()))
        })
        .collect();
    a.sort();
    let want: Vec<((usize, usize), Option<usize>)> = m.edges.iter().map(|(&i, &l)| (i, letter_id(&m.emap, l))).collect();
    for k in 0..2 {
        protocol(g.edges_mut(), k, want.len()).map_err(|e| format!("mutable graph: edges_mut(): {}", e))?;
    }
    want!(a == want, "mutable graph: edges_mut() lists {:?}, expected {:?}", a, want);
    Ok(())
}

fn stats<C: Cfg>(g: &Gen<C>, m: &Model, who: &str) -> Res {
    macro_rules! bad { ($($t:tt)*) => { return Err(format!("{} graph: {}", who, format!($($t)*))) }; }
    let mut wn: BTreeMap<C::N, usize> = BTreeMap::new();
    for l in m.nodes.values().flatten() {
        *wn.entry(C::N::mk(*l)).or_default() += 1;
    }
    let mut we: BTreeMap<C::E, usize> = BTreeMap::new();
    for l in m.edges.values().flatten() {
        *we.entry(C::E::mk(*l)).or_default() += 1;
    }
    let got: BTreeMap<C::N, usize> =
        g.get_node_label_counter().iter().filter(|(_, &n)| n > 0).map(|(k, &n)| ((*k).clone(), n)).collect();
    if got != wn {
        bad!("get_node_label_counter() = {:?}, expected {:?}", got, wn);
    }
    let got: BTreeMap<C::E, usize> =
        g.get_edge_label_counter().iter().filter(|(_, &n)| n > 0).map(|(k, &n)| ((*k).clone(), n)).collect();
    if got != we {
        bad!("get_edge_label_counter() = {:?}, expected {:?}", got, we);
    }
    let mut got: BTreeMap<C::N, usize> = BTreeMap::new();
    for (k, &n) in g.get_node_label_id_counter().iter().filter(|(_, &n)| n > 0) {
        match g.get_node_label_map().get_item(k.id()) {
            Some(l) => *got.entry(l.clone()).or_default() += n,
            None => bad!("get_node_label_id_counter() counts unknown label id {:?}", k),
        }
    }
    if got != wn {
        bad!("get_node_label_id_counter() amounts to {:?}, expected {:?}", got, wn);
    }
    let mut got: BTreeMap<C::E, usize> = BTreeMap::new();
    for (k, &n) in g.get_edge_label_id_counter().iter().filter(|(_, &n)| n > 0) {
        match g.get_edge_label_map().get_item(k.id()) {
            Some(l) => *got.entry(l.clone()).or_default() += n,
            None => bad!("get_edge_label_id_counter() counts unknown label id {:?}", k),
        }
    }
    if got != we {
        bad!("get_edge_label_id_counter() amounts to {:?}, expected {:?}", got, we);
    }
    Ok(())
}

/// What a graph contains, read through lookups only (letters 0..letters), over the given ids.
pub fn content<C: Cfg>(g: &Gen<C>, ids: &[usize], letters: Letter) -> Result<Model, String> {
    let mut m = Model::new(g.is_directed());
    for &i in ids {
        if g.has_node(C::Id::new(i)) {
            let l = match g.get_node_label(C::Id::new(i)) {
                None => None,
                Some(x) => Some(
                    (0..letters).find(|&k| &C::N::mk(k) == x).ok_or_else(|| format!("node {} has foreign label {:?}", i, x))?,
                ),
            };
            m.nodes.insert(i, l);
        }
    }
    for &i in ids {
        for &j in ids {
            if (m.directed || i <= j) && g.has_edge(C::Id::new(i), C::Id::new(j)) {
                let l = match g.get_edge_label(C::Id::new(i), C::Id::new(j)) {
                    None => None,
                    Some(x) => Some(
                        (0..letters)
                            .find(|&k| &C::E::mk(k) == x)
                            .ok_or_else(|| format!("edge ({},{}) has foreign label {:?}", i, j, x))?,
                    ),
                };
                m.edges.insert((i, j), l);
            }
        }
    }
    Ok(m)
}

/// A full comparison without dictionary ids: the graph is the model's graph as far as nodes, edges and
/// labels go, in every form of query.
pub fn same_graph<C: Cfg>(g: &Gen<C>, m: &Model, who: &str) -> Res {
    let ids = probe_ids::<C>(m, &[]);
    view::<C>(g, m, LOOK | COUNT | SYM | INOUT | ENUM, who, &ids)
}
