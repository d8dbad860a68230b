//! C36 (adjacency records of single nodes), C37 (graphs behind the general interface).
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;

use mc::core::*;
use mc::explore::*;
use mc::fam::*;
use mc::util::*;
use mc::view::*;
use mc::Prop;
use rust_graph::generic::{
    EdgeTrait, EdgeType, IdType, MutEdgeTrait, MutEdgeType, MutNodeMapTrait, MutNodeTrait, MutNodeType, NodeMapTrait, NodeTrait,
    NodeType, OwnedEdgeType, OwnedNodeType,
};
use rust_graph::generic::node::{NodeMap, StaticNode};
use rust_graph::generic::{Edge, MutEdge};
use rust_graph::graph_impl::GraphImpl;

// ---------------------------------------------------------------- C36

type Lab2 = Option<usize>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
struct NM {
    id: usize,
    label: Lab2,
    out: BTreeMap<usize, Lab2>,
    inn: BTreeSet<usize>,
}

#[derive(Clone, Copy, Debug)]
enum NOp {
    AddIn(usize),
    Add(usize, Lab2),
    RemIn(usize),
    Rem(usize),
    Label(Lab2),
    /// through get_neighbor_mut
    Set(usize, Lab2),
    /// through neighbors_iter_mut: every `1`-st or second entry
    SetAll(Lab2, bool),
    /// through non_less_neighbors_iter_mut
    SetUpper(Lab2),
    /// through the wrapper types
    Wrapped(Lab2),
    Clone,
}

trait IdT: IdType + 'static {}
impl<T: IdType + 'static> IdT for T {}

fn lid<L: IdT>(l: Lab2) -> Option<L> {
    l.map(L::new)
}
fn un<L: IdT>(l: Option<L>) -> Lab2 {
    l.map(|x| x.id())
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn edge<Id: IdT, L: IdT>(e: &impl EdgeTrait<Id, L>) -> (usize, usize, Lab2) {
    (e.get_start().id(), e.get_target().id(), un(e.get_label_id()))
}

fn napply<Id: IdT, L: IdT>(n: &mut NodeMap<Id, L>, m: &mut NM, op: NOp) -> Res {
    match op {
        NOp::AddIn(a) => {
            let (r, e) = (n.add_in_edge(Id::new(a)), m.inn.insert(a));
            want!(r == e, "add_in_edge({}) returned {}, the entry was {}", a, r, if e { "new" } else { "present" });
        }
        NOp::Add(a, l) => {
            let (r, e) = (n.add_edge(Id::new(a), lid(l)), m.out.insert(a, l).is_none());
            want!(r == e, "add_edge({}) returned {}, the entry was {}", a, r, if e { "new" } else { "present" });
        }
        NOp::RemIn(a) => {
            let (r, e) = (n.remove_in_edge(Id::new(a)), m.inn.remove(&a));
            want!(r == e, "remove_in_edge({}) returned {}, the entry was present: {}", a, r, e);
        }
        NOp::Rem(a) => {
            let r = n.remove_edge(Id::new(a));
            match (m.out.remove(&a), &r) {
                (None, OwnedEdgeType::None) => want!(r.is_none() && !r.is_some(), "remove_edge({}) of nothing is_none(): {}", a, r.is_none()),
                (Some(l), OwnedEdgeType::Edge(e)) => {
                    let want = (m.id, a, l);
                    want!(!r.is_none() && r.is_some(), "remove_edge({}) returned an edge that is_none()", a);
                    want!(edge(&r) == want && edge(e) == want, "remove_edge({}) returned {:?} / {:?}, expected {:?}", a, edge(&r), edge(e), want);
                }
                (e, _) => return Err(format!("remove_edge({}) returned {:?}, had {:?}", a, r, e)),
            }
        }
        NOp::Label(l) => {
            n.set_label_id(lid(l));
            m.label = l;
        }
        NOp::Set(a, l) => {
            let mut h = n.get_neighbor_mut(Id::new(a));
            let had = m.out.get(&a).copied();
            want!(h.is_some() == had.is_some() && h.is_none() == had.is_none(), "get_neighbor_mut({}) present: {}, expected {}", a, h.is_some(), had.is_some());
            if let Some(x) = had {
                want!(edge(&h) == (m.id, a, x), "get_neighbor_mut({}) is {:?}, expected {:?}", a, edge(&h), (m.id, a, x));
                h.set_label_id(lid(l));
                want!(edge(&h) == (m.id, a, l), "get_neighbor_mut({}) after a change is {:?}, expected {:?}", a, edge(&h), (m.id, a, l));
                m.out.insert(a, l);
            }
        }
        NOp::SetAll(l, every) => {
            let got: Vec<_> = n
                .neighbors_iter_mut()
                .take(m.out.len() + 9)
                .enumerate()
                .map(|(k, mut e)| {
                    let was = edge(&e);
                    if every || k % 2 == 1 {
                        e.set_label_id(lid(l));
                    }
                    was
                })
                .collect();
            let want: Vec<_> = m.out.iter().map(|(&a, &l)| (m.id, a, l)).collect();
            want!(got == want, "neighbors_iter_mut() yields {:?}, expected {:?}", got, want);
            for (k, x) in m.out.values_mut().enumerate() {
                if every || k % 2 == 1 {
                    *x = l;
                }
            }
        }
        NOp::SetUpper(l) => {
            let got: Vec<_> = n
                .non_less_neighbors_iter_mut()
                .take(m.out.len() + 9)
                .map(|e| {
                    let was = edge(&e);
                    let mut e = e.unwrap_edge_ref();
                    e.set_label_id(lid(l));
                    was
                })
                .collect();
            let id = m.id;
            let want: Vec<_> = m.out.range(id..).map(|(&a, &l)| (id, a, l)).collect();
            want!(got == want, "non_less_neighbors_iter_mut() yields {:?}, expected {:?}", got, want);
            for (_, x) in m.out.range_mut(id..) {
                *x = l;
            }
        }
        NOp::Wrapped(l) => {
            let (id, was) = (m.id, m.label);
            let mut h = MutNodeType::NodeMapRef(n);
            want!(h.is_some() && !h.is_none() && h.get_id().id() == id && un(h.get_label_id()) == was, "a handle reads {:?}, expected id {} label {:?}", h, id, was);
            h.set_label_id(lid(l));
            want!(un(h.get_label_id()) == l, "a handle reads label {:?} after setting {:?}", un(h.get_label_id()), l);
            let n = h.unwrap_nodemap_ref();
            want!(n.get_id().id() == id && un(n.get_label_id()) == l, "the node in a handle reads {:?}, expected id {} label {:?}", n, id, l);
            m.label = l;
        }
        NOp::Clone => {
            let c = n.clone();
            want!(c == *n && hash(&c) == hash(n), "a clone differs: {:?} and {:?}", c, n);
            let mut old = std::mem::replace(n, c);
            // the copy is a deep one
            for &a in m.out.keys() {
                old.remove_edge(Id::new(a));
            }
            for &a in &m.inn {
                old.remove_in_edge(Id::new(a));
            }
            old.set_label_id(Some(L::new(2)));
        }
    }
    Ok(())
}

fn iter_ok<T: PartialEq + std::fmt::Debug>(what: &str, mk: &dyn Fn() -> Vec<T>, want: &[T]) -> Res {
    let got = mk();
    want!(got == want, "{} lists {:?}, expected {:?}", what, got, want);
    Ok(())
}

fn proto<T>(what: &str, mut it: rust_graph::generic::Iter<T>, n: usize) -> Res {
    for left in [n, n.saturating_sub(1)] {
        let (lo, hi) = it.size_hint();
        want!(lo <= left && hi.map_or(true, |h| h >= left), "{}: size_hint() is ({}, {:?}) with {} to come", what, lo, hi, left);
        it.next();
    }
    let c = it.count();
    want!(c == n.saturating_sub(2), "{}: count() is {} with {} to come", what, c, n.saturating_sub(2));
    Ok(())
}

fn nview<Id: IdT, L: IdT>(n: &NodeMap<Id, L>, m: &NM, ids: &[usize]) -> Res {
    want!(n.get_id().id() == m.id && un(n.get_label_id()) == m.label, "the record reads id {:?} label {:?}, expected {:?}", n.get_id(), n.get_label_id(), m);
    want!(n.is_some() && !n.is_none(), "a record is_none()");
    want!(n.degree() == m.out.len(), "degree() is {}, expected {}", n.degree(), m.out.len());
    want!(n.in_degree() == m.inn.len(), "in_degree() is {}, expected {}", n.in_degree(), m.inn.len());
    for &a in ids {
        let x = Id::new(a);
        want!(n.has_neighbor(x) == m.out.contains_key(&a), "has_neighbor({}) is {}", a, n.has_neighbor(x));
        want!(n.has_in_neighbor(x) == m.inn.contains(&a), "has_in_neighbor({}) is {}", a, n.has_in_neighbor(x));
        let (got, want) = (n.get_neighbor(x).map(un), m.out.get(&a).copied());
        want!(got == want, "get_neighbor({}) is {:?}, expected {:?}", a, got, want);
    }
    let cap = m.out.len() + m.inn.len() + 9;
    let v = |it: &mut dyn Iterator<Item = Id>| -> Vec<usize> { it.take(cap).map(|x| x.id()).collect() };
    let f = |it: &mut dyn Iterator<Item = Edge<Id, L>>| -> Vec<(usize, usize, Lab2)> { it.take(cap).map(|e| edge(&e)).collect() };
    let out: Vec<usize> = m.out.keys().copied().collect();
    let inn: Vec<usize> = m.inn.iter().copied().collect();
    let up: Vec<usize> = m.out.range(m.id..).map(|x| *x.0).collect();
    let full: Vec<_> = m.out.iter().map(|(&a, &l)| (m.id, a, l)).collect();
    let upf: Vec<_> = m.out.range(m.id..).map(|(&a, &l)| (m.id, a, l)).collect();
    iter_ok("neighbors_iter()", &|| v(&mut n.neighbors_iter()), &out)?;
    iter_ok("neighbors()", &|| v(&mut n.neighbors().into_iter()), &out)?;
    iter_ok("in_neighbors_iter()", &|| v(&mut n.in_neighbors_iter()), &inn)?;
    iter_ok("in_neighbors()", &|| v(&mut n.in_neighbors().into_iter()), &inn)?;
    iter_ok("non_less_neighbors_iter()", &|| v(&mut n.non_less_neighbors_iter()), &up)?;
    iter_ok("neighbors_iter_full()", &|| f(&mut n.neighbors_iter_full()), &full)?;
    iter_ok("non_less_neighbors_iter_full()", &|| f(&mut n.non_less_neighbors_iter_full()), &upf)?;
    proto("neighbors_iter()", n.neighbors_iter(), out.len())?;
    proto("in_neighbors_iter()", n.in_neighbors_iter(), inn.len())?;
    proto("non_less_neighbors_iter()", n.non_less_neighbors_iter(), up.len())?;
    proto("neighbors_iter_full()", n.neighbors_iter_full(), out.len())?;
    proto("non_less_neighbors_iter_full()", n.non_less_neighbors_iter_full(), up.len())?;
    // as the library hands it out
    let t = NodeType::NodeMap(n);
    want!(t.is_some() && !t.is_none() && t.get_id().id() == m.id && un(t.get_label_id()) == m.label, "wrapped, the record reads {:?}", t);
    want!(std::ptr::eq(t.clone().unwrap_nodemap(), n), "unwrap_nodemap() is another record");
    want!(guard(|| t.clone().unwrap_staticnode()).is_err(), "unwrap_staticnode() of an adjacency record is {:?}", t.clone().unwrap_staticnode());
    let o = OwnedNodeType::NodeMap(n.clone());
    want!(o.is_some() && !o.is_none() && o.get_id().id() == m.id && un(o.get_label_id()) == m.label, "owned, the record reads {:?}", o);
    Ok(())
}

fn nops(adj: &[usize], labels: &[Lab2], muts: bool) -> Vec<NOp> {
    let mut v = vec![];
    for &a in adj {
        v.extend([NOp::AddIn(a), NOp::RemIn(a), NOp::Rem(a)]);
        for &l in labels {
            v.push(NOp::Add(a, l));
            if muts {
                v.push(NOp::Set(a, l));
            }
        }
    }
    for &l in labels {
        v.push(NOp::Label(l));
        if muts {
            v.extend([NOp::SetAll(l, true), NOp::SetAll(l, false), NOp::SetUpper(l), NOp::Wrapped(l)]);
        }
    }
    v.push(NOp::Clone);
    v
}

fn nfix<Id: IdT, L: IdT>(name: &str, id: usize, adj: &[usize], labels: &[Lab2], first: Lab2) -> Vec<(NodeMap<Id, L>, NM)>
where
    NodeMap<Id, L>: Clone,
{
    let ops = nops(adj, labels, true);
    let mut ids: Vec<usize> = adj.to_vec();
    for &a in adj {
        ids.extend([a.saturating_sub(1), a.saturating_add(1).min(Id::max_value().id())]);
    }
    ids.extend([0, id, Id::max_value().id()]);
    ids.sort();
    ids.dedup();
    let mut all: Vec<(NodeMap<Id, L>, NM)> = vec![(NodeMap::new(Id::new(id), lid(first)), NM { id, label: first, out: BTreeMap::new(), inn: BTreeSet::new() })];
    if !case(|| format!("{} a new record", name), || nview(&all[0].0, &all[0].1, &ids)) {
        return all;
    }
    // the record's own contents, so that a drift between it and the model is a state of its own
    let key = |n: &NodeMap<Id, L>, m: &NM| format!("{:?} {:?}", n, m);
    let mut seen: HashSet<String> = [key(&all[0].0, &all[0].1)].into_iter().collect();
    let (mut at, mut tr) = (0, 0u64);
    while at < all.len() {
        for &op in &ops {
            let (mut n, mut m) = all[at].clone();
            tr += 1;
            let ok = case(
                || format!("{} {:?}, then {:?}", name, all[at].1, op),
                || {
                    napply(&mut n, &mut m, op)?;
                    nview(&n, &m, &ids)
                },
            );
            if !ok {
                return all;
            }
            if seen.insert(key(&n, &m)) {
                all.push((n, m));
            }
        }
        at += 1;
    }
    run().states.fetch_add(all.len() as u64, Relaxed);
    run().transitions.fetch_add(tr, Relaxed);
    run().validated.fetch_add(tr, Relaxed);
    part(name, format!("{} states, {} transitions, fixpoint", all.len(), tr));
    all
}

/// Equality and hashing over all pairs of records, the second of each built in another order.
fn npairs<Id: IdT, L: IdT>(name: &str, all: &[(NodeMap<Id, L>, NM)]) {
    struct S<'a, Id: IdT, L: IdT>(&'a [(NodeMap<Id, L>, NM)], Vec<(NodeMap<Id, L>, NM)>);
    unsafe impl<'a, Id: IdT, L: IdT> Sync for S<'a, Id, L> {}
    let other: Vec<_> = all
        .iter()
        .map(|(_, m)| {
            let mut n = NodeMap::new(Id::new(m.id), None);
            for &a in m.inn.iter().rev() {
                n.add_in_edge(Id::new(a));
            }
            for (&a, &l) in m.out.iter().rev() {
                n.add_edge(Id::new(a), lid(Some(1)));
                n.add_edge(Id::new(a), lid(l));
            }
            n.set_label_id(lid(m.label));
            (n, m.clone())
        })
        .collect();
    let s = S(all, other);
    let s = &s;
    par_for(s.0.len(), 8, |i| {
        let (n, m) = &s.0[i];
        case(
            || format!("{} {:?} against every record", name, m),
            || {
                for (n2, m2) in &s.1 {
                    let same = m == m2;
                    want!((n == n2) == same && (n2 == n) == same && (n != n2) != same, "{:?} and {:?} compare equal: {}", m, m2, n == n2);
                    want!(!same || hash(n) == hash(n2), "equal records {:?} hash differently", m);
                    let (a, b) = (NodeType::NodeMap(n), NodeType::NodeMap(n2));
                    want!((a == b) == same, "wrapped, {:?} and {:?} compare equal: {}", m, m2, a == b);
                }
                Ok(())
            },
        );
    });
}

/// Long records: every operation on records of `n` entries, forwards and backwards.
fn nlong<Id: IdT, L: IdT>(name: &str, id: usize, n: usize, step: usize) {
    let top = Id::max_value().id();
    let ids: Vec<usize> = (0..n).map(|k| (k * step).min(top)).collect();
    for rev in [false, true] {
        case(
            || format!("{} {} entries {}", name, n, if rev { "backwards" } else { "forwards" }),
            || {
                let mut r: NodeMap<Id, L> = NodeMap::new(Id::new(id), None);
                let mut m = NM { id, label: None, out: BTreeMap::new(), inn: BTreeSet::new() };
                let order: Vec<usize> = if rev { ids.iter().rev().copied().collect() } else { ids.clone() };
                let mut go = |op: NOp, look: bool| -> Res {
                    napply(&mut r, &mut m, op)?;
                    run().transitions.fetch_add(1, Relaxed);
                    if look {
                        nview(&r, &m, &ids)?;
                    }
                    Ok(())
                };
                for (k, &a) in order.iter().enumerate() {
                    go(NOp::Add(a, if k % 3 == 0 { None } else { Some(k % 5) }), k % 16 == 0)?;
                    go(NOp::AddIn(order[n - 1 - k]), k % 16 == 0)?;
                }
                for op in [NOp::SetAll(Some(3), false), NOp::SetUpper(Some(4)), NOp::Wrapped(Some(1)), NOp::Clone] {
                    go(op, true)?;
                }
                for (k, &a) in order.iter().enumerate() {
                    go(NOp::Set(a, Some(k % 4)), k % 16 == 0)?;
                    if k % 2 == 0 {
                        go(NOp::Rem(a), k % 16 == 0)?;
                        go(NOp::RemIn(a), k % 16 == 0)?;
                    }
                    go(NOp::Add(a, None), k % 16 == 0)?;
                    go(NOp::Rem(a), k % 16 == 0)?;
                    go(NOp::Rem(a), k % 16 == 0)?;
                }
                run().states.fetch_add(1, Relaxed);
                Ok(())
            },
        );
    }
}

/// Plain value types: every combination of small and extreme ids and labels.
fn nvalues<Id: IdT, L: IdT>(name: &str) {
    let (ti, tl) = (Id::max_value().id(), L::max_value().id());
    let ids = [0, 1, 2, ti / 2, ti - 1, ti];
    let labels = [None, Some(0), Some(1), Some(tl / 2), Some(tl - 1), Some(tl)];
    for &s in &ids {
        case(
            || format!("{} values with id {}", name, s),
            || {
                for &l in &labels {
                    run().states.fetch_add(1, Relaxed);
                    let n: StaticNode<Id, L> = StaticNode::new(Id::new(s), lid(l));
                    let t: NodeType<Id, L> = NodeType::StaticNode(n.clone());
                    want!(n.get_id().id() == s && un(n.get_label_id()) == l && n.is_some(), "StaticNode::new({}, {:?}) is {:?}", s, l, n);
                    want!(t.is_some() && !t.is_none() && t.get_id().id() == s && un(t.get_label_id()) == l, "wrapped, {:?} is {:?}", n, t);
                    want!(t.clone().unwrap_staticnode() == n, "unwrap_staticnode() of {:?} differs", t);
                    want!(guard(|| t.clone().unwrap_nodemap().get_id()).is_err(), "unwrap_nodemap() of a static node works");
                    if let Some(x) = l {
                        let c: StaticNode<Id, L> = StaticNode::new_static(Id::new(s), L::new(x));
                        let w = if x == tl { None } else { Some(x) };
                        want!(c.get_id().id() == s && un(c.get_label_id()) == w, "StaticNode::new_static({}, {}) is {:?}", s, x, c);
                    }
                    for &d in &ids {
                        let e: Edge<Id, L> = Edge::new(Id::new(s), Id::new(d), lid(l));
                        want!(edge(&e) == (s, d, l) && e.is_some() && !e.is_none(), "Edge::new({}, {}, {:?}) is {:?}", s, d, l, e);
                        let t = EdgeType::Edge(e.clone());
                        want!(edge(&t) == (s, d, l) && t.is_some() && !t.is_none() && t.clone().unwrap() == e, "wrapped, {:?} is {:?}", e, t);
                        let o = OwnedEdgeType::Edge(e.clone());
                        want!(edge(&o) == (s, d, l) && o.is_some() && !o.is_none(), "owned, {:?} is {:?}", e, o);
                        if let Some(x) = l {
                            let c: Edge<Id, L> = Edge::new_static(Id::new(s), Id::new(d), L::new(x));
                            let w = if x == tl { None } else { Some(x) };
                            want!(edge(&c) == (s, d, w), "Edge::new_static({}, {}, {}) is {:?}", s, d, x, c);
                        }
                        for &l2 in &labels {
                            let f: Edge<Id, L> = Edge::new(Id::new(s), Id::new(d), lid(l2));
                            want!((e == f) == (l == l2), "{:?} and {:?} compare equal: {}", e, f, e == f);
                            let g: Edge<Id, L> = Edge::new(Id::new(d), Id::new(s), lid(l));
                            want!((e == g) == (s == d), "{:?} and {:?} compare equal: {}", e, g, e == g);
                            let mut slot: Option<L> = lid(l);
                            {
                                let mut h = MutEdgeType::EdgeRef(MutEdge::new(Id::new(s), Id::new(d), &mut slot));
                                want!(edge(&h) == (s, d, l) && h.is_some() && !h.is_none(), "a handle to {:?} reads {:?}", e, h);
                                h.set_label_id(lid(l2));
                                let h = h.unwrap_edge_ref();
                                want!(edge(&h) == (s, d, l2) && h.is_some(), "a handle changed to {:?} reads {:?}", l2, h);
                            }
                            want!(un(slot) == l2, "a handle set the label to {:?}, expected {:?}", slot, l2);
                        }
                    }
                }
                Ok(())
            },
        );
    }
    case(
        || format!("{} the absent values", name),
        || {
            let (a, b, c): (NodeType<Id, L>, MutNodeType<Id, L>, OwnedNodeType<Id, L>) = (NodeType::None, MutNodeType::None, OwnedNodeType::None);
            want!(a.is_none() && !a.is_some() && a.get_label_id().is_none(), "the absent node is {:?}", a);
            want!(b.is_none() && !b.is_some() && c.is_none() && !c.is_some(), "the absent nodes are {:?} {:?}", b, c);
            let (d, e, f): (EdgeType<Id, L>, MutEdgeType<Id, L>, OwnedEdgeType<Id, L>) = (EdgeType::None, MutEdgeType::None, OwnedEdgeType::None);
            want!(d.is_none() && !d.is_some() && d.get_label_id().is_none(), "the absent edge is {:?}", d);
            want!(e.is_none() && !e.is_some() && f.is_none() && !f.is_some(), "the absent edges are {:?} {:?}", e, f);
            Ok(())
        },
    );
}

fn c36() {
    let th = thorough();
    let full = [None, Some(0), Some(1)];
    bound("adjacency records over up to four (thorough: five) neighbour ids and two label ids to the fixpoint; records of up to 300 entries; every pair of records of the three-id alphabets");
    // the record's own id below, among and above its neighbours
    for id in [0usize, 2, 3, 9] {
        let a = nfix::<u32, u32>(&format!("u32 record {}", id), id, &[1, 2, 5], &full, None);
        npairs(&format!("u32 record {}", id), &a);
    }
    nfix::<u32, u32>("u32 record 5 of four", 5, &[1, 5, 6, u32::MAX as usize], &[None, Some(0)], Some(1));
    nfix::<u8, u8>("u8 record 255", 255, &[0, 254, 255], &[None, Some(255)], Some(254));
    nfix::<u8, u8>("u8 record 0", 0, &[0, 1, 255], &[Some(0), Some(255)], None);
    nfix::<u16, u8>("u16 record 256", 256, &[0, 256, 65535], &[None, Some(0)], None);
    nfix::<usize, u16>("usize record", 1 << 40, &[0, 1 << 40, usize::MAX], &[None, Some(65535)], None);
    if th {
        nfix::<u32, u32>("u32 record 3 of five", 3, &[1, 2, 3, 4, 5], &[None, Some(0)], None);
        nfix::<u32, u32>("u32 record 2 of four", 2, &[1, 2, 3, 300], &full, None);
    }
    for n in if th { (1..=300).collect::<Vec<_>>() } else { vec![11, 12, 13, 23, 24, 64, 66, 128, 130, 257] } {
        nlong::<u32, u32>("u32 record 7,", 7, n, 1);
        nlong::<u32, u8>("u32 record 1000,", 1000, n, 977);
        nlong::<usize, usize>("usize record 0,", 0, n, 3);
        if n <= 256 {
            nlong::<u8, u16>("u8 record 100,", 100, n, 1);
        }
    }
    nvalues::<u8, u8>("u8");
    nvalues::<u32, u32>("u32");
    nvalues::<u16, usize>("u16");
    nvalues::<usize, u16>("usize");
}

// ---------------------------------------------------------------- C37

const ALL: u32 = LOOK | COUNT | SYM | INOUT | ENUM | DICT | LABELIDS | MAXID | STATS | ABSENT;

/// Which implementation a graph says it is.
fn kind<C: Cfg>(g: &Gen<C>, want: &str, who: &str) -> Res {
    let got = match g.implementation() {
        GraphImpl::GraphMap => "map",
        GraphImpl::StaticGraph => "static",
        GraphImpl::StaicGraphMmap => "mmap",
    };
    want!(got == want, "{} graph: implementation() is {}", who, got);
    want!(g.implementation() == g.as_graph().implementation() && g.implementation() == g.as_general_graph().implementation(), "{} graph: implementation() depends on the interface", who);
    Ok(())
}

fn enum_mut_boxed<C: Cfg>(b: &mut BoxG<C>, m: &Model, who: &str) -> Res {
    let g = b.as_mut_graph().ok_or(format!("{}: as_mut_graph() is None", who))?;
    enum_mut::<C>(g, m).map_err(|e| format!("{}: {}", who, e))
}

/// Every label handle and every mutation, through the box.
struct Boxed;
impl StateCheck for Boxed {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        let big = m.nodes.len() > 40;
        let mut b = C::boxg(g.clone());
        kind::<C>(b.as_ref(), "map", "mutable (boxed)")?;
        view::<C>(b.as_ref(), m, LOOK | LABELIDS | COUNT, "mutable (boxed)", &ids)?;
        enum_mut_boxed::<C>(&mut b, m, "mutable (boxed)")?;
        if m.dense() {
            let s = freeze::<C>(g);
            let x: BoxG<C> = Box::new(open_mmap::<C>(&s, "boxed")?);
            for (mut b, k) in [(C::boxs(s), "static"), (x, "mmap")] {
                kind::<C>(b.as_ref(), k, k)?;
                want!(b.as_mut_graph().is_none(), "boxed {} graph: as_mut_graph() offers to change it", k);
                want!(b.as_digraph().is_some() == m.directed, "boxed {} graph: as_digraph() present: {}", k, b.as_digraph().is_some());
                view::<C>(b.as_ref(), m, COUNT | LOOK, k, &ids)?;
            }
        }
        if big {
            return Ok(());
        }
        // one operation of the interface from here
        let mut near: Vec<u32> = m.nodes.keys().map(|&i| i as u32).take(2).collect();
        near.extend([0, 1, 3]);
        near.sort();
        near.dedup();
        near.retain(|&i| i as usize <= C::Id::max_value().id());
        let mut ops = vec![];
        for &i in &near {
            ops.extend([Op::AddNode(i, Some(1)), Op::AddNode(i, None), Op::RemNode(i), Op::SetNodeId(i, Some(0)), Op::SetNodeId(i, None)]);
            for &j in &near {
                ops.extend([Op::AddEdge(i, j, Some(0)), Op::AddEdge(i, j, None), Op::RemEdge(i, j), Op::SetEdgeId(i, j, Some(0)), Op::SetEdgeId(i, j, None)]);
            }
        }
        for mut op in ops {
            if let Op::AddNode(_, l) | Op::AddEdge(_, _, l) = &mut op {
                *l = clamp::<C>(*l);
            }
            let mut m2 = m.clone();
            let mut b = C::boxg(g.clone());
            let who = || format!("mutable (boxed), after {}", op.text());
            run().transitions.fetch_add(1, Relaxed);
            apply_mut::<C>(b.as_mut_graph().ok_or("as_mut_graph() is None")?, &mut m2, op).map_err(|e| format!("{}: {}", who(), e))?;
            let asp = COUNT | LOOK | if m.nodes.len() < 3 { ENUM | SYM | INOUT | LABELIDS | MAXID } else { 0 };
            view::<C>(b.as_ref(), &m2, asp, &who(), &probe_ids::<C>(&m2, &[0, 1, 3]))?;
        }
        Ok(())
    }
}

/// Every operation sequence up to a depth on graphs obtained from `new_general_graphmap`.
fn c37_fresh<C: Cfg>(depth: usize, ids: &[u32], nl: &[Lb], el: &[Lb], sets: bool) {
    let mut ops = Profile::new("", ids, nl, el).flags(F_BUILD).ops();
    if sets {
        for &i in ids {
            ops.extend([Op::SetNodeId(i, None), Op::SetNodeId(i, Some(0))]);
            for &j in ids {
                ops.extend([Op::SetEdgeId(i, j, None), Op::SetEdgeId(i, j, Some(0))]);
            }
        }
    }
    let fresh = || -> (BoxG<C>, Model) { (rust_graph::graph_impl::graph_map::new_general_graphmap(C::DIR), Model::new(C::DIR)) };
    let n = ops.len();
    let total = (0..=depth).map(|d| n.pow(d as u32)).sum::<usize>();
    let name = format!("{} fresh boxes", C::NAME);
    part(&name, format!("ids {:?}, {} operations, all {} sequences up to length {}", ids, n, total, depth));
    run().states.fetch_add(total as u64, Relaxed);
    // one task per two-operation prefix; the sequences of a task share work by replaying from a fresh box
    let (ops, name) = (&ops, &name);
    par_for(n * n, 1, |k| {
        let pre = [ops[k / n], ops[k % n]];
        let show = |v: &[Op]| v.iter().map(|o| o.text()).collect::<Vec<_>>().join("|");
        let mut idx: Vec<usize> = vec![];
        loop {
            let seq: Vec<Op> = pre.iter().copied().chain(idx.iter().map(|&i| ops[i])).collect();
            let ok = case(
                || format!("{} {}", name, show(&seq)),
                || {
                    let (mut b, mut m) = fresh();
                    let ids = [0usize, 1, 2, 5, C::Id::max_value().id()];
                    if idx.is_empty() {
                        kind::<C>(b.as_ref(), "map", "mutable (fresh box)")?;
                        view::<C>(b.as_ref(), &m, ALL, "mutable (fresh box)", &ids)?;
                    }
                    for (i, &op) in seq.iter().enumerate() {
                        let g = b.as_mut_graph().ok_or("as_mut_graph() of a fresh box is None")?;
                        apply_mut::<C>(g, &mut m, op)?;
                        if idx.is_empty() && i == 0 {
                            view::<C>(b.as_ref(), &m, ALL, "mutable (fresh box)", &ids)?;
                        }
                    }
                    run().transitions.fetch_add(seq.len() as u64, Relaxed);
                    run().validated.fetch_add(1, Relaxed);
                    view::<C>(b.as_ref(), &m, ALL, "mutable (fresh box)", &ids)?;
                    enum_mut_boxed::<C>(&mut b, &m, "mutable (fresh box)")
                },
            );
            if !ok || stopped() {
                return;
            }
            // next suffix, shorter ones first
            let mut p = idx.len();
            loop {
                if p == 0 {
                    if idx.len() + 2 == depth {
                        return;
                    }
                    idx = vec![0; idx.len() + 1];
                    break;
                }
                p -= 1;
                idx[p] += 1;
                if idx[p] < n {
                    break;
                }
                idx[p] = 0;
            }
        }
    });
}

/// Names of the implementations: any capitalisation of the three names, nothing else.
fn c37_names() {
    let all = [("graphmap", GraphImpl::GraphMap), ("staticgraph", GraphImpl::StaticGraph), ("staticgraphmmap", GraphImpl::StaicGraphMmap)];
    for (name, want) in all {
        let n = name.len();
        part(&format!("spellings of {}", name), format!("{} capitalisations, all their prefixes, and each with one letter removed, doubled or replaced", 1 << n));
        par_for(1 << n.saturating_sub(6), 4, |hi| {
            case(
                || format!("spellings of {} number {}", name, hi),
                || {
                    for lo in 0..64usize {
                        let bits = hi << 6 | lo;
                        let s: String = name.chars().enumerate().map(|(k, c)| if bits >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
                        want!(s.parse::<GraphImpl>() == Ok(want), "{:?} parses as {:?}", s, s.parse::<GraphImpl>());
                        for k in 0..n {
                            let c = &s[k..k + 1];
                            for bad in [s[..k].to_string(), format!("{}{}", &s[..k], &s[k + 1..]), format!("{}{}{}", &s[..k], c, &s[k..]), format!("{}~{}", &s[..k], &s[k + 1..]), format!("{} {}", &s[..k], &s[k..])] {
                                if all.iter().any(|a| a.0 == bad.to_lowercase()) {
                                    continue;
                                }
                                want!(bad.parse::<GraphImpl>().is_err(), "{:?} parses as {:?}", bad, bad.parse::<GraphImpl>());
                            }
                        }
                    }
                    run().states.fetch_add(64, Relaxed);
                    Ok(())
                },
            );
        });
    }
}

fn c37() {
    let th = thorough();
    c37_names();
    Sweep { cost: Cost::Medium, giants: true, extra: F_INT, ..Default::default() }.run(&Boxed);
    let d = if th { 4 } else { 3 };
    c37_fresh::<U32Di>(d, &[0, 1], &a1(), &a1(), true);
    c37_fresh::<U32Un>(d, &[0, 1], &a1(), &a1(), true);
    c37_fresh::<U8Di>(3, &[0, 255], &a1(), &a1(), false);
    c37_fresh::<StrUn>(3, &[0, 1], &a1(), &s1(), false);
    c37_fresh::<MixDi>(d, &[0, 2], &s1(), &a1(), false);
    c37_fresh::<MixUn>(d, &[1, 5], &a1(), &s1(), false);
}

const NRULE: &str = "every adjacency record reachable over the listed neighbour ids and labels by the record's own operations (to the fixpoint) is visited once on the real record with a reference record in lockstep; after every operation all queries, listings and handles are compared; equality and hashes over all pairs";
const BRULE: &str = "every state reachable in the listed alphabets (to the fixpoint, or to the stated depth) is put behind the general interface and every operation of the interface is executed from it through the box; every operation sequence up to the stated length on a fresh box; queries compared with the model";

fn main() {
    mc::main(move || {
        vec![
            Prop { id: "C36", level: "model_checking", rule: NRULE, assumptions: &["neighbour ids outside the listed alphabets behave like the listed ones (long records vary them)"], run: c36 as fn() },
            Prop { id: "C37", level: "model_checking", rule: BRULE, assumptions: &["ids outside the listed alphabets behave like the listed ones"], run: c37 },
        ]
    })
}
