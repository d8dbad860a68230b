//! C11-C13, C32, C34, C35: frozen and memory-mapped forms.
use std::collections::BTreeSet;
use std::path::Path;

use mc::core::*;
use mc::explore::*;
use mc::fam::*;
use mc::util::*;
use mc::view::*;
use mc::Prop;
use rust_graph::generic::{IdType, MapTrait, NodeTrait};
use rust_graph::graph_impl::{EdgeVec, TypedStaticGraph};
use rust_graph::graph_impl::static_graph::EdgeVecTrait;
use rust_graph::io::mmap::{dump, TypedMemoryMap};
use rust_graph::io::serde::{Deserialize, Serialize};
use rust_graph::map::SetMap;
type EdgeVecMm<Id, L> = rust_graph::graph_impl::static_graph::mmap::EdgeVecMmap<Id, L>;

// ---------------------------------------------------------------- C11

pub struct Freeze;
impl StateCheck for Freeze {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        if !m.dense() {
            return gaps::<C>(g, m);
        }
        run().nontrivial.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        let s = freeze::<C>(g);
        view::<C>(C::sg(&s), m, ALL, "static", &ids)
    }
}

/// With unused ids below the largest one (but not so many that the offsets fill the memory) a frozen graph does
/// not know which ids are nodes, but the edges of every id are kept, and an unused id has none.
fn gaps<C: Cfg>(g: &Map<C>, m: &Model) -> Res {
    let top = *m.nodes.keys().max().unwrap();
    if top > 1_000_000 {
        return Ok(());
    }
    let f = freeze::<C>(g);
    let s = C::sg(&f);
    let nid = |i: usize| C::Id::new(i);
    want!(s.is_directed() == m.directed, "frozen with gaps: is_directed() is {}", s.is_directed());
    want!(s.edge_count() == m.edges.len(), "frozen with gaps: edge_count() is {}, expected {}", s.edge_count(), m.edges.len());
    let nm: Vec<C::N> = m.nmap.iter().map(|&k| C::N::mk(k)).collect();
    let em: Vec<C::E> = m.emap.iter().map(|&k| C::E::mk(k)).collect();
    want!(s.get_node_label_map().items().eq(nm.iter()) && s.get_edge_label_map().items().eq(em.iter()), "frozen with gaps: the dictionaries changed");
    let ids: BTreeSet<usize> = m.nodes.keys().copied().chain((0..=top).step_by(top / 2000 + 1)).collect();
    let d = s.as_digraph();
    want!(d.is_some() == m.directed, "frozen with gaps: as_digraph() present: {}", d.is_some());
    for &i in &ids {
        let x = nid(i);
        let out: Vec<usize> = s.neighbors_iter(x).map(|y| y.id()).collect();
        let out2: Vec<usize> = s.neighbors(x).iter().map(|y| y.id()).collect();
        want!(out == m.out(i) && out2 == out && s.degree(x) == out.len(), "frozen with gaps: {} has neighbours {:?} / {:?}, degree {}, expected {:?}", i, out, out2, s.degree(x), m.out(i));
        if let Some(d) = d {
            let inn: Vec<usize> = d.in_neighbors_iter(x).map(|y| y.id()).collect();
            let inn2: Vec<usize> = d.in_neighbors(x).iter().map(|y| y.id()).collect();
            want!(inn == m.inn(i) && inn2 == inn && d.in_degree(x) == inn.len(), "frozen with gaps: {} has in-neighbours {:?} / {:?}, expected {:?}", i, inn, inn2, m.inn(i));
        }
    }
    Ok(())
}

/// All 256 nodes of a byte-wide id type, with as many labels as fit.
pub fn full_width<C: Cfg>(k: usize, n: usize) -> Init {
    let mut o = vec![];
    for i in 0..n {
        o.push(Op::AddNode(i as u32, if k == 0 { None } else { Some((i % k) as Letter) }));
    }
    for i in 0..n {
        o.push(Op::AddEdge(i as u32, ((i * 7 + 3) % n) as u32, if k == 0 { None } else { Some(((i * 3) % k) as Letter) }));
        if i % 16 == 0 {
            o.push(Op::AddEdge(i as u32, i as u32, None));
        }
    }
    Init::Script(o)
}

fn widths<C: Cfg, K: StateCheck>(k: &K) {
    // label ids are u8 here: 254 distinct labels are the most that stay below the type's maximum
    let ks: &[usize] = if thorough() { &[0, 1, 2, 126, 127, 128, 129, 252, 253, 254] } else { &[0, 127, 128, 254] };
    for &l in ks {
        for &n in if thorough() { &[1usize, 2, 127, 128, 129, 254, 255, 256][..] } else { &[255usize, 256][..] } {
            let p = Profile::new(&format!("{} nodes {} labels", n, l), &[], &a0(), &a0()).flags(0).depth(0).inits(vec![full_width::<C>(l, n)]);
            let chk = |g: &Map<C>, m: &Model| k.check::<C>(g, m);
            explore::<C>(&p, false, &chk, None);
        }
    }
}

fn c11() {
    Sweep { extra: F_INT, giants: true, ..Default::default() }.run(&Freeze);
    widths::<U8Di, _>(&Freeze);
    widths::<U8Un, _>(&Freeze);
    widths::<MixUn, _>(&Freeze);
}

// ---------------------------------------------------------------- C12

fn edge_vec_same<Id: IdType, L: IdType>(a: &EdgeVec<Id, L>, b: &EdgeVecMm<Id, L>, what: &str) -> Res {
    want!(a.get_offsets() == b.get_offsets(), "{}: offsets {:?}, expected {:?}", what, b.get_offsets(), a.get_offsets());
    want!(a.get_edges() == b.get_edges(), "{}: edges {:?}, expected {:?}", what, b.get_edges(), a.get_edges());
    want!(a.get_labels() == b.get_labels(), "{}: labels {:?}, expected {:?}", what, b.get_labels(), a.get_labels());
    let n = a.num_nodes();
    want!(n == b.num_nodes(), "{}: num_nodes {}, expected {}", what, b.num_nodes(), n);
    want!(a.num_edges() == b.num_edges(), "{}: num_edges {}, expected {}", what, b.num_edges(), a.num_edges());
    let top = Id::max_value().id();
    for i in (0..n.min(40) + 2).chain([top]) {
        if i > top {
            continue;
        }
        let x = Id::new(i);
        want!(a.has_node(x) == b.has_node(x), "{}: has_node({}) = {}", what, i, b.has_node(x));
        if a.has_node(x) {
            want!(a.neighbors(x) == b.neighbors(x), "{}: neighbors({}) = {:?}, expected {:?}", what, i, b.neighbors(x), a.neighbors(x));
            want!(a.degree(x) == b.degree(x), "{}: degree({}) = {}, expected {}", what, i, b.degree(x), a.degree(x));
        }
        for j in (0..n.min(40) + 2).chain([top]) {
            if j > top {
                continue;
            }
            let y = Id::new(j);
            want!(a.has_edge(x, y) == b.has_edge(x, y), "{}: has_edge({},{}) = {}", what, i, j, b.has_edge(x, y));
            want!(
                a.find_edge_index(x, y) == b.find_edge_index(x, y),
                "{}: find_edge_index({},{}) = {:?}, expected {:?}", what, i, j, b.find_edge_index(x, y), a.find_edge_index(x, y)
            );
            want!(
                a.find_edge_label_id(x, y) == b.find_edge_label_id(x, y),
                "{}: find_edge_label_id({},{}) = {:?}, expected {:?}", what, i, j, b.find_edge_label_id(x, y), a.find_edge_label_id(x, y)
            );
        }
    }
    Ok(())
}

pub struct Mmapped;
impl StateCheck for Mmapped {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        if !m.dense() {
            return Ok(());
        }
        scratch_clear();
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        let s = freeze::<C>(g);
        // names with dots and blanks must stay apart
        let x = open_mmap::<C>(&s, "my dump.v1")?;
        {
            let mut t = freeze::<C>(g);
            t.remove_labels();
            let y = open_mmap::<C>(&t, "my dump.v2")?;
            let mut m2 = m.clone();
            strip(&mut m2, true, true);
            view::<C>(&y, &m2, ALL, "mmap (unlabelled)", &ids)?;
        }
        view::<C>(&x, m, ALL, "mmap", &ids)?;
        for &v in m.nodes.keys().step_by(1 + m.nodes.len() / 300) {
            let a: Vec<usize> = x.inner_neighbors(C::Id::new(v)).iter().map(|x| x.id()).collect();
            want!(a == m.out(v), "mmap graph: inner_neighbors({}) = {:?}, expected {:?}", v, a, m.out(v));
            let a: Vec<usize> = x.inner_in_neighbors(C::Id::new(v)).iter().map(|x| x.id()).collect();
            want!(a == m.inn(v), "mmap graph: inner_in_neighbors({}) = {:?}, expected {:?}", v, a, m.inn(v));
        }
        // opening the same files again
        let x2 = Mm::<C>::new(scratch_file("my dump.v1").to_str().unwrap());
        view::<C>(&x2, m, ALL, "mmap opened twice", &ids)?;
        // without the auxiliary file the counts come from the edge files, and there are no dictionaries
        drop((x, x2));
        std::fs::remove_file(scratch_file("my dump.v1_aux.bin")).map_err(|e| format!("no auxiliary file: {}", e))?;
        let x = Mm::<C>::new(scratch_file("my dump.v1").to_str().unwrap());
        let x: &Gen<C> = &x;
        want!(
            x.is_directed() == m.directed && x.node_count() == m.nodes.len() && x.edge_count() == m.edges.len(),
            "mmap without its auxiliary file: directed {}, {} nodes, {} edges, expected {}, {}, {}", x.is_directed(), x.node_count(), x.edge_count(), m.directed, m.nodes.len(), m.edges.len()
        );
        want!(x.get_node_label_map().len() == 0 && x.get_edge_label_map().len() == 0, "mmap without its auxiliary file has dictionaries");
        for &v in m.nodes.keys().step_by(1 + m.nodes.len() / 300) {
            let a: Vec<usize> = x.neighbors_iter(C::Id::new(v)).map(|x| x.id()).collect();
            want!(a == m.out(v), "mmap without its auxiliary file: {} has neighbours {:?}, expected {:?}", v, a, m.out(v));
            let a = x.get_node(C::Id::new(v)).get_label_id().map(|y| y.id());
            want!(a == letter_id(&m.nmap, m.nodes[&v]), "mmap without its auxiliary file: node {} carries label id {:?}", v, a);
        }
        let p = scratch_file("ev");
        let p = p.to_str().unwrap();
        let ev = s.get_edge_vec();
        ev.dump_mmap(p).map_err(|e| format!("EdgeVec::dump_mmap failed: {}", e))?;
        edge_vec_same(ev, &EdgeVecMm::new(p), "reopened edge vector")
    }
}

/// Two dumps next to each other, opened after both were written.
fn dump_names<C: Cfg>() {
    let (a, ma) = Init::Script(star(6, 2)).make::<C>();
    let (b, mb) = Init::Script(path(3).into_iter().map(|o| if let Op::AddEdge(s, t, _) = o { Op::AddEdge(s, t, None) } else { o }).collect()).make::<C>();
    let (sa, sb) = (freeze::<C>(&a), freeze::<C>(&b));
    path_pairs(&format!("{} dump", C::NAME), &|p, q| {
        let (p, q) = (p.to_str().unwrap(), q.to_str().unwrap());
        for _ in 0..2 {
            sa.dump_mmap(p).map_err(|e| e.to_string())?;
            sb.dump_mmap(q).map_err(|e| e.to_string())?;
            view::<C>(&Mm::<C>::new(p), &ma, ALL, "first mmap", &probe_ids::<C>(&ma, &[0, 1, 2]))?;
            view::<C>(&Mm::<C>::new(q), &mb, ALL, "second mmap", &probe_ids::<C>(&mb, &[0, 1, 2]))?;
        }
        // and edge vectors alone
        let (p, q) = (format!("{}-e", p), format!("{}-e", q));
        sa.get_edge_vec().dump_mmap(&p).map_err(|e| e.to_string())?;
        sb.get_edge_vec().dump_mmap(&q).map_err(|e| e.to_string())?;
        edge_vec_same(sa.get_edge_vec(), &EdgeVecMm::new(&p), "first edge vector")?;
        edge_vec_same(sb.get_edge_vec(), &EdgeVecMm::new(&q), "second edge vector")
    });
}

fn c12() {
    dump_names::<U32Di>();
    dump_names::<StrUn>();
    Sweep { extra: F_INT, giants: true, ..Default::default() }.run(&Mmapped);
    widths::<U8Di, _>(&Mmapped);
    widths::<MixUn, _>(&Mmapped);
    // bare edge vectors
    csr_all(|offs, edges, lab, text| {
        case(
            || format!("edge vector {}", text),
            || {
                scratch_clear();
                let ev = EdgeVec::<u32, u8>::from_raw(offs.to_vec(), edges.iter().map(|&e| e as u32).collect(), lab.clone());
                let p = scratch_file("e.v");
                let p = p.to_str().unwrap();
                ev.dump_mmap(p).map_err(|e| format!("EdgeVec::dump_mmap failed: {}", e))?;
                edge_vec_same(&ev, &EdgeVecMm::new(p), "reopened edge vector")
            },
        );
    });
}

/// Every adjacency structure on up to three nodes (plus the one without offsets), with no labels, or with
/// label ids running through {0, 1, "none"} in a pattern per graph.
fn csr_all(f: impl Fn(&[usize], &[usize], Option<Vec<u8>>, String) + Sync) {
    let max = if thorough() { 4usize } else { 3 };
    f(&[], &[], None, "empty".into());
    f(&[], &[], Some(vec![]), "empty with labels".into());
    f(&[0], &[], None, "no nodes".into());
    for n in 1..=max {
        let total = 1usize << (n * n);
        par_for(total, 16, |bits| {
            let (mut offs, mut edges) = (vec![0], vec![]);
            for i in 0..n {
                for j in 0..n {
                    if bits >> (i * n + j) & 1 == 1 {
                        edges.push(j);
                    }
                }
                offs.push(edges.len());
            }
            f(&offs, &edges, None, format!("n {} bits {:x} unlabelled", n, bits));
            for pat in 0..3usize {
                let l: Vec<u8> = (0..edges.len()).map(|k| [0u8, 1, 255][(k * (pat + 1) + pat) % 3]).collect();
                f(&offs, &edges, Some(l), format!("n {} bits {:x} labels {}", n, bits, pat));
            }
        });
    }
}

// ---------------------------------------------------------------- C13

fn strip(m: &mut Model, n: bool, e: bool) {
    if n {
        m.nmap.clear();
        for l in m.nodes.values_mut() {
            *l = None;
        }
    }
    if e {
        m.emap.clear();
        for l in m.edges.values_mut() {
            *l = None;
        }
    }
}

enum Di<D: Cfg, U: Cfg> {
    D(Stat<D>, Map<D>),
    U(Stat<U>, Map<U>),
}

struct Item<D: Cfg, U: Cfg> {
    g: Di<D, U>,
    m: Model,
    text: String,
}


fn collect<C: Cfg>(ps: Vec<Profile>) -> Vec<(Map<C>, Model, String)> {
    let mut out = vec![];
    for p in ps {
        let mut kept = vec![];
        explore_quiet::<C>(&p, &mut kept);
        for k in kept {
            out.push((k.g, k.m, String::new()));
        }
    }
    out
}

/// Explore only to obtain states (also in replay mode).
#[allow(dead_code)]
fn explore_quiet<C: Cfg>(p: &Profile, kept: &mut Vec<Kept<C>>) {
    explore_states::<C>(p, kept);
}

/// Dense states with different content or dictionary, in a fixed order.
fn items<D: Cfg, U: Cfg>(labels: bool, three: bool) -> Vec<Item<D, U>> {
    let mut out: Vec<Item<D, U>> = vec![];
    let l = if labels { a1() } else { a0() };
    let mut ps = vec![Profile::new("2", &[0, 1], &l, &l)];
    if labels && !thorough() {
        ps[0].loops = false;
        ps.push(Profile::new("2 loops", &[0, 1], &a0(), &s1()));
    }
    if three {
        ps.push(Profile::new("3", &[0, 1, 2], &a0(), &a0()).no_loops());
    }
    for b in bases::<U>() {
        ps.push(Profile::new(&b.name, &[], &a0(), &a0()).depth(0).inits(vec![Init::Script(b.ops)]));
    }
    let key = |m: &Model| format!("{} nodes{:?} edges{:?} {:?} {:?}", if m.directed { "di" } else { "un" }, m.nodes, m.edges, m.nmap, m.emap);
    let mut seen = std::collections::BTreeMap::new();
    for (g, m, _) in collect::<D>(ps.clone()) {
        if m.dense() {
            seen.entry(key(&m)).or_insert((Some(g), None, m));
        }
    }
    for (g, m, _) in collect::<U>(ps) {
        if m.dense() {
            seen.entry(key(&m)).or_insert((None, Some(g), m));
        }
    }
    for (t, (d, u, m)) in seen {
        let g = match (d, u) {
            (Some(g), _) => Di::D(freeze::<D>(&g), g),
            (_, Some(g)) => Di::U(freeze::<U>(&g), g),
            _ => unreachable!(),
        };
        out.push(Item { g, m, text: t });
    }
    out
}

fn dump_item<D: Cfg, U: Cfg>(i: &Item<D, U>, p: &str) -> Res {
    match &i.g {
        Di::D(s, _) => s.dump_mmap(p),
        Di::U(s, _) => s.dump_mmap(p),
    }
    .map_err(|e| format!("dump_mmap failed: {}", e))
}

fn redump<D: Cfg, U: Cfg<Id = D::Id, N = D::N, E = D::E, L = D::L>>(labels: bool, three: bool, what: &str) {
    let its = items::<D, U>(labels, three);
    let n = its.len();
    bound(format!("{}: all ordered pairs of {} frozen graphs (directed and undirected) dumped to one prefix", what, n));
    par_for(n * n, 16, |k| {
        let (a, b) = (&its[k / n], &its[k % n]);
        case(
            || format!("{} dump pair [{}] then [{}]", what, a.text, b.text),
            || {
                scratch_clear();
                let p = scratch_file("g");
                let p = p.to_str().unwrap();
                dump_item(a, p)?;
                dump_item(b, p)?;
                count(1, 2);
                if b.m.directed {
                    let x = Mm::<D>::new(p);
                    view::<D>(&x, &b.m, COUNT | ENUM | DICT | LABELIDS, "re-dumped mmap", &[])
                } else {
                    let x = Mm::<U>::new(p);
                    view::<U>(&x, &b.m, COUNT | ENUM | DICT | LABELIDS, "re-dumped mmap", &[])
                }
            },
        );
    });
    // re-export over an earlier, possibly longer file
    let ex = |k: usize| {
        let (a, b) = (&its[k / n], &its[k % n]);
        case(
            || format!("{} export pair [{}] then [{}]", what, a.text, b.text),
            || {
                let p = scratch_file("g.bin");
                let q = scratch_file("g.map");
                let r = match &a.g {
                    Di::D(s, g) => (s.export(&p), g.export(&q)),
                    Di::U(s, g) => (s.export(&p), g.export(&q)),
                };
                want!(r.0.is_ok() && r.1.is_ok(), "export failed: {:?}", r);
                count(1, 4);
                macro_rules! back {
                    ($s:expr, $g:expr, $c:ident) => {{
                        $s.export(&p).map_err(|e| format!("export failed: {}", e))?;
                        $g.export(&q).map_err(|e| format!("export failed: {}", e))?;
                        let s2: Stat<$c> = Deserialize::import(&p).map_err(|e| format!("import failed: {}", e))?;
                        view::<$c>($c::sg(&s2), &b.m, COUNT | ENUM | DICT | LABELIDS, "re-exported static", &[])?;
                        let g2: Map<$c> = Deserialize::import(&q).map_err(|e| format!("import failed: {}", e))?;
                        view::<$c>($c::gg(&g2), &b.m, COUNT | ENUM | DICT | LABELIDS, "re-exported graph", &[])
                    }};
                }
                match &b.g {
                    Di::D(s, g) => back!(s, g, D),
                    Di::U(s, g) => back!(s, g, U),
                }
            },
        );
    };
    par_for(n * n, 16, |k| {
        if thorough() || k / n % 7 == 0 || k % n % 11 == 0 {
            ex(k);
        }
    });
    // triples over a thinner set
    let step = if thorough() { n / 40 } else { n / 12 }.max(1);
    let few: Vec<&Item<D, U>> = its.iter().step_by(step).collect();
    let t = few.len();
    bound(format!("{}: all ordered triples of {} of them", what, t));
    par_for(t * t * t, 16, |k| {
        let (a, b, c) = (few[k / t / t], few[k / t % t], few[k % t]);
        case(
            || format!("{} dump triple [{}] [{}] [{}]", what, a.text, b.text, c.text),
            || {
                scratch_clear();
                let p = scratch_file("g");
                let p = p.to_str().unwrap();
                dump_item(a, p)?;
                dump_item(b, p)?;
                dump_item(c, p)?;
                count(1, 3);
                if c.m.directed {
                    view::<D>(&Mm::<D>::new(p), &c.m, COUNT | ENUM | DICT | LABELIDS, "re-dumped mmap", &[])
                } else {
                    view::<U>(&Mm::<U>::new(p), &c.m, COUNT | ENUM | DICT | LABELIDS, "re-dumped mmap", &[])
                }
            },
        );
    });
}

fn count(states: u64, transitions: u64) {
    use std::sync::atomic::Ordering::Relaxed;
    run().states.fetch_add(states, Relaxed);
    run().transitions.fetch_add(transitions, Relaxed);
    run().validated.fetch_add(states, Relaxed);
}

fn c13() {
    redump::<U32Di, U32Un>(true, false, "u32");
    redump::<U8Di, U8Un>(false, true, "u8");
    if thorough() {
        redump::<StrDi, StrUn>(true, false, "str");
    }
    // bare edge vectors, all ordered pairs
    let list = std::sync::Mutex::new(vec![]);
    list.lock().unwrap().push((vec![0usize], vec![], None::<Vec<u8>>, "no nodes".to_string()));
    for n in 1..=2usize {
        for bits in 0..1usize << (n * n) {
            let (mut offs, mut edges) = (vec![0], vec![]);
            for i in 0..n {
                for j in 0..n {
                    if bits >> (i * n + j) & 1 == 1 {
                        edges.push(j);
                    }
                }
                offs.push(edges.len());
            }
            list.lock().unwrap().push((offs.clone(), edges.clone(), None, format!("n {} bits {:x}", n, bits)));
            let l = (0..edges.len()).map(|k| [1u8, 255, 0][k % 3]).collect();
            list.lock().unwrap().push((offs, edges, Some(l), format!("n {} bits {:x} labelled", n, bits)));
        }
    }
    let list = list.into_inner().unwrap();
    let n = list.len();
    par_for(n * n, 16, |k| {
        let (a, b) = (&list[k / n], &list[k % n]);
        case(
            || format!("edge vector pair [{}] then [{}]", a.3, b.3),
            || {
                scratch_clear();
                let p = scratch_file("ev");
                let p = p.to_str().unwrap();
                let mk = |x: &(Vec<usize>, Vec<usize>, Option<Vec<u8>>, String)| {
                    EdgeVec::<u32, u8>::from_raw(x.0.clone(), x.1.iter().map(|&e| e as u32).collect(), x.2.clone())
                };
                mk(a).dump_mmap(p).map_err(|e| e.to_string())?;
                let eb = mk(b);
                eb.dump_mmap(p).map_err(|e| e.to_string())?;
                count(1, 2);
                edge_vec_same(&eb, &EdgeVecMm::new(p), "re-dumped edge vector")
            },
        );
    });
}

// ---------------------------------------------------------------- C32

pub struct Strip;
impl StateCheck for Strip {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        if !m.dense() {
            return Ok(());
        }
        let ids = probe_ids::<C>(m, &[0, 1, 2]);
        for (k, what) in ["remove_node_labels", "remove_edge_labels", "remove_labels", "remove_edge_labels+remove_node_labels", "remove_labels twice"]
            .iter()
            .enumerate()
        {
            let mut s = freeze::<C>(g);
            let mut m2 = m.clone();
            match k {
                0 => s.remove_node_labels(),
                1 => s.remove_edge_labels(),
                2 => s.remove_labels(),
                3 => {
                    s.remove_edge_labels();
                    s.remove_node_labels();
                }
                _ => {
                    s.remove_labels();
                    s.remove_labels();
                }
            }
            strip(&mut m2, k != 1, k != 0);
            view::<C>(C::sg(&s), &m2, ALL, &format!("static (after {})", what), &ids)?;
            if k < 3 {
                // equality and a copy agree with the stripped content
                let mut t = s.clone();
                t.shrink_to_fit();
                want!(s == t, "a static graph after {} differs from its copy", what);
                let x = open_mmap::<C>(&s, "stripped")?;
                view::<C>(&x, &m2, ALL, &format!("mmap (after {})", what), &ids)?;
            }
        }
        Ok(())
    }
}

fn c32() {
    Sweep { extra: F_INT, cost: Cost::Medium, giants: true, ..Default::default() }.run(&Strip);
}

// ---------------------------------------------------------------- C34

/// A CSR description of `m`'s out- (or in-) adjacency.
fn csr(m: &Model, n: usize, inn: bool) -> (Vec<usize>, Vec<usize>, Vec<Lb>) {
    let (mut o, mut e, mut l) = (vec![0], vec![], vec![]);
    for v in 0..n {
        for w in if inn { m.inn(v) } else { m.out(v) } {
            e.push(w);
            l.push(if inn { m.edge(w, v) } else { m.edge(v, w) }.unwrap());
        }
        o.push(e.len());
    }
    (o, e, l)
}

fn direct<C: Cfg>(max_n: usize) {
    for n in 0..=max_n {
        let slots: Vec<(usize, usize)> =
            (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|&(i, j)| C::DIR || i <= j).collect();
        let ne = slots.len() as u32;
        bound(format!("{}: all {} graphs on {} nodes as offset/edge arrays, 5 labellings, 6 constructors", C::NAME, 1u64 << ne, n));
        par_for(1usize << ne, 4, |bits| {
            for lab in 0..5usize {
                let mut m = Model::new(C::DIR);
                for i in 0..n {
                    m.nodes.insert(i, if lab < 2 { None } else { [Some(1), None, Some(0)][(i + lab) % 3] });
                }
                for (k, &e) in slots.iter().enumerate() {
                    if bits >> k & 1 == 1 {
                        m.edges.insert(e, if lab == 0 || lab == 2 { None } else { [Some(0), Some(1), None][(k + lab + bits) % 3] });
                    }
                }
                let (nl, el) = (lab >= 2, lab == 1 || lab >= 3);
                if nl {
                    m.nmap = vec![0, 1];
                }
                if el {
                    m.emap = vec![0, 1];
                }
                case(
                    || format!("{} arrays n {} bits {:x} labelling {}", C::NAME, n, bits, lab),
                    || {
                        count(1, 6);
                        built::<C>(&m, n, nl, el)
                    },
                );
            }
        });
    }
}

fn built<C: Cfg>(m: &Model, n: usize, nl: bool, el: bool) -> Res {
    let ids = probe_ids::<C>(m, &[0, 1, 2]);
    let lid = |map: &[Letter], l: &Lb| letter_id(map, *l).map_or(C::L::max_value(), C::L::new);
    let vec_of = |inn: bool| {
        let (o, e, l) = csr(m, n, inn);
        let e: Vec<C::Id> = e.iter().map(|&x| C::Id::new(x)).collect();
        let l: Vec<C::L> = l.iter().map(|l| lid(&m.emap, l)).collect();
        (o, e, l)
    };
    let ev = |k: usize| {
        let (o, e, l) = vec_of(false);
        if el {
            if k % 2 == 0 { EdgeVec::with_labels(o, e, l) } else { EdgeVec::from_raw(o, e, Some(l)) }
        } else if k % 2 == 0 {
            EdgeVec::new(o, e)
        } else {
            EdgeVec::from_raw(o, e, None)
        }
    };
    let iev = || {
        if C::DIR {
            let (o, e, l) = vec_of(true);
            Some(if el { EdgeVec::with_labels(o, e, l) } else { EdgeVec::new(o, e) })
        } else {
            None
        }
    };
    let labels: Vec<C::L> = m.nodes.values().map(|l| lid(&m.nmap, l)).collect();
    let nm = || SetMap::from_vec(m.nmap.iter().map(|&k| C::N::mk(k)).collect());
    let em = || SetMap::from_vec(m.emap.iter().map(|&k| C::E::mk(k)).collect());
    // the edge vector itself
    let e = ev(0);
    let (o, es, ls) = vec_of(false);
    want!(e.get_offsets() == &o[..] && e.get_edges() == &es[..], "edge vector does not hold its arrays");
    want!(e.get_labels() == if el { &ls[..] } else { &[] }, "edge vector labels {:?}", e.get_labels());
    want!(e.num_nodes() == n && e.num_edges() == es.len(), "edge vector counts {} / {}", e.num_nodes(), e.num_edges());
    for i in 0..n + 2 {
        let x = C::Id::new(i);
        want!(e.has_node(x) == (i < n), "edge vector has_node({}) = {}", i, e.has_node(x));
        if i < n {
            let a: Vec<usize> = e.neighbors(x).iter().map(|y| y.id()).collect();
            want!(a == m.out(i) && e.degree(x) == a.len(), "edge vector neighbors({}) = {:?}", i, a);
        }
        for j in 0..n + 2 {
            let y = C::Id::new(j);
            let has = i < n && j < n && m.has_edge(i, j);
            want!(e.has_edge(x, y) == has, "edge vector has_edge({},{}) = {}", i, j, !has);
            let idx = e.find_edge_index(x, y);
            want!(idx.is_some() == has, "edge vector find_edge_index({},{}) = {:?}", i, j, idx);
            if let Some(k) = idx {
                want!(es[k] == y && o[i] <= k && k < o[i + 1], "edge vector find_edge_index({},{}) = {}", i, j, k);
                want!(
                    e.find_edge_label_id(x, y) == if el { Some(&ls[k]) } else { None },
                    "edge vector find_edge_label_id({},{}) = {:?}", i, j, e.find_edge_label_id(x, y)
                );
            } else {
                want!(e.find_edge_label_id(x, y).is_none(), "edge vector label of absent ({},{})", i, j);
            }
        }
    }
    let mut c = ev(1);
    want!(c == e, "from_raw and the other constructors disagree");
    c.shrink_to_fit();
    want!(c == e, "shrink_to_fit changes an edge vector");
    c.remove_labels();
    want!(c.get_labels().is_empty() && c.get_edges() == e.get_edges() && c.get_offsets() == e.get_offsets(), "EdgeVec::remove_labels changes more than labels");
    c.clear();
    let empty = |c: &EdgeVec<C::Id, C::L>| {
        let z = C::Id::new(0);
        c.num_nodes() == 0 && c.num_edges() == 0 && !c.has_node(z) && c.get_edges().is_empty() && c.get_labels().is_empty() && c.find_edge_index(z, z).is_none() && c.find_edge_label_id(z, z).is_none()
    };
    want!(empty(&c), "cleared edge vector is not empty");
    let mut c = ev(0);
    c.clear();
    want!(empty(&c), "cleared edge vector (labels kept until then) is not empty");
    let d: EdgeVec<C::Id, C::L> = Default::default();
    want!(empty(&d), "default edge vector is not empty");
    let (nn, ne) = (m.nodes.len(), m.edges.len());
    for how in 0..7 {
        let s: Stat<C> = match how {
            0 if !nl && !el => TypedStaticGraph::new(ev(0), iev(), None, None),
            1 if !nl && !el => TypedStaticGraph::new(ev(1), iev(), Some(nn), Some(ne)),
            2 if nl => TypedStaticGraph::with_labels(ev(0), iev(), labels.clone(), nm(), em(), None, None),
            3 if nl => TypedStaticGraph::with_labels(ev(1), iev(), labels.clone(), nm(), em(), Some(nn), Some(ne)),
            4 => TypedStaticGraph::from_raw(nn, ne, ev(0), iev(), if nl { Some(labels.clone()) } else { None }, nm(), em()),
            // put together part by part from other, label-free parts
            6 => {
                let (o, e, _) = vec_of(false);
                let inn = if C::DIR { Some(EdgeVec::new(o.clone(), e.clone())) } else { None };
                let mut s: Stat<C> = TypedStaticGraph::from_raw(nn, ne, EdgeVec::new(o, e), inn, None, SetMap::new(), SetMap::new());
                *s.get_in_edge_vec_mut() = iev();
                *s.get_labels_mut() = if nl { Some(labels.clone()) } else { None };
                *s.get_edge_label_map_mut() = em();
                *s.get_node_label_map_mut() = nm();
                *s.get_edge_vec_mut() = ev(0);
                s
            }
            // dumped, and opened without the file of counts and dictionaries
            5 if !nl && !el => {
                let s: Stat<C> = TypedStaticGraph::new(ev(0), iev(), Some(nn), Some(ne));
                let p = scratch_file("noaux");
                let p = p.to_str().unwrap();
                s.dump_mmap(p).map_err(|e| e.to_string())?;
                std::fs::remove_file(format!("{}_aux.bin", p)).map_err(|e| e.to_string())?;
                view::<C>(&Mm::<C>::new(p), m, ALL, "mmap without counts", &ids)?;
                continue;
            }
            _ => continue,
        };
        view::<C>(C::sg(&s), m, ALL, &format!("static (constructor {})", how), &ids)?;
        want!(s.get_edge_vec() == &ev(0), "get_edge_vec() is not the given edge vector");
        want!(s.get_in_edge_vec() == &iev(), "get_in_edge_vec() is not the given one");
        want!(s.get_node_label_map() == &nm() && s.get_edge_label_map() == &em(), "the label dictionaries are not the given ones (constructor {})", how);
        want!(s.get_labels() == &if nl { Some(labels.clone()) } else { None }, "get_labels() is not the given list");
        for i in 0..n {
            for j in 0..n {
                let (x, y) = (C::Id::new(i), C::Id::new(j));
                want!(s.find_edge_index(x, y) == e.find_edge_index(x, y), "find_edge_index({},{}) of the graph", i, j);
            }
        }
    }
    Ok(())
}

fn refused() {
    for a in 0..6usize {
        for b in 0..6usize {
            case(
                || format!("with_labels of {} edges and {} labels", a, b),
                || {
                    count(1, 2);
                    for raw in [false, true] {
                        let r = guard(|| {
                            let (o, e, l) = (vec![0, a], vec![0u32; a], vec![0u32; b]);
                            if raw { EdgeVec::from_raw(o, e, Some(l)) } else { EdgeVec::with_labels(o, e, l) }
                        });
                        want!(r.is_err() == (a != b), "{} edges with {} labels: refused: {}", a, b, r.is_err());
                    }
                    Ok(())
                },
            );
        }
    }
    case(
        || "directed static graph without in-edges".into(),
        || {
            count(1, 6);
            for n in 0..3usize {
                let ev = || EdgeVec::<u32>::new(vec![0; n + 1], vec![]);
                let m = || SetMap::<u32>::new();
                let a = guard(|| TypedStaticGraph::<u32, u32, u32, rust_graph::generic::Directed>::new(ev(), None, None, None));
                want!(a.is_err(), "TypedStaticGraph::new accepts a directed graph without in-edges");
                let a = guard(|| TypedStaticGraph::<u32, u32, u32, rust_graph::generic::Directed>::with_labels(ev(), None, vec![0; n], m(), m(), None, None));
                want!(a.is_err(), "TypedStaticGraph::with_labels accepts a directed graph without in-edges");
                let a = guard(|| TypedStaticGraph::<u32, u32, u32, rust_graph::generic::Directed>::from_raw(n, 0, ev(), None, None, m(), m()));
                want!(a.is_err(), "TypedStaticGraph::from_raw accepts a directed graph without in-edges");
            }
            Ok(())
        },
    );
}

fn c34() {
    refused();
    direct::<U32Un>(if thorough() { 5 } else { 4 });
    direct::<U32Di>(if thorough() { 4 } else { 3 });
    direct::<U8Un>(3);
    direct::<U8Di>(if thorough() { 3 } else { 2 });
    direct::<MixUn>(3);
    direct::<MixDi>(2);
    // the shapes, rebuilt from their own arrays
    shapes::<U32Un>();
    shapes::<U32Di>();
}

fn shapes<C: Cfg>() {
    let mut all: Vec<(String, Init)> = bases::<C>().into_iter().map(|b| (b.name, Init::Script(b.ops))).collect();
    for (_, v) in scales(thorough()) {
        all.extend(v.into_iter().map(|i| (i.text(), i)));
    }
    bound(format!("{}: {} larger shapes as offset/edge arrays, 3 labellings", C::NAME, all.len()));
    par_for(all.len(), 1, |i| {
        let (name, init) = &all[all.len() - 1 - i];
        let (_, m) = init.make::<C>();
        if !m.dense() {
            return;
        }
        for (nl, el) in [(false, false), (true, true), (true, false)] {
            let mut m = m.clone();
            strip(&mut m, !nl, !el);
            case(
                || format!("{} shape {} {} {}", C::NAME, name, nl, el),
                || {
                    count(1, 6);
                    built::<C>(&m, m.nodes.len(), nl, el)
                },
            );
        }
    });
}

// ---------------------------------------------------------------- C35

trait Pat: Copy + PartialEq + std::fmt::Debug + 'static {
    fn pat(i: usize) -> Self;
}
macro_rules! pat {
    ($($t:ty),*) => { $(impl Pat for $t { fn pat(i: usize) -> $t { (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) as $t ^ i as $t } })* };
}
pat!(u8, u16, u32, u64, usize, i32);
impl Pat for [u8; 3] {
    fn pat(i: usize) -> [u8; 3] {
        [i as u8, (i >> 3) as u8 ^ 0x55, (i * 7) as u8]
    }
}
impl Pat for (u32, u16) {
    fn pat(i: usize) -> (u32, u16) {
        (u32::pat(i), u16::pat(i + 1))
    }
}

fn write_file<T: Pat>(p: &Path, n: usize) -> Result<Vec<T>, String> {
    let data: Vec<T> = (0..n).map(T::pat).collect();
    let f = std::fs::File::create(p).map_err(|e| e.to_string())?;
    unsafe { dump(&data, f).map_err(|e| format!("dump failed: {}", e))? };
    Ok(data)
}

fn slices<T: Pat>(name: &str, max: usize) {
    let sz = std::mem::size_of::<T>();
    bound(format!("{}: every length 0..={}, every number of surplus bytes, every from- and to-range", name, max));
    par_for(max + 1, 1, |n| {
        for extra in 0..sz {
            case(
                || format!("{} length {} surplus {}", name, n, extra),
                || {
                    let p = scratch_file("mm");
                    let data = write_file::<T>(&p, n)?;
                    if extra > 0 {
                        use std::io::Write;
                        let mut f = std::fs::OpenOptions::new().append(true).open(&p).map_err(|e| e.to_string())?;
                        f.write_all(&vec![0xAB; extra]).map_err(|e| e.to_string())?;
                    }
                    let mut maps = vec![TypedMemoryMap::<T>::new(&p)];
                    if n * sz + extra > 0 {
                        let f = std::fs::File::open(&p).map_err(|e| e.to_string())?;
                        maps.push(TypedMemoryMap::<T>::with_mmap(unsafe { memmap::Mmap::map(&f).map_err(|e| e.to_string())? }));
                    }
                    for m in &maps {
                        want!(m.len == n, "len {}, expected {}", m.len, n);
                        want!(m[..] == data[..], "full range reads {:?}, written {:?}", &m[..], data);
                        for k in (0..n + 3).chain([n * 2 + 4, usize::MAX / sz, usize::MAX - 1, usize::MAX]) {
                            count(1, 2);
                            let r = guard(|| m[k..].to_vec());
                            match (&r, k <= n) {
                                (Ok(v), true) => want!(v[..] == data[k..], "range {}.. reads {:?}, written {:?}", k, v, &data[k..]),
                                (Err(e), true) => return Err(format!("range {}.. of {} elements: {}", k, n, e)),
                                (Ok(v), false) => return Err(format!("range {}.. of {} elements returned {} elements", k, n, v.len())),
                                _ => {}
                            }
                            let r = guard(|| m[..k].len());
                            match (&r, k <= n) {
                                (Ok(l), true) => want!(*l == k && m[..k] == data[..k], "range ..{} reads {:?}, written {:?}", k, &m[..k], &data[..k]),
                                (Err(e), true) => return Err(format!("range ..{} of {} elements: {}", k, n, e)),
                                (Ok(l), false) => return Err(format!("range ..{} of {} elements returned {} elements", k, n, l)),
                                _ => {}
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}

struct Slow {
    out: Vec<u8>,
    step: usize,
    tick: usize,
}
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick += 1;
        if self.tick % 3 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let n = b.len().min(self.step);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Lengths around buffer and chunk sizes.
fn long<T: Pat>(name: &str, max_bytes: usize) {
    let sz = std::mem::size_of::<T>();
    let mut lens: Vec<usize> = vec![];
    for edge in [4096usize, 8192, 10000, 16384, 20000, 30000, 65536] {
        if edge <= max_bytes {
            for d in 0..9 {
                lens.push((edge / sz + d).saturating_sub(4));
            }
        }
    }
    if thorough() {
        lens = (0..max_bytes / sz).collect();
    }
    bound(format!("{}: {} lengths up to {} bytes", name, lens.len(), max_bytes));
    par_for(lens.len(), 4, |i| {
        let n = lens[i];
        case(
            || format!("{} long {}", name, n),
            || {
                count(1, 3);
                let p = scratch_file("mm");
                let data = write_file::<T>(&p, n)?;
                let m = TypedMemoryMap::<T>::new(&p);
                want!(m.len == n && m[..] == data[..], "a file of {} elements does not read back (len {})", n, m.len);
                let k = n / 2;
                want!(m[k..] == data[k..] && m[..k] == data[..k], "half ranges of {} elements differ", n);
                let mut w = Slow { out: vec![], step: 1 + n % 4097, tick: 0 };
                unsafe { dump(&data, &mut w).map_err(|e| format!("dump to a slow writer failed: {}", e))? };
                let file = std::fs::read(&p).map_err(|e| e.to_string())?;
                want!(w.out == file, "dump to a writer taking few bytes at a time wrote {} bytes, the file has {}", w.out.len(), file.len());
                Ok(())
            },
        );
    });
}

fn c35() {
    let n = if thorough() { 200 } else { 40 };
    slices::<u8>("u8", n);
    slices::<u16>("u16", n);
    slices::<u32>("u32", n);
    slices::<u64>("u64", n);
    slices::<usize>("usize", n);
    slices::<i32>("i32", n);
    slices::<[u8; 3]>("[u8;3]", n);
    slices::<(u32, u16)>("(u32,u16)", n / 2);
    let b = if thorough() { 30100 } else { 66000 };
    long::<u8>("u8", b);
    long::<u32>("u32", b);
    long::<usize>("usize", b);
    long::<[u8; 3]>("[u8;3]", b);
    long::<(u32, u16)>("(u32,u16)", b);
}

fn main() {
    const GRAPH: &str = "every state reachable from the listed start graphs by the listed operations is visited once; whenever its node ids are 0..n-1 it is frozen (and dumped) and every query of the result is compared with the model";
    const ARR: &[&str] = &["arrays are valid and sorted, as the documentation demands"];
    let p = |id, level, rule, assumptions, run| Prop { id, level, rule, assumptions, run };
    mc::main(move || {
        vec![
            p("C11", "model_checking", GRAPH, &[], c11 as fn()),
            p("C12", "model_checking", GRAPH, &[], c12),
            p("C13", "model_checking", "a state is the content of a path prefix after a sequence of dumps; transitions dump one more graph over it; the prefix is reopened and compared with the model of the last graph", &[], c13),
            p("C32", "model_checking", GRAPH, &[], c32),
            p("C34", "model_checking", "a state is one static graph built from arrays, reached through each constructor (transitions); every query is compared with the model the arrays were derived from", ARR, c34),
            p("C35", "model_checking", "a state is a written file and one index range; both range forms are evaluated (transitions) and compared with the written elements", &[], c35),
        ]
    })
}
