//! C19-C22, C25, C31: traversals, components, reordering, mutable handles.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::atomic::Ordering::Relaxed;

use mc::core::*;
use mc::explore::*;
use mc::fam::*;
use mc::util::*;
use mc::view::*;
use mc::Prop;
use rust_graph::algorithm::{ConnComp, ConnSubgraph};
use rust_graph::generic::{
    EdgeTrait, GraphLabelTrait, GraphTrait, IdType, MapTrait, MutEdgeTrait, MutGraphTrait,
    MutNodeTrait, NodeTrait,
};
use rust_graph::graph_impl::Edge;
use rust_graph::map::{SetMap, VecMap};

/// The traversals keep a bit per id below the maximum: no room for 2^32 of them per run.
const ID_LIMIT: usize = 1 << 17;

struct Adj {
    ids: Vec<usize>,
    out: BTreeMap<usize, Vec<usize>>,
}

fn adj(m: &Model) -> Adj {
    let mut out: BTreeMap<usize, Vec<usize>> = m.nodes.keys().map(|&v| (v, vec![])).collect();
    for &(s, t) in m.edges.keys() {
        out.get_mut(&s).unwrap().push(t);
        if !m.directed && s != t {
            out.get_mut(&t).unwrap().push(s);
        }
    }
    for v in out.values_mut() {
        v.sort();
    }
    Adj { ids: m.nodes.keys().copied().collect(), out }
}

// ---------------------------------------------------------------- C19

/// `seq` is a complete breadth-first sequence.
fn bfs_valid(a: &Adj, start: Option<usize>, seq: &[usize], what: &str) -> Res {
    let mut left: BTreeSet<usize> = a.ids.iter().copied().collect();
    let mut i = 0;
    while i < seq.len() {
        let root = seq[i];
        if i == 0 {
            if let Some(s) = start {
                want!(root == s, "{}: the first node is {}, not the start {}: {:?}", what, root, s, seq);
            }
        }
        want!(left.contains(&root), "{}: node {} at position {} is not in the graph or was visited before: {:?}", what, root, i, seq);
        // distances among the unvisited
        let mut dist: HashMap<usize, usize> = HashMap::new();
        dist.insert(root, 0);
        let mut q = VecDeque::new();
        q.push_back(root);
        while let Some(v) = q.pop_front() {
            let d = dist[&v];
            for &w in &a.out[&v] {
                if left.contains(&w) && !dist.contains_key(&w) {
                    dist.insert(w, d + 1);
                    q.push_back(w);
                }
            }
        }
        let mut last = 0;
        for k in 0..dist.len() {
            let v = match seq.get(i + k) {
                Some(&v) => v,
                None => return Err(format!("{}: ends after {:?} although nodes reachable from {} are unvisited", what, seq, root)),
            };
            let d = match dist.get(&v) {
                Some(&d) if left.contains(&v) => d,
                _ => return Err(format!("{}: node {} at position {} is not an unvisited node reachable from {}: {:?}", what, v, i + k, root, seq)),
            };
            want!(d >= last, "{}: node {} (distance {} from {}) comes after a node at distance {}: {:?}", what, v, d, root, last, seq);
            last = d;
            left.remove(&v);
        }
        i += dist.len();
    }
    want!(left.is_empty(), "{}: nodes {:?} are never visited: {:?}", what, left, seq);
    Ok(())
}

fn starts(a: &Adj) -> Vec<Option<usize>> {
    let n = a.ids.len();
    let mut v = vec![None];
    if n <= 20 {
        v.extend(a.ids.iter().map(|&x| Some(x)));
    } else {
        for k in [0, 1, 2, n / 3, n / 2, n - 2, n - 1] {
            v.push(Some(a.ids[k]));
        }
    }
    v
}

fn usable(m: &Model) -> bool {
    !m.nodes.is_empty() && m.max.map_or(true, |x| x < ID_LIMIT)
}

/// Some ids the graph does not have.
fn absent_starts<C: Cfg>(m: &Model) -> Vec<usize> {
    if m.nodes.len() > 3 {
        return vec![];
    }
    let mut v = vec![0, 1, 2];
    if let Some(x) = m.max {
        v.extend([x, x + 1]);
    }
    v.sort();
    v.dedup();
    v.retain(|x| !m.nodes.contains_key(x) && *x <= C::Id::max_value().id());
    v
}

pub struct Bfs;
impl StateCheck for Bfs {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        if !usable(m) {
            return Ok(());
        }
        run().nontrivial.fetch_add(1, Relaxed);
        let a = adj(m);
        let n = a.ids.len();
        for r in all_reps::<C>(g, m, "bfs")? {
            for s in absent_starts::<C>(m) {
                let id = Some(C::Id::new(s));
                let x = guard(|| C::bfs(&r, id).take(n + 5).map(|x| x.id()).collect::<Vec<_>>());
                want!(x.is_err(), "Bfs on the {} graph started at {}, which is not in the graph, yields {:?}", r.name(), s, x);
            }
            for s in starts(&a) {
                let what = format!("Bfs on the {} graph from {:?}", r.name(), s);
                let id = s.map(C::Id::new);
                let mut it = C::bfs(&r, id);
                let seq: Vec<usize> = it.by_ref().take(n + 5).map(|x| x.id()).collect();
                bfs_valid(&a, s, &seq, &what)?;
                want!(it.next().is_none() && it.next().is_none(), "{}: yields nodes after its end", what);
                if n <= 3 {
                    for at in 0..=n {
                        let (pre, x, y) = C::bfs_boxed_clone(&r, id, at);
                        for (w, rest) in [("the original", x), ("a clone", y)] {
                            let seq: Vec<usize> = pre.iter().chain(&rest).map(|x| x.id()).collect();
                            bfs_valid(&a, s, &seq, &format!("{}, {} after a clone at {}", what, w, at))?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn traversal_sweep<K: StateCheck>(k: &K) {
    Sweep { extra: F_MISC, modes: (0..24).map(|m| (m, 0)).collect(), giants: true, ..Default::default() }.run(k);
    fn more<C: Cfg, K: StateCheck>(k: &K) {
        let chk = |g: &Map<C>, m: &Model| k.check::<C>(g, m);
        explore::<C>(&Profile::new("wide gaps", &[3, 64, 1000], &a0(), &a0()), false, &chk, None);
        let mut o = vec![];
        for (i, &x) in [5u32, 31, 32, 33, 63, 64, 65, 700].iter().enumerate() {
            o.push(Op::AddEdge(x, [64, 5, 31, 700, 32][i % 5], None));
            o.push(Op::AddNode(x + 200, None));
        }
        o.push(Op::RemNode(31));
        o.push(Op::AddNode(5000, None));
        o.push(Op::RemNode(5000));
        explore::<C>(
            &Profile::new("gappy history", &[5, 32, 265], &a0(), &a0()).depth(if thorough() { 3 } else { 2 }).inits(vec![Init::Script(o)]),
            false,
            &chk,
            None,
        );
        if thorough() {
            explore::<C>(&Profile::new("5 ids bare builds", &[0, 1, 2, 3, 4], &a0(), &a0()).flags(F_ADDE).depth(if C::DIR { 6 } else { usize::MAX }), false, &chk, None);
        }
    }
    more::<U32Di, K>(k);
    more::<U32Un, K>(k);
}

fn c19() {
    traversal_sweep(&Bfs);
}

// ---------------------------------------------------------------- C20

/// `seq` is a complete depth-first sequence.
fn dfs_valid(a: &Adj, start: Option<usize>, seq: &[usize], what: &str) -> Res {
    let mut left: BTreeSet<usize> = a.ids.iter().copied().collect();
    let mut path: Vec<usize> = vec![];
    // how many of a node's neighbours, in order, are known to be visited
    let mut past: HashMap<usize, usize> = HashMap::new();
    for (i, &v) in seq.iter().enumerate() {
        if i == 0 {
            if let Some(s) = start {
                want!(v == s, "{}: the first node is {}, not the start {}: {:?}", what, v, s, seq);
            }
        }
        want!(left.contains(&v), "{}: node {} at position {} is not in the graph or was visited before: {:?}", what, v, i, seq);
        while let Some(&p) = path.last() {
            let k = past.entry(p).or_insert(0);
            while *k < a.out[&p].len() && !left.contains(&a.out[&p][*k]) {
                *k += 1;
            }
            if *k < a.out[&p].len() {
                break;
            }
            path.pop();
        }
        if let Some(p) = path.last() {
            want!(
                a.out[p].binary_search(&v).is_ok(),
                "{}: node {} at position {} is not a neighbour of {}, the most recently visited node with an unvisited one: {:?}",
                what, v, i, p, seq
            );
        }
        left.remove(&v);
        path.push(v);
    }
    want!(left.is_empty(), "{}: nodes {:?} are never visited: {:?}", what, left, seq);
    Ok(())
}

pub struct Dfs;
impl StateCheck for Dfs {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        if !usable(m) {
            return Ok(());
        }
        run().nontrivial.fetch_add(1, Relaxed);
        let a = adj(m);
        let n = a.ids.len();
        for r in all_reps::<C>(g, m, "dfs")? {
            for s in absent_starts::<C>(m) {
                let id = Some(C::Id::new(s));
                let x = guard(|| C::dfs(&r, id).take(n + 5).map(|x| x.id()).collect::<Vec<_>>());
                want!(x.is_err(), "Dfs on the {} graph started at {}, which is not in the graph, yields {:?}", r.name(), s, x);
            }
            for s in starts(&a) {
                let what = format!("Dfs on the {} graph from {:?}", r.name(), s);
                let id = s.map(C::Id::new);
                let mut it = C::dfs(&r, id);
                let seq: Vec<usize> = it.by_ref().take(n + 5).map(|x| x.id()).collect();
                dfs_valid(&a, s, &seq, &what)?;
                want!(it.next().is_none() && it.next().is_none(), "{}: yields nodes after its end", what);
                // reset and clone at every point of the traversal (some points of a long one)
                let points: Vec<usize> = if n <= 5 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 1, n] };
                let mut over: Option<Vec<usize>> = None;
                for at in points {
                    if n > 5 && s != Some(a.ids[0]) && s.is_some() {
                        continue;
                    }
                    let mut it = C::dfs(&r, id);
                    let pre: Vec<usize> = it.by_ref().take(at).map(|x| x.id()).collect();
                    if n <= 3 {
                        let copy = it.clone();
                        let rest: Vec<usize> = copy.take(n + 5).map(|x| x.id()).collect();
                        let full: Vec<usize> = pre.iter().copied().chain(rest).collect();
                        dfs_valid(&a, s, &full, &format!("{}, continued by a clone at {}", what, at))?;
                    }
                    it.reset();
                    let seq: Vec<usize> = it.by_ref().take(n + 5).map(|x| x.id()).collect();
                    dfs_valid(&a, None, &seq, &format!("{}, reset after {:?}", what, pre))?;
                    // starting over does not depend on what was visited before
                    match &over {
                        None => over = Some(seq),
                        Some(o) => want!(*o == seq, "{}: reset at once, the traversal yields {:?}; reset after {:?}, it yields {:?}", what, o, pre, seq),
                    }
                    it.reset();
                    let first: Vec<usize> = it.by_ref().take(1).map(|x| x.id()).collect();
                    it.reset();
                    let seq: Vec<usize> = it.by_ref().take(n + 5).map(|x| x.id()).collect();
                    dfs_valid(&a, None, &seq, &format!("{}, reset again after {:?}", what, first))?;
                    want!(over.as_ref() == Some(&seq), "{}: reset at once, the traversal yields {:?}; reset again after {:?}, it yields {:?}", what, over, first, seq);
                }
                if let Some(s) = s {
                    let top = m.max.unwrap() + 1;
                    for own in [true, false] {
                        let mut bits = fixedbitset::FixedBitSet::with_capacity(top);
                        bits.insert_range(..);
                        bits.set(s, own);
                        let it = C::dfs_parts(&r, vec![C::Id::new(s)], bits);
                        let seq: Vec<usize> = it.take(n + 5).map(|x| x.id()).collect();
                        dfs_valid(&a, Some(s), &seq, &format!("{}, made from parts", what))?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn c20() {
    traversal_sweep(&Dfs);
}

// ---------------------------------------------------------------- C21

/// Classes of nodes joined by edges.
fn classes(m: &Model) -> BTreeMap<usize, BTreeSet<usize>> {
    let mut c: BTreeMap<usize, usize> = m.nodes.keys().map(|&v| (v, v)).collect();
    loop {
        let mut changed = false;
        for &(s, t) in m.edges.keys() {
            let k = c[&s].min(c[&t]);
            if c[&s] != k || c[&t] != k {
                c.insert(s, k);
                c.insert(t, k);
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    let mut r: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (v, k) in c {
        r.entry(k).or_default().insert(v);
    }
    r
}

/// The class of every known node.
type Part = BTreeMap<usize, std::sync::Arc<BTreeSet<usize>>>;

fn by_node(cl: &BTreeMap<usize, BTreeSet<usize>>) -> Part {
    let mut p = Part::new();
    for c in cl.values() {
        let shared = std::sync::Arc::new(c.clone());
        p.extend(c.iter().map(|&v| (v, shared.clone())));
    }
    p
}

/// Everything `cc` answers, against the partition.
fn comp_answers<Id: IdType>(cc: &ConnComp<Id>, part: &Part, ids: &[usize], what: &str) -> Res {
    let n = part.iter().filter(|(v, c)| c.first() == Some(*v)).count();
    want!(cc.get_count() == n, "{}: get_count() = {}, expected {} ({} nodes in {:?})", what, cc.get_count(), n, part.len(), part.values().filter(|c| c.len() < 30).collect::<BTreeSet<_>>());
    for &u in ids {
        let x = Id::new(u);
        let known = part.get(&u);
        match (cc.get_root(x).map(|r| r.id()), known) {
            (None, None) => {}
            (Some(r), Some(c)) => want!(c.contains(&r), "{}: get_root({}) = {}, which is not in its component {:?}", what, u, r, c),
            (r, k) => return Err(format!("{}: get_root({}) = {:?}, but its component is {:?}", what, u, r, k)),
        }
        match (cc.get_parent(x).map(|r| r.id()), known) {
            (None, None) => {}
            (Some(r), Some(c)) => want!(c.contains(&r), "{}: get_parent({}) = {}, which is not in its component {:?}", what, u, r, c),
            (r, k) => return Err(format!("{}: get_parent({}) = {:?}, but its component is {:?}", what, u, r, k)),
        }
        let got = cc.get_connected_nodes(x).map(|v| {
            let mut v: Vec<usize> = v.iter().map(|y| y.id()).collect();
            v.sort();
            v
        });
        let exp = known.map(|c| c.iter().copied().collect::<Vec<_>>());
        want!(got == exp, "{}: get_connected_nodes({}) = {:?}, expected {:?}", what, u, got, exp);
        for &v in ids {
            let exp = known.map_or(false, |c| c.contains(&v));
            let got = cc.is_connected(x, Id::new(v));
            want!(got == exp, "{}: is_connected({},{}) = {}, expected {}", what, u, v, got, exp);
            if known.is_some() && part.contains_key(&v) {
                let same = cc.get_root(x) == cc.get_root(Id::new(v));
                want!(same == exp, "{}: roots of {} and {} equal: {}, connected: {}", what, u, v, same, exp);
            }
        }
    }
    Ok(())
}

pub struct Comp;
impl StateCheck for Comp {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let part = by_node(&classes(m));
        let mut ids = probe_ids::<C>(m, &[0, 1, 2]);
        if ids.len() > 40 {
            let k = ids.len() / 20;
            ids = ids.iter().copied().step_by(k).chain([*ids.last().unwrap()]).collect();
        }
        reps::<C>(g, m, &mut |g, who| {
            let mut cc = ConnComp::new(g);
            comp_answers(&cc, &part, &ids, &format!("ConnComp::new on the {} graph", who))?;
            cc.run_detection(g);
            comp_answers(&cc, &part, &ids, &format!("detection repeated on the {} graph", who))?;
            cc.reset();
            comp_answers(&cc, &Part::new(), &ids, &format!("after a reset, {} graph", who))?;
            cc.run_detection(g);
            comp_answers(&cc, &part, &ids, &format!("detection after a reset on the {} graph", who))?;
            // the same by single edges, isolated nodes excepted (edges cannot tell of them)
            let mut by_edges = ConnComp::<C::Id>::empty();
            for e in g.edges() {
                by_edges.process_new_edge(&e);
            }
            let touched: BTreeSet<usize> = m.edges.keys().flat_map(|&(s, t)| [s, t]).collect();
            let p2: Part = part.iter().filter(|(v, _)| touched.contains(v)).map(|(v, c)| (*v, c.clone())).collect();
            comp_answers(&by_edges, &p2, &ids, &format!("edges of the {} graph fed one by one", who))?;
            // no queries in between at all
            let mut silent = ConnComp::<C::Id>::with_capacity(3);
            let mut es: Vec<_> = g.edges().map(|e| (e.get_start(), e.get_target())).collect();
            es.reverse();
            for (s, t) in es {
                silent.process_new_edge(&Edge::<C::Id, C::L>::new(t, s, None));
            }
            comp_answers(&silent, &p2, &ids, &format!("edges of the {} graph fed reversed", who))
        })
    }
}

/// Reachable states of a ConnComp under feeding edges and asking questions in any order.
fn comp_machine(n: usize, top: Option<usize>, detect: bool) {
    let name = format!("component machine, {} ids{}{}", n, if top.is_some() { ", extreme" } else { "" }, if detect { ", whole graphs" } else { "" });
    let ids: Vec<usize> = (0..n).map(|i| if let (Some(t), true) = (top, i + 1 == n) { t } else { i * 2 }).collect();
    let mut ask = ids.clone();
    ask.extend([1, 9]);
    #[derive(Clone, Debug)]
    enum Step {
        Feed(usize, usize),
        Root(usize),
        Conn(usize, usize),
        Nodes(usize),
        Detect(usize),
        Reset,
        Clone,
    }
    let mut steps = vec![];
    for &u in &ids {
        steps.push(Step::Root(u));
        steps.push(Step::Nodes(u));
        for &v in &ids {
            steps.push(Step::Feed(u, v));
            steps.push(Step::Conn(u, v));
        }
    }
    steps.push(Step::Root(1));
    steps.push(Step::Nodes(9));
    steps.push(Step::Conn(1, ids[0]));
    steps.push(Step::Conn(ids[0], 9));
    steps.push(Step::Reset);
    steps.push(Step::Clone);
    // graphs for run_detection: all on three of the ids
    let mut graphs: Vec<(Map<U32Un>, Map<U32Di>, Model)> = vec![];
    if detect {
        for nodes in 0..8u32 {
            for edges in 0..64u32 {
                let pairs = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)];
                let (mut u, mut d) = (Map::<U32Un>::new(), Map::<U32Di>::new());
                let mut m = Model::new(false);
                if (0..6).any(|k| edges >> k & 1 == 1 && (nodes >> pairs[k].0 & 1 == 0 || nodes >> pairs[k].1 & 1 == 0)) {
                    continue;
                }
                for k in 0..3 {
                    if nodes >> k & 1 == 1 {
                        m.add_node(ids[k], None);
                        u.add_node(ids[k] as u32, None);
                        d.add_node(ids[k] as u32, None);
                    }
                }
                for (k, &(a, b)) in pairs.iter().enumerate() {
                    if edges >> k & 1 == 1 {
                        m.add_edge(ids[a], ids[b], None);
                        u.add_edge(ids[a] as u32, ids[b] as u32, None);
                        d.add_edge(ids[b] as u32, ids[a] as u32, None);
                    }
                }
                steps.push(Step::Detect(graphs.len()));
                graphs.push((u, d, m));
            }
        }
    }
    fn join(p: &mut Part, u: usize, v: usize) {
        for x in [u, v] {
            p.entry(x).or_insert_with(|| std::sync::Arc::new([x].into_iter().collect()));
        }
        let c: BTreeSet<usize> = p[&u].union(&p[&v]).copied().collect();
        let c = std::sync::Arc::new(c);
        for &x in c.iter() {
            p.insert(x, c.clone());
        }
    }
    /// Each worker copies its own items of the frontier only.
    struct Cc(ConnComp<u32>);
    unsafe impl Sync for Cc {}
    type State = (Cc, Part, Vec<usize>);
    let keyof = |c: &ConnComp<u32>, p: &Part| (canon(&format!("{:?}", c)), format!("{:?}", p));
    let limit = 2_000_000;
    let mut seen = std::collections::HashSet::new();
    let mut front: Vec<State> = vec![(Cc(ConnComp::empty()), Part::new(), vec![])];
    seen.insert(keyof(&front[0].0 .0, &front[0].1));
    let (mut states, mut transitions, mut depth) = (1usize, 0usize, 0);
    let one = |st: &State, k: usize| -> Result<State, (String, String)> {
        let mut c = st.0 .0.clone();
        let mut p = st.1.clone();
        let mut h = st.2.clone();
        h.push(k);
        let r = guard(|| -> Res {
            match &steps[k] {
                Step::Feed(u, v) => {
                    c.process_new_edge(&Edge::<u32, u32>::new(*u as u32, *v as u32, None));
                    join(&mut p, *u, *v);
                }
                Step::Root(u) => {
                    c.get_root(*u as u32);
                }
                Step::Conn(u, v) => {
                    let got = c.is_connected(*u as u32, *v as u32);
                    let exp = p.get(u).map_or(false, |s| s.contains(v));
                    want!(got == exp, "is_connected({},{}) = {}, expected {}", u, v, got, exp);
                }
                Step::Nodes(u) => {
                    c.get_connected_nodes(*u as u32);
                }
                Step::Detect(i) => {
                    let (gu, gd, m) = &graphs[*i];
                    if i % 2 == 0 {
                        c.run_detection(U32Un::gg(gu));
                    } else {
                        c.run_detection(U32Di::gg(gd));
                    }
                    for &v in m.nodes.keys() {
                        p.entry(v).or_insert_with(|| std::sync::Arc::new([v].into_iter().collect()));
                    }
                    for &(s, t) in m.edges.keys() {
                        join(&mut p, s, t);
                    }
                }
                Step::Reset => {
                    c.reset();
                    p.clear();
                }
                Step::Clone => {
                    let mut other = c.clone();
                    other.reset();
                    other.process_new_edge(&Edge::<u32, u32>::new(ids[0] as u32, ids[1] as u32, None));
                }
            }
            comp_answers(&c.clone(), &p, &ask, "after the steps")
        });
        match r {
            Ok(Ok(())) => Ok((Cc(c), p, h)),
            Ok(Err(m)) => Err((format!("{:?}", h), m)),
            Err(m) => Err((format!("{:?}", h), panic_text(&m))),
        }
    };
    // replay of a recorded step list
    if let Some(o) = &run().only {
        if let Some(r) = o.strip_prefix(&format!("{}: ", name)) {
            run().only_hit.store(true, Relaxed);
            let mut st = front.remove(0);
            for k in r.trim_matches(&['[', ']'][..]).split(',').filter_map(|x| x.trim().parse::<usize>().ok()) {
                println!("step {:?}", steps[k]);
                match one(&st, k) {
                    Ok(s) => st = s,
                    Err((h, m)) => return violate(&format!("case: {}: {}\n", name, h), &m),
                }
            }
        }
        return;
    }
    while !front.is_empty() && states < limit && !stopped() {
        depth += 1;
        let next = std::sync::Mutex::new(Vec::new());
        par_for(front.len(), 8, |i| {
            let mut mine = vec![];
            for k in 0..steps.len() {
                match one(&front[i], k) {
                    Ok(s) => {
                        let key = keyof(&s.0 .0, &s.1);
                        mine.push((key, s));
                    }
                    Err((h, m)) => {
                        let list: Vec<String> = h.trim_matches(&['[', ']'][..]).split(", ").map(|k| format!("{:?}", steps[k.parse::<usize>().unwrap()])).collect();
                        violate(&format!("case: {}: {}\nsteps: {}\n", name, h, list.join("; ")), &m);
                        return;
                    }
                }
            }
            next.lock().unwrap().extend(mine);
        });
        transitions += front.len() * steps.len();
        let mut n2: Vec<_> = next.into_inner().unwrap();
        n2.sort_by(|a, b| (&a.0, &a.1 .2).cmp(&(&b.0, &b.1 .2)));
        front = vec![];
        for (k, s) in n2 {
            if seen.insert(k) {
                states += 1;
                front.push(s);
            }
        }
    }
    let r = run();
    r.states.fetch_add(states as u64, Relaxed);
    r.transitions.fetch_add(transitions as u64, Relaxed);
    r.validated.fetch_add(transitions as u64, Relaxed);
    r.nontrivial.fetch_add(states as u64, Relaxed);
    if !front.is_empty() {
        r.capped.store(true, Relaxed);
    }
    bound(format!("{}: every reachable state of the real ConnComp under feed/query/reset/detect steps", name));
    part(&name, format!("{} states, {} transitions, longest shortest history {}, {}", states, transitions, depth, if front.is_empty() { "complete" } else { "stopped early" }));
}

fn c21() {
    Sweep { extra: F_MISC, modes: (0..24).map(|m| (m, 0)).collect(), giants: true, ..Default::default() }.run(&Comp);
    comp_machine(2, None, false);
    comp_machine(3, None, true);
    comp_machine(4, None, false);
    comp_machine(4, Some(u32::MAX as usize), false);
    comp_machine(5, None, false);
    if thorough() {
        comp_machine(4, None, true);
        comp_machine(6, None, false);
    }
}

// ---------------------------------------------------------------- C22

pub struct Subgraphs;
impl StateCheck for Subgraphs {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let cl = classes(m);
        let node_class: HashMap<usize, usize> = cl.iter().flat_map(|(&k, c)| c.iter().map(move |&v| (v, k))).collect();
        reps::<C>(g, m, &mut |g, who| {
            for twice in [false, true] {
                let what = format!("subgraphs of the {} graph", who);
                let cs = if twice {
                    let mut cs = ConnSubgraph::empty(g);
                    cs.run_subgraph_enumeration(g);
                    cs
                } else {
                    ConnSubgraph::new(g)
                };
                let mut roots: Vec<(usize, usize)> =
                    m.nodes.keys().filter_map(|&v| cs.root_to_subgraph(C::Id::new(v)).map(|i| (i, v))).collect();
                roots.sort();
                let subs = cs.into_result();
                want!(subs.len() == cl.len(), "{}: {} of them, but there are {} components", what, subs.len(), cl.len());
                want!(
                    roots.iter().map(|x| x.0).collect::<Vec<_>>() == (0..subs.len()).collect::<Vec<_>>(),
                    "{}: nodes and the subgraphs they are root of: {:?}", what, roots
                );
                let mut used: BTreeSet<usize> = BTreeSet::new();
                for (i, s) in subs.iter().enumerate() {
                    let x = match s.node_indices().next() {
                        Some(x) => x.id(),
                        None => return Err(format!("{}: number {} has no nodes", what, i)),
                    };
                    let k = match node_class.get(&x) {
                        Some(&k) => k,
                        None => return Err(format!("{}: number {} has node {}, which is not in the graph", what, i, x)),
                    };
                    want!(used.insert(k), "{}: two of them for the component {:?}", what, cl[&k]);
                    want!(cl[&k].contains(&roots[i].1), "{}: {} is the root of number {}, which is the component {:?}", what, roots[i].1, i, cl[&k]);
                    let mut sub = Model::new(m.directed);
                    for &v in &cl[&k] {
                        sub.nodes.insert(v, m.nodes[&v]);
                    }
                    for (&(a, b), &l) in &m.edges {
                        if cl[&k].contains(&a) {
                            sub.edges.insert((a, b), l);
                        }
                    }
                    let s: &Gen<C> = &**s;
                    if m.nodes.len() <= 40 {
                        same_graph::<C>(s, &sub, &format!("{} number {}", what, i))?;
                    } else {
                        view::<C>(s, &sub, COUNT | ENUM, &format!("{} number {}", what, i), &[])?;
                    }
                }
            }
            Ok(())
        })
    }
}

fn c22() {
    Sweep { cost: Cost::Medium, modes: (0..24).map(|m| (m, 0)).collect(), ..Default::default() }.run(&Subgraphs);
    fn more<C: Cfg>() {
        let chk = |g: &Map<C>, m: &Model| Subgraphs.check::<C>(g, m);
        explore::<C>(&Profile::new("4 ids bare", &[0, 1, 2, 3], &a0(), &a0()).flags(F_ADDN | F_ADDE), false, &chk, None);
        if thorough() {
            explore::<C>(&Profile::new("5 ids bare", &[0, 1, 2, 3, 4], &a0(), &s1()).flags(F_ADDN | F_ADDE).depth(if C::DIR { 5 } else { usize::MAX }), false, &chk, None);
        }
    }
    more::<U32Un>();
    more::<U32Di>();
}

// ---------------------------------------------------------------- C25

fn total_degrees(m: &Model) -> BTreeMap<usize, usize> {
    let mut d: BTreeMap<usize, usize> = m.nodes.keys().map(|&v| (v, 0)).collect();
    for &(s, t) in m.edges.keys() {
        // both ends see an undirected edge going out and coming in; a loop is one neighbour each way
        let ends = if m.directed { vec![(s, 1), (t, 1)] } else if s == t { vec![(s, 2)] } else { vec![(s, 2), (t, 2)] };
        for (v, k) in ends {
            *d.get_mut(&v).unwrap() += k;
        }
    }
    d
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for i in 0..n {
        r = r
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                (0..=p.len()).map(move |k| {
                    let mut q = p.clone();
                    q.insert(k, i);
                    q
                })
            })
            .collect();
    }
    r
}

pub struct Reord;
impl Reord {
    fn judge<C: Cfg>(&self, g: &Map<C>, m: &Model, b: u8) -> Res {
        let (rn, rnl, rel) = (b & 1 != 0, b & 2 != 0, b & 4 != 0);
        let what = format!("reorder_id({}, {}, {})", rn, rnl, rel);
        let mut r = g.clone().reorder_id(rn, rnl, rel);
        let ng = match r.take_graph() {
            Some(g) => g,
            None => return Err(format!("{}: no graph in the result", what)),
        };
        want!(r.get_node_id_map().is_some() == rn, "{}: node id map present: {}", what, !rn);
        // the mapping
        let n = m.nodes.len();
        let mut order: Vec<usize> = vec![0; n];
        let mut tr: BTreeMap<usize, usize> = BTreeMap::new();
        if rn {
            let mut hit = vec![false; n];
            for &v in m.nodes.keys() {
                let w = r.find_new_node_id(C::Id::new(v)).id();
                want!(w < n && !hit[w], "{}: node {} gets id {} of {}, taken: {}", what, v, w, n, w < n && hit[w]);
                hit[w] = true;
                order[w] = v;
                tr.insert(v, w);
            }
            for (w, &v) in order.iter().enumerate() {
                let o = r.get_original_node_id(C::Id::new(w)).id();
                want!(o == v, "{}: the original of {} is {}, but {} became {}", what, w, o, v, w);
            }
            let items: Vec<usize> = r.get_node_id_map().unwrap().items().map(|x| x.id()).collect();
            want!(items == order, "{}: the map lists {:?}, the lookups say {:?}", what, items, order);
            let deg = total_degrees(m);
            for w in 1..n {
                let (x, y) = (deg[&order[w - 1]], deg[&order[w]]);
                want!(x <= y, "{}: order {:?}: {} (degree {}) before {} (degree {})", what, order, order[w - 1], x, order[w], y);
            }
        } else {
            for &v in m.nodes.keys() {
                let (x, y) = (r.find_new_node_id(C::Id::new(v)).id(), r.get_original_node_id(C::Id::new(v)).id());
                want!(x == v && y == v, "{}: ids untouched, but {} maps to {} and back to {}", what, v, x, y);
                tr.insert(v, v);
            }
        }
        let mut m2 = Model::new(m.directed);
        m2.nodes = m.nodes.iter().map(|(v, &l)| (tr[v], l)).collect();
        for (&(s, t), &l) in &m.edges {
            let k = m2.key(tr[&s], tr[&t]);
            m2.edges.insert(k, l);
        }
        // dictionaries
        fn relabel<T: Lab>(asked: bool, old: &[Letter], items: Vec<&T>, used: &BTreeMap<Letter, usize>, what: &str) -> Result<Vec<Letter>, String> {
            let mut new = vec![];
            let known: HashMap<T, Letter> = old.iter().map(|&k| (T::mk(k), k)).collect();
            for x in items {
                match known.get(x) {
                    Some(&k) => new.push(k),
                    None => return Err(format!("{}: the dictionary has the foreign label {:?}", what, x)),
                }
            }
            if !asked {
                want!(new == old, "{}: dictionary {:?}, untouched it was {:?}", what, new, old);
                return Ok(new);
            }
            let set: BTreeSet<Letter> = new.iter().copied().collect();
            want!(
                set.len() == new.len() && set == used.keys().copied().collect(),
                "{}: dictionary {:?}, used labels and their frequency {:?}", what, new, used
            );
            want!(new.windows(2).all(|w| used[&w[0]] <= used[&w[1]]), "{}: dictionary {:?} is not by frequency {:?}", what, new, used);
            Ok(new)
        }
        let mut nf: BTreeMap<Letter, usize> = BTreeMap::new();
        for l in m.nodes.values().flatten() {
            *nf.entry(*l).or_default() += 1;
        }
        let mut ef: BTreeMap<Letter, usize> = BTreeMap::new();
        for l in m.edges.values().flatten() {
            *ef.entry(*l).or_default() += 1;
        }
        m2.nmap = relabel::<C::N>(rnl, &m.nmap, ng.get_node_label_map().items().collect(), &nf, &format!("{}, node labels", what))?;
        m2.emap = relabel::<C::E>(rel, &m.emap, ng.get_edge_label_map().items().collect(), &ef, &format!("{}, edge labels", what))?;
        let present = m2.nodes.keys().max().copied();
        // with ids untouched both "the largest id seen" and "the largest id present" fit the graph
        let seen = ng.max_seen_id().map(|x| x.id());
        m2.max = if !rn && seen == m.max { m.max } else { present };
        let ids = probe_ids::<C>(&m2, &[0, 1, 2]);
        view::<C>(C::gg(&ng), &m2, ALL, "mutable", &ids).map_err(|e| format!("after {} with mapping {:?}: {}", what, tr, e))?;
        if m2.dense() {
            let s = ng.into_static();
            view::<C>(C::sg(&s), &m2, COUNT | ENUM | LABELIDS, "static", &ids).map_err(|e| format!("after {}: {}", what, e))?;
        }
        Ok(())
    }

    /// With explicitly given orders.
    fn given<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let n = m.nodes.len();
        if n > 3 || m.nmap.len() > 2 || m.emap.len() > 2 {
            return Ok(());
        }
        let ids: Vec<usize> = m.nodes.keys().copied().collect();
        for p in perms(n) {
            for np in perms(m.nmap.len()) {
                for ep in perms(m.emap.len()) {
                    for mask in 1..8 {
                        if (mask & 1 == 0 && p != perms(n)[0])
                            || (mask & 2 == 0 && np != perms(m.nmap.len())[0])
                            || (mask & 4 == 0 && ep != perms(m.emap.len())[0])
                        {
                            continue;
                        }
                        let a: Option<SetMap<C::Id>> = if mask & 1 != 0 {
                            Some(SetMap::from_vec(p.iter().map(|&k| C::Id::new(ids[k])).collect()))
                        } else {
                            None
                        };
                        let b: Option<VecMap<C::L>> =
                            if mask & 2 != 0 { Some(np.iter().map(|&k| C::L::new(k)).collect()) } else { None };
                        let c: Option<SetMap<C::L>> =
                            if mask & 4 != 0 { Some(SetMap::from_vec(ep.iter().map(|&k| C::L::new(k)).collect())) } else { None };
                        let ng = g.clone().reorder_id_with(&a, &b, &c);
                        let mut m2 = Model::new(m.directed);
                        let tr = |v: usize| if mask & 1 != 0 { p.iter().position(|&k| ids[k] == v).unwrap() } else { v };
                        m2.nodes = m.nodes.iter().map(|(&v, &l)| (tr(v), l)).collect();
                        for (&(s, t), &l) in &m.edges {
                            let k = m2.key(tr(s), tr(t));
                            m2.edges.insert(k, l);
                        }
                        m2.nmap = if mask & 2 != 0 { np.iter().map(|&k| m.nmap[k]).collect() } else { m.nmap.clone() };
                        m2.emap = if mask & 4 != 0 { ep.iter().map(|&k| m.emap[k]).collect() } else { m.emap.clone() };
                        let seen = ng.max_seen_id().map(|x| x.id());
                        m2.max = if mask & 1 == 0 && seen == m.max { m.max } else { m2.nodes.keys().max().copied() };
                        let look = probe_ids::<C>(&m2, &[0, 1, 2]);
                        view::<C>(C::gg(&ng), &m2, ALL, "mutable", &look)
                            .map_err(|e| format!("reorder_id_with ids {:?}, node labels {:?}, edge labels {:?} (mask {}): {}", p, np, ep, mask, e))?;
                    }
                }
            }
        }
        Ok(())
    }
}
impl StateCheck for Reord {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        for b in 0..8 {
            if m.nodes.len() > 5000 && b != 7 {
                continue;
            }
            self.judge::<C>(g, m, b)?;
        }
        if m.nodes.len() <= 2 || thorough() {
            self.given::<C>(g, m)?;
        }
        Ok(())
    }
}

fn c25() {
    // orders of equally frequent labels and of equal degrees
    let modes: Vec<(usize, usize)> = (0..24).map(|k| (k, k % 6)).collect();
    Sweep { cost: Cost::Medium, extra: F_INT, modes, giants: true, ..Default::default() }.run(&Reord);
    fn more<C: Cfg>() {
        let chk = |g: &Map<C>, m: &Model| Reord.check::<C>(g, m);
        let md: Vec<(usize, usize)> = (0..6).map(|k| (k * 5 % 24, k)).collect();
        let mut o = vec![];
        for i in 0..9u32 {
            o.push(Op::AddNode(i, Some((i % 5) as Letter)));
            o.push(Op::AddEdge(i, (i * 2 + 1) % 9, Some((i % 4) as Letter)));
        }
        for p in [
            Profile::new("label ties", &[0, 4, 8], &a2(), &a2()).depth(1).inits(vec![Init::Script(o)]),
            Profile::new("3 ids mixed labels", &[0, 1, 2], &[Some(0), Some(1)], &s1()).flags(if thorough() { F_CORE } else { F_ADDN | F_ADDE }),
            Profile::new("known labels", &[0, 1], &a1(), &a1()).inits(vec![Init::Labels(vec![1, 0, 2], vec![2, 0, 1])]),
        ] {
            explore::<C>(&p.modes(md.clone()), false, &chk, None);
        }
    }
    more::<U32Di>();
    more::<U32Un>();
}

// ---------------------------------------------------------------- C31

pub struct Handles;

/// The graph after handles were used, and a graph made the plain way.
fn after<C: Cfg>(g: &Map<C>, m: &Model, what: &str, deep: bool) -> Res {
    let ids = probe_ids::<C>(m, &[0, 1, 2]);
    view::<C>(C::gg(g), m, ALL & !MAXID, "mutable", &ids).map_err(|e| format!("{}: {}", what, e))?;
    let mut plain = Map::<C>::new();
    for (&v, &l) in &m.nodes {
        plain.add_node(C::Id::new(v), l.map(C::N::mk));
    }
    for (&(s, t), &l) in &m.edges {
        plain.add_edge(C::Id::new(s), C::Id::new(t), l.map(C::E::mk));
    }
    want!(*g == plain && plain == *g, "{}: the graph differs from one built with the new labels", what);
    if deep {
        let conv = LOOK | ENUM | STATS | SYM | INOUT;
        if m.dense() {
            let s = freeze::<C>(g);
            view::<C>(C::sg(&s), m, conv, "static", &ids).map_err(|e| format!("{}: {}", what, e))?;
            // writing files takes far longer than all the rest
            if m.nodes.len() + m.edges.len() <= if thorough() { 5 } else { 3 } {
                let x = open_mmap::<C>(&s, "handles")?;
                view::<C>(&x, m, conv, "mmap", &ids).map_err(|e| format!("{}: {}", what, e))?;
            }
        }
        let c = g.clone();
        view::<C>(C::gg(&c), m, LOOK | ENUM, "mutable", &ids).map_err(|e| format!("{}, clone: {}", what, e))?;
    }
    Ok(())
}

impl StateCheck for Handles {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        let mut known: Option<String> = None;
        let small = m.nodes.len() <= 4;
        let ks = |n: usize| -> Vec<Option<usize>> { std::iter::once(None).chain((0..n.min(3)).map(Some)).collect() };
        let lid = |k: Option<usize>| k.map(C::L::new);
        let some_nodes: Vec<usize> = {
            let v: Vec<usize> = m.nodes.keys().copied().collect();
            if small { v } else { vec![v[0], v[v.len() / 2], v[v.len() - 1]] }
        };
        let some_edges: Vec<(usize, usize)> = {
            let v: Vec<(usize, usize)> = m.edges.keys().copied().collect();
            if small || v.is_empty() { v } else { vec![v[0], v[v.len() / 2], v[v.len() - 1]] }
        };
        for &v in &some_nodes {
            for k in ks(m.nmap.len()) {
                for how in 0..2 {
                    let what = format!("label id {:?} set on node {} {}", k, v, ["looked up", "enumerated"][how]);
                    let mut c = g.clone();
                    let mut m2 = m.clone();
                    if how == 0 {
                        let mut h = c.get_node_mut(C::Id::new(v));
                        want!(h.is_some() && h.get_id().id() == v, "get_node_mut({}) present: {}", v, h.is_some());
                        h.set_label_id(lid(k));
                        want!(h.get_label_id() == lid(k), "{}: the handle says {:?}", what, h.get_label_id());
                    } else {
                        for mut h in c.nodes_mut() {
                            if h.get_id().id() == v {
                                h.set_label_id(lid(k));
                            }
                        }
                    }
                    m2.nodes.insert(v, k.map(|k| m.nmap[k]));
                    after::<C>(&c, &m2, &what, small)?;
                }
            }
        }
        for &(s, t) in &some_edges {
            for k in ks(m.emap.len()) {
                for how in 0..3 {
                    let what = format!("label id {:?} set on edge ({},{}) {}", k, s, t, ["looked up", "looked up from the other end", "enumerated"][how]);
                    if how == 1 && (m.directed || s == t) {
                        continue;
                    }
                    let mut c = g.clone();
                    let mut m2 = m.clone();
                    let mut at = if how == 1 { (t, s) } else { (s, t) };
                    let old = c.get_edge(C::Id::new(s), C::Id::new(t)).get_label_id();
                    if how < 2 {
                        let mut h = c.get_edge_mut(C::Id::new(at.0), C::Id::new(at.1));
                        want!(h.is_some(), "get_edge_mut({},{}) is none", at.0, at.1);
                        h.set_label_id(lid(k));
                        want!(h.get_label_id() == lid(k), "{}: the handle says {:?}", what, h.get_label_id());
                    } else {
                        let mut n = 0;
                        for mut h in c.edges_mut() {
                            let e = (h.get_start().id(), h.get_target().id());
                            if m.key(e.0, e.1) == (s, t) {
                                n += 1;
                                at = e;
                                h.set_label_id(lid(k));
                            }
                        }
                        want!(n == 1, "edges_mut() yields edge ({},{}) {} times", s, t, n);
                    }
                    if !m.directed && s != t {
                        // Known: an undirected edge is stored once per orientation and a handle changes one.
                        let here = c.get_edge(C::Id::new(at.0), C::Id::new(at.1)).get_label_id();
                        let there = c.get_edge(C::Id::new(at.1), C::Id::new(at.0)).get_label_id();
                        want!(here == lid(k), "{}: edge {:?} then has label id {:?}", what, at, here);
                        if there != here {
                            want!(there == old, "{}: edge {:?} seen from the other end then has label id {:?}, before {:?}", what, at, there, old);
                            known = Some(format!("{}: seen from the other end the edge still has label id {:?}", what, there));
                            let mut h = c.get_edge_mut(C::Id::new(at.1), C::Id::new(at.0));
                            want!(h.is_some(), "get_edge_mut({},{}) is none", at.1, at.0);
                            h.set_label_id(lid(k));
                        }
                    }
                    m2.edges.insert((s, t), k.map(|k| m.emap[k]));
                    after::<C>(&c, &m2, &what, small)?;
                }
            }
        }
        // all at once, through the enumerations
        for (kn, ke) in [(Some(0), Some(0)), (None, None), (Some(1), Some(0))] {
            if kn.map_or(false, |k| k >= m.nmap.len()) || ke.map_or(false, |k| k >= m.emap.len()) {
                continue;
            }
            let mut c = g.clone();
            let mut m2 = m.clone();
            for mut h in c.nodes_mut() {
                h.set_label_id(lid(kn));
            }
            m2.nodes.values_mut().for_each(|l| *l = kn.map(|k| m.nmap[k]));
            if m.directed {
                for mut h in c.edges_mut() {
                    h.set_label_id(lid(ke));
                }
                m2.edges.values_mut().for_each(|l| *l = ke.map(|k| m.emap[k]));
            }
            after::<C>(&c, &m2, &format!("label ids {:?} / {:?} set on all enumerated nodes / edges", kn, ke), small)?;
        }
        // nothing to hold for what is absent
        let mut c = g.clone();
        for i in probe_ids::<C>(m, &[0, 1, 2]).into_iter().take(12) {
            let h = c.get_node_mut(C::Id::new(i));
            want!(h.is_some() == m.nodes.contains_key(&i), "get_node_mut({}) present: {}", i, h.is_some());
            for &j in some_nodes.iter().chain([0, 1].iter()) {
                for (s, t) in [(i, j), (j, i)] {
                    let h = c.get_edge_mut(C::Id::new(s), C::Id::new(t));
                    want!(h.is_some() == m.has_edge(s, t), "get_edge_mut({},{}) present: {}", s, t, h.is_some());
                }
            }
        }
        match known {
            Some(k) => Err(format!("KNOWN[c31-undirected-handle] {}", k)),
            None => Ok(()),
        }
    }
}

struct NonEmpty<K>(K);
impl<K: StateCheck> StateCheck for NonEmpty<K> {
    fn check<C: Cfg>(&self, g: &Map<C>, m: &Model) -> Res {
        if m.nodes.is_empty() {
            return Ok(());
        }
        run().nontrivial.fetch_add(1, Relaxed);
        self.0.check::<C>(g, m)
    }
}

fn c31() {
    Sweep { cost: Cost::Heavy, extra: F_SETID, scale: false, ..Default::default() }.run(&NonEmpty(Handles));
}

const ASSUME: &[&str] = &[
    "ids outside the listed alphabets behave like the listed ones (the start shapes and scale graphs vary them)",
    "two objects with equal contents in every field behave alike up to hash iteration order",
];

fn main() {
    const RULE: &str = "every graph state reachable by the listed operations, in every representation; the algorithm is run on each from every start and its whole output judged by a validity oracle (any valid order is accepted)";
    let p = |id, run| Prop { id, level: "model_checking", rule: RULE, assumptions: ASSUME, run };
    mc::main(move || {
        vec![
            p("C19", c19 as fn()),
            p("C20", c20),
            p("C21", c21),
            p("C22", c22),
            p("C25", c25),
            p("C31", c31),
        ]
    })
}
