//! Exhaustive breadth-first exploration of operation histories on the real graph, with the model in
//! lockstep.  A state is (canonical contents of the real data structure, model); every state is visited
//! once, every enabled operation is executed from it.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};

use rust_graph::generic::{GraphLabelTrait, MapTrait};

use crate::core::*;
use crate::util::*;

pub const F_ADDN: u32 = 1;
pub const F_REMN: u32 = 2;
pub const F_ADDE: u32 = 4;
pub const F_REME: u32 = 8;
pub const F_UPDN: u32 = 16;
pub const F_UPDE: u32 = 32;
pub const F_INT: u32 = 64;
pub const F_MISC: u32 = 128; // refine, shrink, clone
pub const F_RELOAD: u32 = 256;
pub const F_SETID: u32 = 512;
pub const F_REORD: u32 = 1024;
pub const F_CORE: u32 = F_ADDN | F_REMN | F_ADDE | F_REME | F_UPDN | F_UPDE;
pub const F_BUILD: u32 = F_ADDN | F_ADDE | F_REMN | F_REME;

#[derive(Clone, Debug)]
pub struct Profile {
    pub name: String,
    pub ids: Vec<u32>,
    pub nl: Vec<Lb>,
    pub el: Vec<Lb>,
    pub loops: bool,
    pub flags: u32,
    pub max_depth: usize,
    pub max_states: usize,
    pub inits: Vec<Init>,
    /// (fnv order mode, counter tie mode)
    pub modes: Vec<(usize, usize)>,
}

impl Profile {
    pub fn new(name: &str, ids: &[u32], nl: &[Lb], el: &[Lb]) -> Self {
        Profile {
            name: name.into(),
            ids: ids.into(),
            nl: nl.into(),
            el: el.into(),
            loops: true,
            flags: F_CORE,
            max_depth: usize::MAX,
            max_states: 3_000_000,
            inits: vec![Init::New],
            modes: vec![(0, 0)],
        }
    }
    pub fn flags(mut self, f: u32) -> Self {
        self.flags = f;
        self
    }
    pub fn depth(mut self, d: usize) -> Self {
        self.max_depth = d;
        self
    }
    pub fn inits(mut self, i: Vec<Init>) -> Self {
        self.inits = i;
        self
    }
    pub fn modes(mut self, i: Vec<(usize, usize)>) -> Self {
        self.modes = i;
        self
    }
    pub fn no_loops(mut self) -> Self {
        self.loops = false;
        self
    }
    pub fn cap(mut self, n: usize) -> Self {
        self.max_states = n;
        self
    }

    pub fn ops(&self) -> Vec<Op> {
        let mut o = vec![];
        let f = |x: u32| self.flags & x != 0;
        for &i in &self.ids {
            for &l in &self.nl {
                if f(F_ADDN) {
                    o.push(Op::AddNode(i, l));
                }
                if f(F_UPDN) {
                    o.push(Op::UpdNode(i, l));
                }
            }
            if f(F_REMN) {
                o.push(Op::RemNode(i));
            }
        }
        for &s in &self.ids {
            for &t in &self.ids {
                if s == t && !self.loops {
                    continue;
                }
                for &l in &self.el {
                    if f(F_ADDE) {
                        o.push(Op::AddEdge(s, t, l));
                    }
                    if f(F_UPDE) {
                        o.push(Op::UpdEdge(s, t, l));
                    }
                }
                if f(F_REME) {
                    o.push(Op::RemEdge(s, t));
                }
            }
        }
        if f(F_INT) {
            for &l in &self.nl {
                o.push(Op::InternN(l));
            }
            for &l in &self.el {
                o.push(Op::InternE(l));
            }
        }
        if f(F_MISC) {
            o.push(Op::Refine);
            o.push(Op::Shrink);
            o.push(Op::CloneSwap);
        }
        if f(F_RELOAD) {
            o.push(Op::Reload);
        }
        if f(F_SETID) {
            for &i in &self.ids {
                for k in [None, Some(0), Some(1)] {
                    o.push(Op::SetNodeId(i, k));
                }
            }
            for &s in &self.ids {
                for &t in &self.ids {
                    for k in [None, Some(0), Some(1)] {
                        o.push(Op::SetEdgeId(s, t, k));
                    }
                }
            }
        }
        if f(F_REORD) {
            for b in 1..8 {
                o.push(Op::Reorder(b));
            }
        }
        o
    }
    pub fn describe<C: Cfg>(&self) -> String {
        format!(
            "{} {}: ids {:?}, node labels {:?}, edge labels {:?}, loops {}, {} operations, {} start states, {} order modes, depth {}",
            C::NAME,
            self.name,
            self.ids,
            self.nl,
            self.el,
            self.loops,
            self.ops().len(),
            self.inits.len(),
            self.modes.len(),
            if self.max_depth == usize::MAX { "unbounded (fixpoint)".to_string() } else { self.max_depth.to_string() }
        )
    }
}

// ---------------------------------------------------------------- state keys

/// Sort the entries of every `{...}` group of a Debug text, so that hash-map order does not matter.
pub fn canon(s: &str) -> String {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = String::with_capacity(s.len());
    group(s, b, &mut i, 0, &mut out);
    out
}

fn group(s: &str, b: &[u8], i: &mut usize, close: u8, out: &mut String) {
    // splits at top-level ", "
    let mut items: Vec<String> = vec![String::new()];
    while *i < b.len() {
        let c = b[*i];
        if close != 0 && c == close {
            break;
        }
        match c {
            b'"' => {
                let st = *i;
                *i += 1;
                while *i < b.len() && b[*i] != b'"' {
                    if b[*i] == b'\\' {
                        *i += 1;
                    }
                    *i += 1;
                }
                *i += 1;
                items.last_mut().unwrap().push_str(&s[st..(*i).min(s.len())]);
            }
            b'{' | b'[' | b'(' => {
                let cl = match c {
                    b'{' => b'}',
                    b'[' => b']',
                    _ => b')',
                };
                let last = items.last_mut().unwrap();
                last.push(c as char);
                *i += 1;
                let mut inner = String::new();
                group(s, b, i, cl, &mut inner);
                let last = items.last_mut().unwrap();
                last.push_str(&inner);
                last.push(cl as char);
                *i += 1;
            }
            b',' => {
                items.push(String::new());
                *i += 1;
            }
            _ => {
                let st = *i;
                *i += 1;
                while *i < b.len() && !matches!(b[*i], b'"' | b'{' | b'[' | b'(' | b',' | b'}' | b']' | b')') {
                    *i += 1;
                }
                let frag = s[st..*i].trim();
                items.last_mut().unwrap().push_str(frag);
            }
        }
    }
    if close == b'}' {
        items.sort();
    }
    out.push_str(&items.join(","));
}

struct H2(u64, u64);
impl Hasher for H2 {
    fn write(&mut self, b: &[u8]) {
        for ch in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..ch.len()].copy_from_slice(ch);
            let x = u64::from_le_bytes(w) ^ ((ch.len() as u64) << 56);
            self.0 = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
            self.1 = (self.1.rotate_left(23) ^ x).wrapping_mul(0xC2B2_AE3D_27D4_EB4F).wrapping_add(0x1656_67B1);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn key<C: Cfg>(g: &Map<C>, m: &Model) -> u128 {
    let mut h = H2(0x243F_6A88, 0x1319_8A2E);
    canon(&format!("{:?}", g)).hash(&mut h);
    for l in g.get_node_label_map().items() {
        l.hash(&mut h);
    }
    0xFFu8.hash(&mut h);
    for l in g.get_edge_label_map().items() {
        l.hash(&mut h);
    }
    m.hash(&mut h);
    ((mix(h.0 ^ mix(h.1)) as u128) << 64) | mix(h.1.wrapping_add(h.0)) as u128
}

// ---------------------------------------------------------------- the search

pub type CheckFn<'a, C> = &'a (dyn Fn(&Map<C>, &Model) -> Res + Sync);

struct Tables {
    parents: Mutex<Vec<(u32, u16)>>,
    ops: Vec<Op>,
    inits: Vec<Init>,
    head: String,
}

const ROOT: u32 = u32::MAX;
pub const PHASE_CHECK: u64 = 1 << 40;

impl Tables {
    /// (init index, ops) leading to state `i`.
    fn path(&self, mut i: u32) -> (usize, Vec<Op>) {
        let p = self.parents.lock().unwrap();
        let mut v = vec![];
        loop {
            let (pa, o) = p[i as usize];
            if pa == ROOT {
                v.reverse();
                return (o as usize, v);
            }
            v.push(self.ops[o as usize]);
            i = pa;
        }
    }
    fn body<C: Cfg>(&self, a: u64, b: u64) -> String {
        let (init, mut ops) = self.path(a as u32);
        if b & PHASE_CHECK == 0 {
            ops.push(self.ops[b as usize]);
        }
        let mut s = format!("{}init: {}\n", self.head, self.inits[init].text());
        for o in &ops {
            s.push_str(&format!("op: {}\n", o.text()));
        }
        for o in &ops {
            s.push_str(&format!("#   {}\n", o.rust::<C>()));
        }
        s
    }
}

#[derive(Default, Debug, Clone)]
pub struct Out {
    pub states: usize,
    pub transitions: usize,
    pub depth: usize,
    pub complete: bool,
    pub validated: usize,
    pub identical: usize,
}

pub struct Kept<C: Cfg> {
    pub g: Map<C>,
    pub m: Model,
}

pub fn set_mode(md: (usize, usize)) {
    fnv::MODE.store(md.0, SeqCst);
    counter::MODE.store(md.1, SeqCst);
}

/// The reachable states of `p`, for use as inputs; runs silently, also in replay mode.
pub fn explore_states<C: Cfg>(p: &Profile, kept: &mut Vec<Kept<C>>) {
    let mut all = vec![];
    for &md in &p.modes {
        set_mode(md);
        explore_mode::<C>(p, md, false, &|_, _| Ok(()), Some(&mut all));
    }
    set_resolver(None);
    // the search order depends on thread timing
    all.sort_by_key(|k| key::<C>(&k.g, &k.m));
    kept.extend(all);
}

/// Explore `p`; call `check` in every state.  With `strict`, wrong return values are violations too.
pub fn explore<C: Cfg>(p: &Profile, strict: bool, check: CheckFn<C>, mut keep: Option<&mut Vec<Kept<C>>>) -> Out {
    let mut total = Out { complete: true, ..Default::default() };
    if maybe_replay::<C>(p, check) || run().only.is_some() {
        return total; // exploration traces are replayed directly, not through the case filter
    }
    bound(p.describe::<C>());
    for &md in &p.modes {
        if stopped() {
            total.complete = false;
            break;
        }
        set_mode(md);
        let o = explore_mode::<C>(p, md, strict, check, keep.as_deref_mut());
        total.states += o.states;
        total.transitions += o.transitions;
        total.depth = total.depth.max(o.depth);
        total.complete &= o.complete;
        total.validated += o.validated;
        total.identical += o.identical;
    }
    set_resolver(None);
    let r = run();
    r.states.fetch_add(total.states as u64, SeqCst);
    r.transitions.fetch_add(total.transitions as u64, SeqCst);
    r.validated.fetch_add(total.validated as u64, SeqCst);
    if !total.complete {
        r.capped.store(true, SeqCst);
    }
    part(
        &format!("{} {}", C::NAME, p.name),
        format!(
            "{} states, {} transitions, longest shortest history {}, {} traces replayed from scratch ({} to the identical state), {}",
            total.states,
            total.transitions,
            total.depth,
            total.validated,
            total.identical,
            if total.complete { "complete" } else { "stopped early" }
        ),
    );
    total
}

fn explore_mode<C: Cfg>(
    p: &Profile,
    md: (usize, usize),
    strict: bool,
    check: CheckFn<C>,
    keep: Option<&mut Vec<Kept<C>>>,
) -> Out {
    let ops = p.ops();
    let t = Arc::new(Tables {
        parents: Mutex::new(vec![]),
        ops: ops.clone(),
        inits: p.inits.clone(),
        head: format!("engine: explore\ncfg: {}\nprofile: {}\nmode: {} {}\nstrict: {}\n", C::NAME, p.name, md.0, md.1, strict),
    });
    {
        let t2 = t.clone();
        set_resolver(Some(Arc::new(move |a, b| t2.body::<C>(a, b))));
    }
    const SH: usize = 64;
    let seen: Vec<Mutex<HashSet<u128>>> = (0..SH).map(|_| Mutex::new(HashSet::new())).collect();
    let insert = |k: u128| seen[(k as usize) % SH].lock().unwrap().insert(k);
    let report = |a: u64, b: u64, msg: &str| violate(&t.body::<C>(a, b), msg);
    let keeping = keep.is_some();
    let kept: Mutex<Vec<Kept<C>>> = Mutex::new(vec![]);

    let transitions = AtomicU64::new(0);
    let nstates = AtomicUsize::new(0);
    let mut frontier: Vec<(u32, Map<C>, Model)> = vec![];
    let new_state = |parent: u32, op: u16| -> u32 {
        let mut v = t.parents.lock().unwrap();
        v.push((parent, op));
        nstates.fetch_add(1, Relaxed);
        (v.len() - 1) as u32
    };
    let run_check = |id: u32, g: &Map<C>, m: &Model| {
        enter_ex(id as u64, PHASE_CHECK);
        let r = match guard(|| check(g, m)) {
            Ok(r) => r,
            Err(e) => Err(panic_text(&e)),
        };
        leave();
        if let Err(e) = r {
            report(id as u64, PHASE_CHECK, &e);
        }
    };
    let started: Mutex<Vec<(usize, u32, Map<C>, Model)>> = Mutex::new(vec![]);
    let failed = std::sync::atomic::AtomicBool::new(false);
    let ids: Vec<u32> = (0..p.inits.len()).map(|ii| new_state(ROOT, ii as u16)).collect();
    par_for(p.inits.len(), 1, |k| {
        // the large ones come last: start with them
        let ii = p.inits.len() - 1 - k;
        let (id, init) = (ids[ii], &p.inits[ii]);
        enter_ex(id as u64, PHASE_CHECK);
        let r = guard(|| init.build::<C>());
        leave();
        match r {
            Err(e) => {
                report(id as u64, PHASE_CHECK, &panic_text(&e));
                failed.store(true, SeqCst);
            }
            Ok((g, m, r)) => {
                if let Err(e) = r {
                    if strict || e.starts_with('!') {
                        report(id as u64, PHASE_CHECK, &e);
                        failed.store(true, SeqCst);
                        return;
                    }
                }
                if insert(key::<C>(&g, &m)) {
                    run_check(id, &g, &m);
                    if keeping {
                        kept.lock().unwrap().push(Kept { g: g.clone(), m: m.clone() });
                    }
                    if p.max_depth > 0 {
                        started.lock().unwrap().push((ii, id, g, m));
                    }
                }
            }
        }
    });
    if failed.load(SeqCst) {
        return Out::default();
    }
    let mut started = started.into_inner().unwrap();
    started.sort_by_key(|x| x.0);
    frontier.extend(started.into_iter().map(|(_, id, g, m)| (id, g, m)));
    let mut depth = 0;
    let mut complete = true;
    let mut leaves: Vec<(u32, u128)> = vec![];
    while !frontier.is_empty() && depth < p.max_depth {
        if stopped() {
            complete = false;
            break;
        }
        if nstates.load(SeqCst) > p.max_states {
            complete = false;
            break;
        }
        let next: Mutex<Vec<(u32, Map<C>, Model)>> = Mutex::new(vec![]);
        let newleaf: Mutex<Vec<(u32, u128)>> = Mutex::new(vec![]);
        // few states: share out the operations of one state among the threads
        let nb = if frontier.len() < 64 { ops.len().div_ceil(2).max(1) } else { 1 };
        let per = ops.len().div_ceil(nb).max(1);
        par_for(frontier.len() * nb, if nb == 1 { 8 } else { 1 }, |fi| {
            let (pid, g0, m0) = &frontier[fi / nb];
            let mut local = vec![];
            for (oi, op) in ops.iter().enumerate().skip(fi % nb * per).take(per) {
                enter_ex(*pid as u64, oi as u64);
                let r = guard(|| {
                    let mut g = g0.clone();
                    let mut m = m0.clone();
                    let r = apply::<C>(&mut g, &mut m, *op);
                    (g, m, r)
                });
                leave();
                transitions.fetch_add(1, Relaxed);
                match r {
                    Err(e) => {
                        report(*pid as u64, oi as u64, &panic_text(&e));
                        return;
                    }
                    Ok((g, m, r)) => {
                        if let Err(e) = r {
                            if strict || e.starts_with('!') {
                                report(*pid as u64, oi as u64, &e);
                                return;
                            }
                        }
                        enter_ex(*pid as u64, oi as u64);
                        let k = guard(|| key::<C>(&g, &m));
                        leave();
                        let k = match k {
                            Ok(k) => k,
                            Err(e) => {
                                report(*pid as u64, oi as u64, &panic_text(&e));
                                return;
                            }
                        };
                        if insert(k) {
                            let id = new_state(*pid, oi as u16);
                            run_check(id, &g, &m);
                            if keeping {
                                kept.lock().unwrap().push(Kept { g: g.clone(), m: m.clone() });
                            }
                            local.push((id, k, g, m));
                        }
                    }
                }
            }
            let mut nl = newleaf.lock().unwrap();
            let mut nx = next.lock().unwrap();
            for (id, k, g, m) in local {
                nl.push((id, k));
                nx.push((id, g, m));
            }
        });
        frontier = next.into_inner().unwrap();
        let nl = newleaf.into_inner().unwrap();
        if !nl.is_empty() {
            leaves = nl;
            depth += 1;
        }
    }
    if !frontier.is_empty() && complete && depth >= p.max_depth {
        // depth-bounded by design: complete up to that depth
    }
    // Replay of the longest histories from scratch: the explored clones must be what a plain run gives.
    let mut validated = 0;
    let mut identical = 0;
    if !run().stop.load(SeqCst) {
        let step = (leaves.len() / 200).max(1);
        for (id, k) in leaves.iter().step_by(step) {
            enter_ex(*id as u64, PHASE_CHECK);
            let (init, path) = t.path(*id);
            let r = guard(|| {
                let (mut g, mut m) = p.inits[init].make::<C>();
                for o in &path {
                    let _ = apply::<C>(&mut g, &mut m, *o);
                }
                (key::<C>(&g, &m) == *k, check(&g, &m))
            });
            match r {
                Ok((same, Ok(()))) => {
                    validated += 1;
                    identical += same as usize;
                }
                Ok((_, Err(e))) => {
                    if e.starts_with("KNOWN[") {
                        report(*id as u64, PHASE_CHECK, &e);
                        continue;
                    }
                    report(*id as u64, PHASE_CHECK, &format!("(only when run on one graph object without copying in between) {}", e));
                    break;
                }
                Err(e) => {
                    report(*id as u64, PHASE_CHECK, &panic_text(&e));
                    break;
                }
            }
        }
        leave();
        if let Some((id, _)) = leaves.last() {
            let (init, path) = t.path(*id);
            sample(|| {
                format!(
                    "{} {} from [{}]: {}",
                    C::NAME,
                    p.name,
                    p.inits[init].text().chars().take(400).collect::<String>(),
                    path.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ")
                )
            });
        }
    }
    if let Some(k) = keep {
        k.extend(kept.into_inner().unwrap());
    }
    if run().stop.load(SeqCst) {
        complete = false;
    }
    Out { states: nstates.load(SeqCst), transitions: transitions.load(SeqCst) as usize, depth, complete, validated, identical }
}

// ---------------------------------------------------------------- replay of one exploration trace

static REPLAY: Mutex<Option<ReplaySpec>> = Mutex::new(None);

#[derive(Clone, Debug, Default)]
pub struct ReplaySpec {
    pub cfg: String,
    pub profile: String,
    pub mode: (usize, usize),
    pub strict: bool,
    pub init: String,
    pub ops: Vec<Op>,
}

pub fn set_replay(r: ReplaySpec) {
    *REPLAY.lock().unwrap() = Some(r);
}

/// In replay mode: if the spec names this configuration and profile, run exactly that history.
pub fn maybe_replay<C: Cfg>(p: &Profile, check: CheckFn<C>) -> bool {
    let s = match REPLAY.lock().unwrap().clone() {
        Some(s) => s,
        None => return false,
    };
    if s.cfg != C::NAME || s.profile != p.name {
        return true;
    }
    set_mode(s.mode);
    run().only_hit.store(true, SeqCst);
    let mut txt = format!("cfg: {}\nprofile: {}\ninit: {}\n", s.cfg, s.profile, s.init);
    for o in &s.ops {
        txt.push_str(&format!("op: {}\n", o.text()));
    }
    let body = txt.clone();
    let slot_txt = txt;
    let ok = std::cell::Cell::new(true);
    set_resolver(Some(Arc::new(move |_, _| slot_txt.clone())));
    enter_ex(0, 0);
    let r = guard(|| -> Res {
        let (mut g, mut m, r) = Init::parse(&s.init).build::<C>();
        if let Err(e) = r {
            if s.strict || e.starts_with('!') {
                return Err(e);
            }
        }
        for o in &s.ops {
            println!("  {}", o.rust::<C>());
            if let Err(e) = apply::<C>(&mut g, &mut m, *o) {
                if s.strict || e.starts_with('!') {
                    return Err(e);
                }
            }
        }
        check(&g, &m)
    });
    leave();
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            ok.set(false);
            violate(&body, &e)
        }
        Err(e) => violate(&body, &panic_text(&e)),
    }
    true
}
