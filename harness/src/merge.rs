//! Joining two partly known copies of the same data.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::TapretProof;
use bp::dbc::Anchor;
use bp::{Txid, Tx};
use commit_verify::Conceal;
use rgbstd::containers::{AnchorSet, PubWitness, XPubWitness};
use rgbstd::{
    Assign, Assignments, ContractId, ExposedState, Extension, Genesis, GraphSeal, MergeReveal, Operation,
    RevealedData, RevealedValue, Transition, TransitionBundle, TypedAssigns, VoidState, XChain,
};
use strict_encoding::StrictDumb;

use crate::flow::*;
use crate::state::*;
use crate::sx;
use crate::world::*;

/// Hides the seal (bit 0) and the state (bit 1) of an assignment.
fn hide<S: ExposedState>(a: &Assign<S, GraphSeal>, what: usize) -> Assign<S, GraphSeal> {
    let Assign::Revealed { seal, state, lock } = a.clone() else { panic!("hidden") };
    match what {
        0 => Assign::Revealed { seal, state, lock },
        1 => Assign::ConfidentialSeal { seal: seal.conceal(), state, lock },
        2 => Assign::ConfidentialState { seal, state: state.conceal(), lock },
        _ => Assign::Confidential { seal: seal.conceal(), state: state.conceal(), lock },
    }
}

fn shown<S: ExposedState>(a: &Assign<S, GraphSeal>, full: &Assign<S, GraphSeal>, what: usize) -> bool {
    let Assign::Revealed { seal, state, .. } = full else { return false };
    let (s, st) = match a {
        Assign::Revealed { seal, state, .. } => (Some(seal), Some(state)),
        Assign::ConfidentialSeal { state, .. } => (None, Some(state)),
        Assign::ConfidentialState { seal, .. } => (Some(seal), None),
        Assign::Confidential { .. } => (None, None),
    };
    (if what & 1 == 0 { s == Some(seal) } else { s.is_none() })
        && (if what & 2 == 0 { st == Some(state) } else { st.is_none() })
}

fn put<S: ExposedState>(state: S, n: u8) -> Assign<S, GraphSeal> {
    Assign::Revealed { seal: vout_seal(O, n as u32, 100 + n as u64), state, lock: Default::default() }
}

struct Parts {
    rights: Vec<Assign<VoidState, GraphSeal>>,
    values: Vec<Assign<RevealedValue, GraphSeal>>,
    items: Vec<Assign<RevealedData, GraphSeal>>,
}

fn parts(v: [u64; 2], d: [u8; 4]) -> Parts {
    let tag = tag();
    let value = |v, n| RevealedValue::with_blinding(v, blinding(n), tag);
    Parts {
        rights: vec![put(VoidState::default(), 1)],
        values: vec![put(value(v[0], 3), 2), put(value(v[1], 4), 3)],
        items: vec![put(RevealedData::with_salt(rgbstd::DataState::from(amplify::confinement::SmallBlob::from_checked(d.to_vec())), 5), 4)],
    }
}

/// Assignments with the n-th one hidden as `what[n]` says.
fn assigns(p: &Parts, what: [usize; 4]) -> Assignments<GraphSeal> {
    let mut map = BTreeMap::new();
    map.insert(RIGHT, TypedAssigns::Declarative(Confined::from_checked(vec![hide(&p.rights[0], what[0])])));
    map.insert(FUNGIBLE, TypedAssigns::Fungible(Confined::from_checked(vec![hide(&p.values[0], what[1]), hide(&p.values[1], what[2])])));
    map.insert(DATA, TypedAssigns::Structured(Confined::from_checked(vec![hide(&p.items[0], what[3])])));
    Assignments::from(Confined::from_checked(map))
}

fn as_hidden(a: &Assignments<GraphSeal>, p: &Parts, what: [usize; 4]) -> bool {
    let (Some(TypedAssigns::Declarative(r)), Some(TypedAssigns::Fungible(v)), Some(TypedAssigns::Structured(d))) =
        (a.get(&RIGHT), a.get(&FUNGIBLE), a.get(&DATA))
    else {
        return false;
    };
    a.len() == 3
        && r.len() == 1
        && v.len() == 2
        && d.len() == 1
        && shown(&r[0], &p.rights[0], what[0])
        && shown(&v[0], &p.values[0], what[1])
        && shown(&v[1], &p.values[1], what[2])
        && shown(&d[0], &p.items[0], what[3])
}

fn transition(a: Assignments<GraphSeal>, nonce: u64) -> Transition {
    Transition { assignments: a, nonce, transition_type: TRANSFER, ..Transition::strict_dumb() }
}

fn pick() -> ([usize; 4], [usize; 4], [usize; 4]) {
    let (x, y) = (sx::choose(4), sx::choose(4));
    let one = [x, x, y, (x + 1) % 4];
    let two = [y, y, (x + 2) % 4, (x + y) % 4];
    let both = [one[0] & two[0], one[1] & two[1], one[2] & two[2], one[3] & two[3]];
    (one, two, both)
}

fn anchor_set(kind: usize, o: &[(ContractId, rgbstd::BundleId)], t: &[(ContractId, rgbstd::BundleId)], oshow: usize, tshow: usize) -> AnchorSet {
    // A message is shown, or only its place in the tree is.
    let show = |list: &[(ContractId, rgbstd::BundleId)], n: usize| {
        let block = mpc_block(list);
        if n == list.len() {
            block
        } else {
            let proof = block.to_merkle_proof(list[n].0.into()).unwrap();
            commit_verify::mpc::MerkleBlock::with(&proof, list[n].0.into(), list[n].1.into()).unwrap()
        }
    };
    let opret = Anchor::new(show(o, oshow), OpretProof::default());
    let tapret = Anchor::new(show(t, tshow), TapretProof::strict_dumb());
    match kind {
        0 => AnchorSet::Opret(opret),
        1 => AnchorSet::Tapret(tapret),
        _ => AnchorSet::Double { tapret, opret },
    }
}

/// The same assignments with seals of a genesis.
fn settle(list: &TypedAssigns<GraphSeal>) -> TypedAssigns<rgbstd::GenesisSeal> {
    fn one<S: ExposedState>(a: &Assign<S, GraphSeal>) -> Assign<S, rgbstd::GenesisSeal> {
        let g = |n: u64| XChain::Bitcoin(rgbstd::GenesisSeal::with_blinding(O, txid(9), (n - 100) as u32, n));
        let lock = Default::default();
        match a.clone() {
            Assign::Revealed { seal, state, .. } => Assign::Revealed { seal: g(blind_of(&seal)), state, lock },
            Assign::ConfidentialState { seal, state, .. } => Assign::ConfidentialState { seal: g(blind_of(&seal)), state, lock },
            Assign::ConfidentialSeal { seal, state, .. } => Assign::ConfidentialSeal { seal: g(number(seal)).conceal(), state, lock },
            Assign::Confidential { seal, state, .. } => Assign::Confidential { seal: g(number(seal)).conceal(), state, lock },
        }
    }
    match list {
        TypedAssigns::Declarative(v) => TypedAssigns::Declarative(Confined::from_checked(v.iter().map(one).collect())),
        TypedAssigns::Fungible(v) => TypedAssigns::Fungible(Confined::from_checked(v.iter().map(one).collect())),
        TypedAssigns::Structured(v) => TypedAssigns::Structured(Confined::from_checked(v.iter().map(one).collect())),
        TypedAssigns::Attachment(v) => TypedAssigns::Attachment(Confined::from_checked(v.iter().map(one).collect())),
    }
}

fn blind_of(seal: &XChain<GraphSeal>) -> u64 {
    let XChain::Bitcoin(s) = seal else { panic!("chain") };
    s.blinding
}

fn number(secret: XChain<rgbstd::SecretSeal>) -> u64 {
    (1..5).map(|n| 100 + n).find(|n| vout_seal(O, (*n - 100) as u32, *n).conceal() == secret).unwrap()
}

harness! {
    /// Merging shows a seal or a state if and only if one of the copies shows it.
    fn merge_assignments() {
        let p = parts([sx::u64(), sx::u64()], sx::bytes());
        let (one, two, both) = pick();
        let (a, b) = (transition(assigns(&p, one), 1), transition(assigns(&p, two), 1));
        let id = a.id();
        let m = a.merge_reveal(b);
        sx::check(m.is_ok(), "copies of the same transition can be merged");
        let m = m.unwrap();
        sx::check(as_hidden(&m.assignments, &p, both), "a merged transition shows whatever one of the copies shows");
        sx::check(m.nonce == 1, "a merged transition has the other data of the copies");
        sx::check(m.id() == id, "a merged transition has the id of the copies");
        sx::cover("transitions merged");
    }

    /// Genesis and extensions merge as transitions do.
    fn merge_operations() {
        let p = parts([sx::u64(), sx::u64()], [1, 2, 3, 4]);
        let ext = sx::choose(2) == 1;
        let (one, two, both) = pick();
        // Seals of these operations name the transaction of their output.
        let seen = |w| {
            let mut map = BTreeMap::new();
            for (ty, list) in assigns(&p, w).iter() {
                map.insert(*ty, settle(list));
            }
            Assignments::from(Confined::from_checked(map))
        };
        let ok = if ext {
            let with = |w| Extension { assignments: seen(w), ..Extension::strict_dumb() };
            with(one).merge_reveal(with(two)).map(|e| e.assignments == seen(both))
        } else {
            let with = |w| Genesis { assignments: seen(w), ..Genesis::strict_dumb() };
            with(one).merge_reveal(with(two)).map(|g| g.assignments == seen(both))
        };
        sx::check(ok.is_ok(), "copies of the same operation can be merged");
        sx::check(ok.unwrap(), "a merged operation shows whatever one of the copies shows");
        sx::cover("operations merged");
    }

    /// Different operations are never merged.
    fn merge_different() {
        let (v, w) = (sx::u64(), sx::u64());
        let (one, two) = (sx::choose(4), sx::choose(4));
        let (n, m) = (sx::u64(), sx::u64());
        let a = transition(assigns(&parts([v, 5], [1; 4]), [one; 4]), n);
        let b = transition(assigns(&parts([w, 5], [1; 4]), [two; 4]), m);
        let merged = a.merge_reveal(b).is_ok();
        sx::check(merged == (v == w && n == m), "transitions are merged only if they are the same");
        sx::cover(if merged { "same transitions" } else { "different transitions" });
    }

    /// A merged bundle knows the transitions of both copies.
    fn merge_bundles() {
        let p = parts([sx::u64(), 7], [1, 2, 3, 4]);
        let shown = [0, 0, 0, 0];
        let hidden = [2, 2, 2, 2];
        let t = |n, w| transition(assigns(&p, w), n);
        let (t1, t2) = (t(1, shown), t(2, shown));
        let ids = [t1.id(), t2.id()];
        let all = bundle(O, &[(0, &t1), (1, &t2)]);
        // Each of the two transitions: not known, known with hidden state, known.
        let (a, b) = ([sx::choose(3), sx::choose(3)], [sx::choose(3), sx::choose(3)]);
        sx::assume(a != [0, 0] && b != [0, 0]);
        let with = |k: [usize; 2]| {
            let mut known = BTreeMap::new();
            for n in 0..2 {
                match k[n] {
                    0 => {}
                    1 => { known.insert(ids[n], t(n as u64 + 1, hidden)); }
                    _ => { known.insert(ids[n], t(n as u64 + 1, shown)); }
                }
            }
            TransitionBundle { known_transitions: Confined::from_checked(known), ..all.clone() }
        };
        let m = with(a).merge_reveal(with(b));
        sx::check(m.is_ok(), "copies of the same bundle can be merged");
        let m = m.unwrap();
        for n in 0..2 {
            let best = a[n].max(b[n]);
            let got = m.known_transitions.get(&ids[n]);
            sx::check(got.is_some() == (best > 0), "a merged bundle knows the transitions either copy knows");
            if let Some(t) = got {
                sx::check(as_hidden(&t.assignments, &p, if best == 2 { shown } else { hidden }), "transitions of a merged bundle show what either copy shows");
            }
        }
        sx::check(m.input_map == all.input_map && m.close_method == all.close_method, "a merged bundle has the inputs of the copies");
        sx::cover(if m.known_transitions.len() == 2 { "both transitions" } else { "one transition" });
    }

    /// A merged witness has the transaction if one of the copies has.
    fn merge_witness() {
        let txs: Vec<Tx> = (0..2).map(|n| tx(&[outpoint(n + 1, 0)], 1, [n; 32])).collect();
        let ids: Vec<Txid> = txs.iter().map(Tx::txid).collect();
        let any = || {
            let (n, full, chain) = (sx::choose(2), sx::choose(2) == 1, sx::choose(2));
            let w = if full { PubWitness::with(txs[n].clone()) } else { PubWitness::new(ids[n]) };
            (n, full, chain, if chain == 0 { XChain::Bitcoin(w) } else { XChain::Liquid(w) })
        };
        let (n1, full1, c1, w1) = any();
        let (n2, full2, c2, w2) = any();
        let m: Result<XPubWitness, _> = w1.merge_reveal(w2);
        sx::check(m.is_ok() == (n1 == n2 && c1 == c2), "witnesses are merged if and only if they are of the same transaction");
        if let Ok(m) = m {
            let (chain, w) = match m {
                XChain::Bitcoin(w) => (0, w),
                XChain::Liquid(w) => (1, w),
                _ => panic!("no such chain"),
            };
            sx::check(chain == c1, "a merged witness stays on its chain");
            sx::check(w.txid() == ids[n1], "a merged witness is of the same transaction");
            sx::check(w.tx() == (full1 || full2).then(|| &txs[n1]), "a merged witness has the transaction if either copy has it");
            sx::cover(if full1 != full2 { "one has the transaction" } else { "alike" });
        } else {
            sx::cover("not merged");
        }
    }

    /// Merged anchors know the commitments either copy knows.
    fn merge_anchors() {
        let cid = |n: u8| ContractId::from([n; 32]);
        let bid = |n: u8| rgbstd::BundleId::from([n; 32]);
        let o = [(cid(1), bid(11)), (cid(2), bid(12))];
        let t = [(cid(1), bid(21)), (cid(3), bid(23))];
        let any = || {
            let (kind, oshow, tshow) = (sx::choose(3), sx::choose(3), 0);
            let tshow = if kind == 2 { (oshow + 1) % 3 } else { tshow };
            let mut known = BTreeSet::new();
            if kind != 1 {
                known.extend(o.iter().enumerate().filter(|(n, _)| oshow == 2 || *n == oshow).map(|(_, (_, b))| *b));
            }
            if kind != 0 {
                let tshow = if kind == 1 { oshow } else { tshow };
                known.extend(t.iter().enumerate().filter(|(n, _)| tshow == 2 || *n == tshow).map(|(_, (_, b))| *b));
            }
            (kind, anchor_set(kind, &o, &t, oshow, if kind == 1 { oshow } else { tshow }), known)
        };
        let (k1, a1, known1) = any();
        let (k2, a2, known2) = any();
        let of = |a: &AnchorSet| a.known_bundle_ids().collect::<BTreeSet<_>>();
        sx::check(of(&a1) == known1, "an anchor names every bundle it reveals");
        let m = a1.merge_reveal(a2);
        sx::check(m.is_ok(), "anchors of the same transaction can be merged");
        let m = m.unwrap();
        sx::check(of(&m) == &known1 | &known2, "a merged anchor names the bundles either copy names");
        sx::check(m.has_opret() == (k1 != 1 || k2 != 1) && m.has_tapret() == (k1 != 0 || k2 != 0), "a merged anchor has the commitments either copy has");
        sx::cover(if k1 == k2 { "same kind" } else { "different kinds" });
    }
}
