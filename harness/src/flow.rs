//! Moving contracts between stocks: issuing, anchoring transitions in a witness transaction,
//! consuming, consigning and accepting.

use std::collections::BTreeMap;

use amplify::confinement::{Confined, NonEmptyOrdMap};
use amplify::num::u5;
use amplify::ByteArray;
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::{TapretPathProof, TapretProof};
use bp::dbc::{Anchor, Method};
use bp::{InternalPk, Outpoint, Sats, ScriptPubkey, Tx, TxOut, Vout};
use commit_verify::mpc::{MerkleBlock, MerkleTree, MultiSource};
use commit_verify::{CommitId, ConvolveCommit, TryCommitVerify};
use rgbstd::containers::{AnchorSet, Batch, BuilderSeal, Dichotomy, Fascia, PubWitness, ValidContract};
use rgbstd::interface::ContractBuilder;
use rgbstd::{
    BlindingFactor, BundleId, ContractId, GenesisSeal, GraphSeal, InputMap, OpId, Operation, Transition, TransitionBundle, Vin, XChain,
    XOutputSeal,
};
use strict_encoding::StrictDumb;

use crate::world::*;

pub fn blinding(n: u8) -> BlindingFactor { BlindingFactor::try_from([n; 32]).unwrap() }

/// A genesis seal at output `vout` of transaction number `n`.
pub fn gseal(method: Method, n: u8, vout: u32) -> BuilderSeal<GenesisSeal> {
    BuilderSeal::Revealed(XChain::Bitcoin(GenesisSeal::with_blinding(method, txid(n), Vout::from_u32(vout), 5 + vout as u64)))
}

pub fn outpoint(n: u8, vout: u32) -> Outpoint { Outpoint::new(txid(n), vout) }

pub fn oseal(method: Method, n: u8, vout: u32) -> XOutputSeal {
    let seal = GenesisSeal::with_blinding(method, txid(n), Vout::from_u32(vout), 0);
    XChain::Bitcoin(seal).to_output_seal().unwrap()
}

pub fn vout_seal(method: Method, vout: u32, blinding: u64) -> XChain<GraphSeal> {
    XChain::Bitcoin(GraphSeal::with_blinded_vout(method, Vout::from_u32(vout), blinding))
}

pub fn txo_seal(method: Method, n: u8, vout: u32, blinding: u64) -> XChain<GraphSeal> {
    XChain::Bitcoin(GraphSeal::with_blinding(method, bp::seals::txout::TxPtr::Txid(txid(n)), Vout::from_u32(vout), blinding))
}

pub fn issue(b: ContractBuilder) -> (ContractId, ValidContract) {
    use rgbstd::containers::ConsignmentExt;
    let c = b.issue_contract_det(1_700_000_001).unwrap();
    (c.contract_id(), c)
}

/// Puts transitions of one contract into a bundle; the input of each transition is the one with
/// its position in the list.
pub fn bundle(method: Method, transitions: &[(u32, &Transition)]) -> TransitionBundle {
    let mut inputs = BTreeMap::new();
    let mut known = BTreeMap::<OpId, Transition>::new();
    for (vin, t) in transitions {
        inputs.insert(Vin::from_u32(*vin), t.id());
        known.insert(t.id(), (*t).clone());
    }
    TransitionBundle {
        close_method: method,
        input_map: InputMap::from(Confined::from_checked(inputs)),
        known_transitions: Confined::from_checked(known),
    }
}

pub fn mpc_block(messages: &[(ContractId, BundleId)]) -> MerkleBlock {
    let mut src = MultiSource::with_static_entropy(7);
    src.min_depth = u5::with(2);
    src.messages =
        Confined::from_checked(messages.iter().map(|(c, b)| ((*c).into(), (*b).into())).collect::<BTreeMap<_, _>>());
    MerkleBlock::from(MerkleTree::try_commit(&src).unwrap())
}

/// Anchors bundles to a transaction spending `inputs`.
pub fn anchor(bundles: &[(ContractId, TransitionBundle)], inputs: &[Outpoint], outs: u32) -> (Fascia, Tx) {
    let part = |m: Method| -> Vec<(ContractId, BundleId)> {
        bundles.iter().filter(|(_, b)| b.close_method == m).map(|(c, b)| (*c, b.bundle_id())).collect()
    };
    let (o, t) = (part(Method::OpretFirst), part(Method::TapretFirst));
    let opret = (!o.is_empty()).then(|| Anchor::new(mpc_block(&o), OpretProof::default()));
    let tapret = (!t.is_empty()).then(|| mpc_block(&t)).map(|block| {
        let internal = InternalPk::strict_dumb();
        let (key, proof): (_, TapretProof) = internal.convolve_commit(&TapretPathProof::root(0), &block.commit_id()).unwrap();
        (Anchor::new(block, proof), key)
    });
    let commitment = opret.as_ref().map(|a| a.mpc_proof.commit_id().to_byte_array()).unwrap_or([0; 32]);
    let mut tx = tx(inputs, outs, commitment);
    if let Some((_, key)) = &tapret {
        tx.outputs.push(TxOut::new(ScriptPubkey::p2tr_tweaked(*key), Sats::from(1000u64))).unwrap();
    }
    let anchor = match (tapret.map(|(a, _)| a), opret) {
        (Some(tapret), Some(opret)) => AnchorSet::Double { tapret, opret },
        (Some(tapret), None) => AnchorSet::Tapret(tapret),
        (None, Some(opret)) => AnchorSet::Opret(opret),
        (None, None) => panic!("nothing to anchor"),
    };
    let mut map = BTreeMap::<ContractId, Dichotomy<TransitionBundle>>::new();
    for (id, b) in bundles {
        map.entry(*id).and_modify(|d| d.second = Some(b.clone())).or_insert(Dichotomy::single(b.clone()));
    }
    let fascia = Fascia {
        witness: XChain::Bitcoin(PubWitness::Tx(tx.clone())),
        anchor,
        bundles: NonEmptyOrdMap::from_checked(map),
    };
    (fascia, tx)
}

/// Bundles of a composed batch: one per contract and method, inputs numbered as in `inputs`.
pub fn batch_bundles(batch: Batch, inputs: &[Outpoint]) -> Vec<(ContractId, TransitionBundle)> {
    let mut groups = BTreeMap::<(ContractId, u8), Vec<(u32, Transition)>>::new();
    for info in batch {
        let id = info.transition.contract_id;
        let group = groups.entry((id, info.method as u8)).or_default();
        for (n, o) in inputs.iter().enumerate() {
            if info.inputs.contains(&XChain::Bitcoin(*o)) {
                group.push((n as u32, info.transition.clone()));
            }
        }
    }
    groups
        .into_iter()
        .map(|((id, m), ts)| {
            let m = if m == Method::OpretFirst as u8 { Method::OpretFirst } else { Method::TapretFirst };
            (id, bundle(m, &ts.iter().map(|(n, t)| (*n, t)).collect::<Vec<_>>()))
        })
        .collect()
}
