//! State made by extensions: anyone may make it, and it counts once spent.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use bp::{Outpoint, Tx};
use commit_verify::Conceal;
use rgbstd::containers::{AnchorSet, BuilderSeal, ClientBundle, ConsignmentExt, PubWitness, Transfer, WitnessBundle};
use rgbstd::persistence::{PersistedState, Stock};
use rgbstd::validation::DbcProof;
use rgbstd::vm::WitnessOrd;
use rgbstd::{
    Assign, Assignments, ContractId, Extension, GenesisSeal, GraphSeal, OpId, Operation, Opout, RevealedValue, Transition, TypedAssigns,
    XChain,
};
use strict_encoding::StrictDumb;

use crate::flow::*;
use crate::state::*;
use crate::sx;
use crate::transfer::*;
use crate::world::*;
use amplify::ByteArray;

/// A contract which may be extended, with one amount on output 0, and a stock knowing it.
fn open_world(v: u64) -> (Stock, ContractId) {
    let (_, c) = issue(builder().add_fungible_state_det("asset", gseal(O, 1, 0), v, blinding(1)).unwrap());
    let mut c = c.into_consignment();
    c.genesis.valencies.push(VALENCY).unwrap();
    let id = c.contract_id();
    let Ok(c) = c.validate(&Net::default(), true) else { panic!() };
    let mut stock = Stock::in_memory();
    stock.import_contract(c, Net::default()).unwrap();
    (stock, id)
}

/// An extension putting amounts on outputs 0 and 1 of transaction 5.
fn extension(id: ContractId, v: &[u64]) -> Extension {
    let put = |n: usize, v: u64| Assign::Revealed {
        seal: XChain::Bitcoin(GenesisSeal::with_blinding(O, txid(5), bp::Vout::from_u32(n as u32), 5)),
        state: RevealedValue::with_blinding(v, blinding(3 + n as u8), tag()),
        lock: Default::default(),
    };
    let list = v.iter().enumerate().map(|(n, v)| put(n, *v)).collect::<Vec<_>>();
    let map = BTreeMap::from([(FUNGIBLE, TypedAssigns::Fungible(Confined::from_checked(list)))]);
    let mut redeemed = rgbstd::Redeemed::default();
    redeemed.insert(VALENCY, OpId::from(id.to_byte_array())).unwrap();
    Extension {
        contract_id: id,
        extension_type: EXTEND,
        assignments: Assignments::from(Confined::from_checked(map)),
        redeemed,
        ..Extension::strict_dumb()
    }
}

/// A transition spending an amount of an extension.
fn spend_of(stock: &Stock, id: ContractId, ext: OpId, n: u16, v: u64, to: &[(XChain<GraphSeal>, u64)]) -> Transition {
    let state = PersistedState::Amount(v.into(), blinding(3 + n as u8), tag());
    let mut b = stock
        .transition_builder(id, "WorldIface", None::<&'static str>).unwrap()
        .add_input(Opout::new(ext, FUNGIBLE, n), state).unwrap();
    for (k, (seal, v)) in to.iter().enumerate() {
        b = b.add_fungible_state_raw(FUNGIBLE, BuilderSeal::Revealed(*seal), *v, blinding(20 + k as u8)).unwrap();
    }
    b.complete_transition().unwrap()
}

/// A transaction with the transition, as it stands in a consignment.
fn witnessed(id: ContractId, t: &Transition, from: Outpoint, outs: u32) -> (WitnessBundle, Tx) {
    let b = bundle(O, &[(0, t)]);
    let (fascia, tx) = anchor(&[(id, b.clone())], &[from], outs);
    let AnchorSet::Opret(a) = fascia.anchor else { panic!() };
    let proof = a.mpc_proof.to_merkle_proof(id.into()).unwrap();
    let client = ClientBundle::new(proof, DbcProof::Opret(a.dbc_proof), b);
    (WitnessBundle::with(XChain::Bitcoin(PubWitness::Tx(tx.clone())), client), tx)
}

fn consign(stock: &Stock, id: ContractId, ext: &Extension, bundles: Vec<WitnessBundle>) -> Transfer {
    let mut c = stock.transfer(id, [], None).unwrap();
    c.extensions = Confined::from_checked(BTreeSet::from([ext.clone()]));
    c.bundles = Confined::from_checked(bundles.into_iter().collect());
    c
}

harness! {
    /// State of an extension is spent, and what was spent is paid on.
    fn extension_paid() {
        let (v, x) = (sx::u64(), sx::u64());
        sx::assume(x > 0 && x < v);
        let (alice, id) = open_world(7);
        let ext = extension(id, &[v]);
        let opid = ext.id();
        let t = spend_of(&alice, id, opid, 0, v, &[(txo_seal(O, 7, 1, 77), x), (vout_seal(O, 2, 78), v - x)]);
        let (wb, tx) = witnessed(id, &t, outpoint(5, 0), 3);
        let net = nets(&[(&tx, WitnessOrd::Tentative)]);
        let transfer = consign(&alice, id, &ext, vec![wb]);
        let mut bob = Stock::in_memory();
        sx::check(accept(&mut bob, transfer, &net), "consignment with an extension is valid");
        sx::check(amount_on(&bob, id, outpoint(5, 0)) == [v], "state of the extension shows");
        sx::check(amount_on(&bob, id, outpoint(7, 1)) == [x] && amount_on(&bob, id, xo(&tx, 2)) == [v - x], "state spent from it shows");
        sx::check(amount_on(&bob, id, gout(0)) == [7], "other state shows");
        sx::cover("accepted");

        let y = sx::u64();
        sx::assume(y > 0 && y < x);
        let seal = txo_seal(O, 8, 1, 79);
        let (fascia, tx2) = pay(&bob, &blind_invoice(id, seal, y), &[outpoint(7, 1)], 10, 3).unwrap();
        let net = nets(&[(&tx, mined(3, TIME)), (&tx2, WitnessOrd::Tentative)]);
        bob.consume_fascia(fascia, &net).unwrap();
        let transfer = bob.transfer(id, [], Some(seal.conceal()));
        sx::check(transfer.is_ok(), "a payment from an extension is consigned");
        let Ok(transfer) = transfer else { return };
        let mut carol = Stock::in_memory();
        carol.store_secret_seal(seal).unwrap();
        sx::check(accept(&mut carol, transfer, &net), "its consignment is valid");
        sx::check(amount_on(&carol, id, outpoint(8, 1)) == [y], "the next payee holds the amount");
        sx::check(amount_on(&carol, id, outpoint(5, 0)) == [v], "the next payee knows the extension");
        let other = bob.transfer(id, [seal_at(O, gout(0))], None);
        sx::check(other.is_ok_and(|c| c.contract_id() == id), "other state is consigned as well");
        sx::cover("paid on");
    }

    /// An extension spent by two transactions shows while the earliest is valid.
    fn extension_twice() {
        let (alice, id) = open_world(7);
        let ext = extension(id, &[30, 40]);
        let opid = ext.id();
        let t1 = spend_of(&alice, id, opid, 0, 30, &[(vout_seal(O, 1, 1), 30)]);
        let t2 = spend_of(&alice, id, opid, 1, 40, &[(vout_seal(O, 1, 1), 40)]);
        let outs = if sx::thorough() { 3 + sx::choose(2) as u32 } else { 3 };
        let (w1, tx1) = witnessed(id, &t1, outpoint(5, 0), outs);
        let (w2, tx2) = witnessed(id, &t2, outpoint(5, 1), 3);
        let ords = [any_ord(), any_ord()];
        let net = nets(&[(&tx1, ords[0]), (&tx2, ords[1])]);
        let mut bob = Stock::in_memory();
        sx::check(accept(&mut bob, consign(&alice, id, &ext, vec![w1, w2]), &net), "consignment is valid");
        let valid = ords.map(|o| o != WitnessOrd::Archived);
        let shows = |o: Outpoint| amount_on(&bob, id, o).iter().sum::<u64>();
        let any = valid[0] || valid[1];
        sx::check(shows(outpoint(5, 0)) == if any { 30 } else { 0 } && shows(outpoint(5, 1)) == if any { 40 } else { 0 },
            "the extension shows while a spending is valid");
        sx::check(shows(xo(&tx1, 1)) == if valid[0] { 30 } else { 0 } && shows(xo(&tx2, 1)) == if valid[1] { 40 } else { 0 },
            "each spending shows while valid");
        if any {
            sx::cover("valid");
        } else {
            sx::cover("not valid");
        }
    }
}
