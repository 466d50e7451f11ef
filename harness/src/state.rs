//! What the stock shows of a contract depends on the status of witness transactions.

use std::collections::BTreeMap;

use bp::dbc::Method;
use bp::{Outpoint, Tx};
use rgbstd::containers::Fascia;
use rgbstd::interface::FilterIncludeAll;
use rgbstd::persistence::{ContractStateRead, PersistedState, Stock};
use rgbstd::vm::{ContractStateAccess, WitnessOrd};
use rgbstd::{ContractId, GraphSeal, Opout, Operation, Transition, XChain, XOutpoint, XWitnessId};

use crate::flow::*;
use crate::sx;
use crate::world::*;

pub const O: Method = Method::OpretFirst;
pub const T: Method = Method::TapretFirst;
pub const TIME: i64 = 1_700_000_000;

pub fn wid(tx: &Tx) -> XWitnessId { XChain::Bitcoin(tx.txid()) }

pub fn xo(tx: &Tx, vout: u32) -> Outpoint { Outpoint::new(tx.txid(), vout) }

pub fn gout(vout: u32) -> Outpoint { outpoint(1, vout) }

/// A contract with two amounts on outputs 0 and 1, and the stock which knows it.
pub fn world(v: [u64; 2], global: Option<u64>) -> (Stock, ContractId) {
    let mut b = builder()
        .add_fungible_state_det("asset", gseal(O, 1, 0), v[0], blinding(1)).unwrap()
        .add_fungible_state_det("asset", gseal(O, 1, 1), v[1], blinding(2)).unwrap();
    if let Some(g) = global {
        b = b.add_global_state("many", rgbinvoice::Amount::from(g)).unwrap();
    }
    let (id, c) = issue(b);
    let mut stock = Stock::in_memory();
    stock.import_contract(c, Net::default()).unwrap();
    (stock, id)
}

/// All owned state of the contract on an output.
pub fn on(stock: &Stock, id: ContractId, out: Outpoint) -> Vec<(Opout, PersistedState)> {
    let mut v = vec![];
    for (_, map) in stock.contract_assignments_for(id, [XOutpoint::from(XChain::Bitcoin(out))]).unwrap() {
        v.extend(map);
    }
    v.sort_by_key(|(o, _)| *o);
    v
}

/// A transition spending everything of the contract on an output.
pub fn spend(stock: &Stock, id: ContractId, from: Outpoint, to: &[(XChain<GraphSeal>, u64)], global: Option<u64>) -> Transition {
    let mut b = stock.transition_builder(id, "WorldIface", None::<&'static str>).unwrap();
    for (opout, state) in on(stock, id, from) {
        b = b.add_input(opout, state).unwrap();
    }
    for (n, (seal, v)) in to.iter().enumerate() {
        b = b.add_fungible_state_raw(FUNGIBLE, rgbstd::containers::BuilderSeal::Revealed(*seal), *v, blinding(20 + n as u8)).unwrap();
    }
    if let Some(g) = global {
        b = b.add_global_state("many", rgbinvoice::Amount::from(g)).unwrap();
    }
    b.complete_transition().unwrap()
}

/// Anchors a transition to a transaction spending `from`; `outs` tells transactions apart.
pub fn anchored(id: ContractId, t: &Transition, from: Outpoint, outs: u32) -> (Fascia, Tx) {
    anchor(&[(id, bundle(O, &[(0, t)]))], &[from], outs)
}

/// Any status of a witness transaction.
pub fn any_ord() -> WitnessOrd {
    match sx::choose(3) {
        0 => WitnessOrd::Archived,
        1 => WitnessOrd::Tentative,
        _ => {
            let h = sx::u32();
            sx::assume(h > 0);
            mined(h, TIME)
        }
    }
}

pub fn know(tx: &Tx, ord: WitnessOrd) -> Net { Net { ords: vec![(tx.txid(), ord)], txes: vec![tx.clone()] } }

/// The amounts visible in the contract, by operation output.
pub fn visible(stock: &Stock, id: ContractId) -> BTreeMap<Opout, u64> {
    let state = stock.contract_state(id).unwrap();
    state.fungible_all().map(|a| (a.opout, a.state.value.as_u64())).collect()
}

/// Every way of reading owned state shows the same amounts.
pub fn agree(stock: &Stock, id: ContractId, outs: &[Outpoint]) {
    let all = visible(stock, id);
    let iface = stock.contract_iface(id, "WorldIface").unwrap();
    let by_name: BTreeMap<_, _> =
        iface.fungible("asset", FilterIncludeAll).unwrap().map(|a| (a.opout, a.state.value())).collect();
    sx::check(all == by_name, "interface shows the same amounts");
    let mut by_out = BTreeMap::new();
    for o in outs {
        for (opout, s) in on(stock, id, *o) {
            if let PersistedState::Amount(a, ..) = s {
                by_out.insert(opout, a.value());
            }
        }
    }
    sx::check(all == by_out, "outputs show the same amounts");
}

harness! {
    fn witness_update() {
        // two payments in a row; their witnesses change status
        let (mut stock, id) = world([100, 50], None);
        let t1 = spend(&stock, id, gout(0), &[(vout_seal(O, 1, 1), 60), (vout_seal(O, 2, 2), 40)], None);
        let (f1, tx1) = anchored(id, &t1, gout(0), 3);
        stock.consume_fascia(f1, know(&tx1, mined(5, TIME))).unwrap();
        let t2 = spend(&stock, id, xo(&tx1, 1), &[(vout_seal(O, 1, 3), 60)], None);
        let (f2, tx2) = anchored(id, &t2, xo(&tx1, 1), 2);
        stock.consume_fascia(f2, know(&tx2, WitnessOrd::Tentative)).unwrap();
        let (id1, id2) = (t1.id(), t2.id());
        let outs = [gout(0), gout(1), xo(&tx1, 1), xo(&tx1, 2), xo(&tx2, 1)];
        sx::check(visible(&stock, id).len() == 5, "all state shows while witnesses are valid");

        // statuses become arbitrary, then are updated from a height with a resolver which may fail
        let mut old = vec![];
        let net = Net { ords: vec![(tx1.txid(), any_ord()), (tx2.txid(), any_ord())], txes: vec![] };
        stock.update_witnesses(&net, 0).unwrap();
        for (_, o) in &net.ords {
            old.push(*o);
        }
        let after = sx::u32();
        let (txid1, txid2) = (tx1.txid(), tx2.txid());
        let mut net = Net::default();
        for tx in [&txid1, &txid2] {
            if sx::choose(2) == 0 {
                net.ords.push((*tx, any_ord()));
            }
        }
        let res = stock.update_witnesses(&net, after).unwrap();

        let (mut ok, mut failed) = (0, 0);
        let mut now = vec![];
        for (tx, old) in [&txid1, &txid2].into_iter().zip(old.iter().copied()) {
            let skip = match old {
                WitnessOrd::Mined(pos) => pos.height().get() < after.max(1),
                _ => false,
            };
            let new = net.ords.iter().find(|(id, _)| *id == *tx).map(|(_, o)| *o);
            now.push(match new {
                _ if skip => old,
                Some(new) => {
                    ok += 1;
                    new
                }
                None => {
                    failed += 1;
                    sx::check(res.failed.contains_key(&XChain::Bitcoin(*tx)), "failures are reported");
                    old
                }
            });
        }
        sx::check(res.failed.len() == failed, "only failures are reported");
        sx::check(res.succeeded == ok, "successes are counted");
        let shown = visible(&stock, id);
        let state = stock.contract_state(id).unwrap();
        for (tx, ord) in [&txid1, &txid2].into_iter().zip(&now) {
            sx::check(state.witness_ord(XChain::Bitcoin(*tx)) == Some(*ord), "status is the latest one known");
        }
        let valid = [now[0] != WitnessOrd::Archived, now[1] != WitnessOrd::Archived];
        sx::check(
            shown.keys().filter(|o| o.op == id1).count() == if valid[0] { 2 } else { 0 },
            "state shows while its witness is valid",
        );
        sx::check(shown.keys().filter(|o| o.op == id2).count() == valid[1] as usize, "later state shows while its witness is valid");
        sx::check(
            shown.keys().filter(|o| o.op != id1 && o.op != id2).count() == 2,
            "genesis state always shows",
        );
        if old[1] == WitnessOrd::Tentative {
            agree(&stock, id, &outs);
        }
        sx::cover("updated");
        if failed > 0 {
            sx::cover("resolver failed");
        }
        if !valid[0] && valid[1] {
            sx::cover("first archived");
        }
    }

    fn witness_global() {
        // global state of a transition shows while its witness is valid
        let (mut stock, id) = world([100, 50], None);
        let g = sx::u64();
        let t1 = spend(&stock, id, gout(0), &[(vout_seal(O, 1, 1), 100)], Some(g));
        let (f1, tx1) = anchored(id, &t1, gout(0), 3);
        let ord = any_ord();
        stock.consume_fascia(f1, know(&tx1, ord)).unwrap();
        let iface = stock.contract_iface(id, "WorldIface").unwrap();
        let seen: Vec<_> = iface.global("many").unwrap().collect();
        if ord == WitnessOrd::Archived {
            sx::check(seen.is_empty(), "archived global state is hidden");
            sx::cover("archived");
        } else {
            sx::check(seen.len() == 1, "valid global state shows");
            sx::check(seen[0].unwrap_uint::<u64>() == g, "global state has its value");
            sx::cover("valid");
        }
    }

    fn witness_global_many() {
        // global state of genesis and of two transitions
        let (mut stock, id) = world([100, 50], Some(1));
        let t1 = spend(&stock, id, gout(0), &[(vout_seal(O, 1, 1), 100)], Some(2));
        let (f1, tx1) = anchored(id, &t1, gout(0), 3);
        stock.consume_fascia(f1, know(&tx1, mined(5, TIME))).unwrap();
        let t2 = spend(&stock, id, gout(1), &[(vout_seal(O, 1, 1), 50)], Some(3));
        let (f2, tx2) = anchored(id, &t2, gout(1), 3);
        stock.consume_fascia(f2, know(&tx2, mined(6, TIME))).unwrap();
        let ords = [any_ord(), any_ord()];
        stock.update_witnesses(Net { ords: vec![(tx1.txid(), ords[0]), (tx2.txid(), ords[1])], txes: vec![] }, 0).unwrap();
        let valid = ords.map(|o| o != WitnessOrd::Archived);
        let mut expect = vec![1u64];
        for n in 0..2 {
            if valid[n] {
                expect.push(2 + n as u64);
            }
        }
        let size = stock.contract_state(id).unwrap().global(MANY).unwrap().size();
        sx::check(size.to_usize() == expect.len(), "exactly the valid global state counts");
        sx::known_panic("global-order", expect.len() > 1);
        let iface = stock.contract_iface(id, "WorldIface").unwrap();
        let mut seen: Vec<u64> = iface.global("many").unwrap().map(|v| v.unwrap_uint::<u64>()).collect();
        seen.sort();
        sx::check(seen == expect, "exactly the valid global state shows");
        if expect.len() == 1 {
            sx::cover("genesis only");
        }
    }

    fn rewitness() {
        // one transition is witnessed by a transaction and by its replacement
        let (mut stock, id) = world([100, 50], None);
        let t = spend(&stock, id, gout(0), &[(vout_seal(O, 1, 1), 60), (txo_seal(O, 7, 0, 9), 40)], None);
        let (f1, tx1) = anchored(id, &t, gout(0), 3);
        let (f2, tx2) = anchored(id, &t, gout(0), 4);
        stock.consume_fascia(f1, know(&tx1, WitnessOrd::Tentative)).unwrap();
        stock.consume_fascia(f2, know(&tx2, WitnessOrd::Tentative)).unwrap();
        let ords = [any_ord(), any_ord()];
        stock.update_witnesses(Net { ords: vec![(tx1.txid(), ords[0]), (tx2.txid(), ords[1])], txes: vec![] }, 0).unwrap();
        let valid = ords.map(|o| o != WitnessOrd::Archived);
        sx::check(on(&stock, id, xo(&tx1, 1)).len() == valid[0] as usize, "output of the first witness");
        sx::check(on(&stock, id, xo(&tx2, 1)).len() == valid[1] as usize, "output of the second witness");
        sx::check_known(
            on(&stock, id, outpoint(7, 0)).len() == (valid[0] || valid[1]) as usize,
            "other output shows while any witness is valid",
            "rewitnessed",
            !valid[0] && valid[1],
        );
        sx::cover("read");
    }
}
