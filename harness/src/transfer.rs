//! Payments between stocks: composing, consigning, validating and accepting.

use amplify::confinement::Confined;
use bp::dbc::Method;
use bp::seals::txout::ExplicitSeal;
use bp::{Outpoint, Tx, Vout};
use commit_verify::Conceal;
use rgbstd::containers::{
    BuilderSeal, ConsignmentExt, Fascia, PubWitness, ToWitnessId, Transfer, ValidContract,
};
use rgbstd::invoice::{AddressPayload, Allocation, Beneficiary, ChainNet, Pay2Vout, RgbInvoice, RgbInvoiceBuilder, XChainNet};
use rgbstd::persistence::{PersistedState, Stock};
use rgbstd::vm::WitnessOrd;
use rgbstd::{ContractId, DataState, GraphSeal, RevealedData, SecretSeal, Transition, XChain, XOutputSeal};

use crate::flow::*;
use crate::state::*;
use crate::sx;
use crate::world::*;

pub fn seal_at(method: Method, o: Outpoint) -> XOutputSeal { XChain::Bitcoin(ExplicitSeal::new(method, o)) }

pub fn secret_of(seal: XChain<GraphSeal>) -> SecretSeal {
    let XChain::Bitcoin(secret) = seal.conceal() else { unreachable!() };
    secret
}

pub fn blind(seal: XChain<GraphSeal>) -> RgbInvoiceBuilder {
    RgbInvoiceBuilder::new(XChainNet::with(ChainNet::BitcoinTestnet, Beneficiary::BlindedSeal(secret_of(seal))))
}

pub fn blind_invoice(id: ContractId, seal: XChain<GraphSeal>, amount: u64) -> RgbInvoice {
    blind(seal)
        .set_contract(id)
        .set_interface("WorldIface")
        .set_amount_raw(amount)
        .finish()
}

pub fn vout_invoice(id: ContractId, amount: u64) -> RgbInvoice {
    let pay = Pay2Vout { method: O, address: AddressPayload::Wpkh([7; 20].into()) };
    RgbInvoiceBuilder::new(XChainNet::with(ChainNet::BitcoinTestnet, Beneficiary::WitnessVout(pay)))
        .set_contract(id)
        .set_interface("WorldIface")
        .set_amount_raw(amount)
        .finish()
}

/// A contract with an amount on output 0.
pub fn other_contract(v: u64) -> (ContractId, ValidContract) {
    issue(builder().add_fungible_state_det("asset", gseal(O, 1, 0), v, blinding(3)).unwrap())
}

/// Composes a payment from outputs, with the change on output 2 of the witness transaction; `outs` is
/// the number of its outputs, which tells transactions apart.
pub fn pay(stock: &Stock, inv: &RgbInvoice, from: &[Outpoint], salt: u8, outs: u32) -> Option<(Fascia, Tx)> {
    let from: Vec<_> = from.iter().map(|o| (O, *o)).collect();
    pay_by(stock, inv, &from, O, salt, outs)
}

/// Composes a payment from outputs with their closing methods.
pub fn pay_by(stock: &Stock, inv: &RgbInvoice, from: &[(Method, Outpoint)], method: Method, salt: u8, outs: u32) -> Option<(Fascia, Tx)> {
    let seals: Vec<_> = from.iter().map(|(m, o)| seal_at(*m, *o)).collect();
    let from: Vec<_> = from.iter().map(|(_, o)| *o).collect();
    let vout = match inv.beneficiary.into_inner() {
        Beneficiary::BlindedSeal(_) => None,
        Beneficiary::WitnessVout(_) => Some(Vout::from_u32(1)),
    };
    let batch = stock
        .compose_deterministic(
            inv,
            seals,
            method,
            vout,
            salt as u64,
            |_, _, _| Some(Vout::from_u32(2)),
            |_, _| blinding(salt),
            |_, _| 40 + salt as u64,
        )
        .ok()?;
    Some(anchor(&batch_bundles(batch, &from), &from, outs))
}

pub fn nets(txes: &[(&Tx, WitnessOrd)]) -> Net {
    Net {
        ords: txes.iter().map(|(tx, o)| (tx.txid(), *o)).collect(),
        txes: txes.iter().map(|(tx, _)| (*tx).clone()).collect(),
    }
}

/// Validates and accepts a consignment.
pub fn accept(stock: &mut Stock, transfer: Transfer, net: &Net) -> bool {
    match transfer.validate(net, true) {
        Ok(valid) => {
            stock.accept_transfer(valid, net).unwrap();
            true
        }
        Err(_) => false,
    }
}

/// The amount of the contract on an output, which must be all state there.
pub fn amount_on(stock: &Stock, id: ContractId, o: Outpoint) -> Vec<u64> {
    on(stock, id, o)
        .into_iter()
        .map(|(opout, s)| match s {
            PersistedState::Amount(a, ..) if opout.ty == FUNGIBLE => a.value(),
            _ => panic!("unexpected state"),
        })
        .collect()
}

/// A transition spending everything of the contract on an output to concealed seals.
pub fn spend_to_secret(stock: &Stock, id: ContractId, from: Outpoint, to: &[(XChain<GraphSeal>, u64)]) -> Transition {
    let mut b = stock.transition_builder(id, "WorldIface", None::<&'static str>).unwrap();
    for (opout, state) in on(stock, id, from) {
        b = b.add_input(opout, state).unwrap();
    }
    for (n, (seal, v)) in to.iter().enumerate() {
        b = b.add_fungible_state_raw(FUNGIBLE, BuilderSeal::Concealed(seal.conceal()), *v, blinding(20 + n as u8)).unwrap();
    }
    b.complete_transition().unwrap()
}

/// The consignment with ids in place of the witness transactions.
pub fn without_tx(mut c: Transfer) -> Transfer {
    let mut bundles = std::collections::BTreeSet::new();
    for wb in &c.bundles {
        let mut wb = wb.clone();
        if let XChain::Bitcoin(w) = &wb.pub_witness {
            wb.pub_witness = XChain::Bitcoin(PubWitness::new(w.txid()));
        }
        bundles.insert(wb);
    }
    c.bundles = Confined::from_checked(bundles);
    c
}

harness! {
    fn transfer_accept() {
        // a payment to a blinded output, change to the payer
        let (a, b) = (sx::u64(), sx::u64());
        sx::assume(a.checked_add(b).is_some());
        let (mut alice, id) = world([a, b], None);
        let x = sx::u64();
        sx::assume(x > 0 && x <= a + b);
        let seal = txo_seal(O, 7, 1, 77);
        let from = [gout(0), gout(1)];
        let (fascia, tx) = pay(&alice, &blind_invoice(id, seal, x), &from, 9, 3).unwrap();
        let net = nets(&[(&tx, WitnessOrd::Tentative)]);
        alice.consume_fascia(fascia, &net).unwrap();
        let transfer = alice.transfer(id, [], Some(seal.conceal())).unwrap();
        sx::check(transfer.contract_id() == id, "consignment is of the contract");

        let mut bob = Stock::in_memory();
        bob.store_secret_seal(seal).unwrap();
        sx::check(accept(&mut bob, transfer, &net), "consignment is valid");
        let got = amount_on(&bob, id, outpoint(7, 1));
        sx::check(got.len() == 1 && got[0] == x, "payee holds the amount");
        let change = amount_on(&alice, id, xo(&tx, 2));
        if x == a + b {
            sx::check(change.is_empty(), "no empty change");
            sx::cover("all paid");
        } else {
            sx::check(change.len() == 1 && change[0] == a + b - x, "payer holds the change");
            sx::cover("change");
        }
    }

    fn transfer_chain() {
        // alice pays bob, bob pays carol a part and dave the rest of what they hold
        let x = sx::u64();
        sx::assume(x > 1 && x <= 150);
        let (mut alice, id) = world([100, 50], None);
        let seal = txo_seal(O, 7, 1, 77);
        let (fascia, tx1) = pay(&alice, &blind_invoice(id, seal, x), &[gout(0), gout(1)], 9, 3).unwrap();
        let net = nets(&[(&tx1, WitnessOrd::Tentative)]);
        alice.consume_fascia(fascia, &net).unwrap();
        let mut bob = Stock::in_memory();
        bob.store_secret_seal(seal).unwrap();
        sx::check(accept(&mut bob, alice.transfer(id, [], Some(seal.conceal())).unwrap(), &net), "first consignment is valid");

        let y = sx::u64();
        sx::assume(y > 0 && y < x);
        let seal2 = txo_seal(O, 8, 0, 78);
        let (fascia, tx2) = pay(&bob, &blind_invoice(id, seal2, y), &[outpoint(7, 1)], 10, 3).unwrap();
        let net = nets(&[(&tx1, mined(3, TIME)), (&tx2, WitnessOrd::Tentative)]);
        bob.consume_fascia(fascia, &net).unwrap();
        let mut carol = Stock::in_memory();
        carol.store_secret_seal(seal2).unwrap();
        sx::check(accept(&mut carol, bob.transfer(id, [], Some(seal2.conceal())).unwrap(), &net), "second consignment is valid");
        let got = amount_on(&carol, id, outpoint(8, 0));
        sx::check(got.len() == 1 && got[0] == y, "second payee holds the amount");
        sx::cover("second");

        let seal3 = txo_seal(O, 8, 1, 79);
        let (fascia, tx3) = pay(&bob, &blind_invoice(id, seal3, x - y), &[xo(&tx2, 2)], 11, 3).unwrap();
        let net = nets(&[(&tx1, mined(3, TIME)), (&tx2, mined(4, TIME)), (&tx3, WitnessOrd::Tentative)]);
        bob.consume_fascia(fascia, &net).unwrap();
        sx::check(accept(&mut carol, bob.transfer(id, [], Some(seal3.conceal())).unwrap(), &net), "third consignment is valid");
        let got = amount_on(&carol, id, outpoint(8, 0));
        sx::check(got.len() == 1 && got[0] == y, "earlier payment stays");
        carol.store_secret_seal(seal3).unwrap();
        sx::check(accept(&mut carol, bob.transfer(id, [], Some(seal3.conceal())).unwrap(), &net), "third consignment is valid again");
        let got = amount_on(&carol, id, outpoint(8, 1));
        sx::check(got.len() == 1 && got[0] == x - y, "third payee holds the amount");
        sx::cover("third");
    }

    fn transfer_vout() {
        // a payment to an output of the witness transaction
        let a = sx::u64();
        let (mut alice, id) = world([a, 5], None);
        let x = sx::u64();
        sx::assume(x > 0 && x < a);
        let (fascia, tx) = pay(&alice, &vout_invoice(id, x), &[gout(0)], 9, 3).unwrap();
        let net = nets(&[(&tx, WitnessOrd::Tentative)]);
        alice.consume_fascia(fascia, &net).unwrap();
        let transfer = alice.transfer(id, [seal_at(O, xo(&tx, 1))], None).unwrap();
        let mut bob = Stock::in_memory();
        sx::check(accept(&mut bob, transfer, &net), "consignment is valid");
        let got = amount_on(&bob, id, xo(&tx, 1));
        sx::check(got.len() == 1 && got[0] == x, "payee holds the amount");
        let change = amount_on(&alice, id, xo(&tx, 2));
        sx::check(change.len() == 1 && change[0] == a - x, "payer holds the change");
        let rest = amount_on(&alice, id, gout(1));
        sx::check(rest.len() == 1 && rest[0] == 5, "other outputs are untouched");
        sx::cover("paid");
    }

    fn transfer_tapret() {
        // a contract with one output closed in each way: a payment from either or from both
        let (a, b) = (sx::u64(), sx::u64());
        sx::assume(a.checked_add(b).is_some() && a > 0 && b > 0);
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), a, blinding(1)).unwrap()
                .add_fungible_state_det("asset", gseal(T, 1, 1), b, blinding(2)).unwrap(),
        );
        let mut alice = Stock::in_memory();
        alice.import_contract(c, Net::default()).unwrap();
        let both = sx::choose(2) == 1;
        let from: &[(Method, Outpoint)] = if both { &[(O, gout(0)), (T, gout(1))] } else { &[(T, gout(1))] };
        let sum = if both { a + b } else { b };
        let x = sx::u64();
        sx::assume(x > 0 && x <= sum);
        let (method, to) = match sx::choose(if sx::thorough() { 4 } else { 2 }) {
            0 => (T, T),
            1 => (O, T),
            2 => (T, O),
            _ => (O, O),
        };
        let seal = txo_seal(to, 7, 1, 77);
        let (fascia, tx) = pay_by(&alice, &blind_invoice(id, seal, x), from, method, 9, 3).unwrap();
        let net = nets(&[(&tx, WitnessOrd::Tentative)]);
        alice.consume_fascia(fascia, &net).unwrap();
        let change: u64 = amount_on(&alice, id, xo(&tx, 2)).iter().sum();
        sx::check(change == sum - x, "payer holds the change");
        let transfer = alice.transfer(id, [], Some(seal.conceal())).unwrap();
        let mut bob = Stock::in_memory();
        bob.store_secret_seal(seal).unwrap();
        sx::check(accept(&mut bob, transfer, &net), "consignment is valid");
        let got = amount_on(&bob, id, outpoint(7, 1));
        sx::check(got.iter().sum::<u64>() == x, "payee holds the amount");
        sx::cover(if both { "closed in both ways" } else { "closed in one way" });
        if to == T && method == T {
            // the payee pays it on to an output of the next transaction
            let (fascia, tx2) = pay_by(&bob, &vout_invoice(id, x), &[(T, outpoint(7, 1))], T, 10, 3).unwrap();
            let net = nets(&[(&tx, mined(3, TIME)), (&tx2, WitnessOrd::Tentative)]);
            bob.consume_fascia(fascia, &net).unwrap();
            let mut carol = Stock::in_memory();
            let transfer = bob.transfer(id, [seal_at(O, xo(&tx2, 1))], None).unwrap();
            sx::check(accept(&mut carol, transfer, &net), "next consignment is valid");
            let got = amount_on(&carol, id, xo(&tx2, 1));
            sx::check(got.len() == 1 && got[0] == x, "next payee holds the amount");
            sx::cover("paid on");
        }
    }

    fn transfer_order() {
        // two payments reach the payee in any order, once or twice; the seal is remembered before or after
        let (x, y) = (sx::u64(), sx::u64());
        let (mut alice, id) = world([x, y], None);
        let seals = [txo_seal(O, 7, 1, 77), txo_seal(O, 7, 2, 78)];
        let mut made = vec![];
        let mut txes = vec![];
        for n in 0..2 {
            let amount = [x, y][n];
            sx::assume(amount > 0);
            let (fascia, tx) = pay(&alice, &blind_invoice(id, seals[n], amount), &[gout(n as u32)], 9, 3).unwrap();
            alice.consume_fascia(fascia, know(&tx, WitnessOrd::Tentative)).unwrap();
            txes.push(tx);
        }
        let net = nets(&[(&txes[0], mined(3, TIME)), (&txes[1], WitnessOrd::Tentative)]);
        for seal in seals {
            let c = alice.transfer(id, [], Some(seal.conceal())).unwrap();
            made.push(match c.validate(&net, true) {
                Ok(valid) => valid,
                Err(_) => {
                    sx::check(false, "consignments are valid");
                    return;
                }
            });
        }
        let mut bob = Stock::in_memory();
        let late = sx::choose(2) == 1;
        if !late {
            for seal in seals {
                bob.store_secret_seal(seal).unwrap();
            }
        }
        let orders: [&[usize]; 4] = [&[0, 1], &[1, 0], &[0, 0, 1], &[1, 0, 1]];
        let order = orders[sx::choose(4) as usize];
        for n in order {
            bob.accept_transfer(made[*n].clone(), &net).unwrap();
        }
        if late {
            for seal in seals {
                bob.store_secret_seal(seal).unwrap();
            }
            for n in order {
                bob.accept_transfer(made[*n].clone(), &net).unwrap();
            }
        }
        let got = amount_on(&bob, id, outpoint(7, 1));
        sx::check(got.len() == 1 && got[0] == x, "first payment is held");
        let got = amount_on(&bob, id, outpoint(7, 2));
        sx::check(got.len() == 1 && got[0] == y, "second payment is held");
        sx::check(visible(&bob, id).len() == 4, "nothing is held twice");
        if late {
            sx::cover("late");
        } else {
            sx::cover("early");
        }
    }

    fn transfer_rewitness() {
        // the payment is witnessed by two transactions; the consignment names a valid one
        let (mut alice, id) = world([100, 50], None);
        let seal = txo_seal(O, 7, 1, 77);
        let inv = blind_invoice(id, seal, 100);
        let (f1, tx1) = pay(&alice, &inv, &[gout(0)], 9, 3).unwrap();
        let (f2, tx2) = pay(&alice, &inv, &[gout(0)], 9, 4).unwrap();
        let ords = [any_ord(), any_ord()];
        let net = nets(&[(&tx1, ords[0]), (&tx2, ords[1])]);
        alice.consume_fascia(f1, &net).unwrap();
        alice.consume_fascia(f2, &net).unwrap();
        let valid = ords.map(|o| o != WitnessOrd::Archived);
        match alice.transfer(id, [], Some(seal.conceal())) {
            Ok(c) => {
                let used: Vec<_> = c.bundles.iter().map(|b| b.pub_witness.to_witness_id()).collect();
                sx::check(used.len() == 1, "one witness is consigned");
                let n = if used[0] == wid(&tx1) { 0 } else { 1 };
                sx::check(used[0] == wid(&tx1) || used[0] == wid(&tx2), "witness is one of the payment");
                sx::check(valid[n], "consigned witness is valid");
                let mut bob = Stock::in_memory();
                bob.store_secret_seal(seal).unwrap();
                sx::check(accept(&mut bob, c, &net), "consignment is valid");
                let got = amount_on(&bob, id, outpoint(7, 1));
                sx::check(got.len() == 1 && got[0] == 100, "payee holds the amount");
                sx::cover("consigned");
                if n == 1 {
                    sx::cover("second witness");
                }
            }
            Err(_) => {
                sx::check(!valid[0] && !valid[1], "consigned while a witness is valid");
                sx::cover("refused");
            }
        }
    }

    fn transfer_blank() {
        // a payment in one contract moves the state of another one; which is then paid itself
        let (mut alice, id) = world([100, 50], None);
        let v = sx::u64();
        sx::assume(v > 0);
        let second = other_contract(v);
        let id2 = second.0;
        alice.import_contract(second.1, Net::default()).unwrap();
        let seal = txo_seal(O, 7, 1, 77);
        let (f1, tx1) = pay(&alice, &blind_invoice(id, seal, 100), &[gout(0)], 9, 3).unwrap();
        let net = nets(&[(&tx1, WitnessOrd::Tentative)]);
        alice.consume_fascia(f1, &net).unwrap();
        let mut bob = Stock::in_memory();
        bob.store_secret_seal(seal).unwrap();
        sx::check(accept(&mut bob, alice.transfer(id, [], Some(seal.conceal())).unwrap(), &net), "consignment is valid");
        let got = amount_on(&bob, id, outpoint(7, 1));
        sx::check(got.len() == 1 && got[0] == 100, "payee holds the amount");
        let moved = amount_on(&alice, id2, xo(&tx1, 2));
        sx::check(moved.len() == 1 && moved[0] == v, "other contract moved");

        let seal2 = txo_seal(O, 8, 1, 78);
        let (f2, tx2) = pay(&alice, &blind_invoice(id2, seal2, v), &[xo(&tx1, 2)], 9, 3).unwrap();
        let net = nets(&[(&tx1, mined(3, TIME)), (&tx2, WitnessOrd::Tentative)]);
        alice.consume_fascia(f2, &net).unwrap();
        bob.store_secret_seal(seal2).unwrap();
        sx::check(accept(&mut bob, alice.transfer(id2, [], Some(seal2.conceal())).unwrap(), &net), "other consignment is valid");
        let got = amount_on(&bob, id2, outpoint(8, 1));
        sx::check(got.len() == 1 && got[0] == v, "payee holds the other contract");
        sx::cover("paid");
    }

    fn transfer_shared_seal() {
        // the payee gives one blinded output for payments in two contracts
        let (mut alice, id) = world([100, 50], None);
        let seal = txo_seal(O, 7, 1, 77);
        let mut b = builder().add_fungible_state_det("asset", gseal(O, 1, 0), 30u64, blinding(3)).unwrap();
        if sx::choose(2) == 1 {
            b = b.add_fungible_state_det("asset", BuilderSeal::Concealed(seal.conceal()), 5u64, blinding(4)).unwrap();
        }
        let second = issue(b);
        let id2 = second.0;
        alice.import_contract(second.1, Net::default()).unwrap();
        let t1 = spend_to_secret(&alice, id, gout(0), &[(seal, 100)]);
        let t2 = spend_to_secret(&alice, id2, gout(0), &[(seal, 10), (seal, 20)]);
        let (f, tx) = anchor(&[(id, bundle(O, &[(0, &t1)])), (id2, bundle(O, &[(0, &t2)]))], &[gout(0)], 3);
        let net = nets(&[(&tx, WitnessOrd::Tentative)]);
        alice.consume_fascia(f, &net).unwrap();
        let mut bob = Stock::in_memory();
        bob.store_secret_seal(seal).unwrap();
        let ids = if sx::choose(2) == 0 { [id, id2] } else { [id2, id] };
        for id in ids {
            let c = alice.transfer(id, [], Some(seal.conceal())).unwrap();
            sx::check(c.bundles.len() == 1, "one witness is consigned");
            sx::check(accept(&mut bob, c, &net), "consignment is valid");
        }
        sx::check(amount_on(&bob, id, outpoint(7, 1)) == [100], "first contract is held");
        let mut got = amount_on(&bob, id2, outpoint(7, 1));
        got.sort();
        sx::check(got == [10, 20], "second contract is held");
        sx::cover("accepted");
    }

    fn transfer_two_seals() {
        // one output is assigned state with seals of both closing methods
        let v = [sx::u64(), sx::u64()];
        let (mut alice, id) = world(v, None);
        let seals = [txo_seal(O, 7, 1, 77), txo_seal(T, 7, 1, 78)];
        let mut txes = vec![];
        for n in 0..2u32 {
            let t = spend(&alice, id, gout(n), &[(seals[n as usize], v[n as usize])], None);
            let (f, tx) = anchored(id, &t, gout(n), 3);
            alice.consume_fascia(f, know(&tx, WitnessOrd::Tentative)).unwrap();
            txes.push(tx);
        }
        let net = nets(&[(&txes[0], mined(3, TIME)), (&txes[1], mined(4, TIME))]);
        let method = if sx::choose(2) == 0 { O } else { T };
        let c = alice.transfer(id, [seal_at(method, outpoint(7, 1))], None).unwrap();
        let mut bob = Stock::in_memory();
        sx::check(accept(&mut bob, c, &net), "consignment is valid");
        let got = amount_on(&bob, id, outpoint(7, 1));
        sx::check(got == v || got == [v[1], v[0]], "all state of the output is held");
        sx::cover("accepted");
    }

    fn transfer_items() {
        // rights and items stay with the payer when an amount is paid; then an item is paid
        let f = sx::u64();
        let item = RevealedData::with_salt(DataState::from(Allocation::with(1, f)), 3);
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), 100u64, blinding(1)).unwrap()
                .add_rights("right", gseal(O, 1, 0)).unwrap()
                .add_data_det("item", gseal(O, 1, 0), item.clone()).unwrap(),
        );
        let mut alice = Stock::in_memory();
        alice.import_contract(c, Net::default()).unwrap();
        let x = sx::u64();
        sx::assume(x > 0 && x <= 100);
        let seal = txo_seal(O, 7, 1, 77);
        let inv = blind(seal).set_contract(id).set_interface("WorldIface").set_operation("transfer").set_assignment("asset").set_amount_raw(x).finish();
        let (f1, tx1) = pay(&alice, &inv, &[gout(0)], 9, 3).unwrap();
        let net = nets(&[(&tx1, WitnessOrd::Tentative)]);
        alice.consume_fascia(f1, &net).unwrap();
        let mut bob = Stock::in_memory();
        bob.store_secret_seal(seal).unwrap();
        sx::check(accept(&mut bob, alice.transfer(id, [], Some(seal.conceal())).unwrap(), &net), "consignment is valid");
        let got = amount_on(&bob, id, outpoint(7, 1));
        sx::check(got.len() == 1 && got[0] == x, "payee holds the amount");
        let (mut rights, mut items, mut amounts) = (0, vec![], vec![]);
        for (o, s) in on(&alice, id, xo(&tx1, 2)) {
            match s {
                PersistedState::Void if o.ty == RIGHT => rights += 1,
                PersistedState::Data(d, _) if o.ty == DATA => items.push(d),
                PersistedState::Amount(a, ..) if o.ty == FUNGIBLE => amounts.push(a.value()),
                _ => sx::check(false, "state of a known kind"),
            }
        }
        sx::check(rights == 1, "right stays");
        sx::check(items.len() == 1 && items[0] == item.value, "item stays");
        sx::check(if x < 100 { amounts == [100 - x] } else { amounts.is_empty() }, "change stays");

        let seal2 = txo_seal(O, 8, 1, 78);
        let inv = blind(seal2)
            .set_contract(id)
            .set_interface("WorldIface")
            .set_operation("transfer")
            .set_assignment("item")
            .set_allocation_raw(Allocation::with(1, f))
            .finish();
        let (f2, tx2) = pay(&alice, &inv, &[xo(&tx1, 2)], 10, 3).unwrap();
        let net = nets(&[(&tx1, mined(3, TIME)), (&tx2, WitnessOrd::Tentative)]);
        alice.consume_fascia(f2, &net).unwrap();
        bob.store_secret_seal(seal2).unwrap();
        sx::check(accept(&mut bob, alice.transfer(id, [], Some(seal2.conceal())).unwrap(), &net), "item consignment is valid");
        let got = on(&bob, id, outpoint(8, 1));
        sx::check(got.len() == 1, "payee holds the item only");
        sx::check(matches!(&got[0].1, PersistedState::Data(d, _) if *d == item.value), "payee holds the item");
        sx::cover("paid");
    }

    fn transfer_known_witness() {
        // consignments which have the witness transaction and only its id
        let (mut alice, id) = world([100, 50], None);
        let seals = [txo_seal(O, 7, 1, 77), txo_seal(O, 7, 2, 78)];
        let v = sx::below(100);
        let t = spend_to_secret(&alice, id, gout(0), &[(seals[0], v), (seals[1], 100 - v)]);
        let (f, tx) = anchored(id, &t, gout(0), 3);
        let net = nets(&[(&tx, WitnessOrd::Tentative)]);
        alice.consume_fascia(f, &net).unwrap();
        let full = [sx::choose(2) == 1, sx::choose(2) == 1];
        let cs: Vec<_> = (0..2)
            .map(|n| {
                let c = alice.transfer(id, [], Some(seals[n].conceal())).unwrap();
                if full[n] { c } else { without_tx(c) }.validate(&net, true).ok()
            })
            .collect();
        sx::check(cs[0].is_some() && cs[1].is_some(), "consignments are valid with and without the witness transaction");
        let mut bob = Stock::in_memory();
        for seal in seals {
            bob.store_secret_seal(seal).unwrap();
        }
        for c in cs {
            let ok = bob.accept_transfer(c.unwrap(), &net).is_ok();
            sx::check(ok, "consignments are accepted with and without the witness transaction");
        }
        let next = bob.transfer(id, [seal_at(O, outpoint(7, 1))], None).unwrap();
        let known = next.bundles.iter().all(|b| matches!(&b.pub_witness, XChain::Bitcoin(w) if w.tx().is_some()));
        sx::check(known == (full[0] || full[1]), "a known witness transaction stays known");
        sx::cover(if known { "transaction" } else { "id" });
    }
}
