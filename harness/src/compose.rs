//! Composing payments: what goes in comes out, to the right places.

use std::collections::BTreeSet;

use amplify::Wrapper;
use bp::dbc::Method;
use bp::seals::txout::TxPtr;
use bp::Vout;
use commit_verify::Conceal;
use rgbstd::containers::TransitionInfo;
use rgbstd::invoice::{
    AddressPayload, Allocation, Beneficiary, ChainNet, InvoiceState, NonFungible, Pay2Vout, RgbInvoice, RgbInvoiceBuilder, XChainNet,
};
use rgbstd::persistence::{ComposeError, Stock, StockError};
use rgbstd::{
    AssignmentType, AttachState, ContractId, DataState, Opout, Operation, RevealedData, SecretSeal,
    Transition, TypedAssigns, XChain, XOutputSeal,
};

use crate::flow::*;
use crate::sx;
use crate::world::*;

pub const O: Method = Method::OpretFirst;
pub const T: Method = Method::TapretFirst;

/// Where the composed transitions put state.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Dest {
    Secret(XChain<SecretSeal>),
    Vout(u32, Method),
    Other,
}

pub enum Item {
    Right,
    Amount(u64),
    Data(DataState),
    File(AttachState),
}

pub fn outputs(t: &Transition) -> Vec<(AssignmentType, Dest, Item)> {
    let mut out = vec![];
    for (ty, assigns) in t.assignments.iter() {
        for n in 0..assigns.len_u16() {
            let dest = match assigns.revealed_seal_at(n).unwrap() {
                Some(seal) => match seal {
                    XChain::Bitcoin(s) if s.txid == TxPtr::WitnessTx => Dest::Vout(s.vout.into_u32(), s.method),
                    _ => Dest::Other,
                },
                None => Dest::Secret(assigns.to_confidential_seals()[n as usize]),
            };
            let i = n as usize;
            let item = match assigns {
                TypedAssigns::Declarative(_) => Item::Right,
                TypedAssigns::Fungible(v) => Item::Amount(v[i].as_revealed_state().unwrap().value.as_u64()),
                TypedAssigns::Structured(v) => Item::Data(v[i].as_revealed_state().unwrap().value.clone()),
                TypedAssigns::Attachment(v) => Item::File(v[i].as_revealed_state().unwrap().file.clone()),
            };
            out.push((*ty, dest, item));
        }
    }
    out
}

pub fn seal_method(seal: &XOutputSeal) -> Method {
    match seal {
        XChain::Bitcoin(s) | XChain::Liquid(s) => s.method,
        _ => unreachable!(),
    }
}

pub fn secret() -> SecretSeal {
    match vout_seal(O, 1, 77).conceal() {
        XChain::Bitcoin(s) => s,
        _ => unreachable!(),
    }
}

pub fn payee(kind: usize) -> (XChainNet<Beneficiary>, Option<Vout>, Dest) {
    let net = ChainNet::BitcoinTestnet;
    match kind {
        0 => (XChainNet::with(net, Beneficiary::BlindedSeal(secret())), None, Dest::Secret(XChain::Bitcoin(secret()))),
        k => {
            let method = if k == 1 { O } else { T };
            let pay = Pay2Vout { method, address: AddressPayload::Wpkh([7; 20].into()) };
            (XChainNet::with(net, Beneficiary::WitnessVout(pay)), Some(Vout::from_u32(1)), Dest::Vout(1, method))
        }
    }
}

pub fn invoice(id: ContractId, ben: XChainNet<Beneficiary>) -> RgbInvoiceBuilder {
    RgbInvoiceBuilder::new(ben).set_contract(id).set_interface("WorldIface")
}

/// Whether at most two numbers have the given sum: each is at most the sum and they are congruent
/// to it, which the solver decides much faster than the wide addition.
fn adds_up(parts: &[u64], sum: u64) -> bool {
    parts.len() <= 2 && parts.iter().all(|a| *a <= sum) && parts.iter().fold(0u64, |s, a| s.wrapping_add(*a)) == sum
}

/// The batch or whether it was refused for lack of funds.
fn compose(stock: &Stock, inv: &RgbInvoice, prev: &[XOutputSeal], method: Method, vout: Option<Vout>) -> Result<Vec<TransitionInfo>, bool> {
    let res = stock.compose_deterministic(
        inv,
        prev.iter().copied(),
        method,
        vout,
        9,
        |_, _, _| Some(Vout::from_u32(2)),
        |_, _| blinding(9),
        |_, ty| 100 + ty.to_inner() as u64,
    );
    match res {
        Ok(batch) => Ok(batch.into_iter().collect()),
        Err(StockError::InvalidInput(ComposeError::InsufficientState)) => Err(true),
        Err(_) => Err(false),
    }
}

/// Every composed transition names itself and its inputs correctly; returns the spent state.
fn well_formed(infos: &[TransitionInfo], prev: &[XOutputSeal]) -> BTreeSet<Opout> {
    let mut spent = BTreeSet::new();
    for info in infos {
        sx::check(info.id == info.transition.id(), "composed transition has its own id");
        for o in &info.inputs {
            let seal = prev.iter().find(|s| s.to_outpoint() == *o);
            sx::check(seal.is_some(), "only requested outputs are spent");
            sx::check(seal.map(|s| seal_method(s)) == Some(info.method), "inputs close by the transition's method");
        }
        for input in &info.transition.inputs {
            sx::check(spent.insert(input.prev_out), "state is spent once");
        }
    }
    spent
}

harness! {
    fn compose_amounts() {
        // four outputs, two of each method; spend any two with any method
        let v = [sx::u64(), sx::u64(), sx::u64(), sx::u64()];
        let m = [O, O, T, T];
        let mut b = builder();
        for i in 0..4 {
            b = b.add_fungible_state_det("asset", gseal(m[i], 1, i as u32), v[i], blinding(1 + i as u8)).unwrap();
        }
        let (id, c) = issue(b);
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();

        let (i, j) = [(0, 1), (0, 2), (1, 3), (2, 3), (0, 0), (3, 3)][sx::choose(6)];
        let prev = if i == j { vec![oseal(m[i], 1, i as u32)] } else { vec![oseal(m[i], 1, i as u32), oseal(m[j], 1, j as u32)] };
        // amounts of one contract fit 64 bits in total
        let sum = if i == j { v[i] } else { v[i].wrapping_add(v[j]) };
        sx::assume(sum >= v[i]);
        let method = if sx::choose(2) == 0 { O } else { T };
        let (ben, vout, dest) = payee(sx::choose(3));
        let x = sx::u64();
        let inv = invoice(id, ben).set_amount_raw(x).finish();
        match compose(&stock, &inv, &prev, method, vout) {
            Ok(infos) => {
                let spent = well_formed(&infos, &prev);
                sx::check(spent.len() == prev.len(), "all state on the spent outputs is consumed");
                let (mut paid, mut change) = (vec![], vec![]);
                for info in &infos {
                    sx::check(info.transition.contract_id == id, "only the invoiced contract is updated");
                    for (ty, d, item) in outputs(&info.transition) {
                        let Item::Amount(a) = item else { sx::check(false, "only amounts come out"); continue };
                        sx::check(ty == FUNGIBLE && a > 0, "amounts keep their type and are not empty");
                        if d == dest {
                            paid.push(a);
                        } else {
                            sx::check(d == Dest::Vout(2, method), "change goes where the wallet says");
                            change.push(a);
                        }
                    }
                }
                sx::check(x <= sum, "no more is paid than is held");
                sx::check(adds_up(&paid, x), "payee gets the invoiced amount");
                sx::check(adds_up(&change, sum - x), "the rest is returned");
                sx::cover("composed");
                if infos.len() > 1 {
                    sx::cover("both methods");
                }
            }
            Err(insufficient) => {
                sx::check(insufficient && x > sum, "refused only for lack of funds");
                sx::cover("insufficient");
            }
        }
    }

    fn compose_carries() {
        // an output holding every kind of state and another one with more of the same, plus state
        // of a second contract on the same outputs
        let m1 = if sx::choose(2) == 0 { O } else { T };
        let (v0, v1, s0, s1, w0, w1, f0, f1) = (sx::u64(), sx::u64(), sx::u64(), sx::u64(), sx::u64(), sx::u64(), sx::u64(), sx::u64());
        let item = |f: u64| RevealedData::with_salt(DataState::from(Allocation::with(1, f)), 3);
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), v0, blinding(1)).unwrap()
                .add_fungible_state_det("asset", gseal(m1, 1, 1), v1, blinding(2)).unwrap()
                .add_fungible_state_det("second", gseal(O, 1, 0), s0, blinding(3)).unwrap()
                .add_fungible_state_det("second", gseal(m1, 1, 1), s1, blinding(4)).unwrap()
                .add_rights("right", gseal(O, 1, 0)).unwrap()
                .add_rights("right", gseal(m1, 1, 1)).unwrap()
                .add_data_det("item", gseal(O, 1, 0), item(f0)).unwrap()
                .add_data_det("item", gseal(m1, 1, 1), item(f1)).unwrap(),
        );
        let c2 = builder()
            .add_fungible_state_det("asset", gseal(O, 1, 0), w0, blinding(1)).unwrap()
            .add_fungible_state_det("asset", gseal(m1, 1, 1), w1, blinding(2)).unwrap()
            .add_rights("right", gseal(O, 1, 0)).unwrap()
            .add_rights("right", gseal(m1, 1, 1)).unwrap()
            .issue_contract_det(1_700_000_002)
            .unwrap();
        sx::assume(v0.checked_add(v1).is_some() && s0.checked_add(s1).is_some() && w0.checked_add(w1).is_some());
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();
        stock.import_contract(c2, Net::default()).unwrap();

        let prev = [oseal(O, 1, 0), oseal(m1, 1, 1)];
        let (ben, vout, dest) = payee(sx::choose(2));
        let x = sx::u64();
        sx::assume(x > 0 && x < v0 && v1 > 0 && w0 > 0);
        let inv = invoice(id, ben).set_amount_raw(x).finish();
        let infos = compose(&stock, &inv, &prev, O, vout).unwrap();
        well_formed(&infos, &prev);
        let (mut sum, mut paid, mut sum2, mut sum3) = (0u128, 0u128, 0u128, 0u128);
        let (mut rights, mut rights2, mut items) = (0, 0, vec![]);
        for info in &infos {
            let main = info.transition.contract_id == id;
            for (ty, d, item) in outputs(&info.transition) {
                if main && ty == FUNGIBLE && d == dest {
                    let Item::Amount(a) = item else { continue };
                    paid += a as u128;
                    continue;
                }
                sx::check(d == Dest::Vout(2, O), "state not invoiced goes where the wallet says");
                match item {
                    Item::Right if main => rights += 1,
                    Item::Right => rights2 += 1,
                    Item::Amount(a) if !main => sum3 += a as u128,
                    Item::Amount(a) if ty == FUNGIBLE => sum += a as u128,
                    Item::Amount(a) => sum2 += a as u128,
                    Item::Data(d) => items.push(Allocation::from(d).fraction().value()),
                    Item::File(_) => sx::check(false, "no files come out"),
                }
            }
        }
        sx::check(paid == x as u128, "payee gets the invoiced amount beside other state");
        sx::check(paid + sum == v0 as u128 + v1 as u128, "invoiced asset is conserved");
        sx::check(sum2 == s0 as u128 + s1 as u128, "second asset is conserved");
        sx::check(sum3 == w0 as u128 + w1 as u128, "other contract's asset is conserved");
        sx::check(rights == 2 && rights2 == 2, "rights are kept");
        sx::check(
            items.len() == 2 && (items[0] == f0 && items[1] == f1 || items[0] == f1 && items[1] == f0),
            "data is kept",
        );
        sx::cover("composed");
    }

    fn compose_items() {
        // paying one of up to three items on two outputs
        let f = [sx::below(3), sx::below(3), sx::below(3)];
        let m1 = if sx::choose(2) == 0 { O } else { T };
        let item = |f: u64| RevealedData::with_salt(DataState::from(Allocation::with(1, f)), 3);
        let m = [O, O, m1];
        let mut b = builder();
        for i in 0..3 {
            b = b.add_data_det("item", gseal(m[i], 1, i as u32), item(f[i])).unwrap();
        }
        let (id, c) = issue(b);
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();
        let (i, j) = [(0, 1), (0, 2)][sx::choose(2)];
        let prev = [oseal(m[i], 1, i as u32), oseal(m[j], 1, j as u32)];
        let (ben, vout, dest) = payee(sx::choose(3));
        let x = sx::below(3);
        let inv = invoice(id, ben).set_assignment("item").set_allocation(1, x).unwrap().finish();
        match compose(&stock, &inv, &prev, O, vout) {
            Ok(infos) => {
                let spent = well_formed(&infos, &prev);
                sx::check(spent.len() == 2, "all items on the spent outputs are consumed");
                let (mut paid, mut kept) = (vec![], vec![]);
                for info in &infos {
                    for (ty, d, item) in outputs(&info.transition) {
                        let Item::Data(data) = item else { sx::check(false, "only items come out"); continue };
                        sx::check(ty == DATA, "items keep their type");
                        let fr = Allocation::from(data).fraction().value();
                        if d == dest {
                            paid.push(fr)
                        } else {
                            sx::check(d == Dest::Vout(2, O), "other items go where the wallet says");
                            kept.push(fr)
                        }
                    }
                }
                sx::check(paid.len() == 1 && paid[0] == x, "payee gets the invoiced item");
                let other = if f[i] == x { f[j] } else { f[i] };
                sx::check(kept.len() == 1 && kept[0] == other, "the other item is kept");
                sx::cover("composed");
                if infos.len() > 1 {
                    sx::cover("both methods");
                }
            }
            Err(insufficient) => {
                sx::check(insufficient && f[i] != x && f[j] != x, "refused only without the item");
                sx::cover("no such item");
            }
        }
    }

    fn compose_large() {
        // amounts whose total does not fit are never wrapped into a smaller one
        let v = [sx::u64(), sx::u64()];
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), v[0], blinding(1)).unwrap()
                .add_fungible_state_det("asset", gseal(O, 1, 1), v[1], blinding(2)).unwrap(),
        );
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();
        let prev = [oseal(O, 1, 0), oseal(O, 1, 1)];
        let (ben, vout, dest) = payee(0);
        let x = sx::u64();
        let inv = invoice(id, ben).set_amount_raw(x).finish();
        let sum = v[0] as u128 + v[1] as u128;
        match compose(&stock, &inv, &prev, O, vout) {
            Ok(infos) => {
                let (mut paid, mut all) = (0u128, 0u128);
                for info in &infos {
                    for (_, d, item) in outputs(&info.transition) {
                        let Item::Amount(a) = item else { continue };
                        all += a as u128;
                        if d == dest {
                            paid += a as u128;
                        }
                    }
                }
                sx::check(paid == x as u128 && all == sum, "large amounts are conserved");
                sx::cover("composed");
            }
            Err(_) => {
                sx::check(sum > u64::MAX as u128 || x as u128 > sum, "refused only when too much is held or asked");
                sx::cover("refused");
            }
        }
    }

    fn compose_refuses() {
        // invoices which cannot be paid are refused whatever they ask for
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), sx::u64(), blinding(1)).unwrap()
                .add_rights("right", gseal(O, 1, 0)).unwrap()
                .add_data_det("item", gseal(O, 1, 0), RevealedData::with_salt(DataState::from(Allocation::with(1, 1)), 3)).unwrap(),
        );
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();
        let prev = [oseal(O, 1, 0)];
        let field = ["asset", "right", "item", "file", "unknown"][sx::choose(5)];
        let kind = sx::choose(3);
        let (ben, vout, _) = payee(0);
        let state = sx::choose(4);
        let (x, i, f) = (sx::u64(), sx::u32(), sx::u64());
        let mut inv = invoice(id, ben).set_assignment(field).finish();
        inv.owned_state = match state {
            0 => InvoiceState::Void,
            1 => InvoiceState::Amount(x.into()),
            2 => InvoiceState::Data(NonFungible::RGB21(Allocation::with(i, f))),
            _ => InvoiceState::Attach([1; 32].into()),
        };
        let known = field != "unknown";
        let fits = matches!((state, field), (1, "asset") | (2, "item"));
        // asking for no amount of something else moves nothing
        let nothing = state == 1 && x == 0;
        let res = match kind {
            0 => compose(&stock, &inv, &prev, O, vout),
            // a given output contradicts a blinded seal
            1 => compose(&stock, &inv, &prev, O, Some(Vout::from_u32(1))),
            // outputs which hold nothing
            _ => compose(&stock, &inv, &[oseal(O, 1, 1)], O, vout),
        };
        match res {
            Ok(infos) => {
                sx::check(kind == 0 && known, "composed only when the invoice can be followed");
                sx::check(fits || nothing, "composed only for state of the right kind");
                let (mut rights, mut items) = (0, 0);
                for info in &infos {
                    for (_, d, item) in outputs(&info.transition) {
                        match item {
                            Item::Right => {
                                sx::check(d == Dest::Vout(2, O), "the right stays with the payer");
                                rights += 1
                            }
                            Item::Data(_) => items += 1,
                            _ => {}
                        }
                    }
                }
                sx::check(rights == 1 && items == 1, "nothing else is lost");
                sx::cover("composed");
            }
            Err(_) => sx::cover("refused"),
        }
    }
}
