//! The state of a contract as scripts see it during validation.

use std::borrow::Borrow;
use std::collections::BTreeMap;

use amplify::confinement::Confined;
use amplify::num::u24;
use bp::Outpoint;
use rgbstd::persistence::{ContractStateRead, MemContract, MemContractState, Stock};
use rgbstd::vm::{ContractStateAccess, ContractStateEvolve, OrdOpRef, WitnessOrd};
use rgbstd::{
    Assign, AssignmentType, Assignments, AttachId, DataState, ExposedState, Extension, FungibleState, GenesisSeal, GlobalState,
    Operation, RevealedAttach, RevealedData, RevealedValue, TypedAssigns, VoidState, XChain, XOutpoint,
};
use strict_encoding::StrictDumb;

use crate::flow::*;
use crate::history::{item, moved, salted};
use crate::state::*;
use crate::sx;
use crate::world::*;

fn amounts(c: &impl ContractStateAccess, o: Outpoint, ty: AssignmentType) -> Vec<u64> {
    let mut v: Vec<u64> = c
        .fungible(XOutpoint::from(XChain::Bitcoin(o)), ty)
        .map(|FungibleState::Bits64(v)| v)
        .collect();
    v.sort();
    v
}

fn items(c: &impl ContractStateAccess, o: Outpoint, ty: AssignmentType) -> Vec<DataState> {
    c.data(XOutpoint::from(XChain::Bitcoin(o)), ty).map(|d| Borrow::<DataState>::borrow(&d).clone()).collect()
}

fn rights(c: &impl ContractStateAccess, o: Outpoint, ty: AssignmentType) -> u32 { c.rights(XOutpoint::from(XChain::Bitcoin(o)), ty) }

fn files(c: &impl ContractStateAccess, o: Outpoint, ty: AssignmentType) -> usize { c.attach(XOutpoint::from(XChain::Bitcoin(o)), ty).count() }

/// Nothing is on an output.
fn empty(c: &impl ContractStateAccess, o: Outpoint) -> bool {
    [FUNGIBLE, FUNGIBLE2, RIGHT, DATA, ATTACH]
        .iter()
        .all(|ty| amounts(c, o, *ty).is_empty() && items(c, o, *ty).is_empty() && rights(c, o, *ty) == 0 && files(c, o, *ty) == 0)
}

fn put<S: ExposedState>(state: S, n: u8, vout: u32) -> Assign<S, GenesisSeal> {
    let XChain::Bitcoin(seal) = gseal_at(n, vout) else { panic!() };
    Assign::Revealed { seal: XChain::Bitcoin(seal), state, lock: Default::default() }
}

fn gseal_at(n: u8, vout: u32) -> XChain<GenesisSeal> {
    XChain::Bitcoin(GenesisSeal::with_blinding(O, txid(n), bp::Vout::from_u32(vout), 5))
}

fn number(g: u64) -> DataState {
    DataState::from(amplify::confinement::SmallBlob::from_checked(g.to_le_bytes().to_vec()))
}

fn is(d: impl Borrow<DataState>, g: u64) -> bool { *d.borrow() == number(g) }

/// An extension assigning state of all kinds to two outputs, with global state.
fn extension(id: rgbstd::ContractId, v: [u64; 2], global: u64) -> Extension {
    let mut map = BTreeMap::new();
    let value = |v, n| RevealedValue::with_blinding(v, blinding(n), tag());
    map.insert(RIGHT, TypedAssigns::Declarative(Confined::from_checked(vec![put(VoidState::default(), 5, 0), put(VoidState::default(), 5, 1)])));
    map.insert(FUNGIBLE, TypedAssigns::Fungible(Confined::from_checked(vec![put(value(v[0], 3), 5, 0), put(value(v[1], 4), 5, 1)])));
    map.insert(DATA, TypedAssigns::Structured(Confined::from_checked(vec![put(RevealedData::with_salt(item(1), 7), 5, 1)])));
    let file = RevealedAttach::with_salt(AttachId::strict_dumb(), rgbstd::MediaType::strict_dumb(), 9);
    map.insert(ATTACH, TypedAssigns::Attachment(Confined::from_checked(vec![put(file, 5, 0)])));
    let mut globals = GlobalState::default();
    globals.add_state(MANY, number(global)).unwrap();
    Extension {
        contract_id: id,
        extension_type: EXTEND,
        globals,
        assignments: Assignments::from(Confined::from_checked(map)),
        ..Extension::strict_dumb()
    }
}

harness! {
    /// Scripts see, output by output and type by type, the state of operations with valid witnesses.
    fn access_owned() {
        let v = [sx::u64(), sx::u64(), sx::u64()];
        let x = sx::u64();
        sx::assume(v[0] > 0 && v[1] > 0 && v[2] > 0 && x < v[0] && x > 0);
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), v[0], blinding(1)).unwrap()
                .add_fungible_state_det("asset", gseal(O, 1, 1), v[1], blinding(2)).unwrap()
                .add_fungible_state_det("second", gseal(O, 1, 0), v[2], blinding(3)).unwrap()
                .add_rights("right", gseal(O, 1, 0)).unwrap()
                .add_data_det("item", gseal(O, 1, 0), salted(3, 6)).unwrap(),
        );
        let genesis = c.genesis.clone();
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();
        let t = moved(&stock, id, gout(0), [x, v[0] - x], v[2], 3);
        let (fascia, tx) = anchored(id, &t, gout(0), 3);
        let (g0, g1, t1, t2) = (gout(0), gout(1), xo(&tx, 1), xo(&tx, 2));

        // during validation operations are added one by one
        let schema = schema();
        let mut seen = MemContract::<MemContractState>::init((&schema, id));
        sx::check(empty(&seen, g0) && empty(&seen, g1), "a new contract has no state");
        seen.evolve_state(OrdOpRef::Genesis(&genesis)).unwrap();
        let first = any_ord();
        let again = sx::choose(2) == 1;
        let last = if again { any_ord() } else { first };
        seen.evolve_state(OrdOpRef::Transition(&t, wid(&tx), first)).unwrap();
        if again {
            seen.evolve_state(OrdOpRef::Transition(&t, wid(&tx), last)).unwrap();
        }
        sx::check(seen.witness_ord(wid(&tx)) == Some(last), "the last told status is known");
        sx::check(seen.contract_id() == id && seen.schema_id() == schema.schema_id(), "the contract is known");

        stock.consume_fascia(fascia, know(&tx, last)).unwrap();
        let kept = stock.contract_state(id).unwrap();
        macro_rules! each {
            ($c:expr, $a:literal, $b:literal, $d:literal) => {
                let c = $c;
                sx::check(amounts(c, g0, FUNGIBLE) == [v[0]] && amounts(c, g1, FUNGIBLE) == [v[1]] && amounts(c, g0, FUNGIBLE2) == [v[2]]
                    && amounts(c, g1, FUNGIBLE2).is_empty() && amounts(c, g0, DATA).is_empty(), $a);
                sx::check(rights(c, g0, RIGHT) == 1 && rights(c, g1, RIGHT) == 0 && rights(c, g0, FUNGIBLE) == 0
                    && items(c, g0, DATA) == [item(3)] && items(c, g1, DATA).is_empty() && files(c, g0, ATTACH) == 0, $b);
                if last == WitnessOrd::Archived {
                    sx::check(empty(c, t1) && empty(c, t2), $d);
                    sx::cover("not valid");
                } else {
                    let mut two = amounts(c, t2, FUNGIBLE);
                    two.extend(amounts(c, t2, FUNGIBLE2));
                    sx::check(amounts(c, t1, FUNGIBLE) == [x] && two == [v[0] - x, v[2]] && rights(c, t1, RIGHT) == 1
                        && rights(c, t2, RIGHT) == 0 && items(c, t2, DATA) == [item(3)] && items(c, t1, DATA).is_empty(), $d);
                    sx::cover("valid");
                }
            };
        }
        each!(&seen, "amounts of genesis are seen in validation", "rights and items of genesis are seen in validation",
            "the transition is seen in validation while valid");
        each!(&kept, "amounts of genesis are seen in the stock", "rights and items of genesis are seen in the stock",
            "the transition is seen in the stock while valid");
    }

    /// State of extensions is seen like state of transitions.
    fn access_extension() {
        let (_, id) = world([100, 50], None);
        let (v, g) = ([sx::u64(), sx::u64()], sx::u64());
        let e = extension(id, v, g);
        let ord = any_ord();
        let w = XChain::Bitcoin(txid(9));
        let schema = schema();
        let mut seen = MemContract::<MemContractState>::init((&schema, id));
        seen.evolve_state(OrdOpRef::Extension(&e, w, ord)).unwrap();
        let (a, b) = (outpoint(5, 0), outpoint(5, 1));
        if ord == WitnessOrd::Archived {
            sx::check(empty(&seen, a) && empty(&seen, b), "an extension does not show while not valid");
            sx::check(seen.global(MANY).unwrap().next().is_none(), "its global state does not show while not valid");
            sx::cover("not valid");
        } else {
            sx::check(amounts(&seen, a, FUNGIBLE) == [v[0]] && amounts(&seen, b, FUNGIBLE) == [v[1]], "amounts of an extension show");
            sx::check(rights(&seen, a, RIGHT) == 1 && rights(&seen, b, RIGHT) == 1, "rights of an extension show");
            sx::check(items(&seen, a, DATA).is_empty() && items(&seen, b, DATA) == [item(1)], "items of an extension show");
            sx::check(files(&seen, a, ATTACH) == 1 && files(&seen, b, ATTACH) == 0, "attachments of an extension show");
            let opid = e.id();
            sx::check(seen.fungible_all().all(|x| x.opout.op == opid && x.witness == w.into()), "state tells where it comes from");
            let many: Vec<bool> = seen.global(MANY).unwrap().map(|d| is(d, g)).collect();
            sx::check(many == [true], "global state of an extension shows");
            sx::cover("valid");
        }
    }

    /// Global state is counted and found by its depth.
    fn access_global() {
        let n = 1 + sx::choose(3);
        let v = [sx::u64(), sx::u64(), sx::u64()];
        let mut b = builder().add_fungible_state_det("asset", gseal(O, 1, 0), 5u64, blinding(1)).unwrap();
        for g in &v[..n] {
            b = b.add_global_state("many", rgbinvoice::Amount::from(*g)).unwrap();
        }
        let (id, c) = issue(b);
        let genesis = c.genesis.clone();
        let schema = schema();
        let mut seen = MemContract::<MemContractState>::init((&schema, id));
        sx::check(seen.global(MANY).unwrap().size() == u24::ZERO && seen.global(ONCE).unwrap().next().is_none(), "no global state at first");
        seen.evolve_state(OrdOpRef::Genesis(&genesis)).unwrap();
        sx::check(seen.global(ONCE).unwrap().size() == u24::ZERO, "other global state stays empty");
        let mut iter = seen.global(MANY).unwrap();
        sx::check(iter.size().to_usize() == n, "all global state counts");
        // the last added one is the most recent
        let latest = iter.next();
        sx::check(latest.is_some_and(|d| is(d, v[n - 1])), "the most recent comes first");
        sx::check(iter.size().to_usize() == n, "reading does not change the count");
        if n == 1 {
            sx::check(iter.next().is_none(), "nothing comes twice");
            sx::cover("one");
        }
        for depth in 1..3usize {
            let mut iter = seen.global(MANY).unwrap();
            let found = iter.nth(u24::with(depth as u32));
            if depth < n {
                let right = found.is_some_and(|d| is(d, v[n - 1 - depth]));
                sx::check(right, "found by depth");
                sx::cover("deep");
            } else {
                sx::check(found.is_none(), "nothing beyond the first");
            }
        }
        let unknown = seen.global(rgbstd::GlobalStateType::with(77)).is_err();
        sx::check(unknown, "an unknown type of global state is told");
    }
}
