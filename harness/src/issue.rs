//! Contracts and transitions have everything which was given to their builders, and nothing else.

use amplify::confinement::SmallBlob;
use commit_verify::Conceal;
use rgbstd::containers::{BuilderSeal, ValidContract};
use rgbstd::interface::{BuilderError, ContractBuilder, TransitionBuilder};
use rgbstd::invoice::{Allocation, Amount};
use rgbstd::persistence::PersistedState;
use rgbstd::{
    AltLayer1, Assign, AssignmentType, Assignments, AttachId, ContractId, DataState, ExposedSeal, ExposedState, GenesisSeal,
    GlobalState, GraphSeal, Layer1, MediaType, MetaType, Metadata, OpId, Operation, Opout, RevealedAttach, RevealedData,
    RevealedValue, TypedAssigns, XChain,
};

use crate::flow::*;
use crate::state::*;
use crate::sx;
use crate::world::*;

/// What stands in an assignment: its seal as it was given, and its state.
pub fn shown<S: ExposedState, Seal: ExposedSeal>(a: &Assign<S, Seal>) -> Option<(BuilderSeal<Seal>, S)> {
    match a {
        Assign::Revealed { seal, state, .. } => Some((BuilderSeal::Revealed(*seal), state.clone())),
        Assign::ConfidentialSeal { seal, state, .. } => Some((BuilderSeal::Concealed(*seal), state.clone())),
        _ => None,
    }
}

pub fn amounts<Seal: ExposedSeal>(a: &Assignments<Seal>, ty: AssignmentType) -> Vec<(BuilderSeal<Seal>, RevealedValue)> {
    match a.get(&ty) {
        Some(TypedAssigns::Fungible(v)) => v.iter().map(|a| shown(a).unwrap()).collect(),
        Some(_) => panic!("not amounts"),
        None => vec![],
    }
}

pub fn items<Seal: ExposedSeal>(a: &Assignments<Seal>, ty: AssignmentType) -> Vec<(BuilderSeal<Seal>, RevealedData)> {
    match a.get(&ty) {
        Some(TypedAssigns::Structured(v)) => v.iter().map(|a| shown(a).unwrap()).collect(),
        Some(_) => panic!("not items"),
        None => vec![],
    }
}

pub fn files<Seal: ExposedSeal>(a: &Assignments<Seal>, ty: AssignmentType) -> Vec<(BuilderSeal<Seal>, RevealedAttach)> {
    match a.get(&ty) {
        Some(TypedAssigns::Attachment(v)) => v.iter().map(|a| shown(a).unwrap()).collect(),
        Some(_) => panic!("not files"),
        None => vec![],
    }
}

pub fn rights<Seal: ExposedSeal>(a: &Assignments<Seal>, ty: AssignmentType) -> Vec<BuilderSeal<Seal>> {
    match a.get(&ty) {
        Some(TypedAssigns::Declarative(v)) => v.iter().map(|a| shown(a).unwrap().0).collect(),
        Some(_) => panic!("not rights"),
        None => vec![],
    }
}

/// Whether a list of amounts is the expected one, in any order; amounts on the same seal are told apart
/// by value.
pub fn same_amounts<Seal: ExposedSeal>(got: &[(BuilderSeal<Seal>, RevealedValue)], want: &[(BuilderSeal<Seal>, u64)]) -> bool {
    let mut left: Vec<_> = got.to_vec();
    let mut ok = got.len() == want.len();
    for (seal, v) in want {
        match left.iter().position(|(s, a)| s == seal && a.value.as_u64() == *v) {
            Some(n) => {
                left.remove(n);
            }
            None => ok = false,
        }
    }
    ok
}

pub fn globals(g: &GlobalState, ty: rgbstd::GlobalStateType) -> Vec<Vec<u8>> {
    g.get(&ty).map(|l| l.iter().map(|d| d.as_slice().to_vec()).collect()).unwrap_or_default()
}

pub fn meta(m: &Metadata) -> Vec<(MetaType, Vec<u8>)> { m.iter().map(|(ty, v)| (*ty, v.as_slice().to_vec())).collect() }

pub fn secret(n: u32) -> BuilderSeal<GenesisSeal> {
    BuilderSeal::Concealed(XChain::<GenesisSeal>::Bitcoin(GenesisSeal::with_blinding(O, txid(6), n, 60 + n as u64)).conceal())
}

pub fn item(n: u32, fraction: u64) -> RevealedData { RevealedData::with_salt(DataState::from(Allocation::with(n, fraction)), 3) }

pub fn file(n: u8) -> RevealedAttach { RevealedAttach::with_salt(AttachId::from([n; 32]), MediaType::Any, 4) }

pub fn move_builder(meta: bool, name: Option<&'static str>) -> Result<TransitionBuilder, BuilderError> {
    let (schema, iface) = (schema_with(meta), iface_with(meta));
    let iimpl = iimpl(&schema, &iface);
    let id = ContractId::from([5; 32]);
    let b = match name {
        Some(name) => TransitionBuilder::named_transition_det(id, iface, schema, iimpl, name, types()),
        None => TransitionBuilder::default_transition_det(id, iface, schema, iimpl, types()),
    }?;
    b.add_asset_tag_raw(FUNGIBLE, tag())?.add_asset_tag_raw(FUNGIBLE2, tag2())
}

fn opout(n: u8, ty: AssignmentType) -> Opout { Opout::new(OpId::from([n; 32]), ty, n as u16) }

fn issued(b: ContractBuilder) -> Option<ValidContract> { b.issue_contract_det(TIME).ok() }

harness! {
    /// An issued contract has all state, metadata and parameters given to the builder.
    fn issue_contents() {
        let with_meta = sx::choose(2) == 1;
        let v = [sx::u64(), sx::u64(), sx::u64()];
        let n = sx::choose(4);
        let (main, liquid) = (sx::choose(2) == 1, with_meta);
        let mut b = builder_with(with_meta);
        // Any two of the amounts may be on the same output.
        let seals = [gseal(O, 1, 0), if main { secret(1) } else { gseal(T, 1, 1) }, gseal(O, 1, 0)];
        for k in 0..n {
            b = b.add_fungible_state_det("asset", seals[k], v[k], blinding(k as u8 + 1)).unwrap();
        }
        let second = sx::u64();
        b = b.add_fungible_state_det("second", secret(2), second, blinding(9)).unwrap();
        b = b.add_rights("right", secret(3)).unwrap().add_rights("right", gseal(O, 1, 2)).unwrap();
        let fraction = sx::u64();
        b = b.add_data_det("item", gseal(O, 1, 3), item(7, fraction)).unwrap();
        let (g1, g2, m) = (sx::u64(), sx::u64(), sx::u64());
        b = b.add_global_state("many", Amount::from(g1)).unwrap().add_global_state("many", Amount::from(g2)).unwrap();
        if with_meta {
            b = b.add_metadata("meta", Amount::from(m)).unwrap();
        }
        if main {
            b = b.set_mainnet();
        }
        if liquid {
            b = b.add_layer1(AltLayer1::Liquid).unwrap();
        }
        let c = issued(b);
        sx::check(c.is_some(), "a conforming contract is issued");
        let c = c.unwrap();
        let g = &c.genesis;
        let want: Vec<_> = (0..n).map(|k| (seals[k], v[k])).collect();
        sx::check(same_amounts(&amounts(&g.assignments, FUNGIBLE), &want), "a contract has the amounts issued");
        sx::check(same_amounts(&amounts(&g.assignments, FUNGIBLE2), &[(secret(2), second)]), "a contract has the amounts issued of each type");
        let r = rights(&g.assignments, RIGHT);
        sx::check(r.len() == 2 && r.contains(&secret(3)) && r.contains(&gseal(O, 1, 2)), "a contract has the rights issued");
        sx::check(items(&g.assignments, DATA) == [(gseal(O, 1, 3), item(7, fraction))], "a contract has the items issued");
        sx::check(g.assignments.len() == 3 + (n > 0) as usize, "a contract has no other state");
        let many = [g1.to_le_bytes().to_vec(), g2.to_le_bytes().to_vec()];
        sx::check(globals(&g.globals, MANY) == many && g.globals.len() == 1, "a contract has the global state issued");
        let want = if with_meta { vec![(META, m.to_le_bytes().to_vec())] } else { vec![] };
        sx::check(meta(&g.metadata) == want, "a contract has its metadata");
        sx::check(g.testnet != main, "a contract is of the chosen network");
        sx::check(g.alt_layers1.contains(&AltLayer1::Liquid) == liquid, "a contract has the chosen layers");
        let tags: Vec<_> = g.asset_tags.iter().map(|(t, v)| (*t, *v)).collect();
        sx::check(tags == [(FUNGIBLE, tag()), (FUNGIBLE2, tag2())], "a contract has its asset tags");
        sx::check(g.timestamp == TIME && g.schema_id == c.schema.schema_id(), "a contract has its date and schema");
        sx::cover(if with_meta { "metadata" } else { "no metadata" });
    }

    /// The contract does not depend on the order in which state was added.
    fn issue_order() {
        let v = [sx::u64(), sx::u64(), sx::u64()];
        let seals = [gseal(O, 1, 0), secret(1), gseal(T, 1, 1)];
        let add = |order: [usize; 3]| {
            let mut b = builder();
            for k in order {
                b = b
                    .add_fungible_state_det("asset", seals[k], v[k], blinding(k as u8 + 1)).unwrap()
                    .add_rights("right", seals[k]).unwrap()
                    .add_data_det("item", seals[k], item(k as u32, v[k])).unwrap();
            }
            issued(b)
        };
        let one = add([0, 1, 2]).unwrap();
        let orders = [[0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let two = add(orders[sx::choose(5)]).unwrap();
        sx::check(one.genesis == two.genesis, "a contract does not depend on the order of adding state");
        sx::cover("issued");
    }

    /// State which the schema does not allow is refused, when added or at the latest when issuing.
    fn issue_refused() {
        let b = builder();
        let seal = gseal(O, 1, 0);
        let liquid = BuilderSeal::Revealed(XChain::Liquid(GenesisSeal::with_blinding(O, txid(1), 0, 5)));
        let bytes: [u8; 12] = sx::bytes();
        let blob = |n: usize| RevealedData::with_salt(DataState::from(SmallBlob::from_checked(bytes[..n].to_vec())), 3);
        let v = sx::u64();
        let small = Amount::from(v);
        let n = sx::choose(14);
        let r = match n {
            0 => b.add_fungible_state_det("right", seal, v, blinding(1)).map(|_| ()),
            1 => b.add_fungible_state_det("item", seal, v, blinding(1)).map(|_| ()),
            2 => b.add_rights("asset", seal).map(|_| ()),
            3 => b.add_data_det("asset", seal, item(1, v)).map(|_| ()),
            4 => b.add_attachment_det("item", seal, file(1)).map(|_| ()),
            5 => b.add_rights("unknown", seal).map(|_| ()),
            6 => b.add_global_state("unknown", small).map(|_| ()),
            7 => b.add_global_state("many", Allocation::with(1, v)).map(|_| ()),
            8 => b.add_fungible_state_det("asset", liquid, v, blinding(1)).map(|_| ()),
            9 => b.add_rights("right", liquid).map(|_| ()),
            10 => {
                // Data of the wrong length do not conform to their type.
                let k = sx::choose(12);
                b.add_data_det("item", seal, blob(k)).and_then(|b| b.issue_contract_det(TIME)).map(|_| ())
            }
            11 => {
                // The value must be given once at most.
                b.add_global_state("once", small).and_then(|b| b.add_global_state("once", small)).and_then(|b| b.issue_contract_det(TIME)).map(|_| ())
            }
            12 => b.add_owned_state_det("asset", seal, PersistedState::Amount(small, blinding(1), tag2())).map(|_| ()),
            _ => {
                // Metadata are required by the schema.
                builder_with(true).issue_contract_det(TIME).map(|_| ())
            }
        };
        sx::check(r.is_err(), "a contract breaking its schema is not issued");
        sx::cover("refused");
    }

    /// What conforms to the schema is accepted on all layers of the contract.
    fn issue_layers() {
        let v = sx::u64();
        let liquid = BuilderSeal::Revealed(XChain::Liquid(GenesisSeal::with_blinding(O, txid(1), 0, 5)));
        let with = sx::choose(2) == 1;
        let mut b = builder();
        sx::check(b.has_layer1(Layer1::Bitcoin) && !b.has_layer1(Layer1::Liquid), "a contract is on bitcoin only by default");
        if with {
            b = b.add_layer1(AltLayer1::Liquid).unwrap();
        }
        sx::check(b.has_layer1(Layer1::Liquid) == with, "a layer is had when added");
        let b = b
            .add_fungible_state_det("asset", liquid, v, blinding(1))
            .and_then(|b| b.add_rights("right", liquid))
            .and_then(|b| b.add_data_det("item", liquid, item(1, v)));
        sx::check(b.is_ok() == with, "state is put only on layers of the contract");
        if let Ok(b) = b {
            let c = issued(b).unwrap();
            sx::check(same_amounts(&amounts(&c.genesis.assignments, FUNGIBLE), &[(liquid, v)]), "amounts are issued on the added layer");
            sx::cover("liquid");
        }
    }

    /// A built transition has all inputs, state, metadata and parameters given to the builder.
    fn build_contents() {
        let with_meta = sx::choose(2) == 1;
        let v = [sx::u64(), sx::u64(), sx::u64()];
        let named = sx::choose(2) == 1;
        let mut b = move_builder(with_meta, named.then_some("transfer")).unwrap();
        let seals: [BuilderSeal<GraphSeal>; 3] = [
            BuilderSeal::Revealed(vout_seal(O, 1, 7)),
            BuilderSeal::Concealed(txo_seal(O, 7, 1, 8).conceal()),
            BuilderSeal::Revealed(vout_seal(T, 1, 9)),
        ];
        let ins = sx::choose(3);
        for k in 0..ins {
            b = b.add_input(opout(k as u8 + 1, FUNGIBLE), PersistedState::Amount(Amount::from(sx::u64()), blinding(k as u8 + 30), tag())).unwrap();
        }
        b = b.add_input(opout(9, RIGHT), PersistedState::Void).unwrap();
        let n = sx::choose(4);
        for k in 0..n {
            // All ways to add an amount are the same.
            let blind = blinding(k as u8 + 1);
            b = match k {
                0 => b.add_fungible_state_det("asset", seals[k], v[k], blind).unwrap(),
                1 => b.add_fungible_state_raw(FUNGIBLE, seals[k], v[k], blind).unwrap(),
                _ => b.add_fungible_default_state_det(seals[k], v[k], blind).unwrap(),
            };
        }
        let second = sx::u64();
        b = b.add_owned_state_raw(FUNGIBLE2, seals[1], PersistedState::Amount(Amount::from(second), blinding(9), tag2())).unwrap();
        b = b.add_rights("right", seals[2]).unwrap().add_rights("right", seals[1]).unwrap();
        b = b.add_data_det("item", seals[0], item(7, v[0])).unwrap().add_attachment_det("file", seals[1], file(8)).unwrap();
        let (g, m, nonce) = (sx::u64(), sx::u64(), sx::u64());
        b = b.add_global_state("many", Amount::from(g)).unwrap().set_nonce(nonce);
        if with_meta {
            b = b.add_metadata("meta", Amount::from(m)).unwrap();
        }
        let t = b.complete_transition();
        sx::check(t.is_ok(), "a transition is built");
        let t = t.unwrap();
        let want: Vec<_> = (0..n).map(|k| (seals[k], v[k])).collect();
        sx::check(same_amounts(&amounts(&t.assignments, FUNGIBLE), &want), "a transition has the amounts added");
        sx::check(same_amounts(&amounts(&t.assignments, FUNGIBLE2), &[(seals[1], second)]), "a transition has the amounts added of each type");
        let r = rights(&t.assignments, RIGHT);
        sx::check(r.len() == 2 && r.contains(&seals[2]) && r.contains(&seals[1]), "a transition has the rights added");
        sx::check(items(&t.assignments, DATA) == [(seals[0], item(7, v[0]))], "a transition has the items added");
        sx::check(files(&t.assignments, ATTACH) == [(seals[1], file(8))], "a transition has the files added");
        sx::check(globals(&t.globals, MANY) == [g.to_le_bytes().to_vec()] && t.globals.len() == 1, "a transition has the global state added");
        let want = if with_meta { vec![(META, m.to_le_bytes().to_vec())] } else { vec![] };
        sx::check(meta(&t.metadata) == want, "a transition has its metadata");
        let mut want: Vec<_> = (0..ins).map(|k| opout(k as u8 + 1, FUNGIBLE)).collect();
        want.push(opout(9, RIGHT));
        let got: Vec<_> = t.inputs().iter().map(|i| i.prev_out).collect();
        sx::check(got == want, "a transition has the inputs added");
        sx::check(t.nonce == nonce && t.transition_type == TRANSFER && t.contract_id == ContractId::from([5; 32]), "a transition is of its contract and type");
        sx::cover(if n == 0 { "no amounts" } else { "amounts" });
    }

    /// State which the schema does not allow is refused by the transition builder.
    fn build_refused() {
        let seal: BuilderSeal<GraphSeal> = BuilderSeal::Revealed(vout_seal(O, 1, 7));
        let v = sx::u64();
        let amount = |t| PersistedState::Amount(Amount::from(v), blinding(1), t);
        let b = move_builder(false, None).unwrap();
        let r = match sx::choose(14) {
            0 => b.add_fungible_state_det("right", seal, v, blinding(1)).map(|_| ()),
            1 => b.add_fungible_state_raw(DATA, seal, v, blinding(1)).map(|_| ()),
            2 => b.add_rights("asset", seal).map(|_| ()),
            3 => b.add_data_det("asset", seal, item(1, v)).map(|_| ()),
            4 => b.add_attachment_det("item", seal, file(1)).map(|_| ()),
            5 => b.add_rights("unknown", seal).map(|_| ()),
            6 => b.add_global_state("unknown", Amount::from(v)).map(|_| ()),
            7 => b.add_global_state("many", Allocation::with(1, v)).map(|_| ()),
            8 => b.add_owned_state_raw(FUNGIBLE, seal, amount(tag2())).map(|_| ()),
            9 => b.add_owned_state_raw(RIGHT, seal, amount(tag())).map(|_| ()),
            10 => b.add_owned_state_raw(FUNGIBLE, seal, PersistedState::Void).map(|_| ()),
            11 => move_builder(false, Some("unknown")).map(|_| ()),
            12 => b.add_metadata("meta", Amount::from(v)).and_then(|b| b.add_metadata("meta", Amount::from(v))).map(|_| ()),
            _ => b.add_metadata("meta", Allocation::with(1, v)).map(|_| ()),
        };
        sx::check(r.is_err(), "a transition breaking its schema is not built");
        sx::cover("refused");
    }
}
