//! The history of a contract as one wallet sees it, and reading state through filters.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use bp::Outpoint;
use rgbstd::containers::BuilderSeal;
use rgbstd::interface::{AllocatedState, AssignmentsFilter, ContractOp, FilterExclude, FilterIncludeAll, OpDirection};
use rgbstd::invoice::Allocation;
use rgbstd::persistence::Stock;
use rgbstd::vm::WitnessOrd;
use rgbstd::{AssignmentType, ContractId, DataState, OpId, Operation, RevealedData, XChain, XOutpoint, XWitnessId};

use crate::flow::*;
use crate::sx;
use crate::state::*;
use crate::world::*;

/// The outputs of a wallet.
#[derive(Copy, Clone)]
struct Outs<'a>(&'a [(Outpoint, bool)]);

impl AssignmentsFilter for Outs<'_> {
    fn should_include(&self, o: impl Into<XOutpoint>, _: Option<XWitnessId>) -> bool {
        let o = o.into();
        self.0.iter().any(|(x, ours)| *ours && XOutpoint::from(XChain::Bitcoin(*x)) == o)
    }
}

/// The transactions of a wallet.
#[derive(Copy, Clone)]
struct Txes<'a>(&'a [(XWitnessId, bool)]);

impl AssignmentsFilter for Txes<'_> {
    fn should_include(&self, _: impl Into<XOutpoint>, w: Option<XWitnessId>) -> bool {
        self.0.iter().any(|(x, ours)| *ours && Some(*x) == w)
    }
}

/// A piece of state: its type, value, operation, output and transaction.
struct Piece {
    ty: AssignmentType,
    value: u64,
    op: OpId,
    out: Outpoint,
    tx: Option<XWitnessId>,
}

pub fn item(n: u64) -> DataState { DataState::from(Allocation::with(1, n)) }

pub fn salted(n: u64, salt: u64) -> RevealedData { RevealedData::with_salt(item(n), salt as u128) }

fn item_no(s: &AllocatedState) -> Option<u64> { (1..=4).find(|n| *s == AllocatedState::Data(item(*n))) }

fn direction(d: OpDirection) -> u8 {
    match d {
        OpDirection::Issued => 0,
        OpDirection::Received => 1,
        OpDirection::Sent => 2,
    }
}

/// Direction, type and transaction of an operation, and a number telling pieces apart.
type Key = (u8, AssignmentType, Option<XWitnessId>, u64);

/// Amounts add up for each type and transaction; other state is listed piece by piece.
fn expected(
    pieces: &[Piece],
    outs: &[(Outpoint, bool)],
    txes: &[(XWitnessId, bool)],
) -> BTreeMap<Key, (u64, BTreeSet<OpId>, BTreeSet<Outpoint>)> {
    let mut map = BTreeMap::new();
    for (n, p) in pieces.iter().enumerate() {
        let ours = outs.iter().any(|(o, ours)| *ours && *o == p.out);
        let dir = match p.tx {
            None if ours => 0,
            None => continue,
            Some(tx) if txes.iter().any(|(t, ours)| *ours && *t == tx) => {
                if ours {
                    continue;
                }
                2
            }
            Some(_) if ours => 1,
            Some(_) => continue,
        };
        let amount = p.ty == FUNGIBLE || p.ty == FUNGIBLE2;
        let key = (dir, p.ty, p.tx, if amount { 0 } else { n as u64 + 1 });
        let e = map.entry(key).or_insert((0u64, BTreeSet::new(), BTreeSet::new()));
        e.0 = e.0.saturating_add(p.value);
        e.1.insert(p.op);
        e.2.insert(p.out);
    }
    map
}

fn outpoint_of(seal: &rgbstd::XOutputSeal) -> Outpoint {
    let XChain::Bitcoin(s) = seal else { panic!() };
    Outpoint::new(s.txid, s.vout)
}

/// The history tells exactly the expected operations.
fn tells(history: Vec<ContractOp>, pieces: &[Piece], outs: &[(Outpoint, bool)], txes: &[(XWitnessId, bool)], ord: &HashMap<XWitnessId, WitnessOrd>) -> bool {
    let mut want = expected(pieces, outs, txes);
    let mut ok = history.len() == want.len();
    for op in history {
        let to: BTreeSet<_> = op.to.iter().map(outpoint_of).collect();
        let tx = op.witness.map(|w| w.id);
        if let Some(w) = op.witness {
            ok &= ord.get(&w.id) == Some(&w.ord);
        }
        let dir = direction(op.direction);
        let value = match &op.state {
            AllocatedState::Amount(a) => a.value(),
            AllocatedState::Data(_) => item_no(&op.state).unwrap_or(0),
            AllocatedState::Void => 0,
            _ => return false,
        };
        let found = want
            .iter()
            .find(|((d, ty, t, _), (_, ops, outs))| *d == dir && *ty == op.ty && *t == tx && *ops == op.opids && *outs == to)
            .map(|(k, v)| (*k, v.0));
        match found {
            Some((key, v)) => {
                ok &= v == value;
                want.remove(&key);
            }
            None => ok = false,
        }
    }
    ok && want.is_empty()
}

/// Genesis has amounts of two assets, and a right and an item; all is spent to outputs 1 and 2.
pub fn moved(stock: &Stock, id: ContractId, from: Outpoint, asset: [u64; 2], second: u64, data: u64) -> rgbstd::Transition {
    let mut b = stock.transition_builder(id, "WorldIface", None::<&'static str>).unwrap();
    for (opout, state) in on(stock, id, from) {
        b = b.add_input(opout, state).unwrap();
    }
    let to = |n: u32, salt: u64| BuilderSeal::Revealed(vout_seal(O, n, salt));
    b.add_fungible_state_raw(FUNGIBLE, to(1, 1), asset[0], blinding(21)).unwrap()
        .add_fungible_state_raw(FUNGIBLE, to(2, 2), asset[1], blinding(22)).unwrap()
        .add_fungible_state_raw(FUNGIBLE2, to(2, 3), second, blinding(23)).unwrap()
        .add_rights("right", to(1, 4)).unwrap()
        .add_data_raw(DATA, to(2, 5), Allocation::with(1, data), 8).unwrap()
        .complete_transition().unwrap()
}

harness! {
    /// A wallet's history lists what it was issued, received and sent.
    fn history_lists() {
        let v = [sx::u64(), sx::u64(), sx::u64()];
        let x = sx::u64();
        sx::assume(v[0] > 0 && v[1] > 0 && v[2] > 0 && x < v[0] && x > 0);
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), v[0], blinding(1)).unwrap()
                .add_fungible_state_det("asset", gseal(O, 1, 1), v[1], blinding(2)).unwrap()
                .add_fungible_state_det("second", gseal(O, 1, 0), v[2], blinding(3)).unwrap()
                .add_rights("right", gseal(O, 1, 0)).unwrap()
                .add_data_det("item", gseal(O, 1, 0), salted(3, 6)).unwrap(),
        );
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();
        let genesis = OpId::from(id.to_byte_array());
        let t = moved(&stock, id, gout(0), [x, v[0] - x], v[2], 3);
        let (fascia, tx) = anchored(id, &t, gout(0), 3);
        let valid = sx::choose(2) == 0;
        let ord = if valid { WitnessOrd::Tentative } else { WitnessOrd::Archived };
        stock.consume_fascia(fascia, know(&tx, ord)).unwrap();

        let (w, op) = (wid(&tx), t.id());
        let p = |ty, value, op, out, tx| Piece { ty, value, op, out, tx };
        let (g0, g1, t1, t2) = (gout(0), gout(1), xo(&tx, 1), xo(&tx, 2));
        let mut pieces = vec![
            p(FUNGIBLE, v[0], genesis, g0, None),
            p(FUNGIBLE, v[1], genesis, g1, None),
            p(FUNGIBLE2, v[2], genesis, g0, None),
            p(RIGHT, 0, genesis, g0, None),
            p(DATA, 3, genesis, g0, None),
        ];
        if valid {
            pieces.extend([
                p(FUNGIBLE, x, op, t1, Some(w)),
                p(FUNGIBLE, v[0] - x, op, t2, Some(w)),
                p(FUNGIBLE2, v[2], op, t2, Some(w)),
                p(RIGHT, 0, op, t1, Some(w)),
                p(DATA, 3, op, t2, Some(w)),
            ]);
        }
        let ords = HashMap::from([(w, ord)]);
        let yes = || sx::choose(2) == 1;
        let outs = [(g0, yes()), (g1, yes()), (t1, yes()), (t2, yes())];
        let txes = [(w, yes())];
        let iface = stock.contract_iface(id, "WorldIface").unwrap();
        let all = iface.history(Outs(&outs), Txes(&txes));
        sx::check(tells(all, &pieces, &outs, &txes, &ords), "the history lists what was issued, received and sent");
        sx::cover("history");
        if outs[0].1 && outs[2].1 && !outs[3].1 && txes[0].1 {
            let only = |tys: &[AssignmentType]| pieces.iter().filter(|p| tys.contains(&p.ty)).map(|x| p(x.ty, x.value, x.op, x.out, x.tx)).collect::<Vec<_>>();
            let f = iface.history_fungible(Outs(&outs), Txes(&txes));
            sx::check(tells(f, &only(&[FUNGIBLE, FUNGIBLE2]), &outs, &txes, &ords), "the history of amounts has only amounts");
            let r = iface.history_rights(Outs(&outs), Txes(&txes));
            sx::check(tells(r, &only(&[RIGHT]), &outs, &txes, &ords), "the history of rights has only rights");
            let d = iface.history_data(Outs(&outs), Txes(&txes));
            sx::check(tells(d, &only(&[DATA]), &outs, &txes, &ords), "the history of data has only data");
            sx::check(iface.history_attach(Outs(&outs), Txes(&txes)).is_empty(), "the history of attachments is empty");
            sx::cover("kinds");
        }
        sx::check(iface.witness_info(w).is_some_and(|i| i.id == w && i.ord == ord) || !valid, "the status of a transaction is told");
    }

    /// Reading state with a filter gives the state the filter lets through and no other.
    fn filtered_reads() {
        let v = [sx::u64(), sx::u64(), sx::u64()];
        let (id, c) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), v[0], blinding(1)).unwrap()
                .add_fungible_state_det("asset", gseal(T, 1, 1), v[1], blinding(2)).unwrap()
                .add_fungible_state_det("second", gseal(O, 1, 0), v[2], blinding(3)).unwrap()
                .add_rights("right", gseal(O, 1, 1)).unwrap()
                .add_data_det("item", gseal(O, 1, 0), salted(3, 6)).unwrap()
                .add_data_det("item", gseal(O, 1, 1), salted(2, 7)).unwrap(),
        );
        let mut stock = Stock::in_memory();
        stock.import_contract(c, Net::default()).unwrap();
        let iface = stock.contract_iface(id, "WorldIface").unwrap();
        let ours = [sx::choose(2) == 1, sx::choose(2) == 1];
        let outs: Vec<XOutpoint> =
            [gout(0), gout(1)].into_iter().zip(ours).filter(|(_, o)| *o).map(|(o, _)| XChain::Bitcoin(o).into()).collect();
        // Every kind of collection works as a filter.
        let kind = sx::choose(10);
        let (mut in0, mut in1) = (ours[0], ours[1]);
        macro_rules! read {
            ($f:expr) => {{
                let amounts: Vec<u64> = iface.fungible("asset", $f).unwrap().map(|a| a.state.value()).collect();
                let second: Vec<u64> = iface.fungible("second", $f).unwrap().map(|a| a.state.value()).collect();
                let items: Vec<DataState> = iface.data("item", $f).unwrap().map(|a| a.state).collect();
                let rights = iface.rights("right", $f).unwrap().map(|a| outpoint_of(&a.seal)).collect::<Vec<_>>();
                (amounts, second, items, rights)
            }};
        }
        let (mut amounts, second, items, rights) = match kind {
            0 => {
                (in0, in1) = (true, true);
                read!(FilterIncludeAll)
            }
            1 => {
                (in0, in1) = (!in0, !in1);
                read!(FilterExclude(outs.clone()))
            }
            2 => read!(outs.clone()),
            3 => read!(&outs[..]),
            4 => read!(outs.iter().copied().collect::<BTreeSet<_>>()),
            5 => read!(outs.iter().copied().collect::<HashSet<_>>()),
            6 => read!(outs.iter().map(|o| (*o, 1u8)).collect::<BTreeMap<_, _>>()),
            7 => read!(outs.iter().map(|o| (*o, 1u8)).collect::<HashMap<_, _>>()),
            8 => {
                if !ours[0] {
                    (in0, in1) = (true, true);
                    read!(None::<Vec<XOutpoint>>)
                } else {
                    read!(Some(outs.clone()))
                }
            }
            _ => {
                (in0, in1) = (true, false);
                read!(XOutpoint::from(XChain::Bitcoin(gout(0))))
            }
        };
        let mut want = vec![];
        if in0 {
            want.push(v[0]);
        }
        if in1 {
            want.push(v[1]);
        }
        if in0 && in1 && amounts.len() == 2 && amounts[0] != want[0] {
            amounts.swap(0, 1);
        }
        sx::check(amounts == want, "amounts on the outputs let through are read");
        sx::check(second == if in0 { vec![v[2]] } else { vec![] }, "amounts of another asset are told apart");
        sx::check(rights == if in1 { vec![gout(1)] } else { vec![] }, "rights on the outputs let through are read");
        sx::check(
            items.len() == in0 as usize + in1 as usize
                && items.contains(&item(3)) == in0
                && items.contains(&item(2)) == in1,
            "items on the outputs let through are read",
        );
        let files = iface.attachments("file", FilterIncludeAll).unwrap().count();
        sx::check(files == 0, "no attachments are read");
        let all = iface.allocations(Outs(&[(gout(0), in0), (gout(1), in1)])).collect::<Vec<_>>();
        sx::check(all.len() == 3 * in0 as usize + 3 * in1 as usize, "all state on the outputs is read at once");
        let first = iface.outpoint_allocations(XChain::Bitcoin(gout(0)).into()).map(|a| a.opout.ty).collect::<BTreeSet<_>>();
        sx::check(first == BTreeSet::from([FUNGIBLE, FUNGIBLE2, DATA]), "state on one output is read");
        let wrong = iface.fungible("nope", FilterIncludeAll).is_err()
            && iface.data("nope", FilterIncludeAll).is_err()
            && iface.rights("nope", FilterIncludeAll).is_err();
        sx::check(wrong, "unknown names are refused");
        sx::cover("read");
    }

    /// Contracts with state on an output are found, each once.
    fn contracts_found() {
        let m = [O, T];
        let (a, b) = (m[sx::choose(2)], m[sx::choose(2)]);
        let (x, y) = (sx::choose(2) as u32, sx::choose(2) as u32);
        let (id1, c1) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(a, 1, x), 5u64, blinding(1)).unwrap()
                .add_fungible_state_det("asset", gseal(b, 1, y), 6u64, blinding(2)).unwrap(),
        );
        let (id2, c2) = issue(builder().add_fungible_state_det("asset", gseal(O, 1, 1), 7u64, blinding(3)).unwrap());
        let mut stock = Stock::in_memory();
        stock.import_contract(c1, Net::default()).unwrap();
        stock.import_contract(c2, Net::default()).unwrap();
        let ask: Vec<Outpoint> = match sx::choose(4) {
            0 => vec![gout(0)],
            1 => vec![gout(1)],
            2 => vec![gout(0), gout(1)],
            _ => vec![gout(2)],
        };
        let mut want = vec![];
        if ask.contains(&gout(x)) || ask.contains(&gout(y)) {
            want.push(id1);
        }
        if ask.contains(&gout(1)) {
            want.push(id2);
        }
        want.sort();
        let mut got: Vec<_> = stock.contracts_assigning(ask.iter().map(|o| XOutpoint::from(XChain::Bitcoin(*o)))).unwrap().collect();
        got.sort();
        let twice = got.len();
        got.dedup();
        sx::check(got == want, "contracts with state on the outputs are found");
        sx::check(twice == got.len(), "each contract is found once");
        sx::cover("found");
    }
}
