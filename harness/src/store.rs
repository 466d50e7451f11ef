//! Storing the stock: what is stored, read back, and left after failures.

use std::sync::{Arc, Mutex};

use amplify::confinement::{Confined, U32};
use bp::Tx;
use commit_verify::Conceal;
use nonasync::persistence::{CloneNoPersistence, PersistenceError, PersistenceProvider};
use rgbstd::containers::Kit;
use rgbstd::persistence::{MemIndex, MemStash, MemState, Stock};
use rgbstd::validation::{ResolveWitness, WitnessResolverError};
use rgbstd::vm::WitnessOrd;
use rgbstd::{XChain, XWitnessId};
use strict_encoding::{StrictDeserialize, StrictSerialize};

use crate::flow::*;
use crate::state::*;
use crate::sx;
use crate::transfer::*;
use crate::world::*;

type Bytes = Vec<u8>;

fn bytes_of(x: &impl StrictSerialize) -> Bytes { x.to_strict_serialized::<U32>().unwrap().release() }

fn from_bytes<T: StrictDeserialize>(data: &Bytes) -> Result<T, PersistenceError> {
    let data = Confined::<Vec<u8>, 0, U32>::try_from(data.clone()).unwrap();
    T::from_strict_serialized(data).map_err(|_| PersistenceError::with(Fault))
}

/// Everything the stock holds, as it is stored.
fn held(stock: &Stock) -> [Bytes; 3] {
    [bytes_of(stock.as_stash_provider()), bytes_of(stock.as_state_provider()), bytes_of(stock.as_index_provider())]
}

#[derive(Debug)]
struct Fault;
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("fault") }
}
impl std::error::Error for Fault {}

#[derive(Debug, Default)]
struct Files {
    data: [Option<Bytes>; 3],
    full: bool,
}

/// A store in place of files.
#[derive(Clone, Debug, Default)]
struct Disk(Arc<Mutex<Files>>);

impl Disk {
    fn put(&self, n: usize, data: Bytes) -> Result<(), PersistenceError> {
        let mut files = self.0.lock().unwrap();
        if files.full {
            return Err(PersistenceError::with(Fault));
        }
        files.data[n] = Some(data);
        Ok(())
    }
    fn get(&self, n: usize) -> Result<Bytes, PersistenceError> {
        self.0.lock().unwrap().data[n].clone().ok_or_else(|| PersistenceError::with(Fault))
    }
    fn has(&self, held: &[Bytes; 3]) -> bool {
        let files = self.0.lock().unwrap();
        (0..3).all(|n| files.data[n].as_ref() == Some(&held[n]))
    }
}

impl PersistenceProvider<MemStash> for Disk {
    fn load(&self) -> Result<MemStash, PersistenceError> { from_bytes(&self.get(0)?) }
    fn store(&self, x: &MemStash) -> Result<(), PersistenceError> { self.put(0, bytes_of(x)) }
}
impl PersistenceProvider<MemState> for Disk {
    fn load(&self) -> Result<MemState, PersistenceError> { from_bytes(&self.get(1)?) }
    fn store(&self, x: &MemState) -> Result<(), PersistenceError> { self.put(1, bytes_of(x)) }
}
impl PersistenceProvider<MemIndex> for Disk {
    fn load(&self) -> Result<MemIndex, PersistenceError> { from_bytes(&self.get(2)?) }
    fn store(&self, x: &MemIndex) -> Result<(), PersistenceError> { self.put(2, bytes_of(x)) }
}

/// Knows transactions, but fails to tell the status of some.
struct Flaky<'a>(&'a Net, [Option<XWitnessId>; 2]);

impl ResolveWitness for Flaky<'_> {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XChain<Tx>, WitnessResolverError> { self.0.resolve_pub_witness(id) }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        if self.1.contains(&Some(id)) {
            return Err(WitnessResolverError::Other(id, String::new()));
        }
        self.0.resolve_pub_witness_ord(id)
    }
}

harness! {
    /// After each operation the stored stock is the one held, and it is read back the same.
    fn store_kept() {
        let disk = Disk::default();
        let (a, x) = (sx::u64(), sx::u64());
        sx::assume(x > 0 && x < a);
        let autosave = sx::choose(2) == 1;
        let late = sx::choose(2) == 1;
        let mut stock = Stock::in_memory();
        if !late {
            let was = stock.make_persistent(disk.clone(), autosave).unwrap();
            sx::check(!was, "a stock is not persistent at first");
            sx::check(disk.has(&held(&stock)), "a stock is stored when made persistent");
        }
        let (id, contract) = issue(
            builder()
                .add_fungible_state_det("asset", gseal(O, 1, 0), a, blinding(1)).unwrap()
                .add_rights("right", gseal(O, 1, 1)).unwrap(),
        );
        stock.import_contract(contract, Net::default()).unwrap();
        if late {
            stock.make_persistent(disk.clone(), autosave).unwrap();
        }
        sx::check(disk.has(&held(&stock)), "an imported contract is stored");
        let seal = txo_seal(O, 7, 1, 77);
        stock.store_secret_seal(txo_seal(O, 9, 1, 70)).unwrap();
        sx::check(disk.has(&held(&stock)), "a secret seal is stored");
        let (fascia, tx) = pay(&stock, &blind_invoice(id, seal, x), &[gout(0)], 9, 3).unwrap();
        stock.consume_fascia(fascia, know(&tx, WitnessOrd::Tentative)).unwrap();
        sx::check(disk.has(&held(&stock)), "a payment is stored");
        let ord = mined(3, TIME);
        stock.update_witnesses(know(&tx, ord), 0).unwrap();
        sx::check(disk.has(&held(&stock)), "the status of a transaction is stored");
        let mut other = iface();
        other.timestamp += 1;
        let kit = Kit { ifaces: amplify::confinement::TinyOrdSet::from_iter_checked([other]), ..Default::default() };
        stock.import_kit(kit.validate().unwrap()).unwrap();
        sx::check(disk.has(&held(&stock)), "an imported interface is stored");
        sx::check(stock.store().is_ok() && disk.has(&held(&stock)), "storing stores the stock");

        let mut back = Stock::load(disk.clone(), autosave).unwrap();
        sx::check(held(&back) == held(&stock), "the stock is read back as stored");
        sx::check(visible(&back, id) == visible(&stock, id), "the state is read back");
        let change = amount_on(&back, id, xo(&tx, 2));
        sx::check(change == [a - x], "the change is held after reading back");
        let sent = back.transfer(id, [], Some(seal.conceal())).unwrap();
        sx::check(sent == stock.transfer(id, [], Some(seal.conceal())).unwrap(), "consignments are the same after reading back");
        // The stock read back is stored as well.
        back.store_secret_seal(txo_seal(O, 9, 2, 71)).unwrap();
        sx::check(disk.has(&held(&back)), "a stock read back is stored");
        let copy = back.clone_no_persistence();
        sx::check(held(&copy) == held(&back), "a copy is the same");
        let mut copy = copy;
        copy.store_secret_seal(txo_seal(O, 9, 3, 72)).unwrap();
        sx::check(disk.has(&held(&back)) && held(&copy) != held(&back), "a copy is not stored");
        sx::cover("kept");
        sx::done();
    }

    /// A consignment is accepted as a whole or not at all; accepting it again then works.
    fn failed_accept() {
        let x = sx::u64();
        sx::assume(x > 1 && x <= 100);
        let (mut alice, id) = world([100, 50], None);
        let seal = txo_seal(O, 7, 1, 77);
        let (fascia, tx1) = pay(&alice, &vout_invoice(id, x), &[gout(0)], 9, 3).unwrap();
        let net = nets(&[(&tx1, WitnessOrd::Tentative)]);
        alice.consume_fascia(fascia, &net).unwrap();
        let (fascia, tx2) = pay(&alice, &blind_invoice(id, seal, x), &[xo(&tx1, 1)], 10, 4).unwrap();
        let net = nets(&[(&tx1, mined(3, TIME)), (&tx2, WitnessOrd::Tentative)]);
        alice.consume_fascia(fascia, &net).unwrap();
        let valid = alice.transfer(id, [], Some(seal.conceal())).unwrap().validate(&net, true).map_err(|_| ()).unwrap();

        let mut bob = Stock::in_memory();
        bob.store_secret_seal(seal).unwrap();
        let knows = sx::choose(2) == 1;
        if knows {
            bob.import_contract(alice.export_contract(id).unwrap().validate(&net, true).map_err(|_| ()).unwrap(), &net).unwrap();
        }
        let mut lucky = bob.clone_no_persistence();
        let before = held(&bob);
        let which = sx::choose(3);
        let flaky = Flaky(&net, [(which != 1).then(|| wid(&tx1)), (which != 0).then(|| wid(&tx2))]);
        sx::check(bob.accept_transfer(valid.clone(), &flaky).is_err(), "a failure of the resolver is told");
        sx::check(held(&bob) == before, "nothing changes when accepting fails");
        sx::check(bob.accept_transfer(valid.clone(), &net).is_ok(), "accepting works after a failure");
        lucky.accept_transfer(valid, &net).unwrap();
        sx::check(held(&bob) == held(&lucky), "a failure leaves no traces");
        let got = amount_on(&bob, id, outpoint(7, 1));
        sx::check(got == [x], "the payment is held");
        sx::cover("accepted");
        sx::done();
    }

    /// The same for own payments.
    fn failed_payment() {
        let (a, x) = (sx::u64(), sx::u64());
        sx::assume(x > 0 && x < a);
        let (mut alice, id) = world([a, 50], None);
        let (_, contract) = other_contract(7);
        let with = sx::choose(2) == 1;
        let mut stranger = alice.clone_no_persistence();
        if with {
            alice.import_contract(contract, Net::default()).unwrap();
        }
        let seal = txo_seal(O, 7, 1, 77);
        let (fascia, tx) = pay(&alice, &blind_invoice(id, seal, x), &[gout(0)], 9, 3).unwrap();
        let net = know(&tx, WitnessOrd::Tentative);
        if with {
            let before = held(&stranger);
            sx::check(stranger.consume_fascia(fascia.clone(), &net).is_err(), "a payment of an unknown contract is refused");
            sx::check(held(&stranger) == before, "nothing changes when a contract is unknown");
        }
        let before = held(&alice);
        let flaky = Flaky(&net, [Some(wid(&tx)), None]);
        sx::check(alice.consume_fascia(fascia.clone(), &flaky).is_err(), "a failure of the resolver is told to the payer");
        sx::check(held(&alice) == before, "nothing changes when paying fails");
        sx::check(alice.consume_fascia(fascia, &net).is_ok(), "paying works after a failure");
        sx::check(alice.transfer(id, [], Some(seal.conceal())).is_ok(), "the payment is consigned");
        sx::cover("paid");
        sx::done();
    }

    /// A failure to store is told; storing later stores everything.
    fn store_full() {
        let disk = Disk::default();
        let a = sx::u64();
        sx::assume(a > 1);
        let (mut stock, id) = world([a, 50], None);
        stock.make_persistent(disk.clone(), false).unwrap();
        let before = held(&stock);
        let (fascia, tx) = pay(&stock, &blind_invoice(id, txo_seal(O, 7, 1, 77), 1), &[gout(0)], 9, 3).unwrap();
        let net = know(&tx, WitnessOrd::Tentative);
        let (_, contract) = other_contract(7);
        disk.0.lock().unwrap().full = true;
        let op = sx::choose(5);
        sx::known_panic("store-fails", op < 2);
        let ok = match op {
            0 => stock.consume_fascia(fascia, &net).is_ok(),
            1 => stock.import_contract(contract, &net).is_ok(),
            2 => stock.store_secret_seal(txo_seal(O, 9, 1, 70)).is_ok(),
            3 => stock.import_kit(Kit::default().validate().unwrap()).is_ok(),
            _ => stock.update_witnesses(&net, 0).is_ok(),
        };
        sx::known_panic("", false);
        sx::check(!ok, "a failure to store is told");
        sx::check(disk.has(&before), "what was stored stays");
        sx::check(stock.store().is_err(), "a repeated failure to store is told");
        disk.0.lock().unwrap().full = false;
        sx::check(stock.store().is_ok() && disk.has(&held(&stock)), "everything is stored after the failure");
        let back: Result<Stock, _> = Stock::load(disk, false);
        sx::check(back.is_ok(), "the stock is read back after the failure");
        sx::cover("stored");
        sx::done();
    }
}
