//! Listing what a stock knows, and finding contracts by the class of their interface.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use bp::Outpoint;
use commit_verify::Conceal;
use rgbstd::containers::{ContentRef, Supplement, SUPPL_ANNOT_IFACE_CLASS, SUPPL_ANNOT_IFACE_FEATURES};
use rgbstd::info::{FeatureList, IfaceClassName};
use rgbstd::interface::{
    AssignmentsFilter, ContractIface, FilterExclude, FilterIncludeAll, Iface, IfaceClass, IfaceId, IfaceRef, IfaceWrapper,
};
use rgbstd::persistence::{ContractStateRead, StashReadProvider, StashWriteProvider, Stock};
use rgbstd::vm::WitnessOrd;
use rgbstd::{WitnessInfo, ContractId, Identity, Operation, SchemaId, XChain, XOutpoint, XWitnessId};
use strict_types::TypeLib;

use crate::flow::*;
use crate::kit::{kit, named};
use crate::state::*;
use crate::sx;
use crate::world::*;

/// The class of interfaces made of `WorldIface` and of an interface nothing implements directly.
#[derive(Clone, Default)]
struct Class;

const WORLD_ID: IfaceId = IfaceId::from_array([
    195, 71, 182, 172, 12, 229, 99, 71, 75, 4, 180, 101, 90, 49, 246, 222,
    54, 174, 130, 254, 111, 179, 143, 175, 14, 196, 25, 60, 132, 201, 44, 120,
]);
const HEIR_ID: IfaceId = IfaceId::from_array([
    44, 49, 123, 228, 237, 30, 114, 66, 105, 56, 178, 107, 79, 174, 14, 141,
    245, 128, 174, 249, 83, 108, 49, 83, 94, 117, 144, 10, 4, 246, 67, 77,
]);

struct Wrap<S: ContractStateRead>(ContractIface<S>);

impl<S: ContractStateRead> IfaceWrapper<S> for Wrap<S> {
    type Info = (ContractId, Vec<u64>);
    fn with(iface: ContractIface<S>) -> Self { Wrap(iface) }
    fn info(&self) -> Self::Info {
        let mut v: Vec<u64> = self.0.fungible("asset", FilterIncludeAll).unwrap().map(|a| a.state.value()).collect();
        v.sort();
        (self.0.contract_id(), v)
    }
    fn contract_id(&self) -> ContractId { self.0.contract_id() }
    fn schema_id(&self) -> SchemaId { self.0.schema.schema_id() }
    fn witness_info(&self, id: XWitnessId) -> Option<WitnessInfo> { self.0.witness_info(id) }
}

impl IfaceClass for Class {
    const IFACE_NAME: &'static str = "Class";
    const IFACE_IDS: &'static [IfaceId] = &[WORLD_ID, HEIR_ID];
    type Wrapper<S: ContractStateRead> = Wrap<S>;
    fn stl(&self) -> TypeLib { unimplemented!() }
    fn iface(&self) -> Iface { iface() }
    fn iface_id(&self) -> IfaceId { WORLD_ID }
}

fn base() -> Iface { named("Base") }

/// An interface of the class: it inherits the base and adds nothing.
fn heir() -> Iface {
    let mut i = named("Heir");
    i.inherits.push(base().iface_id()).unwrap();
    i
}

/// An unrelated interface.
fn stranger() -> Iface { named("Stranger") }

fn xout(o: Outpoint) -> XOutpoint { XOutpoint::from(XChain::Bitcoin(o)) }

harness! {
    /// Contracts are listed by the class of their interfaces.
    fn class_contracts() {
        sx::check(iface().iface_id() == WORLD_ID && heir().iface_id() == HEIR_ID, "ids of interfaces do not change");
        let v = [sx::u64(), sx::u64()];
        sx::assume(v[0] > 0 && v[1] > 0);
        // the schema implements an interface of the class, one from which a known interface of the class
        // inherits, or an unrelated one
        let schema = schema();
        let (face, known, heir_known) = match sx::choose(5) {
            0 => (iface(), true, false),
            1 => (base(), true, true),
            2 => (base(), false, false),
            3 => (heir(), true, false),
            _ => (stranger(), false, true),
        };
        let impl_ = iimpl(&schema, &face);
        let contract = |n: u8, v: u64| {
            let b = rgbstd::interface::ContractBuilder::deterministic(
                Identity::default(), face.clone(), schema.clone(), impl_.clone(), types(), Default::default(),
            );
            issue(b.add_asset_tag("asset", tag()).unwrap().add_asset_tag("second", tag2()).unwrap()
                .add_fungible_state_det("asset", gseal(O, n, 0), v, blinding(1)).unwrap())
        };
        let (a, ca) = contract(1, v[0]);
        let (b, cb) = contract(2, v[1]);
        let mut stock = Stock::in_memory();
        stock.import_contract(ca, Net::default()).unwrap();
        if heir_known {
            stock.import_kit(kit(&[], &[heir()], &[])).unwrap();
        }
        let two = sx::choose(2) == 1;
        if two {
            stock.import_contract(cb, Net::default()).unwrap();
        }
        let found: BTreeMap<ContractId, Vec<u64>> = stock.contracts_by::<Class>().unwrap().collect();
        let mut want = BTreeMap::new();
        if known {
            want.insert(a, vec![v[0]]);
            if two {
                want.insert(b, vec![v[1]]);
            }
        }
        sx::check(found == want, "contracts of the class are listed with their state");
        let one = stock.contract_iface_class::<Class>(a);
        sx::check(one.is_ok() == known, "a contract is read by a class it is of");
        if let Ok(w) = one {
            sx::check(w.contract_id() == a && w.schema_id() == schema.schema_id() && w.info().1 == [v[0]], "it is the contract asked for");
            sx::cover("class");
        } else {
            sx::cover("another class");
        }
        sx::check(stock.contract_iface_class::<Class>(b).is_ok() == (known && two), "an unknown contract is not read");
    }

    /// Lists tell what is known, and nothing else.
    fn lists() {
        let v = sx::u64();
        sx::assume(v > 0);
        let (id, c) = issue(builder().add_fungible_state_det("asset", gseal(O, 1, 0), v, blinding(1)).unwrap());
        let mut stock = Stock::in_memory();
        let empty = stock.ifaces().unwrap().count() + stock.schemata().unwrap().count() + stock.contracts().unwrap().count();
        sx::check(empty == 0, "a new stock knows nothing");
        let genesis = c.genesis.clone();
        stock.import_contract(c, Net::default()).unwrap();
        let (base, schema, world) = (base(), schema(), iface());
        let heir = heir();
        let with_base = sx::choose(2) == 1;
        let mut more = vec![heir.clone()];
        if with_base {
            more.push(base.clone());
        }
        stock.import_kit(kit(&[], &more, &[])).unwrap();
        let suppl = sx::choose(2) == 1;
        let features = FeatureList::from(amplify::confinement::TinyOrdSet::from_iter_checked([fname("one"), fname("two")]));
        let class = IfaceClassName::from("Class");
        if suppl {
            let mut s = Supplement::new(ContentRef::Iface(heir.iface_id()), Identity::default());
            s.annotate_itself(SUPPL_ANNOT_IFACE_CLASS, &class).unwrap();
            s.annotate_itself(SUPPL_ANNOT_IFACE_FEATURES, &features).unwrap();
            stock.as_stash_provider_mut().add_supplement(s).unwrap();
        }
        let ifaces: BTreeMap<IfaceId, _> = stock.ifaces().unwrap().map(|i| (i.id, i)).collect();
        sx::check(stock.ifaces().unwrap().count() == more.len() + 1 && ifaces.len() == more.len() + 1, "every interface is listed once");
        for i in more.iter().chain([&world]) {
            let info = ifaces.get(&i.iface_id());
            sx::check(info.is_some_and(|x| x.name == i.name && x.version == i.version && x.developer == i.developer
                && x.created_at.timestamp() == i.timestamp && x.default_op == i.default_operation), "an interface is listed as it is");
            let (Some(info), true) = (info, i.name == heir.name) else { continue };
            let parent = if with_base { IfaceRef::Name(base.name.clone()) } else { IfaceRef::Id(base.iface_id()) };
            sx::check(info.inherits == [parent], "inherited interfaces are named when known");
            let told = info.standard == suppl.then(|| class.clone()) && if suppl { info.features == features } else { info.features.is_empty() };
            sx::check(told, "class and features are told by the supplement");
        }
        let schemata: Vec<_> = stock.schemata().unwrap().collect();
        sx::check(schemata.len() == 1 && schemata[0].id == schema.schema_id() && schemata[0].name == schema.name
            && schemata[0].created_at.timestamp() == schema.timestamp && schemata[0].implements.len() == 1, "the schema is listed");
        let im = iimpl(&schema, &world);
        sx::check(schemata[0].implements.iter().all(|x| x.id == im.impl_id() && x.iface_id == im.iface_id && x.iface_name == world.name
            && x.created_at.timestamp() == im.timestamp), "the implementation is listed");
        let contracts: Vec<_> = stock.contracts().unwrap().collect();
        let one = stock.contract_info(id).unwrap();
        sx::check(contracts == [one.clone()] && one.id == id && one.schema_id == schema.schema_id() && one.issued_at.timestamp() == genesis.timestamp
            && one.issuer == genesis.issuer && one.testnet == genesis.testnet, "the contract is listed");
        sx::cover("listed");

        // what comes with a payment
        let to = txo_seal(O, 7, 1, 77);
        let t = spend(&stock, id, gout(0), &[(vout_seal(O, 1, 1), v)], None);
        let (f, tx) = anchored(id, &t, gout(0), 3);
        let bundle_id = bundle(O, &[(0, &t)]).bundle_id();
        stock.consume_fascia(f, know(&tx, WitnessOrd::Tentative)).unwrap();
        let first = stock.store_secret_seal(to).unwrap();
        let again = stock.store_secret_seal(to).unwrap();
        let stash = stock.as_stash_provider();
        let w: Vec<_> = stash.witness_ids().unwrap().collect();
        let b: Vec<_> = stash.bundle_ids().unwrap().collect();
        let s: Vec<_> = stash.secret_seals().unwrap().collect();
        sx::check(w == [wid(&tx)] && b == [bundle_id] && s == [to], "transactions, bundles and blinded outputs are listed");
        sx::check(first != again, "a blinded output is new only once");
        sx::check(stash.seal_secret(to.conceal()).unwrap() == Some(to) && stash.extension_ids().unwrap().count() == 0
            && stash.taprets().unwrap().count() == 0, "blinded outputs are found by their secret");
        let kept = stash.bundle(bundle_id).map(|b| b.known_transitions.keys().copied().collect::<Vec<_>>()).unwrap_or_default();
        sx::check(kept == [t.id()], "a bundle is found by its id");
        sx::cover("paid");
    }

    /// Every form of a filter by outputs means the same.
    fn filters() {
        let mut id = [9u8; 32];
        id[31] = sx::u8();
        let asked = Outpoint::new(bp::Txid::from(id), sx::u32());
        let (a, b) = (Outpoint::new(bp::Txid::from([9; 32]), 1), Outpoint::new(txid(8), 2));
        let at = xout(asked);
        let one = asked == a;
        let both = asked == a || asked == b;
        let (xa, xb) = (xout(a), xout(b));
        let w = if sx::choose(2) == 1 { Some(XChain::Bitcoin(txid(3))) } else { None };
        let is = |f: bool, want: bool| f == want;
        sx::check(is(FilterIncludeAll.should_include(at, w), true), "all");
        sx::check(is(xa.should_include(at, w), one), "an output");
        sx::check(is((&xa).should_include(at, w), one) && is((&mut xa.clone()).should_include(at, w), one), "a reference to an output");
        sx::check(is(Some(xa).should_include(at, w), one) && is(None::<XOutpoint>.should_include(at, w), true), "an optional output");
        sx::check(is([xa, xb].should_include(at, w), both) && is((&[xa, xb][..]).should_include(at, w), both), "a list of outputs");
        sx::check(is(vec![xa, xb].should_include(at, w), both), "a vector of outputs");
        sx::check(is(HashSet::from([xa, xb]).should_include(at, w), both) && is(BTreeSet::from([xa, xb]).should_include(at, w), both), "a set of outputs");
        sx::check(is(HashMap::from([(xa, 1), (xb, 2)]).should_include(at, w), both) && is(BTreeMap::from([(xa, 1), (xb, 2)]).should_include(at, w), both), "a map of outputs");
        sx::check(is(FilterExclude([xa, xb]).should_include(at, w), !both) && is(FilterExclude(FilterExclude(xa)).should_include(at, w), one), "the opposite");
        if both {
            sx::cover("included");
        } else {
            sx::cover("excluded");
        }
    }
}
