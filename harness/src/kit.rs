//! What a stock knows of schemata, interfaces and implementations: importing, exporting, using it.

use amplify::confinement::{Confined, TinyOrdMap, TinyOrdSet};
use rgbstd::containers::{
    ContentId, ContentRef, ContentSigs, Kit, SigBlob, SupplItem, SupplSub, Supplement, TrustLevel,
    ValidKit, VelocityHint,
};
use rgbstd::interface::{Iface, IfaceImpl};
use rgbstd::invoice::Amount;
use rgbstd::persistence::{StashReadProvider, StashWriteProvider, Stock};
use rgbstd::{Identity, Schema};
use strict_encoding::{StrictSerialize, WriteRaw};

use crate::flow::*;
use crate::state::*;
use crate::sx;
use crate::world::*;

fn valid(kit: Kit) -> ValidKit { kit.validate().unwrap() }

pub fn kit(schema: &[Schema], ifaces: &[Iface], iimpls: &[IfaceImpl]) -> ValidKit {
    valid(Kit {
        ifaces: TinyOrdSet::from_iter_checked(ifaces.iter().cloned()),
        schemata: TinyOrdSet::from_iter_checked(schema.iter().cloned()),
        iimpls: TinyOrdSet::from_iter_checked(iimpls.iter().cloned()),
        types: if schema.is_empty() { Default::default() } else { types() },
        ..Default::default()
    })
}

/// The interface in another version: same name, another timestamp.
fn later() -> Iface {
    let mut i = iface();
    i.timestamp += 1;
    i
}

pub fn named(name: &'static str) -> Iface {
    let mut i = iface();
    i.name = name.into();
    i
}

pub fn signed(who: &'static str, sig: u8) -> ContentSigs {
    let blob = SigBlob::from(Confined::try_from(vec![sig, 1]).unwrap());
    ContentSigs::from(Confined::try_from_iter([(Identity::from(who), blob)]).unwrap())
}

pub fn suppl(content: ContentRef, n: u64) -> Supplement {
    let mut s = Supplement::new(content, Identity::default());
    s.annotate_itself("Number", &Amount::from(n)).unwrap();
    s
}

/// Too much data for an annotation.
struct Huge;

impl strict_encoding::StrictType for Huge {
    const STRICT_LIB_NAME: &'static str = "Test";
}
impl strict_encoding::StrictEncode for Huge {
    fn strict_encode<W: strict_encoding::TypedWrite>(&self, mut writer: W) -> std::io::Result<W> {
        unsafe { writer.raw_writer() }.write_raw::<0xFFFFFF>(&[0u8; 0x10000][..])?;
        Ok(writer)
    }
}
impl StrictSerialize for Huge {}

harness! {
    /// Parts of a kit may be imported in any order, one by one and again.
    fn kit_parts() {
        let (schema, iface) = (schema(), iface());
        let iimpl = iimpl(&schema, &iface);
        let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let order = orders[sx::choose(6)];
        let part = |n: usize| match n {
            0 => kit(&[schema.clone()], &[], &[]),
            1 => kit(&[], &[iface.clone()], &[]),
            _ => kit(&[], &[], &[iimpl.clone()]),
        };
        let mut stock = Stock::in_memory();
        let mut known = [false; 3];
        for n in order {
            let ok = stock.import_kit(part(n)).is_ok();
            sx::check(ok == (n < 2 || known[0] && known[1]), "an implementation needs its schema and interface");
            known[n] = ok;
        }
        let again = sx::choose(4);
        if !known[2] {
            sx::check(stock.import_kit(part(2)).is_ok(), "a part can be imported when its needs are known");
        }
        if again < 3 {
            sx::check(stock.import_kit(part(again)).is_ok(), "parts can be imported again");
        }
        let id = schema.schema_id();
        let iface_id = iface.iface_id();
        let known = stock.schema(id).unwrap();
        sx::check(known.schema == schema && known.iimpls.len() == 1, "the schema and its implementation are known");
        sx::check(known.get(iface_id) == Some(&iimpl) && known.contains(iface_id), "the implementation is known");
        let byname = stock.iface(iface.name.clone()).unwrap() == &iface;
        sx::check(byname && stock.iface(iface_id).unwrap() == &iface, "the interface is known");
        let export = stock.export_schema(id).unwrap().into_kit();
        let whole = kit(&[schema.clone()], &[iface.clone()], &[iimpl.clone()]).into_kit();
        sx::check(
            export.schemata == whole.schemata && export.ifaces == whole.ifaces && export.iimpls == whole.iimpls,
            "the export has all parts",
        );
        let mut fresh = Stock::in_memory();
        sx::check(fresh.import_kit(valid(export.clone())).is_ok(), "the export can be imported");
        sx::check(fresh.export_schema(id).unwrap().into_kit() == export, "the export is the same after import");
        let b = fresh.contract_builder("ssi:anonymous", id, "WorldIface");
        sx::check(b.is_ok(), "contracts can be issued after import");
        sx::cover("imported");
    }

    /// Exports have the interfaces their implementations are for, also if there are others of the same name.
    fn kit_versions() {
        let schema = schema();
        let faces = [iface(), later()];
        let impls = [iimpl(&schema, &faces[0]), iimpl(&schema, &faces[1])];
        let mut stock = Stock::in_memory();
        stock.import_kit(kit(&[schema.clone()], &faces, &[])).unwrap();
        let uses: &[usize] = [&[0][..], &[1], &[0, 1], &[1, 0]][sx::choose(4)];
        for n in uses {
            stock.import_kit(kit(&[], &[], &[impls[*n].clone()])).unwrap();
        }
        let last = uses[uses.len() - 1];
        let id = schema.schema_id();
        sx::check(stock.schema(id).unwrap().get(impls[last].iface_id) == Some(&impls[last]), "the last implementation is known");
        let export = stock.export_schema(id).unwrap();
        let complete = export.iimpls.iter().all(|i| export.ifaces.iter().any(|f| f.iface_id() == i.iface_id));
        sx::check(complete, "the export has the interfaces of its implementations");
        let mut fresh = Stock::in_memory();
        sx::check(fresh.import_kit(export).is_ok(), "the export can be imported");
        sx::check(fresh.schema(id).unwrap().get(impls[last].iface_id).is_some(), "the implementation is known after import");

        // The same for contracts.
        let b = stock.contract_builder("ssi:anonymous", id, faces[last].iface_id());
        sx::check(b.is_ok(), "contracts can be issued with the last implementation");
        let (cid, contract) = issue(
            builder().add_fungible_state_det("asset", gseal(O, 1, 0), sx::u64(), blinding(1)).unwrap(),
        );
        stock.import_contract(contract, Net::default()).unwrap();
        if uses != [0] {
            // Bring back the implementation replaced by the one of the contract.
            stock.import_kit(kit(&[], &[], &[impls[last].clone()])).unwrap();
        }
        let c = stock.export_contract(cid).unwrap();
        let matching = c.ifaces.iter().all(|(f, i)| f.iface_id() == i.iface_id);
        sx::check(matching && c.ifaces.len() == 1, "the contract has the interfaces of its implementations");
        sx::cover("exported");
    }

    /// Builders are given for what is known and refused otherwise.
    fn stock_builders() {
        let (id, contract) = issue(
            builder().add_fungible_state_det("asset", gseal(O, 1, 0), sx::u64(), blinding(1)).unwrap(),
        );
        let mut stock = Stock::in_memory();
        stock.import_contract(contract, Net::default()).unwrap();
        let schema = schema();
        let mut lazy = named("Lazy");
        lazy.default_operation = None;
        let lazy_impl = iimpl(&schema, &lazy);
        let other = named("Other");
        stock.import_kit(kit(&[schema.clone()], &[lazy.clone(), other.clone()], &[lazy_impl])).unwrap();
        let sid = schema.schema_id();
        let unknown = rgbstd::ContractId::from(sx::bytes::<32>());
        sx::assume(unknown != id);
        let none = None::<&'static str>;
        let (ok, good) = match sx::choose(16) {
            0 => (stock.contract_builder("ssi:me", sid, "WorldIface").is_ok(), true),
            1 => (stock.contract_builder("ssi:me", sid, "Unknown").is_ok(), false),
            2 => (stock.contract_builder("ssi:me", sid, "Other").is_ok(), false),
            3 => (stock.contract_builder("ssi:me", rgbstd::SchemaId::from(unknown.to_byte_array()), "Lazy").is_ok(), unknown.to_byte_array() == sid.to_byte_array()),
            4 => (stock.transition_builder(id, "WorldIface", none).is_ok(), true),
            5 => (stock.transition_builder(id, "WorldIface", Some("transfer")).is_ok(), true),
            6 => (stock.transition_builder(id, "WorldIface", Some("burn")).is_ok(), false),
            7 => (stock.transition_builder(id, "WorldIface", Some("extend")).is_ok(), false),
            8 => (stock.transition_builder(id, "Lazy", none).is_ok(), false),
            9 => (stock.transition_builder(id, "Lazy", Some("transfer")).is_ok(), true),
            10 => (stock.transition_builder(id, "Other", none).is_ok(), false),
            11 => (stock.transition_builder(unknown, "WorldIface", none).is_ok(), false),
            12 => (stock.blank_builder(id, "Other").is_ok(), true),
            13 => (stock.blank_builder(unknown, "WorldIface").is_ok(), false),
            14 => (stock.contract_iface(unknown, "WorldIface").is_ok(), false),
            _ => (stock.export_contract(unknown).is_ok() || stock.contract_state(unknown).is_ok(), false),
        };
        sx::check(ok == good, "builders are given for known contracts, interfaces and operations");
        sx::cover("asked");
    }

    /// Signatures and supplements travel with contracts; those of distrusted signers do not.
    fn kit_signatures() {
        let (id, contract) = issue(
            builder().add_fungible_state_det("asset", gseal(O, 1, 0), sx::u64(), blinding(1)).unwrap(),
        );
        let (schema, iface) = (schema(), iface());
        let iimpl = iimpl(&schema, &iface);
        let (sid, fid, mid) = (schema.schema_id(), iface.iface_id(), iimpl.impl_id());
        let sigs = [ContentId::Genesis(id), ContentId::Schema(sid), ContentId::Iface(fid), ContentId::IfaceImpl(mid)];
        let refs = [ContentRef::Genesis(id), ContentRef::Schema(sid), ContentRef::Iface(fid), ContentRef::IfaceImpl(mid)];
        let mut stock = Stock::in_memory();
        stock.import_contract(contract, Net::default()).unwrap();
        let level = sx::choose(5);
        let trust = [None, Some(TrustLevel::Malicious), Some(TrustLevel::Unknown), Some(TrustLevel::Untrusted), Some(TrustLevel::Trusted)][level];
        if let Some(trust) = trust {
            stock.as_stash_provider_mut().set_trust(Identity::from("ssi:signer"), trust).unwrap();
        }
        let n = sx::choose(4);
        let (sig, number) = (sx::u8(), sx::u64());
        let more = Kit {
            signatures: TinyOrdMap::from_iter_checked([(sigs[n], signed("ssi:signer", sig))]),
            supplements: TinyOrdSet::from_iter_checked([suppl(refs[n], number)]),
            ..Default::default()
        };
        sx::check(stock.import_kit(valid(more.clone())).is_ok(), "a kit with signatures is imported");
        let good = trust != Some(TrustLevel::Malicious);
        let has = stock.as_stash_provider().sigs_for(&sigs[n]).unwrap();
        let want = good.then(|| signed("ssi:signer", sig));
        sx::check(has == want.as_ref(), "signatures are kept unless the signer is malicious");
        let c = stock.export_contract(id).unwrap();
        sx::check(c.signatures.get(&sigs[n]) == has && c.signatures.len() == good as usize, "signatures travel with the contract");
        let has = c.supplements.len() == 1 && c.supplements.first() == Some(&suppl(refs[n], number));
        sx::check(has, "supplements travel with the contract");
        // Another signature is added to the first.
        if good {
            let two = Kit {
                signatures: TinyOrdMap::from_iter_checked([(sigs[n], signed("ssi:other", 7))]),
                ..Default::default()
            };
            stock.import_kit(valid(two)).unwrap();
            let all = stock.as_stash_provider().sigs_for(&sigs[n]).unwrap().unwrap();
            let both = all.len() == 2 && all.values().next() == signed("ssi:other", 7).values().next();
            sx::check(both, "another signature is kept as well");
        }
        sx::cover("signed");
    }

    /// Annotations are read back as written; failing to write changes nothing.
    fn suppl_annotations() {
        let subs = [SupplSub::Itself, SupplSub::Owned];
        let items = [SupplItem::Default, SupplItem::TypeNo(4000)];
        let names = ["Velocity", "Standard"];
        let mut s = Supplement::new(ContentRef::Schema(schema().schema_id()), Identity::default());
        let mut want = [None::<u64>; 8];
        for _ in 0..3 {
            let n = sx::choose(8);
            let v = sx::u64();
            let (sub, item, name) = (subs[n & 1], items[n >> 1 & 1].clone(), names[n >> 2]);
            let was = want[n];
            let replaced = s.annotate(sub, item, name, &Amount::from(v)).unwrap();
            sx::check(replaced == was.is_some(), "writing tells whether there was an annotation");
            want[n] = Some(v);
        }
        let failed = s.annotate(subs[0], items[sx::choose(2)].clone(), names[sx::choose(2)], &Huge).is_err();
        sx::check(failed, "too much data is refused");
        for n in 0..8 {
            let (sub, item, name) = (subs[n & 1], items[n >> 1 & 1].clone(), names[n >> 2]);
            let got = s.get::<Amount>(sub, item, name).map(|r| r.unwrap().value());
            sx::check(got == want[n], "annotations are read as written");
            if n & 2 == 0 {
                let got = s.get_default_opt::<Amount>(sub, name).map(|a| a.value());
                sx::check(got == want[n], "default annotations are read as written");
            }
        }
        sx::cover("annotated");
        let v = sx::u8();
        let hint = VelocityHint::with_value(&v);
        sx::check([0, 15, 31, 63, 127, 255].into_iter().find(|x| *x >= v) == Some(hint as u8), "a hint is the closest not below the value");
        sx::check(VelocityHint::try_from(hint as u8) == Ok(hint), "a hint has its value");
    }
}
