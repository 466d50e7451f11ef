//! Containers as files and text.

use std::str::FromStr;

use amplify::confinement::{Confined, TinyOrdSet};
use bp::Tx;
use rgbstd::containers::{
    ContentId, ContentRef, Contract, FileContent, Kit, LoadError, Transfer, UniversalFile,
};
use rgbstd::persistence::Stock;
use rgbstd::vm::WitnessOrd;
use rgbstd::{AttachId, BundleId, SecretSeal, XChain};

use crate::flow::*;
use crate::kit::{kit, named, signed, suppl};
use crate::state::*;
use crate::sx;
use crate::transfer::*;
use crate::world::*;

/// A stock after payments of a part of `v` and of other five.
fn paid(v: u64, x: u64) -> (Stock, rgbstd::ContractId, [Tx; 2]) {
    let (mut stock, id) = world([v, 5], None);
    let txes = [(0, x, v - x), (1, 2, 3)].map(|(n, a, b)| {
        let t = spend(&stock, id, gout(n), &[(vout_seal(O, 1, 1), a), (vout_seal(O, 2, 2), b)], None);
        let (f, tx) = anchored(id, &t, gout(n), 3);
        stock.consume_fascia(f, know(&tx, WitnessOrd::Tentative)).unwrap();
        tx
    });
    (stock, id, txes)
}

fn saved(c: &impl FileContent) -> Vec<u8> {
    let mut data = vec![];
    c.save(&mut data).unwrap();
    data
}

fn wrong<T>(r: Result<T, LoadError>) -> bool { matches!(r, Err(LoadError::InvalidMagic)) }

/// Names of other kinds of files are refused, and so are files with a change in the name or cut short.
fn refused<T: FileContent>(mut data: Vec<u8>) {
    let len = data.len();
    if sx::choose(2) == 0 {
        let at = sx::choose(7);
        let b = sx::u8();
        sx::assume(b != data[at]);
        data[at] = b;
        sx::check(wrong(T::load(&data[..])), "a file of another kind is refused");
        sx::check(wrong(UniversalFile::load(&data[..])), "a file of an unknown kind is refused");
        sx::cover("another kind");
    } else {
        let cut = match sx::choose(5) {
            0 => 0,
            1 => 3,
            2 => 7,
            3 => len / 2,
            _ => len - 1,
        };
        sx::check(T::load(&data[..cut]).is_err() && UniversalFile::load(&data[..cut]).is_err(), "a part of a file is refused");
        sx::cover("a part");
    }
}

/// An armored text with a change of one character is refused or read as before.
fn changed<T: FromStr + FileContent>(text: &str, what: &T) {
    let mut bytes = text.as_bytes().to_vec();
    let lines: Vec<usize> = [0].into_iter().chain(bytes.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(n, _)| n + 1)).collect();
    let data = bytes.windows(2).position(|w| w == b"\n\n").unwrap() + 2;
    let end = bytes.len() - bytes.iter().rev().skip(1).position(|b| *b == b'\n').unwrap() - 1;
    let place = sx::choose(8);
    let at = match place {
        // the title, the id, a name of a header, the end of a header, the checksum, data, the end
        0 => 3,
        1 => lines[1] + 1,
        2 => lines[1] + 12,
        3 => lines[2] - 1,
        4 => data - 4,
        5 => data,
        6 => (data + end) / 2,
        _ => end + 3,
    };
    let b = sx::u8();
    sx::assume(b < 128 && b != bytes[at]);
    bytes[at] = b;
    let Ok(s) = std::str::from_utf8(&bytes) else { return };
    sx::known_panic("text-overflow", place >= 5);
    match T::from_str(s) {
        Ok(x) => {
            sx::check(saved(&x) == saved(what), "a changed text is read as before or refused");
            sx::cover("read");
        }
        Err(_) => sx::cover("refused"),
    }
    sx::known_panic("", false);
}

/// A kit with some schemata, interfaces, implementations and supplements.
fn some_kit(parts: usize, n: u64) -> Kit {
    let (schema, face) = (schema(), iface());
    let im = iimpl(&schema, &face);
    let mut k = match parts {
        0 => kit(&[], &[], &[]),
        1 => kit(&[], &[face.clone()], &[]),
        2 => kit(&[schema.clone()], &[face.clone()], &[im.clone()]),
        _ => kit(&[schema.clone()], &[face.clone(), named("Other")], &[im.clone()]),
    }
    .into_kit();
    if parts > 2 {
        let refs = [ContentRef::Schema(schema.schema_id()), ContentRef::Iface(face.iface_id()), ContentRef::IfaceImpl(im.impl_id())];
        k.supplements = TinyOrdSet::from_iter_checked(refs.into_iter().map(|r| suppl(r, n)));
        k.signatures = Confined::try_from_iter([(ContentId::Schema(schema.schema_id()), signed("ssi:someone", 3))]).unwrap();
    }
    k
}

/// An end of the history at an output known by its secret only.
fn terminal(bundle: u8) -> (BundleId, XChain<SecretSeal>) {
    let mut id = [7u8; 32];
    id[31] = bundle;
    (BundleId::from(id), XChain::Bitcoin(secret_of(txo_seal(O, 7, 1, 77))))
}

harness! {
    /// A contract read from a file is the one saved.
    fn file_contract() {
        let v = sx::u64();
        sx::assume(v > 0);
        let (stock, id) = world([v, 5], Some(3));
        let c = stock.export_contract(id).unwrap();
        let data = saved(&c);
        sx::check(Contract::load(&data[..]).is_ok_and(|x| x == c), "the contract is read back");
        sx::check(matches!(UniversalFile::load(&data[..]), Ok(UniversalFile::Contract(x)) if x == c), "the kind of the contract is told");
        let mut universal = vec![];
        UniversalFile::from(c).save(&mut universal).unwrap();
        sx::check(universal == data, "the contract is saved the same as a file of any kind");
        sx::check(wrong(Kit::load(&data[..])) && wrong(Transfer::load(&data[..])), "a contract is not read as something else");
        refused::<Contract>(data);
    }

    /// A transfer read from a file is the one saved.
    fn file_transfer() {
        let (v, x) = (sx::u64(), sx::u64());
        sx::assume(x > 0 && x < v);
        let (stock, id, txes) = paid(v, x);
        let c = stock.transfer(id, [seal_at(O, xo(&txes[0], 1))], None).unwrap();
        let data = saved(&c);
        sx::check(Transfer::load(&data[..]).is_ok_and(|x| x == c && saved(&x) == data), "the transfer is read back");
        sx::check(matches!(UniversalFile::load(&data[..]), Ok(UniversalFile::Transfer(x)) if x == c), "the kind of the transfer is told");
        let mut universal = vec![];
        UniversalFile::from(c).save(&mut universal).unwrap();
        sx::check(universal == data, "the transfer is saved the same as a file of any kind");
        sx::check(wrong(Kit::load(&data[..])) && wrong(Contract::load(&data[..])), "a transfer is not read as something else");
        refused::<Transfer>(data);
    }

    /// A kit read from a file is the one saved.
    fn file_kit() {
        let k = some_kit(sx::choose(4), sx::u64());
        let data = saved(&k);
        sx::check(Kit::load(&data[..]).is_ok_and(|x| x == k), "the kit is read back");
        sx::check(matches!(UniversalFile::load(&data[..]), Ok(UniversalFile::Kit(x)) if x == k), "the kind of the kit is told");
        let mut universal = vec![];
        UniversalFile::from(k).save(&mut universal).unwrap();
        sx::check(universal == data, "the kit is saved the same as a file of any kind");
        sx::check(wrong(Contract::load(&data[..])) && wrong(Transfer::load(&data[..])), "a kit is not read as something else");
        refused::<Kit>(data);
    }

    /// A kit read from a text is the one written.
    fn text_kit() {
        let k = some_kit(sx::choose(4), 3);
        let text = k.to_string();
        let back = Kit::from_str(&text);
        sx::check(back.as_ref().is_ok_and(|x| *x == k), "the kit is read from its text");
        let valid = k.clone().validate().unwrap().to_string();
        sx::check(valid == text, "a valid kit has the same text");
        changed(&text, &k);
    }

    /// A consignment read from a text is the one written.
    fn text_consignment() {
        let (stock, id, txes) = paid(30, 10);
        let outs = txes.map(|tx| seal_at(O, xo(&tx, 1)));
        let all = [(1, 1, 1), (2, 2, 2), (0, 0, 0), (0, 1, 2), (1, 2, 0)];
        let (n, terminals, ifaces) = all[sx::choose(if sx::thorough() { 5 } else { 3 })];
        let mut c = stock.transfer(id, &outs[..n], None).unwrap();
        c.terminals = Confined::try_from_iter([1, 2][..terminals].iter().map(|n| terminal(*n))).unwrap();
        if ifaces == 0 {
            c.ifaces = Default::default();
        } else if ifaces == 2 {
            let other = named("Other");
            let im = iimpl(&c.schema, &other);
            c.ifaces.insert(other, im).unwrap();
        }
        let text = c.to_string();
        let back = Transfer::from_str(&text);
        sx::check(back.as_ref().is_ok_and(|x| *x == c && saved(x) == saved(&c)), "the transfer is read from its text");
        sx::check(Contract::from_str(&text).is_err(), "a text of a transfer is not read as a contract");
        let k = c.clone().into_contract();
        let same = k.version == c.version && k.schema == c.schema && k.ifaces == c.ifaces && k.supplements == c.supplements
            && k.types == c.types && k.genesis == c.genesis && k.terminals == c.terminals && k.bundles == c.bundles
            && k.extensions == c.extensions && k.attachments == c.attachments && k.signatures == c.signatures && k.scripts == c.scripts;
        sx::check(same && !k.transfer, "a contract made of a transfer has everything of it");
        let text2 = k.to_string();
        sx::check(Contract::from_str(&text2).is_ok_and(|x| x == k), "the contract is read from its text");
        sx::check(Transfer::from_str(&text2).is_err(), "a text of a contract is not read as a transfer");
        changed(&text, &c);
    }
    /// Consignments which differ have different ids.
    fn consignment_ids() {
        let (v, x) = (sx::u64(), sx::u64());
        sx::assume(x > 0 && x < v);
        let (stock, id, txes) = paid(v, x);
        let c = stock.transfer(id, [seal_at(O, xo(&txes[0], 1))], None).unwrap();
        let first = c.consignment_id();
        sx::check(first == c.clone().consignment_id(), "the id of the same consignment is the same");
        let mut d = c.clone();
        match sx::choose(8) {
            0 => d.transfer = false,
            1 => d.ifaces = Default::default(),
            2 => d.terminals = Confined::try_from_iter([terminal(sx::u8())]).unwrap(),
            3 => d.bundles = Default::default(),
            4 => d.supplements = TinyOrdSet::from_iter_checked([suppl(ContentRef::Genesis(id), v)]),
            5 => d.signatures = Confined::try_from_iter([(ContentId::Genesis(id), signed("ssi:someone", sx::u8()))]).unwrap(),
            6 => drop(d.attachments.insert(AttachId::from([sx::u8(); 32]), Default::default()).unwrap()),
            _ => d = without_tx(d),
        }
        sx::check(d.consignment_id() != first, "the id of another consignment is different");
        sx::cover("another");
    }

    /// Kits which differ have different ids.
    fn kit_ids() {
        let (n, m) = (sx::u64(), sx::u64());
        let (k, l) = (some_kit(3, n), some_kit(3, m));
        sx::check((k.kit_id() == l.kit_id()) == (n == m), "kits with different supplements have different ids");
        let mut l = k.clone();
        match sx::choose(5) {
            0 => l.ifaces = Default::default(),
            1 => l.iimpls = Default::default(),
            2 => l.schemata = Default::default(),
            3 => l.types = Default::default(),
            _ => l.signatures = Confined::try_from_iter([(ContentId::Schema(schema().schema_id()), signed("ssi:someone", 4))]).unwrap(),
        }
        sx::check(k.kit_id() != l.kit_id(), "the id of another kit is different");
        sx::cover("another");
    }

    /// Validation warns of odd consignments.
    fn warnings() {
        let (v, x) = (sx::u64(), sx::u64());
        sx::assume(x > 0 && x < v);
        let (stock, id, txes) = paid(v, x);
        let mut c = stock.transfer(id, [seal_at(O, xo(&txes[0], 1))], None).unwrap();
        let odd = sx::choose(4);
        match odd {
            0 => {}
            1 => c.transfer = false,
            2 => {
                let im = iimpl(&c.schema, &named("Other"));
                c.ifaces = Confined::try_from_iter([(iface(), im)]).unwrap();
            }
            _ => c.terminals = Confined::try_from_iter([terminal(sx::u8())]).unwrap(),
        }
        let kept = c.clone();
        let net = nets(&[(&txes[0], WitnessOrd::Tentative), (&txes[1], WitnessOrd::Tentative)]);
        match c.validate(&net, true) {
            Ok(valid) => {
                let n = valid.validation_status().warnings.len();
                sx::check((n > 0) == (odd > 0), "odd consignments are warned of");
                sx::check(saved(&valid.into_consignment()) == saved(&kept), "validation keeps the consignment");
                sx::cover("valid");
            }
            Err(_) => sx::check(false, "odd consignments are valid"),
        }
    }
}
