//! Invoice text, networks, transports and payment addresses.

use std::str::FromStr;

use baid64::DisplayBaid64;
use bp::dbc::Method;
use rgbinvoice::{
    Allocation, Amount, Beneficiary, ChainNet, InvoiceState, NonFungible, Pay2Vout, RgbInvoice, RgbInvoiceBuilder,
    RgbTransport, XChainNet,
};
use rgbinvoice::AddressPayload;
use rgbstd::{AttachId, ContractId, Layer1, SecretSeal};

use crate::sx;

const NETS: [ChainNet; 6] = [
    ChainNet::BitcoinMainnet,
    ChainNet::BitcoinTestnet,
    ChainNet::BitcoinSignet,
    ChainNet::BitcoinRegtest,
    ChainNet::LiquidMainnet,
    ChainNet::LiquidTestnet,
];

const XONLY: [u8; 32] = [
    0x85, 0xa6, 0x42, 0x59, 0x8b, 0xfe, 0x2e, 0x42, 0xa3, 0x78, 0xcb, 0xb5, 0x3b, 0xf1, 0x4a, 0xbe, 0x77, 0xf8, 0x1a,
    0xef, 0xed, 0xf7, 0x3b, 0x66, 0x7b, 0x42, 0x85, 0xaf, 0x7c, 0xf1, 0xc8, 0xa3,
];

fn method() -> Method { if sx::split(sx::bool()) { Method::OpretFirst } else { Method::TapretFirst } }

fn address(kind: usize, b: [u8; 32]) -> AddressPayload {
    let mut h = [0u8; 20];
    h.copy_from_slice(&b[..20]);
    match kind {
        0 => AddressPayload::Pkh(h.into()),
        1 => AddressPayload::Sh(h.into()),
        2 => AddressPayload::Wpkh(h.into()),
        3 => AddressPayload::Wsh(b.into()),
        _ => AddressPayload::Tr(bp::OutputPk::from_byte_array(XONLY).unwrap()),
    }
}

fn printable() -> char {
    let c = sx::u8();
    sx::assume(c >= 0x20 && c < 0x7F);
    c as char
}

/// One printable character, or a two-byte one.
fn any_char() -> char { if sx::choose(2) == 0 { printable() } else { 'é' } }

fn contract() -> ContractId { ContractId::from([0xC7; 32]) }

fn round_trip(inv: &RgbInvoice) {
    let s = inv.to_string();
    let back = RgbInvoice::from_str(&s);
    sx::check(back.is_ok(), "printed invoice is accepted");
    sx::check(back.unwrap() == *inv, "printed invoice parses to the same invoice");
    let short = format!("{inv:#}");
    let back = RgbInvoice::from_str(&short);
    sx::check(back.is_ok(), "short form is accepted");
    sx::check(back.unwrap() == *inv, "short form parses to the same invoice");
}

fn base(b: RgbInvoiceBuilder, shape: usize) -> RgbInvoiceBuilder {
    match shape {
        0 => b,
        1 => b.set_interface("RGB20"),
        _ => b.set_contract(contract()).set_interface("RGB20Fixed"),
    }
}

harness! {
    fn chain_text() {
        let i = sx::choose(6);
        let cn = NETS[i];
        let s = cn.to_string();
        sx::check(ChainNet::from_str(&s).ok() == Some(cn), "network name parses back");
        sx::check(ChainNet::from_str(&s.to_uppercase()).ok() == Some(cn), "upper-case name parses back");
        sx::check((cn.layer1() == Layer1::Liquid) == (i >= 4), "network layer");
        sx::check(cn.is_prod() == (i == 0 || i == 4), "production networks");
        let x = XChainNet::with(cn, 7u8);
        sx::check(x.chain_network() == cn && x.into_inner() == 7, "tagged value keeps its network");
        sx::check(x.layer1() == cn.layer1() && x.is_prod() == cn.is_prod() && x.address_network() == cn.address_network(), "views agree");
        sx::cover("network");
    }

    fn transport_text() {
        let host: String = if sx::thorough() {
            [printable(), printable(), printable(), printable()].into_iter().collect()
        } else {
            [printable(), printable()].into_iter().collect()
        };
        let tls = sx::split(sx::bool());
        let t = match sx::choose(4) {
            0 => RgbTransport::JsonRpc { tls, host },
            1 => RgbTransport::RestHttp { tls, host },
            2 => RgbTransport::WebSockets { tls, host },
            _ => RgbTransport::Storm {},
        };
        sx::check(RgbTransport::from_str(&t.to_string()) == Ok(t), "transport parses back");
        sx::cover("transport");
    }

    fn pay2vout_payload() {
        let m = method();
        let b = sx::bytes::<32>();
        let kind = sx::choose(5);
        let p = Pay2Vout { method: m, address: address(kind, b) };
        let data = p.to_baid64_payload();
        sx::check(Pay2Vout::try_from(data) == Ok(p), "payment data decodes to the same address and method");
        sx::cover("encoded");
    }

    fn pay2vout_decode() {
        let mut data = [0u8; 34];
        data[0] = sx::u8();
        data[1] = sx::u8();
        let hash = sx::bytes::<32>();
        data[2..].copy_from_slice(&hash);
        if data[1] == 5 {
            data[2..].copy_from_slice(&XONLY);
        }
        match Pay2Vout::try_from(data) {
            Ok(p) => {
                let again = p.to_baid64_payload();
                sx::check(again[0] == data[0] && again[1] == data[1], "method and address type kept");
                let n = if data[1] <= 3 { 20 } else { 32 };
                sx::check(again[2..2 + n] == data[2..2 + n], "hash kept");
                sx::cover("decoded");
            }
            Err(_) => {
                sx::check(data[1] == 0 || data[1] > 5 || Method::try_from(data[0]).is_err(), "refused only for unknown tags");
                sx::cover("refused");
            }
        }
    }

    fn beneficiary_text() {
        let cn = NETS[sx::choose(6)];
        let mut b = [0x11u8; 32];
        let sym = sx::bytes::<2>();
        b[..2].copy_from_slice(&sym);
        let ben = match sx::choose(6) {
            5 => Beneficiary::BlindedSeal(SecretSeal::from(b)),
            k => Beneficiary::WitnessVout(Pay2Vout { method: method(), address: address(k, b) }),
        };
        let x = XChainNet::with(cn, ben);
        let back = XChainNet::<Beneficiary>::from_str(&x.to_string());
        sx::check(back.is_ok(), "beneficiary text is accepted");
        sx::check(back.unwrap() == x, "beneficiary text parses back");
        sx::cover("beneficiary");
    }

    fn invoice_state_text() {
        let cn = NETS[sx::choose(6)];
        let b = base(RgbInvoiceBuilder::new(XChainNet::with(cn, Beneficiary::BlindedSeal(SecretSeal::from([0x5A; 32])))), sx::choose(3));
        let mut inv = b.finish();
        match sx::choose(4) {
            0 => sx::cover("no state"),
            1 => {
                inv.owned_state = InvoiceState::Amount(Amount::from(sx::u64()));
                sx::cover("amount");
            }
            2 => {
                let (i, f) = (sx::u32(), sx::u64());
                sx::assume(i < 100 && f < 1000);
                inv.owned_state = InvoiceState::Data(NonFungible::RGB21(Allocation::with(i, f)));
                sx::cover("allocation");
            }
            _ => {
                let mut id = [0x77u8; 32];
                id[0] = sx::u8();
                inv.owned_state = InvoiceState::Attach(AttachId::from(id));
                sx::cover("attachment");
            }
        }
        round_trip(&inv);
    }

    fn invoice_query_text() {
        let b = base(RgbInvoiceBuilder::new(XChainNet::with(ChainNet::BitcoinMainnet, Beneficiary::BlindedSeal(SecretSeal::from([0x5A; 32])))), sx::choose(2));
        // one place at a time holds an arbitrary character
        let spot = sx::choose(4);
        let b = match sx::choose(4) {
            0 => b,
            1 => {
                let c = if spot == 1 { any_char() } else { 'h' };
                // the separator of the endpoint list cannot be part of a host
                sx::assume(c != ',');
                b.add_transport(&format!("rpc://{c}x")).unwrap()
            }
            2 => b.add_transports(["https://a.b:1", "wss://[::1]:80/p?q=1&r#f"]).unwrap(),
            _ => b.add_transports_raw([]),
        };
        let b = match sx::choose(3) {
            0 => b,
            1 => b.set_expiry_timestamp([-1, i64::MIN, i64::MAX, u32::MAX as i64 + 1][sx::choose(4)]),
            _ => {
                let t = if spot == 0 { sx::u16() as i64 } else { 7 };
                sx::assume(t < 100);
                b.set_expiry_timestamp(t)
            }
        };
        let mut inv = b.finish();
        if sx::choose(2) == 1 {
            let k: String = [if spot == 2 { any_char() } else { 'k' }].into_iter().collect();
            let v: String = [if spot == 3 { any_char() } else { 'v' }, 'z'].into_iter().collect();
            inv.unknown_query.insert(k, v);
            inv.unknown_query.insert("second".into(), "".into());
            sx::cover("custom parameters");
        }
        round_trip(&inv);
        sx::cover("query");
    }

    fn invoice_parse_mutated() {
        let mut inv = base(RgbInvoiceBuilder::new(XChainNet::with(ChainNet::BitcoinTestnet, Beneficiary::BlindedSeal(SecretSeal::from([0x5A; 32])))), 2).set_expiry_timestamp(12).add_transport("rpc://host").unwrap().set_amount_raw(100u64).finish();
        inv.unknown_query.insert("k".into(), "v".into());
        let mut s = inv.to_string().into_bytes();
        let at = sx::choose(s.len());
        // identifiers change the checksum or decode to another identifier
        let c = sx::u8();
        sx::assume(c < 0x80);
        s[at] = c;
        match RgbInvoice::from_str(std::str::from_utf8(&s).unwrap()) {
            Ok(inv) => {
                round_trip(&inv);
                sx::cover("accepted");
            }
            Err(_) => sx::cover("rejected"),
        }
    }

    fn invoice_names_text() {
        let b = base(RgbInvoiceBuilder::new(XChainNet::with(ChainNet::BitcoinMainnet, Beneficiary::BlindedSeal(SecretSeal::from([0x5A; 32])))), 2);
        let (op, asg) = (sx::choose(2), sx::choose(2));
        let b = if op == 1 { b.set_operation("transfer") } else { b };
        let b = if asg == 1 { b.set_assignment("assetOwner") } else { b };
        let inv = b.finish();
        let back = RgbInvoice::from_str(&inv.to_string());
        sx::check_known(back.ok() == Some(inv), "operation and assignment names parse back", "invoice-names", op + asg > 0);
        sx::cover("names");
    }

    fn invoice_parse_tail() {
        // text after the scheme, from characters with a role in the grammar
        let n = sx::choose(if sx::thorough() { 6 } else { 5 });
        let mut s = String::from(["rgb:", "rgb:~/~/", "rgb:~/~/bc:"][sx::choose(3)]);
        for _ in 0..n {
            let c = sx::u8();
            sx::assume(c < 0x80);
            s.push(c as char);
        }
        match RgbInvoice::from_str(&s) {
            Ok(inv) => {
                round_trip(&inv);
            }
            Err(_) => sx::cover("rejected"),
        }
    }

    fn invoice_parse_query() {
        let n = sx::choose(if sx::thorough() { 6 } else { 5 });
        let valid = RgbInvoiceBuilder::new(XChainNet::with(ChainNet::BitcoinMainnet, Beneficiary::BlindedSeal(SecretSeal::from([0x5A; 32])))).finish().to_string();
        let mut s = format!("{valid}?{}", ["", "expiry=", "endpoints=rpc://a"][sx::choose(3)]);
        for _ in 0..n {
            let c = sx::u8();
            sx::assume(c < 0x80);
            s.push(c as char);
        }
        match RgbInvoice::from_str(&s) {
            Ok(inv) => {
                round_trip(&inv);
                sx::cover("accepted");
            }
            Err(_) => sx::cover("rejected"),
        }
    }
}
