//! Amounts, precision and their text forms.

use std::str::FromStr;

use rgbinvoice::{Allocation, Amount, CoinAmount, OwnedFraction, Precision, RgbInvoiceBuilder};
use rgbinvoice::{Beneficiary, ChainNet, InvoiceState, XChainNet};
use rgbstd::SecretSeal;

use crate::sx;

pub const PREC: [Precision; 19] = [
    Precision::Indivisible,
    Precision::Deci,
    Precision::Centi,
    Precision::Milli,
    Precision::DeciMilli,
    Precision::CentiMilli,
    Precision::Micro,
    Precision::DeciMicro,
    Precision::CentiMicro,
    Precision::Nano,
    Precision::DeciNano,
    Precision::CentiNano,
    Precision::Pico,
    Precision::DeciPico,
    Precision::CentiPico,
    Precision::Femto,
    Precision::DeciFemto,
    Precision::CentiFemto,
    Precision::Atto,
];

fn pow10(p: usize) -> u64 {
    let mut m = 1u64;
    for _ in 0..p {
        m *= 10;
    }
    m
}

pub fn beneficiary() -> XChainNet<Beneficiary> {
    XChainNet::with(ChainNet::BitcoinMainnet, Beneficiary::BlindedSeal(SecretSeal::from([0x5A; 32])))
}

/// Text of at most `N` characters from `alphabet`, every string explored.
fn text<const N: usize>(alphabet: &[u8]) -> String {
    let n = sx::choose(N + 1);
    let mut s = String::new();
    for _ in 0..n {
        let c = sx::u8();
        let mut ok = false;
        for a in alphabet {
            ok |= c == *a;
        }
        sx::assume(ok);
        s.push(c as char);
    }
    s
}

harness! {
    fn amount_split() {
        let x = sx::u64();
        let k = sx::choose(19);
        let p = PREC[k];
        let a = Amount::from(x);
        let m = pow10(k);
        let (i, f) = a.split(p);
        sx::check(f < m, "fraction below one unit");
        sx::check(i.checked_mul(m).and_then(|v| v.checked_add(f)) == Some(x), "split recombines");
        sx::check(a.floor(p) == i && a.rem(p) == f, "floor and remainder agree with split");
        sx::check(a.ceil(p) == i + (f > 0) as u64, "ceiling rounds up");
        sx::check(a.round(p) == i + (f >= m - m / 2) as u64, "rounding goes to the nearest unit");
        sx::check(p.multiplier() == m && p.decimals() as usize == k, "unit matches decimals");
        let c = CoinAmount::new(a, p);
        sx::check(c.int() == i && c.fract() == f && c.precision() == p, "coins keep both parts");
        sx::cover("split");
    }

    fn amount_add() {
        let (x, y) = (sx::u64(), sx::u64());
        let a = Amount::from(x);
        let mut m = a;
        let mut s = a;
        s.saturating_add_assign(y);
        let exact = x as u128 + y as u128;
        let ok = m.checked_add_assign(y);
        match a.checked_add(Amount::from(y)) {
            Some(v) => {
                sx::check(v.value() as u128 == exact, "checked sum is exact");
                sx::check(ok == Some(()) && m == v && s == v && a.saturating_add(y) == v, "sum forms agree");
                sx::cover("sum fits");
            }
            None => {
                sx::check(exact > u64::MAX as u128, "sum refused only on overflow");
                sx::check(ok.is_none() && m == a, "refused sum leaves the amount");
                sx::check(s.value() == u64::MAX && a.saturating_add(y) == s, "saturates at the maximum");
                sx::cover("sum overflows");
            }
        }
        let total: Amount = [x, y].into_iter().sum();
        let total2: Amount = [Amount::from(x), Amount::from(y)].into_iter().sum();
        sx::check(total == s && total2 == s, "iterator sum saturates");
    }

    fn amount_sub() {
        let (x, y) = (sx::u64(), sx::u64());
        let a = Amount::from(x);
        let mut m = a;
        let mut s = a;
        s.saturating_sub_assign(y);
        let ok = m.checked_sub_assign(y);
        match a.checked_sub(Amount::from(y)) {
            Some(v) => {
                sx::check(v.value() as u128 + y as u128 == x as u128, "checked difference is exact");
                sx::check(ok == Some(()) && m == v && s == v && a.saturating_sub(y) == v, "difference forms agree");
                sx::cover("difference fits");
            }
            None => {
                sx::check(y > x, "difference refused only below zero");
                sx::check(ok.is_none() && m == a, "refused difference leaves the amount");
                sx::check(s == Amount::ZERO && a.saturating_sub(y) == s, "saturates at zero");
                sx::cover("difference underflows");
            }
        }
    }

    fn fraction_arith() {
        let (x, y) = (sx::u64(), sx::u64());
        let a = OwnedFraction::from(x);
        let (mut p, mut q, mut r, mut s) = (a, a, a, a);
        let (okp, okq) = (p.checked_add_assign(y), q.checked_sub_assign(y));
        r.saturating_add_assign(y);
        s.saturating_sub_assign(y);
        match a.checked_add(y) {
            Some(v) => {
                sx::check(v.value() as u128 == x as u128 + y as u128, "fraction sum exact");
                sx::check(okp.is_some() && p == v && r == v && a.saturating_add(y) == v, "fraction sums agree");
                sx::cover("fraction sum fits");
            }
            None => {
                sx::check(x as u128 + y as u128 > u64::MAX as u128, "fraction sum refused only on overflow");
                sx::check(okp.is_none() && p == a && r.value() == u64::MAX && a.saturating_add(y) == r, "fraction sum saturates");
                sx::cover("fraction sum overflows");
            }
        }
        match a.checked_sub(y) {
            Some(v) => {
                sx::check(v.value() as u128 + y as u128 == x as u128, "fraction difference exact");
                sx::check(okq.is_some() && q == v && s == v && a.saturating_sub(y) == v, "fraction differences agree");
                sx::cover("fraction difference fits");
            }
            None => {
                sx::check(y > x && okq.is_none() && q == a && s == OwnedFraction::ZERO && a.saturating_sub(y) == s, "fraction difference saturates");
                sx::cover("fraction difference underflows");
            }
        }
    }

    fn amount_convert() {
        let x = sx::u64();
        let k = sx::choose(19);
        let p = PREC[k];
        let exact = x as u128 * pow10(k) as u128;
        match p.checked_convert(x) {
            Some(v) => {
                sx::check(v.value() as u128 == exact, "converted exactly");
                sx::check(p.saturating_convert(x) == v && Amount::with_precision_checked(x, p) == Some(v), "conversions agree");
                sx::check(Amount::with_precision(x, p) == v, "unchecked conversion agrees");
                sx::cover("conversion fits");
            }
            None => {
                sx::check(exact > u64::MAX as u128, "conversion refused only on overflow");
                sx::check(p.saturating_convert(x).value() == u64::MAX, "conversion saturates");
                sx::check(Amount::with_precision_checked(x, p).is_none(), "both checked conversions refuse");
                sx::cover("conversion overflows");
            }
        }
    }

    fn invoice_amount() {
        let (int, fract) = (sx::u64(), sx::u64());
        let k = sx::choose(19);
        let exact = int as u128 * pow10(k) as u128 + fract as u128;
        let b = RgbInvoiceBuilder::new(beneficiary());
        match b.clone().set_amount(int, fract, PREC[k]) {
            Ok(b) => {
                let inv = b.finish();
                sx::check(fract < pow10(k), "fraction fits the precision");
                match inv.owned_state {
                    InvoiceState::Amount(a) => sx::check(a.value() as u128 == exact, "invoice asks for the stated amount"),
                    _ => sx::check(false, "invoice carries an amount"),
                }
                sx::cover("amount set");
            }
            Err(same) => {
                sx::check(fract >= pow10(k) || exact > u64::MAX as u128, "refused only when not representable");
                sx::check(same == b, "refusal leaves the invoice");
                sx::cover("amount refused");
            }
        }
    }

    fn amount_text() {
        let x = sx::u64();
        let a = Amount::from(x);
        let s = a.to_string();
        sx::check(Amount::from_str(&s) == Ok(a), "amount text parses back");
        sx::cover("printed");
    }

    fn allocation_text() {
        let (mut i, mut f) = (sx::u32(), sx::u64());
        sx::assume(i < if sx::thorough() { 1000 } else { 100 });
        sx::assume(f < if sx::thorough() { 10_000 } else { 1000 });
        match sx::choose(3) {
            0 => {}
            1 => i = u32::MAX - i,
            _ => f = u64::MAX - f,
        }
        let a = Allocation::with(i, f);
        let s = a.to_string();
        let b = Allocation::from_str(&s);
        sx::check(b == Ok(a), "allocation text parses back");
        sx::check(b.map(|b| (b.token_index().into(), b.fraction().value())) == Ok((i, f)), "parts stay in place");
        sx::cover("printed");
    }

    fn coin_text() {
        let k = sx::choose(if sx::thorough() { 5 } else { 4 });
        let int = sx::u64();
        let fract = sx::u64();
        sx::assume(int < if sx::thorough() { 100 } else { 20 });
        sx::assume(fract < pow10(k));
        let c = CoinAmount::with(int, fract, PREC[k]).unwrap();
        let s = c.to_string();
        sx::check(CoinAmount::from_str(&s) == Ok(c), "coin amount text parses back");
        sx::cover("printed");
        if fract > 0 {
            sx::cover("with fraction");
        } else {
            sx::cover("without fraction");
        }
    }

    fn coin_text_wide() {
        // every precision, the decimal point anywhere
        let k = sx::choose(19);
        let d = sx::u64();
        sx::assume(d < 10);
        let at = sx::choose(k + 1);
        let fract = if at < k { d * pow10(at) } else { 0 };
        let c = CoinAmount::with(7, fract, PREC[k]).unwrap();
        let s = c.to_string();
        sx::check(CoinAmount::from_str(&s) == Ok(c), "coin amount text parses back");
        let pretty = format!("{c:#}");
        sx::check(CoinAmount::from_str(&pretty).map(|x| (x.int(), x.fract())) == Ok((7, fract)), "grouped text parses back");
        sx::cover("printed");
    }

    fn coin_parse() {
        let s = if sx::thorough() { text::<7>(b"0159.~_") } else { text::<5>(b"019.~_") };
        match CoinAmount::from_str(&s) {
            Ok(c) => {
                sx::check(c.fract() < pow10(c.precision().decimals() as usize), "parsed fraction fits the precision");
                let again = CoinAmount::from_str(&c.to_string());
                sx::check(again == Ok(c), "parsed amount prints and parses back");
                let _ = format!("{c:#}");
                sx::cover("accepted");
            }
            Err(_) => sx::cover("rejected"),
        }
    }

    fn amount_parse() {
        let s = text::<4>(b"aBbZF1-");
        match Amount::from_str(&s) {
            Ok(a) => {
                sx::check(Amount::from_str(&a.to_string()) == Ok(a), "accepted amount prints and parses back");
                sx::cover("accepted");
            }
            Err(_) => sx::cover("rejected"),
        }
        let _ = Allocation::from_str(&s);
    }
}
