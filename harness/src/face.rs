//! Interfaces: consistency checks, implementations and inheritance.

use amplify::confinement::{TinyOrdMap, TinyOrdSet};
use rgbstd::interface::{
    AssignIface, CheckInheritance, ExtensionError, ExtensionIface, GenesisIface, GlobalIface, Iface, IfaceImpl,
    IfaceInconsistency, Modifier, NamedField, NamedVariant, OpName, OwnedIface, Req, TransitionIface,
    ValencyIface,
};
use rgbstd::{
    AssignmentType, ExtensionType, GlobalStateType, MetaType, Occurrences, Schema, TransitionType, ValencyType,
};
use strict_encoding::{tn, vname, FieldName, VariantName};

use crate::sx;
use crate::world::*;

/// Any number of allowed repetitions, with the smallest one.
fn any_occ() -> (Occurrences, u16) {
    let n = sx::u16();
    match sx::choose(4) {
        0 => (Occurrences::Exactly(n), n),
        1 => (Occurrences::OnceOrUpTo(n), 1),
        2 => (Occurrences::NoneOrUpTo(n), 0),
        _ => {
            let m = sx::u16();
            sx::assume(n <= m);
            (Occurrences::Range(n..=m), n)
        }
    }
}

fn set<T: Ord>(items: impl IntoIterator<Item = T>) -> TinyOrdSet<T> { TinyOrdSet::from_iter_checked(items) }

fn map<K: Ord + std::hash::Hash, V>(items: impl IntoIterator<Item = (K, V)>) -> TinyOrdMap<K, V> { TinyOrdMap::from_iter_checked(items) }

/// An interface with one of each kind of definitions; each name starts with the prefix.
#[derive(Clone)]
struct Part {
    meta: FieldName,
    global: FieldName,
    owned: FieldName,
    valency: FieldName,
    transition: FieldName,
    extension: FieldName,
    error: VariantName,
}

fn first() -> Part {
    Part {
        meta: fname("fMeta"),
        global: fname("fGlobal"),
        owned: fname("fOwned"),
        valency: fname("fValency"),
        transition: fname("fMove"),
        extension: fname("fExtend"),
        error: vname!("firstError"),
    }
}

fn second() -> Part {
    Part {
        meta: fname("sMeta"),
        global: fname("sGlobal"),
        owned: fname("sOwned"),
        valency: fname("sValency"),
        transition: fname("sMove"),
        extension: fname("sExtend"),
        error: vname!("secondError"),
    }
}

/// An interface of a part; `without` leaves out one kind of definitions.
fn face(p: &Part, name: &'static str, modifier: Modifier, without: usize) -> Iface {
    let any = || Occurrences::NoneOrMore;
    let has = |n: usize| without != n;
    let metas = || set(has(0).then(|| p.meta.clone()));
    let globals = || map(has(1).then(|| (p.global.clone(), any())));
    let owned = || map(has(2).then(|| (p.owned.clone(), any())));
    let valencies = || set(has(3).then(|| p.valency.clone()));
    let errors = || set(has(6).then(|| p.error.clone()));
    Iface {
        name: tn!(name),
        metadata: map(has(0).then(|| (p.meta.clone(), u64_ty()))),
        global_state: map(has(1).then(|| (p.global.clone(), GlobalIface::none_or_many(u64_ty())))),
        assignments: map(has(2).then(|| (p.owned.clone(), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)))),
        valencies: map(has(3).then(|| (p.valency.clone(), ValencyIface { required: false }))),
        genesis: GenesisIface {
            modifier,
            metadata: metas(),
            globals: globals(),
            assignments: owned(),
            valencies: valencies(),
            errors: errors(),
        },
        transitions: map(has(4).then(|| (p.transition.clone(), TransitionIface {
            modifier,
            optional: false,
            metadata: metas(),
            globals: globals(),
            inputs: owned(),
            assignments: owned(),
            valencies: valencies(),
            errors: errors(),
            default_assignment: has(2).then(|| p.owned.clone()),
        }))),
        extensions: map(has(5).then(|| (p.extension.clone(), ExtensionIface {
            modifier,
            optional: false,
            metadata: metas(),
            globals: globals(),
            assignments: owned(),
            redeems: valencies(),
            valencies: valencies(),
            errors: errors(),
            default_assignment: has(2).then(|| p.owned.clone()),
        }))),
        default_operation: None,
        errors: map(has(6).then(|| (p.error.clone(), Default::default()))),
        ..iface()
    }
}

/// An implementation giving every name of the interface a type of the schema.
fn implement(schema: &Schema, iface: &Iface) -> IfaceImpl {
    fn fields<T: rgbstd::interface::SchemaTypeIndex, V>(from: &TinyOrdMap<FieldName, V>, mut ty: impl FnMut(u16) -> T) -> TinyOrdSet<NamedField<T>> {
        set(from.keys().enumerate().map(|(n, name)| NamedField::with(ty(n as u16), name.clone())))
    }
    IfaceImpl {
        iface_id: iface.iface_id(),
        metadata: fields(&iface.metadata, |n| MetaType::with(1000 + n)),
        global_state: fields(&iface.global_state, |n| GlobalStateType::with(2000 + n)),
        assignments: fields(&iface.assignments, |n| AssignmentType::with(4000 + n)),
        valencies: fields(&iface.valencies, |n| ValencyType::with(5000 + n)),
        transitions: fields(&iface.transitions, |n| TransitionType::with(10000 + n)),
        extensions: fields(&iface.extensions, |n| ExtensionType::with(11000 + n)),
        errors: set(iface.errors.keys().enumerate().map(|(n, name)| NamedVariant::with(n as u8, name.clone()))),
        ..iimpl(schema, &crate::world::iface())
    }
}

/// The schema of the world with two types of each kind.
fn wide_schema() -> Schema {
    let mut s = schema();
    s.meta_types.insert(MetaType::with(1001), u64_ty()).unwrap();
    s.valency_types.push(ValencyType::with(5001)).unwrap();
    let t = s.transitions[&TRANSFER].clone();
    s.transitions.insert(TransitionType::with(10001), t).unwrap();
    let e = s.extensions[&EXTEND].clone();
    s.extensions.insert(ExtensionType::with(11001), e).unwrap();
    s
}

harness! {
    /// An interface is consistent if and only if its operations use what it defines.
    fn iface_names() {
        let mut f = iface();
        f.errors = map([(vname!("fine"), Default::default())]);
        sx::check(f.check().is_ok(), "a consistent interface passes");
        let known = sx::choose(2) == 0;
        let multiple = sx::bool();
        let (t, e) = (fname("transfer"), fname("extend"));
        let place = sx::choose(3);
        let op = match place {
            0 => OpName::Genesis,
            1 => OpName::Transition(t.clone()),
            _ => OpName::Extension(e.clone()),
        };
        let pick = |n: &'static str| if known { fname(n) } else { fname("nope") };
        // The first three fields stand under the same names in each kind of operation.
        macro_rules! in_op {
            ($field:ident . $f:ident ( $($arg:expr),* )) => {
                match place {
                    0 => { f.genesis.$field.$f($($arg),*).unwrap(); }
                    1 => { f.transitions.get_mut(&t).unwrap().$field.$f($($arg),*).unwrap(); }
                    _ => { f.extensions.get_mut(&e).unwrap().$field.$f($($arg),*).unwrap(); }
                }
            };
        }
        use IfaceInconsistency as E;
        let expected = match sx::choose(7) {
            0 => {
                let name = pick("meta");
                in_op!(metadata.push(name.clone()));
                (!known).then(|| E::UnknownMetadata(op, name))
            }
            1 => {
                let name = pick("many");
                f.global_state.get_mut(&fname("many")).unwrap().multiple = multiple;
                let (occ, min) = any_occ();
                in_op!(globals.insert(name.clone(), occ.clone()));
                if !known {
                    Some(E::UnknownGlobal(op, name))
                } else if min > 1 && !multiple {
                    sx::cover("repeated state");
                    Some(E::MultipleGlobal(op, name))
                } else {
                    None
                }
            }
            2 => {
                let name = pick("asset");
                f.assignments.get_mut(&fname("asset")).unwrap().multiple = multiple;
                let (occ, min) = any_occ();
                in_op!(assignments.insert(name.clone(), occ.clone()));
                if !known {
                    Some(E::UnknownAssignment(op, name))
                } else if min > 1 && !multiple {
                    Some(E::MultipleAssignment(op, name))
                } else {
                    None
                }
            }
            3 => {
                let name = pick("valency");
                in_op!(valencies.push(name.clone()));
                (!known).then(|| E::UnknownValency(op, name))
            }
            4 => {
                let name = if known { vname!("fine") } else { vname!("nope") };
                in_op!(errors.push(name.clone()));
                (!known).then(|| E::UnknownError(op, name))
            }
            5 => match place {
                0 => None,
                1 => {
                    let name = pick("asset");
                    f.assignments.get_mut(&fname("asset")).unwrap().multiple = multiple;
                    let (occ, min) = any_occ();
                    f.transitions.get_mut(&t).unwrap().inputs.insert(name.clone(), occ).unwrap();
                    if !known {
                        Some(E::UnknownInput(op, name))
                    } else if min > 1 && !multiple {
                        Some(E::MultipleInputs(op, name))
                    } else {
                        None
                    }
                }
                _ => {
                    let name = pick("valency");
                    f.extensions.get_mut(&e).unwrap().redeems.push(name.clone()).unwrap();
                    (!known).then(|| E::UnknownRedeem(op, name))
                }
            },
            _ => {
                let name = pick("second");
                match place {
                    0 => None,
                    1 => {
                        f.transitions.get_mut(&t).unwrap().default_assignment = Some(name.clone());
                        (!known).then(|| E::UnknownDefaultAssignment(op, name))
                    }
                    _ => {
                        f.extensions.get_mut(&e).unwrap().default_assignment = Some(name.clone());
                        (!known).then(|| E::UnknownDefaultAssignment(op, name))
                    }
                }
            }
        };
        match expected {
            None => {
                sx::check(f.check().is_ok(), "an interface whose operations use known names passes");
                sx::cover("consistent");
            }
            Some(err) => {
                sx::check(f.check() == Err(vec![err]), "the wrong name in an operation is told");
                sx::cover("inconsistent");
            }
        }
    }

    /// State which every contract must have is part of genesis; operations have distinct names.
    fn iface_required() {
        let mut f = iface();
        let (g, a, v) = (sx::bool(), sx::bool(), sx::bool());
        f.global_state.get_mut(&fname("once")).unwrap().required = g;
        f.assignments.get_mut(&fname("asset")).unwrap().required = a;
        f.valencies.get_mut(&fname("valency")).unwrap().required = v;
        let mut expected = vec![];
        use IfaceInconsistency as E;
        let dropped = sx::choose(4);
        if sx::choose(2) == 1 {
            let e = f.extensions[&fname("extend")].clone();
            f.extensions.insert(fname("transfer"), e).unwrap();
            expected.push(E::RepeatedOperationName(fname("transfer")));
        }
        f.default_operation = [None, Some(fname("transfer")), Some(fname("extend")), Some(fname("nope"))][sx::choose(4)].clone();
        if f.default_operation == Some(fname("nope")) {
            expected.push(E::UnknownDefaultOp(fname("nope")));
        }
        match dropped {
            1 => {
                f.genesis.globals.remove(&fname("once")).unwrap();
                if g {
                    expected.push(E::RequiredGlobalAbsent(fname("once")));
                }
            }
            2 => {
                f.genesis.assignments.remove(&fname("asset")).unwrap();
                if a {
                    expected.push(E::RequiredAssignmentAbsent(fname("asset")));
                }
            }
            3 => {
                f.genesis.valencies.remove(&fname("valency")).unwrap();
                if v {
                    expected.push(E::RequiredValencyAbsent(fname("valency")));
                }
            }
            _ => {}
        }
        if expected.is_empty() {
            sx::check(f.check().is_ok(), "an interface with all required state in genesis passes");
            sx::cover("complete");
        } else {
            sx::check(f.check() == Err(expected), "required state missing from genesis is told");
            sx::cover("incomplete");
        }
    }

    /// An implementation covers every name of the interface once, with types the schema has.
    fn impl_types() {
        let (s, f) = (schema(), iface());
        let mut i = iimpl(&s, &f);
        sx::check(i.check(&f, &s).is_ok(), "a complete implementation passes");
        let no = sx::u16();
        macro_rules! kind {
            ($field:ident, $ty:ident, $first:expr, $name:literal, $has:expr, $optional:expr) => {{
                let name = fname($name);
                let id = $ty::with(no);
                match sx::choose(3) {
                    // the name is not implemented
                    0 => {
                        i.$field.remove(&NamedField::with($first, name.clone())).unwrap();
                        !$optional
                    }
                    // another name with any type
                    1 => {
                        i.$field.push(NamedField::with(id, fname("another"))).unwrap();
                        !$has(&id)
                    }
                    // the same name with two types
                    _ => {
                        sx::assume(id != $first && $has(&id));
                        i.$field.push(NamedField::with(id, name.clone())).unwrap();
                        sx::cover("repeated name");
                        true
                    }
                }
            }};
        }
        let s = wide_schema();
        let mut f = f;
        f.transitions.get_mut(&fname("transfer")).unwrap().optional = sx::bool();
        f.extensions.get_mut(&fname("extend")).unwrap().optional = sx::bool();
        let (t_opt, e_opt) = (f.transitions[&fname("transfer")].optional, f.extensions[&fname("extend")].optional);
        let expected = match sx::choose(6) {
            0 => kind!(metadata, MetaType, META, "meta", |t| s.meta_types.contains_key(t), false),
            1 => kind!(global_state, GlobalStateType, ONCE, "once", |t| s.global_types.contains_key(t), false),
            2 => kind!(assignments, AssignmentType, FUNGIBLE, "asset", |t| s.owned_types.contains_key(t), false),
            3 => kind!(valencies, ValencyType, VALENCY, "valency", |t| s.valency_types.contains(t), false),
            4 => kind!(transitions, TransitionType, TRANSFER, "transfer", |t| s.transitions.contains_key(t), t_opt),
            _ => kind!(extensions, ExtensionType, EXTEND, "extend", |t| s.extensions.contains_key(t), e_opt),
        };
        match i.check(&f, &s) {
            Ok(()) => {
                sx::check(!expected, "an implementation with missing, unknown or repeated names is refused");
                sx::cover("passes");
            }
            Err(e) => {
                sx::check(expected, "an implementation with more names passes");
                sx::check(e.len() == 1, "what is wrong with an implementation is told once");
                sx::cover("refused");
            }
        }
    }

    /// Names and types of an implementation are found from each other.
    fn impl_names() {
        let (s, f) = (schema(), iface());
        let i = iimpl(&s, &f);
        let no = sx::u16();
        macro_rules! kind {
            ($name_of:ident, $type_of:ident, $ty:ident, [$($name:literal => $id:expr),*]) => {{
                let id = $ty::with(no);
                let mut expected = None;
                $(
                    sx::check(i.$type_of(&fname($name)) == Some($id), "the type of a name is found");
                    if id == $id {
                        expected = Some(fname($name));
                    }
                )*
                sx::check(i.$name_of(id) == expected.as_ref(), "the name of a type is found");
                let nope = fname("nope");
                sx::check(i.$type_of(&nope).is_none(), "an unknown name has no type");
            }};
        }
        kind!(meta_name, meta_type, MetaType, ["meta" => META]);
        kind!(global_name, global_type, GlobalStateType, ["once" => ONCE, "many" => MANY]);
        kind!(assignment_name, assignments_type, AssignmentType,
            ["asset" => FUNGIBLE, "right" => RIGHT, "item" => DATA, "file" => ATTACH, "second" => FUNGIBLE2]);
        kind!(valency_name, valency_type, ValencyType, ["valency" => VALENCY]);
        kind!(transition_name, transition_type, TransitionType, ["transfer" => TRANSFER]);
        kind!(extension_name, extension_type, ExtensionType, ["extend" => EXTEND]);
        sx::cover("names");
    }

    /// An implementation of an extended interface also implements the interfaces it extends.
    fn impl_abstracted() {
        let (one, two) = (sx::choose(8), sx::choose(8));
        let parent = face(&first(), "First", Modifier::Abstract, one);
        let mut ext = face(&second(), "Second", Modifier::Override, two);
        if one == 7 && sx::choose(2) == 1 {
            for t in ext.transitions.values_mut() {
                t.optional = true;
            }
            for e in ext.extensions.values_mut() {
                e.optional = true;
            }
            sx::cover("optional");
        }
        let base = parent.clone().extended(ext.clone(), "Both");
        sx::check(base.is_ok(), "interfaces with different names extend each other");
        let base = base.unwrap();
        sx::check(base.check().is_ok(), "the extended interface is consistent");
        let s = wide_schema();
        let i = implement(&s, &base);
        sx::check(i.check(&base, &s).is_ok(), "the implementation is complete");
        let of = if sx::choose(2) == 0 { &parent } else { &ext };
        let a = i.clone().abstracted(&base, of);
        sx::check(a.is_some(), "an implementation is abstracted to a parent interface");
        let a = a.unwrap();
        sx::check(a.iface_id == of.iface_id() && a.schema_id == i.schema_id, "it implements the parent interface for the same schema");
        sx::check(a.check(of, &s).is_ok(), "it implements everything the parent interface has");
        let same = of.metadata.keys().all(|n| a.meta_type(n) == i.meta_type(n))
            && of.global_state.keys().all(|n| a.global_type(n) == i.global_type(n))
            && of.assignments.keys().all(|n| a.assignments_type(n) == i.assignments_type(n))
            && of.valencies.keys().all(|n| a.valency_type(n) == i.valency_type(n))
            && of.transitions.keys().all(|n| a.transition_type(n) == i.transition_type(n))
            && of.extensions.keys().all(|n| a.extension_type(n) == i.extension_type(n));
        sx::check(same, "names keep their types");
        sx::check(
            a.metadata.len() == of.metadata.len()
                && a.global_state.len() == of.global_state.len()
                && a.assignments.len() == of.assignments.len()
                && a.valencies.len() == of.valencies.len()
                && a.transitions.iter().all(|t| of.transitions.contains_key(&t.name))
                && a.extensions.iter().all(|e| of.extensions.contains_key(&e.name)),
            "it has no names which the parent interface has not",
        );
        sx::check(i.abstracted(&base, &iface()).is_none(), "an implementation is not abstracted to an unrelated interface");
        sx::cover("abstracted");
    }

    /// Extending an interface redefines state only to something which satisfies the original definition.
    fn iface_extended() {
        let mut a = face(&first(), "First", Modifier::Abstract, 9);
        let mut b = face(&second(), "Second", Modifier::Override, 9);
        let p = first();
        let mut expected = vec![];
        use ExtensionError as E;
        let (r1, r2) = (sx::bool(), sx::bool());
        match sx::choose(7) {
            0 => {
                let types = [None, Some(u64_ty()), Some(item_ty())];
                let (t1, t2) = (sx::choose(3), sx::choose(3));
                let g = |t: usize, required| GlobalIface { sem_id: types[t], required, multiple: true };
                a.global_state.insert(p.global.clone(), g(t1, r1)).unwrap();
                b.global_state.insert(p.global.clone(), g(t2, r2)).unwrap();
                if t1 != 0 && t1 != t2 {
                    expected.push(E::GlobalType(p.global.clone()));
                } else if r1 && !r2 {
                    expected.push(E::GlobalOcc(p.global.clone()));
                }
            }
            1 => {
                use OwnedIface::*;
                let kinds = [Any, Amount, AnyData, Data(u64_ty()), Data(item_ty()), Rights, AnyAttach];
                let n = if sx::thorough() { 7 } else { 5 };
                let (k1, k2) = (sx::choose(n), sx::choose(n));
                let (p1, p2) = (sx::bool(), sx::bool());
                let o = |k: usize, public, required| AssignIface { owned_state: kinds[k], public, required, multiple: true };
                a.assignments.insert(p.owned.clone(), o(k1, p1, r1)).unwrap();
                b.assignments.insert(p.owned.clone(), o(k2, p2, r2)).unwrap();
                if !(k1 == 0 || k1 == k2 || k1 == 2 && (k2 == 3 || k2 == 4)) {
                    expected.push(E::AssignmentType(p.owned.clone()));
                } else if r1 && !r2 {
                    expected.push(E::AssignmentOcc(p.owned.clone()));
                } else if p1 && !p2 {
                    expected.push(E::AssignmentPublic(p.owned.clone()));
                }
            }
            2 => {
                a.valencies.insert(p.valency.clone(), ValencyIface { required: r1 }).unwrap();
                b.valencies.insert(p.valency.clone(), ValencyIface { required: r2 }).unwrap();
                if r1 && !r2 {
                    expected.push(E::ValencyOcc(p.valency.clone()));
                }
            }
            3 => {
                // the same operation in both; repetitions may become more, not less
                let name = p.transition.clone();
                let (o1, m1) = any_occ();
                let (o2, m2) = any_occ();
                let mut t = a.transitions[&name].clone();
                t.modifier = Modifier::Final;
                let what = match sx::choose(3) {
                    0 => {
                        a.transitions.get_mut(&name).unwrap().globals.insert(p.global.clone(), o1).unwrap();
                        t.globals.insert(p.global.clone(), o2).unwrap();
                        ("global", p.global.clone())
                    }
                    1 => {
                        a.transitions.get_mut(&name).unwrap().assignments.insert(p.owned.clone(), o1).unwrap();
                        t.assignments.insert(p.owned.clone(), o2).unwrap();
                        ("assignment", p.owned.clone())
                    }
                    _ => {
                        a.transitions.get_mut(&name).unwrap().inputs.insert(p.owned.clone(), o1).unwrap();
                        t.inputs.insert(p.owned.clone(), o2).unwrap();
                        ("input", p.owned.clone())
                    }
                };
                b.transitions.insert(name.clone(), t).unwrap();
                if m1 > m2 {
                    expected.push(E::OpOcc(OpName::Transition(name), what.0, what.1));
                }
            }
            4 => {
                // what is final can't be redefined
                use Modifier::*;
                let all = [Abstract, Override, Final];
                let (m1, m2) = (all[sx::choose(3)], all[sx::choose(3)]);
                let op = match sx::choose(2) {
                    0 => {
                        a.genesis.modifier = m1;
                        b.genesis.modifier = m2;
                        OpName::Genesis
                    }
                    _ => {
                        let name = p.transition.clone();
                        let mut t = a.transitions[&name].clone();
                        t.modifier = m2;
                        a.transitions.get_mut(&name).unwrap().modifier = m1;
                        b.transitions.insert(name.clone(), t).unwrap();
                        OpName::Transition(name)
                    }
                };
                if m1 == Final {
                    expected.push(E::OpFinal(op));
                } else if m2 == Abstract {
                    expected.push(E::OpNoOverride(op));
                }
            }
            5 => {
                let ops = [None, Some(p.transition.clone()), Some(second().transition)];
                let (d1, d2) = (sx::choose(3), sx::choose(3));
                a.default_operation = ops[d1].clone();
                b.default_operation = ops[d2].clone();
                if d1 != 0 && d2 != 0 && d1 != d2 {
                    expected.push(E::DefaultOverride);
                }
            }
            _ => {}
        }
        let r = a.clone().extended(b.clone(), "Both");
        if !expected.is_empty() {
            sx::check(r == Err(expected), "a definition which breaks the original one is told");
            sx::cover("refused");
            return;
        }
        sx::check(r.is_ok(), "definitions which keep to the original ones are accepted");
        let r = r.unwrap();
        fn joined<K: Ord + std::hash::Hash, V: PartialEq>(r: &TinyOrdMap<K, V>, a: &TinyOrdMap<K, V>, b: &TinyOrdMap<K, V>) -> bool {
            b.iter().all(|(k, v)| r.get(k) == Some(v))
                && a.iter().all(|(k, v)| b.contains_key(k) || r.get(k) == Some(v))
                && r.keys().all(|k| a.contains_key(k) || b.contains_key(k))
        }
        sx::check(joined(&r.metadata, &a.metadata, &b.metadata), "metadata of both are there");
        sx::check(joined(&r.global_state, &a.global_state, &b.global_state), "global state of both is there");
        sx::check(joined(&r.assignments, &a.assignments, &b.assignments), "owned state of both is there");
        sx::check(joined(&r.valencies, &a.valencies, &b.valencies), "valencies of both are there");
        sx::check(joined(&r.errors, &a.errors, &b.errors), "errors of both are there");
        sx::check(joined(&r.extensions, &a.extensions, &b.extensions), "extensions of both are there");
        sx::check(
            joined(&r.genesis.globals, &a.genesis.globals, &b.genesis.globals)
                && joined(&r.genesis.assignments, &a.genesis.assignments, &b.genesis.assignments)
                && r.genesis.metadata.len() == 2
                && r.genesis.valencies.len() == 2
                && r.genesis.errors.len() == 2,
            "genesis has all of both",
        );
        let t = |name: &FieldName| {
            let (r, a, b) = (r.transitions.get(name).unwrap(), a.transitions.get(name), b.transitions.get(name));
            match (a, b) {
                (Some(a), Some(b)) => {
                    joined(&r.globals, &a.globals, &b.globals)
                        && joined(&r.inputs, &a.inputs, &b.inputs)
                        && joined(&r.assignments, &a.assignments, &b.assignments)
                        && r.default_assignment == a.default_assignment
                }
                (Some(x), None) | (None, Some(x)) => r == x,
                (None, None) => false,
            }
        };
        sx::check(r.transitions.len() == 2 && t(&p.transition) && t(&second().transition), "transitions of both are there");
        sx::check(r.default_operation == b.default_operation.clone().or(a.default_operation.clone()), "the default operation of one of them is kept");
        let both = tn!("Both");
        sx::check(r.name == both && r.inherits.as_slice() == [a.iface_id(), b.iface_id()], "the new interface inherits both");
        sx::cover("extended");
    }

    /// A schema inherits another one if and only if everything in it is the same there.
    fn schema_inherits() {
        let root = wide_schema();
        let mut s = wide_schema();
        let no = sx::u16();
        let (occ, _) = any_occ();
        let any = Occurrences::NoneOrMore;
        let is_any = occ == any;
        // Leaving something out is always fine
        match sx::choose(4) {
            0 => {}
            1 => drop(s.transitions.remove(&TRANSFER).unwrap()),
            2 => drop(s.owned_types.remove(&DATA).unwrap()),
            _ => drop(s.genesis.globals.remove(&MANY).unwrap()),
        }
        let fits = match sx::choose(8) {
            0 => {
                let ty = GlobalStateType::with(no);
                s.global_types.insert(ty, rgbstd::GlobalStateSchema::once(u64_ty())).unwrap();
                no == 2000
            }
            1 => {
                let ty = AssignmentType::with(no);
                s.owned_types.insert(ty, rgbstd::OwnedStateSchema::Declarative).unwrap();
                no == 4001
            }
            2 => {
                s.valency_types.push(ValencyType::with(no)).unwrap();
                no == 5000 || no == 5001
            }
            3 => {
                let t = root.transitions[&TRANSFER].clone();
                s.transitions.insert(TransitionType::with(no), t).unwrap();
                no == 10000 || no == 10001
            }
            4 => {
                let e = root.extensions[&EXTEND].clone();
                s.extensions.insert(ExtensionType::with(no), e).unwrap();
                no == 11000 || no == 11001
            }
            5 => {
                let ty = AssignmentType::with(no);
                let known = no >= 4000 && no < 4005;
                let at = TransitionType::with(10001);
                match sx::choose(3) {
                    0 => drop(s.genesis.assignments.insert(ty, occ).unwrap()),
                    1 => drop(s.transitions.get_mut(&at).unwrap().inputs.insert(ty, occ).unwrap()),
                    _ => drop(s.transitions.get_mut(&at).unwrap().assignments.insert(ty, occ).unwrap()),
                }
                known && is_any
            }
            6 => {
                let ty = GlobalStateType::with(no);
                drop(s.extensions.get_mut(&EXTEND).unwrap().globals.insert(ty, occ).unwrap());
                no == 2001 && is_any
            }
            _ => {
                let ty = ValencyType::with(no);
                match sx::choose(3) {
                    0 => {
                        s.genesis.valencies.push(ty).unwrap();
                        no == 5000
                    }
                    1 => {
                        s.extensions.get_mut(&EXTEND).unwrap().redeems.push(ty).unwrap();
                        no == 5000
                    }
                    _ => {
                        s.extensions.get_mut(&EXTEND).unwrap().valencies.push(ty).unwrap();
                        false
                    }
                }
            }
        };
        match s.check_inheritance(&root) {
            Ok(()) => {
                sx::check(fits, "a schema which differs does not inherit");
                sx::cover("inherits");
            }
            Err(e) => {
                sx::check(!fits, "a schema which has nothing else inherits");
                sx::check(e.len() == 1, "the difference is told once");
                sx::cover("differs");
            }
        }
    }
}
