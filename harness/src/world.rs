//! A small contract world: one schema with every kind of state, an interface, its implementation,
//! and helpers building genesis, transitions, witnesses and consignments from it.

use std::collections::BTreeMap;

use amplify::confinement::{Confined, TinyOrdMap, TinyOrdSet};
use amplify::Wrapper;
use bp::{Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, TxVer, Txid};
use rgbstd::interface::{
    AssignIface, ContractBuilder, ExtensionIface, GenesisIface, GlobalIface, Iface, IfaceImpl, Modifier, NamedField,
    OwnedIface, Req, TransitionIface, ValencyIface, VerNo,
};
use rgbstd::validation::{ResolveWitness, WitnessResolverError};
use rgbstd::vm::{WitnessOrd, WitnessPos};
use rgbstd::{
    AssetTag, AssignmentType, ExtensionSchema, ExtensionType, FungibleType, GenesisSchema, GlobalStateSchema,
    GlobalStateType, Identity, MediaType, MetaType, Occurrences, OwnedStateSchema, Schema, TransitionSchema,
    TransitionType, ValencyType, XChain, XWitnessId,
};
use strict_encoding::{tn, FieldName};
use strict_types::{SemId, Ty, TypeSystem};

pub const FUNGIBLE: AssignmentType = AssignmentType::with(4000);
pub const RIGHT: AssignmentType = AssignmentType::with(4001);
pub const DATA: AssignmentType = AssignmentType::with(4002);
pub const ATTACH: AssignmentType = AssignmentType::with(4003);
pub const FUNGIBLE2: AssignmentType = AssignmentType::with(4004);
pub const ONCE: GlobalStateType = GlobalStateType::with(2000);
pub const MANY: GlobalStateType = GlobalStateType::with(2001);
pub const META: MetaType = MetaType::with(1000);
pub const VALENCY: ValencyType = ValencyType::with(5000);
pub const TRANSFER: TransitionType = TransitionType::with(10000);
pub const EXTEND: ExtensionType = ExtensionType::with(11000);

pub fn tag() -> AssetTag { AssetTag::from([7u8; 32]) }
pub fn tag2() -> AssetTag { AssetTag::from([8u8; 32]) }

pub fn fname(s: &'static str) -> FieldName { FieldName::from(s) }

pub fn u64_ty() -> SemId { Ty::<SemId>::U64.sem_id_unnamed() }

fn byte_ty() -> SemId { Ty::<SemId>::BYTE.sem_id_unnamed() }

/// Twelve bytes, the size of a token allocation.
pub fn item_ty() -> SemId { Ty::<SemId>::Array(byte_ty(), 12).sem_id_unnamed() }

pub fn types() -> TypeSystem {
    let mut map = BTreeMap::new();
    map.insert(u64_ty(), Ty::<SemId>::U64);
    map.insert(byte_ty(), Ty::<SemId>::BYTE);
    map.insert(item_ty(), Ty::Array(byte_ty(), 12));
    TypeSystem::from_inner(Confined::from_checked(map))
}

fn all<K: Ord + Copy + std::hash::Hash, V: Clone>(keys: &[K], v: V) -> TinyOrdMap<K, V> {
    TinyOrdMap::from_iter_checked(keys.iter().map(|k| (*k, v.clone())))
}

pub fn schema() -> Schema { schema_with(false) }

/// Schema metadata is mandatory in every operation listing it.
pub fn schema_with(meta: bool) -> Schema {
    let metadata = || TinyOrdSet::from_iter_checked(meta.then_some(META));
    let owned = [FUNGIBLE, RIGHT, DATA, ATTACH, FUNGIBLE2];
    let any = Occurrences::NoneOrMore;
    Schema {
        ffv: Default::default(),
        flags: Default::default(),
        name: tn!("World"),
        timestamp: 1_700_000_000,
        developer: Identity::default(),
        meta_types: all(&[META], u64_ty()),
        global_types: TinyOrdMap::from_iter_checked([
            (ONCE, GlobalStateSchema::once(u64_ty())),
            (MANY, GlobalStateSchema::many(u64_ty())),
        ]),
        owned_types: TinyOrdMap::from_iter_checked([
            (FUNGIBLE, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
            (RIGHT, OwnedStateSchema::Declarative),
            (DATA, OwnedStateSchema::Structured(item_ty())),
            (ATTACH, OwnedStateSchema::Attachment(MediaType::Any)),
            (FUNGIBLE2, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
        ]),
        valency_types: TinyOrdSet::from_iter_checked([VALENCY]),
        genesis: GenesisSchema {
            metadata: metadata(),
            globals: TinyOrdMap::from_iter_checked([(ONCE, Occurrences::NoneOrOnce), (MANY, any.clone())]),
            assignments: all(&owned, any.clone()),
            valencies: TinyOrdSet::from_iter_checked([VALENCY]),
            validator: None,
        },
        extensions: all(&[EXTEND], ExtensionSchema {
            metadata: Default::default(),
            globals: all(&[MANY], any.clone()),
            redeems: TinyOrdSet::from_iter_checked([VALENCY]),
            assignments: all(&owned, any.clone()),
            valencies: Default::default(),
            validator: None,
        }),
        transitions: all(&[TRANSFER], TransitionSchema {
            metadata: metadata(),
            globals: all(&[MANY], any.clone()),
            inputs: all(&owned, any.clone()),
            assignments: all(&owned, any.clone()),
            valencies: Default::default(),
            validator: None,
        }),
        reserved: Default::default(),
    }
}

pub fn iface() -> Iface { iface_with(false) }

pub fn iface_with(meta: bool) -> Iface {
    let metadata = || TinyOrdSet::from_iter_checked(meta.then(|| fname("meta")));
    let owned = || {
        TinyOrdMap::from_iter_checked(
            ["asset", "right", "item", "file", "second"].map(|n| (fname(n), Occurrences::NoneOrMore)),
        )
    };
    let many = || TinyOrdMap::from_iter_checked([(fname("many"), Occurrences::NoneOrMore)]);
    Iface {
        version: VerNo::V1,
        name: tn!("WorldIface"),
        inherits: Default::default(),
        timestamp: 1_700_000_000,
        metadata: TinyOrdMap::from_iter_checked([(fname("meta"), u64_ty())]),
        global_state: TinyOrdMap::from_iter_checked([
            (fname("once"), GlobalIface::optional(u64_ty())),
            (fname("many"), GlobalIface::none_or_many(u64_ty())),
        ]),
        assignments: TinyOrdMap::from_iter_checked([
            (fname("asset"), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)),
            (fname("right"), AssignIface::public(OwnedIface::Rights, Req::NoneOrMore)),
            (fname("item"), AssignIface::private(OwnedIface::Data(item_ty()), Req::NoneOrMore)),
            (fname("file"), AssignIface::private(OwnedIface::AnyAttach, Req::NoneOrMore)),
            (fname("second"), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)),
        ]),
        valencies: TinyOrdMap::from_iter_checked([(fname("valency"), ValencyIface { required: false })]),
        genesis: GenesisIface {
            modifier: Modifier::Final,
            metadata: metadata(),
            globals: TinyOrdMap::from_iter_checked([
                (fname("once"), Occurrences::NoneOrOnce),
                (fname("many"), Occurrences::NoneOrMore),
            ]),
            assignments: owned(),
            valencies: TinyOrdSet::from_iter_checked([fname("valency")]),
            errors: Default::default(),
        },
        transitions: TinyOrdMap::from_iter_checked([(fname("transfer"), TransitionIface {
            modifier: Modifier::Final,
            optional: false,
            metadata: metadata(),
            globals: many(),
            inputs: owned(),
            assignments: owned(),
            valencies: Default::default(),
            errors: Default::default(),
            default_assignment: Some(fname("asset")),
        })]),
        extensions: TinyOrdMap::from_iter_checked([(fname("extend"), ExtensionIface {
            modifier: Modifier::Final,
            optional: false,
            metadata: Default::default(),
            globals: many(),
            assignments: owned(),
            redeems: TinyOrdSet::from_iter_checked([fname("valency")]),
            valencies: Default::default(),
            errors: Default::default(),
            default_assignment: Some(fname("asset")),
        })]),
        default_operation: Some(fname("transfer")),
        errors: Default::default(),
        developer: Identity::default(),
    }
}

pub fn iimpl(schema: &Schema, iface: &Iface) -> IfaceImpl {
    IfaceImpl {
        version: VerNo::V1,
        schema_id: schema.schema_id(),
        iface_id: iface.iface_id(),
        timestamp: 1_700_000_000,
        metadata: TinyOrdSet::from_iter_checked([NamedField::with(META, fname("meta"))]),
        global_state: TinyOrdSet::from_iter_checked([
            NamedField::with(ONCE, fname("once")),
            NamedField::with(MANY, fname("many")),
        ]),
        assignments: TinyOrdSet::from_iter_checked([
            NamedField::with(FUNGIBLE, fname("asset")),
            NamedField::with(RIGHT, fname("right")),
            NamedField::with(DATA, fname("item")),
            NamedField::with(ATTACH, fname("file")),
            NamedField::with(FUNGIBLE2, fname("second")),
        ]),
        valencies: TinyOrdSet::from_iter_checked([NamedField::with(VALENCY, fname("valency"))]),
        transitions: TinyOrdSet::from_iter_checked([NamedField::with(TRANSFER, fname("transfer"))]),
        extensions: TinyOrdSet::from_iter_checked([NamedField::with(EXTEND, fname("extend"))]),
        errors: Default::default(),
        developer: Identity::default(),
    }
}

pub fn builder() -> ContractBuilder { builder_with(false) }

pub fn builder_with(meta: bool) -> ContractBuilder {
    let (schema, iface) = (schema_with(meta), iface_with(meta));
    let iimpl = iimpl(&schema, &iface);
    ContractBuilder::deterministic(Identity::default(), iface, schema, iimpl, types(), Default::default())
        .add_asset_tag("asset", tag())
        .unwrap()
        .add_asset_tag("second", tag2())
        .unwrap()
}

/// A transaction spending the given outpoints, with `outs` plain outputs after an OP_RETURN output
/// carrying the commitment.
pub fn tx(inputs: &[Outpoint], outs: u32, commitment: [u8; 32]) -> Tx {
    let mut outputs = vec![TxOut::new(ScriptPubkey::op_return(&commitment), Sats::ZERO)];
    for _ in 0..outs {
        outputs.push(TxOut::new(ScriptPubkey::default(), Sats::from(1000u64)));
    }
    Tx {
        version: TxVer::V2,
        inputs: Confined::from_checked(
            inputs
                .iter()
                .map(|o| TxIn {
                    prev_output: *o,
                    sig_script: Default::default(),
                    sequence: SeqNo::from_consensus_u32(0),
                    witness: Default::default(),
                })
                .collect(),
        ),
        outputs: Confined::from_checked(outputs),
        lock_time: Default::default(),
    }
}

pub fn txid(n: u8) -> Txid { Txid::from([n; 32]) }

/// What the resolver knows.
#[derive(Clone, Default)]
pub struct Net {
    pub txes: Vec<Tx>,
    pub ords: Vec<(Txid, WitnessOrd)>,
}

impl ResolveWitness for Net {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XChain<Tx>, WitnessResolverError> {
        for tx in &self.txes {
            if XChain::Bitcoin(tx.txid()) == id {
                return Ok(XChain::Bitcoin(tx.clone()));
            }
        }
        Err(WitnessResolverError::Unknown(id))
    }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        for (txid, ord) in &self.ords {
            if XChain::Bitcoin(*txid) == id {
                return Ok(*ord);
            }
        }
        Err(WitnessResolverError::Unknown(id))
    }
}

pub fn mined(height: u32, ts: i64) -> WitnessOrd { WitnessOrd::Mined(WitnessPos::bitcoin(std::num::NonZeroU32::new(height).unwrap(), ts).unwrap()) }
