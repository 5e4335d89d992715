//! feature: serial needs nets
//! C19: the `Serialize`/`Deserialize` impls derived for the real types (and representative ones),
//! executed against an exact in-memory format that keeps every value, name and variant: field by name
//! in any order (as JSON and YAML do) and by position (as bincode does).
use crate::nets::any_ring;
use crate::types::*;
use crate::vrt::*;
use crate::adaptive::any_config;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thrml_mass_w_bc_sys::SystemState3TM;
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;

/// a value in the format
#[derive(Clone, PartialEq)]
pub enum Tree {
    Unit,
    Bool(bool),
    U8(u8),
    U64(u64),
    F64(f64),
    Text(String),
    None,
    Some(Box<Tree>),
    Seq(Vec<Tree>),
    Struct(Vec<(&'static str, Tree)>),
    /// variant index, name, content
    Variant(u32, &'static str, Box<Tree>),
    /// a whole sequence of numbers, kept as it is (the verifier's contract of serde's `Vec` impls)
    Kept,
}
#[derive(Debug)]
pub struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Bad
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Bad
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Bad
    }
    fn missing_field(_: &'static str) -> Self {
        Bad
    }
    fn duplicate_field(_: &'static str) -> Self {
        Bad
    }
}
// ------------------------------------------------------------------------------------------ writing
pub struct Put;
pub struct PutSeq(Vec<Tree>);
pub struct PutStruct {
    fields: Vec<(&'static str, Tree)>,
    variant: Option<(u32, &'static str)>,
}
impl ser::Serializer for Put {
    type Ok = Tree;
    type Error = Bad;
    type SerializeSeq = PutSeq;
    type SerializeTuple = PutSeq;
    type SerializeTupleStruct = ser::Impossible<Tree, Bad>;
    type SerializeTupleVariant = ser::Impossible<Tree, Bad>;
    type SerializeMap = ser::Impossible<Tree, Bad>;
    type SerializeStruct = PutStruct;
    type SerializeStructVariant = PutStruct;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Result<Tree, Bad> {
        Ok(Tree::Bool(v))
    }
    fn serialize_i8(self, _: i8) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_i16(self, _: i16) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_i32(self, _: i32) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_i64(self, _: i64) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_u8(self, v: u8) -> Result<Tree, Bad> {
        Ok(Tree::U8(v))
    }
    fn serialize_u16(self, _: u16) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_u32(self, _: u32) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_u64(self, v: u64) -> Result<Tree, Bad> {
        Ok(Tree::U64(v))
    }
    fn serialize_f32(self, _: f32) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_f64(self, v: f64) -> Result<Tree, Bad> {
        Ok(Tree::F64(v))
    }
    fn serialize_char(self, _: char) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_str(self, v: &str) -> Result<Tree, Bad> {
        Ok(Tree::Text(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Tree, Bad> {
        Err(Bad)
    }
    fn serialize_none(self) -> Result<Tree, Bad> {
        Ok(Tree::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tree, Bad> {
        match v.serialize(Put) {
            Ok(t) => Ok(Tree::Some(Box::new(t))),
            Err(e) => Err(e),
        }
    }
    fn serialize_unit(self) -> Result<Tree, Bad> {
        Ok(Tree::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tree, Bad> {
        Ok(Tree::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<Tree, Bad> {
        Ok(Tree::Variant(i, n, Box::new(Tree::Unit)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tree, Bad> {
        v.serialize(Put)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Tree, Bad> {
        match v.serialize(Put) {
            Ok(t) => Ok(Tree::Variant(i, n, Box::new(t))),
            Err(e) => Err(e),
        }
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<PutSeq, Bad> {
        Ok(PutSeq(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<PutSeq, Bad> {
        Ok(PutSeq(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> {
        Err(Bad)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<PutStruct, Bad> {
        Ok(PutStruct { fields: vec![], variant: None })
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<PutStruct, Bad> {
        Ok(PutStruct { fields: vec![], variant: Some((i, n)) })
    }
}
impl ser::SerializeSeq for PutSeq {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.0.push(v.serialize(Put)?);
        Ok(())
    }
    fn end(self) -> Result<Tree, Bad> {
        Ok(Tree::Seq(self.0))
    }
}
impl ser::SerializeTuple for PutSeq {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.0.push(v.serialize(Put)?);
        Ok(())
    }
    fn end(self) -> Result<Tree, Bad> {
        Ok(Tree::Seq(self.0))
    }
}
impl PutStruct {
    fn put<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Bad> {
        match v.serialize(Put) {
            Ok(t) => {
                self.fields.push((n, t));
                Ok(())
            }
            Err(e) => Err(e),
        }
    }
    fn done(self) -> Result<Tree, Bad> {
        let t = Tree::Struct(self.fields);
        Ok(match self.variant {
            Some((i, n)) => Tree::Variant(i, n, Box::new(t)),
            None => t,
        })
    }
}
impl ser::SerializeStruct for PutStruct {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Bad> {
        self.put(n, v)
    }
    fn end(self) -> Result<Tree, Bad> {
        self.done()
    }
}
impl ser::SerializeStructVariant for PutStruct {
    type Ok = Tree;
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), Bad> {
        self.put(n, v)
    }
    fn end(self) -> Result<Tree, Bad> {
        self.done()
    }
}
// ------------------------------------------------------------------------------------------ reading
/// reads a tree; `by_position` as bincode does, else by name
pub struct Get {
    tree: Tree,
    by_position: bool,
}
struct Name(&'static str);
struct Index(u32);
struct Items {
    rest: std::vec::IntoIter<Tree>,
    by_position: bool,
}
struct Fields {
    rest: std::vec::IntoIter<(&'static str, Tree)>,
    value: Option<Tree>,
}
struct Chosen {
    index: u32,
    name: &'static str,
    content: Tree,
    by_position: bool,
}
macro_rules! no {
    ($($m:ident)*) => {
        $(fn $m<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
            Err(Bad)
        })*
    };
}
macro_rules! no_shapes {
    () => {
        fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> {
            Err(Bad)
        }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> {
            Err(Bad)
        }
        fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Bad> {
            Err(Bad)
        }
        fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, Bad> {
            Err(Bad)
        }
    };
}
macro_rules! no_composites {
    () => {
        no_shapes!();
        fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> {
            Err(Bad)
        }
        fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> {
            Err(Bad)
        }
    };
}
impl<'de> de::Deserializer<'de> for Name {
    type Error = Bad;
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_str(self.0)
    }
    no!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_ignored_any);
    no_composites!();
}
impl<'de> de::Deserializer<'de> for Index {
    type Error = Bad;
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_u64(self.0 as u64)
    }
    no!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit deserialize_seq deserialize_map deserialize_ignored_any);
    no_composites!();
}
impl<'de> de::Deserializer<'de> for Get {
    type Error = Bad;
    fn is_human_readable(&self) -> bool {
        !self.by_position
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::Bool(x) => v.visit_bool(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::U8(x) => v.visit_u8(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::U64(x) => v.visit_u64(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::F64(x) => v.visit_f64(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::Text(x) => v.visit_string(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::None => v.visit_none(),
            Tree::Some(t) => v.visit_some(Get { tree: *t, by_position: self.by_position }),
            _ => Err(Bad),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::Unit => v.visit_unit(),
            _ => Err(Bad),
        }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::Seq(x) => v.visit_seq(Items { rest: x.into_iter(), by_position: self.by_position }),
            _ => Err(Bad),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        let by_position = self.by_position;
        match self.tree {
            Tree::Struct(x) => structure(x, by_position, v),
            _ => Err(Bad),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        match self.tree {
            Tree::Variant(index, name, content) => v.visit_enum(Chosen { index, name, content: *content, by_position: self.by_position }),
            _ => Err(Bad),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_unit()
    }
    no!(deserialize_any deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u16 deserialize_u32 deserialize_f32 deserialize_char deserialize_str deserialize_bytes deserialize_byte_buf deserialize_map deserialize_identifier);
    no_shapes!();
}
fn structure<'de, V: Visitor<'de>>(x: Vec<(&'static str, Tree)>, by_position: bool, v: V) -> Result<V::Value, Bad> {
    if by_position {
        let mut items = vec![];
        for (_, t) in x {
            items.push(t);
        }
        v.visit_seq(Items { rest: items.into_iter(), by_position })
    } else {
        v.visit_map(Fields { rest: x.into_iter(), value: None })
    }
}
impl<'de> de::SeqAccess<'de> for Items {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        match self.rest.next() {
            Some(tree) => match seed.deserialize(Get { tree, by_position: self.by_position }) {
                Ok(v) => Ok(Some(v)),
                Err(e) => Err(e),
            },
            None => Ok(None),
        }
    }
}
impl<'de> de::MapAccess<'de> for Fields {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Bad> {
        match self.rest.next() {
            Some((n, t)) => {
                self.value = Some(t);
                match seed.deserialize(Name(n)) {
                    Ok(v) => Ok(Some(v)),
                    Err(e) => Err(e),
                }
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        match self.value.take() {
            Some(tree) => seed.deserialize(Get { tree, by_position: false }),
            None => Err(Bad),
        }
    }
}
impl<'de> de::EnumAccess<'de> for Chosen {
    type Error = Bad;
    type Variant = Get;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, Get), Bad> {
        let v = if self.by_position { seed.deserialize(Index(self.index)) } else { seed.deserialize(Name(self.name)) };
        match v {
            Ok(v) => Ok((v, Get { tree: self.content, by_position: self.by_position })),
            Err(e) => Err(e),
        }
    }
}
impl<'de> de::VariantAccess<'de> for Get {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        match self.tree {
            Tree::Unit => Ok(()),
            _ => Err(Bad),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Bad> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        let by_position = self.by_position;
        match self.tree {
            Tree::Struct(x) => structure(x, by_position, v),
            _ => Err(Bad),
        }
    }
}
// ------------------------------------------------------------------------------------------ contracts
fn put<T: Serialize>(v: &T) -> Tree {
    match v.serialize(Put) {
        Ok(t) => t,
        Err(_) => {
            ensures("serialising succeeds", false);
            Tree::Unit
        }
    }
}
fn named(t: &Tree, fields: &[&'static str]) -> bool {
    for w in fields.iter() {
        if field(t, *w).is_none() {
            return false;
        }
    }
    true
}
fn field(t: &Tree, name: &'static str) -> Option<Tree> {
    if let Tree::Struct(f) = t {
        for (n, v) in f.iter() {
            if *n == name {
                return Some(v.clone());
            }
        }
    }
    None
}
fn back<T: Serialize + for<'a> Deserialize<'a> + PartialEq + Clone>(v: &T, t: Tree, by_position: bool) {
    match T::deserialize(Get { tree: t, by_position }) {
        Ok(w) => {
            reach("restored");
            ensures("the value is restored whole", same(&w, v))
        }
        Err(_) => ensures("restoring succeeds", false),
    }
}
fn round<T: Serialize + for<'a> Deserialize<'a> + PartialEq + Clone>(v: T, fields: &[&'static str]) {
    let old = v.clone();
    let t = put(&v);
    if !fields.is_empty() {
        ensures("every field is carried, under its own name", named(&t, fields));
    }
    back(&v, t.clone(), false);
    back(&v, t, true);
    ensures("serialising changes nothing", same(&v, &old));
    if native() {
        let b = codec::encode(3, &v);
        ensures("bincode restores the value", codec::decode::<T>(3, &b) == Some(v));
    }
}
/// a type whose fields are private: what is restored carries what was given
fn private_fields() {
    let i = any_usize("i");
    let x = any_f64("time");
    let t = Tree::Struct(vec![("time", Tree::F64(x)), ("i", Tree::U64(i as u64))]);
    match SystemState3TM::deserialize(Get { tree: t, by_position: false }) {
        Ok(s) => {
            reach("restored");
            let p = put(&s);
            ensures("private fields are carried under their own names", field(&p, "i") == Some(Tree::U64(i as u64)) && field(&p, "time") == Some(Tree::F64(x)));
            round(s, &["i", "time"]);
        }
        Err(_) => ensures("restoring succeeds", false),
    }
}
const SYSTEM: [&str; 9] = ["solver_type", "m1", "m2", "h12", "m3", "h23", "t_report", "state", "history"];

pub mod roots {
    use super::*;
    pub fn c19_mass() {
        round(any_mass(), &["c", "state", "history"])
    }
    pub fn c19_reservoir() {
        round(any_reservoir(), &["state", "history"])
    }
    pub fn c19_conductance() {
        round(any_conductance(), &["h", "state", "history"])
    }
    pub fn c19_states() {
        round(any_thermal_state(), &["temp", "dtemp"]);
        round(ConductanceState { q: any_f64("q") }, &["q"]);
        round(any_sys_state(), &["i", "time"]);
    }
    pub fn c19_histories() {
        round(any_thermal_hist(), &["temp", "dtemp"]);
        round(any_sys_hist(), &["i", "time"]);
        round(any_solver_hist(), &["dt", "n_iter", "norm_err", "norm_err_rel", "t_curr", "states"]);
        round(any_conductance().history, &["q"]);
        round(any_solver_state(), &["dt", "n_iter", "norm_err", "norm_err_rel", "t_curr", "states"]);
        round(any_phist(), &["x", "dx", "y", "n", "on"]);
    }
    pub fn c19_private_fields() {
        round(any_3tm_hist(), &["i", "time"]);
        private_fields()
    }
    pub fn c19_solver_config() {
        round(any_config(any_solver_hist()), &["dt_max", "max_iter", "atol", "rtol", "save", "save_states", "state", "history"])
    }
    pub fn c19_solver_types() {
        round(any_solver(), &[])
    }
    pub fn c19_system3tm() {
        round(any_3tm(any_solver()), &SYSTEM)
    }
    pub fn c19_system3tm_bc() {
        round(any_3tm_bc(any_solver()), &SYSTEM)
    }
    pub fn c19_mixed() {
        round(any_mixed(any_solver()), &["p", "t_report", "a", "g", "idle", "history", "b", "k", "c", "state", "solver_type"])
    }
    pub fn c19_ring() {
        round(any_ring(), &[])
    }
}
