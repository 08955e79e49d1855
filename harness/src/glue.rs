//! Typed access tables over the generated types (tables written by tools/gen_glue.py).
use crate::{m, u};
use serde_json::{from_value, Value};

pub fn js<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap_or_else(|e| Value::String(format!("cannot serialize: {e}")))
}
fn e2s(e: serde_json::Error) -> String {
    e.to_string()
}

pub struct Members {
    pub name: &'static str,
    /// (JSON name, value of the public field); "*" is the map of members the schema does not name
    pub get: fn(&Value) -> Result<Vec<(&'static str, Value)>, String>,
}
macro_rules! members {
    ($( $t:ident { $($j:literal => $f:ident),* $(; $e:ident)? } ),* $(,)?) => {
        pub static MEMBERS: &[Members] = &[ $( Members { name: stringify!($t), get: |v| {
            let x: m::$t = from_value(v.clone()).map_err(e2s)?;
            Ok(vec![ $( ($j, js(&x.$f)), )* $( ("*", js(&x.$e)), )? ])
        } } ),* ];
    };
}

pub struct Ctor {
    pub name: &'static str,
    pub args: &'static [&'static str],
    /// rebuilds the value from its own members through the constructor
    pub build: fn(&Value) -> Result<Value, String>,
}
macro_rules! news {
    ($( $t:ident( $($f:ident $j:literal),* ) ),* $(,)?) => {
        pub static CTORS: &[Ctor] = &[ $( Ctor { name: stringify!($t), args: &[$($j),*], build: |v| {
            #[allow(unused_variables)]
            let x: m::$t = from_value(v.clone()).map_err(e2s)?;
            Ok(js(&m::$t::new($(x.$f.clone()),*)))
        } } ),* ];
    };
}

pub struct Const {
    pub name: &'static str,
    pub member: &'static str,
    /// instance accessor, associated functions (the current and the deprecated one)
    pub get: fn(&Value) -> Result<(Value, [Option<Value>; 2]), String>,
}
macro_rules! const_fn {
    ($t:ident, _) => {
        None
    };
    ($t:ident, $f:ident) => {
        Some(js(&m::$t::$f()))
    };
}
macro_rules! consts {
    ($( $t:ident . $f:ident $j:literal $g:tt $h:tt ),* $(,)?) => {
        #[allow(deprecated)]
        pub static CONSTS: &[Const] = &[ $( Const { name: stringify!($t), member: $j, get: |v| {
            let x: m::$t = from_value(v.clone()).map_err(e2s)?;
            Ok((js(&x.$f()), [const_fn!($t, $g), const_fn!($t, $h)]))
        } } ),* ];
    };
}

pub struct Conv {
    pub from: &'static str,
    pub to: &'static str,
    pub rule: &'static str,
    /// wire form of the result, and whether it sits in the variant of its type
    pub run: fn(&Value) -> Result<(Value, Option<bool>), String>,
}
macro_rules! in_variant {
    ($b:expr, $B:path, _) => {
        None
    };
    ($b:expr, $B:path, $v:ident) => {{
        use $B as E;
        Some(matches!($b, E::$v(..)))
    }};
}
macro_rules! convs {
    ($( $a:path => $b:path, $an:literal, $bn:literal, $rule:ident, $v:tt );* $(;)?) => {
        pub static CONVS: &[Conv] = &[ $( Conv { from: $an, to: $bn, rule: stringify!($rule), run: |v| {
            let x: $a = from_value(v.clone()).map_err(e2s)?;
            let y: $b = x.into();
            Ok((js(&y), in_variant!(y, $b, $v)))
        } } ),* ];
    };
}

pub struct Tries {
    pub union: &'static str,
    pub from: &'static str,
    pub run: fn(&Value) -> Result<Vec<(&'static str, Result<Value, Value>)>, String>,
}
macro_rules! tries {
    ($( $s:path, $sn:literal, $a:path, $an:literal, [ $( $t:path, $tn:literal );* ] )|* ) => {
        pub static TRIES: &[Tries] = &[ $( Tries { union: $sn, from: $an, run: |v| {
            let x: $a = from_value(v.clone()).map_err(e2s)?;
            let s: $s = x.into();
            Ok(vec![ $( ($tn, <$t>::try_from(s.clone()).map(|t| js(&t)).map_err(|e| js(&e))) ),* ])
        } } ),* ];
    };
}

#[cfg(feature = "fam_a")]
pub struct Wrap {
    pub payload: &'static str,
    pub message: &'static str,
    /// through `from_message` and through `to_message`, with the given id
    #[allow(clippy::type_complexity)]
    pub run: fn(&Value, Option<m::RequestId>) -> Result<(Result<Value, Value>, Result<Value, Value>), String>,
}
#[cfg(feature = "fam_a")]
macro_rules! wraps {
    ($( $t:ident => $m:ident ),* $(,)?) => {
        pub static WRAPS: &[Wrap] = &[ $( Wrap { payload: stringify!($t), message: stringify!($m), run: |v, id| {
            use crate::u::{FromMessage, ToMessage};
            let x: m::$t = from_value(v.clone()).map_err(e2s)?;
            let a = u::$m::from_message(x.clone(), id.clone()).map(|y| js(&y)).map_err(|e| js(&e));
            let b: Result<u::$m, _> = x.to_message(id);
            Ok((a, b.map(|y| js(&y)).map_err(|e| js(&e))))
        } } ),* ];
    };
}

#[cfg(feature = "v2024_11_05")]
include!("glue_2024_11_05.rs");
#[cfg(feature = "v2025_03_26")]
include!("glue_2025_03_26.rs");
#[cfg(feature = "v2025_06_18")]
include!("glue_2025_06_18.rs");
#[cfg(feature = "v2025_11_25")]
include!("glue_2025_11_25.rs");
#[cfg(feature = "v2026_07_28")]
include!("glue_2026_07_28.rs");
#[cfg(feature = "vdraft")]
include!("glue_draft.rs");

pub struct UnionType {
    pub name: &'static str,
    /// (variant, type it holds)
    pub variants: &'static [(&'static str, &'static str)],
    /// whether the union has variants that hold no named type
    pub open: bool,
    /// variant the wire form is read as, and the form it is written back in
    pub run: fn(&Value) -> Result<(&'static str, Value), String>,
}
macro_rules! unions {
    (@open _) => { true };
    (@open) => { false };
    ($( $e:ident { $($v:ident($t:ident)),* $(; $o:tt)? } ),* $(,)?) => {
        pub static UNIONS: &[UnionType] = &[ $( UnionType {
            name: stringify!($e),
            variants: &[ $((stringify!($v), stringify!($t))),* ],
            open: unions!(@open $($o)?),
            run: |v| {
                let x: m::$e = from_value(v.clone()).map_err(e2s)?;
                let name = match &x {
                    $( m::$e::$v(..) => stringify!($v), )*
                    #[allow(unreachable_patterns)]
                    _ => "?",
                };
                Ok((name, js(&x)))
            },
        } ),* ];
    };
}
#[cfg(feature = "v2024_11_05")]
include!("unions_2024_11_05.rs");
#[cfg(feature = "v2025_03_26")]
include!("unions_2025_03_26.rs");
#[cfg(feature = "v2025_06_18")]
include!("unions_2025_06_18.rs");
#[cfg(feature = "v2025_11_25")]
include!("unions_2025_11_25.rs");
#[cfg(feature = "v2026_07_28")]
include!("unions_2026_07_28.rs");
#[cfg(feature = "vdraft")]
include!("unions_draft.rs");
