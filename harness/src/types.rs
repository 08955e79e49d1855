use crate::m;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;

pub struct TypeEntry {
    pub name: &'static str,
    /// from_value then to_value
    pub rt: fn(&Value) -> Result<Value, String>,
    /// from_str then to_string
    pub rt_str: fn(&str) -> Result<String, String>,
    /// from_slice then to_vec
    pub rt_slice: fn(&[u8]) -> Result<Vec<u8>, String>,
    /// from_reader (no borrowed input) then to_string_pretty
    pub rt_reader: fn(&[u8]) -> Result<String, String>,
    pub sink: fn(&Value, usize) -> Result<(Vec<u8>, bool), String>,
    pub lost: fn(&[u8]) -> bool,
    /// a copy of the value read, written (where the type can be copied)
    pub copy: fn(&Value) -> Result<Option<Value>, String>,
    /// the type's default value, written (where it has one)
    pub blank: fn() -> Option<Value>,
}

/// Finds out what a type can do: a method for `Probe<T>` is preferred to the one for `&Probe<T>`.
pub struct Probe<T>(pub std::marker::PhantomData<T>);
pub trait Copies<T> {
    fn copy(&self, t: &T) -> Option<T>;
}
impl<T: Clone> Copies<T> for Probe<T> {
    fn copy(&self, t: &T) -> Option<T> {
        Some(t.clone())
    }
}
pub trait NoCopies<T> {
    fn copy(&self, _: &T) -> Option<T> {
        None
    }
}
impl<T> NoCopies<T> for &Probe<T> {}
pub trait Blank {
    fn blank(&self) -> Option<Value>;
}
impl<T: Default + Serialize> Blank for Probe<T> {
    fn blank(&self) -> Option<Value> {
        Some(serde_json::to_value(T::default()).unwrap_or_else(|e| Value::String(format!("serialize: {e}"))))
    }
}
pub trait NoBlank {
    fn blank(&self) -> Option<Value> {
        None
    }
}
impl<T> NoBlank for &Probe<T> {}
#[macro_export]
macro_rules! copy_of {
    ($t:ty, $v:expr) => {{
        #[allow(unused_imports)]
        use $crate::types::{Copies, NoCopies, Probe};
        let t: $t = serde_json::from_value($v.clone()).map_err(|e| e.to_string())?;
        #[allow(clippy::needless_borrow)]
        let copy = (&Probe::<$t>(std::marker::PhantomData)).copy(&t);
        drop(t);
        copy.map(|x| serde_json::to_value(&x).map_err(|e| format!("serialize: {e}"))).transpose()
    }};
}

fn rt<T: DeserializeOwned + Serialize>(v: &Value) -> Result<Value, String> {
    let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    serde_json::to_value(&t).map_err(|e| format!("serialize: {e}"))
}
fn rt_str<T: DeserializeOwned + Serialize>(v: &str) -> Result<String, String> {
    let t: T = serde_json::from_str(v).map_err(|e| e.to_string())?;
    serde_json::to_string(&t).map_err(|e| format!("serialize: {e}"))
}
fn rt_slice<T: DeserializeOwned + Serialize>(v: &[u8]) -> Result<Vec<u8>, String> {
    let t: T = serde_json::from_slice(v).map_err(|e| e.to_string())?;
    serde_json::to_vec(&t).map_err(|e| format!("serialize: {e}"))
}
/// Hands out the input in small pieces.
struct Slow<'a>(&'a [u8]);
impl std::io::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(b.len()).min(3);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn rt_reader<T: DeserializeOwned + Serialize>(v: &[u8]) -> Result<String, String> {
    let t: T = serde_json::from_reader(Slow(v)).map_err(|e| e.to_string())?;
    serde_json::to_string_pretty(&t).map_err(|e| format!("serialize: {e}"))
}

/// A writer that takes so many bytes and then fails.
pub struct Full {
    pub left: usize,
    pub taken: Vec<u8>,
}
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return Err(std::io::Error::other("no room left"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.taken.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A reader that fails after its bytes.
struct Broken<'a>(&'a [u8]);
impl std::io::Read for Broken<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Err(std::io::Error::other("connection lost"));
        }
        let n = self.0.len().min(b.len()).min(3);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// Writes a value into a sink with room for so many bytes: what the sink took, and whether the writer reported success.
pub fn sink<T: DeserializeOwned + Serialize>(v: &Value, room: usize) -> Result<(Vec<u8>, bool), String> {
    let t: T = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    let mut w = Full { left: room, taken: vec![] };
    let ok = serde_json::to_writer(&mut w, &t).is_ok();
    Ok((w.taken, ok))
}
/// Reads from a stream that is lost after the given bytes: whether it was accepted all the same.
pub fn lost<T: DeserializeOwned + Serialize>(b: &[u8]) -> bool {
    serde_json::from_reader::<_, T>(Broken(b)).is_ok()
}

macro_rules! reg {
    ($($t:ident),* $(,)?) => {
        pub static TYPES: &[TypeEntry] = &[
            $(TypeEntry { name: stringify!($t), rt: rt::<m::$t>, rt_str: rt_str::<m::$t>, rt_slice: rt_slice::<m::$t>, rt_reader: rt_reader::<m::$t>, sink: sink::<m::$t>, lost: lost::<m::$t>,
                copy: |v| copy_of!(m::$t, v),
                blank: || (&Probe::<m::$t>(std::marker::PhantomData)).blank() },)*
        ];
    };
}

#[cfg(feature = "v2024_11_05")]
include!("registry_2024_11_05.rs");
#[cfg(feature = "v2025_03_26")]
include!("registry_2025_03_26.rs");
#[cfg(feature = "v2025_06_18")]
include!("registry_2025_06_18.rs");
#[cfg(feature = "v2025_11_25")]
include!("registry_2025_11_25.rs");
#[cfg(feature = "v2026_07_28")]
include!("registry_2026_07_28.rs");
#[cfg(feature = "vdraft")]
include!("registry_draft.rs");
