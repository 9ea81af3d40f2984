#![allow(non_snake_case, unused_imports, clippy::all)]
mod util;
#[cfg(feature = "m_vector")] pub mod g_vector;
#[cfg(feature = "m_convert")] pub mod g_convert;
#[cfg(feature = "m_misc")] pub mod g_misc;
#[cfg(feature = "m_matrix")] pub mod g_matrix;
#[cfg(feature = "m_packed_vector")] pub mod g_packed_vector;
#[cfg(feature = "m_lib")] pub mod g_lib;
#[cfg(feature = "m_collision")] pub mod g_collision;
#[cfg(feature = "m_ops")] pub mod g_ops;
