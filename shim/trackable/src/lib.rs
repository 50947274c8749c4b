//! Expansion shim: the trackable macros without the tracking (history) side effects.
#[macro_export] macro_rules! track { ($e:expr) => {$e}; ($e:expr $(, $($a:tt)*)?) => {$e}; ($e:expr; $($a:tt)*) => {$e}; }
#[macro_export] macro_rules! track_panic { ($k:expr) => { return Err(crate::bytecodec::mkerr($k)) }; ($k:expr $(, $($a:tt)*)?) => { return Err(crate::bytecodec::mkerr($k)) }; ($k:expr; $($a:tt)*) => { return Err(crate::bytecodec::mkerr($k)) }; }
#[macro_export] macro_rules! track_assert { ($c:expr, $k:expr $(, $($a:tt)*)?) => { if !$c { return Err(crate::bytecodec::mkerr($k)) } }; ($c:expr, $k:expr; $($a:tt)*) => { if !$c { return Err(crate::bytecodec::mkerr($k)) } }; }
#[macro_export] macro_rules! track_assert_eq { ($l:expr, $r:expr, $k:expr $(, $($a:tt)*)?) => { if !($l == $r) { return Err(crate::bytecodec::mkerr($k)) } }; ($l:expr, $r:expr, $k:expr; $($a:tt)*) => { if !($l == $r) { return Err(crate::bytecodec::mkerr($k)) } }; }
#[macro_export] macro_rules! track_assert_ne { ($l:expr, $r:expr, $k:expr $(, $($a:tt)*)?) => { if !($l != $r) { return Err(crate::bytecodec::mkerr($k)) } }; ($l:expr, $r:expr, $k:expr; $($a:tt)*) => { if !($l != $r) { return Err(crate::bytecodec::mkerr($k)) } }; }
#[macro_export] macro_rules! track_assert_some { ($e:expr, $k:expr $(, $($a:tt)*)?) => { match $e { Some(v) => v, None => return Err(crate::bytecodec::mkerr($k)) } }; ($e:expr, $k:expr; $($a:tt)*) => { match $e { Some(v) => v, None => return Err(crate::bytecodec::mkerr($k)) } }; }
