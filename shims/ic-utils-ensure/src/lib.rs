#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!("Condition {} is false: {}", stringify!($cond), format!($($arg)*)));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr $(,)?) => {
        match (&$l, &$r) {
            (l, r) => {
                if !(*l == *r) {
                    return Err(format!("{} != {}: {:?} != {:?}", stringify!($l), stringify!($r), l, r));
                }
            }
        }
    };
    ($l:expr, $r:expr, $($arg:tt)*) => {
        match (&$l, &$r) {
            (l, r) => {
                if !(*l == *r) {
                    return Err(format!("{} != {}: {:?} != {:?}: {}", stringify!($l), stringify!($r), l, r, format!($($arg)*)));
                }
            }
        }
    };
}
