//! All combinations of answers of up to four providers, through the library's own reductions.
#[cfg(not(feature = "peek"))]
pub fn all() -> (u64, Option<String>) {
    (0, None)
}
#[cfg(feature = "peek")]
pub fn all() -> (u64, Option<String>) {
    // the library logs each disagreement to its output
    use std::io::Write;
    std::io::stdout().flush().ok();
    unsafe {
        let (o, e) = (libc::dup(1), libc::dup(2));
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        let r = std::panic::catch_unwind(combinations);
        std::io::stdout().flush().ok();
        libc::dup2(o, 1);
        libc::dup2(e, 2);
        for f in [o, e, null] {
            libc::close(f);
        }
        r.unwrap_or_else(|_| (0, Some("a combination of answers traps".to_string())))
    }
}
#[cfg(feature = "peek")]
fn combinations() -> (u64, Option<String>) {
    use evm_minter::rpc_client::ReducedResult;
    use evm_rpc_types as er;
    type V = (u64, u64);
    let vals: Vec<Result<V, er::RpcError>> = vec![
        Ok((0, 0)),
        Ok((0, 1)),
        Ok((1, 0)),
        Ok((2, 5)),
        Err(er::RpcError::JsonRpcError(er::JsonRpcError { code: -1, message: "a".into() })),
        Err(er::RpcError::JsonRpcError(er::JsonRpcError { code: -2, message: "b".into() })),
        Err(er::RpcError::HttpOutcallError(er::HttpOutcallError::InvalidHttpJsonRpcResponse { status: 500, body: "c".into(), parsing_error: None })),
    ];
    let svc = |i: usize| er::RpcService::Custom(er::RpcApi { url: format!("https://p{i}"), headers: None });
    let mut count = 0;
    for n in 1..=4usize {
        for c in 0..vals.len().pow(n as u32) {
            let mut r = c;
            let v: Vec<Result<V, er::RpcError>> = (0..n)
                .map(|_| {
                    let x = vals[r % vals.len()].clone();
                    r /= vals.len();
                    x
                })
                .collect();
            let multi = || {
                if v.iter().all(|x| *x == v[0]) {
                    er::MultiRpcResult::Consistent(v[0].clone())
                } else {
                    er::MultiRpcResult::Inconsistent(v.iter().cloned().enumerate().map(|(i, x)| (svc(i), x)).collect())
                }
            };
            let oks: Vec<V> = v.iter().filter_map(|x| x.as_ref().ok().copied()).collect();
            let out = |r: ReducedResult<V>| -> Option<V> {
                let r: Result<V, _> = r.into();
                r.ok()
            };
            let all_same = v.iter().all(|x| *x == v[0]);
            let agreed = if !oks.is_empty() && oks.iter().all(|x| *x == oks[0]) && (oks.len() >= 2 || all_same) { Some(oks[0]) } else { None };
            let eq = out(ReducedResult::from_multi_result(multi()).reduce_with_equality());
            if eq != agreed {
                return (count, Some(format!("answers {v:?} give {eq:?} where all that answered have to agree")));
            }
            for (what, got) in [
                ("the smallest", out(ReducedResult::from_multi_result(multi()).reduce_with_min_by_key(|x| *x))),
                ("the majority", out(ReducedResult::from_multi_result(multi()).reduce_with_strict_majority_by_key(|x| x.0))),
                ("any", out(ReducedResult::from_multi_result(multi()).reduce_with_only_one_key())),
            ] {
                if got.map_or(false, |g| !oks.contains(&g)) {
                    return (count, Some(format!("answers {v:?} reduced to {what} give {got:?}, which nobody reported")));
                }
                if got.is_none() && all_same && !oks.is_empty() {
                    return (count, Some(format!("answers {v:?} reduced to {what} give nothing")));
                }
            }
            count += 4;
        }
    }
    (count, None)
}
