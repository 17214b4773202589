#!/usr/bin/env python3
"""Mirror /repo's working tree into /verif/build/ws so that the WHOLE minter compiles offline.

The published crates the minter uses come from the cargo cache; the crates it takes from
github.com/dfinity/ic are not available here and are replaced by the small shims in /verif/shims.
Files are copied only when their content differs, so cargo's incremental build works.

  build/ws/minter          the minter library (all modules, main.rs excluded), manifest adapted
  build/ws/evm_rpc_client  the client library, unchanged
  build/ws/canister        a library crate whose only module is /repo/minter/src/main.rs
  build/ws/wasm            placeholders for the ledger wasm files that the repository does not contain
"""
import os
import re
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.environ.get("VERIF_WS", os.path.join(VERIF, "build", "ws"))
SHIMS = os.path.join(VERIF, "shims")
WITH_TESTS = "--tests" in sys.argv

SHIM_OF = {
    n: n
    for n in """ic-crypto-sha2 ic-management-canister-types ic-crypto-secp256k1 ic-utils-ensure
    icrc-ledger-client-cdk icrc-ledger-types ic-ethereum-types phantom_newtype
    ic-crypto-test-utils-reproducible-rng""".split()
}
DROP = {"pocket-ic", "ic-icrc1-index-ng", "ic-icrc1-ledger"}


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, "rb").read() == data:
        return
    with open(path, "wb") as f:
        f.write(data)


def mirror(src, dst, skip=()):
    wanted = set()
    for root, _, files in os.walk(src):
        for f in files:
            full = os.path.join(root, f)
            rel = os.path.relpath(full, src)
            if rel in skip:
                continue
            out = os.path.join(dst, rel)
            wanted.add(out)
            write(out, open(full, "rb").read())
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if p not in wanted:
                os.unlink(p)


def manifest(path, with_dev):
    out, section = [], ""
    for line in open(path):
        m = re.match(r"\s*\[(.+)\]\s*$", line)
        if m:
            section = m.group(1)
        dev = "dev-dependencies" in section or section.startswith("target.")
        if dev and not with_dev:
            continue
        m = re.match(r"\s*([\w-]+)\s*=", line)
        if m and m.group(1) in DROP:
            continue
        if m and "github.com/dfinity/ic" in line:
            n = m.group(1)
            if n not in SHIM_OF:
                continue
            line = '%s = { path = "%s/%s" }\n' % (n, SHIMS, SHIM_OF[n])
        out.append(line)
    return "".join(out)


def main():
    mirror(f"{REPO}/evm_rpc_client/src", f"{WS}/evm_rpc_client/src")
    write(f"{WS}/evm_rpc_client/Cargo.toml", manifest(f"{REPO}/evm_rpc_client/Cargo.toml", WITH_TESTS))
    mirror(f"{REPO}/minter/src", f"{WS}/minter/src", skip=("main.rs",))
    if WITH_TESTS:
        p = f"{WS}/minter/src/tests.rs"
        s = open(p).read()
        s = re.sub(r"#\[cfg\(test\)\]\n(pub )?mod (lsm_types|minter_flow_tets|pocket_ic_helpers);\n", "", s)
        write(p, s)
    lints = '\n[lints.rust]\nwarnings = "allow"\n'
    write(f"{WS}/minter/Cargo.toml", manifest(f"{REPO}/minter/Cargo.toml", WITH_TESTS) + lints)
    for w in ("index_ng_canister_u256.wasm.gz", "ledger_canister_u256.wasm.gz",
              "index_ng_canister_u256.raw.wasm", "ledger_canister_u256.raw.wasm"):
        real = f"{REPO}/wasm/{w}"
        write(f"{WS}/wasm/{w}", open(real, "rb").read() if os.path.exists(real) else b"placeholder " + w.encode())
    # the canister entry points
    deps = manifest(f"{REPO}/minter/Cargo.toml", False)
    i = deps.index("[dependencies]")
    body = deps[i:].replace("[dependencies]", '[dependencies]\nevm_minter = { path = "../minter" }', 1)
    write(f"{WS}/canister/Cargo.toml",
          '[package]\nname = "minter_canister"\nversion = "0.1.0"\nedition = "2021"\n\n' + body + lints)
    write(f"{WS}/canister/src/main_rs.rs", open(f"{REPO}/minter/src/main.rs", "rb").read())
    write(f"{WS}/canister/src/lib.rs", "//! generated\n#[path = \"main_rs.rs\"]\npub mod canister;\npub fn link() {}\n")


main()
