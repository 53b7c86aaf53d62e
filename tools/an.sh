T=$(mktemp -d /tmp/tgt.XXXX)
export CARGO_TARGET_DIR=$T LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on --cap-lints=allow" RUSTC_WORKSPACE_WRAPPER=/verif/driver/target/release/dmistat
export DMI_ENTRY=$1
cd /verif/harness && timeout ${TMO:-120} cargo +nightly check --offline 2>&1 | grep -v "^ *Compiling\|^ *Checking\|^ *Finished" | python3 /tmp/view.py
/bin/rm -rf "$T"
