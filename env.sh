# Sourced by the scripts here: toolchain and offline build settings.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly-2026-08-21 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= LANG=C.UTF-8
export CARGO_TARGET_DIR=/verif/target RUSTFLAGS="-Awarnings -Aexplicit_builtin_cfgs_in_flags" CARGO_INCREMENTAL=1
unset CI RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
# Freshness is decided by file contents: a changed /repo file is rebuilt whatever its mtime says.
CARGO="cargo -Zchecksum-freshness"
