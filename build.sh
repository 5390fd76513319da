#!/bin/bash
# Usage: build.sh [mc] [terms] [repo]   Builds the engines against, and the programs of, /repo's working tree.
# Cargo looks at modification times only; the stamps make it look at contents.
. /verif/env.sh
hash=$(cd /repo && find Cargo.toml Cargo.lock core cli web -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
for what in "$@"; do
	case $what in
	mc|terms)
		dir=/verif/target/release
		[ "$(cat $dir/.$what-stamp 2>/dev/null)" = "$hash" ] || rm -rf $dir/.fingerprint/subweight-* $dir/.fingerprint/mc-*
		mkdir -p $dir
		CARGO_INCREMENTAL=0 cargo build --release --offline --bin $what --manifest-path /verif/mc/Cargo.toml --target-dir /verif/target >/verif/target/$what.log 2>&1 || {
			cat /verif/target/$what.log; echo "building the engines failed"; exit 2; }
		echo "$hash" > $dir/.$what-stamp ;;
	repo)
		# The same build as /opt/vp/build.sh makes, so that its dependencies are reused.
		dir=/repo/target/debug
		[ "$(cat $dir/.mc-stamp 2>/dev/null)" = "$hash" ] || rm -rf $dir/.fingerprint/subweight-*
		mkdir -p $dir /verif/target
		(cd /repo && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/repo/target cargo test --workspace --all-targets --no-run --offline) >/verif/target/repo.log 2>&1 || {
			cat /verif/target/repo.log; echo "building /repo failed"; exit 2; }
		echo "$hash" > $dir/.mc-stamp
		# What stands between the programs and their surroundings.
		mkdir -p /verif/target/shim
		for s in fakegit:git clock:clock.so gate:gate.so crash:crash.so; do
			src=/verif/shim/${s%:*}.c out=/verif/target/shim/${s#*:}
			[ -f $src ] || continue
			[ $out -nt $src ] && continue
			case $out in *.so) f="-shared -fPIC -ldl" ;; *) f= ;; esac
			gcc -O1 -Wall -o $out.tmp $src $f && mv $out.tmp $out || { echo "building $src failed"; exit 2; }
		done ;;
	esac
done
