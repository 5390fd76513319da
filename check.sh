#!/bin/bash
# Usage: check.sh <property> [--replay <file>]     The tier is that of $VERIF_TIER (quick or thorough).
cd /verif && . ./env.sh
case $1 in
	P02|P20) bash build.sh mc repo ;;
	P0[1-9]|P1[0-4]) bash build.sh mc ;;
	P30) bash build.sh terms ;;
	*) bash build.sh repo ;;
esac || exit 2
case $1 in
	P0[1-9]|P1[0-4]) exec target/release/mc "$@" ;;
	P30) exec target/release/terms "$@" ;;
	*) exec python3 py/main.py "$@" ;;
esac
