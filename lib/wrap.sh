#!/bin/bash
case " $* " in
*" --crate-name hsym "*)
	a=()
	for x in "${@:2}"; do case $x in --emit=*) ;; *) a+=("$x");; esac; done
	exec "$1" "${a[@]}" --emit=llvm-bc ;;
*) exec "$@" ;;
esac
