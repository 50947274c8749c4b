# one.sh MODULE FUNCTION-PATTERN : re-splice and verify one function
cd /verif; python3 tools/splice.py .build/norm.rs .build/out.rs | grep -v functions
timeout 900 verus .build/out.rs --verify-only-module $1 --verify-function "$2" --num-threads 8 ${@:3} 2>&1 | grep -v "^warning\|inconsistent\|^ *--> .*10691\|^note: verif" | sed -n "/^error/,\$p" | head -${N:-70}
