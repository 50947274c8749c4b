cd /verif; python3 tools/splice.py .build/norm.rs .build/out.rs || exit 1
timeout ${T:-900} verus .build/out.rs --num-threads 8 "$@" > .build/v.txt 2>&1
grep '^error' .build/v.txt | sort | uniq -c | sort -rn | head -${N:-40}; tail -5 .build/v.txt
