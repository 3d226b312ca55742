cd /verif; for p in "$@"; do VERIF_SEED=1 python3 check.py $p 2>&1 | tail -4 | cut -c1-400; done
